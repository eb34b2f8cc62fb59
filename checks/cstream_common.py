"""Connection streams (C09, C10): model behaviours and random histories replayed into the real code."""
from vlib import build as B, tlc as T, mbt
from vlib.check import run_scenarios, rerunner
from vlib.traces import check_traces
from vlib.http import Session

SRCS = ["common/chained_stream.cpp", "common/fragment_array_input_stream.cpp", "common/fragment_input_stream.cpp", "common/protobuf.cpp",
        "common/platform/error_unix.cpp", "common/platform/memory_unix.cpp", "common/platform/network_unix.cpp", "network/vector_write.cpp",
        "recorder/metrics_tracker.cpp", "recorder/serialization/embedded_metrics_message.cpp",
        "recorder/stream_recorder/connection_stream.cpp", "recorder/stream_recorder/span_stream.cpp"]
COMMON = b"\x0a\x03com"


def build():
    return B.build("cstream", ["cstream.cpp"], SRCS, mode="asan", protos=True)


def text(i, n):
    body = ""
    while len(body) < n:
        body += "<%d:%d>" % (i, len(body))
    return ("%X\r\n" % n + body[:n] + "\r\n").encode()


def decode(tr):
    """adds fin/part/counted to flush events"""
    texts, sess, out = {}, [], []
    for e in tr:
        e = dict(e)
        k = e["e"]
        if k == "init":
            sess = [Session(b"h%d" % i, COMMON, texts) for i in range(e["nc"])]
        elif k == "add":
            if e["ok"]:
                texts[e["id"]] = text(e["id"], e["len"])
        elif k == "flush":
            fin, part, counted = sess[e["i"]].feed(bytes.fromhex(e.pop("w")))
            e["fin"], e["part"], e["counted"] = fin, part, min(counted, 10 ** 6)
        elif k in ("reset",):
            sess[e["i"]] = Session(b"h%d" % e["i"], COMMON, texts)
        out.append(e)
    out.append({"e": "end"})
    return out


HEAD = 190   # about the length of a request head; only chooses where writes stop


def closing(nc):
    sc = ["R %d" % i for i in range(nc)]
    for i in range(nc):
        sc.append("W %d -1 0" % i)
    return sc


def from_model(path, rng, nc, headlen):
    _, steps = path
    lens, nid, sc = {}, 0, ["I 8 %d" % nc]
    cut = {}

    def size(x, c, gen):
        return {-1: headlen, -2: 5}.get(x) or len(text(x, lens[x]))

    def inside(x, i, gen):
        k = (x, i if x < 0 else 0, gen if x < 0 else 0)
        if k not in cut:
            n = size(x, i, gen)
            cut[k] = rng.choice([1, 2, n // 2, n - 1, n - 2, max(1, n - 3), rng.randint(1, n - 1)])
            cut[k] = min(max(1, cut[k]), n - 1)
        return cut[k]
    gen, broken = {}, False
    for a, _to in steps:
        op = a["op"]
        if op == "add":
            nid += 1
            lens[nid] = rng.choice([9, 16, 100, 250, 251, 252, 253, 254, 300, 505, 600])
            sc.append("A %d %d" % (nid, lens[nid]))
        elif op == "drop":
            sc.append("D 1")
        elif op == "S":
            sc.append("S %d" % (a["i"] - 1))
        elif op == "R":
            if broken:      # the driver resets a broken connection itself
                broken = False
                gen[a["i"]] = gen.get(a["i"], 0) + 1
                continue
            gen[a["i"]] = gen.get(a["i"], 0) + 1
            sc.append("R %d" % (a["i"] - 1))
        else:
            g = gen.get(a["i"], 0)
            amount = 0
            for x, u in a["w"]:
                m = inside(x, a["i"], g)
                amount += m if u == 1 else size(x, a["i"], g) - m
            if a["r"] == -1:
                broken = True
                sc.append("W %d %d 1" % (a["i"] - 1, amount))
            elif a["r"] == 1:
                sc.append(rng.choice(["F %d", "W %d -1 0"]) % (a["i"] - 1))
            else:
                sc.append(rng.choice(["F %d %d", "W %d %d 0"]) % (a["i"] - 1, amount))
                if amount == 0 and sc[-1][0] == "F":
                    sc[-1] = "F %d -11" % (a["i"] - 1)
    return sc + closing(nc)


def many(rng):
    """more fragments than one kernel call takes, so that a later call can fail after an earlier one wrote"""
    nc = rng.randint(1, 2)
    sc, nid = ["I 2500 %d" % nc], 0
    if rng.random() < 0.5:
        sc.append("D 3")
    n = rng.choice([1, 600, 1100, 2100])
    for _ in range(n):
        nid += 1
        sc.append("A %d %d" % (nid, rng.choice([9, 12, 300]) if n > 1 else rng.choice([261000, 262300, 262400, 300000])))
    for _ in range(rng.randint(1, 3)):
        i = rng.randrange(nc)
        big = 10 ** 9
        r = rng.random()
        if r < 0.6:
            ans = [big] * rng.randint(0, 2) + [rng.choice([-32, -104, -105])]
        elif r < 0.8:
            ans = [big] * rng.randint(0, 1) + [-11]
        else:
            ans = [rng.randint(0, 20000)]
        if rng.random() < 0.3:
            sc += ["F %d" % i, "S %d" % i] if rng.random() < 0.5 else ["S %d" % i]
        sc.append("F %d %s" % (i, " ".join(map(str, ans))))
    return sc + closing(nc), nc


def rand(rng):
    nc = rng.randint(1, 3)
    cap = rng.choice([1, 2, 3, 5, 8])
    sc, nid = ["I %d %d" % (cap, nc)], 0
    for _ in range(rng.randint(5, 40)):
        r = rng.random()
        i = rng.randrange(nc)
        if r < 0.35:
            nid += 1
            sc.append("A %d %d" % (nid, rng.choice([9, 20, 80, 248, 250, 251, 252, 253, 300, 700, 1200])))
        elif r < 0.42:
            sc.append("D %d" % rng.choice([1, 1, 2, 130, 20000]))
        elif r < 0.80:
            k = rng.choice([0, 1, 2, HEAD - 1, HEAD, HEAD + 1, rng.randint(0, 60), rng.randint(0, HEAD), rng.randint(0, 1500), -1, -1, 10 ** 8])
            fail = rng.random() < 0.12
            if rng.random() < 0.4:
                sc.append("F %d %d" % (i, k if k > 0 else -11) if k >= 0 else "F %d" % i)
                if fail:
                    sc[-1] = "F %d %d" % (i, rng.choice([-32, -104]))
            else:
                sc.append("W %d %d %d" % (i, k, fail))
        elif r < 0.88:
            sc.append("S %d" % i)
        else:
            sc.append("R %d" % i)
    return sc + closing(nc), nc


def scenarios(c):
    rng = c.rng
    consts = {"NConn": 2, "MaxAdds": 2, "MaxDrops": 1, "MaxResets": 1}
    inv = ["WellFormed", "Accounted", "Drops", "Once"]
    if c.thorough:
        c.model("ConnModel", "(whole histories)", consts=consts, spec="MSpec", invariants=inv)
    r, inits, trans = T.transitions("ConnModel", dict(consts, MaxAdds=3 if c.thorough else 2, MaxResets=2 if c.thorough else 1),
                                    invariants=inv, workers=4, timeout=800)
    c.add(states=r.distinct, transitions=r.generated)
    c.log("TLC ConnModel: %d generated, %d distinct" % (r.generated, r.distinct))
    paths, total = mbt.cover(inits, trans, c.rng, max_len=16)
    c.cov["model_transitions_replayed"] = total
    return [from_model(p, rng, 2, HEAD) for p in paths]


def run(c, counts):
    exe = build()
    # the length of a request head without drops, to aim writes at its ends
    global HEAD
    t = run_scenarios(c, exe, [["I 8 1", "W 0 -1 0"]], "probe")[0]
    HEAD = len(t[-1]["w"]) // 2 or 190
    sc = scenarios(c)
    for _ in range(4000 if c.thorough else 500):
        sc.append(rand(c.rng)[0])
    for _ in range(60 if c.thorough else 12):
        sc.append(many(c.rng)[0])
    c.log("%d scenarios" % len(sc))
    what = "connection streams"
    tr = [decode(t) for t in run_scenarios(c, exe, sc, what)]
    rr = rerunner(c, exe, sc, what)
    check_traces(c, "ConnTrace", tr, what, lambda i: decode(rr(i)), consts={"Counts": "TRUE" if counts else "FALSE"})
