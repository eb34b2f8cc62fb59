"""The pool of satellite connections (C18, C10): model behaviours and random histories replayed over a scripted network."""
import re
from vlib import build as B, tlc as T, mbt
from vlib.check import run_scenarios, rerunner
from vlib.traces import check_traces
from vlib.http import Session
from checks.cstream_common import text

SRCS = ["common/chained_stream.cpp", "common/fragment_array_input_stream.cpp", "common/fragment_input_stream.cpp", "common/protobuf.cpp",
        "common/platform/error_unix.cpp", "common/platform/memory_unix.cpp", "common/platform/network_unix.cpp", "network/vector_write.cpp",
        "common/random.cpp", "common/random_traverser.cpp", "common/logger.cpp", "common/utility.cpp", "common/platform/fork_unix.cpp",
        "common/platform/string_unix.cpp", "common/platform/utility_unix.cpp",
        "network/event.cpp", "network/event_base.cpp", "network/timer_event.cpp", "network/ip_address.cpp", "network/socket.cpp",
        "recorder/metrics_tracker.cpp", "recorder/serialization/embedded_metrics_message.cpp",
        "recorder/stream_recorder/connection_stream.cpp", "recorder/stream_recorder/span_stream.cpp",
        "recorder/stream_recorder/host_header.cpp", "recorder/stream_recorder/satellite_connection.cpp",
        "recorder/stream_recorder/satellite_dns_resolution_manager.cpp", "recorder/stream_recorder/satellite_endpoint_manager.cpp",
        "recorder/stream_recorder/satellite_streamer.cpp", "recorder/stream_recorder/status_line_parser.cpp", "recorder/stream_recorder/utility.cpp"]
OK = "HTTP/1.1 200 OK\r\nContent-Length:0\r\n\r\n"
VALID = re.compile(r"[^ ]* [0-9]{3} [^\r]*")


def build():
    return B.build("sat", ["sat.cpp", "fakeevent.cc"], SRCS, mode="asan", protos=True, exclude=("network/ares_dns_resolver/ares_dns_resolver.cpp",))


def classify(b):
    """0 fine so far, 1 certainly malformed, 2 may be taken for malformed already"""
    line, end, _ = b.decode("latin1").partition("\r")
    if end:
        return 0 if VALID.fullmatch(line) else 1
    m = re.fullmatch(r"[^ ]*( ([0-9]{0,3}|[0-9]{3} .*))?", line)
    return 0 if m else 2


def decode(tr):
    texts, sess, got, out, names, common = {}, {}, {}, [], [], b""
    i = 0
    while i < len(tr):
        e = dict(tr[i])
        k = e["e"]
        if k == "new":
            names, common = [n.encode() for n in e.pop("names")], bytes.fromhex(e.pop("common"))
            e["eps"] = [[h, p] for h, p in e["eps"]]
        elif k == "conn" and e["ok"]:
            sess[e["id"]] = Session(names[e["h"]] if 0 <= e["h"] < len(names) else b"?", common, texts)
            got[e["id"]] = b""
        elif k == "add":
            if e["ok"]:
                texts[e["id"]] = text(e["id"], e["len"])
        elif k == "write":
            w = bytes.fromhex(e.pop("w"))
            while e["full"] and not e["err"] and i + 1 < len(tr) and tr[i + 1]["e"] == "write" and tr[i + 1]["id"] == e["id"]:
                i += 1
                w += bytes.fromhex(tr[i]["w"])
                e["full"], e["err"] = tr[i]["full"], tr[i]["err"]
            s = sess.get(e["id"])
            e["fin"], e["part"], e["counted"] = s.feed(w) if s else ([0], [], 0)
            e["counted"] = min(e["counted"] if e["counted"] is not None else -1, 10 ** 6)
        elif k == "read":
            d = bytes.fromhex(e.pop("d"))
            if e["r"] > 0 and e["id"] in got:
                got[e["id"]] += d
                e["cls"] = classify(got[e["id"]])
        out.append(e)
        i += 1
    return out


def hexes(s):
    return " ".join("%x" % ord(ch) for ch in s)


def rand(rng, n_ops=None):
    nc = rng.choice([1, 1, 2, 2, 3, 5, 8])
    cap = rng.choice([1, 2, 4, 10, 40])
    # periods a few times shorter or longer than the steps of time, so that all orders of timers come up
    wt, rt, gr, mn = (rng.choice([30, 70, 150, 400, 10 ** 6]) for _ in range(4))
    rt = min(rt, 400)
    mx = mn + rng.choice([0, 0, 0, 3, mn])
    eps = [(rng.choice(["sat", "b.example", "collector"]), rng.choice([80, 443, 8080])) for _ in range(rng.randint(1, 4))]
    sc = ["I %d %d %d %d %d %d %d " % (cap, nc, wt, rt, mn, mx, gr) + " ".join("%s %d" % e for e in eps)]
    nid = 0
    if rng.random() < 0.9:
        if rng.random() < 0.3:
            sc.append("cf " + " ".join(str(rng.choice([0, 1, 1, 2, 3, 4])) for _ in range(rng.randint(1, 3))))
        sc.append(rng.choice(["dns", "dns", "dns 1"]))
    easy = rng.random() < 0.6     # most peers take and answer at once
    stop = rng.random()

    def plus():
        return " +" if rng.random() < 0.15 else ""
    for _ in range(n_ops or rng.randint(5, 70)):
        r = rng.random()
        i = rng.randrange(nc)
        if r < 0.2:
            nid += 1
            sc.append("A %d %d" % (nid, rng.choice([9, 20, 80, 248, 252, 300, 700, 1500])))
        elif r < 0.32:
            sc.append("F")
        elif r < 0.50:
            sc.append("g %d %d%s" % (i, -1 if easy and rng.random() < 0.8 else rng.choice([-1, 0, 0, 1, 100, 180, 190, 200, 260, 300, 500, 1000, 3000]), plus()))
        elif r < 0.56:
            sc.append("r %d %s%s" % (i, hexes(rng.choice([OK, OK, OK, "HTTP/1.1 200 OK", "HTTP", "HTTP/1.1 500 Oops\r\n\r\n", "HTTP/1.1 2x0 OK\r\n", "no\r\n", "x" * 600, "HTTP/1.1 20"])), plus()))
        elif r < 0.60:
            sc.append("e %d%s" % (i, plus()))
        elif r < 0.62:
            sc.append("x %d%s" % (i, plus()))
        elif r < 0.64:
            sc.append("we %d%s" % (i, plus()))
        elif r < 0.67:
            sc.append("cf " + " ".join(str(rng.choice([0, 1, 1, 2, 3, 4])) for _ in range(rng.randint(1, 3))))
        elif r < 0.69:
            sc.append("D %d" % rng.choice([1, 2, 200]))
        elif r < 0.70:
            sc.append(rng.choice(["dns", "dns 1"]))
        elif r < 0.72 and stop < 0.6:
            sc.append("shut")
        else:
            sc.append("adv %d" % min(400, rng.choice([0, 1, 1, rt, wt, gr, mn, mx, wt - 1, gr - 1, rng.randint(0, 300), rng.choice([1, 30, 200])])))
    if stop < 0.7:
        sc.append("shut")
        for _ in range(rng.randint(0, 4)):
            sc.append(rng.choice(["g %d -1", "e %d", "r %d " + hexes(OK), "adv " + str(min(gr, 500)), "F", "cf 1", "x %d", "we %d"]).replace("%d", str(rng.randrange(nc))))
    if stop < 0.85:
        sc.append("del")
    return sc


def run(c, times, counts):
    exe = build()
    t = c.thorough
    sc = []
    if times:
        sc += model(c)
    for _ in range((6000 if t else 900) if times else (3000 if t else 300)):
        sc.append(rand(c.rng))
    c.log("%d scenarios" % len(sc))
    what = "satellite connections"
    tr = [decode(x) for x in run_scenarios(c, exe, sc, what)]
    b = {True: "TRUE", False: "FALSE"}
    # renewal times and the order of connections are drawn at random by the code: a rejected history stands by itself
    check_traces(c, "SatelliteTrace", tr, what, None, consts={"JudgeTimes": b[times], "JudgeCounts": b[counts]})


HEADLEN = 230
INV = ["OneSocketEach", "NeverStuck", "DownForGood", "BoundedEnd", "TermLast", "OnePlace"]
UNIT = 100


def from_model(path, rng, k):
    nc, ne = k["NC"], k["NE0"]
    names = ["satellite", "b.example"]
    sc = ["I 4 %d %d %d %d %d %d " % (nc, k["Wt"] * UNIT, k["Retry"] * UNIT, k["Period"] * UNIT, k["Period"] * UNIT, k["Grace"] * UNIT) +
          " ".join("%s %d" % (names[i], 81 + i) for i in range(ne))]
    # the outcomes of the attempts to connect are queued before the first; what a failing attempt does is varied
    cf = [rng.choice([1, 2, 3]) if not a["ok"] else 0 for a, _ in path[1] if a["op"] == "conn"]
    if cf:
        sc.append("cf " + " ".join(map(str, cf)))
    lens, nid = {}, 0
    for a, _ in path[1]:
        op = a["op"]
        if op == "dns":
            sc.append("dns")
        elif op == "add":
            nid += 1
            lens[nid] = rng.choice([9, 100, 252, 253, 300, 600])
            sc.append("A %d %d" % (nid, lens[nid]))
        elif op == "F":
            sc.append("F")
        elif op == "flow":
            sc.append("g %d -1" % a["i"])
        elif op == "stop":
            sc.append("g %d 0" % a["i"])
        elif op == "break":
            sc.append("we %d" % a["i"])
        elif op == "some":
            def size(x):
                return HEADLEN if x == -1 else 5 if x == -2 else len(text(x, lens[x]))
            it = a["items"]
            m = sum(size(x) for x in it[:-1])
            last = size(it[-1])
            if a["part"]:
                m += rng.choice([1, 2, last - 1, last - 2, rng.randint(1, last - 1)])
            sc.append("g %d %d" % (a["i"], m))
        elif op == "eof":
            if rng.random() < 0.6:
                sc.append("r %d %s +" % (a["i"], hexes(rng.choice([OK, OK, "HTTP/1.1 404 Not Found\r\n", "HTTP/1.1 20"]))))
            sc.append(rng.choice(["e %d", "e %d", "x %d"]) % a["i"])
        elif op == "mal":
            sc.append("r %d %s" % (a["i"], hexes(rng.choice(["garbage\r\n", "HTTP/1.1 2x0 OK\r\n", "HTTP/1.1 20\r\n\r\n"]))))
        elif op == "shut":
            sc.append("shut")
        elif op == "adv":
            sc.append("adv %d" % UNIT)
    if rng.random() < 0.5:
        sc += ["shut", "adv %d" % (UNIT * max(k["Grace"], k["Retry"]))]
    sc.append("del")
    return sc


def model(c):
    sc, tot = [], 0
    t = c.thorough
    confs = [{"NC": 1, "NE0": 2, "MaxAdds": 1, "Wt": 2, "Retry": 1, "Period": 3, "Grace": 2, "Rich": "TRUE"},
             {"NC": 2, "NE0": 1, "MaxAdds": 1, "Wt": 2, "Retry": 1, "Period": 2, "Grace": 1, "Rich": "FALSE"}]
    if t:
        confs += [{"NC": 1, "NE0": 1, "MaxAdds": 2, "Wt": 1, "Retry": 2, "Period": 3, "Grace": 1, "Rich": "TRUE"}]
    for k in confs:
        r, inits, trans = T.transitions("SatelliteModel", k, invariants=INV, workers=4, timeout=800)
        c.add(states=r.distinct, transitions=r.generated)
        paths, total = mbt.cover(inits, trans, c.rng, max_len=80)
        c.log("TLC SatelliteModel %d connections: %d distinct states, %d transitions, %d paths" % (k["NC"], r.distinct, total, len(paths)))
        tot += total
        if len(paths) > (40000 if t else 6000):
            paths = c.rng.sample(paths, 40000 if t else 6000)
        sc += [from_model(p, c.rng, k) for p in paths]
    c.cov["model_transitions_replayed"] = tot
    return sc
