"""C40: what reaches the log."""
from vlib import build as B, tlc as T, mbt
from vlib.check import run_scenarios, rerunner
from vlib.traces import check_traces


def build():
    return B.build("logging", ["logging.cpp"], ["common/logger.cpp", "common/utility.cpp", "common/platform/utility_unix.cpp", "common/platform/fork_unix.cpp"], mode="asan", protos=True)


def text(rng, lines=True):
    r = rng.random()
    if r < 0.1:
        return "-"
    if r < 0.2:
        return ("%02x" % rng.randint(32, 126)) * rng.choice([1, 500, 5000])
    s = bytes(rng.choice(b"abc XYZ%s{}\"\\:/\xc3\xa9\t\x01") for _ in range(rng.randint(1, 40)))
    return s.hex()


def number(rng):
    return str(rng.choice([0, 1, -1, 7, 2147483647, -2147483648, 100])).encode().hex()


def log(rng, n, how, kind):
    if how in ("view", "text"):
        return "log %s %d %s" % (how, n, text(rng))
    if how == "odd":
        return "log odd %d %s %s" % (n, text(rng), text(rng))
    return "log %s %d %s %s %s" % (how, n, text(rng), text(rng), number(rng))


def resp(rng, v):
    return "resp %d %s" % (v, " ".join("%s:%s" % (rng.choice("eewwi"), text(rng)) for _ in range(rng.choice([0, 1, 2, 3, 6]))))


def run(c):
    exe = build()
    t = c.thorough
    k = {"MaxLen": 4 if t else 3, "Kinds": '{"records", "throws", "sometimes", "default"}', "Hows": '{"view", "text", "parts", "named", "odd"}'}
    r, inits, trans = T.transitions("LoggingModel", k, invariants=["InvLevel", "InvOff"], workers=2, timeout=300)
    c.add(states=r.distinct, transitions=r.generated)
    paths, total = mbt.cover(inits, trans, c.rng, max_len=12)
    c.log("TLC LoggingModel: %d distinct states, %d transitions, %d paths" % (r.distinct, total, len(paths)))
    c.cov["model_transitions_replayed"] = total
    sc = []
    for p in paths:
        s = ["new " + p[0][0] + c.rng.choice(["", " "])]
        for a, _ in p[1]:
            if a["op"] == "level":
                s.append("level %d" % a["l"])
            elif a["op"] == "log":
                s.append(log(c.rng, a["l"], a["h"], p[0][0]))
            else:
                s.append(resp(c.rng, a["v"]))
        sc.append(s)
    for _ in range(3000 if t else 400):
        kind = c.rng.choice(["records", "throws", "sometimes", "default"])
        s = ["new " + kind + c.rng.choice(["", " "])]
        for _ in range(c.rng.randint(1, 25)):
            x = c.rng.random()
            if x < 0.2:
                s.append("level %d" % c.rng.randint(0, 4))
            elif x < 0.8:
                s.append(log(c.rng, c.rng.randint(0, 3), c.rng.choice(["view", "text", "parts", "named", "odd"]), kind))
            else:
                s.append(resp(c.rng, c.rng.randint(0, 1)))
        sc.append(s)
    what = "logger"
    tr = run_scenarios(c, exe, sc, what)
    check_traces(c, "LoggingTrace", tr, what, rerunner(c, exe, sc, what))
