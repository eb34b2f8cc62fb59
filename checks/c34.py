"""C34: each socket descriptor is closed exactly once, by its last owner."""
import random
from vlib import build as B, tlc as T, mbt
from vlib.check import run_scenarios, rerunner
from vlib.traces import check_traces


def build():
    return B.build("sockets", ["sockets.cpp"], ["network/socket.cpp", "network/ip_address.cpp", "common/platform/error_unix.cpp", "common/platform/network_unix.cpp"], mode="asan")


HARD = [111, 113, 101, 99, 13, 97, 110, 4, 22]


def ops(rng, a):
    """one abstract action as driver lines"""
    op, t, s, f = a["op"], a["t"], a["s"], a["fail"]
    out = []
    if op in ("new", "new2"):
        if f == "socket":
            out.append("S socket %d" % rng.choice([24, 23, 105, 12]))
        out.append("new " + t if op == "new" else "new2 %s %d %d" % (t, rng.choice([4, 6]), rng.choice([1, 2])))
    elif op == "adopt":
        out.append("adopt %s %d" % (t, f == "bad"))
    elif op in ("mc", "ma", "sw"):
        out.append("%s %s %s" % (op, t, s))
    elif op == "del":
        if f == "close":
            out.append("S close %d" % rng.choice([4, 5, 122]))
        out.append("del " + t)
    elif op in ("CC", "CA"):
        if f in ("nb", "opt", "socket"):
            out.append("S %s %d" % (f, rng.choice([9, 22, 105, 11, 115])))
        elif f == "conn":
            out.append("S conn %d" % rng.choice(HARD))
        elif f == "progress":
            out.append("S conn 115")
        elif f == "again":
            out.append("S conn 11")
        if f in ("nb", "opt", "conn") and rng.random() < 0.3:
            out.append("S close %d" % rng.choice([4, 5]))
        out.append("%s %s %d %d %d" % (op, t, rng.choice([4, 6]), rng.choice([0, 1, 80, 8080, 65535]), rng.randint(1, 250)))
    elif op in ("nb", "ra"):
        if f == "fail":
            out.append("S %s 9" % {"nb": "nb", "ra": "opt"}[op])
        out.append("%s %s" % (op, t))
    elif op == "con":
        if f == "fail":
            out.append("S conn %d" % rng.choice(HARD + [115, 11]))
        out.append("con %s %d %d" % (t, rng.choice([0, 80, 65535]), rng.randint(1, 250)))
    if out[0].startswith("S "):
        for k in ("socket", "close", "nb", "opt", "conn"):
            if not any(x.startswith("S %s " % k) for x in out):
                out.insert(0, "S " + k)
        # scripts left over do not reach the next operation
        out += ["S " + k for k in ("socket", "close", "nb", "opt", "conn")]
    return out


def run(c):
    exe = build()
    nobj = 3
    r, inits, trans = T.transitions("SocketModel", {"MaxFd": 3, "NObj": nobj}, invariants=["OpenIsOwned", "OneOwner"], workers=4)
    c.add(states=r.distinct, transitions=r.generated)
    c.log("TLC SocketModel: %d generated, %d distinct" % (r.generated, r.distinct))
    paths, total = mbt.cover(inits, trans, c.rng, max_len=40, extra_random=2000 if c.thorough else 150)
    c.cov["model_transitions_replayed"] = total
    sc = []
    for init, steps in paths:
        s = []
        for a, _ in steps:
            s += ops(c.rng, a)
        sc.append(s)
    tr = run_scenarios(c, exe, sc, "sockets")
    check_traces(c, "SocketTrace", tr, "sockets", rerunner(c, exe, sc, "sockets"))
