"""C23: at a fork every live recorder is told once, and the child starts clean."""
from vlib import build as B, tlc as T, mbt
from vlib.check import run_scenarios, rerunner
from vlib.traces import check_traces
from vlib.conc import explore
from checks import c13
from checks.conc_common import dfs, rand
from checks.srec_common import *
from checks.srec_common import build as build_srec


def child(rng, recs, depth):
    out, recs = [], list(recs)
    for _ in range(rng.choice([0, 1, 3, 6])):
        out += step(rng, recs, depth)
    if rng.random() < 0.6:
        out += ["flush %d" % r for r in recs]
    if rng.random() < 0.5:
        out += ["live", "all"]
    return out


def step(rng, recs, depth):
    x = rng.random()
    if x < 0.2 or not recs:
        r = rng.randint(1, 6)
        if r in recs:
            return ["live"]
        recs.append(r)
        return ["new %d %s %d" % (r, rng.choice("mmp"), rng.choice([1, 2, 3]))]
    r = rng.choice(recs)
    if x < 0.35:
        recs.remove(r)
        return ["del %d" % r]
    if x < 0.7:
        return ["rec %d" % r]
    if x < 0.82:
        return ["flush %d" % r]
    return (["("] + child(rng, recs, depth - 1) + [")"]) if depth else ["live"]


def run(c):
    t = c.thorough
    c.model("ForkModel", "forks within forks", consts=dict(Recs="{1, 2}", Cap=1, MaxSpans=3 if t else 2, Depth=3, MaxForks=3 if t else 2),
            invariants=["Once", "CleanChild"], workers=8)
    # real forks
    exe = B.build("forks", ["forks.cpp"], c13.SRCS, mode="plain", protos=True)
    r, inits, trans = T.transitions("ForkSeq", {"Recs": "{1, 2, 3, 4}" if t else "{1, 2, 3}"}, workers=4)
    c.add(states=r.distinct, transitions=r.generated)
    paths, total = mbt.cover(inits, trans, c.rng, max_len=40)
    c.cov["model_transitions_replayed"] = total
    sc = []
    for _, steps in paths:
        s, live = [], []
        for a, _s in steps:
            if a["op"] == "new":
                live.append(a["r"])
                s.append("new %d %s 2" % (a["r"], c.rng.choice("mp")))
            elif a["op"] == "del":
                live.remove(a["r"])
                s.append("del %d" % a["r"])
            else:
                s += ["rec %d" % x for x in live for _ in range(c.rng.choice([0, 1, 3]))] + ["("] + child(c.rng, live, 1) + [")"]
                s += ["flush %d" % x for x in live]
        sc.append(s + ["live"])
    for _ in range(3000 if t else 300):
        s, recs = [], []
        for _k in range(c.rng.choice([5, 12, 25])):
            s += step(c.rng, recs, 2)
        sc.append(s + ["flush %d" % x for x in recs] + ["live", "all"])
    tr = run_scenarios(c, exe, sc, "recorders and forks")
    check_traces(c, "ForkTrace", tr, "recorders and forks", rerunner(c, exe, sc, "recorders and forks"))
    # threads that create and destroy recorders
    exe = B.build("forks_sched", ["forks.cpp", "vrt.cc"], c13.SRCS, mode="sched", protos=True, ldflags=["-Wl,--wrap=pthread_atfork"])
    j = []
    for i, s in enumerate([("c", "c"), ("cd", "cc"), ("cc", "co"), ("ccd", "cco"), ("cco", "cd", "c"), ("cdc", "coc", "cc")]):
        j.append(dfs("forks", 3 if t else 2, *s, secs=60 if t else 3))
        j.append(rand(c, "forks", 10000 if t else 300, i, *s, secs=60 if t else 3))
    explore(c, exe, j, "recorders of several threads", "ForkTrace")
    # reports in flight
    exe = c13.build("asan")
    sc = c13.seq_scenarios(c, "TRUE")
    tr = run_scenarios(c, exe, sc, "manual recorder across forks")
    check_traces(c, "ManualTrace", tr, "manual recorder across forks", rerunner(c, exe, sc, "manual recorder across forks"))
    # the streaming recorder: its network thread ends before the fork and starts anew after
    exe = build_srec()
    j = []
    for i in range(1500 if t else 200):
        j.append(["srec", "rand", 0, 60 if t else 15, c.rng.randrange(10 ** 6), i, 8, 20] + list(rand_case(c.rng, True)))
    explore(c, exe, j, "streaming recorder across forks", "RecorderTrace", decode=decode, consts={"JudgeTimes": "TRUE", "JudgeCounts": "TRUE"})
