"""C29: generated identifiers do not repeat across threads and forks."""
from vlib import build as B, tlc as T, mbt
from vlib.check import run_scenarios, rerunner
from vlib.conc import explore
from vlib.traces import check_traces
SRCS = ["common/random.cpp", "common/platform/fork_unix.cpp"]


def run(c):
    exe = B.build("ids", ["ids.cpp"], SRCS, mode="plain")
    rng = c.rng
    r, inits, trans = T.transitions("Generators", {"MaxProc": 3, "MaxThread": 2, "MaxGen": 4 if c.thorough else 3}, invariants=["Distinct", "OwnSequence"], workers=4)
    c.add(states=r.distinct, transitions=r.generated)
    c.log("TLC Generators: %d generated, %d distinct" % (r.generated, r.distinct))
    paths, total = mbt.cover(inits, trans, rng, max_len=12)
    if len(paths) > 2500 and not c.thorough:
        paths = rng.sample(paths, 700)
    c.cov["model_histories_replayed"] = len(paths)
    sc = []
    for init, steps in paths:
        s = []
        for a, _ in steps:
            p = "p" if a["p"] == 1 else "p%d" % a["p"]
            s.append("%s t%d %s" % (p, a["t"], rng.choice(["g 1", "g 3", "m"]) if a["op"] == "g" else "f p%d" % a["c"]))
        # the first line decides which thread is the process's first: both are tried by the model
        for p in sorted({x.split()[0] for x in s} | {x.split()[3] for x in s if x.split()[2] == "f"}):
            if rng.random() < 0.8:
                s.append("%s t%d g 4" % (p, rng.randint(1, 2)))
        sc.append(s)
    # deeper trees of processes
    for _ in range(400 if c.thorough else 80):
        s, procs, k = [], ["p"], 1
        for _i in range(rng.randint(4, 22)):
            p, t = rng.choice(procs), "t%d" % rng.randint(1, 3)
            x = rng.random()
            if x < 0.3 and k < 9:
                k += 1
                s.append("%s %s f p%d" % (p, t, k))
                procs.append("p%d" % k)
            elif x < 0.4:
                s.append("%s %s x" % (p, "t%d" % rng.randint(2, 3)) if s and s[0].split()[1] != "t2" else "%s t1 g 1" % p)
            else:
                s.append("%s %s %s" % (p, t, rng.choice(["g 1", "g 2", "m", "g 20", "r 3"])))
        for p in procs:
            s.append("%s t1 g 8" % p)
        s = [x for x in s if not (x.endswith(" x") and x.split()[1] == "t1")]
        sc.append(s)
    for n in (2, 4, 8):
        sc.append(["p t1 g 1", "p t1 b %d %d" % (n, 1500), "p t1 f p2", "p2 t1 b %d 300" % n, "p t1 g 2"])
    # chains and fans of processes
    sc.append(["p t1 g 2"] + ["p%s t1 f p%d" % ("" if i == 2 else i - 1, i) for i in range(2, 12)] + ["p%d t1 g 5" % i for i in range(2, 12)] + ["p t1 g 5"])
    sc.append(["p t1 g 2"] + ["p t1 f p%d" % i for i in range(2, 40)] + ["p%d t1 g 5" % i for i in range(2, 40)] + ["p t1 g 5"])
    sc.append(["p t1 f p%d" % i for i in range(2, 40)] + ["p%d t1 g 5" % i for i in range(2, 40)] + ["p t1 g 5"])
    sc.append(["p t1 g 30000"] if c.thorough else ["p t1 g 8000"])
    tr = run_scenarios(c, exe, sc, "identifiers")
    check_traces(c, "GeneratorTrace", tr, "identifiers", rerunner(c, exe, sc, "identifiers"))
    cexe = B.build("ids_conc", ["ids_conc.cpp", "vrt.cc"], SRCS, mode="sched")
    j = [["ids", "dfs", 2, 3000, 1, 0, 1, 5, 1, 2], ["ids", "dfs", 2, 3000, 1, 0, 1, 5, 2, 2]]
    j += [["ids", "rand", 0, 2000 if c.thorough else 200, c.seed, i, 4, 10, 3, 3] for i in range(2)]
    explore(c, cexe, j, "identifiers of concurrent threads", "IdsTrace")
