"""C07: gathered socket writes."""
from checks.streams_common import *
from vlib.check import run_scenarios, rerunner
from vlib.traces import check_traces


def scenarios(c):
    rng = c.rng
    out = model_paths(c, {"W"}, dict(MaxStreams=2, MaxFrags=2, MaxSize=2, IOV=2, MaxCalls=2))
    # the number of fragments around the kernel's limit of 1024 per call
    counts = [1, 2, 3, 1022, 1023, 1024, 1025, 1026, 2047, 2048, 2049, 3000]
    for _ in range(1200 if c.thorough else 260):
        names, sc, total = [], [], 0
        for g in range(rng.randint(1, 3)):
            nm = "w%d" % g
            r = rng.random()
            if r < 0.6:
                n = rng.choice(counts) if rng.random() < 0.5 else rng.randint(0, 5)
                szs = rng.choice([[1], [1, 2], [3], [0, 1], [5]])
                fr = [rng.choice(szs) for _ in range(n)]
                sc.append("A %s %s" % (nm, " ".join(map(str, fr))))
                total += sum(fr)
            else:
                n = rng.choice([0, 1, 255, 256, 257, 700, 256 * 5])
                sc += chain_len(nm, n)
                total += n
            names.append(nm)
        for _k in range(rng.randint(1, 6)):
            script = []
            for _j in range(rng.randint(0, 3)):
                script.append(rng.choice([10 ** 9, 10 ** 9, 1023, 1024, 1025, 2048, 1, 0, rng.randint(0, max(1, total))]))
            r = rng.random()
            if r < 0.25:
                script.append(-11)
            elif r < 0.4:
                script.append(rng.choice([-32, -104, -4, -9, -22, -105]))
            sc.append("W %d %s %s" % (len(script), " ".join(map(str, script)), " ".join(names)))
            sc += ["R %s 0" % x for x in names]
        sc.append("W 0 %s" % " ".join(names))
        sc += ["R %s 0" % x for x in names]
        out.append(sc)
    return out


def run(c):
    exe = build()
    sc = scenarios(c)
    tr = run_scenarios(c, exe, sc, "gathered write")
    check_traces(c, "StreamTrace", tr, "gathered write", rerunner(c, exe, sc, "gathered write"))
