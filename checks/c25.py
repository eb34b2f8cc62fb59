"""C25: the sampling decision follows references and the last priority tag."""
from checks.spans_common import *

P = PRIO
CASES = [
    ("s 0 61 - - - -", ["t 0 %s i0/i 0/f 0 - -" % P, "t 0 %s i1/q 0" % P]),
    ("s 0 61 - - - %s=i0" % P, ["t 0 %s i5/f 0 - -" % P, "i 0/q 0"]),
    ("s 0 61 - - - -/s 9 61 - - - %s=i0" % P, ["s 1 62 c:s0 - - -/q 1/d 1", "t 0 %s i0/q 0" % P]),
    ("s 0 61 - - - -/s 2 61 - - - -", ["s 1 62 c:s0,c:s2 - - -/d 1", "t 0 %s i0/t 2 %s i0" % (P, P)]),
    ("s 0 61 - - - -", ["t 0 %s u0/f 0 - -" % P, "f 0 - -/i 0", "q 0/q 0"]),
]


def run(c):
    t = c.thorough
    model(c)
    exe = build("asan")
    replay(c, exe, {"NSpans": 1, "Tags": "<- TagsMC", "MaxRefs": 2}, "one span")
    replay(c, exe, {"NSpans": 2, "Tags": "<- Tags1", "MaxRefs": 1}, "two spans", 0 if t else 600)
    sc = []
    for i in range(8000 if t else 800):
        sc.append(priorities(c.rng, i % 2 == 1))
    judge(c, exe, sc, "references and priorities")
    threads(c, build("sched"), CASES, "threads", 3 if t else 2, 60 if t else 4, 20000 if t else 400)


def priorities(rng, legacy):
    """contexts of both kinds, a chain or fan of spans over them, priorities at every point, decisions read and injected"""
    out = ["new %s 0 0" % ("o" if legacy else "n")]
    n = rng.choice([0, 1, 2, 4])
    for i in range(n):
        out.append(context(rng, i))
    live, fin = [], set()
    for i in range(rng.choice([1, 2, 4, 8])):
        refs = [rng.choice("cf") + ":" + ("x%d" % rng.randrange(n) if n and rng.random() < 0.5 else "s%d" % rng.choice(live) if live and rng.random() < 0.7 else rng.choice("nf"))
                for _ in range(rng.choice([0, 1, 1, 2, 3]))]
        out.append("s %d 61 %s - - %s" % (i, ",".join(refs) or "-", kv(rng, rng.choice([0, 0, 1, 2, 3]), 0.6)))
        live.append(i)
        for _ in range(rng.choice([0, 1, 2, 3])):
            j = rng.choice(live)
            x = rng.random()
            if x < 0.5:
                if not (legacy and j in fin):
                    out.append("t %d %s %s" % ((j,) + tag(rng, 0.8)))
            elif x < 0.7:
                out.append("i %d" % j)
            elif x < 0.8:
                out.append("q %d" % j)
            else:
                out.append("f %d - -" % j)
                fin.add(j)
    for j in live:
        if rng.random() < 0.5:
            out.append("i %d" % j)
    return out
