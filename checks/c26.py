"""C26: trace identity, references, baggage and trace state are inherited."""
from checks.spans_common import *

CASES = [
    ("s 0 61 - - - -", ["s 1 62 c:s0 - - -/o 1/d 1", "b 0 6b 31/b 0 6c 32/a 0"]),
    ("s 0 61 - - - -/s 2 61 - - - -", ["s 1 62 f:s0,c:s2 - - -/d 1", "b 0 6b 31/b 2 6b 32"]),
    ("s 0 61 - - - -", ["s 1 62 c:s0 - - -/b 1 6b 31", "s 2 63 c:s0 - - -/b 2 6b 32", "b 0 6c 33/i 0"]),
    ("s 0 61 - - - -", ["s 1 62 - - - -/d 1", "s 2 62 - - - -/d 2", "s 3 62 f:s0 - - -"]),
    ("s 0 61 - - - -", ["b 0 6b 31/f 0 - -", "s 1 62 c:s0 - - -/a 1"]),
    ("s 0 61 - - - -", ["b 0 6b 31/b 0 6b 32", "g 0 4b/g 0 6b", "i 0"]),
]


def tree(rng, legacy):
    """trees of spans and extracted contexts, baggage added at every level"""
    out = ["new %s 0 0" % ("o" if legacy else "n")]
    n = rng.choice([0, 1, 2, 5])
    for i in range(n):
        out.append(context(rng, i))
    live, gone, fin = [], set(), set()
    for i in range(rng.choice([2, 5, 12, 30])):
        refs = []
        for _ in range(rng.choice([0, 1, 1, 1, 2, 3, 6])):
            x = rng.random()
            refs.append(rng.choice("cf") + ":" + ("n" if x < 0.12 else "f" if x < 0.24 else "x%d" % rng.randrange(n) if n and x < 0.5 else
                                                  "s%d" % rng.choice(live) if live else "n"))
        out.append("s %d 61 %s - - -" % (i, ",".join(refs) or "-"))
        live.append(i)
        for _ in range(rng.choice([0, 1, 2, 4])):
            j = rng.choice(live)
            x = rng.random()
            if x < 0.5:
                if not (legacy and j in fin):
                    out.append("b %d %s %s" % (j, hx(rng.choice(["one", "ONE", "two", "three", "k%d" % rng.randrange(20), "", "a b"])), hx(rng.choice(["", "v", "w%d" % i]))))
            elif x < 0.6:
                out.append("i %d" % j)
            elif x < 0.7:
                out.append("o %d" % j)
            elif x < 0.8:
                out.append("g %d %s" % (j, hx(rng.choice(["one", "TWO", "k%d" % rng.randrange(20), ""]))))
            elif x < 0.9:
                out.append("f %d - -" % j)
                fin.add(j)
            elif len(live) > 3:
                live.remove(j)
                out.append("d %d" % j)
    return out


def run(c):
    t = c.thorough
    model(c)
    exe = build("asan")
    replay(c, exe, {"NSpans": 1, "Tags": "<- Tags1", "MaxRefs": 2}, "one span")
    replay(c, exe, {"NSpans": 2, "Tags": "<- Tags1", "MaxRefs": 1}, "two spans", 0 if t else 600)
    judge(c, exe, [tree(c.rng, i % 2 == 1) for i in range(6000 if t else 600)], "trees of spans")
    threads(c, build("sched"), CASES, "threads", 3 if t else 2, 60 if t else 4, 20000 if t else 400)
