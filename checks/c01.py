"""C01: the concurrent buffer hands every accepted object over exactly once."""
from checks.conc_common import *


def jobs(c, t):
    p = 4 if t else 3
    n = 40000 if t else 700
    s = 120 if t else 2
    j = []
    for i, (cap, prods, adds, script, retry, warm) in enumerate([
        (1, 2, 2, "w1w1wpw1", 1, 0), (2, 2, 2, "w1w2wpwd", 1, 1), (2, 2, 2, "wDwcw2", 0, 2), (3, 2, 2, "wpw2wcw", 0, 1),
        (1, 2, 1, "w1wdwc", 2, 1), (2, 3, 1, "w1wpwD", 0, 2), (1, 3, 1, "wcw1w1", 1, 0), (3, 2, 3, "w1w1wpw2wAw", 1, 3),
    ]):
        j.append(dfs("buffer", p, cap, prods, adds, script, retry, warm, secs=s))
        j.append(rand(c, "buffer", n, i, cap, prods, adds, script, retry, warm, secs=s))
        if i % 2 == 0:
            j.append(spurious(rand(c, "buffer", n, i + 1, cap, prods, adds, script, retry, warm, secs=s)))
        j.append(stale(dfs("buffer", p - 1, cap, prods, adds, script, retry, warm, secs=s)))
        j.append(stale(rand(c, "buffer", n // 2, i + 2, cap, prods, adds, script, retry, warm, secs=s), 3))
    j.append(rand(c, "buffer", n, 3, 2, 3, 3, "w1w2wpwdwAwcwAwA", 1, 2, secs=s))
    j.append(rand(c, "buffer", n, 4, 5, 4, 2, "wAwpwAwcwAwA", 1, 4, secs=s))
    return j


def run(c):
    exe = build()
    for consts in [dict(Items=2, Max=1, Prods="{p1, p2}"), dict(Items=2, Max=2, Prods="{p1, p2}"), dict(Items=1, Max=1, Prods="{p1, p2, p3}")] + \
            ([dict(Items=2, Max=2, Prods="{p1, p2, p3}"), dict(Items=3, Max=2, Prods="{p1, p2}")] if c.thorough else []):
        consts = dict(consts, p1="p1", p2="p2", Total=0)
        if "p3" in consts["Prods"]:
            consts["p3"] = "p3"
        c.model("CircularBuffer", str(consts), consts=consts, invariants=["ExactlyOnce", "Owned", "RefusedIsOwned"])
    explore(c, exe, jobs(c, c.thorough), "span buffer", "BufferTrace")
