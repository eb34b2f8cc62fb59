"""C02: buffer order, bound and progress."""
from checks.conc_common import *


def jobs(c, t):
    p = 4 if t else 3
    n = 40000 if t else 700
    s = 120 if t else 2
    j = []
    # producers that retry until they succeed, a consumer that consumes until it has everything
    for i, (cap, prods, adds, warm) in enumerate([(1, 2, 2, 0), (1, 2, 2, 1), (2, 2, 3, 2), (1, 3, 1, 1), (2, 3, 2, 1), (3, 2, 4, 2)]):
        j.append(dfs("buffer", p - 1, cap, prods, adds, "x", 200, warm, secs=s))
        j.append(rand(c, "buffer", n, i, cap, prods, adds, "x", 200, warm, secs=s))
        if i % 2 == 1:
            j.append(spurious(rand(c, "buffer", n, i + 1, cap, prods, adds, "x", 200, warm, secs=s)))
        else:
            j.append(stale(rand(c, "buffer", n, i + 1, cap, prods, adds, "x", 200, warm, secs=s), 3))
    # refusals and bound with a consumer that lags
    for i, (cap, prods, adds, script, retry, warm) in enumerate([
        (1, 2, 2, "w1wsw1", 0, 0), (2, 2, 3, "ww1wsw1", 0, 1), (2, 3, 1, "wsw1wp", 0, 2), (1, 2, 2, "wdwswcws", 1, 1),
    ]):
        j.append(dfs("buffer", p, cap, prods, adds, script, retry, warm, secs=s))
        j.append(rand(c, "buffer", n, i, cap, prods, adds, script, retry, warm, secs=s))
        j.append(stale(rand(c, "buffer", n, i, cap, prods, adds, script, retry, warm, secs=s), 3))
    # every producer has room
    for i, (cap, prods, adds, script) in enumerate([(3, 3, 1, "ww1w1w1"), (4, 2, 2, "ww1w1w1"), (5, 3, 1, "w1w1w1")]):
        j.append(rand(c, "buffer", n, i, cap, prods, adds, script, 0, 0, secs=s))
        j.append(stale(rand(c, "buffer", 2 * n, i, cap, prods, adds, script, 0, 0, secs=s), 3))
        j.append(stale(dfs("buffer", p, cap, prods, adds, script, 0, 0, secs=s)))
    return j


def run(c):
    exe = build()
    for consts in [dict(Items=2, Max=1, Prods="{p1, p2}"), dict(Items=2, Max=2, Prods="{p1, p2}"), dict(Items=1, Max=1, Prods="{p1, p2, p3}")] + \
            ([dict(Items=2, Max=1, Prods="{p1, p2, p3}"), dict(Items=3, Max=2, Prods="{p1, p2}")] if c.thorough else []):
        consts = dict(consts, p1="p1", p2="p2", Total=0)
        if "p3" in consts["Prods"]:
            consts["p3"] = "p3"
        c.model("CircularBuffer", str(consts), consts=consts, spec="Fair", invariants=["Bounded", "Order"], properties=["NoStuck"])
    explore(c, exe, jobs(c, c.thorough), "span buffer", "BufferTrace")
