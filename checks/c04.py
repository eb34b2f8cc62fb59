"""C04: the spin lock excludes, publishes, and is obtainable once released."""
from checks.conc_common import *


def run(c):
    exe = build()
    t = c.thorough
    c.model("SpinLock", consts=dict(Threads="{t1, t2, t3}", Rounds=2, t1="t1", t2="t2", t3="t3"), spec="Fair",
            invariants=["Exclusion", "Published"], properties=["AllFinish"])
    j = []
    for th, rounds, guard in [(2, 2, 0), (2, 3, 1), (3, 1, 0), (3, 2, 1), (4, 1, 1)]:
        for p in (2, 3, 4) if t else (2, 3):
            j.append(dfs("lock", p, th, rounds, guard, secs=60 if t else 3))
        j.append(rand(c, "lock", 20000 if t else 1500, th, th, rounds, guard, secs=60 if t else 3))
        j.append(stale(rand(c, "lock", 20000 if t else 1000, th, th, rounds, guard, secs=60 if t else 3), 2))
    explore(c, exe, j, "spin lock", "LockTrace")
