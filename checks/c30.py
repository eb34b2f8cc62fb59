"""C30: random traversal visits every index exactly once."""
from checks.pure_common import *


def run(c):
    rng = c.rng
    for n in (1, 2, 3, 4) + ((5,) if c.thorough else ()):
        c.model("Traverser", "N=%d" % n, consts={"N": n, "Rounds": 3 if n < 5 else 2}, spec="Spec", invariants=["Distinct", "Complete", "Permuted"])
    sc = []
    for n in (0, 1, 2, 3, 4):
        for rep in range(8 if c.thorough else 3):
            # each order of n <= 4 has at least 1/24 probability; 1500 traversals miss one with probability < 1e-26
            sc.append(["tn 1 %d" % n, "tr 1 0 %d" % (1500 if n > 2 else 200), "tall 1"])
            # all orders are also reached after traversals that were stopped
            s = ["tn 1 %d" % n]
            for _ in range(1500 if n > 2 else 200):
                s += ["tr 1 %d 1" % rng.randint(1, max(1, n)), "tr 1 0 1"]
            sc.append(s + ["tall 1"])
            # and by fresh traversers
            sc.append(["tf 1 %d %d" % (n, 1500 if n > 2 else 200), "tall 1"])
    for _ in range(1000 if c.thorough else 200):
        n = rng.choice([0, 1, 2, 3, 5, 7, 8, 16, 33, 100])
        s = ["tn 1 %d" % n, "tn 2 %d" % rng.randint(0, 6)]
        for _i in range(rng.randint(1, 12)):
            s.append("tr %d %d %d" % (rng.randint(1, 2), rng.choice([0, 0, 1, 2, max(1, n - 1), max(1, n), n + 1]), 1))
        sc.append(s)
    sc.append(["tn 1 %d" % (3000 if c.thorough else 1000), "tr 1 0 2", "tr 1 500 1", "tr 1 0 1"])
    check(c, "TraverserTrace", sc, "random traversals")
