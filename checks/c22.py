"""C22: endpoint lists are split into distinct hosts without losing any endpoint."""
from checks.pure_common import *


def run(c):
    rng = c.rng
    base = ["a", "b", "A", "B", "localhost", "LOCALHOST", "LocalHost", "a.b", "A.B", "host-1", "HOST-1", "host-10", "host", "z", "_x", "0", "10.0.0.1", "[::1]", "aa", "aA", "Aa", "", "~", "[", "`", "@"]
    sc = [["sep"]]
    import itertools
    for n in (1, 2, 3):
        for t in itertools.product(["a", "A", "b", "aB"], repeat=n):
            sc.append(["sep " + " ".join("%s %d" % (hexs(h), rng.choice([0, 80, 80, 65535])) for h in t)])
    for _ in range(3000 if c.thorough else 600):
        n = rng.choice([1, 2, 3, 4, 5, 8, 20, 40])
        pool = rng.sample(base, rng.randint(1, len(base)))
        sc.append(["sep " + " ".join("%s %d" % (hexs(rng.choice(pool)), rng.choice([0, 1, 80, 443, 8080, 65535])) for _ in range(n))])
    check(c, "EndpointsTrace", sc, "endpoint lists")
