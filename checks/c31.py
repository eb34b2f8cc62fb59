"""C31: the baggage map behaves as a sorted map with unique keys."""
from checks.pure_common import *


def run(c):
    rng = c.rng
    keys = ["k%d" % i for i in range(1, 5 if c.thorough else 4)]
    r, inits, trans = T.transitions("FlatMapModel", {"Keys": "{%s}" % ", ".join(str(i) for i in range(1, 5 if c.thorough else 4)), "Values": '{"x", "y"}'},
                                    invariants=["IsSorted", "IsMap", "Unique"], workers=4)
    c.add(states=r.distinct, transitions=r.generated)
    paths, total = mbt.cover(inits, trans, rng, max_len=20)
    c.cov["model_transitions_replayed"] = total
    sc = []
    for _, steps in paths:
        s = []
        for a, _t in steps:
            s += ["ins s k%d %s" % (a["k"], a["v"]), "ins g %d %s" % (a["k"], a["v"])]
            for k in (1, 2, 3, 4, 0):
                s += ["fnd s k%d" % k, "fnd g %d" % k]
        sc.append(s)
    alpha = ["-", "a", "ab", "abc", "b", "B", "a-b", "z", "Z", "aa", "0", "9", "~", "ot", "ot-baggage", "x_1"]
    for _ in range(1500 if c.thorough else 200):
        s = []
        for _i in range(rng.randint(1, 30)):
            r_ = rng.random()
            if r_ < 0.4:
                s.append("ins s %s %s" % (rng.choice(alpha), rng.choice("pqrs")))
            elif r_ < 0.6:
                s.append("ins g %d %s" % (rng.randint(0, 8), rng.choice("pqrs")))
            elif r_ < 0.85:
                s.append("fnd s " + rng.choice(alpha))
            else:
                s.append("fnd g %d" % rng.randint(0, 9))
        sc.append(s)

    def fix(s, t):
        ks = sorted(set([("" if x.split()[2] == "-" else x.split()[2]) for x in s if x.split()[1] == "s"]))
        return [{"e": "rank", "r": {k: i for i, k in enumerate(ks + ["_none"])}}] + t
    check(c, "FlatMapTrace", sc, "map operations", fix)
