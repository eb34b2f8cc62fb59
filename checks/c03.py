"""C03: an atomically swapped owning slot never leaks or double-frees."""
from checks.conc_common import *
import itertools


def run(c):
    exe = build()
    t = c.thorough
    c.model("Slots", consts=dict(Threads="{t1, t2%s}" % (", t3" if t else ""), SlotSet="{1, 2}", MaxObj=3, t1="t1", t2="t2", **({"t3": "t3"} if t else {})),
            invariants=["OneOwner"])
    j = []
    ops = ["f", "x", "y", "r", "R", "n"]
    pairs = list(itertools.product(["ff", "fx", "fr", "xf", "xy", "rf", "fy", "Rr", "xn", "Zx"], ["fx", "fr", "yf", "rx", "nf", "zR"]))
    c.rng.shuffle(pairs)
    for i, (a, b) in enumerate(pairs if t else pairs[:24]):
        j.append(dfs("slots", 6 if t else 4, 1, a, b, secs=20 if t else 3))
    for i, sc in enumerate([("fx", "yr", "fn"), ("xx", "rf", "Rf"), ("fFxX", "XxrR", "yYfF"), ("RzZr", "fFyY", "xXnN"), ("ffxr", "fxRn")]):
        j.append(dfs("slots", 4 if t else 2, 2, *sc, secs=60 if t else 3))
        j.append(rand(c, "slots", 30000 if t else 1500, i, 2, *sc, secs=60 if t else 3))
        j.append(stale(rand(c, "slots", 30000 if t else 1000, i, 2, *sc, secs=60 if t else 3), 2))
    explore(c, exe, j, "owning slots", "SlotTrace")
