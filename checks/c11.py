"""C11: drop counts are never lost or double-counted."""
from checks.conc_common import *


def run(c):
    exe = build()
    t = c.thorough
    c.model("Metrics", consts=dict(Recorders="{a, b}", Reporters="{r1, r2}", MaxDrops=6, a="a", b="b", r1="r1", r2="r2"), invariants=["Conserved"])
    j = []
    for i, sc in enumerate([("dD", "bt"), ("dd", "bb"), ("Dq", "tb"), ("d", "b", "t"), ("Dd", "bb", "bt"), ("dsf", "bq", "Dt"), ("bdt", "tdb"),
                            ("bDb", "dbt", "q")]):
        j.append(dfs("metrics", 6 if t else 4, *sc, secs=60 if t else 3))
        j.append(rand(c, "metrics", 20000 if t else 1500, i, *sc, secs=60 if t else 3))
        j.append(stale(rand(c, "metrics", 20000 if t else 1000, i, *sc, secs=60 if t else 3), 2))
    explore(c, exe, j, "drop accounting", "MetricsTrace")
