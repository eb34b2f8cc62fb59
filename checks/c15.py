"""C15: background recorder: bounded, exactly-once reports under any schedule."""
from checks.auto_common import *


def run(c):
    t = c.thorough
    model(c)
    exe = build()
    j = []
    for i, sc in enumerate([(0, 1, "o", "w", "rr", "rr"), (0, 2, "xo", "w", "rrr", "rr"), (0, 2, "xxo", "n", "rFr", "rr"), (0, 2, "d", "w", "rrr", "rLr"),
                            (0, 1, "t", "w", "rrr", "rF"), (0, 3, "XO", "w", "rrSr", "rrr"), (0, 2, "oxo", "w", "rmrSr", "rrMr"),
                            (1, 2, "xO", "w", "rrSrr", "rSr", "srr"), (1, 3, "xXd", "w", "rrSSrrSSrLr", "rSrSrS"), (0, 2, "xo", "w", "rr", "rr", "rr"),
                            (1, 1, "t", "w", "rSrSr", "sSr"), (1, 1, "ox", "w", "MSSrrSrr", ""), (1, 3, "ox", "w", "rmSSrrSrr", "Sr")]):
        j.append(dfs("auto", 3 if t else 2, *sc, secs=90 if t else 4))
        j.append(rand(c, "auto", 20000 if t else 500, i, *sc, secs=90 if t else 4))
    explore(c, exe, j, "background recorder", "AutoTrace")
