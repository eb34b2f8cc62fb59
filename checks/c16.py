"""C16: background recorder: flush and destruction always finish and tell the truth."""
from checks.auto_common import *


def run(c):
    t = c.thorough
    model(c)
    exe = build()
    j = []
    for i, sc in enumerate([(0, 5, "o", "n", "rF", "rF"), (0, 2, "xo", "n", "rrLf", "rF"), (0, 5, "O", "n", "rf", "rL"), (0, 1, "OO", "n", "rr", "r"),
                            (1, 5, "oo", "w", "rF", "srL"), (1, 5, "OO", "w", "rLrL", "sSfrL"), (1, 2, "XO", "w", "rrLrF", "rSrSF"),
                            (0, 5, "t", "w", "rL", "rF"), (0, 5, "d", "n", "rLrL", "rL"), (1, 5, "dd", "w", "rLrLf", "SrLrF"),
                            (1, 5, "Oo", "w", "rSsF", "rSSL"), (0, 2, "o", "n", "", ""),
                            (1, 5, "OO", "w", "rSsssrSssr", "SSr"), (1, 5, "1O", "w", "rSsrSSsr", "SssrF"), (1, 5, "21", "w", "rSsrrSSsr", "sSsrSS"),
                            (1, 9, "oOX", "w", "rSsssrrSsr", "SsssSsr"), (1, 3, "O1", "w", "rrrSSrSr", "SsrSSSr"),
                            (0, 2, "ooo", "w", "rLrLrL", "rLrL")]):
        j.append(dfs("auto", 3 if t else 2, *sc, secs=90 if t else 4))
        j.append(rand(c, "auto", 20000 if t else 400, i, *sc, secs=90 if t else 3))
    explore(c, exe, j, "background recorder flush and destruction", "AutoTrace")
