"""C33: clock conversions are exact inverses and keep differences."""
from checks.pure_common import *


def run(c):
    for off in ([-4, 0, 7] if not c.thorough else [-9, -4, -1, 0, 1, 7, 12]):
        c.model("ClockModel", "offset %d" % off, consts={"MaxT": 12 if c.thorough else 7, "OffPlus": off + 20}, spec="Spec", invariants=["Within", "Inverse", "Differences"])
    rng = c.rng
    lim = 4 * 10 ** 18
    ts = [0, 1, -1, 999, 1000, 1001, 10 ** 9, 10 ** 9 - 1, 10 ** 18, 1565000000123456789, -10 ** 9, 2 ** 31, 2 ** 32, 2 ** 53, 2 ** 53 + 1, -(2 ** 53) - 1, lim, -lim]
    cmds = []
    for _ in range(4000 if c.thorough else 700):
        t = rng.choice(ts) if rng.random() < 0.4 else rng.randint(-lim, lim)
        d = rng.choice(ts) if rng.random() < 0.4 else rng.randint(-lim, lim)
        cmds.append("%s %d %d" % (rng.choice(["sys", "std"]), d, t))
    for _ in range(2000 if c.thorough else 300):
        st = rng.choice([0, 1, 10 ** 9 - 1, 10 ** 9, 123456789012, rng.randint(0, 10 ** 15)])
        sy = rng.choice([0, 1, 1565000000123456789, 999999999, rng.randint(0, 2 * 10 ** 18)])
        cmds.append("delta %d %d %d" % (st, sy, rng.choice([0, 0, 1, 3, 10])))
    rng.shuffle(cmds)
    check(c, "ClockTrace", [cmds[i:i + 25] for i in range(0, len(cmds), 25)], "clock conversions")
