"""C06: a block-chained output stream yields exactly the bytes written to it."""
import itertools
from checks.streams_common import *
from vlib.check import run_scenarios, rerunner
from vlib.traces import check_traces


def scenarios(c):
    rng = c.rng
    out = []
    cuts = [None, 0, 1, 255, 256]
    for n in range(0, 6 if c.thorough else 5):
        for ops in itertools.product(cuts, repeat=n):
            if n >= 4 and rng.random() > (1.0 if c.thorough else 0.5):
                continue
            # a back-up may not exceed what Next handed out: track the block position
            pos, sc, ok = 256 * 0, ["C a"], True
            blk = 0  # bytes used in the current block
            for b in ops:
                size = 256 - blk if blk < 256 else 256
                used = blk if blk < 256 else 0
                sc.append("N a")
                if b is not None:
                    b = min(b, size)
                    if b > 1 and rng.random() < 0.3:   # give back in two steps
                        k = rng.randint(0, b)
                        sc.append("B a %d" % k)
                        sc.append("B a %d" % (b - k))
                    else:
                        sc.append("B a %d" % b)
                    blk = used + size - b
                else:
                    blk = 256
            sc.append("X a")
            sc += reads("a", rng)
            out.append(sc)
    # longer streams, chains of streams, and reading them piecewise
    for _ in range(1500 if c.thorough else 300):
        sc, names, tot = [], [], 0
        for g in range(rng.randint(1, 4)):
            nm = "x%d" % g
            blk, cnt = 0, 0
            sc.append("C " + nm)
            for _k in range(rng.randint(0, 9)):
                size = 256 - blk if blk < 256 else 256
                used = blk if blk < 256 else 0
                sc.append("N " + nm)
                if rng.random() < 0.7:
                    b = rng.choice([0, 1, size, size - 1, rng.randint(0, size)])
                    k = rng.randint(0, b) if rng.random() < 0.3 else 0
                    if k:
                        sc.append("B %s %d" % (nm, k))
                    sc.append("B %s %d" % (nm, b - k))
                else:
                    b = 0
                blk = used + size - b
                tot += size - b
            sc.append("X " + nm)
            sc.append("R %s 0" % nm)
            names.append(nm)
        for x in names[1:]:
            sc.append("P %s %s" % (names[0], x))
        sc += reads(names[:1], rng)
        left = tot
        while left > 0 and rng.random() < 0.6:
            n = rng.randint(0, left)
            sc.append("K %d %s" % (n, names[0]))
            sc += reads(names[:1])
            left -= n
        out.append(sc)
    return out


def run(c):
    exe = build()
    sc = scenarios(c)
    tr = run_scenarios(c, exe, sc, "block-chained output")
    check_traces(c, "StreamTrace", tr, "block-chained output", rerunner(c, exe, sc, "block-chained output"))
    c.model("ChainModel", invariants=["Exact", "Count", "Reads"], view="MView", spec="MSpec",
            consts=dict(Block=3, MaxBlocks=4 if c.thorough else 3))
