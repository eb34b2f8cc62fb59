"""C05: consuming part of a fragment sequence leaves exactly the unread bytes."""
from checks.streams_common import *
from vlib.check import run_scenarios, rerunner
from vlib.traces import check_traces


def scenarios(c):
    out = model_paths(c, {"K"}, dict(MaxStreams=3 if c.thorough else 2, MaxFrags=2 if c.thorough else 3, MaxSize=2, IOV=2, MaxCalls=1))
    lens = [0, 1, 2, 255, 256, 257, 511, 512, 513, 770]
    rng = c.rng
    # one chain: every interesting point, then the rest in two steps
    for n in lens:
        pts = sorted(set(x for b in (0, 1, 255, 256, 257, 511, 512, 513, n - 1, n) for x in (b,) if 0 <= x <= n))
        for p in pts:
            q = rng.randint(0, n - p)
            out.append(chain_len("a", n) + reads("a", rng) + ["K %d a" % p] + reads("a", rng) + ["K %d a" % q] + reads("a", rng) +
                       ["K %d a" % (n - p - q)] + reads("a") + ["K 0 a"] + reads("a"))
    # linked chains and mixed groups, random points on and off the boundaries
    for _ in range(2500 if c.thorough else 500):
        sc, names, total = [], [], []
        bounds = [0]
        for g in range(rng.randint(1, 3)):
            nm = "g%d" % g
            kind = rng.random()
            if kind < 0.35:
                fr = [rng.choice([0, 1, 2, 3, 7, 300]) for _ in range(rng.randint(0, 4))]
                sc.append("A %s %s" % (nm, " ".join(map(str, fr))))
                for f in fr:
                    bounds.append(bounds[-1] + f)
            else:
                segs = rng.randint(1, 4)
                for i in range(segs):
                    n = rng.choice(lens)
                    x = nm if i == 0 else "%s_%d" % (nm, i)
                    sc += chain_len(x, n)
                    k = n
                    while k > 0:
                        bounds.append(bounds[-1] + min(256, k))
                        k -= 256
                ch = ["%s_%d" % (nm, i) for i in range(1, segs)]
                if segs == 4 and rng.random() < 0.5:
                    sc += ["P %s %s" % (ch[1], ch[2]), "P %s %s" % (nm, ch[0]), "P %s %s" % (nm, ch[1])]
                elif segs >= 3 and rng.random() < 0.5:
                    sc += ["P %s %s" % (ch[0], ch[1]), "P %s %s" % (nm, ch[0])] + ["P %s %s" % (nm, x) for x in ch[2:]]
                else:
                    sc += ["P %s %s" % (nm, x) for x in ch]
            names.append(nm)
        sc += reads(names, rng)
        left = bounds[-1]
        pos = 0
        for _k in range(rng.randint(1, 7)):
            if left == 0 and rng.random() < 0.7:
                break
            r = rng.random()
            if r < 0.5:
                later = [b - pos for b in bounds if b >= pos]
                n = rng.choice(later) + rng.choice([-1, 0, 0, 0, 1])
            elif r < 0.6:
                n = left
            else:
                n = rng.randint(0, left)
            n = max(0, min(left, n))
            sc.append("K %d %s" % (n, " ".join(names)))
            left -= n
            pos += n
            sc += reads(names, rng)
        if rng.random() < 0.3:
            sc += ["L %s" % rng.choice(names)] + reads(names)
        out.append(sc)
    return out


def run(c):
    exe = build()
    sc = scenarios(c)
    tr = run_scenarios(c, exe, sc, "stream consumption")
    check_traces(c, "StreamTrace", tr, "stream consumption", rerunner(c, exe, sc, "stream consumption"))
