"""C17: the streaming recorder's flush and shutdown tell the truth and always return."""
from checks.srec_common import *
from checks.conc_common import dfs, rand

# the model's programs, also run by the code's threads
PROGS = {"P1": ("rf", "rf"), "P2": ("rfz", "rz"), "P3": ("rrf", "zrf"), "P4": ("rfrf", "rr", "z"), "P5": ("rf", "fr", "zz"), "P6": ("rz", "zr"), "P7": ("rfrf", "rf", "f")}
TEXT = {"r": "r20", "f": "f350", "z": "z700"}


def run(c):
    t = c.thorough
    for p, stall in [("P1", 0), ("P6", 0), ("P2", 1), ("P3", 1)] + ([("P4", 1), ("P5", 1), ("P7", 0)] if t else []):
        for cap in (1, 2):
            b = "TRUE" if stall else "FALSE"
            c.model("RecorderModel", "%s cap %d" % (p, cap), consts={"Progs": "<- " + p, "Cap": cap, "Stalls": b, "Timeouts": b},
                    invariants=["Truth", "Bounds", "AllWritten"], properties=["Terminates"], workers=6, heap="6g")
    exe = build()
    j = []
    #        max,conns,poll,report,wt,retry,min,max,grace,dns,throw
    for i, sc in enumerate([
            ("4,1,100,300,500,200,1000,1000,200,0,0", "c.0w.20A", "1500", "r20,f2000,r30,@600,z2000", "@50,r12"),
            ("2,2,100,1000,500,200,1000,1000,200,50,0", "c.0w.20A", "1500", "r20,r30,r12,f150", "r20,f0,r15,f500"),
            ("2,2,100,1000,300,200,1000,1000,200,0,0", "c.0w.150s.600w/r/c.0p210.200w", "1500", "r20,@120,r30,f350,z300", "@170,r12,f100,r20"),
            ("4,1,100,400,300,200,500,500,100,0,0", "c.0w.20A/c.0w.200e/n/c.100w.20A", "2500", "@10,r20,@450,r20,@520,r300,f200,@900,r12", "@480,f300,@1200,r12,z500"),
    ] + [("%d,1,100,300,500,200,1000,1000,200,0,0" % cap, so, "1000") + tuple(",".join(TEXT[k] for k in s) for s in PROGS[p])
         for p in sorted(PROGS) for cap, so in ((1, "c.0w.20A"), (2, "c.0w.150s.600w/c.0w.20A"))]):
        j.append(dfs("srec", 2, *sc, secs=90 if t else 2 if i > 3 else 5))
        j.append(rand(c, "srec", 20000 if t else 100 if i > 3 else 500, i, *sc, secs=90 if t else 5))
    for i in range(1500 if t else 250):
        j.append(["srec", "rand", 0, 150 if t else 25, c.rng.randrange(10 ** 6), i, 8, 20] + list(rand_case(c.rng)))
    explore(c, exe, j, "streaming recorder", "RecorderTrace", decode=decode, consts={"JudgeTimes": "TRUE", "JudgeCounts": "TRUE"})
