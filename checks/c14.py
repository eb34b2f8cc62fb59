"""C14: legacy manual recorder: one report in flight and exact accounting."""
from vlib import build as B, tlc as T, mbt
from vlib.check import run_scenarios, rerunner
from vlib.traces import check_traces


def build():
    return B.build("legacy", ["legacy.cpp"], ["recorder/legacy_manual_recorder.cpp", "recorder/report_builder.cpp", "recorder/transporter.cpp",
                                              "common/random.cpp", "common/logger.cpp", "common/utility.cpp", "common/platform/fork_unix.cpp"],
                   mode="asan", protos=True)


def scenarios(c):
    out = []
    r, inits, trans = T.transitions("LegacyModel", {"Maxes": "{1, 2}", "MaxSpans": 5 if c.thorough else 4},
                                    invariants=["NoRepeat", "InOrder", "Conserved", "OneReport"], workers=4)
    c.add(states=r.distinct, transitions=r.generated)
    c.log("TLC LegacyModel: %d generated, %d distinct" % (r.generated, r.distinct))
    paths, total = mbt.cover(inits, trans, c.rng, max_len=40)
    c.cov["model_transitions_replayed"] = total
    for init, steps in paths:
        sc = ["new %d" % init[5]]
        for a, _ in steps:
            sc.append({"rec": lambda: "rec %s %s" % (a["a1"], a["a2"]), "flush": lambda: "flush " + a["a"],
                       "answer": lambda: "answer " + a["a"], "max": lambda: "max %d" % a["m"]}[a["op"]]())
        out.append(sc + ["answer ok", "flush ok"])
    for _ in range(2000 if c.thorough else 250):
        m = c.rng.choice([1, 2, 3, 5, 20])
        sc = ["new %d" % m]
        off = c.rng.random() < 0.1
        for _k in range(c.rng.choice([10, 30, 100])):
            x = c.rng.random()
            an = c.rng.choice(["hold", "hold", "ok", "fail", "throw"])
            if x < 0.6:
                sc.append("rec %s %s" % (an, c.rng.choice(["hold", "ok", "fail", "throw"])))
            elif x < 0.75:
                sc.append("flush " + (an if not off or c.rng.random() < 0.8 else "off"))
            elif x < 0.97:
                sc.append("answer " + c.rng.choice(["ok", "ok", "fail"] + (["off"] if off else [])))
            else:
                sc.append("max %d" % c.rng.choice([1, 2, 3, 5, 20]))
        out.append(sc + ["answer ok", "flush ok"])
    return out


def run(c):
    exe = build()
    sc = scenarios(c)
    tr = run_scenarios(c, exe, sc, "legacy manual recorder")
    check_traces(c, "LegacyTrace", tr, "legacy manual recorder", rerunner(c, exe, sc, "legacy manual recorder"))
