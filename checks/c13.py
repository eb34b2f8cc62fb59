"""C13: manual recorder: every span is delivered once or counted dropped."""
from vlib import build as B, tlc as T, mbt
from vlib.check import run_scenarios, rerunner
from vlib.traces import check_traces
from vlib.conc import explore
from checks.conc_common import dfs, rand

SRCS = ["recorder/manual_recorder.cpp", "recorder/fork_aware_recorder.cpp", "recorder/metrics_tracker.cpp", "recorder/transporter.cpp",
        "recorder/serialization/report_request.cpp", "recorder/serialization/report_request_header.cpp",
        "recorder/serialization/embedded_metrics_message.cpp", "common/buffer_chain.cpp", "common/protobuf.cpp", "common/chained_stream.cpp",
        "common/fragment_input_stream.cpp", "common/fragment_array_input_stream.cpp", "common/composable_fragment_input_stream.cpp",
        "common/random.cpp", "common/platform/fork_unix.cpp", "common/logger.cpp", "common/utility.cpp", "common/report_request_framing.cpp",
        "common/serialization.cpp"]
PL = {"hold": "h", "ok": "o", "fail": "x"}


def build(mode):
    return B.build("manual", ["manual.cpp"] + (["vrt.cc"] if mode == "sched" else []), SRCS, mode=mode, protos=True)


def seq_scenarios(c, forks="FALSE"):
    out = []
    for cap, held, pend in (((1, 2, 4), (2, 2, 3), (3, 1, 4)) if c.thorough else ((1, 2, 2), (2, 1, 3))):
        r, inits, trans = T.transitions("ManualSeq", {"Cap": cap, "MaxHeld": held, "MaxPend": pend, "Forks": forks}, workers=4)
        c.add(states=r.distinct, transitions=r.generated)
        paths, total = mbt.cover(inits, trans, c.rng, max_len=60)
        c.cov["model_transitions_replayed"] = c.cov.get("model_transitions_replayed", 0) + total
        for init, steps in paths:
            sc = ["new %d %d" % (cap, init[3])]
            for a, _ in steps:
                if a["op"] == "rec":
                    sc.append("rec %s %d" % (PL[a["p"]], c.rng.choice([0, 1, 3, 3, 3, 100, 240, 300, 1000])))
                elif a["op"] == "flush":
                    sc.append("flush " + PL[a["p"]])
                elif a["op"] == "answer":
                    sc.append("answer %d %d" % (a["i"], a["ok"]))
                else:
                    sc.append("fork")
            out.append(sc + ["flush o", "end"])
    return out


def random_scenarios(c, n):
    out = []
    for _ in range(n):
        cap = c.rng.choice([1, 2, 3, 7, 16, 50])
        sc = ["new %d %d" % (cap, c.rng.randint(0, 1))]
        for _k in range(c.rng.choice([5, 20, 80])):
            x = c.rng.random()
            p = c.rng.choice("hhoox")
            if x < 0.6:
                sc.append("rec %s %d" % (p, c.rng.choice([0, 1, 100, 116, 117, 118, 119, 120, 121, 200, 240, 16383, 20000, c.rng.randint(0, 600)])))
            elif x < 0.75:
                sc.append("flush " + p)
            else:
                sc.append("answer %d %d" % (c.rng.randint(1, 3), c.rng.randint(0, 1)))
        out.append(sc + ["flush o", "end"])
    for cap in (64, 150, 300):   # long reports
        out.append(["new %d 0" % cap] + ["rec h 2"] * (cap + 2) + ["flush h", "answer 1 0", "rec h 5", "flush h", "answer 1 1", "flush o", "end"])
    return out


def run(c):
    t = c.thorough
    c.model("ManualModel", "2 threads", consts=dict(Threads="{1, 2}", MaxSpans=3 if t else 2, MaxReports=2, MaxFlushes=3 if t else 2, Cap=1),
            invariants=["ExactlyOnce", "DropsCounted", "Bounded"], workers=8, c2=t, heap="8g")
    if t:
        c.model("ManualModel", "3 threads", consts=dict(Threads="{1, 2, 3}", MaxSpans=2, MaxReports=2, MaxFlushes=2, Cap=1),
                invariants=["ExactlyOnce", "DropsCounted", "Bounded"], workers=8, c2=True, heap="10g", timeout=1200)
    exe = build("asan")
    sc = seq_scenarios(c) + random_scenarios(c, 1500 if t else 200)
    tr = run_scenarios(c, exe, sc, "manual recorder")
    check_traces(c, "ManualTrace", tr, "manual recorder", rerunner(c, exe, sc, "manual recorder"))
    exe = build("sched")
    j = []
    for i, sc in enumerate([(1, 0, "h", "rr", "f"), (1, 1, "o", "rr", "r"), (2, 0, "h", "rr", "rfx"), (1, 1, "x", "rr", "f"), (2, 0, "h", "rfx", "fo", "rr"),
                            (1, 1, "h", "rr", "fx", "fo"), (2, 1, "x", "rrr", "rr")]):
        j.append(dfs("manual", 3 if t else 2, *sc, secs=90 if t else 4))
        j.append(rand(c, "manual", 20000 if t else 400, i, *sc, secs=90 if t else 3))
    explore(c, exe, j, "manual recorder threads", "ManualTrace")
