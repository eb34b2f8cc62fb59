"""C12: a report is exactly its header, its drop count and its spans."""
from checks.streams_common import *
from vlib.check import run_scenarios, rerunner
from vlib.traces import check_traces


def build_report():
    return B.build("report", ["report.cpp"], SRCS + ["recorder/serialization/report_request.cpp", "recorder/serialization/embedded_metrics_message.cpp",
                                                     "common/buffer_chain.cpp", "common/protobuf.cpp"], mode="asan", protos=True)


def model_scenarios(c):
    r, inits, trans = T.transitions("ReportModel", {"MaxSpans": 4 if c.thorough else 3}, invariants=["HeaderFirst", "InOrder", "Sized"], workers=4)
    c.add(states=r.distinct, transitions=r.generated)
    c.log("TLC ReportModel: %d generated, %d distinct" % (r.generated, r.distinct))
    paths, total = mbt.cover(inits, trans, c.rng, max_len=16)
    c.cov["model_transitions_replayed"] = total
    out = []
    for init, steps in paths:
        sc, n = ["QN q 3 %d" % init[0]["d"]], 0
        for a, _ in steps:
            if a["op"] == "add":
                n += 1
                sc += chain_len("c%d" % n, a["n"]) + ["QA q c%d" % n]
            elif a["op"] == "look":
                sc.append("QR q %d" % a["k"])
            else:
                sc.append("QC q %d" % a["x"])
        out.append(sc)
    return out


def random_scenarios(c, count):
    rng = c.rng
    out = []
    for _ in range(count):
        sc, n = [], 0
        for q in ["q%d" % i for i in range(rng.choice([1, 1, 2]))]:
            sc.append("QN %s %d %d" % (q, rng.choice([1, 2, 255, 256, 300, 5000]), rng.choice([0, 0, 1, 2, 127, 128, 16383, 16384, 2 ** 31 - 1, rng.randint(1, 10 ** 6)])))
        qs = sorted({s.split()[1] for s in sc})
        for _k in range(rng.choice([0, 1, 2, 5, 12, 40])):
            q = rng.choice(qs)
            if rng.random() < 0.75:
                n += 1
                ln = rng.choice([0, 1, 2, 200, 255, 256, 257, 511, 512, 513, 1500])
                sc += chain_len("c%d" % n, ln)
                if rng.random() < 0.5 and ln:   # header space that was not needed is skipped before the span is added
                    sc.append("K %d c%d" % (rng.choice([0, 1, ln, min(ln, 5), min(ln, 256), rng.randint(0, ln)]), n))
                sc.append("QA %s c%d" % (q, n))
            elif rng.random() < 0.7:
                sc.append("QR %s %d" % (q, rng.choice([0, 1, 2, 3, 4, 5, 8])))
            else:
                sc.append("QC %s %d" % (q, rng.choice([0, 0, 1, 100])))
        for q in qs:
            sc += ["QR %s 0" % q, "QC %s 0" % q, "QR %s %d" % (q, rng.randint(1, 6)), "QR %s 0" % q, "QD " + q]
        out.append(sc)
    return out


def run(c):
    exe = build_report()
    sc = model_scenarios(c) + random_scenarios(c, 2500 if c.thorough else 400)
    tr = run_scenarios(c, exe, sc, "reports")
    check_traces(c, "ReportTrace", tr, "reports", rerunner(c, exe, sc, "reports"))
