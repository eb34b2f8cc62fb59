from vlib import build as B
from vlib.conc import explore
from checks.conc_common import dfs, rand

SRCS = ["recorder/auto_recorder.cpp", "recorder/report_builder.cpp", "recorder/transporter.cpp", "common/random.cpp", "common/logger.cpp",
        "common/utility.cpp", "common/platform/fork_unix.cpp"]


def build():
    return B.build("auto", ["auto.cpp", "vrt.cc"], SRCS, mode="sched", protos=True)


def model(c):
    t = c.thorough
    inv = ["Distinct", "NothingLost", "Bound", "Silence", "Truth"]
    c.model("AutoModel", "growing maximum", consts=dict(Threads="{1, 2}", MaxSpans=3 if t else 2, Caps="{1, 2}", MaxFlushes=2 if t else 1),
            invariants=inv, workers=8, c2=t, heap="8g", timeout=1500)
