from vlib import build as B, tlc as T, mbt
from vlib.check import run_scenarios, rerunner
from vlib.traces import check_traces

SRCS = ["common/protobuf.cpp", "common/random.cpp", "common/random_traverser.cpp", "common/timestamp.cpp", "common/report_request_framing.cpp",
        "network/ip_address.cpp", "recorder/stream_recorder/utility.cpp", "common/platform/fork_unix.cpp", "common/platform/string_unix.cpp",
        "common/platform/error_unix.cpp", "common/platform/network_unix.cpp"]


def build():
    return B.build("pure", ["pure.cpp"], SRCS, mode="asan", protos=True)


def hexs(s):
    if isinstance(s, str):
        s = s.encode("latin1")
    return s.hex() or "-"


def check(c, module, scenarios, what, fix=None):
    exe = build()
    tr = run_scenarios(c, exe, scenarios, what)
    if fix:
        tr = [fix(sc, t) for sc, t in zip(scenarios, tr)]
    rr = rerunner(c, exe, scenarios, what)
    check_traces(c, module, tr, what, (lambda i: fix(scenarios[i], rr(i))) if fix else rr)
