from vlib import build as B
from vlib.conc import explore


def build():
    return B.build("conc", ["conc.cpp", "vrt.cc"], ["recorder/metrics_tracker.cpp"], mode="sched")


def dfs(what, pre, *params, secs=25, execs=400000):
    return [what, "dfs", pre, execs, 1, 0, 1, secs] + list(params)


def rand(c, what, n, shard, *params, secs=25):
    return [what, "rand", 0, n, c.seed, shard, 8, secs] + list(params)


def spurious(job):
    return (job, {"VRT_SPURIOUS": "1"})


def stale(job, n=1):
    """The same with up to n loads an execution that read a value already overwritten, where the memory orders permit it."""
    return (job, {"VRT_STALE": str(n)})
