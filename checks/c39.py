"""C39: the resolver over c-ares: model behaviours and random histories of a scripted library replayed on virtual time."""
import os
from vlib import build as B, tlc as T, mbt
from vlib.check import run_scenarios, rerunner
from vlib.traces import check_traces

SRCS = ["network/ares_dns_resolver/ares_dns_resolver.cpp", "network/ares_dns_resolver/ares_library_handle.cpp",
        "recorder/stream_recorder/satellite_endpoint_manager.cpp", "recorder/stream_recorder/satellite_dns_resolution_manager.cpp",
        "recorder/stream_recorder/utility.cpp", "network/ip_address.cpp", "network/event.cpp", "network/event_base.cpp", "network/timer_event.cpp",
        "common/random.cpp", "common/logger.cpp", "common/utility.cpp", "common/platform/fork_unix.cpp", "common/platform/string_unix.cpp"]
UNIT = 100000  # a query's time in the model: the 100 ms the resolver is given


def build():
    return B.build("resolver", ["resolver.cpp", "fakeevent.cc", "fakeares.cc"], SRCS, mode="asan", protos=True)


def from_model(path):
    sc = ["N 5300 100 1 7"]
    for a, _ in path[1]:
        o = a["op"]
        if o == "R":
            p = a["p"]
            sc.append("P %d %d %d %d 0 4 1 2" % (p["now"], p["tries"], p["hops"], 0 if p["fin"] == "ok" else 4))
            sc.append("R 1 n 4 0")
        elif o == "A":
            sc.append("A %d %s" % (a["k"], a["x"]))
        elif o == "adv":
            sc.append("adv %d" % UNIT)
        elif o == "F":
            sc.append("F 1")
        elif o == "D":
            sc.append("D 1")
    return sc + ["end"]


NAMES = ["a.example", "b", "sat-1.x.y", "10.0.0.1", "fd00::1"]


def options(rng):
    s = rng.sample(range(1, 200), rng.choice([0, 1, 1, 2, 3]))
    return "%d %d %d %s" % (rng.choice([53, 5300, 1, 65535]), rng.choice([0, 1, 20, 100, 2000, 7001]), len(s), " ".join(map(str, s)))


def plan(rng):
    st = rng.choice([0, 0, 0, 0, 1, 4, 12])
    n = rng.choice([0, 1, 1, 2, 3, 6])
    return "P %d %d %d %d %d %d %s" % (rng.random() < 0.2, rng.choice([1, 1, 2, 3, 4]), rng.choice([0, 0, 0, 1, 2, 4]), st, rng.random() < 0.1,
                                       rng.choice([4, 4, 4, 6, 6, 0]), " ".join(str(rng.randint(1, 250)) for _ in range(n)))


def rand(rng):
    sc = []
    nr = rng.choice([1, 1, 2, 3])
    for _ in range(nr):
        if rng.random() < 0.04:
            sc.append("F 1")
        elif rng.random() < 0.04:
            sc.append("I")
        sc.append("N " + options(rng))
    asked = 0
    for _ in range(rng.randint(4, 50)):
        r = rng.random()
        if r < 0.3:
            for _ in range(rng.choice([1, 1, 2, 3])):
                again = "".join(" %s %d %d" % (rng.choice(NAMES), rng.choice([4, 6]), rng.choice([0, 1])) for _ in range(rng.choice([0, 0, 0, 1, 2])))
                n = 1 + again.count(" ") // 3
                asked += n
                sc += [plan(rng) for _ in range(n)]
                sc.append("R %d %s %d %d%s" % (rng.randint(1, nr), rng.choice(NAMES), rng.choice([4, 6]), rng.choice([0, 0, 0, 1, 2]), again))
        elif r < 0.7 and asked:
            ks = [rng.randint(max(1, asked - 5), asked) for _ in range(rng.choice([1, 1, 1, 2, 3]))]
            sc.append("A " + " ".join("%d %s" % (k, rng.choice("aaaaaacctsfe")) for k in ks))
        elif r < 0.95:
            sc.append("adv %d" % rng.choice([1, 1000, 19999, 20000, 50000, 100000, 150000, 2000000, 7001000]))
        elif r < 0.98:
            sc.append("F " + rng.choice(["1", "0 1", "1 1"]))
        else:
            sc.append("D %d" % rng.randint(1, nr))
    return sc + ["end"]


def manager(rng):
    """The endpoint manager over real resolvers: taken down while questions are open."""
    retry = rng.choice([20000, 50000])
    sc = ["P %d %d 0 %d 0 4 1 2" % (rng.random() < 0.3, rng.choice([1, 2]), rng.choice([0, 0, 4])) for _ in range(30)]
    sc.append("M %d %s %s" % (retry, options(rng), " ".join(rng.sample(NAMES, rng.randint(1, 3)))))
    for _ in range(rng.randint(0, 20)):
        if rng.random() < 0.5:
            sc.append("A %d %s" % (rng.randint(1, 12), rng.choice("aaaatsfec")))
        else:
            sc.append("adv %d" % rng.choice([1000, 50000, 150000, 400000]))
    return sc + ["X", "end"]


def run(c):
    exe = build()
    t = c.thorough
    sc, tot = [], 0
    kinds = "{\"a\", \"t\", \"s\", \"f\", \"e\"}"
    confs = [(1, 4, kinds, "TRUE"), (2, 2, '{"a", "s", "f", "e"}', "FALSE"), (2, 2, '{"a"}', "TRUE")]
    if t:
        confs += [(2, 2, '{"a", "t"}', "FALSE"), (2, 1, kinds, "FALSE"), (2, 2, '{"a", "t", "e"}', "FALSE"), (3, 2, '{"a"}', "FALSE"), (1, 6, kinds, "TRUE")]
    invs = ["InvEnds", "InvBound", "InvQuiet", "InvGone", "InvOpen"]
    for mq, mn, ks, fl in confs:
        k = {"MaxQ": mq, "MaxNow": mn, "Kinds": ks, "Faults": fl, "T": 1, "Slack": 0, "Tells": "TRUE"}
        r, inits, trans = T.transitions("ResolverModel", k, invariants=invs, workers=4, timeout=700)
        c.add(states=r.distinct, transitions=r.generated)
        paths, total = mbt.cover(inits, trans, c.rng, max_len=120)
        c.log("TLC ResolverModel %d questions: %d distinct states, %d transitions, %d paths" % (mq, r.distinct, total, len(paths)))
        tot += total
        sc += [from_model(p) for p in paths]
    # the same model with a host that tells the library of no timeout: a question is never answered
    k = {"MaxQ": 1, "MaxNow": 4, "Kinds": kinds, "Faults": "FALSE", "T": 1, "Slack": 0, "Tells": "FALSE"}
    r = T.run("ResolverModel", k, invariants=["InvEnds"], spec="MSpec", view="MView", timeout=300)
    if not r.violation:
        raise RuntimeError("the model does not tell a resolver without timeouts apart")
    c.cov["model_transitions_replayed"] = tot
    for _ in range(6000 if t else 900):
        sc.append(rand(c.rng))
    for _ in range(1500 if t else 200):
        sc.append(manager(c.rng))
    what = "name resolver"
    for s, env in ((sc, None), ([["N 53 100 0", "N 53 0 1 4", "end"]], {"FAKE_ARES_INIT_FAILS": "1"})):
        tr = run_scenarios(c, exe, s, what, env=env)
        check_traces(c, "ResolverTrace", tr, what, rerunner(c, exe, s, what, env=env), consts={"Slack": 1000})
