"""Name resolution and endpoint choice (C19, C20): model behaviours and random histories replayed into the endpoint manager."""
from vlib import build as B, tlc as T, mbt
from vlib.check import run_scenarios, rerunner
from vlib.traces import check_traces

SRCS = ["recorder/stream_recorder/satellite_endpoint_manager.cpp", "recorder/stream_recorder/satellite_dns_resolution_manager.cpp",
        "recorder/stream_recorder/utility.cpp", "network/ip_address.cpp", "network/event.cpp", "network/event_base.cpp", "network/timer_event.cpp",
        "common/random.cpp", "common/logger.cpp", "common/utility.cpp", "common/platform/fork_unix.cpp", "common/platform/string_unix.cpp"]
UNIT = 1000
EPS = {1: [(0, 80)], 2: [(0, 80), (1, 81)], 3: [(0, 80), (1, 81), (0, 82)], 4: [(0, 81), (1, 82), (2, 80)], 5: [(0, 80), (0, 81)]}  # as AllEps in ResolutionModel


def build():
    return B.build("resolution", ["resolution.cpp", "fakeevent.cc"], SRCS, mode="asan", protos=True, exclude=("network/ares_dns_resolver/ares_dns_resolver.cpp",))


def names(rng, n):
    return rng.sample(["sat.example", "b", "collector-1.x.y", "Zed", "a.b", "localhost"], n)


def from_model(path, rng, nh, eps):
    hs = names(rng, nh)
    sc = ["C %d %d %d 0 " % (2 * UNIT, 2 * UNIT, UNIT) + " ".join("%s %d" % (hs[h], p) for h, p in eps), "start"]
    for a, _ in path[1]:
        if a["op"] == "A":
            if a["l"]:
                sc.append("A %d %d 0 %s" % (a["h"], a["f"], " ".join(map(str, a["l"]))))
            else:
                sc.append("A %d %d %d" % (a["h"], a["f"], rng.choice([1, 2])))
        elif a["op"] == "adv":
            sc.append("adv %d" % UNIT)
        elif a["op"] == "R":
            sc.append("R 1")
    sc.append("adv 0")
    return sc


def answer(rng):
    r = rng.random()
    if r < 0.3:
        return "1"
    if r < 0.45:
        return "2"
    return "0 " + " ".join(map(str, rng.sample(range(1, 9), rng.choice([1, 1, 2, 3, 5]))))


def rand(rng):
    nh = rng.randint(1, 4)
    hs = names(rng, nh)
    eps = [(h, rng.choice([80, 8080, 443, 65535, 1])) for h in range(nh)]
    for _ in range(rng.randint(0, 4)):
        eps.append((rng.randrange(nh), rng.choice([80, 8080, 443, 9])))
    first = []
    rng.shuffle(eps)

    def spell(n):
        return rng.choice([n, n, n.upper(), n.title()])
    mn = rng.choice([1, 100, 5000])
    mx = mn + rng.choice([0, 1, 700])
    sc = ["C %d %d %d %d " % (mn, mx, rng.choice([1, 50, 3000]), rng.randint(0, 1)) + " ".join("%s %d" % (spell(hs[h]), p) for h, p in eps)]
    for h in range(nh):
        for f in (4, 6):
            for _ in range(rng.choice([0, 0, 0, 1, 2])):
                sc.append("S %d %d %s" % (h, f, answer(rng)))
    sc.append("start")
    for _ in range(rng.randint(5, 60)):
        r = rng.random()
        if r < 0.45:
            a = answer(rng)
            sc.append("A %d %d %s" % (rng.randrange(nh), rng.choice([4, 6]), a))
        elif r < 0.8:
            sc.append("adv %d" % rng.choice([0, 1, 2, 50, 100, 800, 3000, 6000]))
        else:
            sc.append("R %d" % rng.choice([1, 1, 2, 3, 10, 30]))
    return sc


def run(c, rotation, resolution):
    exe = build()
    t = c.thorough
    sc, tot = [], 0
    confs = []  # endpoints, lists of addresses (by number in the model), last instant, whether time passes
    if resolution:
        confs.append((1, 2, 5, "TRUE"))
        confs.append((2, 1, 3 if t else 2, "TRUE"))
    if rotation:
        confs.append((3, 3 if t else 2, 0, "FALSE"))
        confs.append((4, 1, 0, "FALSE"))
        confs.append((5, 3, 3, "TRUE"))
    for e, ls, mx, timed in confs:
        eps = EPS[e]
        nh = len({h for h, _ in eps})
        k = {"EpsId": e, "ListsId": ls, "MaxNow": mx, "Timed": timed}
        r, inits, trans = T.transitions("ResolutionModel", k, invariants=["InvReady", "InvAsked"], cons=["MOk"], workers=4, timeout=600)
        c.add(states=r.distinct, transitions=r.generated)
        paths, total = mbt.cover(inits, trans, c.rng, max_len=60)
        c.log("TLC ResolutionModel %d hosts: %d distinct states, %d transitions, %d paths" % (nh, r.distinct, total, len(paths)))
        tot += total
        sc += [from_model(p, c.rng, nh, eps) for p in paths]
    c.cov["model_transitions_replayed"] = tot
    for _ in range(4000 if t else 600):
        sc.append(rand(c.rng))
    what = "endpoint manager"
    tr = run_scenarios(c, exe, sc, what)
    b = {True: "TRUE", False: "FALSE"}
    check_traces(c, "ResolutionTrace", tr, what, rerunner(c, exe, sc, what), consts={"JudgeRotation": b[rotation], "JudgeResolution": b[resolution]})
