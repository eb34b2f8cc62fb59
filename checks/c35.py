"""C35: event and timer wrappers: registered as asked, released exactly once."""
from vlib import build as B, tlc as T, mbt
from vlib.check import run_scenarios, rerunner
from vlib.traces import check_traces

SRCS = ["network/event.cpp", "network/event_base.cpp", "network/timer_event.cpp", "common/utility.cpp", "common/platform/utility_unix.cpp"]


def build():
    return B.build("events", ["events.cpp", "fakeevent.cc"], ["network/event.cpp", "network/event_base.cpp", "network/timer_event.cpp"], mode="asan")


def from_model(path):
    sc, ids = ["base B"], 0
    for a, _ in path[1]:
        op = a["op"]
        ms = "null" if a.get("ms") == -1 else str(a.get("ms"))
        if op in ("new", "timer", "timer0", "once"):
            ids += 1
        if op == "new":
            sc.append("new %s B %d %d %d" % (a["d"], a["fd"], a["opt"], ids))
        elif op == "timer":
            sc.append("timer %s B %s %d" % (a["d"], ms, ids))
        elif op == "timer0":
            sc.append("timer0 %s B 0 %d" % (a["d"], ids))
        elif op == "once":
            sc.append("once B %s %d" % (ms, ids))
        elif op in ("add", "resettv"):
            sc.append("%s %s %s" % (op, a["d"], ms))
        elif op in ("mc", "ma", "tmc", "tma"):
            sc.append("%s %s %s" % (op, a["d"], a["s"]))
        elif op == "fd":
            sc.append("fd 5 %d" % a["v"])
        elif op == "adv":
            sc.append("adv B 1")
        elif op in ("null", "rm", "del", "tnull", "reset", "tdel"):
            sc.append("%s %s" % (op, a["d"]))
    sc.append("adv B 5")
    return sc


def rand(rng):
    """longer histories with the library refusing calls, callbacks that act, and several loops"""
    sc = ["base B0"]
    ids = 0
    own, tms, basev = {}, {}, "B0"   # slot -> id or 0
    period = {}
    nbase = 1
    opts = {}
    fault = rng.random() < 0.4
    horizon = 0
    persist_fd = set()
    for _ in range(rng.randint(5, 40)):
        r = rng.random()
        d = rng.choice(["e1", "e2", "e3"])
        t = rng.choice(["t1", "t2"])
        held = [x for x in own if own[x]]
        theld = [x for x in tms if tms[x]]
        f = None
        if fault and rng.random() < 0.15:
            f = True

        def F(name):
            sc.append("fault " + name)
        if r < 0.2:
            if d not in own:
                fd, opt = rng.choice([(5, 2), (5, 4), (6, 2), (6, 6), (-1, 0), (-1, 0), (-1, 16), (-1, 1)])
                ids += 1
                if f:
                    F("new")
                sc.append("new %s %s %d %d %d" % (d, basev, fd, opt, ids))
                if not f:
                    own[d], opts[ids] = ids, (fd, opt)
            else:
                sc.append("del " + d)
                del own[d]
        elif r < 0.4 and held:
            d = rng.choice(held)
            fd, opt = opts[own[d]]
            if rng.random() < 0.75:
                ms = rng.choice(["null"] if fd >= 0 and rng.random() < 0.5 else ["1", "2", "3", "7", "50", "1000", "61000"])
                if f:
                    F("add")
                sc.append("add %s %s" % (d, ms))
            else:
                sc.append("rm " + d)
        elif r < 0.55:
            if t not in tms:
                ids += 1
                ms = rng.choice([1, 2, 3, 10, 500])
                k = rng.choice(["new", "add"])
                if f:
                    F(k)
                if rng.random() < 0.8:
                    sc.append("timer %s %s %d %d" % (t, basev, ms, ids))
                    if not f:
                        tms[t], period[t] = ids, ms
                else:
                    if f and k == "add":
                        sc.append("unfault")
                        sc.pop()
                        sc.pop()
                        f = False
                    sc.append("timer0 %s %s 0 %d" % (t, basev, ids))
                    if not f:
                        tms[t], period[t] = ids, 0
            elif theld:
                t = rng.choice(theld)
                q = rng.random()
                if q < 0.4 and period[t]:
                    if f:
                        F("add")
                    sc.append("reset " + t)
                elif q < 0.6:
                    sc.append("resettv %s null" % t)
                elif q < 0.85:
                    ms = rng.choice([1, 2, 5, 1500])
                    if f:
                        F("add")
                        sc.append("resettv %s %d" % (t, ms))
                        # its period is not known any more; set it again
                    sc.append("resettv %s %d" % (t, ms))
                    period[t] = ms
                else:
                    sc.append("tdel " + t)
                    del tms[t], period[t]
        elif r < 0.65:
            # moves
            dic, pre = (own, "") if rng.random() < 0.6 else (tms, "t")
            names = ["e1", "e2", "e3"] if dic is own else ["t1", "t2"]
            s = rng.choice(names)
            d = rng.choice(names)
            if s in dic and d != s:
                if d in dic:
                    if pre == "" and rng.random() < 0.3:
                        sc.append("sw %s %s" % (d, s))
                        own[d], own[s] = own[s], own[d]
                        continue
                    sc.append(pre + "ma %s %s" % (d, s))
                else:
                    sc.append(pre + "mc %s %s" % (d, s))
                dic[d], dic[s] = dic[s], 0
                if dic is tms:
                    period[d] = period[s]
            elif s not in dic and rng.random() < 0.5:
                sc.append(("null " if pre == "" else "tnull ") + s)
                dic[s] = 0
                if pre:
                    period[s] = 0
        elif r < 0.72:
            ids += 1
            if f:
                F("once")
            sc.append("once %s %d %d" % (basev, rng.choice([0, 1, 2, 3, 1000, 5000]), ids))
        elif r < 0.78:
            sc.append("fd %d %d" % (rng.choice([5, 6]), rng.choice([0, 2, 4, 6])))
        elif r < 0.83:
            # loops move too
            nbase += 1
            nb = "B%d" % nbase
            if rng.random() < 0.5:
                sc.append("bmc %s %s" % (nb, basev))
                if rng.random() < 0.7:
                    sc.append("bdel " + basev)
            else:
                if f:
                    F("base")
                    sc.append("base " + nb)
                sc.append("base " + nb)
                sc.append("bma %s %s" % (nb, basev))
            basev = nb
        elif r < 0.9 and (held or theld):
            # what a callback does
            pool = [own[x] for x in held] + [tms[x] for x in theld]
            i = rng.choice(pool)
            x = rng.choice(held + theld)
            if x in held:
                sc.append("on %d %s" % (i, rng.choice(["rm " + x] + (["add %s 4" % x] if opts[own[x]][0] < 0 else []))))
            else:
                sc.append("on %d %s" % (i, rng.choice(["resettv %s null" % x, "resettv %s 3" % x])))
                period[x] = 3
            # only while the wrapper stays: run at once, then forget
            sc.append("adv %s %d" % (basev, rng.randint(1, 6)))
            sc.append("off %d" % i)
        else:
            sc.append("adv %s %d" % (basev, rng.choice([0, 1, 1, 2, 5, 20])))
    end = rng.random()
    if end < 0.35:
        ids += 1
        sc.append("once %s %d %d" % (basev, rng.choice([0, 3, 9]), ids))
        sc.append("on %d break %s" % (ids, basev))
        sc.append("disp " + basev)
        sc.append("off %d" % ids)
    elif end < 0.6:
        for x in list(own):
            sc.append("del " + x)
        for x in list(tms):
            sc.append("tdel " + x)
        own, tms = {}, {}
        if fault:
            sc += ["fault dispatch", "disp " + basev]
        sc.append("disp " + basev)
        if fault:
            sc += ["fault break", "break " + basev]
    for x in own:
        sc.append("del " + x)
    for x in tms:
        sc.append("tdel " + x)
    sc.append("bdel " + basev)
    return sc


def run(c):
    exe = build()
    t = c.thorough
    consts = {"EvNames": '{"e1", "e2"}', "TmNames": '{"t1"}', "MaxDue": 2, "MaxOnce": 1, "MaxNow": 3}
    small = [dict(consts, EvNames='{"e1", "e2"}', TmNames="{}", MaxOnce=0, MaxDue=1), dict(consts, EvNames="{}", TmNames='{"t1", "t2"}', MaxOnce=0),
             dict(consts, EvNames='{"e1"}', TmNames='{"t1"}', MaxOnce=1, MaxDue=1)]
    sc, tot = [], 0
    for k in small:
        r, inits, trans = T.transitions("EventModel", k, invariants=["Inv"], cons=["MOk"], workers=4, timeout=600)
        c.add(states=r.distinct, transitions=r.generated)
        paths, total = mbt.cover(inits, trans, c.rng, max_len=40)
        c.log("TLC EventModel: %d distinct states, %d transitions, %d paths" % (r.distinct, total, len(paths)))
        tot += total
        sc += [from_model(p) for p in paths]
    c.cov["model_transitions_replayed"] = tot
    for _ in range(6000 if t else 800):
        sc.append(rand(c.rng))
    what = "event wrappers"
    tr = run_scenarios(c, exe, sc, what)
    check_traces(c, "EventTrace", tr, what, rerunner(c, exe, sc, what))
