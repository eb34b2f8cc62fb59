"""C38: a tracer is what its options make it, and its reports say so."""
from checks.config_common import *

COMPONENT, PLATFORM, VERSION = "lightstep.component_name", "lightstep.tracer_platform", "lightstep.tracer_version"


def tags_of(kind, rng):
    h = lambda s: s.encode().hex()
    some = ["%s=s%s" % (h("a"), h("x")), "%s=s" % h("env"), "%s=i%d" % (h("n"), rng.choice([0, 1, -1, 2 ** 62])), "%s=b%d" % (h("flag"), rng.randint(0, 1)), "%s=s%s" % (h("é\n"), h("é"))]
    if kind == 0:
        return []
    if kind == 1:
        return rng.sample(some, rng.randint(1, 5))
    if kind == 2:
        return rng.sample(some, 2) + rng.sample(["%s=s%s" % (h(PLATFORM), h("other")), "%s=i5" % h(VERSION)], rng.randint(1, 2))
    return rng.sample(some, 1) + ["%s=%s" % (h(COMPONENT), rng.choice(["s" + h("mine"), "s", "i7"]))]


def run(c):
    rng = c.rng
    r = c.model("ConfigModel", "tracers", consts=dict(MaxSettings=0), spec="BSpec", invariants=["NeverWithoutTransport", "OneMakerEach"], workers=4, action_constraint="MEmit", heap="2g")
    combos = [json.loads(p[1:]) for p in r.prints if p[0] == "T"]
    assert len(combos) == 320
    sc = []
    for k in range(12 if c.thorough else 3):
        rng.shuffle(combos)
        for i in range(0, len(combos), 16):
            s = []
            for t, thread, stream, plain, component, tags in combos[i:i + 16]:
                given = ",".join(tags_of(tags, rng)) or "-"
                component = rng.choice([component, component, rng.choice(["café", "a b", "x" * 300]).encode().hex()]) if component else "-"
                s.append("make %s %d %d %d %s %s %s %d" % (t, thread, stream, plain, component, rng.choice(["-", b"token".hex(), b"t\n\"".hex()]), given, 0 if t == "n" else rng.choice([0, 1, 2, 3, 4, 7, 9])))
            sc.append(s)
    exe = build()
    what = "tracers"
    traces = run_scenarios(c, exe, sc, what, timeout=600)
    check_traces(c, "ConfigTrace", traces, what, rerunner(c, exe, sc, what))
    ev = [e for tr in traces for e in tr]
    c.add(tracers=len(ev), made=sum(e["made"] for e in ev), reports=sum(len(e["reports"]) for e in ev))
    c.sample("tracer: " + json.dumps(ev[0])[:300])
