"""Spans of both tracers (C24-C26): building the driver, making histories, and reading values back."""
import json, math
from vlib import build as B, tlc as T, mbt
from vlib.check import run_scenarios, rerunner
from vlib.traces import check_traces
from vlib.conc import explore
from checks.conc_common import dfs, rand

SRCS = ["tracer/span.cpp", "tracer/serialization.cpp", "tracer/tag.cpp", "tracer/utility.cpp", "tracer/tracer_impl.cpp"]
PRIO = b"sampling.priority".hex()


def build(mode):
    return B.build("tracer", ["tracer.cpp", "names.cc"] + (["vrt.cc"] if mode == "sched" else []), SRCS, mode=mode, protos=True)


# ---- values.  What the record of a value has to say, given the value (given) and the record (kept)
class Reader:
    def __init__(self, s):
        self.s, self.i = s, 0

    def upto(self):
        j = self.i
        while self.i < len(self.s) and self.s[self.i] not in ":)>":
            self.i += 1
        return self.s[j:self.i]

    def value(self):
        k = self.s[self.i]
        self.i += 1
        if k == "b":
            return self.upto() == "1"
        if k in "iu":
            return int(self.upto())
        if k == "d":
            return float_of(self.upto())
        if k in "sc":
            return bytes.fromhex(self.upto()).decode()
        if k == "n":
            return None
        out = [] if k == "L" else {}
        self.i += 1
        while self.s[self.i] != ")":
            if k == "L":
                out.append(self.value())
            else:
                key = bytes.fromhex(self.upto()).decode()
                self.i += 1
                out[key] = self.value()
            if self.s[self.i] == ":":
                self.i += 1
        self.i += 1
        return out


def float_of(t):
    return float(t) if "n" in t else float.fromhex(t)


def plain(v):
    """numbers by value, so that 1.0 and 1 are the same JSON"""
    if isinstance(v, float):
        if math.isnan(v):
            return "NaN"
        if math.isinf(v):
            return "+Inf" if v > 0 else "-Inf"
        return int(v) if v == int(v) else repr(v)
    if isinstance(v, bool) or v is None:
        return v
    if isinstance(v, list):
        return [plain(x) for x in v]
    if isinstance(v, dict):
        return {k: plain(x) for k, x in v.items()}
    return v


def text(v):
    return json.dumps(plain(v), sort_keys=True)


def number(t):
    f = float_of(t)
    return "dnan" if math.isnan(f) else "d" + f.hex()


def given(v):
    if v[0] == "n":
        return "b0"
    if v[0] == "u":
        n = int(v[1:])
        return "i%d" % (n - 2 ** 64 if n >= 2 ** 63 else n)
    if v[0] == "c":
        return "s" + v[1:]
    if v[0] == "d":
        return number(v[1:])
    if v[0] in "LD":
        return "j" + text(Reader(v).value())
    return v


def kept(v):
    if v[0] == "d":
        return number(v[1:])
    if v[0] == "j":
        try:
            return "j" + text(json.loads(bytes.fromhex(v[1:]).decode(), object_pairs_hook=once))
        except Exception:
            return "not json"
    return v


def once(pairs):
    if len({k for k, _ in pairs}) != len(pairs):
        raise ValueError("a key twice")
    return dict(pairs)


def pairs(kvs, f):
    return [[k, f(v)] for k, v in kvs]


def decode(trace):
    out = []
    for e in trace:
        e = dict(e)
        if e["e"] == "c":
            if e["op"] == "s":
                e["tags"] = pairs(e["tags"], given)
            elif e["op"] == "t":
                e["v"] = given(e["v"])
            elif e["op"] == "l":
                e["f"] = pairs(e["f"], given)
            elif e["op"] == "f":
                e["logs"] = [[at, pairs(f, given)] for at, f in e["logs"]]
        elif e["e"] == "rec":
            e["tags"] = pairs(e["tags"], kept)
            e["logs"] = [[at, pairs(f, kept)] for at, f in e["logs"]]
        out.append(e)
    return out


# ---- histories
def hx(s):
    return (s.encode() if isinstance(s, str) else s).hex() or "-"


KEYS = ["a", "b", "key", "Key", "KEY", "http.method", "x" * 60, "é", "error"]
TEXTS = ["", "a", "value", "with \"quotes\" and \\ and /", "line\nbreak\ttab\x01\x1f", "é and 漢字 and 😀", "y" * 300, "z" * 5000, "\x7f", "nul\0inside", "</script>", "1", "true"]


def val(rng, depth=2):
    x = rng.random()
    if x < 0.1:
        return "b%d" % rng.randrange(2)
    if x < 0.25:
        return "i%d" % rng.choice([0, 1, -1, 7, 2 ** 31, -2 ** 31, 2 ** 53 + 1, 2 ** 63 - 1, -2 ** 63, rng.randrange(-10 ** 6, 10 ** 6), rng.getrandbits(62)])
    if x < 0.35:
        return "u%d" % rng.choice([0, 1, 255, 2 ** 32, 2 ** 63 - 1, 2 ** 63, 2 ** 64 - 1, rng.getrandbits(64)])
    if x < 0.5:
        f = rng.choice([0.0, -0.0, 1.0, 0.1, -2.5, 1e300, 5e-324, 1.7976931348623157e308, 1e22, 123456789.125, 1 / 3, rng.random(), rng.gauss(0, 1e9), 1e-7])
        if rng.random() < 0.08:
            return "d" + rng.choice(["nan", "inf", "-inf"])
        return "d" + f.hex()
    if x < 0.72 or depth == 0:
        t = rng.choice(TEXTS)
        if rng.random() < 0.25:
            t = "".join(chr(rng.choice([rng.randrange(1, 128), rng.randrange(32, 127), rng.randrange(0xa0, 0x800), 0x4e2d, 0x1f600])) for _ in range(rng.randrange(12)))
        if rng.random() < 0.3:
            return "c" + t.replace("\0", "").encode().hex()
        return "s" + t.encode().hex()
    if x < 0.77:
        return "n"
    n = rng.choice([0, 1, 2, 3])
    if x < 0.89:
        return "L(" + ":".join(val(rng, depth - 1) for _ in range(n)) + ")"
    ks = rng.sample(["k", "q\"", "é", "\x02", "", "long" * 20], n)
    return "D(" + ":".join(k.encode().hex() + ">" + val(rng, depth - 1) for k in ks) + ")"


def prio(rng):
    return rng.choice(["i0", "u0", "i1", "u1", "i0", "i2", "i-1", "u%d" % (2 ** 63), "i%d" % -2 ** 63])


def tag(rng, p=0.3):
    return (PRIO, prio(rng)) if rng.random() < p else (hx(rng.choice(KEYS)), val(rng))


def kv(rng, n, p=0.3):
    t = [tag(rng, p) for _ in range(n)]
    return "|".join((k if k != "-" else "") + "=" + v for k, v in t) or "-"


def plainkv(rng, n):
    return "|".join(hx(rng.choice(KEYS)) + "=" + val(rng) for _ in range(n)) or "-"


def context(rng, k):
    z = rng.random
    hi = 0 if z() < 0.3 else rng.getrandbits(64)
    lo, sid = rng.getrandbits(64) | 1, rng.getrandbits(64) | 1
    bag = [(b, v) for b, v in zip(rng.sample(["one", "two", "Three", "four-4"], 4), ["", "1", "v w", "é"])][:rng.choice([0, 0, 1, 2])]
    return "x %d %016x %016x %016x %02x %s %s" % (
        k, hi, lo, sid, rng.choice([0, 1, 1, 0, 2, 3, 255, 254]), rng.choice(["-", "-", hx("a=1"), hx("congo=t61rcWkgMzE,rojo=00f067")]),
        "|".join(hx(b) + "=" + (v.encode().hex()) for b, v in bag) or "-")


def history(rng, legacy, n, big=False):
    """one thread: contexts, spans and everything done to them"""
    out = ["new %s %d %d" % ("o" if legacy else "n", *rng.choice([(0, 0), (10, 2), (30, 5)]))]
    nx = ns = 0
    live, fin, loose = [], set(), set()
    for _ in range(rng.choice([0, 1, 3])):
        out.append(context(rng, nx))
        nx += 1
    for _ in range(n):
        if rng.random() < 0.3:
            out.append("w %d" % rng.choice([1, 999, 1000, 1001, 10 ** 9 - 1, 123456789, 10 ** 9, 3 * 10 ** 9 + 7]))
        x = rng.random()
        if (x < 0.22 or not live) and ns < 40:
            refs = []
            for _r in range(rng.choice([0, 0, 1, 1, 2, 3, 5])):
                y = rng.random()
                ok = [i for i in live if i not in loose]
                w = "n" if y < 0.12 else "f" if y < 0.24 else ("x%d" % rng.randrange(nx)) if nx and (y < 0.6 or not ok) else ("s%d" % rng.choice(ok)) if ok else "n"
                refs.append(rng.choice("cf") + ":" + w)
            sys = rng.choice(["-", "-", "-", str(1500005 * 10 ** 12 + rng.randrange(10 ** 12))])
            ste = rng.choice(["-", "-", "-", str(5000 * 10 ** 9 + rng.randrange(-10 ** 12, 10 ** 10))])
            out.append("s %d %s %s %s %s %s" % (ns, hx(rng.choice(TEXTS)), ",".join(refs) or "-", sys, ste, kv(rng, rng.choice([0, 0, 1, 2, 6]))))
            live.append(ns)
            ns += 1
            continue
        if not live:
            continue
        i = rng.choice(live)
        if x < 0.27:
            out.append("n %d %s" % (i, hx(rng.choice(TEXTS))))
        elif x < 0.45:
            k, v = tag(rng)
            out.append("t %d %s %s" % (i, k, v))
            if legacy and i in fin and k == PRIO:
                loose.add(i)
        elif x < 0.53:
            out.append("b %d %s %s" % (i, hx(rng.choice(["one", "ONE", "two", "Three", "f\xe9", "q"])), hx(rng.choice(["", "v", "other value", "x" * 200]))))
            if legacy and i in fin:
                loose.add(i)
        elif x < 0.58:
            out.append("g %d %s" % (i, hx(rng.choice(["one", "One", "two", "three", "none", "q"]))))
        elif x < 0.62:
            out.append("%s %d" % (rng.choice("qoa"), i))
        elif x < 0.7:
            out.append("l %d %s" % (i, plainkv(rng, rng.choice([0, 1, 2, 5] + ([6] * big)))))
        elif x < 0.77:
            out.append("i %d" % i)
        elif x < 0.9:
            logs = ";".join("%d~%s" % (1500005 * 10 ** 12 + rng.randrange(10 ** 12), plainkv(rng, rng.choice([0, 1, 3]))) for _l in range(rng.choice([0, 0, 0, 1, 3])))
            out.append("f %d %s %s" % (i, rng.choice(["-", "-", "-", str(5000 * 10 ** 9 + rng.randrange(10 ** 12))]), logs or "-"))
            fin.add(i)
        else:
            out.append("d %d" % i)
            live.remove(i)
    return out


def plan(path, legacy, rng):
    """a path of SpanModel as commands"""
    out = ["new %s 10 2" % ("o" if legacy else "n")]
    for k, fl, ts in ((1, 1, "aa"), (2, 0, "-")):
        out.append("x %d %016x %016x %016x %02x %s %s" % (k, k, 16 + k, 32 + k, fl, ts, hx("k") + "=" + hx(str(k))))
    for a, _ in path:
        if a["op"] == "start":
            refs = ",".join(r["r"] + ":" + r["k"] + (str(r["to"]) if r["k"] in "xs" else "") for r in a["refs"]) or "-"
            out.append("s %d 61 %s - - %s" % (a["id"], refs, "|".join(k + "=" + v for k, v in a["tags"]) or "-"))
        elif a["op"] == "tag":
            out.append("t %d %s %s" % (a["id"], "61" if a["k"] == "s78" else PRIO, "s78" if a["k"] == "s78" else a["k"]))
        elif a["op"] == "name":
            out.append("n %d 62" % a["id"])
        elif a["op"] == "bag":
            out.append("b %d %s 39" % (a["id"], rng.choice([hx("k"), hx("K")])))
        elif a["op"] == "finish":
            out.append("%s %d%s" % ("f", a["id"], " - -"))
        if rng.random() < 0.15 and a.get("id"):
            out.append("%s %d" % (rng.choice("iqoa"), a["id"]))
    return out


INV = ["Once", "AsItWas", "Identity", "LastWins"]


def model(c):
    t = c.thorough
    c.model("SpanModel", "two spans, one reference", consts={"NSpans": 2, "Tags": "<- TagsMC" if t else "<- Tags2", "MaxRefs": 1}, spec="MSpec", view="MView",
            invariants=INV, workers=8)
    c.model("SpanModel", "one span, two references", consts={"NSpans": 1, "Tags": "<- TagsMC", "MaxRefs": 2}, spec="MSpec", view="MView", invariants=INV, workers=4)
    if t:
        c.model("SpanModel", "two spans, two references", consts={"NSpans": 2, "Tags": "<- Tags1", "MaxRefs": 2}, spec="MSpec", view="MView", invariants=INV, workers=8)


def replay(c, exe, consts, what, most=0):
    r, inits, trans = T.transitions("SpanModel", consts, workers=4)
    c.add(states=r.distinct, transitions=r.generated)
    sc = []
    paths, total = mbt.cover(inits, trans, c.rng, max_len=40)
    c.rng.shuffle(paths)
    paths = paths[:most or len(paths)]
    c.add(model_transitions=total, model_transitions_replayed=sum(len(s) for _, s in paths))
    for _, steps in paths:
        sc.append(plan(steps, steps[0][0]["legacy"] == 1, c.rng))
    judge(c, exe, sc, what)


def judge(c, exe, sc, what):
    tr = [decode(t) for t in run_scenarios(c, exe, sc, what)]
    again = rerunner(c, exe, sc, what)
    check_traces(c, "SpansTrace", tr, what, lambda i: decode(again(i)))


def histories(c, exe, n, what, **kw):
    judge(c, exe, [history(c.rng, i % 2 == 1, c.rng.choice([6, 15, 40, 90]), **kw) for i in range(n)], what)


def threads(c, exe, cases, what, pre, secs, n):
    """cases: (setup, scripts)"""
    j = []
    for i, (setup, scripts) in enumerate(cases):
        for kind in "no":
            a = ["new %s 4 1/" % kind + setup] + list(scripts)
            j.append(dfs("X", pre, *a, secs=secs))
            j.append(rand(c, "X", n, i, *a, secs=secs))
    explore(c, exe, j, what, "SpansTrace", decode=decode)
