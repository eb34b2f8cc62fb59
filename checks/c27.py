"""C27: injecting and extracting a context round-trips in every format."""
import itertools
from checks.headers_common import *

BAGS = [[], [["k", "v"]], [["Key", "Value"]], [["a", ""], ["B", "é"], ["c-d.e_f", "x,y;z=1 2"]], [["long" * 20, "w" * 300]], [["k%d" % i, "v%d" % i] for i in range(12)],
        [["KEY", "1"], ["key", "2"]], [["漢字", "\x01\x7f"]], [["x-b3-traceid", "1"], ["ot-baggage-q", "2"]], [["traceparent", "no"]]]
STATES = ["", "a=b", "congo=t61rcWkgMzE,rojo=00f067aa0ba902b7", "=", " x ", "v" * 300]
PREFIX = {"l": "ot-tracer-", "b": "x-b3-", "e": "x-ot-span", "t": "trace", "c": "x-cloud"}


def context(rng, kind, hi=None, lo=None, sid=None, fl=None):
    pick = lambda x: ident(rng) if x is None else x
    fl = rng.choice(["00", "01", "01", "ff", "02", "fe"]) if fl is None else fl
    if kind == "m":
        fl = rng.choice(["0", "1", "d"])
    return "ctx %s %016x %016x %016x %s %s %s" % (kind, pick(hi) if rng.random() < 0.7 else 0, pick(lo), pick(sid), fl, hx(rng.choice(STATES)), kvs(rng.choice(BAGS)))


def rounds(rng, fs):
    """take the headers just injected out again: whole, and each format alone"""
    out = []
    for k in "th":
        out.append("inj %s" % k)
        case = "=" if k == "t" else rng.choice("=lum")
        out.append("rt %s %s %s -" % (k, "n" if case != "=" else rng.choice("nx"), case))
        for f in fs:
            drop = ",".join(PREFIX[g] for g in ALL if g != f)
            case = "=" if k == "t" else rng.choice("=lum")
            out.append("rt %s %s %s %s" % (k, rng.choice("ni" if k == "h" else "nx"), case, drop))
    return out


def run(c):
    t = c.thorough
    full = "TRUE" if t else "FALSE"
    c.model("HeadersModel", consts=dict(MaxModes=2, Full=full), spec="RSpec", invariants=["RoundTrip"], workers=8)
    rng, sc = c.rng, []
    # boundary identifiers in every format, alone
    for f in list(ALL) + ["lbetc"]:
        for tr in "no":
            for part in (range(0, len(IDS), 6)):
                s = ["new %s 0 %s" % (f, tr)]
                for x in IDS[part:part + 6]:
                    s.append(context(rng, "i", lo=x, fl=rng.choice(["00", "01"])))
                    s += ["inj h", "rt h n m -", "inj t", "rt t n = -"]
                    s.append(context(rng, "i", hi=x, sid=x))
                    s += ["inj h", "rt h n u -"]
                sc.append(s)
    # lists of formats
    lists = ["-"] + ["".join(m) for n in (1, 2) for m in itertools.product(ALL, repeat=n)] + ["lbetc", "ctebl", "etb", "ble"]
    if t:
        lists += ["".join(m) for m in itertools.product(ALL, repeat=3)]
    for m in lists:
        for single in "01":
            for tr in "no":
                s = ["new %s %s %s" % (m, single, tr)]
                for kind in "ims":
                    s.append(context(rng, kind))
                    s += rounds(rng, ["e"] if single == "1" else sorted(set(m)) if m != "-" else ["l"])
                    s += ["inj s", "inj b"]
                s += ["inj f", "inj o", "inj %s %d" % (rng.choice("th"), rng.randint(0, 6)), "inj s 0"]
                sc.append(s)
    for _ in range(6000 if t else 400):
        m = rng.choice(list(ALL)) if rng.random() < 0.5 else "".join(rng.choice(ALL) for _ in range(rng.randint(2, 5)))
        s = ["new %s %d %s" % (m, rng.randint(0, 1), rng.choice("no"))]
        for _ in range(3):
            s.append(context(rng, rng.choice("iims")))
            s += rounds(rng, sorted(set(m)))
            s += [rng.choice(["inj s", "inj b"])]
        sc.append(s)
    tr = check(c, sc, "round trips")
    n = sum(1 for x in tr for e in x if e["e"] == "ext" and e["res"] == "ok")
    c.add(round_trips=n)
    # what the binary writers made, read again
    again = []
    for x in tr:
        s = []
        for e in x:
            if e["e"] == "inj" and e["k"] in "sb" and e["err"] == "":
                s += ["ext s n %s" % hx(bytes(e["B"])), "ext b n %s" % hx(bytes(e["B"]))]
        if s:
            again.append(["new l 0 %s" % rng.choice("no")] + s)
    check(c, again, "binary carriers read again")
