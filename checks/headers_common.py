"""Contexts in carriers (C27, C28): the driver, carriers of every kind, and reading the recordings."""
import base64, json
from vlib import build as B, tlc as T
from vlib.check import run_scenarios, rerunner
from vlib.traces import check_traces

SRCS = ["tracer/tracer_impl.cpp", "tracer/tracer.cpp", "tracer/binary_carrier.cpp", "recorder/no_grpc_transporter.cpp"]
ALL = "lbetc"


def build():
    return B.build("prop", ["prop.cpp"], SRCS, mode="asan", protos=True)


def hx(b):
    return (b.encode() if isinstance(b, str) else b).hex() or "-"


def kvs(H):
    return ",".join("%s=%s" % ((k.encode() if isinstance(k, str) else k).hex(), (v.encode() if isinstance(v, str) else v).hex()) for k, v in H) or "-"


# ---- recordings: hexadecimal text to numbers
def octets(h):
    return list(bytes.fromhex(h))


def pairs(x):
    return [[octets(k), octets(v)] for k, v in x]


def ctx(g):
    if "hi" not in g:
        return g
    return {"hi": [int(d, 16) for d in g["hi"]], "lo": [int(d, 16) for d in g["lo"]], "sid": [int(d, 16) for d in g["sid"]], "fl": g["fl"],
            "ts": octets(g["ts"]), "bag": pairs(g["bag"])}


def decode(trace):
    out = []
    for e in trace:
        e = dict(e)
        for k in ("given", "got"):
            if k in e:
                e[k] = ctx(e[k])
        if "H" in e:
            e["H"] = pairs(e["H"])
        if "B" in e:
            e["B"] = octets(e["B"])
        out.append(e)
    return out


def check(c, scenarios, what):
    exe = build()
    tr = [decode(t) for t in run_scenarios(c, exe, scenarios, what)]
    rr = rerunner(c, exe, scenarios, what)
    check_traces(c, "HeadersTrace", tr, what, lambda i: decode(rr(i)))
    return tr


# ---- identifiers
IDS = [0, 1, 9, 10, 15, 16, 255, 256, 2 ** 31, 2 ** 32 - 1, 2 ** 32, 2 ** 53, 2 ** 60, 2 ** 63 - 1, 2 ** 63, 2 ** 64 - 1, 0x0123456789abcdef, 0xfedcba9876543210,
       0xdeadbeef, 0xa000000000000000, 0x00ff00ff00ff00ff, 9999999999999999999, 10000000000000000000]


def ident(rng):
    r = rng.random()
    if r < 0.5:
        return rng.choice(IDS)
    if r < 0.7:
        return (1 << rng.randint(0, 63)) + rng.choice([-1, 0, 1]) & 2 ** 64 - 1
    return rng.getrandbits(64) >> rng.choice([0, 0, 0, 1, 4, 8, 31, 32, 60])


# ---- writing headers, as the formats prescribe them (to be read, mutilated or not)
def varint(n):
    out = b""
    while n > 127:
        out, n = out + bytes([n & 127 | 128]), n >> 7
    return out + bytes([n])


def delim(no, b):
    return varint(no * 8 + 2) + varint(len(b)) + b


def binary(lo, sid, fl, bag):
    c = b"\x09" + lo.to_bytes(8, "little") + b"\x11" + sid.to_bytes(8, "little") + b"\x18" + bytes([fl])
    for k, v in bag:
        c += delim(4, delim(1, k.encode()) + delim(2, v.encode()))
    return delim(2, c)


def write(f, hi, lo, sid, fl, ts="", bag=()):
    if f == "l":
        return [["ot-tracer-traceid", "%016x" % lo], ["ot-tracer-spanid", "%016x" % sid], ["ot-tracer-sampled", "01"[fl]]]
    if f == "b":
        return [["X-B3-TraceId", "%016x" % lo if hi == 0 else "%016x%016x" % (hi, lo)], ["X-B3-SpanId", "%016x" % sid], ["X-B3-Sampled", "01"[fl]]]
    if f == "t":
        return [["traceparent", "00-%016x%016x-%016x-0%d" % (hi, lo, sid, fl)]] + ([["tracestate", ts]] if ts else [])
    if f == "c":
        return [["x-cloud-trace-context", "%016x%016x/%d;o=%d" % (hi, lo, sid, fl)]]
    return [["x-ot-span-context", base64.b64encode(binary(lo, sid, fl, bag)).decode()]]


def good(f, rng):
    hi = 0 if f in "le" else rng.choice([0, ident(rng)])
    return write(f, hi, ident(rng), ident(rng), rng.randint(0, 1), rng.choice(["", "a=b", "x=1,y=2"]), rng.choice([[], [["k", "v"]], [["Key", "Ü"], ["b", ""]]]))


def bad(f, rng):
    """the same, made unusable: a part missing or one that no reading can be made of"""
    H = good(f, rng)
    if f in "lb":
        if rng.random() < 0.5:
            del H[rng.randint(0, 1)]
        else:
            H[rng.randint(0, 1)][1] = rng.choice(["", "zz", "1g", "-1", "0x10", "1" * 33, "12 34", "\x80", "é", "f" * 17 + "g", " "])
    elif f == "t":
        v = H[0][1]
        H[0][1] = rng.choice([v[:-1], "", v[:2] + "_" + v[3:], v.replace("-", "", 1) + "00", v[:10] + "g" + v[11:], "0" * 55, v[:35] + "+" + v[36:], v[:53] + "0x", "é" + v[1:], v[:40] + "\x00" + v[41:]])
    elif f == "c":
        t = "%032x" % rng.getrandbits(128)
        H[0][1] = rng.choice(["", t[:-1], t + "/", t + "x", t + "/;o=1", t + "/x;o=1", t + "/12x", t + "-1;o=1", "g" + t[1:], t[:31] + "/1;o=1", t + "/18446744073709551616;o=1", t + "/-1;o=1", t + "/ 1;o=1", t + "/99999999999999999999", t[:20] + "é" + t[22:]])
    else:
        v = H[0][1]
        n = rng.randrange(len(v) - 4)
        H[0][1] = rng.choice(["", v[:n] if n % 4 else v[:n] + "!", v[:n] + "é" + v[n:], "====", "AAA", base64.b64encode(b"\x0a\x03abc").decode(), v + "A", v[:n] + "\x00" + v[n + 1:],
                              base64.b64encode(base64.b64decode(v)[:-1]).decode()])
    return H


def shuffled(rng, H):
    H = list(H)
    rng.shuffle(H)
    return H


def cased(rng, H):
    f = rng.choice([str.upper, str.lower, str.title, lambda s: "".join(rng.choice([ch.upper(), ch.lower()]) for ch in s)])
    return [[f(k), v] for k, v in H]
