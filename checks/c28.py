"""C28: extraction tries formats in order and never invents a context."""
import itertools
from checks.headers_common import *

BYTES = [0, 9, 32, 43, 45, 47, 48, 57, 59, 61, 65, 70, 71, 97, 102, 103, 127, 128, 0xb2, 255]


def mutated(rng, f):
    """a header of the format, with one or two bytes or fields changed"""
    H = [[k.encode(), v.encode()] for k, v in good(f, rng)]
    for _ in range(rng.choice([1, 1, 2])):
        r = rng.random()
        i = rng.randrange(len(H))
        k, v = H[i]
        n = rng.randint(0, len(v))
        if r < 0.30 and v:
            n = min(n, len(v) - 1)
            H[i][1] = v[:n] + bytes([rng.choice(BYTES)]) + v[n + 1:]
        elif r < 0.45:
            H[i][1] = v[:n] + bytes(rng.choice(BYTES) for _ in range(rng.randint(1, 3))) + v[n:]
        elif r < 0.60:
            H[i][1] = v[:n]
        elif r < 0.68:
            H[i][1] = v[n:]
        elif r < 0.73 and len(H) > 1:
            del H[i]
        elif r < 0.80:
            H.insert(rng.randint(0, len(H)), [k, rng.choice([v, good(f, rng)[0][1].encode()])])
        elif r < 0.85:
            H[i][0] = rng.choice([k + b"x", k[:-1], k.upper(), k.lower(), b"", k + b"\0"])
        elif r < 0.90:
            H[i][1] = rng.choice([b" ", b"\t", b""]) + v + rng.choice([b" ", b"\n", b"", b"\0"])
        elif r < 0.95 and f == "e":
            b = bytearray(base64.b64decode(good(f, rng)[0][1]))
            j = rng.randrange(len(b))
            if rng.random() < 0.6:
                b[j] = rng.choice(BYTES + [b[j] ^ 1 << rng.randint(0, 7)])
            else:
                del b[j:j + rng.choice([1, 2, 99])]
            H[0][1] = base64.b64encode(bytes(b))
        else:
            H[i][1] = v.upper()
    return H


def noise(rng, H):
    H = [[k if isinstance(k, bytes) else k.encode(), v if isinstance(v, bytes) else v.encode()] for k, v in H]
    for _ in range(rng.choice([0, 0, 1, 2])):
        H.insert(rng.randint(0, len(H)), rng.choice([[b"accept", b"*/*"], [b"ot-baggage-K", b"v"], [b"ot-baggage-k", b"w"], [b"OT-Baggage-z", b"\xff"], [b"ot-baggage-", b"e"],
                                                    [b"tracestate", b"z=9"], [b"", b""], [b"X-B3-Sampled", b"true"], [b"ot-tracer-sampled", b"false"], [b"x-b3", b"1"], [b"ot-tracer-sampled", b"yes"]]))
    return H


def run(c):
    t = c.thorough
    r = c.model("HeadersModel", consts=dict(MaxModes=3 if t else 2, Full="FALSE"), spec="MSpec", invariants=["InOrder", "ConfiguredOnly"], workers=8, action_constraint="MEmit", heap="4g")
    rng, sc = c.rng, []
    # every list of formats on every combination of formats present, absent and spoilt, as the model has it
    runs = {}
    for p in r.prints:
        if p[0] == "T":
            e = json.loads(p[1:])
            runs.setdefault(("".join(e["m"]) or "-", int(e["s"])), []).append(e["h"])
    keep = 1.0 if t else 0.5
    for (m, single), carriers in sorted(runs.items()):
        s = ["new %s %d %s" % (m, single, rng.choice("no"))]
        for have in sorted(carriers):
            if rng.random() > keep:
                continue
            H = []
            for f, x in zip(ALL, have):
                H += {"good": good, "bad": bad}[x](f, rng) if x != "absent" else []
            k = rng.choice("th")
            H = shuffled(rng, H)
            if k == "h" and rng.random() < 0.5:
                H = cased(rng, H)
            look = rng.choice("nnx" if k == "t" else "nni")
            s.append("ext %s %s %s" % (k, look, kvs(H)))
        for i in range(1, len(s), 100):
            sc.append(s[:1] + s[i:i + 100])
    c.add(model_carriers=sum(map(len, runs.values())))
    n = len(sc)
    # one format, mutilated
    for _ in range(12000 if t else 900):
        f = rng.choice(ALL)
        m = rng.choice([f, f, f, "".join(rng.sample(ALL, rng.randint(2, 5)))])
        s = ["new %s 0 %s" % (m, rng.choice("no"))]
        for _ in range(8):
            H = mutated(rng, f) if rng.random() < 0.8 else bad(f, rng)
            if rng.random() < 0.15:
                g = rng.choice(ALL)
                H = list(H) + list(good(g, rng) if rng.random() < 0.5 else mutated(rng, g))
            H = noise(rng, H)
            s.append("ext %s %s %s" % (rng.choice("th"), rng.choice("nnnix"), kvs(H)))
        sc.append(s)
    # binary carriers
    for _ in range(3000 if t else 300):
        s = ["new %s 0 %s" % (rng.choice(ALL), rng.choice("no"))]
        for _ in range(6):
            b = bytearray(binary(ident(rng), ident(rng), rng.randint(0, 1), rng.choice([[], [["Kk", "v"]], [["a", "é"], ["A", ""]]])))
            x = rng.random()
            if x < 0.15:
                b = b[:rng.randint(0, len(b))]
            elif x < 0.55:
                b[rng.randrange(len(b))] = rng.choice(BYTES + [rng.randint(0, 255)])
            elif x < 0.65:
                j = rng.randrange(len(b))
                del b[j:j + rng.randint(1, 4)]
            elif x < 0.75:
                b = bytearray(rng.randint(0, 255) for _ in range(rng.randint(0, 20)))
            elif x < 0.85:
                b = rng.choice([bytearray(delim(1, b"old")), bytearray(delim(1, b"old") + bytes(b)), bytearray(delim(2, b"")), bytearray(delim(3, b"\1")), bytearray(bytes(b) + delim(2, b"\x18\x01"))])
            s.append("ext %s n %s" % (rng.choice("sssbo"), hx(bytes(b))))
        s += ["ext s n -", "ext b n -", "ext b 0 -", "ext x n %s" % hx(binary(1, 2, 1, []))]
        sc.append(s)
    tr = check(c, sc, "carriers")
    seen = {}
    for x in tr:
        for e in x:
            if e["e"] == "ext":
                seen[e["res"]] = seen.get(e["res"], 0) + 1
    c.log("extractions:", seen)
    c.add(extractions=sum(seen.values()), contexts=seen.get("ok", 0), refused=seen.get("err", 0), nothing=seen.get("none", 0))
