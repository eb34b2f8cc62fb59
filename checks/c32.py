"""C32: numbers and embedded messages encode to standard protobuf bytes."""
from checks.pure_common import *


def numbers(c, bits):
    out = set()
    for k in range(0, bits + 1):
        for d in (-2, -1, 0, 1, 2):
            out.add((1 << k) + d)
    for k in range(7, bits + 1, 7):
        out.add((1 << k) | 0x55)
    while len(out) < (6000 if c.thorough else 900):
        out.add(c.rng.getrandbits(c.rng.randint(1, bits)))
    return sorted(x for x in out if 0 <= x < (1 << bits))


def run(c):
    c.model("NumbersModel", consts={"LimbValues": "{0, 1, 127, 128, 255, 256, 16383, 16384, 32768, 65535}" if c.thorough else "{0, 1, 127, 128, 255, 32768, 65535}"},
            spec="Spec", invariants=["Standard", "Decodes"])
    n64, n32 = numbers(c, 64), numbers(c, 32)
    cmds = ["vb %d" % x for x in n64] + ["v64 %d" % x for x in n64] + ["v32 %d" % x for x in n32] + ["tag %d" % x for x in n32 if x > 7] + ["hdr %d" % x for x in n32]
    rng = c.rng
    for x in n64[:: 3 if c.thorough else 9]:
        cmds.append("fld %d %s" % (x, hexs(bytes(rng.getrandbits(8) for _ in range(rng.choice([0, 1, 2, 127, 128, 130]))))))
    for ln in list(range(0, 20)) + [126, 127, 128, 129, 200, 255, 256, 300]:
        cmds.append("raw " + hexs(bytes(rng.getrandbits(8) for _ in range(ln))))
    for f in [1, 2, 5, 6, 15, 16, 17, 127, 2047, 2048, 262143, 262144, (1 << 29) - 1]:
        for klen, vlen in [(0, -1), (1, 0), (3, 5), (120, -1), (123, -1), (124, -1), (125, -1), (60, 63), (60, 64), (128, 3), (200, 120)]:
            cmds.append("emb %d %d %s %s" % (f, rng.randint(0, 1), hexs(bytes(rng.randint(33, 126) for _ in range(klen))),
                                             "-" if vlen < 0 else hexs(bytes(rng.randint(33, 126) for _ in range(vlen)))))
        for x in [0, 1, 127, 128, 16383, 16384, (1 << 21) - 1, 1 << 21, (1 << 28) - 1, 1 << 28, (1 << 31) - 1, 1 << 32, 1 << 40]:
            cmds.append("esz %d %d" % (f, x))
        for n in [10, 100, 20000, 70000] + ([1 << 21, 1 << 22] if f == 5 else []):
            cmds.append("big %d %d" % (f, n))
    for x in n64[::4]:
        cmds.append("lsz %d" % x)
        cmds.append("ts %d %d %d" % (rng.choice([1, 2, 3, 7, 16, 4096]), x, rng.choice([0, 1, 127, 128, 999999999, 268435455, 268435456])))
    for ln in [0, 1, 5, 20, 126, 127, 128, 129, 300]:
        for block in (1, 2, 3, 16, 4096):
            cmds.append("ws %d %d %s" % (block, rng.choice([0, 1, 13]), hexs(bytes(rng.getrandbits(8) for _ in range(ln)))))
    rng.shuffle(cmds)
    sc = [cmds[i:i + 25] for i in range(0, len(cmds), 25)]
    check(c, "EncodeTrace", sc, "encodings")
