"""C37: network addresses parse, print and compare consistently."""
from checks.pure_common import *


def texts(c):
    rng = c.rng
    good4 = ["0.0.0.0", "127.0.0.1", "255.255.255.255", "1.2.3.4", "10.20.30.40", "192.168.1.254", "9.99.199.250"]
    good6 = ["::", "::1", "1::", "fe80::1", "2001:db8::ff00:42:8329", "2001:0db8:0000:0000:0000:ff00:0042:8329", "1:2:3:4:5:6:7:8", "1:2:3:4:5:6:7::",
             "::2:3:4:5:6:7:8", "::ffff:1.2.3.4", "::1.2.3.4", "1:2:3:4:5:6:1.2.3.4", "64:ff9b::192.0.2.33", "ABCD:ef01::", "0:0:0:0:0:0:0:0", "1::8", "1:0:0:2:0:0:0:3",
             "::ffff:0:0", "1:2:3:4:5:6:0:0"]
    bad = ["", ".", ":", ":::", "1", "1.2", "1.2.3", "1.2.3.", ".1.2.3.4", "1.2.3.4.", "1.2.3.4.5", "256.1.1.1", "1.1.1.256", "01.2.3.4", "1.02.3.4", "1.2.3.04", "1.2.3.4 ", " 1.2.3.4",
           "1.2.3.-4", "1.2.3.+4", "0x1.2.3.4", "1..2.3", "1.2.3.a", "localhost", "1.2.3.4x", "00.0.0.0", "1000.1.1.1", "1:2:3:4:5:6:7", "1:2:3:4:5:6:7:8:9", "1:2:3:4:5:6:7:", ":1:2:3:4:5:6:7",
           "1::2::3", "12345::", "g::", "::g", "1:2:3:4:5:6:7:1.2.3.4", "1.2.3.4::", "::1.2.3", "::1.2.3.4.5", "::1.2.3.256", "::1.2.3.4:5", "fe80::1%lo", "[::1]", "::1 ", "1::2:", ":1::2", "::1/64",
           "1:2:3:4:5:6:7:8::", "::1:2:3:4:5:6:7:8", "1:::2", "::01.2.3.4", "::00001", "00001::", "1:2:3:4::5:6:7:8", "1:2:3:4:5::6:7:8"]
    out = good4 + good6 + bad
    for _ in range(6000 if c.thorough else 900):
        r = rng.random()
        if r < 0.3:
            s = ".".join(str(rng.choice([0, 1, 9, 10, 99, 100, 199, 255, rng.randint(0, 255)])) for _ in range(4))
        elif r < 0.6:
            g = [rng.choice(["0", "1", "ffff", "%x" % rng.getrandbits(16), "%04X" % rng.getrandbits(16)]) for _ in range(8)]
            if rng.random() < 0.6:
                i = rng.randint(0, 7)
                j = rng.randint(i, 8)
                s = ":".join(g[:i]) + "::" + ":".join(g[j:])
            else:
                s = ":".join(g)
            if rng.random() < 0.2:
                s = s.rsplit(":", 1)[0] + ":" + "1.2.3.%d" % rng.randint(0, 300)
        else:
            s = rng.choice(good4 + good6)
        if rng.random() < 0.45 and s:
            i = rng.randrange(len(s))
            k = rng.random()
            if k < 0.3:
                s = s[:i] + s[i + 1:]
            elif k < 0.7:
                s = s[:i] + rng.choice("0123456789abcdefFG:.% x-") + s[i + 1:]
            else:
                s = s[:i] + rng.choice("0123456789abcdef:.") + s[i:]
        out.append(s)
    return out


def run(c):
    rng = c.rng
    cmds = []
    for s in texts(c):
        if "\0" in s:
            continue
        cmds.append("ptn %s %d" % (hexs(s), rng.choice([-1, 0, 1, 80, 255, 256, 8080, 65535])))
    def addr(base=None):
        how = rng.choice(["a4", "s4", "a6", "s6"])
        n = 4 if how[1] == "4" else 16
        b = bytes(rng.choice([0, 1, 255, 127]) for _ in range(n))
        if base is not None and rng.random() < 0.75:
            b0, p0 = base
            if len(b0) == n:
                b = bytearray(b0)
                if rng.random() < 0.35:
                    b[rng.randrange(n)] ^= 1 << rng.randrange(8)
                b = bytes(b)
            port = p0 if rng.random() < 0.7 else (p0 ^ (1 << rng.randrange(16)))
        else:
            port = rng.choice([0, 1, 80, 256, 65535])
        return "%s %s %d %d" % (how, b.hex(), port, rng.choice([0, 1, 255])), (b, port)
    for _ in range(6000 if c.thorough else 1200):
        x, base = addr()
        for _t in range(20):
            y, _ = addr(base)
            if rng.random() < 0.1 or y[1] == x[1]:
                break
        cmds.append("eq %s %s" % (x, y))
        if rng.random() < 0.3:
            cmds.append("mk " + x)
    rng.shuffle(cmds)
    check(c, "IpTrace", [cmds[i:i + 25] for i in range(0, len(cmds), 25)], "addresses")
