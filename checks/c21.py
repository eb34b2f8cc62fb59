"""C21: the status line is recognised identically however the reply is split."""
import itertools
from vlib import build as B
from vlib.check import run_scenarios, rerunner
from vlib.traces import check_traces


def build():
    return B.build("statusline", ["statusline.cpp"], ["recorder/stream_recorder/status_line_parser.cpp"], mode="asan")


LINES = [b"HTTP/1.1 200 OK", b"HTTP/1.1 404 Not Found", b"HTTP/1.1 200 ", b"H 503 a  b ", b" 100 x", b"HTTP/1.0 999 r\x80\xff\x00s",
         b"HTTP/1.1 200", b"HTTP/1.1", b"", b"HTTP/1.1 20 OK", b"HTTP/1.1 2000 OK", b"HTTP/1.1  200 OK", b"HTTP/1.1 2x0 OK", b"HTTP/1.1 200x OK",
         b"HTTP/1.1 -20 OK", b"HTTP/1.1 +20 OK", b"HTTP/1.1\t200 OK", b"HTTP/1.1 abc OK", b"HTTP/1.1 0x1 OK", b"HTTP/1.1 \x00\x00\x00 OK",
         b"HTTP/1.1 99999999999999999999 OK", b"HTTP/1.1   ", b"  ", b" ", b"HTTP/1.1 000 ", b"HTTP/1.1 12\xb2 x",
         b"a" * 300 + b" 200 " + b"r" * 3000, b"HTTP/1.1 200 OK\nX", b"HTTP/1.1 204 \r"]
TAILS = [b"", b"\r", b"\r\n", b"\r\nHTTP/1.1 500 Oops\r\n", b"\r200 \r", b"\n"]


def pieces(rng, b):
    out, i = [], 0
    while i < len(b):
        k = rng.choice([0, 1, 1, 2, 3, 5, 8, 20, 512])
        out.append(b[i:i + k])
        i += k
    return out


def run(c):
    exe = build()
    t = c.thorough
    c.model("StatusLineModel", consts=dict(MaxLen=9 if t else 7, MaxPiece=3), spec="MSpec", view="MView", invariants=["Whole"], workers=8)
    rng, sc = c.rng, []

    def cmds(ps):
        return ["P " + p.hex() for p in ps]
    # every way of cutting the replies in two, and byte by byte
    for ln in LINES:
        for tl in TAILS:
            b = ln + tl
            if len(b) < 60:
                for i in range(len(b) + 1):
                    sc.append(cmds([b[:i], b[i:]]) + ["R"] + cmds(pieces(rng, b"HTTP/1.1 201 Created\r\n")))
            sc.append(cmds([b[i:i + 1] for i in range(min(len(b), 80))] + [b[80:]]))
    n = len(sc)
    for _ in range(4000 if t else 500):
        ops = []
        for _ in range(rng.randint(1, 4)):
            r = rng.random()
            if r < 0.5:
                b = rng.choice(LINES) + rng.choice(TAILS)
            elif r < 0.8:
                b = b"HTTP/1.1 %d %s\r\n" % (rng.randint(0, 1100), bytes(rng.choice(b"aZ 09") for _ in range(rng.randint(0, 6))))
            else:
                b = bytes(rng.choice(b"H /1.2034 \r\n\x00\xff") for _ in range(rng.randint(0, 30)))
            ops.append(cmds(pieces(rng, b)) + ["R"])
        sc.append([x for o in ops for x in o])
    # nothing is fed after an error but a reset: cut there
    what = "replies"
    tr = run_scenarios(c, exe, sc, what)

    def upto(t):
        out, bad = [], False
        for e in t:
            if e["e"] == "reset":
                bad = False
            if not bad:
                out.append(e)
            bad = bad or e["thrown"] != 0
        return out
    rr = rerunner(c, exe, sc, what)
    check_traces(c, "StatusLineTrace", [upto(x) for x in tr], what, lambda i: upto(rr(i)))
