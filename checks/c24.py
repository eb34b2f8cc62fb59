"""C24: a finished span is recorded once and frozen."""
from checks.spans_common import *

P = PRIO
CASES = [
    ("s 0 61 - - - -", ["t 0 61 i1/f 0 - -", "t 0 62 i2/f 0 - -/q 0"]),
    ("s 0 61 - - - -", ["t 0 61 i1/f 0 - -/b 0 6b 31", "n 0 62/t 0 62 i2/g 0 6b"]),
    ("s 0 61 - - - -", ["f 0 - -/t 0 61 i1", "f 0 - -/t 0 62 i2"]),
    ("s 0 61 - - - -", ["f 0 - -", "f 0 - -", "f 0 - -"]),
    ("s 0 61 - - - -", ["l 0 61=i1/f 0 - 1500005000000000000~62=s63", "b 0 6b 31/i 0/l 0 62=i2"]),
    ("s 0 61 - - - -", ["t 0 %s i0/f 0 - -" % P, "t 0 %s i1/f 0 - -" % P]),
    ("s 0 61 - - - -/s 1 62 c:s0 - - -", ["t 0 61 i1/f 1 - -/d 1", "t 1 61 i2/f 0 - -/n 0 63"][:1] + ["f 0 - -/n 0 63"]),
    ("s 0 61 - - - -", ["n 0 62/n 0 63", "n 0 64/f 0 - -", "a 0/q 0"]),
    ("s 0 61 - - - -", ["b 0 6b 31/f 0 - -", "b 0 6b 32/a 0", "g 0 6b"]),
]


def run(c):
    t = c.thorough
    model(c)
    exe = build("asan")
    replay(c, exe, {"NSpans": 1, "Tags": "<- TagsMC", "MaxRefs": 2}, "one span")
    if t:
        replay(c, exe, {"NSpans": 2, "Tags": "<- Tags1", "MaxRefs": 1}, "two spans")
    histories(c, exe, 6000 if t else 700, "histories", big=True)
    threads(c, build("sched"), CASES, "threads", 3 if t else 2, 60 if t else 4, 20000 if t else 400)
