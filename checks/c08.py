"""C08: streaming spans out of the buffer never splits or repeats a span silently."""
from checks.streams_common import *
from vlib.check import run_scenarios, rerunner
from vlib.traces import check_traces


def build_spans():
    return B.build("spans", ["spans.cpp"], SRCS + ["recorder/stream_recorder/span_stream.cpp", "recorder/metrics_tracker.cpp"], mode="asan")


UNIT = 128


def model_scenarios(c):
    LENS = [1, 3, 5]
    c.model("SpanStreamMC", "(whole history)", consts={"MaxAdds": 4 if c.thorough else 3, "Cap": 3, "Wide": "FALSE"}, spec="MSpec",
            invariants=["InOrder", "Accounted", "QueueOrder"])
    r, inits, trans = T.transitions("SpanStreamMC", {"MaxAdds": 4 if c.thorough else 3, "Cap": 4, "Wide": "TRUE" if c.thorough else "FALSE"},
                                    invariants=["InOrder", "Accounted", "QueueOrder"], workers=4)
    c.add(states=r.distinct, transitions=r.generated)
    c.log("TLC SpanStreamMC: %d generated, %d distinct" % (r.generated, r.distinct))
    paths, total = mbt.cover(inits, trans, c.rng, max_len=14)
    c.cov["model_transitions_replayed"] = total
    out = []
    for init, steps in paths:
        # a fragment of size 2 is a whole block of the chain, one of size 1 half a block
        sc, n, k = ["SB s 4"], 0, 0
        for a, to in steps:
            if a["op"] == "add":
                n += 1
                sc += chain_len("c%d" % n, LENS[a["sh"] - 1] * UNIT) + ["SA s c%d" % n]
            elif a["op"] == "allot":
                sc += ["ST s", "R s 0"]
            elif a["op"] == "K":
                sc += ["K %d s" % (a["n"] * UNIT), "SZ s"]
            else:
                k += 1
                sc += ["SR s r%d" % k, "RX r%d" % k, "SX r%d" % k]
        out.append(sc + ["SZ s"])
    return out


def random_scenarios(c, count):
    rng = c.rng
    out = []
    for _ in range(count):
        cap = rng.randint(1, 6)
        sc, buf, n, k, h = ["SB s %d" % cap], [], 0, 0, 0
        for _r in range(rng.randint(2, 6)):
            adds = rng.randint(0, cap - len(buf))
            for _a in range(adds):
                n += 1
                ln = rng.choice([1, 2, 5, 255, 256, 257, 300, 512, 513, 700, 1024])
                sc += chain_len("c%d" % n, ln) + ["SA s c%d" % n]
                buf.append(ln)
            sc.append("ST s")
            allot = list(buf)
            sc.append("R s %d" % rng.choice([0, 0, 1, 2, 3]))
            if rng.random() < 0.4 and len(buf) < cap:   # a producer adds after the allotment
                n += 1
                sc += chain_len("c%d" % n, 77) + ["SA s c%d" % n]
                buf.append(77)
            ahead = 0
            names = ["s"]
            if rng.random() < 0.4:
                h += 1
                ahead = rng.choice([1, 3, 256])
                sc += chain_len("h%d" % h, ahead)
                names = ["h%d" % h, "s"]
            tail = 0
            if rng.random() < 0.3:
                h += 1
                tail = rng.choice([1, 5])
                sc += chain_len("h%d" % h, tail)
                names.append("h%d" % h)
            tot = ahead + sum(allot) + tail
            marks = [0, ahead]
            for x in allot:
                marks += [marks[-1] + x, marks[-1] + min(x, 256)]
                marks[-1], marks[-2] = marks[-2], marks[-1]
            if rng.random() < 0.6:
                amount = rng.choice(marks) + rng.choice([-1, 0, 0, 1])
            else:
                amount = rng.choice([tot, rng.randint(0, tot)])
            amount = max(0, min(tot, amount))
            if rng.random() < 0.25 and len(buf) < cap:  # a producer adds while spans are being counted as sent
                n += 1
                sc += chain_len("c%d" % n, 99) + ["SO s c%d" % n]
                due = True
            else:
                due = False
            if rng.random() < 0.5:
                sc.append("K %d %s" % (amount, " ".join(names)))
            else:
                # one kernel answer suffices unless more than IovMax fragments; errors and blocks too
                ans = rng.choice([[amount], [amount], [-11], [-32]]) if amount < tot else [amount]
                if ans[0] < 0:
                    amount = 0
                sc.append("W %d %s %s" % (len(ans), " ".join(map(str, ans)), " ".join(names)))
            # what the buffer now holds
            reached = amount >= ahead and tot > 0
            left = amount - ahead
            gone = 0
            if reached:
                for x in allot:
                    if left >= x:
                        left -= x
                        gone += 1
                    else:
                        if left > 0:
                            gone += 1
                        break
            if due:
                # the producer's span is added when the observer is told of sent spans, or right after
                buf.append(99)
            buf = buf[gone:]
            k += 1
            sc += ["SR s r%d" % k, "RX r%d" % k]
            sc += ["SX r%d" % k, "SZ s"]
            for nm in names:
                if nm != "s":
                    sc.append("SX " + nm)
        out.append(sc)
    return out


def run(c):
    exe = build_spans()
    sc = model_scenarios(c) + random_scenarios(c, 3000 if c.thorough else 500)
    tr = run_scenarios(c, exe, sc, "span streaming")
    check_traces(c, "SpanStreamTrace", tr, "span streaming", rerunner(c, exe, sc, "span streaming"))
