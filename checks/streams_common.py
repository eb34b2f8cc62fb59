from vlib import build as B, tlc as T, mbt
SRCS = ["common/chained_stream.cpp", "common/composable_fragment_input_stream.cpp", "common/fragment_array_input_stream.cpp",
        "common/fragment_input_stream.cpp", "network/vector_write.cpp", "common/platform/error_unix.cpp",
        "common/platform/network_unix.cpp"]


def build():
    return B.build("streams", ["streams.cpp"], SRCS, mode="asan")


def chain(name, ops, close=True):
    """ops: list of backup counts, one Next each."""
    out = ["C " + name]
    for b in ops:
        out.append("N " + name)
        if b is not None:
            out.append("B %s %d" % (name, b))
    if close:
        out.append("X " + name)
    return out


def chain_len(name, n):
    """A closed chain holding exactly n bytes (blocks of 256)."""
    ops = []
    if n == 0:
        return chain(name, [])
    full = (n + 255) // 256
    ops = [None] * full
    if full * 256 - n:
        ops[-1] = full * 256 - n
    return chain(name, ops)


def reads(names, rng=None):
    out = []
    for x in names:
        out.append("R %s 0" % x)
        if rng is not None and rng.random() < 0.5:
            out.append("R %s %d" % (x, rng.randint(1, 4)))
    return out


def from_model(path, kinds):
    """A path of StreamModel as a driver scenario over fragment arrays."""
    init, steps = path
    cfg = init[0]
    names = ["s%d" % (i + 1) for i in range(len(cfg))]
    sc = []
    for n, fr in zip(names, cfg):
        sc.append("A %s %s" % (n, " ".join(map(str, fr))))
    sc += reads(names)
    for a, _ in steps:
        if a["op"] == "K":
            sc.append("K %d %s" % (a["n"], " ".join(names)))
        else:
            ans = [{-1: -11, -2: -32}.get(x, x) for x in a["ans"]]
            sc.append("W %d %s %s" % (len(ans), " ".join(map(str, ans)), " ".join(names)))
        sc += reads(names)
    return sc


def model_paths(c, kinds, consts, extra_random=0):
    r, inits, trans = T.transitions("StreamModel", consts, invariants=["Suffix", "SameBytes", "CountsAgree", "Honest", "HonestW"], workers=4)
    c.add(states=r.distinct, transitions=r.generated)
    c.log("TLC StreamModel %s: %d generated, %d distinct" % (consts, r.generated, r.distinct))
    trans = [t for t in trans if t["a"]["op"] in kinds]
    paths, total = mbt.cover(inits, trans, c.rng, max_len=10, extra_random=extra_random)
    c.cov["model_transitions_replayed"] = total
    return [from_model(p, kinds) for p in paths]
