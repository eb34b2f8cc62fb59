"""Validates recorded traces against a trace specification with TLC (in parallel shards)."""
import json, os, tempfile
from concurrent.futures import ThreadPoolExecutor
from . import tlc as T
from .build import BUILD, JOBS


def _shard(module, items, consts, timeout, kw):
    d = os.path.join(BUILD, "tlc")
    os.makedirs(d, exist_ok=True)
    fd, path = tempfile.mkstemp(prefix="tr-", suffix=".json", dir=d)
    with os.fdopen(fd, "w") as f:
        json.dump([t for _, t in items], f)
    try:
        r = T.run(module, consts, spec="TSpec", constraint="TMark", postcondition="TPost", workers=1, timeout=timeout,
                  env={"TRACES": path}, **kw)
    finally:
        os.unlink(path)
    if not r.ok:
        raise T.TlcError("trace validation of %s failed: %s\n%s" % (module, r.violation, r.output[-4000:]))
    acc = set()
    prog = {}
    for p in r.prints:
        if p.startswith("A "):
            acc.add(int(p[2:]))
        elif p.startswith("P "):
            a, b = p[2:].split()
            prog[int(a)] = int(b)
    rej = [(items[i - 1][0], prog.get(i, 1)) for i in range(1, len(items) + 1) if i not in acc]
    return r, rej


def validate(module, traces, consts=None, timeout=600, shards=None, per_shard_min=40, **kw):
    """Returns (generated, distinct, [(index, first unmatched event, 1-based)])."""
    if not traces:
        return 0, 0, []
    n = shards or max(1, min(JOBS, (len(traces) + per_shard_min - 1) // per_shard_min))
    items = list(enumerate(traces))
    parts = [items[i::n] for i in range(n)]
    kw.setdefault("heap", "2g")
    with ThreadPoolExecutor(n) as ex:
        res = list(ex.map(lambda p: _shard(module, p, consts, timeout, kw), parts))
    return sum(r.generated for r, _ in res), sum(r.distinct for r, _ in res), sorted(x for _, rej in res for x in rej)


def check_traces(c, module, traces, what, rerun=None, consts=None, max_len=None, **kw):
    """Validates; on a rejection repeats it on the re-run trace and reports a violation."""
    g, d, rej = validate(module, traces, consts, **kw)
    c.add(states=d, transitions=g, traces_validated_against_impl=len(traces) - len(rej))
    c.log("TLC %s: %d traces of %s validated, %d rejected" % (module, len(traces), what, len(rej)))
    for t in traces[:2]:
        c.sample({"kind": what, "trace": t if len(t) < 30 else t[:30]})
    if rej:
        idx, at = rej[0]
        tr = traces[idx]
        if rerun is not None:
            tr2 = rerun(idx)
        else:
            tr2 = tr
        g2, d2, rej2 = validate(module, [tr2], consts, **kw)
        if rej2:
            at = rej2[0][1]
            c.violation("%s: the specification %s rejects event %d of a recorded history: %s" % (
                what, module, at, json.dumps(tr2[at - 1] if at <= len(tr2) else "end")[:600]),
                {"module": module, "first_unmatched_event": at, "trace": tr2, "rejected": len(rej), "index": idx})
        raise T.TlcError("a rejection of %s did not repeat: %s" % (module, json.dumps(tr)[:2000]))
