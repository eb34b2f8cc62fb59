"""Runs schedule exploration drivers and collects the distinct histories."""
import json, os, re, subprocess
from concurrent.futures import ThreadPoolExecutor
from .traces import validate
from . import tlc as T


ABNORMAL = re.compile(r'"e":"(race|use_after_free|double_free|stuck|\w*deadlock|crash_signal_\d+)"')


def run_job(exe, args, timeout, env=None):
    e = dict(os.environ)
    e.update(env or {})
    try:
        p = subprocess.run([exe] + [str(a) for a in args], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout,
                           env=e, errors="replace")
    except subprocess.TimeoutExpired:
        return [], {}, "timeout", ""
    hs, st = [], {}
    for ln in p.stdout.splitlines():
        if ln.startswith("H "):
            hs.append(ln[2:])
        elif ln.startswith("STAT"):
            st = dict((k, int(v)) for k, v in re.findall(r"(\w+)=(\d+)", ln))
        elif ln.startswith("NONDET"):
            raise RuntimeError("schedule replay was not deterministic: %s (args %s)" % (ln, args))
    return hs, st, p.returncode, p.stderr


def explore(c, exe, jobs, what, module, consts=None, timeout=150, env=None, workers=8, invariants=None, limit=0, decode=None, **kw):
    """jobs: argument lists. Returns number of distinct histories.
    decode: turns a history into the trace that is validated.
    limit: at most that many ordinary histories are handed to TLC, spread over the jobs (those with an abnormal event all are)."""
    limit = limit or (60000 if c.thorough else 4500)
    envs = [(j[1] if isinstance(j, tuple) else None) for j in jobs]
    jobs = [(j[0] if isinstance(j, tuple) else j) for j in jobs]

    def one(i):
        e = dict(env or {})
        e.update(envs[i] or {})
        return run_job(exe, jobs[i], timeout, e)
    with ThreadPoolExecutor(workers) as ex:
        res = list(ex.map(one, range(len(jobs))))
    hist, src = [], []
    seen = set()
    execs = pts = exh = 0
    for i, (hs, st, rc, err) in enumerate(res):
        if rc != 0 or not st:
            hs2, st2, rc2, err2 = one(i)
            if rc2 != 0 or not st2:
                c.violation("%s: the code under test ended abnormally (%s) under the scheduler: %s" % (what, rc2, err2[-800:]),
                            {"args": jobs[i], "stderr": err2[-3000:], "histories": hs2[-2:]})
            hs, st = hs2, st2
        execs += st.get("executions", 0)
        pts += st.get("points", 0)
        exh += st.get("exhausted", 0)
        for h in hs:
            if h not in seen:
                seen.add(h)
                hist.append(h)
                src.append(i)
    c.add(schedules_executed=execs, scheduling_points=pts, exhausted_searches=exh, searches=len(jobs), distinct_histories=len(hist))
    if len(hist) > limit:
        odd = [i for i, h in enumerate(hist) if ABNORMAL.search(h)][:500]
        per = {}
        for i in range(len(hist)):
            per.setdefault(src[i], []).append(i)
        for v in per.values():
            c.rng.shuffle(v)
        order = [v[k] for k in range(max(map(len, per.values()))) for v in per.values() if k < len(v)]
        keep = odd + [i for i in order[:limit] if i not in set(odd)]
        hist, src = [hist[i] for i in keep], [src[i] for i in keep]
    tr = [json.loads(h) for h in hist]
    if decode:
        tr = [decode(t) for t in tr]
    extra = "\n".join("INVARIANT " + i for i in (invariants or ()))
    g, d, rej = validate(module, tr, consts, extra=extra, **kw)
    c.add(states=d, transitions=g, traces_validated_against_impl=len(tr) - len(rej))
    c.log("%s: %d schedules, %d scheduling points, %d distinct histories; TLC %s: %d rejected" % (what, execs, pts, len(hist), module, len(rej)))
    for t in tr[:1]:
        c.sample({"kind": what, "history": t[:40]})
    if rej:
        # shown again by a second run of its search (searches have time limits: try those of several jobs)
        first = {}
        for r in rej:
            first.setdefault(src[r[0]], r)
        for idx, at in list(first.values())[:8] + rej[1:4]:
            if hist[idx] in one(src[idx])[0]:
                break
        else:
            raise T.TlcError("a rejected history did not appear again: " + hist[rej[0][0]][:2000])
        g, d, rej2 = validate(module, [tr[idx]], consts, extra=extra, **kw)
        if not rej2:
            raise T.TlcError("a rejection did not repeat")
        at = rej2[0][1]
        c.violation("%s: the specification %s rejects event %d of a history of the real code: %s" % (
            what, module, at, json.dumps(tr[idx][at - 1] if at <= len(tr[idx]) else "end")),
            {"module": module, "args": jobs[src[idx]], "first_unmatched_event": at, "history": tr[idx], "rejected": len(rej)})
    return len(hist)
