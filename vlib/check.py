"""Common frame of every check: tiers, seeds, evidence, verdicts."""
import json, os, random, subprocess, sys, time, traceback
from . import build as B
from . import tlc as T
from concurrent.futures import ThreadPoolExecutor


class Violation(Exception):
    def __init__(self, what, replay=None):
        Exception.__init__(self, what)
        self.what = what
        self.replay = replay or {}


class Check:
    def __init__(self, pid, level="model_checking"):
        self.pid = pid
        self.level = level
        self.seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.thorough = self.tier == "thorough"
        self.rng = random.Random(self.seed * 1000003 + sum(map(ord, pid)))
        self.t0 = time.time()
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.assumptions = []
        self.known = []

    # ---- numbers
    def add(self, **kw):
        for k, v in kw.items():
            self.cov[k] = self.cov.get(k, 0) + v

    def sample(self, s, limit=6):
        if len(self.cov["samples"]) < limit:
            self.cov["samples"].append(s)

    def log(self, *a):
        print("[%s %6.1fs]" % (self.pid, time.time() - self.t0), *a, flush=True)

    # ---- the model itself
    def model(self, module, what="", **kw):
        kw.setdefault("workers", 4)
        r = T.run(module, **kw)
        if not r.ok:
            raise T.TlcError("the specification %s itself violates: %s\n%s" % (module, r.violation, r.output[-5000:]))
        self.add(states=r.distinct, transitions=r.generated)
        self.log("TLC %s %s: %d generated, %d distinct, depth %d, %.1fs" % (module, what, r.generated, r.distinct, r.depth, r.wall))
        return r

    def violation(self, what, replay=None):
        raise Violation(what, replay)

    def finish(self, violations):
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": self.cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": violations}
        d = os.path.join(B.VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, sort_keys=True)


def load_known(pid):
    """key -> description of the recorded findings of one property"""
    out = {}
    try:
        for l in open(os.path.join(B.VERIF, "known-findings.txt")):
            l = l.strip()
            if l.startswith("finding: property=%s " % pid):
                rest = l.split("key=", 1)[1]
                k, _, d = rest.partition(" ")
                out[k] = d
    except OSError:
        pass
    return out


def main(pid, fn, level="model_checking"):
    c = Check(pid, level)
    try:
        fn(c)
    except Violation as v:
        c.log("violation:", v.what)
        rd = os.path.join(B.VERIF, "evidence", "replay")
        os.makedirs(rd, exist_ok=True)
        rp = os.path.join(rd, pid + ".json")
        with open(rp, "w") as f:
            json.dump({"property": pid, "what": v.what, "seed": c.seed, "tier": c.tier, "replay": v.replay}, f, indent=1, default=str)
        c.finish(1)
        print("VIOLATION property=%s replay=%s" % (pid, rp), flush=True)
        return 1
    except Exception:
        traceback.print_exc()
        print("CHECK-ERROR property=%s" % pid, flush=True)
        return 2
    c.finish(0)
    c.log("held; evidence written")
    return 0


def run_driver(exe, text, timeout=120, env=None, args=()):
    """Runs a driver on a scenario; returns (lines, rc, stderr)."""
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "detect_leaks=0:max_malloc_fill_size=1048576:malloc_fill_byte=190:abort_on_error=0:exitcode=99"
    e.update(env or {})
    try:
        p = subprocess.run([exe] + list(args), input=text, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout,
                           env=e, errors="replace")
        return p.stdout.splitlines(), p.returncode, p.stderr
    except subprocess.TimeoutExpired as x:
        out = x.stdout or b""
        if isinstance(out, bytes):
            out = out.decode(errors="replace")
        return out.splitlines(), "timeout", ""


def run_scenarios(c, exe, scenarios, what, jobs=8, timeout=200, env=None, sep="T"):
    """Each scenario is a list of command lines; the driver answers 'T' per scenario
    and one JSON event per command.  Returns the list of recorded traces.  A crash,
    a failed assertion, a sanitizer report or an endless loop of the code under test
    is a violation once it has repeated for that scenario alone."""
    n = max(1, min(jobs, (len(scenarios) + 19) // 20))
    parts = [list(range(i, len(scenarios), n)) for i in range(n)]

    def one(ids):
        text = "".join(sep + "\n" + "\n".join(scenarios[i]) + "\n" for i in ids)
        return run_driver(exe, text, timeout, env)
    with ThreadPoolExecutor(n) as ex:
        res = list(ex.map(one, parts))
    traces = [None] * len(scenarios)
    for ids, (lines, rc, err) in zip(parts, res):
        cur = -1
        for ln in lines:
            if ln == "T":
                cur += 1
                traces[ids[cur]] = []
            elif ln.startswith("{"):
                try:
                    traces[ids[cur]].append(json.loads(ln))
                except ValueError:
                    traces[ids[cur]].append({"e": "garbled"})
        if rc != 0 or not lines or lines[-1] != "END":
            bad = ids[max(cur, 0)]
            l2, rc2, err2 = run_driver(exe, sep + "\n" + "\n".join(scenarios[bad]) + "\n", timeout, env)
            if rc2 == 0 and l2 and l2[-1] == "END":
                # depends on what ran before: repeat the whole part
                l2, rc2, err2 = one(ids)
                if rc2 == 0:
                    raise RuntimeError("driver failure did not repeat: rc=%s %s" % (rc, err[-2000:]))
            c.violation("%s: the code under test ended abnormally (%s) where the specification has a normal step: %s" % (
                what, rc2, (err2 or "")[-1500:]), {"scenario": scenarios[bad], "events": l2[-5:], "rc": rc2})
    return traces


def rerunner(c, exe, scenarios, what, env=None, sep="T"):
    return lambda i: run_scenarios(c, exe, [scenarios[i]], what, env=env, sep=sep)[0]
