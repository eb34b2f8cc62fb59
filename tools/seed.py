#!/usr/bin/env python3
"""Confirms planted changes: seed.py ID...   builds, runs the stable tests, the demonstration and the check in /repo, then undoes the change.
seed.py --new ID PROPERTY FILE OLD NEW NEEDS BREAKS  writes patch.diff and meta.json from a text replacement."""
import json, os, subprocess, sys, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(ROOT, "seeded")


def sh(cmd, cwd="/repo", timeout=900):
    try:
        p = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return 124, "timeout"


def new(sid, prop, edits, needs, breaks):
    d = os.path.join(S, sid)
    os.makedirs(d, exist_ok=True)
    try:
        for f, old, nw in edits:
            p = os.path.join("/repo", f)
            s = open(p).read()
            assert s.count(old) == 1, (sid, f, s.count(old), old)
            open(p, "w").write(s.replace(old, nw))
        rc, out = sh("git diff")
    finally:
        sh("git checkout -- .")
    open(os.path.join(d, "patch.diff"), "w").write(out)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)


def confirm(sid, check=True):
    d = os.path.join(S, sid)
    meta = json.load(open(os.path.join(d, "meta.json")))
    base = set(json.load(open("/opt/vp/BASELINE.json")).get("stable") or json.load(open("/opt/vp/BASELINE.json"))["passed"])
    res = {}
    rc, o = sh("bash %s/demo.sh" % d, timeout=300)
    res["demo_clean"] = rc
    if rc:
        print(o[-1500:])
    rc, o = sh("git apply %s/patch.diff" % d)
    assert rc == 0, o
    try:
        sh("bash /opt/vp/test.sh /tmp/seed_out.json")
        got = set(json.load(open("/tmp/seed_out.json"))["passed"])
        res["tests_lost"] = sorted(base - got)
        t0 = time.time()
        rc, o = sh("bash %s/demo.sh" % d, timeout=300)
        res["demo_patched"] = rc
        res["demo_s"] = round(time.time() - t0, 1)
        if check:
            t0 = time.time()
            rc, o = sh("VERIF_SEED=1 VERIF_TIER=quick python3 tools/check.py %s" % meta["property"], cwd=ROOT)
            res["check"] = rc
            res["check_s"] = round(time.time() - t0, 1)
            res["line"] = [x for x in o.splitlines() if x.startswith("VIOLATION")][:1] or o.splitlines()[-1:]
    finally:
        sh("git checkout -- .")
    ok = res["demo_clean"] == 0 and res["demo_patched"] != 0 and not res["tests_lost"]
    print(sid, "VALID" if ok else "INVALID", "CAUGHT" if res.get("check") == 1 else "MISSED", json.dumps(res))


if __name__ == "__main__":
    for sid in [a for a in sys.argv[1:] if not a.startswith("--")]:
        confirm(sid, "--nocheck" not in sys.argv)
