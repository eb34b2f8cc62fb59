#!/usr/bin/env python3
"""mut.py CHECKS FILE OLD NEW [OLD NEW...]: runs checks against a scratch copy of /repo with a text change."""
import os, shutil, subprocess, sys, tempfile
checks, f = sys.argv[1].split(","), sys.argv[2]
pairs = sys.argv[3:]
d = tempfile.mkdtemp(prefix="mut-", dir="/tmp")
try:
    subprocess.check_call("git -C /repo archive HEAD | tar x -C %s" % d, shell=True)
    if f.endswith(".diff"):
        subprocess.check_call(["git", "-C", d, "init", "-q"]); subprocess.check_call(["git", "-C", d, "apply", os.path.abspath(f)])
    else:
        p = os.path.join(d, f)
        s = open(p).read()
        for o, n in zip(pairs[::2], pairs[1::2]):
            if o not in s:
                sys.exit("text not found: " + o)
            s = s.replace(o, n, 1)
        open(p, "w").write(s)
    for c in checks:
        e = dict(os.environ, VERIF_REPO=d, VERIF_BUILD=d + "/vb")
        r = subprocess.run([sys.executable, "/verif/tools/check.py", c], env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        print(c, "rc", r.returncode, "CAUGHT" if r.returncode == 1 and "VIOLATION property=" in r.stdout else "ERROR" if r.returncode == 1 else "MISSED" if r.returncode == 0 else "ERROR")
        for l in r.stdout.splitlines():
            if "violation:" in l or "Error" in l:
                print("   ", l[:300])
        if r.returncode not in (0, 1):
            print(r.stdout[-1500:])
finally:
    shutil.rmtree(d)
