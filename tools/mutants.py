#!/usr/bin/env python3
"""mutants.py FILE.py [jobs]: FILE defines M = [(checks, file, old, new, ...)]; runs mut.py on each, prints one line per mutant."""
import os, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
ns = {}
exec(open(sys.argv[1]).read(), ns)
here = os.path.dirname(os.path.abspath(__file__))


def one(m):
    p = subprocess.run([sys.executable, os.path.join(here, "mut.py")] + list(m), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return m, p.stdout


with ThreadPoolExecutor(int(sys.argv[2]) if len(sys.argv) > 2 else 4) as ex:
    for m, o in ex.map(one, ns["M"]):
        v = [l for l in o.splitlines() if " rc " in l] or [o[-300:]]
        why = [l.strip() for l in o.splitlines() if l.startswith("    ")]
        print("%-40s | %s" % (" ; ".join(v), m[1].split("/")[-1] + ": " + " ".join(m[3].split())[:90]), flush=True)
        if why and "-v" in sys.argv:
            print("      ", why[0][:250])
