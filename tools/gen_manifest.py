#!/usr/bin/env python3
"""Writes MANIFEST.json from the table of checks."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from tools.manifest_table import CHECKS, NOT_APPLICABLE
props = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks = []
for pid in props:
    if pid not in CHECKS:
        continue
    tech, note = CHECKS[pid]
    checks.append({"property": pid, "quick_cmd": "python3 tools/check.py " + pid,
                   "thorough_cmd": "python3 tools/check.py %s --thorough" % pid, "evidence_file": "evidence/%s.json" % pid,
                   "technique": tech, "level": "model_checking", "level_note": note})
na = [{"property": p, "reason": NOT_APPLICABLE.get(p, "not built yet: no check is registered for it at this commit")}
      for p in props if p not in CHECKS]
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
     "notes": "TLA+ specifications in spec/, checked with TLC and bound to the code by replaying TLC's transitions and by "
              "validating recorded traces. No hooks are compiled into /repo: the harnesses interpose libc/libevent calls and "
              "supply the thread-sanitizer run-time interface themselves."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
