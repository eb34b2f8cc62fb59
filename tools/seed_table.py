"""Rewrites the table of planted bugs in DESIGN.md from /verif/seeded (run by hand)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
A, B = "<!-- planted -->\n", "<!-- /planted -->\n"
rows = ["| planted bug | caught by | what it needs | what it breaks |\n|---|---|---|---|\n"]
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(V + "/seeded/%s/meta.json" % d))
    rows.append("| %s | %s | %s | %s |\n" % (d, m["property"], m["needs"].replace("|", "/").rstrip("."), m["what_it_breaks"].replace("|", "/").rstrip(".")))
p = V + "/DESIGN.md"
s = open(p).read()
i, j = s.index(A) + len(A), s.index(B)
open(p, "w").write(s[:i] + "".join(rows) + s[j:])
