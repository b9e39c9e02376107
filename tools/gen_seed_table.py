"""Rewrites the table of planted bugs of DESIGN.md from seeded/*/meta.json"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(f"{V}/seeded/{d}/meta.json"))
    f = next(l[6:].strip() for l in open(f"{V}/seeded/{d}/patch.diff") if l.startswith("+++ "))
    rows.append((m["property"], d, f, " ".join(m["what_it_breaks"].split())[:150].replace("|", "/")))
rows.sort()
t = "| Caught by | Planted bug | Where | What it breaks |\n|---|---|---|---|\n" + "".join(f"| {p} | {d} | `{f}` | {w} |\n" for p, d, f, w in rows)
a, b = "<!-- planted bugs -->\n", "<!-- end -->\n"
s = open(V + "/DESIGN.md").read()
i, j = s.index(a) + len(a), s.index(b)
open(V + "/DESIGN.md", "w").write(s[:i] + t + s[j:])
