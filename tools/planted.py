"""Rewrites the last section of DESIGN.md, the table of planted bugs (run by hand)."""
import json, os, glob
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
rows = []
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(d))
    rows.append((m["property"], os.path.basename(os.path.dirname(d)), m["needs"], m.get("caught", "quick")))
rows.sort()
t = "## Planted bugs\n\nEach passes the repository's tests, and its demonstration fails with it.  `by` is the tier of the\ncheck of its property that reports it.\n\n| property | bug | needs | by |\n|---|---|---|---|\n"
t += "".join(f"| {p} | {i} | {n.replace('|', '/')} | {c} |\n" for p, i, n, c in rows)
s = open(V + "/DESIGN.md").read()
k = s.find("## Planted bugs")
if k >= 0:
    s = s[:k]
open(V + "/DESIGN.md", "w").write(s.rstrip("\n") + "\n\n" + t)
