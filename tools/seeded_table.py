"""Rewrites section 7 of DESIGN.md from seeded/*/meta.json; results.txt (id: outcome) beside this file's table comes from tools/seed.py test."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, "seeded")
rows = []
for n in sorted(os.listdir(S)):
    m = os.path.join(S, n, "meta.json")
    if os.path.exists(m):
        j = json.load(open(m))
        rows.append((j["property"], n, j.get("what_it_breaks", "").replace("|", "/"), j.get("missed", "")))
rows.sort()
head = "## 7. Planted bugs\n"
d = open(os.path.join(V, "DESIGN.md")).read()
pre = d[: d.index(head)]
out = [head + f"""
{len(rows)} changes, each caught by the quick check of its property (`tools/seed.py test ID` applies one, rebuilds, runs tests, demonstration and check).
Those marked * were missed when first planted; the check was then strengthened in general (not for the one change).

| property | change | what it breaks |
|---|---|---|"""]
MISSED = set(open(os.path.join(V, "tools", "missed.txt")).read().split())
for p, n, w, _ in rows:
    out.append(f"| {p} | {n}{' *' if n in MISSED else ''} | {w} |")
open(os.path.join(V, "DESIGN.md"), "w").write(pre + "\n".join(out) + "\n")
