#!/usr/bin/env python3
"""Rewrites section 6 of DESIGN.md from seeded/: which check catches which change."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| change | check | file | needs | breaks |", "|---|---|---|---|---|"]
S = os.path.join(V, "seeded")
for d in sorted(os.listdir(S)):
    m = json.load(open(os.path.join(S, d, "meta.json")))
    files = re.findall(r"^\+\+\+ b/src/(\S+)", open(os.path.join(S, d, "patch.diff")).read(), re.M)
    cell = lambda t: str(t).replace("|", "\\|").replace("\n", " ")
    rows.append("| %s | %s | %s | %s | %s |" % (d, m["property"], ", ".join(files), cell(m["needs"]), cell(m["what_it_breaks"])))
p = os.path.join(V, "DESIGN.md")
t = open(p).read()
a, b = "<!-- table -->\n", "<!-- end of table -->"
i, j = t.index(a) + len(a), t.index(b)
open(p, "w").write(t[:i] + "\n".join(rows) + "\n" + t[j:])
