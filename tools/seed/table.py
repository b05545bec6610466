#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md (between the markers)."""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
rows = ["| planted bug | caught by | needs | breaks |", "|---|---|---|---|"]
cell = lambda s: re.sub(r"\s+", " ", s).replace("|", "\\|")
for d in sorted(os.listdir(root + "/seeded")):
    m = json.load(open(f"{root}/seeded/{d}/meta.json"))
    rows.append(f"| {d} | {m['property']} quick | {cell(m['needs'])} | {cell(m['what_it_breaks'])} |")
p = root + "/DESIGN.md"
s = open(p).read()
a, b = "<!-- seeds -->", "<!-- /seeds -->"
i, j = s.index(a) + len(a), s.index(b)
open(p, "w").write(s[:i] + "\n" + "\n".join(rows) + "\n" + s[j:])
