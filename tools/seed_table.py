#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json (development aid, no check uses it)."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(os.listdir(here + "/seeded")):
    m = json.load(open(f"{here}/seeded/{d}/meta.json"))
    rows.append(f"| {d} | {m['needs'].replace('|', '/')} | {m.get('caught_by', m['property'])} |")
s = open(here + "/DESIGN.md").read()
a, b = "<!-- seeds -->\n", "<!-- /seeds -->"
i, j = s.index(a) + len(a), s.index(b)
s = s[:i] + "| planted bug | needs | caught by (quick) |\n|---|---|---|\n" + "\n".join(rows) + "\n" + s[j:]
open(here + "/DESIGN.md", "w").write(s)
print(len(rows))
