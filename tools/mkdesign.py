#!/usr/bin/env python3
"""Fills the table of planted bugs in DESIGN.md."""
import json, os, glob, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(d))
    rows.append(f"| {os.path.basename(os.path.dirname(d))} | {m['needs']} | {m['property']} |")
s = open(V + '/DESIGN.md').read()
t = "| bug | what it needs | detected by |\n|---|---|---|\n"
i = s.index(t) + len(t)
j = s.index("\n\n", i - 1)
open(V + '/DESIGN.md', 'w').write(s[:i] + "\n".join(rows) + s[j:])
