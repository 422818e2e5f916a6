#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json and tools/caught.json."""
import json, glob, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); C = json.load(open(V + "/tools/caught.json")); rows = []
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(f)); b = os.path.basename(os.path.dirname(f))
    rows.append(f"| {b} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {C.get(b, m['property'])} |")
s = open(V + "/DESIGN.md").read(); h = "|---|---|---|---|---|\n"; i = s.index(h, s.index("| bug | property")) + len(h); j = s.index("\n\n", i)
open(V + "/DESIGN.md", "w").write(s[:i] + "\n".join(rows) + s[j:])
