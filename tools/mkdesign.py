#!/usr/bin/env python3
"""Regenerates the seeded-bug table at the end of DESIGN.md (between the markers)."""
import json, glob, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(glob.glob(V + "/seeded/*/")):
    m = json.load(open(d + "meta.json"))
    rows.append(f"| {os.path.basename(d[:-1])} | {m['property']} | {m['needs']} |")
s = open(V + "/DESIGN.md").read()
a, b = s.index("<!-- seeded -->"), s.index("<!-- /seeded -->")
s = s[:a] + "<!-- seeded -->\n| planted change | caught by | needs |\n|---|---|---|\n" + "\n".join(rows) + "\n" + s[b:]
open(V + "/DESIGN.md", "w").write(s)
