#!/usr/bin/env python3
"""Rewrites the table of planted changes in DESIGN.md from seeded/*/meta.json and tools/caught.json (id -> how)."""
import glob, json, os, re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
how = json.load(open(R + "/tools/caught.json"))
rows = ["| change | needs | caught by |", "|---|---|---|"]
for f in sorted(glob.glob(R + "/seeded/*/meta.json")):
    i, m = os.path.basename(os.path.dirname(f)), json.load(open(f))
    rows.append("| %s | %s | %s |" % (i, m["needs"], how.get(i, "not yet run")))
p = R + "/DESIGN.md"
s = open(p).read()
a, b = s.index("<!-- bugs -->"), s.index("<!-- /bugs -->")
open(p, "w").write(s[:a] + "<!-- bugs -->\n" + "\n".join(rows) + "\n" + s[b:])
