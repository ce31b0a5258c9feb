#!/usr/bin/env python3
"""Fills the table of planted bugs into DESIGN.md."""
import glob, json, os, re
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
rows = ["| bug | caught by | what it breaks | needs |", "|---|---|---|---|"]
for f in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    d = json.load(open(f))
    rows.append("| %s | %s | %s | %s |" % (f.split(os.sep)[-2], d["property"], d["what_it_breaks"], d["needs"]))
p = os.path.join(V, "DESIGN.md")
t = open(p).read()
table = "<!-- table -->\n" + "\n".join(rows) + "\n<!-- end -->"
t = t.replace("@@TABLE@@", table) if "@@TABLE@@" in t else re.sub(r"<!-- table -->.*?<!-- end -->", lambda m: table, t, flags=re.S)
open(p, "w").write(t)
