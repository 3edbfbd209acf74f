#!/usr/bin/env python3
"""Fills the tables of DESIGN.md from evidence/ (costs) and seeded/ (planted bugs)."""
import glob, json, os, re

home = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.chdir(home)

rows = ["| property | cases | distinct non-trivial | seconds |", "|---|---|---|---|"]
for f in sorted(glob.glob("evidence/C??.json")):
    d = json.load(open(f))
    if d["tier"] != "quick":
        continue
    c = d["coverage"]
    rows.append("| %s | %d | %d | %.0f |" % (d["property"], c["evaluations"], c["distinct_nontrivial"], d["wall_s"]))
cost = "\n".join(rows)

rows = ["| planted bug | caught by | needs |", "|---|---|---|"]
for f in sorted(glob.glob("seeded/*/meta.json")):
    m = json.load(open(f))
    rows.append("| %s | %s | %s |" % (os.path.basename(os.path.dirname(f)), m["property"], m["needs"].replace("|", "\\|").replace("\n", " ")))
seeds = "\n".join(rows)

text = open("DESIGN.md").read()
for name, table in (("cost", cost), ("seeds", seeds)):
    a, b = "<!-- %s -->" % name, "<!-- end %s -->" % name
    i, j = text.index(a), text.index(b)
    text = text[:i] + a + "\n" + table + "\n" + text[j:]
open("DESIGN.md", "w").write(text)
