#!/usr/bin/env python3
"""table.py: the table of planted bugs in DESIGN.md, from seeded/*/meta.json"""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ONLY = {"c19-second-file": "obligation"}
rows = ["| bug | needs | caught by its property's check with |", "|---|---|---|"]
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    i, m = f.split("/")[-2], json.load(open(f))
    rows.append("| %s | %s | %s |" % (i, m["needs"].replace("|", "/").split(". ")[0], ONLY.get(i, "input")))
p = V + "/DESIGN.md"
s = open(p).read()
t = "<!-- table -->\n" + "\n".join(rows) + "\n<!-- /table -->"
s = s.replace("@@TABLE@@", t) if "@@TABLE@@" in s else re.sub(r"<!-- table -->.*<!-- /table -->", lambda _: t, s, flags=re.S)
open(p, "w").write(s)
