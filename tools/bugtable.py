"""Rewrite the planted-bug table at the end of DESIGN.md from seeded/*/meta.json and tools/caught.json."""
import glob
import json
import os

root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
caught = json.load(open(root + "/tools/caught.json"))
rows = ["| bug | property | needs | breaks | caught by |", "|---|---|---|---|---|"]
for d in sorted(glob.glob(root + "/seeded/*/meta.json")):
    i = os.path.basename(os.path.dirname(d))
    m = json.load(open(d))
    rows.append("| %s | %s | %s | %s | %s |" % (i, m["property"], m["needs"], m["what_it_breaks"], caught.get(i, "?")))
s = open(root + "/DESIGN.md").read()
k = "<!-- bug table -->\n"
if k in s:
    s = s[:s.index(k)]
open(root + "/DESIGN.md", "w").write(s.rstrip("\n") + "\n\n" + k + "\n".join(rows) + "\n")
