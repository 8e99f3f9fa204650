#!/usr/bin/env python3
# Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json.
import glob, json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for m in sorted(glob.glob(os.path.join(ROOT, "seeded", "*", "meta.json"))):
    d = json.load(open(m))
    what = d["what_it_breaks"].strip().replace("\n", " ").replace("|", "/")
    rows.append("| %s | %s | %s |" % (os.path.basename(os.path.dirname(m)), d["property"], what))
text = "<!-- BEGIN planted -->\n| planted bug | caught by | what it breaks |\n| --- | --- | --- |\n" + "\n".join(rows) + "\n<!-- END planted -->"
p = os.path.join(ROOT, "DESIGN.md")
s = open(p).read()
a, rest = s.split("<!-- BEGIN planted -->")
b = rest.split("<!-- END planted -->")[1]
open(p, "w").write(a + text + b)
