#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json.
missed.txt in tools lists those no check sees."""
import glob, json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| planted bug | caught by | needs |", "| --- | --- | --- |"]
extra = {}
p = os.path.join(root, "tools", "caughtby.json")
if os.path.exists(p):
    extra = json.load(open(p))
for d in sorted(glob.glob(os.path.join(root, "seeded", "*"))):
    m = json.load(open(os.path.join(d, "meta.json")))
    i = os.path.basename(d)
    rows.append("| %s: %s | %s | %s |" % (i, m["what_it_breaks"].replace("|", "\\|"), extra.get(i, m["property"]), m["needs"].replace("|", "\\|")))
f = os.path.join(root, "DESIGN.md")
t = open(f).read()
new = "<!-- seeds -->\n" + "\n".join(rows) + "\n<!-- end -->"
if "SEEDTABLE" in t:
    t = t.replace("SEEDTABLE", new)
else:
    t = re.sub(r"<!-- seeds -->.*<!-- end -->", lambda _: new, t, flags=re.S)
open(f, "w").write(t)
