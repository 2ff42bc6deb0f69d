"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import glob
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = json.load(open(os.path.join(HERE, "tools", "seednotes.json")))
MARK = "## Planted bugs and what catches them"
rows = [MARK, "", "Each is caught by the quick tier of its own property's check (seed 1), unless noted.", "",
        "| planted bug | check | needs | note |", "|---|---|---|---|"]
for f in sorted(glob.glob(os.path.join(HERE, "seeded", "*", "meta.json"))):
    d, i = json.load(open(f)), os.path.basename(os.path.dirname(f))
    rows.append("| %s | %s | %s | %s |" % (i, d["property"], " ".join(d["needs"].split()), NOTES.get(i, "")))
p = os.path.join(HERE, "DESIGN.md")
s = open(p).read()
s = s[:s.find(MARK)] if MARK in s else s.rstrip() + "\n\n"
open(p, "w").write(s + "\n".join(rows) + "\n")
print(len(rows) - 6, "planted bugs")
