"""Rebuilds the table of planted bugs at the end of DESIGN.md (development aid)."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
p = here + "/DESIGN.md"
s = open(p).read()
mark = "| Planted bug |"
head = s[:s.index(mark)] if mark in s else s
rows = ["| Planted bug | Property | Needs | Caught by |", "|---|---|---|---|"]
caught = json.load(open(here + "/seeded/caught.json"))
for d in sorted(os.listdir(here + "/seeded")):
    f = here + "/seeded/" + d + "/meta.json"
    if os.path.exists(f):
        m = json.load(open(f))
        rows.append("| %s | %s | %s | %s |" % (d, m["property"], m["needs"], caught.get(d, "not caught")))
open(p, "w").write(head + "\n".join(rows) + "\n")
