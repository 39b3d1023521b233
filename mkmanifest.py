"""Writes MANIFEST.json: every property with a module in sim/props is claimed."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
NOTE = {}
exec(open(os.path.join(here, "notes.py")).read())
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in NA:
        na.append(dict(property=i, reason=NA[i]))
    elif os.path.exists(os.path.join(here, "sim/props/%s.py" % i.lower())):
        checks.append(dict(property=i, quick_cmd="bash bin/check check %s quick" % i, thorough_cmd="bash bin/check check %s thorough" % i,
                           technique=TECH[i], level="exploration", level_note=NOTE[i]))
    else:
        na.append(dict(property=i, reason="check not built yet"))
m = dict(version=1, setup_cmd="bash bin/setup", checks=checks, not_applicable=na, notes="See DESIGN.md. No hooks in /repo: every seam is an existing one (Var subclasses, module attributes, ctypes library handles).")
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed;", [x["property"] for x in na])
