"""tools/fixed.py PID COMMIT-ISH TEXT : record a repaired defect in known_findings.json"""
import json, sys, subprocess, os
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
k = json.load(open(p))
h = subprocess.check_output(["git", "-C", "/repo", "rev-parse", "--short", sys.argv[2]]).decode().strip()
k.append({"property": sys.argv[1], "status": "fixed", "note": "fixed: property=%s %s %s" % (sys.argv[1], h, sys.argv[3])})
json.dump(k, open(p, "w"), indent=1)
