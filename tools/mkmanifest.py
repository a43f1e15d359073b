"""Writes MANIFEST.json: a property is claimed when checks/cNN.py exists."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {}
exec(open(os.path.join(H, "tools/na.py")).read())
TECH = {}
exec(open(os.path.join(H, "tools/tech.py")).read())
ids = [json.loads(l)["id"] for l in open(os.path.join(H, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    s = "checks/%s.py" % i.lower()
    if os.path.exists(os.path.join(H, s)):
        t, lvl, note = TECH[i]
        checks.append({"property": i, "quick_cmd": "python3-vt %s --quick" % s, "thorough_cmd": "python3-vt %s --thorough" % s,
                       "technique": t, "level": lvl, "level_note": note})
    else:
        na.append({"property": i, "reason": NA.get(i, "no check built yet")})
json.dump({"version": 1, "setup_cmd": "python3-vt tools/setup.py", "checks": checks, "not_applicable": na},
          open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed;", [x["property"] for x in na])
