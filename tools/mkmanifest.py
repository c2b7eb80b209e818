"""Write MANIFEST.json from the checks that exist."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
TECH = {}
NOTE = {}
exec(open(os.path.join(V, "tools", "notes.py")).read())
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "checks", i + ".py")):
        checks.append({"property": i, "quick_cmd": "./run.sh %s quick" % i, "thorough_cmd": "./run.sh %s thorough" % i,
                       "technique": TECH.get(i, DEFAULT_TECH), "level": "exploration",
                       "level_note": NOTE.get(i, DEFAULT_NOTE)})
    else:
        na.append({"property": i, "reason": NA.get(i, "no check has been built yet")})
m = {"version": 1, "setup_cmd": "tools/setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks were needed in /repo: every monitor sits at the public API, on the arguments and on the "
              "communicator. Exit 3 means inconclusive."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", [x["property"] for x in na])
