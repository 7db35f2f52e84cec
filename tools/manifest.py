"""Source of MANIFEST.json: python3 tools/manifest.py > MANIFEST.json"""
import json
import os

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(x) for x in open(os.path.join(here, "properties.jsonl"))]
TECH = {}
exec(open(os.path.join(here, "tools", "technique.py")).read())
checks, na = [], []
for p in props:
    pid = p["id"]
    f = os.path.join(here, "checks", pid.lower() + ".py")
    if pid in NOT_APPLICABLE:
        na.append({"property": pid, "reason": NOT_APPLICABLE[pid]})
    elif os.path.exists(f) and pid in TECH:
        checks.append({
            "property": pid,
            "quick_cmd": f"./run.sh {pid}",
            "thorough_cmd": f"VERIF_TIER=thorough ./run.sh {pid}",
            "technique": "runtime monitoring: " + TECH[pid],
            "level": "exploration",
            "level_note": NOTE,
        })
    else:
        na.append({"property": pid,
                   "reason": "the check for it has not been built yet"})
print(json.dumps({"version": 1, "setup_cmd": "./run.sh SELF",
                  "checks": checks, "not_applicable": na}, indent=1))
