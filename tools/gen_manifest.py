"""Write MANIFEST.json from the table of implemented checks."""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "harness"))
TECH = {}
src = open(os.path.join(V, "harness/run.py")).read()
ns = {}
exec(src[src.index("TABLE = {"):src.index("def run")], ns)
props = [json.loads(x)["id"] for x in open(os.path.join(V, "properties.jsonl"))]
NOTE = {}
exec(open(os.path.join(V, "tools/notes.py")).read())
checks = []
for p in props:
    if p not in ns["TABLE"]:
        continue
    checks.append({
        "property": p,
        "quick_cmd": f"bin/check {p} --tier quick",
        "thorough_cmd": f"bin/check {p} --tier thorough",
        "technique": NOTE[p][0],
        "level": "model_checking",
        "level_note": NOTE[p][1],
    })
m = {"version": 1, "setup_cmd": "bin/setup", "checks": checks,
     "not_applicable": [{"property": p, "reason": "check not built yet"} for p in props
                        if p not in ns["TABLE"]],
     "notes": "TLA+ specifications in spec/, checked by TLC; bin/check generates behaviours from them, "
              "replays them on the code in /repo and validates the recorded traces against the "
              "specification with TLC. No hooks in /repo: observation is through public objects."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
