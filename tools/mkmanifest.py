#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the check modules present."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks, na = [], []
NOTE = {}
exec(open(V + "/tools/levels.py").read())
for p in props:
    i = p["id"]
    if os.path.exists(f"{V}/pbt/checks/{i.lower()}.py"):
        tech, note = LEVELS.get(i, ("property-based testing against an independent reference model", "Generated-input search; assurance is that of the cases explored."))
        checks.append(dict(property=i, quick_cmd=f"python3-vt run.py {i} --tier quick", thorough_cmd=f"python3-vt run.py {i} --tier thorough",
                           evidence_file=f"evidence/{i}.json", technique=tech, level="exploration", level_note=note))
    else: na.append(dict(property=i, reason=NA.get(i, "no check built yet")))
m = dict(version=1, setup_cmd="python3-vt tools/setup.py", checks=checks, not_applicable=na,
         notes="Every check compiles the configurations it needs from /repo/src into /verif/build (ignored by git) and drives them with Hypothesis-generated cases. run.py --replay FILE replays a failing case.")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
import jsonschema
if os.path.exists("/root/.vp/MANIFEST.schema.json"): jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
print(len(checks), "checks;", len(na), "not applicable")
