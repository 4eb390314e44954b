#!/opt/venv/bin/python
"""Writes /verif/MANIFEST.json from the check modules that exist and properties.jsonl."""
import importlib
import json
import os
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if not os.path.exists(V + "/sim/props/%s.py" % i.lower()):
        na.append({"property": i, "reason": "no check registered yet"})
        continue
    m = importlib.import_module("sim.props." + i.lower())
    checks.append({"property": i, "quick_cmd": "./check.py %s --tier quick" % i, "thorough_cmd": "./check.py %s --tier thorough" % i,
                   "evidence_file": "evidence/%s.json" % i, "technique": m.TECHNIQUE, "level": m.LEVEL, "level_note": m.NOTE})
out = {"version": 1, "setup_cmd": "./tools/setup.sh", "checks": checks, "not_applicable": na,
       "notes": "Every check runs the simulator of /verif/sim on capybara imported from /repo's working tree; nothing is built. "
                "No hooks were needed in /repo: all seams are the module attributes of the libraries capybara calls (see DESIGN.md)."}
json.dump(out, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
print(len(checks), "checks,", len(na), "not applicable")
