#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks present in engine/checks and the property list."""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(R, "tools"))
from manifest_data import TECH, NA, NOTES
ids = [json.loads(l)["id"] for l in open(os.path.join(R, "properties.jsonl"))]
checks = []
for i in ids:
    if i in NA or not os.path.exists(os.path.join(R, "engine", "checks", i.lower() + ".py")):
        continue
    t, note = TECH[i]
    checks.append({"property": i, "quick_cmd": "bin/check " + i, "thorough_cmd": "bin/check %s --thorough" % i,
                   "technique": t, "level": "other", "level_note": note})
done = {c["property"] for c in checks}
na = [{"property": i, "reason": NA.get(i, "no check built yet")} for i in ids if i not in done]
m = {"version": 1, "setup_cmd": "bin/setup", "checks": checks, "not_applicable": na, "notes": NOTES}
json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
