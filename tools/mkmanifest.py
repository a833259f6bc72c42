#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table in properties_data.py."""
import json, os, sys
sys.dont_write_bytecode = True
D = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(D, "tools"))
sys.path.insert(0, os.path.join(D, "lib"))
from properties_data import PROPS, NOT_APPLICABLE, NOTES
import registry

with open(os.path.join(D, "properties.jsonl"), "w") as f:
    for p in PROPS:
        f.write(json.dumps({k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}, ensure_ascii=False) + "\n")
checks = []
for p in PROPS:
    if p["id"] in registry.TABLE:
        checks.append({"property": p["id"],
                       "quick_cmd": f"python3 check.py {p['id']} --tier quick",
                       "thorough_cmd": f"python3 check.py {p['id']} --tier thorough",
                       "technique": p["technique"], "level": p.get("level", "other"), "level_note": p["level_note"]})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks,
     "not_applicable": [{"property": k, "reason": v} for k, v in NOT_APPLICABLE.items()], "notes": NOTES}
json.dump(m, open(os.path.join(D, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
missing = [p["id"] for p in PROPS if p["id"] not in registry.TABLE and p["id"] not in NOT_APPLICABLE]
print("properties", len(PROPS), "checks", len(checks), "without check:", missing)
