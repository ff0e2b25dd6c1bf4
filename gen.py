#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from meta.py and props.py."""
import json, os
from meta import PROPERTIES, NOT_APPLICABLE, HOOKS, NOTES
from props import PROPS
V = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in PROPERTIES:
        f.write(json.dumps({k: v for k, v in p.items() if k not in ("technique", "level_note")}) + "\n")
ids = {p["id"]: p for p in PROPERTIES}
checks = []
for i in sorted(PROPS):
    p = ids[i]
    checks.append({"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
                   "evidence_file": "evidence/%s.json" % i, "technique": p["technique"], "level": PROPS[i]["level"], "level_note": p["level_note"]})
na = [{"property": i, "reason": NOT_APPLICABLE.get(i, "check not built yet")} for i in sorted(ids) if i not in PROPS]
m = {"version": 1, "setup_cmd": "python3 build.py asan tsim", "checks": checks, "not_applicable": na, "notes": NOTES}
if HOOKS:
    m["hooks"] = HOOKS
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
print(len(ids), "properties,", len(checks), "checks")
