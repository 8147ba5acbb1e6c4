#!/usr/bin/env python3
"""Generates properties.jsonl, checks.json and MANIFEST.json from spec.py (one place to edit)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from spec import PROPS, NA
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(H, "properties.jsonl"), "w") as f:
    for p in PROPS + NA:
        f.write(json.dumps({k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}) + "\n")
ch = {}
man = {"version": 1, "setup_cmd": "python3 run.py --setup", "checks": [], "not_applicable": []}
for p in PROPS:
    ch[p["id"]] = {"rules": p["rules"], "plookup": p.get("plookup", False), "explanation": p["explanation"], "assumptions": p["assumptions"]}
    man["checks"].append({
        "property": p["id"],
        "quick_cmd": "python3 run.py --property %s --tier quick" % p["id"],
        "thorough_cmd": "python3 run.py --property %s --tier thorough" % p["id"],
        "technique": p["technique"], "level": "other", "level_note": p["level_note"]})
for p in NA:
    man["not_applicable"].append({"property": p["id"], "reason": p["reason"]})
json.dump(ch, open(os.path.join(H, "checks.json"), "w"), indent=1)
json.dump(man, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
ids = [p["id"] for p in PROPS + NA]
assert len(ids) == len(set(ids))
for p in PROPS + NA:
    assert len(p["title"]) <= 80, p["id"]
    assert p["statement"].count(". ") <= 2, p["id"]
