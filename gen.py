#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from checks_cfg.py (the single catalogue)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from checks_cfg import CHECKS, NOT_APPLICABLE

V = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for i, c in list(CHECKS.items()) + list(NOT_APPLICABLE.items()):
        assert len(c["title"]) <= 80, (i, len(c["title"]))
        f.write(json.dumps({
            "id": i, "title": c["title"], "statement": c["statement"],
            "quantifier": {"over": c["over"], "text": c["quant"]}, "why_tests_cant": c["why"],
            "anchors": {"files": c["files"], "mechanism": [{"name": n, "where": w} for n, w in c["mech"]]}}) + "\n")
m = {"version": 1, "setup_cmd": "python3 vp.py --setup",
     "checks": [{"property": i, "quick_cmd": f"python3 vp.py {i} --tier quick",
                 "thorough_cmd": f"python3 vp.py {i} --tier thorough", "evidence_file": f"evidence/{i}.json",
                 "technique": c["technique"], "level": c["level"], "level_note": c["note"]} for i, c in CHECKS.items()],
     "not_applicable": [{"property": i, "reason": c["reason"]} for i, c in NOT_APPLICABLE.items()],
     "notes": "All checks enumerate bounded spaces on the real code; see DESIGN.md for alphabets, bounds and oracles."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
import jsonschema  # noqa
for l in open(os.path.join(V, "properties.jsonl")):
    jsonschema.validate(json.loads(l), json.load(open("/root/.vp/PROPERTIES.schema.json")))
jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
for i, c in CHECKS.items():
    for p in c["files"] + [w for _, w in c["mech"]]:
        assert os.path.exists("/repo/" + p), (i, p)
print(len(CHECKS), "checks")
