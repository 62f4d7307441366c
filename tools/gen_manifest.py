#!/usr/bin/env python3
"""Writes MANIFEST.json. CHECKED lists the claimed properties with what each check gives and assumes."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "model checking: exhaustive bounded enumeration of inputs through the real code, compared with an executable reference model"
ASSUME = " Assumes the reference model (harness/src/r) states the GraphQL specification correctly, and that a defect shows within the stated bounds (small-scope hypothesis)."
CHECKED = {}
exec(open(os.path.join(root, "tools", "checked.py")).read())
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "./build.sh", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in CHECKED:
        m["checks"].append({"property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough",
            "evidence_file": f"evidence/{i}.json", "technique": TECH, "level": "model_checking", "level_note": CHECKED[i] + ASSUME})
    else:
        m["not_applicable"].append({"property": i, "reason": NOT.get(i, "No check has been built for this property.")})
m["notes"] = "No hooks: every check uses the crates' public API through a path dependency (harness/Cargo.toml)."
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
print(len(m["checks"]), "claimed,", len(m["not_applicable"]), "not")
