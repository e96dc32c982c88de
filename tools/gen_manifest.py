#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl; NOTES says what each claimed check explores."""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = json.load(open(os.path.join(R, "tools/levels.json")))
ids = [json.loads(l)["id"] for l in open(os.path.join(R, "properties.jsonl"))]
checks = []
for i in ids:
    if i not in NOTES: continue
    n = NOTES[i]
    checks.append(dict(property=i, quick_cmd=f"bash check.sh {i}", thorough_cmd=f"bash check.sh {i} thorough", technique=n["technique"], level=n.get("level", "model_checking"), level_note=n["note"]))
m = dict(version=1, setup_cmd="bash check.sh setup", checks=checks,
         not_applicable=[dict(property=i, reason="check not built yet") for i in ids if i not in NOTES],
         notes="No hooks: the explorers drive the public API of /repo's crates, rebuilt from the working tree on every run.")
json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks")
