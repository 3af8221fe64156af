#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props_text.py and checks.py (keeps them in step)."""
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.insert(0, HERE + "/tools")
from checks import PROPS
from props_text import TEXT, NOT_APPLICABLE

with open(f"{HERE}/properties.jsonl", "w") as f:
    for pid in sorted(TEXT):
        if pid not in PROPS and pid not in NOT_APPLICABLE:
            continue
        t = TEXT[pid]
        assert len(t["title"]) <= 80, pid
        f.write(json.dumps({"id": pid, "title": t["title"], "statement": t["statement"],
                            "quantifier": {"over": t["over"], "text": t["qtext"]}, "why_tests_cant": t["why"],
                            "anchors": {"files": t["files"], "mechanism": [{"name": a, "where": b} for a, b in t["mech"]],
                                        "observe_at": t.get("observe", []), "hook_needed": None}}) + "\n")
checks = []
for pid in sorted(PROPS):
    t = TEXT[pid]
    checks.append({"property": pid, "quick_cmd": f"python3 run.py {pid} --tier quick",
                   "thorough_cmd": f"python3 run.py {pid} --tier thorough", "technique": t["technique"],
                   "level": "exploration", "level_note": t["note"]})
m = {"version": 1, "setup_cmd": "python3 run.py setup", "checks": checks,
     "not_applicable": [{"property": p, "reason": r} for p, r in sorted(NOT_APPLICABLE.items())]}
with open(f"{HERE}/MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks")
