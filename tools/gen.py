#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the one table in tools/props.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(__file__))
from props import PROPS, NOT_APPLICABLE
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in PROPS:
        f.write(json.dumps(dict(
            id=p["id"], title=p["title"], statement=p["statement"],
            quantifier=dict(over=p["over"], text=p["quant"]),
            why_tests_cant=p["why"],
            anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]],
                         observe_at=p.get("observe", []), hook_needed=None))) + "\n")
import re
def level(p):
    return re.search(r"^LEVEL = .(\w+).", open(os.path.join(root, "mc", p["id"].lower() + ".py")).read(), re.M).group(1)
checks = []
for p in PROPS:
    if os.path.exists(os.path.join(root, "mc", p["id"].lower() + ".py")):
        checks.append(dict(property=p["id"], quick_cmd=f"./run.sh {p['id']} quick", thorough_cmd=f"./run.sh {p['id']} thorough",
                           technique=p["technique"], level=level(p), level_note=p["note"]))
na = list(NOT_APPLICABLE)
for p in PROPS:
    if not any(c["property"] == p["id"] for c in checks):
        na.append(dict(property=p["id"], reason="check not built yet"))
with open(os.path.join(root, "MANIFEST.json"), "w") as f:
    json.dump(dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
                   hooks=dict(guard="none", enable="no hooks are needed: the checks drive /repo's code as it is", source_commits=[]),
                   notes="All checks execute the real code in /repo; see DESIGN.md."), f, indent=1)
print(len(checks), "checks,", len(na), "not claimed")
