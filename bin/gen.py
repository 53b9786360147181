#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from checks/props.py and checks/registry.py."""
import json
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "checks"))
sys.dont_write_bytecode = True
from props import PROPS, NOT_APPLICABLE  # noqa: E402
from registry import CHECKS  # noqa: E402

for p in PROPS:
    assert len(p["title"]) <= 80, p["id"]
    for f in p["anchors"]["files"]:
        assert os.path.exists(os.path.join("/repo", f)), (p["id"], f)
with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
    for p in PROPS:
        f.write(json.dumps(p) + "\n")
checks = []
for p in PROPS:
    c = CHECKS.get(p["id"])
    if c is None:
        assert p["id"] in NOT_APPLICABLE, p["id"]
        continue
    assert p["id"] not in NOT_APPLICABLE, p["id"]
    checks.append({
        "property": p["id"],
        "quick_cmd": "python3 bin/check.py %s quick" % p["id"],
        "thorough_cmd": "python3 bin/check.py %s thorough" % p["id"],
        "technique": c["technique"],
        "level": c.get("level", "exploration"),
        "level_note": c["note"],
    })
with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
    json.dump({"version": 1, "setup_cmd": "python3 bin/setup.py", "checks": checks,
               "not_applicable": [{"property": k, "reason": v} for k, v in NOT_APPLICABLE.items()],
               "notes": "See DESIGN.md. Every check compiles its harness together with /repo's current sources under g++ with sanitizers in a scratch folder under /tmp."}, f, indent=1)
    f.write("\n")
