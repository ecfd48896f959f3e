#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from tools/props.py."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.path.insert(0, ROOT)
from props import NA, PROPS  # noqa: E402
from punxcheck.rules import RULES  # noqa: E402

with open(os.path.join(ROOT, "properties.jsonl"), "w") as fp:
    for p in PROPS:
        d = {
            "id": p["id"],
            "title": p["title"],
            "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["for"]},
            "why_tests_cant": p["tests"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]},
        }
        assert len(d["title"]) <= 80, d["title"]
        fp.write(json.dumps(d) + "\n")
checks, na = [], []
for p in PROPS:
    if p["id"] in RULES and p["id"] not in NA:
        checks.append({
            "property": p["id"],
            "quick_cmd": "python3 check.py %s" % p["id"],
            "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"],
            "technique": p["technique"],
            "level": "other",
            "level_note": p["note"],
        })
    else:
        na.append({"property": p["id"], "reason": NA.get(p["id"], "no check yet")})
json.dump({
    "version": 1,
    "setup_cmd": "python3 -m py_compile check.py",
    "checks": checks,
    "not_applicable": na,
    "notes": "Static analysis only: see DESIGN.md. No hooks were added to /repo.",
}, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
