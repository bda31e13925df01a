#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from lib/catalog.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from lib import catalog, props

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in catalog.PROPS:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                        "observe_at": p["observe"], "hook_needed": None}}) + "\n")
        assert len(p["title"]) <= 80, p["id"]
man = {"version": 1, "setup_cmd": "python3 setup.py", "checks": [], "not_applicable": []}
for p in catalog.PROPS:
    i = p["id"]
    if i in props.CHECKS:
        c = props.CHECKS[i]
        man["checks"].append({"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i,
                              "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                              "technique": c.technique, "level": c.level, "level_note": c.note})
    else:
        man["not_applicable"].append({"property": i, "reason": p.get("na", "no check yet")})
json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
