#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from the catalogue."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(HERE, "tools"))
from props import P
with open(os.path.join(HERE, "properties.jsonl"), "w") as fh:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        fh.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]}}) + "\n")
man = {"version": 1, "setup_cmd": "python3 -B -c \"import sys; assert sys.version_info >= (3, 10)\"",
       "checks": [{"property": p["id"], "quick_cmd": f"python3 -B check.py --property {p['id']} --tier quick",
                   "thorough_cmd": f"python3 -B check.py --property {p['id']} --tier thorough",
                   "technique": p["technique"], "level": "other", "level_note": p["note"]} for p in P if p["na"] is None],
       "not_applicable": [{"property": p["id"], "reason": p["na"]} for p in P if p["na"] is not None],
       "notes": "Pure static analysis with the Python standard library; no hooks in /repo. known-findings.txt lists repaired and recorded defects."}
json.dump(man, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
