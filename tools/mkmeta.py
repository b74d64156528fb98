#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(here)
sys.path.insert(0, here)
from props import P
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                            "quantifier": {"over": p["over"], "text": p["quant"]}, "why_tests_cant": p["why"],
                            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}}) + "\n")
        assert all(os.path.exists(os.path.join("/repo", x)) for x in p["files"] + [w for _, w in p["mech"]]), p["id"]
        assert len(p["title"]) <= 80, p["id"]
        assert p["statement"].count(". ") <= 2, (p["id"], p["statement"].count(". "))
M = {"version": 1, "setup_cmd": "true",
     "checks": [{"property": p["id"], "quick_cmd": "python3 check.py %s" % p["id"], "thorough_cmd": "python3 check.py %s --thorough" % p["id"],
                 "technique": p["technique"], "level": p.get("level", "model_checking"), "level_note": p["note"]} for p in P],
     "not_applicable": []}
json.dump(M, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties")
