#!/usr/bin/env python3
"""Developer helper: writes properties.jsonl and MANIFEST.json from tools/props.py (both are committed)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(__file__))
from props import P
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(root + "/properties.jsonl", "w") as f:
    for p in P:
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": p["mech"]}}, ensure_ascii=False) + "\n")
        assert len(p["title"]) <= 80, p["id"]
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [], "not_applicable": []}
for p in P:
    if "na" in p:
        m["not_applicable"].append({"property": p["id"], "reason": p["na"]})
    else:
        m["checks"].append({"property": p["id"], "quick_cmd": p.get("quick", f"bash check.sh {p['id']}"),
            "thorough_cmd": p.get("thorough", f"VERIF_TIER=thorough bash check.sh {p['id']}"),
            "technique": p["tech"], "level": p.get("level", "exploration"), "level_note": p["note"]})
json.dump(m, open(root + "/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
