#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py."""
import json, os
from props import PROPS
here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for pid, p in PROPS.items():
        assert len(p["title"]) <= 80, (pid, len(p["title"]))
        f.write(json.dumps({"id": pid, "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]},
                            "why_tests_cant": p["why"], "anchors": {"files": p["anchors"], "mechanism": [{"name": a, "where": b} for a, b in p["mechanism"]]}}) + "\n")
m = {"version": 1, "setup_cmd": "python3 check.py --setup",
     "checks": [{"property": pid, "quick_cmd": "python3 check.py %s quick" % pid, "thorough_cmd": "python3 check.py %s thorough" % pid,
                 "technique": p["technique"], "level": p["level"], "level_note": p["note"]} for pid, p in PROPS.items()],
     "not_applicable": []}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
