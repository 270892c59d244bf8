#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables in tools/props.py."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from props import PROPS, NOTES
root = os.path.dirname(here)
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in PROPS:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["for"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"],
                        "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                        "observe_at": p.get("observe", []), "hook_needed": None},
        }, ensure_ascii=False) + "\n")
checks, na = [], []
for p in PROPS:
    assert len(p["title"]) <= 80, p["id"]
    if "check" in p:
        t, level, note = p["check"]
        checks.append({"property": p["id"], "quick_cmd": f"bash check.sh {p['id']}",
                       "thorough_cmd": f"bash check.sh {p['id']}",
                       "evidence_file": f"evidence/{p['id']}.json",
                       "technique": t, "level": level, "level_note": note})
    else:
        na.append({"property": p["id"], "reason": p["na"]})
json.dump({"version": 1, "setup_cmd": "bash setup.sh",
           "hooks": {"guard": "none: no hooks were added to the repository", "enable": "nothing to enable", "source_commits": []},
           "checks": checks, "not_applicable": na, "notes": NOTES},
          open(os.path.join(root, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
