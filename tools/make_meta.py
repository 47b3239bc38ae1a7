#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from tools/props.py for the checks that exist."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from props import PROPS
have = [p for p in PROPS if os.path.exists(os.path.join(ROOT, "checks", p["id"].lower() + ".py"))]
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in have:
        assert len(p["title"]) <= 80, p["title"]
        o = {"id": p["id"], "title": p["title"], "statement": p["statement"],
             "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
             "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                         "observe_at": p["observe"], "hook_needed": None}}
        f.write(json.dumps(o) + "\n")
checks = []
for p in have:
    checks.append({"property": p["id"], "quick_cmd": "python3-vt run.py %s --tier quick" % p["id"],
                   "thorough_cmd": "python3-vt run.py %s --tier thorough" % p["id"],
                   "evidence_file": "evidence/%s.json" % p["id"], "technique": p["technique"], "level": "exploration",
                   "level_note": "Held on all generated cases; not a proof. " + p["note"]})
m = {"version": 1, "setup_cmd": "python3-vt -c 'import sys; assert sys.version_info >= (3, 8)'", "checks": checks,
     "not_applicable": [], "notes": "No hooks in /repo. run.py imports /repo's working tree directly; nothing is "
     "built. A failing case is shrunk to a short list of choices in evidence/replay/<id>.json and replayed with "
     "run.py <id> --replay FILE."}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(have), "properties")
