#!/usr/bin/env python3
"""writes MANIFEST.json from the property modules that exist and tools/notes.json"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
notes = json.load(open(os.path.join(V, "tools", "notes.json")))
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl")) if l.strip()]
checks, na = [], []
for i in ids:
    if os.path.exists(os.path.join(V, "props", i.lower() + ".py")):
        n = notes[i]
        checks.append({"property": i, "quick_cmd": "python3-vt check.py " + i,
                       "thorough_cmd": "python3-vt check.py %s --tier thorough" % i,
                       "evidence_file": "evidence/%s.json" % i,
                       "technique": n["technique"], "level": n.get("level", "exploration"),
                       "level_note": n["note"]})
    else:
        na.append({"property": i, "reason": "check not built yet"})
json.dump({"version": 1, "setup_cmd": "python3-vt check.py --selftest", "checks": checks, "not_applicable": na,
           "notes": "All checks are generated-input searches (Hypothesis) against explicit oracles; see DESIGN.md. "
                    "No hooks are added to /repo."}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
