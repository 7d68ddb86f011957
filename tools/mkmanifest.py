#!/usr/bin/env python3
"""Writes MANIFEST.json from lib/props.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
sys.dont_write_bytecode = True
import props
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "./setup", "checks": [], "not_applicable": []}
for i in ids:
    if i in props.PROPS:
        t, note = props.NOTES[i]
        m["checks"].append({"property": i, "quick_cmd": "./check %s quick" % i, "thorough_cmd": "./check %s thorough" % i,
                            "evidence_file": "evidence/%s.json" % i, "technique": t, "level": props.PROPS[i][1],
                            "level_note": note})
    else:
        m["not_applicable"].append({"property": i, "reason": props.NA.get(i, "not built yet")})
m["notes"] = "TLA+ specification in spec/, checked with TLC; see DESIGN.md. No hooks in /repo: only 'fix:' commits."
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
