#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of properties and what is built for each."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "bin"))
import props
notes = json.load(open(os.path.join(V, "tools", "levels.json")))
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "bash bin/setup.sh", "checks": [], "not_applicable": [],
     "notes": "Explicit TLA+ specifications (spec/) checked with TLC and bound to the code by trace validation "
              "and replay of TLC behaviours (harness/).  See DESIGN.md."}
if os.path.exists(os.path.join(V, "tools", "hooks.json")):
    m["hooks"] = json.load(open(os.path.join(V, "tools", "hooks.json")))
for i in ids:
    if i in props.CHECKS:
        n = notes.get(i, {})
        m["checks"].append({
            "property": i, "quick_cmd": "bin/check %s quick" % i, "thorough_cmd": "bin/check %s thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": n.get("technique", "TLA+ specification checked with TLC; traces of the real code validated against it"),
            "level": "model_checking", "level_note": n.get("note", "")})
    else:
        m["not_applicable"].append({"property": i, "reason": notes.get(i, {}).get("na", "the check is not built yet")})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
