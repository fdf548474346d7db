#!/usr/bin/env python3
"""Writes MANIFEST.json: python3 tools/manifest.py [PROPERTY...] (all by default)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl")) if l.strip()]
NOTE = json.load(open(os.path.join(V, "tools", "levels.json")))
want = sys.argv[1:] or props
checks = []
for p in props:
    if p not in want:
        continue
    lv, note = NOTE.get(p, NOTE["default"])
    checks.append({
        "property": p,
        "quick_cmd": "python3 tools/check.py %s" % p,
        "thorough_cmd": "python3 tools/check.py %s --tier thorough" % p,
        "technique": "contract-based deductive verification of the extracted source with Verus, with a bounded replay driver on the real crate",
        "level": lv,
        "level_note": note,
    })
na = [{"property": p, "reason": "check under construction"} for p in props if p not in want]
json.dump({"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
