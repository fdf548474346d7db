#!/usr/bin/env python3
"""Writes contracts/baseline.json: what the contracts were written for. A
failed obligation in a function that has since changed its loops, or calls
functions without a contract, decides nothing (see check.py)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
log = {}
ok, uci, err = check.build(log)
assert ok and uci, err[-2000:]
d = os.path.join(check.WORK, "baseline")
os.makedirs(d, exist_ok=True)
base = {}
for name in ("codec", "emu"):
    p = check.Proof(name, d, uci, log)
    o, m = p.extract([])
    assert m, p.broken
    for f in m["fns"]:
        if f["key"].startswith("packets::uci::") and name == "emu" and f["status"] == "trusted":
            continue
        tags = set((f.get("tags") or "").split())
        for c in m["clauses"]:
            if c[1] == f["key"]:
                tags |= set(c[3].split())
        base[f["key"]] = {"loops": f["loops"], "headers": f["headers"], "hash": f["hash"], "tags": " ".join(sorted(tags)), "missing": f["missing"]}
json.dump(base, open(os.path.join(check.VERIF, "contracts", "baseline.json"), "w"), indent=0, sort_keys=True)
print(len(base), "functions")
