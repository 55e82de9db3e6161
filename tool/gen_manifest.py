#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tool"))
import checks
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1,
     "setup_cmd": "bash setup.sh",
     "checks": [], "not_applicable": [],
     "notes": "TLA+ specifications in spec/, checked with TLC; the Rust harness in harness/ drives /repo's crates and records observations, which TLC validates against the specifications. See DESIGN.md."}
for i in ids:
    if i in checks.CHECKS:
        t, n = checks.NOTES[i]
        m["checks"].append({"property": i, "quick_cmd": "python3 check.py " + i,
                            "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i,
                            "technique": t, "level": "model_checking", "level_note": n})
    else:
        m["not_applicable"].append({"property": i, "reason": checks.NOT_APPLICABLE.get(i, "not built yet")})
m["hooks"] = checks.HOOKS
if not m["hooks"]:
    del m["hooks"]
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
