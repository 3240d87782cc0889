#!/usr/bin/env python3
"""Writes MANIFEST.json from config.PROPS, config.NOT_APPLICABLE and properties.jsonl."""
import json, config
ids = [json.loads(l)["id"] for l in open("properties.jsonl") if l.strip()]
checks = []
for i in ids:
    p = config.PROPS.get(i)
    if not p:
        assert i in config.NOT_APPLICABLE, i
        continue
    c = {"property": i, "quick_cmd": f"python3 check.py {i}", "thorough_cmd": f"python3 check.py {i} --thorough",
         "technique": p.get("technique", "Verus contracts on functions extracted from /repo on every run; failed obligations replayed natively"),
         "level": p.get("level", "proof"), "level_note": p["note"]}
    if p.get("theorems"):
        c["theorems"] = p["theorems"]
    checks.append(c)
assert set(config.PROPS) <= set(ids), set(config.PROPS) - set(ids)
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks,
     "not_applicable": [{"property": i, "reason": r} for i, r in config.NOT_APPLICABLE.items() if i in ids],
     "notes": "See DESIGN.md. No hooks in /repo: the functions are extracted mechanically from its working tree on every run."}
json.dump(m, open("MANIFEST.json", "w"), indent=1)
