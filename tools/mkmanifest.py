#!/usr/bin/env python3
"""Writes MANIFEST.json from checks/config.py and properties.jsonl."""
import json, os, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, root)
from checks.config import CHECKS
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
checks, na = [], []
for p in props:
    c = CHECKS.get(p["id"])
    if not c:
        na.append({"property": p["id"], "reason": "no check has been built for it yet"})
        continue
    checks.append({
        "property": p["id"],
        "quick_cmd": f"python3 run.py {p['id']} --tier quick",
        "thorough_cmd": f"python3 run.py {p['id']} --tier thorough",
        "evidence_file": f"evidence/{p['id']}.json",
        "technique": c.get("technique", "property-based testing: generated inputs against an independent oracle, with shrinking and replay"),
        "level": "exploration",
        "level_note": c.get("note", "Every generated case is decided by an explicit oracle under AddressSanitizer and UBSan; assurance is that of the search, bounded by the generators' size limits stated in DESIGN.md; trusts the oracle code in /verif, the compiler, sanitizers and simdjson."),
    })
m = {"version": 1, "setup_cmd": "python3 run.py --self-check", "checks": checks, "not_applicable": na,
     "notes": "No hooks are compiled into /repo: every check drives the public API built from /repo's sources with its own flags. Genuine defects repaired in /repo are the commits starting 'fix:', listed in known_findings.txt."}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
