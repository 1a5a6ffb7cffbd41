#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.json and properties.jsonl."""
import json, os
D = os.path.dirname(os.path.abspath(__file__))
checks = json.load(open(D + "/checks.json"))
props = [json.loads(l) for l in open(D + "/properties.jsonl") if l.strip()]
out = {"version": 1, "setup_cmd": "python3 mc/build.py -v", "checks": [], "not_applicable": [],
       "notes": "No hooks in /repo: the checks compile /repo's sources with -fsanitize=thread instrumentation and provide the run-time (scheduler, monitor, allocator, BLAS footprints) themselves; see DESIGN.md."}
for p in props:
    c = checks.get(p["id"])
    if not c: out["not_applicable"].append({"property": p["id"], "reason": "the check is not built yet"}); continue
    if "na" in c: out["not_applicable"].append({"property": p["id"], "reason": c["na"]}); continue
    out["checks"].append({"property": p["id"], "quick_cmd": "python3 check.py %s --tier quick" % p["id"], "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"],
        "technique": c["technique"], "level": c["level"], "level_note": c["level_note"]})
json.dump(out, open(D + "/MANIFEST.json", "w"), indent=1)
