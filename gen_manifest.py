#!/usr/bin/env python3
"""Writes MANIFEST.json from jobs.py and properties.jsonl."""
import json, os
import jobs
H = os.path.dirname(os.path.abspath(__file__))
ids = [json.loads(l)["id"] for l in open(os.path.join(H, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    s = jobs.PROPERTIES.get(i)
    if not s:
        na.append({"property": i, "reason": jobs.NOT_APPLICABLE.get(i, "check not built yet")})
        continue
    checks.append({"property": i,
                   "quick_cmd": "python3 run.py --property %s --tier quick" % i,
                   "thorough_cmd": "python3 run.py --property %s --tier thorough" % i,
                   "evidence_file": "evidence/%s.json" % i,
                   "technique": s.get("technique", "runtime monitoring of the real headers under randomised histories, with ASan/UBSan"),
                   "level": s["level"],
                   "level_note": s.get("note", "Held on every execution observed; reach is bounded by the generated workloads and the configurations listed in the evidence.")})
m = {"version": 1, "setup_cmd": "python3 -c 'import jobs' && g++ --version > /dev/null", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
