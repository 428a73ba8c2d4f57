#!/usr/bin/env python3
# MANIFEST.json from plan.py + properties.jsonl
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from plan import PLAN
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [], "not_applicable": []}
for i in ids:
    if i in PLAN:
        p = PLAN[i]
        m["checks"].append({"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
                            "technique": p["technique"], "level": p["level"], "level_note": p["note"]})
    else:
        m["not_applicable"].append({"property": i, "reason": "check not built yet"})
m["notes"] = "No hooks in /repo: every monitor observes the public API, the process, the system calls or the file bytes. The commits in /repo are repairs of defects (known-findings.txt)."
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
