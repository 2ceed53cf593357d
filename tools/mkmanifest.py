#!/usr/bin/env python3
"""writes MANIFEST.json from checks.py and properties.jsonl"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks import CHECKS, NOT_APPLICABLE
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
ids = [p["id"] for p in props]
checks, na = [], []
for i in ids:
    if i in CHECKS:
        c = CHECKS[i]
        checks.append({"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": c["technique"], "level": c["level"], "level_note": c["note"]})
    else:
        na.append({"property": i, "reason": NOT_APPLICABLE.get(i, "no check has been built for it yet")})
for i in CHECKS:
    assert i in ids, i
m = {"version": 1, "setup_cmd": "python3 -c 'import sys; sys.path.insert(0, \".\"); import check; sys.exit(check.setup())'",
     "hooks": {"guard": "none", "enable": "no hooks: the checks compile the unmodified sources of /repo and interpose at link time", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "Explicit exploration of the real code: every check forks or loops over all executions of small closed harnesses (see DESIGN.md)."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
