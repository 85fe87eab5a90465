#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from plan.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
from plan import PLAN
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
NA = {}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in PLAN:
        k = PLAN[i]
        checks.append({"property": i, "quick_cmd": "python3 run.py %s quick" % i, "thorough_cmd": "python3 run.py %s thorough" % i, "evidence_file": "evidence/%s.json" % i,
            "technique": k["technique"], "level": k.get("level", "exploration"), "level_note": k["note"]})
    else: na.append({"property": i, "reason": NA.get(i, "check not built yet")})
m = {"version": 1, "setup_cmd": "python3 run.py --setup", "hooks": {"guard": "RACRYPT_VERIF", "enable": "no hooks are needed: the checks link the unmodified sources and interpose malloc/free/open/read/close/clock_gettime with the linker", "source_commits": []}, "checks": checks, "not_applicable": na}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
print(len(checks), "checks", len(na), "not claimed")
