#!/usr/bin/env python3
import json, os, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, root)
from plan import PROPS, NOT_APPLICABLE
ids = [json.loads(l)["id"] for l in open(root + "/properties.jsonl")]
m = {"version": 1, "setup_cmd": "python3 -c \"import os; os.makedirs('build', exist_ok=True)\"",
     "hooks": {"guard": "none", "enable": "no hooks in /repo: the seam is the C library interface, whose symbols are renamed with objcopy in objects built under /verif/build", "source_commits": []},
     "checks": [], "not_applicable": [],
     "notes": "Every check builds the compiler and the library of /repo's current tree itself, in /verif/build. Replay: python3 check.py --replay FILE --trace"}
for i in ids:
    if i in PROPS:
        p = PROPS[i]
        m["checks"].append({"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i, "evidence_file": "evidence/%s.json" % i,
                            "technique": p["technique"], "level": p["level"], "level_note": p["level_note"]})
    else:
        m["not_applicable"].append({"property": i, "reason": NOT_APPLICABLE.get(i, "No check built yet.")})
json.dump(m, open(root + "/MANIFEST.json", "w"), indent=1)
