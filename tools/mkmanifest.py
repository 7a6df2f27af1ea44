#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from plan.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from plan import PLAN
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = dict(
    version=1,
    setup_cmd="python3 check.py build",
    checks=[dict(property=i, quick_cmd="python3 check.py %s quick" % i, thorough_cmd="python3 check.py %s thorough" % i,
                 evidence_file="evidence/%s.json" % i, technique=PLAN[i]["technique"],
                 level=PLAN[i]["level"], level_note=PLAN[i]["note"]) for i in ids if i in PLAN],
    not_applicable=[dict(property=i, reason="its check is not built yet") for i in ids if i not in PLAN],
)
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not claimed")
