#!/usr/bin/env python3
"""Rewrites MANIFEST.json from properties.jsonl and checks.py."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from checks import CHECKS
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 check.py --build-only",
     "hooks": {"guard": "CAL_VERIF", "enable": "checks compile /repo/src with -DCAL_VERIF -I/verif/harness (calVerif.h) and, per build variant, -DCAL_VERIF_CACHE_SIZE_INDEX / -DCAL_VERIF_HASH_SIZE_INDEX / -DCAL_VERIF_NUM_PAGES_THRESHOLD; only tuning constants change",
               "source_commits": ["4d20701"]},
     "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        m["checks"].append({"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
            "evidence_file": "evidence/%s.json" % i, "technique": "model checking: " + c.get("technique", "exhaustive stateless exploration of operation sequences on the real library against a reference model"),
            "level": "model_checking", "level_note": "Exhaustive within bounds: " + c["bounds"]})
    else:
        m["not_applicable"].append({"property": i, "reason": "no check built yet"})
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "claimed")
