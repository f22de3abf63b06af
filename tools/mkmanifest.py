#!/usr/bin/env python3
"""Writes MANIFEST.json from engine/meta.py and the registered checks."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT + "/engine")
import main, meta
t = main.table()
ids = [json.loads(l)["id"] for l in open(ROOT + "/properties.jsonl")]
m = {"version": 1, "setup_cmd": "python3 engine/build.py", "checks": [], "not_applicable": []}
for i in ids:
    if i in t:
        m["checks"].append({"property": i, "quick_cmd": "./check %s quick" % i, "thorough_cmd": "./check %s thorough" % i,
                            "evidence_file": "evidence/%s.json" % i, "technique": meta.TECH[i], "level": "proof",
                            "level_note": "Decides: %s. %s" % (meta.RULE[i], meta.NOTE[i])})
    else:
        m["not_applicable"].append({"property": i, "reason": meta.NA.get(i, "check under construction")})
json.dump(m, open(ROOT + "/MANIFEST.json", "w"), indent=1)
print(len(m["checks"]), "claimed")
