#!/usr/bin/env python3
"""Writes MANIFEST.json; CHECKS maps each claimed property to a level note."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
exec(open(os.path.join(HERE, "tools", "notes.py")).read())
props = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
m = {"version": 1,
     "setup_cmd": "python3 lib/setup.py",
     "checks": [{"property": p, "quick_cmd": "python3 lib/check.py " + p, "thorough_cmd": "python3 lib/check.py %s --thorough" % p,
                 "technique": CHECKS[p][0], "level": "model_checking", "level_note": CHECKS[p][1]} for p in props if p in CHECKS],
     "not_applicable": [{"property": p, "reason": NA.get(p, "check not built yet")} for p in props if p not in CHECKS],
     "notes": "No hooks: the drivers in drivers/ use only the public API and replace the random source at link time."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not claimed")
