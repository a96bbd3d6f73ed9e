#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the property modules that exist."""
import json, os
here = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
TECH = {}
exec(open(os.path.join(here, "tools", "techniques.py")).read())
props = [json.loads(x) for x in open(os.path.join(here, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(here, "ccpv", "props", i.lower() + ".py")):
        checks.append({"property": i, "quick_cmd": "./run.sh %s quick" % i, "thorough_cmd": "./run.sh %s thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "level": "exploration",
                       "technique": "property-based testing / fuzzing: " + TECH[i],
                       "level_note": "Generated cases from random choice sequences plus coverage-guided mutation of them, judged by an oracle independent of the code under test; failures are shrunk to a minimal replay file. Sampling, not proof."})
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
