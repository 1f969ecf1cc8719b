#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: one check per property that the harness registers."""
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(here + "/properties.jsonl")]
built = set()
for f in os.listdir(here + "/harness"):
    if f.endswith(".go"):
        built |= set(re.findall(r'\tregister\("(C\d+)"', open(here + "/harness/" + f).read()))
TECH = json.load(open(here + "/tools/techniques.json"))
checks, na = [], []
for p in props:
    i = p["id"]
    if i in built:
        t = TECH[i]
        checks.append({"property": i, "quick_cmd": "python3 run.py %s quick" % i, "thorough_cmd": "python3 run.py %s thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": "property-based testing: " + t[0], "level": "exploration",
                       "level_note": t[1]})
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "cd harness && GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off go build -buildvcs=false -o /dev/null .", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the harness uses exported API and the command line only. run.py --all quick runs every check."}
json.dump(m, open(here + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "not built")
