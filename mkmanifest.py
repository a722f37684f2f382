#!/usr/bin/env python3
"""Writes MANIFEST.json for the checks that exist."""
import json, glob, os, re
here = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl")) if l.strip()]
tech = {}
src = ""
for f in sorted(glob.glob(os.path.join(here, "harness/cmd/vh/check_*.go"))):
    src += open(f).read()
have = set(re.findall(r'ID:\s*"(C\d\d)"', src))
T = json.load(open(os.path.join(here, "techniques.json")))
checks = []
for p in props:
    if p not in have:
        continue
    t = T[p]
    checks.append({"property": p, "quick_cmd": "./run.sh " + p, "thorough_cmd": "VERIF_TIER=thorough ./run.sh " + p,
                   "technique": t["technique"], "level": t.get("level", "exploration"), "level_note": t["note"]})
m = {"version": 1, "setup_cmd": "./run.sh setup", "checks": checks,
     "not_applicable": [{"property": p, "reason": "check under construction"} for p in props if p not in have],
     "notes": "Every check builds the harness against /repo's working tree, generates cases from VERIF_SEED, and shrinks a failure to the replay file. No hooks in /repo."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
