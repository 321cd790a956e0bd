#!/usr/bin/env python3
# Writes MANIFEST.json from simconf.py; every property of properties.jsonl is claimed or listed with its reason.
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, "tools"))
import simconf as S
ids = [json.loads(l)["id"] for l in open(os.path.join(H, "properties.jsonl"))]
NOTE = "Seeded sampling of programs, schedules and faults in the real code; not exhaustive. "
m = {"version": 1, "setup_cmd": "bin/check --build",
     "checks": [{"property": p, "quick_cmd": "bin/check %s quick" % p, "thorough_cmd": "bin/check %s thorough" % p,
                 "technique": S.TECH + S.PROPS[p]["technique"], "level": S.PROPS[p]["level"],
                 "level_note": NOTE + "Build variants: " + ", ".join(S.PROPS[p]["variants"]) + ". " + "; ".join(S.PROPS[p].get("assumptions", []))} for p in ids if p in S.PROPS],
     "not_applicable": [{"property": p, "reason": S.NOT_APPLICABLE.get(p, "not decided yet: the check for it is being built")} for p in ids if p not in S.PROPS]}
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(H, "MANIFEST.json"), "a").write("\n")
