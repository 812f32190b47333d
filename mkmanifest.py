#!/usr/bin/env python3
"""Writes MANIFEST.json from props.CHECKS and the texts below."""
import json, props
TECH = {}
NOTE = {}
exec(open("manifest_texts.py").read())
checks = []
for p in sorted(props.CHECKS):
    checks.append({"property": p, "quick_cmd": "VERIF_TIER=quick python3 check.py %s" % p,
                   "thorough_cmd": "VERIF_TIER=thorough python3 check.py %s" % p,
                   "technique": TECH[p], "level": props.CHECKS[p][1], "level_note": NOTE[p]})
claimed = set(props.CHECKS)
na = [{"property": json.loads(l)["id"], "reason": "check not built yet"} for l in open("properties.jsonl")
      if json.loads(l)["id"] not in claimed]
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
           "notes": "TLA+ with TLC; specifications in spec/, conformance harness in harness/ (public API only, no hooks in /repo)"},
          open("MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed,", len(na), "not")
