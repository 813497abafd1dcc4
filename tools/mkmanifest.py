#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table of claimed properties (campaigns.PROPS)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import campaigns as CP
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CP.PROPS:
        checks.append(dict(property=i, quick_cmd=f"python3 check.py {i} quick", thorough_cmd=f"python3 check.py {i} thorough",
                           technique="TLA+ specification checked with TLC; its behaviours are replayed into the real parser and every observation compared",
                           level="model_checking", level_note=CP.NOTES[i]))
    else:
        na.append(dict(property=i, reason=CP.NA.get(i, "the specification of this part is not finished yet")))
m = dict(version=1, setup_cmd="python3 check.py setup", checks=checks, not_applicable=na,
         notes="No hooks: the public API of the crate exposes everything that is compared. DESIGN.md describes the specifications; KNOWN_FINDINGS.txt lists defects found.")
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
