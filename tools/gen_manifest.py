#!/usr/bin/env python3
"""Writes MANIFEST.json from the registered checks."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from check import registry
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
reg = registry()
T_MSG = "TLA+ tree model of messages and handles; TLC-generated behaviours (invariants checked) replayed into the library"
N_MSG = ("Behaviours of spec/MsgGen.tla (seeded random and, for small types, every suffix) are model-checked against the property's "
         "invariants and replayed into the library built with AddressSanitizer; return codes, values, all bytes and every handle are compared "
         "after each operation. Bounded by the number and length of the generated behaviours; trusts the C driver and the schema translation.")
from notes import TECH
checks, na = [], []
for p in props:
    if p not in reg:
        na.append({"property": p, "reason": "check under construction"})
        continue
    t, n = TECH.get(p, (T_MSG, N_MSG))
    checks.append({"property": p, "quick_cmd": "python3 tools/check.py " + p,
                   "thorough_cmd": "VERIF_TIER=thorough python3 tools/check.py " + p,
                   "technique": t, "level": "model_checking", "level_note": n})
m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
     "notes": "No hooks: the drivers in harness/ compile /repo's sources as they are."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
