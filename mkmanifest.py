#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of claimed checks."""
import json
SIGT = "explicit-state enumeration of the marshaller's argument/result space against an ABI reference model, every transition replayed on the real library; model replayed against gcc- and clang-compiled functions"
SIGN = "Exhaustive within stated bounds (all reachable abstract register states x type universe, all lists up to a length over a representative alphabet, long lists, variadic splits); real code executed with the full machine state captured. Trusts the reference model in sig/model.h, which is checked against two compilers."
C = {}
for p in ("P01", "P02", "P03", "P04", "P05", "P06"):
    C[p] = (SIGT, SIGN)
for p in ("P07", "P08", "P16", "P17", "P18"):
    C[p] = ("explicit-state enumeration of signatures, types and interface flavours, every one executed on the real library with the machine state, memory guards and by-value semantics monitored against a reference model", SIGN)
NA = {}
import os
here = os.path.dirname(os.path.abspath(__file__))
exec(open(os.path.join(here, "lib/claims.py")).read())
props = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 run.py setup",
     "checks": [{"property": p, "quick_cmd": "python3 run.py %s quick" % p, "thorough_cmd": "python3 run.py %s thorough" % p,
                 "technique": C[p][0], "level": "model_checking", "level_note": C[p][1]} for p in props if p in C],
     "not_applicable": [{"property": p, "reason": NA.get(p, "check not built yet")} for p in props if p not in C],
     "notes": "Checks compile /repo's sources themselves into /verif/build; see DESIGN.md."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "claimed,", len(m["not_applicable"]), "not")
