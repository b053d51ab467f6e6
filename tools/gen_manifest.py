#!/usr/bin/env python3
"""Writes MANIFEST.json from specs.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.path.insert(0, V + '/tools')
import specs
from bounds import B
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    s = specs.SPECS.get(i)
    if s and not s.get("na"):
        checks.append({
            "property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "python3 check.py %s --tier thorough" % i,
            "technique": "symbolic execution of the LLVM bitcode of the repository's own functions, decided by Z3; counterexamples replayed on a native build",
            "level": "model_checking", "level_note": "Exhaustive within bounds (%s) Outside: %s Models and assumptions: DESIGN.md." % (B[i][1], B[i][2])})
    else:
        na.append({"property": i, "reason": (s or {}).get("na") or specs.NA.get(i, "no harness yet")})
json.dump({"version": 1, "setup_cmd": "make -s -j8 -C engine BUILD=/verif/.build", "checks": checks, "not_applicable": na},
          open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
