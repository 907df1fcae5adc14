#!/usr/bin/env python3
"""Writes MANIFEST.json from specs.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import specs
NA = {"C25": "The block encoders are third-party submodules (Compressonator, etc2comp, astc-encoder, PVRTexLib) that are absent from this sandbox, so neither they nor the converters that call them can be compiled, encoded or replayed here; their decoders and the texture compression search are also far outside what a solver can decide for all blocks."}
checks, na = [], []
for l in open(V + "/properties.jsonl"):
    p = json.loads(l)
    i = p["id"]
    if i in specs.SPECS:
        s = specs.SPECS[i]
        checks.append({"property": i, "quick_cmd": "./check.py %s --tier quick" % i, "thorough_cmd": "./check.py %s --tier thorough" % i,
                       "evidence_file": "evidence/%s.json" % i,
                       "technique": "bounded symbolic execution of the real code's LLVM IR with every assertion decided by an SMT solver (Z3) and counterexamples replayed on the native build",
                       "level": "model_checking", "level_note": (s.get("bounds", "") + " Outside: " + s.get("outside", "")).strip()})
    else:
        na.append({"property": i, "reason": NA.get(i, "no check built yet")})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "Every check compiles /repo's current sources to LLVM IR and executes them with engine/ (symir). See DESIGN.md."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
