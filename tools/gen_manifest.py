#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from spec.py and the not-applicable list."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
import spec
props = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks = []
for p in props:
    if p not in spec.PROPS: continue
    checks.append({"property": p, "quick_cmd": "python3 tools/check.py %s quick" % p, "thorough_cmd": "python3 tools/check.py %s thorough" % p,
        "technique": "symbolic execution of rustc's LLVM IR of the real code, branches and assertions decided by Z3",
        "level": "model_checking", "level_note": spec.PROPS[p].get("note", spec.NOTE)})
m = {"version": 1, "setup_cmd": "python3 tools/check.py --setup", "checks": checks,
     "not_applicable": [{"property": p, "reason": spec.NOT_APPLICABLE[p]} for p in props if p not in spec.PROPS],
     "notes": "See DESIGN.md. Bounds and per-job figures are in evidence/<property>.json."}
if getattr(spec, "HOOKS", None): m["hooks"] = spec.HOOKS
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(m["not_applicable"]), "not applicable")
