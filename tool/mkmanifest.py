#!/usr/bin/env python3
"""regenerate MANIFEST.json from the registered checks"""
import json, os, sys, importlib
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from engine import check as C
for m in sorted(os.listdir(os.path.join(V, "checks"))):
    if m.endswith(".py") and not m.startswith("_"):
        importlib.import_module("checks." + m[:-3])
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NA = {
    "C35": "Convergence basin and final accuracy are numerical statements over runtime point data; no static argument bounds them. The local guarantees they rest on (exact derivative C05, acceptance rule C07, group maps C09, wiring C33) are decided separately.",
    "C36": "Equality up to floating-point rounding of whole runs depends on runtime data and scheduling; the structural guarantees (each element handled exactly once, same per-element computation) are decided under C03, C14, C15, C23 and C29.",
    "C37": "Closeness of estimated normals to the sampled surface is a numerical statement over runtime data; that each estimate is derived from exactly its neighbours' mean and covariance is decided under C23.",
}
TECH = {}
TECH_D = "static value summaries (forward dataflow to canonical terms over clang's typed syntax tree) compared with a specification's summaries"
NOTE_D = ("Every observable of the analysed operations is compared for all inputs at once, over exact arithmetic (floating-point rounding, "
          "overflow of intermediate values and library internals of Eigen/STL/TBB are modelled, not analysed). Loops are summarised by pairing, not unrolled.")
checks, na = [], []
for p in props:
    i = p["id"]
    if i in C.CHECKS:
        f, level = C.CHECKS[i]
        checks.append({"property": i, "quick_cmd": "python3 run.py %s" % i, "thorough_cmd": "python3 run.py %s --thorough" % i,
                       "technique": getattr(f, "technique", TECH_D), "level": level, "level_note": getattr(f, "note", NOTE_D)})
    else:
        na.append({"property": i, "reason": NA.get(i, "Check not built yet.")})
json.dump({"version": 1, "setup_cmd": "python3 run.py --setup", "checks": checks, "not_applicable": na}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
