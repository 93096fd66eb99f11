#!/usr/bin/env python3
"""catch.py [ID...]: for each planted change, does the check of its property report it? (runs on scratch copies)"""
import sys, os, json, concurrent.futures as cf
sys.path.insert(0, os.path.dirname(__file__))
import variant
S = variant.V + "/seeded"
reg = {c["property"] if "property" in c else c["id"] for c in json.load(open(variant.V + "/MANIFEST.json"))["checks"]}
def one(i):
    p = json.load(open(f"{S}/{i}/meta.json"))["property"]
    if p not in reg: return i, p, "no-check", ""
    rc, out = variant.run(f"{S}/{i}/patch.diff", [p], show=False)[p]
    v = [l for l in out.splitlines() if l.startswith("VIOLATION")]
    return i, p, {0: "missed", 1: "caught"}.get(rc, "rc%d" % rc), (out.splitlines()[-1:] or [""])[0][:150] if rc != 1 else v[0][:150]
ids = sys.argv[1:] or sorted(os.listdir(S))
with cf.ThreadPoolExecutor(int(os.environ.get("J", "4"))) as ex:
    for r in ex.map(one, ids): print(*r, flush=True)
