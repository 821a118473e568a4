#!/usr/bin/env python3
"""write MANIFEST.json from plan.py and properties.jsonl"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
import plan
props = [json.loads(x) for x in open(os.path.join(V, "properties.jsonl")) if x.strip()]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in plan.PLAN:
        c = plan.PLAN[i]
        checks.append({
            "property": i,
            "quick_cmd": "python3 check.py " + i,
            "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i,
            "technique": c.get("technique", "TLA+ specification checked with TLC; behaviours generated by TLC replayed into the library and recorded executions validated as traces of the specification"),
            "level": c.get("level", "model_checking"),
            "level_note": c["note"],
        })
    else:
        na.append({"property": i, "reason": plan.NOT_APPLICABLE.get(i, "no check yet: the specification does not cover this property at this commit")})
m = {"version": 1, "setup_cmd": "bash tools/setup.sh",
     "checks": checks, "not_applicable": na,
     "notes": "Every check: TLC checks the specification, cargo builds the harness against /repo's working tree, the harness records traces of the real library, TLC validates every trace. No hooks are needed in /repo: the public API exposes the abstract state (shape, strides, offset, raw storage)."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
print(len(checks), "claimed;", len(na), "not claimed")
