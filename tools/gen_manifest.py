#!/usr/bin/env python3
"""Writes MANIFEST.json from the plan (harness/plan.py) and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "harness"))
import plan

TRUST = ("Trusted: TLC, the binary64 evaluation of Reals64, numpy, and that the drivers report what the public "
         "attributes hold. Bounded: the models are exhaustive for the constants in their cfg files; the traces are the "
         "scenarios the drivers enumerate and sample from VERIF_SEED.")
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    pid = p["id"]
    if pid in plan.PLAN:
        todo = plan.PLAN[pid]
        mods = [m["module"] for m in todo.get("mc", [])] + [t["gen"]["module"] for t in todo.get("traces", []) if "gen" in t]
        specs = sorted({t["spec"] for t in todo.get("traces", [])})
        checks.append(dict(
            property=pid, quick_cmd=f"python3 check.py {pid} quick", thorough_cmd=f"python3 check.py {pid} thorough",
            technique=f"TLA+ specification: TLC model checking ({', '.join(dict.fromkeys(mods))}) and TLC trace validation of the "
                      f"running code ({', '.join(specs)})",
            level="model_checking", level_note=todo.get("note", "") + (" " if todo.get("note") else "") + TRUST))
    else:
        na.append(dict(property=pid, reason=plan.NOT_APPLICABLE.get(pid, "check not built yet")))
m = dict(version=1, setup_cmd="python3 check.py --setup", checks=checks, not_applicable=na,
         notes="No hooks were needed in /repo; drivers observe public attributes and wrap public functions from outside.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
