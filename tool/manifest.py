#!/usr/bin/env python3
"""Writes MANIFEST.json from the registry (kept in step with properties.jsonl)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import registry
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl")) if l.strip()]
ids = [p["id"] for p in props]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in registry.PROPS:
        P = registry.PROPS[i]
        checks.append({"property": i, "quick_cmd": f"python3 tool/check.py {i} --tier quick", "thorough_cmd": f"python3 tool/check.py {i} --tier thorough",
            "evidence_file": f"evidence/{i}.json", "technique": "symbolic execution of the crate's monomorphic MIR, every branch and assertion decided by Z3; models replayed natively",
            "level": "model_checking", "level_note": P["note"]})
    else:
        na.append({"property": i, "reason": registry.NA[i]})
for i in registry.PROPS: assert i in ids, i
json.dump({"version": 1, "setup_cmd": "python3 tool/build.py", "checks": checks, "not_applicable": na,
  "notes": "No hooks: the harness modules are compiled into a scratch copy of the crate. The engine is /verif/engine; see DESIGN.md."}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
