#!/usr/bin/env python3
"""Write MANIFEST.json from props.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import props
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks = [dict(property=i, quick_cmd="./check " + i, thorough_cmd="./check %s --tier thorough" % i, evidence_file="evidence/%s.json" % i,
    technique="symbolic execution of the crate's LLVM IR, assertions decided by z3", level="model_checking",
    level_note="Bounds: %s. Outside: %s" % (props.P[i]["bounds"], props.P[i].get("outside", "nothing further")))
    for i in ids if i in props.P]
na = [dict(property=i, reason=props.NA.get(i, "check not built yet")) for i in ids if i not in props.P]
json.dump(dict(version=1, setup_cmd="./check --setup", checks=checks, not_applicable=na), open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
