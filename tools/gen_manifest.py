#!/usr/bin/env python3
"""writes MANIFEST.json from the list of claimed properties"""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "contract-based deductive verification: function contracts + loop invariants on the LLVM IR compiled from /repo on every run, every obligation discharged by z3/cvc5"
NOTE = {}
NA = {}
exec(open(os.path.join(ROOT, "tools", "claims.py")).read())
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl")) if l.strip()]
checks = []
for p in props:
    i = p["id"]
    if i in NOTE:
        checks.append(dict(property=i, quick_cmd=f"./check {i}", thorough_cmd=f"./check {i}", technique=T, level="proof", level_note=NOTE[i]))
na = [dict(property=p["id"], reason=NA.get(p["id"], "no check built yet")) for p in props if p["id"] not in NOTE]
m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
         notes="Verifier in dv/ (VC generator over LLVM IR of the real sources), contracts in specs/, native replay harnesses in harness/. See DESIGN.md.")
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
