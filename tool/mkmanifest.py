#!/usr/bin/env python3
"""Regenerate MANIFEST.json from properties.jsonl and the rule modules present."""
import ast
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = json.load(open(os.path.join(V, "tool", "not_applicable.json")))
checks, na = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)
    pid = p["id"]
    mod = os.path.join(V, "sa", "props", pid.lower() + ".py")
    if os.path.exists(mod):
        consts = {}
        for n in ast.parse(open(mod).read()).body:
            if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
                try:
                    consts[n.targets[0].id] = ast.literal_eval(n.value)
                except ValueError:
                    pass
        checks.append({
            "property": pid,
            "quick_cmd": "python3 sa/check.py " + pid,
            "thorough_cmd": "python3 sa/check.py " + pid,
            "technique": "static analysis: " + consts["EXPLANATION"],
            "level": "other",
            "level_note": consts.get("NOTE", "decides the structural clauses listed under the property in DESIGN.md on the resolved program, for all inputs; floating-point rounding is not modelled"),
            "evidence_file": "evidence/%s.json" % pid,
        })
    else:
        na.append({"property": pid, "reason": NA.get(pid, "check under construction")})
m = {"version": 1, "setup_cmd": "bash tool/build.sh", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
