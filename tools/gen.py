#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from the descriptions below."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from props import PROPS
from tools.descr import D, NA
with open(V + "/properties.jsonl", "w") as f:
    for d in D:
        e = {k: d[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}
        f.write(json.dumps(e) + "\n")
checks = []
for d in D:
    i = d["id"]
    if i not in PROPS:
        continue
    checks.append({
        "property": i,
        "quick_cmd": "python3 check.py %s --tier quick" % i,
        "thorough_cmd": "python3 check.py %s --tier thorough" % i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": "solver-based symbolic execution of the compiled LLVM IR of /repo (own engine + Z3), native counterexample replay",
        "level": PROPS[i].get("level", "model_checking"),
        "level_note": d.get("note", "Bounded: " + PROPS[i]["bounds"]["quick"] + ". Outside: " + PROPS[i].get("outside", "-") +
                            ". Trusts the engine's IR semantics (cross-checked by native replay of path witnesses), Z3, clang -O1 and the Abseil shim."),
    })
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks,
     "not_applicable": [{"property": d["id"], "reason": NA[d["id"]]} for d in D if d["id"] not in PROPS],
     "notes": "No hooks: /repo is compiled as it is; the commits in /repo are repairs (fix:) only, see known_findings.json."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
