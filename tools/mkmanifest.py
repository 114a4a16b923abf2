#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
import checks
ids = [json.loads(l)["id"] for l in open(H + "/properties.jsonl")]
m = {
    "version": 1,
    "setup_cmd": "python3 tools/setup.py",
    "checks": [],
    "not_applicable": [],
    "notes": "One technique throughout: symbolic execution of the LLVM IR compiled from /repo's current tree, z3 deciding "
             "every branch and assertion. run.py is the driver, checks.py lists entry points and bounds, harness/ holds the "
             "assertions, engine/ is the symbolic executor. No hooks in /repo are needed.",
}
for i in ids:
    c = checks.CHECKS.get(i)
    if not c:
        m["not_applicable"].append({"property": i, "reason": checks.NOT_APPLICABLE.get(i, "no check has been built for it yet")})
        continue
    m["checks"].append({
        "property": i,
        "quick_cmd": "python3 run.py %s quick" % i,
        "thorough_cmd": "python3 run.py %s thorough" % i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": "symbolic execution of the compiled code (LLVM IR) with z3",
        "level": "model_checking",
        "level_note": "Bounded: holds for all values within the stated bounds, nothing is claimed outside. Bounds: "
                      + "; ".join(c["bounds"]) + ". Trusts rustc's IR at opt-level 1, the symbolic executor (validated on every "
                      "run against native executions of sampled paths) and z3.",
    })
json.dump(m, open(H + "/MANIFEST.json", "w"), indent=1)
