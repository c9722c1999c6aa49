#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl and checks/jobs.py."""
import json, os, sys
H = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(H, "checks"))
import jobs as J
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in J.JOBS:
        bounds = "; ".join(dict.fromkeys(j["bound"] for j in J.JOBS[i]))
        checks.append(dict(property=i, quick_cmd="python3 check.py %s --tier quick" % i, thorough_cmd="python3 check.py %s --tier thorough" % i,
            evidence_file="evidence/%s.json" % i,
            technique="symbolic execution of the crates' LLVM IR with an SMT solver (z3, QF_BV); counterexamples replayed natively",
            level="model_checking",
            level_note="Holds for every value within the bounds, nothing is claimed outside them. Bounds: %s. Assumes: %s" % (bounds, "; ".join(J.ASSUMPTIONS + J.EXTRA_ASSUMPTIONS.get(i, [])))))
    else: na.append(dict(property=i, reason=J.NOT_APPLICABLE.get(i, "check not built yet")))
m = dict(version=1, setup_cmd="true", checks=checks, not_applicable=na,
    notes="Every check builds what it needs into /verif/.build (git-ignored) from the committed files and /repo's working tree; see DESIGN.md. No hooks in /repo are used.")
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
