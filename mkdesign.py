#!/usr/bin/env python3
"""Regenerates DESIGN.md from DESIGN.head.md, the property texts, checks/jobs.py, DESIGN.tail.md and seeded/."""
import json, os, sys
H = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(H, "checks"))
import jobs as J
from design_notes import NOTES, CATCHES
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
o = [open(os.path.join(H, "DESIGN.head.md")).read(), "\n## 2. The properties\n\nFor each: how it is decided (what is symbolic; oracle), the bounds, the cost of the quick tier on 8 cores (about 20 s of it is building), and why tests cannot settle it.\n"]
for p in props:
    i = p["id"]
    o.append("### %s %s" % (i, p["title"]))
    n = NOTES[i]
    o.append("- Decided by: %s" % n[0])
    o.append("- Entries: %s." % ", ".join(dict.fromkeys("`%s`" % j["entry"] for j in J.JOBS[i])))
    o.append("- Bounds:\n" + "\n".join("  - `%s`: %s" % (j["entry"], j["bound"]) for j in J.JOBS[i]))
    o.append("- Cost: %s. Beyond tests: %s.\n" % (n[1], p["why_tests_cant"]))
o.append(open(os.path.join(H, "DESIGN.tail.md")).read())
S = os.path.join(H, "seeded")
if os.path.isdir(S):
    o.append("| change | property | needs | reported by |\n|---|---|---|---|")
    for d in sorted(os.listdir(S)):
        m = json.load(open(os.path.join(S, d, "meta.json")))
        o.append("| %s | %s | %s | %s |" % (d, m["property"], m["needs"], CATCHES.get(d, "not run yet")))
open(os.path.join(H, "DESIGN.md"), "w").write("\n".join(o) + "\n")
