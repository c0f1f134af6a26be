#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py and jobs.py."""
import json, os
from props import META, NA
from jobs import JOBS
here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for pid in sorted(META):
        m = META[pid]
        assert len(m["title"]) <= 80, pid
        f.write(json.dumps({
            "id": pid, "title": m["title"], "statement": m["statement"],
            "quantifier": {"over": m["over"], "text": m["text"]}, "why_tests_cant": m["why"],
            "anchors": {"files": m["files"], "mechanism": [{"name": n, "where": w} for n, w in m["mech"]],
                        "observe_at": m.get("observe", []), "hook_needed": None}}) + "\n")
checks = []
for pid in sorted(META):
    if pid in JOBS:
        m = META[pid]
        checks.append({
            "property": pid, "quick_cmd": "python3 check.py %s --tier quick" % pid,
            "thorough_cmd": "python3 check.py %s --tier thorough" % pid,
            "evidence_file": "evidence/%s.json" % pid,
            "technique": "symbolic execution of the code's LLVM IR with SMT (z3), counterexamples replayed natively",
            "level": "model_checking",
            "level_note": "Every path and value within the bounds: " + m["bounds"] + ". Assumes: " +
                          "; ".join(m["assumptions"])})
na = [{"property": p, "reason": NA.get(p, "check not built yet")} for p in sorted(META) if p not in JOBS]
json.dump({"version": 1, "setup_cmd": "bash engine/build.sh", "checks": checks, "not_applicable": na,
           "notes": "No hooks: the checks compile /repo's sources unchanged."},
          open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
