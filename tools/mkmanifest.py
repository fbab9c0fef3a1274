#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl and the harnesses present"""
import json, os, glob, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks, na = [], []
for line in open(V + "/properties.jsonl"):
    p = json.loads(line)["id"]
    hs = sorted(glob.glob(V + "/harness/%s*.cc" % p.lower()))
    if not hs:
        na.append({"property": p, "reason": "the check is still being built"})
        continue
    bounds, assumes, mt = [], [], False
    for h in hs:
        for l in open(h):
            m = re.match(r"//@ (\w+) (.*)", l)
            if m and m.group(1) == "bounds": bounds.append(m.group(2).strip())
            if m and m.group(1) == "assume": assumes.append(m.group(2).strip())
            if m and m.group(1) == "entry" and " mt" in l: mt = True
    checks.append({"property": p, "quick_cmd": "python3 tools/check.py " + p,
                   "thorough_cmd": "VERIF_TIER=thorough python3 tools/check.py " + p,
                   "technique": "symbolic execution of the compiled (LLVM IR) real code with Z3" + (", all thread interleavings, symbolic schedules" if mt else "") + "; counterexamples replayed natively",
                   "level": "model_checking",
                   "level_note": "Holds for every value within: " + "; ".join(bounds) + (". Assumes: " + "; ".join(assumes) if assumes else "") +
                   ". Trusts clang's translation to LLVM IR, engine/symx, Z3, and the models in rt/ of libstdc++ internals and external libraries; sampled passing paths and every counterexample are replayed natively."})
json.dump({"version": 1, "setup_cmd": "bash engine/build.sh", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo are needed. See DESIGN.md."}, open(V + "/MANIFEST.json", "w"), indent=1)
