#!/usr/bin/env python3
# regenerates MANIFEST.json from the harnesses present
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
NOTE = "Every path of the real code (compiled to LLVM IR from /repo on each run) within the stated input bounds is explored with symbolic inputs; each assertion is decided by the solver (Z3, with exact per-octet tables in front) for all values of the path; counterexamples count only after replay on the natively built library. Outside: inputs beyond the bounds in evidence units[].bounds, and the runtime models named under assumptions."
EXTRA = {}
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists("%s/harness/%s.cpp" % (V, i.lower())):
        checks.append({"property": i, "quick_cmd": "python3 checks/run.py %s --tier quick" % i, "thorough_cmd": "python3 checks/run.py %s --tier thorough" % i, "evidence_file": "evidence/%s.json" % i,
          "technique": "symbolic execution of the library's LLVM IR with SMT-decided assertions (Z3)", "level": "model_checking", "level_note": NOTE + EXTRA.get(i, "")})
    else: na.append({"property": i, "reason": "no check built yet"})
m = {"version": 1, "setup_cmd": "python3 checks/run.py --build", "checks": checks, "not_applicable": na, "notes": "No hooks in /repo: the checks need no instrumentation. See DESIGN.md."}
open(V + "/MANIFEST.json", "w").write(json.dumps(m, indent=1) + "\n")
