#!/usr/bin/env python3
"""Writes MANIFEST.json from checks/registry.py and properties.jsonl."""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(R, "checks"))
from registry import CHECKS
props = [json.loads(l) for l in open(os.path.join(R, "properties.jsonl"))]
sys.path.insert(0, os.path.join(R, "tools"))
from na import NA
NOTE = ("Every path of the harness through the real code (LLVM IR compiled from the current tree) is explored for all input values within the bounds "
        "in the evidence file; each assertion is discharged by exact rational-function normal form or an SMT query. Trusted: the IR-to-SMT translation "
        "(validated on every path witness against the native build), clang, z3, the runtime stubs; real-number instead of floating-point arithmetic.")
PYNOTE = ("Every path of the harness through the real Python files is explored for all input values within the bounds in the evidence file; each assertion "
          "is an SMT query. Trusted: the symbolic numbers (validated on every path witness by a run with plain numbers), z3, the stand-ins for compiled modules; exact arithmetic.")
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CHECKS:
        cfg = CHECKS[i]
        checks.append(dict(property=i, quick_cmd="./check %s quick" % i, thorough_cmd="./check %s thorough" % i,
                           evidence_file="evidence/%s.json" % i,
                           technique="symbolic execution of the %s with SMT-decided assertions (z3), counterexamples replayed %s" % (
                               ("Python source", "with plain numbers") if "python" in cfg else ("compiled C++", "natively")),
                           level="model_checking", level_note=("Bounds: %s. Outside: %s. " % (cfg["bounds"]["quick"], cfg["outside"])) + (PYNOTE if "python" in cfg else NOTE)))
    else:
        na.append(dict(property=i, reason=NA.get(i, "No check has been built for it yet.")))
json.dump(dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
               notes="No hooks: the harnesses use the public headers of the unmodified tree."),
          open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
