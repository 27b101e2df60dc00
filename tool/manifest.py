#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks that exist and the property list."""
import importlib
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)

NA = {
    "N01": "equality of two families of numerical formulas over all real inputs; no static argument in reach bounds it (a symbolic-algebra prover is another family)",
    "N02": "round trip on floating-point values: a numerical identity over all states, not visible in the shape of the code",
    "N03": "order of accuracy is a limit of numerical errors over all dynamics; the code shape does not decide it",
    "N04": "descent and convergence quantify over numerical runs on all problems",
    "N05": "optimality is a numerical residual of the returned solution, not a shape of the code",
    "N06": "needs pinocchio, CppADCodeGen and the Python bindings' headers, none of which is installed: these sources cannot be parsed, let alone resolved, here",
    "C08": "needs an inference of symbolic matrix dimensions through every Eigen expression of the core (products, blocks, resizes, and sizes that depend on the model behind a pointer); not built here. The parts that other rules decide: which arguments are size-checked (C04), buffer sizes of solvers (C25) and of stacked data (C16, C17), containers per node (C15)",
    "C21": "the entry counts are sums over the nodes of polynomials in node dimensions, filled by nested triangular loops; comparing them needs a closed-form summation of the fill loops that was not built here. Node and index bounds of the same code are decided by C14 and C15",
    "N07": "agreement up to rounding compares numerical runs; the structural halves (no shared writes, complete casts) are C02 and C06",
}
NOT_YET = "not claimed: no sound static rule has been built for it in this framework"

checks, na = [], []
for l in open(os.path.join(ROOT, "properties.jsonl")):
    p = json.loads(l)
    pid = p["id"]
    path = os.path.join(ROOT, "checks", pid.lower() + ".py")
    if pid in NA or not os.path.exists(path):
        na.append({"property": pid, "reason": NA.get(pid, NOT_YET)})
        continue
    m = importlib.import_module("checks." + pid.lower())
    checks.append({"property": pid, "quick_cmd": "python3 check.py " + pid,
                   "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + pid,
                   "technique": m.TECHNIQUE, "level": "other", "level_note": m.NOTE})
json.dump({"version": 1, "setup_cmd": "python3 -m sa.frontend", "checks": checks, "not_applicable": na},
          open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
