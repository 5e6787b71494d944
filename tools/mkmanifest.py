#!/usr/bin/env python3
"""Writes MANIFEST.json: a check for every property that has rules in sa/props, the others not applicable."""
import importlib
import json
import os
import sys

H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
NA = {
    "C35": "convergence and the fairness of a spread are statements about probability distributions of numerical results; no static argument over the source bounds them",
    "C36": "what is in the file after a kill depends on the order in which the HDF5 library and the kernel write its pages, which the source of McSAS3 does not determine; the package gives no guarantee of its own here",
}
NOTE = "Abstract interpretation over value terms with symbolic data of fixed small shapes (two or three contributions, repetitions, bins, pixels); library calls by their documented meaning; floating point rounding and NaN comparisons are outside the model; what cannot be decided is counted as undecided in the evidence, never as a violation."
checks, na = [], []
for l in open(os.path.join(H, "properties.jsonl")):
    p = json.loads(l)["id"]
    if not os.path.exists(os.path.join(H, "sa", "props", p.lower() + ".py")):
        na.append({"property": p, "reason": NA.get(p, "no static rule has been built for it yet")})
        continue
    m = importlib.import_module("sa.props." + p.lower())
    c = {
        "property": p,
        "quick_cmd": f"python3 run.py {p} --tier quick",
        "thorough_cmd": f"python3 run.py {p} --tier thorough",
        "evidence_file": f"evidence/{p}.json",
        "technique": getattr(m, "TECHNIQUE", "static value-flow analysis (abstract interpretation, gated value numbering)"),
        "level": "other",
        "level_note": getattr(m, "NOTE", NOTE),
    }
    checks.append(c)
d = {"version": 1, "setup_cmd": "python3 -m compileall -q sa run.py", "hooks": {"guard": "none", "enable": "no hooks: the checks read the source only", "source_commits": []}, "checks": checks, "not_applicable": na}
with open(os.path.join(H, "MANIFEST.json"), "w") as f:
    json.dump(d, f, indent=1)
    f.write("\n")
print(len(checks), "checks,", len(na), "not applicable")
