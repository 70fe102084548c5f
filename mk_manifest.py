#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the harnesses present."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(line) for line in open(os.path.join(HERE, "properties.jsonl")) if line.strip()]
NOTES = {}
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(HERE, "harness", i.lower() + ".py")):
        checks.append({
            "property": i,
            "quick_cmd": "python3 run.py %s --tier quick" % i,
            "thorough_cmd": "python3 run.py %s --tier thorough" % i,
            "technique": "symbolic execution of the current Python source, obligations decided by the Z3 SMT solver, "
                         "counterexamples and path models replayed on the real code",
            "level": "model_checking",
            "level_note": NOTES.get(i, "exhaustive within the bounds stated per case in the evidence file; reals stand "
                                       "for doubles in the encoding, numpy/scipy/numba primitives are modelled"),
        })
    else:
        na.append({"property": i, "reason": "check under construction"})
m = {"version": 1, "setup_cmd": "python3 -m compileall -q symex harness run.py", "checks": checks,
     "not_applicable": na}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks,", len(na), "not claimed")
