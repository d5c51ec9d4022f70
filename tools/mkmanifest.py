#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl, the prop lines of the contracts and the notes below."""
import json, glob, os, re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f"{HERE}/properties.jsonl") if l.strip()]
have = {}
for f in glob.glob(f"{HERE}/contracts/*.spec"):
    for l in open(f):
        if l.startswith("prop "):
            w = l.split()
            have[w[1]] = (w[2], len(w) - 3)
NA = json.load(open(f"{HERE}/tools/not_applicable.json"))
BASE = ("Every obligation generated from the current source is discharged, for all inputs and iterations, no bound. "
        "Assumes: gover's translation of Go SSA, the solvers, the axioms listed in the evidence; machine integers as mathematical ones; "
        "+0/-0 identified; no concurrent use of the objects. ")
NOTES = json.load(open(f"{HERE}/tools/level_notes.json"))
checks, na = [], []
for p in props:
    i = p["id"]
    if i in have and i not in NA:
        mode = have[i][0]
        checks.append({
            "property": i,
            "quick_cmd": f"python3 check.py {i} quick",
            "thorough_cmd": f"python3 check.py {i} thorough",
            "technique": "contract-based deductive verification: pre/postconditions, class and loop invariants over the repository's own Go source, obligations discharged by z3/cvc5",
            "level": "proof",
            "level_note": BASE + {"generic": "Element values uninterpreted.", "semiring": "Element values uninterpreted; sums and products of non-negative ones are not negative, and zero only where they should be (no overflow, no underflow).", "ring": "Elements of an exact ring (integers).", "field": "Elements of an exact field (reals)."}[mode] + " " + NOTES.get(i, ""),
        })
    else:
        na.append({"property": i, "reason": NA.get(i, "contracts for it are not written yet")})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "hooks": {"guard": "none", "enable": "no hooks: the checks read /repo's source as it is"},
     "checks": checks, "not_applicable": na}
json.dump(m, open(f"{HERE}/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed,", len(na), "not")
