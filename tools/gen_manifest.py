#!/usr/bin/env python3
"""writes /verif/MANIFEST.json from the table below"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "contract-based deductive verification: the real Python functions are executed on symbolic real terms by a verification-condition generator (re-extracted from /repo on every run); every postcondition is discharged by an exact normal form, interval bisection, z3 or cvc5; counterexamples are replayed on the unmodified code"
COMMON = " Trusted: mechanical extraction and normal form in /verif/dv (cross-checked against CPython every run), numpy/scipy as documented, exact real arithmetic in place of doubles (the same contracts run on the real code in doubles with stated tolerances)."
CLAIMS = {}
exec(open(os.path.join(V, "tools", "claims.py")).read())
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    if p in CLAIMS:
        lev, note = CLAIMS[p]
        checks.append({"property": p, "quick_cmd": "./check %s --tier quick" % p, "thorough_cmd": "./check %s --tier thorough" % p,
                       "technique": T, "level": lev, "level_note": note + COMMON})
    else:
        na.append({"property": p, "reason": NA.get(p, "no check built yet")})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: contracts live in /verif/contracts and are checked against the sources of /repo/py/desimeter read at run time. Known findings and repairs: known_findings.json."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not applicable")
