"""writes MANIFEST.json from the claims below (run after changing them)"""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
exec(open(os.path.join(ROOT, "tools", "claims.py")).read())
ids = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
GEN = ("Every obligation of every function under contract, generated from /repo's current source, is discharged by z3/cvc5/the polynomial prover for all inputs and all iterations. "
       "Assumes real arithmetic for floating point, separation of pointer arguments as the contracts state, and the libm/libc models listed in the evidence file. ")
checks = []
for i in ids:
    if i not in CLAIMS: continue
    checks.append({"property": i, "quick_cmd": "python3-vt -m optvc.check %s --tier quick" % i, "thorough_cmd": "python3-vt -m optvc.check %s --tier thorough" % i,
                   "evidence_file": "evidence/%s.json" % i, "technique": "contract-based deductive verification (function contracts and loop invariants on the real C source, VC generation, SMT and algebraic provers)",
                   "level": "proof", "level_note": GEN + CLAIMS[i]})
na = [{"property": i, "reason": NA.get(i, "no check claimed yet")} for i in ids if i not in CLAIMS]
m = {"version": 1, "setup_cmd": "python3-vt -m optvc.setup", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), len(na))
