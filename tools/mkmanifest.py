#!/usr/bin/env python3
# Regenerates MANIFEST.json: a check per harness/<id> directory, the rest not applicable.
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
 "N01": "Correctness and unforgeability of ed25519/secp256k1 themselves rest on number-theoretic hardness and on elliptic-curve field code from third-party modules; symbolic execution of 256-bit modular exponentiation/point arithmetic is far beyond any solver. C28 decides the wrapper around them.",
 "N02": "These helpers compute in float64 (exp, log, pow of math); no available solver decides IEEE transcendental functions, and treating floats as reals would be unsound. The integer curve they approximate is decided by C15.",
 "N03": "The handlers exist only for GOOS=js/GOARCH=wasm, call syscall/js, and cannot be compiled or executed natively here, so a counterexample could never be replayed; the functions they wrap are decided by C34.",
}
checks, na = [], []
for l in open(root + "/properties.jsonl"):
    p = json.loads(l)
    i = p["id"]
    d = f"{root}/harness/{i.lower()}"
    if os.path.isdir(d):
        b = open(d + "/BOUNDS").read().strip()
        checks.append({
            "property": i,
            "quick_cmd": f"./check.sh {i} quick",
            "thorough_cmd": f"./check.sh {i} thorough",
            "technique": "symbolic execution of the Go SSA of the real code; assertions decided by SMT solvers (z3, cvc5); counterexamples replayed natively",
            "level": "model_checking",
            "level_note": "Every path of the real functions within the bounds is encoded and decided by the solver for all input values; nothing is claimed outside the bounds. Bounds: " + b + " Trusts: the SSA executor (validated against native runs on each path model), go/ssa, the solvers, and the environment models listed in the evidence.",
        })
    else:
        na.append({"property": i, "reason": NA.get(i, "check not built yet")})
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
           "notes": "See DESIGN.md. The scratch module a check builds lives in $TMPDIR and is removed on exit."},
          open(root + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
