import json, sys, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, H)
import props
NA = {
 "P23": "Convergence of infinitely repeated solving is a limit statement over floating-point iteration and an LP back end outside the contracts; the per-stage contracts (P01-P07) and the stopping formulas (P14) are the parts a deductive contract can express here.",
 "P24": "Asynchronous signals and OS resource limits are outside the sequential contract semantics: no pre/postcondition on a C function states what happens when a handler runs between two of its instructions.",
 "P25": "Optimality of the bundled lp_solve simplex code (about 6k lines of pivoting over doubles with tolerance-driven control flow) is beyond contracts dischargeable here; P12 covers the program handed to it and the answer taken from it, with the solver itself an assumed contract.",
}
ids = [json.loads(l)["id"] for l in open(os.path.join(H, "properties.jsonl"))]
checks = []
for i in ids:
    if i not in props.P: continue
    p = props.P[i]
    checks.append(dict(property=i, quick_cmd=f"python3 check.py {i}", thorough_cmd=f"VERIF_TIER=thorough python3 check.py {i}", technique=p["technique"], level=p["level"],
        level_note=(p["note"] + " " if p["note"] else "") + "Every obligation generated from the current C source must be discharged by z3/cvc5. Doubles are mathematical reals and ints mathematical integers in the proofs; callee contracts outside this property's list are proved by the property that owns them." + (" Bounded (companion runs only, not proved): " + "; ".join(p["bounded"]) + "." if p["bounded"] else "")))
na = [dict(property=i, reason=NA.get(i, "check not built yet")) for i in ids if i not in props.P]
json.dump(dict(version=1, setup_cmd="python3 -m py_compile check.py props.py", checks=checks, not_applicable=na,
     notes="check.py re-execs into the python3-vt environment (z3). No hooks: the repository is verified as committed."), open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
