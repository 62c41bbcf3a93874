#!/usr/bin/env python3
"""check.py <property id>: verify the property's contracts on /repo's current source, then run the companion.
exit 0: every obligation discharged (or outside reach and the bounded companion clean); exit 1 + VIOLATION line otherwise."""
import sys, os, json, time, shutil, tempfile, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
VT = "/opt/veriftools/pyvenv/bin/python3"
if __name__ == "__main__" and not os.environ.get("VF_IN") and os.path.exists(VT) and os.path.realpath(sys.executable) != os.path.realpath(VT) or "z3" not in sys.modules and not os.environ.get("VF_IN"):
    os.environ["VF_IN"] = "1"
    os.execv(VT, [VT, os.path.join(HERE, "check.py")] + sys.argv[1:])
sys.path.insert(0, HERE); os.chdir(HERE)
import props
TRUSTED = ["clang 18 AST of the preprocessed source (compiler flags of the build; the compiler's own correctness)", "vc/engine.py: the verification-condition generator and its memory model (DESIGN.md section 'Machinery')",
           "z3 4.x, cvc5 1.1.2", "doubles treated as mathematical reals, int as mathematical integers (stated in DESIGN.md)", "printf-family calls have no effect on program state"]

def known(pid):
    out = []
    p = os.path.join(HERE, "known-findings.txt")
    for l in open(p) if os.path.exists(p) else []:
        l = l.strip()
        if l.startswith("finding: property=" + pid + " "): out.append(l[len("finding: "):])
    return out
def main():
    pid = sys.argv[1]; tier = os.environ.get("VERIF_TIER", "quick"); seed = int(os.environ.get("VERIF_SEED", "1"))
    if "--thorough" in sys.argv: tier = "thorough"
    t0 = time.time(); P = props.P[pid]
    from vc import runner; from vc.front import ExtractionError; from companion import base as comp
    C = runner.load_specs()
    scratch = tempfile.mkdtemp(prefix="vf_" + pid + "_")
    viol = None; notes = []; und = []
    cov = dict(obligations=0, discharged=0, checker_cmd=f"python3 check.py {pid}", trusted_base=list(TRUSTED))
    ev = dict(property=pid, tier=tier, seed=seed, level=P["level"], coverage=cov, assumptions=[], wall_s=0.0, violations=0)
    try:
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        # ---- companion build first: a tree that does not compile is not judged
        built = None
        try:
            built = comp.build(os.path.join(scratch, "b"))
        except Exception as e:
            und.append("companion build: " + str(e)[:600])
        # ---- companion (before the proof: a failing input makes the search for more proofs pointless)
        cs = []; cfail = []
        def companion(sd, mult):
            for suite, secs in P["suites"]:
                try: r = comp.run_suite(suite, built, sd, secs * mult, scratch, prop=pid)
                except Exception as e:
                    und.append("companion: " + str(e)[:800]); continue
                cs.append(dict(suite=suite, cases=r["cases"], kinds=r["kinds"], seconds=round(r["wall"], 1), samples=r["samples"][:2]))
                for f in r["failures"]: cfail.append(dict(suite=suite, **f))
                if cfail: break
        if built: companion(seed, 1 if tier == "quick" else 12)
        # ---- proof
        fns = []
        for f in P["fns"]:
            if f.startswith("@"): fns += [n for n in C if C[n].file == f[1:] and not C[n].trusted]
            else: fns.append(f)
        fns = list(dict.fromkeys(fns)); failed = []; solver = 0.0; by = {}; per = []
        try:
            gen = comp.generated(os.path.join(scratch, "g")) if os.makedirs(os.path.join(scratch, "g"), exist_ok=True) is None else {}
            res = runner.verify(P["files"], fns, limit=420 if tier == "quick" else 760, generated=gen, retry=not cfail) if fns else []
        except Exception as e:
            res = []; und.append("front end: " + str(e)[:600])
        contracts_used = set(); inl = set()
        for r in res:
            cov["obligations"] += r["obs"]; cov["discharged"] += r["proved"]; solver += r["solver"]
            for k, v in r["by"].items(): by[k] = by.get(k, 0) + v
            if r["err"]: und.append(f"{r['fn']}: {r['err'][:400]}")
            for f in r["failed"]: failed.append(dict(function=r["fn"], **f))
            contracts_used |= r["used"]; inl |= r["inlined"]
            per.append(dict(function=r["fn"], obligations=r["obs"], discharged=r["proved"], seconds=round(r["wall"], 1), **({"second_pass": r["late"]} if r.get("late") else {}), **({"outside_reach": r["err"][:200]} if r["err"] else {})))
            for a in sorted(r["assumptions"]): 
                if a not in ev["assumptions"]: ev["assumptions"].append(a)
        trusted = sorted(n for n in contracts_used if n in C and C[n].trusted)
        own = set(fns)
        cov.update(functions_under_contract=per, discharged_by=by, solver_seconds=round(solver, 1),
                   callee_contracts_assumed_here_proved_elsewhere=sorted(n for n in contracts_used if n in C and not C[n].trusted and n not in own), callee_contracts_trusted={n: C[n].trusted for n in trusted}, inlined_helpers=sorted(inl),
                   failed_obligations=len(failed), not_decided=und)
        for n in fns:
            if n in C and C[n].note: ev["assumptions"].append(f"{n}: {C[n].note}")
        cov["trusted_base"] += [f"trusted contract of {n}: {C[n].note or chr(39)+"stated in specs"+chr(39)}" for n in trusted]
        if built and failed and not cfail: companion(seed + 7919, 2)       # a second search for a failing input
        cov["bounded_companion"] = dict(label="bounded: random executions of the real code against the executable contracts; never counted as proved", cases=sum(c["cases"] for c in cs), suites=cs, covers_unproved=P["bounded"])
        kn = known(pid)
        for k in kn: print("KNOWN-FINDING: " + k)
        if P["level"] != "proof":
            cov["evaluations"] = sum(c["cases"] for c in cs); cov["distinct_nontrivial"] = cov["evaluations"]; cov["rule"] = "seeded random cases, each distinct by its index"; cov["samples"] = [s for c in cs for s in c["samples"]]
        rp = os.path.join(HERE, "evidence", f"replay_{pid}.json")
        if cfail:
            ev["violations"] = len(cfail)
            json.dump(dict(property=pid, **cfail[0], failed_obligations=failed[:20], how="python3 /verif/replay.py <this file>"), open(rp, "w"), indent=1, default=str)
            viol = f"VIOLATION property={pid} replay={rp}"
            print("failing input:", cfail[0]["msg"][:500])
        elif failed:
            ev["violations"] = len(failed)
            json.dump(dict(property=pid, failed_obligations=failed[:40], solver_output=[f.get("info", "")[:1500] for f in failed[:5]]), open(rp, "w"), indent=1, default=str)
            viol = f"VIOLATION property={pid} replay={rp} no-failing-input-found"
        for f in failed[:8]: print(f"failed obligation: {f['function']}: {f['label']} (line {f['line']}) [{f['res']}]")
        for u in und: print("not decided:", u[:300])
        print(f"{pid}: {cov['discharged']}/{cov['obligations']} obligations in {len(per)} functions, companion {sum(c['cases'] for c in cs)} cases, {time.time() - t0:.0f}s")
    finally:
        ev["wall_s"] = round(time.time() - t0, 2)
        json.dump(ev, open(os.path.join(HERE, "evidence", pid + ".json"), "w"), indent=1, default=str)
        shutil.rmtree(scratch, ignore_errors=True)
    if viol: print(viol); sys.exit(1)
    if not cs and cov["discharged"] == 0: sys.exit(2)       # nothing could be run at all: no answer
    sys.exit(0)
if __name__ == "__main__":
    try: main()
    except SystemExit: raise
    except BaseException:
        traceback.print_exc(); print("internal error of the check"); sys.exit(2)
