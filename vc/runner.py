"""Parallel discharge of every obligation of a list of functions under contract."""
import os, sys, time, json, importlib, multiprocessing as mp, signal, traceback
from .front import Program, ExtractionError
from .engine import Exec
from . import smt
SPECMODS = None
def load_specs():
    d = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "specs")
    for f in sorted(os.listdir(d)):
        if f.endswith(".py") and f not in ("__init__.py", "lib.py"): importlib.import_module("specs." + f[:-3])
    from specs.lib import C
    return C

def work(prog, C, fn, shard, nsh, deadline, q, retry=True):
    """verify one shard of a function's obligations; results are sent as plain data"""
    t0 = time.time(); out = dict(fn=fn, shard=shard, obs=0, proved=0, by={}, failed=[], err=None, exits=0, vacuous=None, assumptions=[], inlined=[], used=[], lines=0, solver=0.0)
    try:
        if fn.startswith("lemma:"): return work_lemma(fn, deadline, q, out, t0)
        smt.Lemma.used.clear()
        ex = Exec(prog, C, fn); obs = ex.run(); out["used"] = sorted("lemma:" + x for x in smt.Lemma.used)
        out["exits"] = ex.reached_exit; out["inlined"] = sorted(ex.inlined); out["used"] = sorted(set(out["used"]) | ex.used); out["assumptions"] = sorted(str(a) for a in ex.assumptions)
        out["gen_s"] = time.time() - t0
        if shard == 0:
            # vacuity: the precondition must be satisfiable as far as the solver can tell, and some exit reachable
            import z3
            s = z3.SimpleSolver(); s.set("timeout", 1500); s.set("auto_config", False); s.set("mbqi", False); s.add(*ex.pre_pc)
            if s.check() == z3.unsat: out["failed"].append(dict(label="vacuity: precondition is contradictory", line=0, kind="vacuity", res="refuted", info="", t=0))
            for where in vacuous(obs): out["failed"].append(dict(label="vacuity: assumptions at " + where + " are contradictory", line=0, kind="vacuity", res="refuted", info="", t=0))
        mine = obs[shard::nsh]; later = []
        def done(o, res):
            r, be, t, info = res
            if r == "proved": out["proved"] += 1; out["by"][be] = out["by"].get(be, 0) + 1
            else: out["failed"].append(dict(label=o.label, line=o.line, kind=o.kind, res=r, info=info[:3000], t=round(t, 1), goal=str(o.goal)[:1500]))
        for o in mine:          # first pass: quick attempts only
            out["obs"] += 1
            if time.time() > deadline:
                out["failed"].append(dict(label=o.label, line=o.line, kind=o.kind, res="timeout", info="check deadline", t=0)); continue
            res = smt.prove(o.hyps, o.goal, 4000, deep=False); out["solver"] += res[2]
            if res[0] == "proved": done(o, res)
            else: later.append((o, res))
        out["late"] = [o.label for o, _ in later]
        hard = 0 if retry else 4
        for o, res in later:    # second pass: other seeds, longer limits, other solvers; once four have failed the rest are not pursued
            for ms, seed, deep in ((6000, 11, True), (15000, 3, False), (15000, 23, False), (40000, 7, True)):
                if hard >= 4 or time.time() + ms / 250 > deadline: break
                res = smt.prove(o.hyps, o.goal, ms, deep=deep, seed=seed); out["solver"] += res[2]
                if res[0] != "unknown": break
            if res[0] != "proved": hard += 1
            done(o, res)
    except ExtractionError as e: out["err"] = "outside the verifier's reach: " + str(e)
    except RecursionError as e: out["err"] = "recursion limit"
    except MemoryError: out["err"] = "memory"
    except Exception as e: out["err"] = "internal: " + "".join(traceback.format_exception(e))[-1500:]
    out["wall"] = time.time() - t0
    q.put(out)

def vacuous(obs):
    """places (function exit, end of each loop body) every path to which has contradictory assumptions: contracts proved from
    False would be worthless, so this is reported like a failed obligation"""
    import z3, re
    groups = {}
    for o in obs:
        if o.kind == "post": g = "the function's exit"
        elif o.kind == "inv" and " invariant preserved" in o.label: g = "the end of the body of " + o.label.split(" invariant")[0]
        else: continue
        hs = o.hyps; groups.setdefault(g, {}).setdefault((len(hs), hs[-1].get_id() if len(hs) else 0), hs)
    bad = []
    for g, paths in groups.items():
        dead = True
        for hs in list(paths.values())[-12:]:
            s = z3.SimpleSolver(); s.set("timeout", 700); s.set("auto_config", False); s.set("mbqi", False); s.add(*hs)
            if s.check() != z3.unsat: dead = False; break
        if dead: bad.append(g)
    return bad

def work_lemma(fn, deadline, q, out, t0):
    smt.Lemma.used.clear()
    for lab, hyps, goal in smt.Lemma.table[fn[6:]].obligations():
        out["obs"] += 1
        r, be, t, info = smt.prove(hyps, goal, 8000, deep=True); out["solver"] += t
        if r == "proved": out["proved"] += 1; out["by"][be] = out["by"].get(be, 0) + 1
        else: out["failed"].append(dict(label="lemma " + lab, line=0, kind="lemma", res=r, info=info[:3000], t=round(t, 1), goal=str(goal)[:1500]))
    out["used"] = sorted("lemma:" + x for x in smt.Lemma.used); out["exits"] = 1
    out["wall"] = time.time() - t0
    q.put(out)

def verify(files, fns, jobs=8, limit=600, shards=None, generated=None, retry=True):
    """-> list of result dicts, one per function"""
    sys.setrecursionlimit(20000)
    C = load_specs()
    t_end = time.time() + limit
    prog = Program(files, generated=generated)
    ctx = mp.get_context("fork"); q = ctx.Queue()
    tasks = []
    for fn in fns:
        n = getattr(C.get(fn), "shards", 1) if fn in C else 1
        for s in range(n): tasks.append((n, fn, s))
    tasks.sort(key=lambda t: -t[0])
    lem = set(); res = []; running = {}; done = set()
    def absorb(timeout):
        import queue
        try: r = q.get(timeout=timeout)
        except queue.Empty: return
        res.append(r); done.add((r["fn"], r["shard"]))
    ti = 0
    while ti < len(tasks) or running:
        while ti < len(tasks) and len(running) < jobs:
            n, fn, s = tasks[ti]; ti += 1
            if fn not in C and not fn.startswith("lemma:"):
                res.append(dict(fn=fn, shard=0, obs=0, proved=0, by={}, failed=[], err="no contract", exits=0, assumptions=[], inlined=[], used=[], solver=0, wall=0)); continue
            p = ctx.Process(target=work, args=(prog, C, fn, s, n, t_end - 20, q, retry)); p.start()
            running[(fn, s)] = (p, time.time())
        absorb(0.05)
        for r in res:
            for u in r["used"]:
                if u.startswith("lemma:") and u not in lem: lem.add(u); tasks.append((1, u, 0))
        for k, (p, t0) in list(running.items()):
            if k in done: p.join(5); (p.kill() if p.is_alive() else None); del running[k]; continue
            if not p.is_alive():
                for _ in range(40):
                    absorb(0.25)
                    if k in done or p.exitcode: break
                if k not in done:
                    res.append(dict(fn=k[0], shard=k[1], obs=0, proved=0, by={}, failed=[], err=f"verifier process died ({p.exitcode})", exits=0, assumptions=[], inlined=[], used=[], solver=0, wall=time.time() - t0)); done.add(k)
            elif time.time() > t_end:
                p.kill(); p.join()
                res.append(dict(fn=k[0], shard=k[1], obs=0, proved=0, by={}, failed=[], err="time limit", exits=0, assumptions=[], inlined=[], used=[], solver=0, wall=time.time() - t0)); done.add(k)
    by = {}
    for r in res:
        b = by.setdefault(r["fn"], dict(fn=r["fn"], obs=0, proved=0, by={}, failed=[], err=None, exits=0, assumptions=set(), inlined=set(), used=set(), solver=0.0, wall=0.0))
        b["obs"] += r["obs"]; b["proved"] += r["proved"]; b["failed"] += r["failed"]; b["err"] = b["err"] or r["err"]; b["exits"] = max(b["exits"], r["exits"])
        for k, v in r["by"].items(): b["by"][k] = b["by"].get(k, 0) + v
        b["assumptions"] |= set(r["assumptions"]); b["inlined"] |= set(r["inlined"]); b["used"] |= set(r["used"]); b["solver"] += r["solver"]; b["wall"] = max(b["wall"], r["wall"]); b.setdefault("late", []).extend(r.get("late", []))
    return [by[f] for f in list(fns) + sorted(lem) if f in by]
