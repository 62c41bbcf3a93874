"""dev: python3-vt -m vc.dev specmodule file.c[,file.c] fn [fn...]"""
import sys, importlib, time, traceback
from .front import Program
from .engine import Exec
from .smt import prove
def main():
    mods = sys.argv[1].split(","); files = sys.argv[2].split(","); fns = sys.argv[3:]
    for m in mods: importlib.import_module("specs." + m)
    from specs.lib import C
    pr = Program(["src/" + f for f in files])
    if not fns: fns = [n for n in C if pr.find(n) and not C[n].trusted]
    from . import smt
    if not sys.argv[3:]: fns = ["lemma:" + l for l in smt.Lemma.table] + fns
    for fn in fns:
        if fn.startswith("lemma:"):
            for lab, h, g in smt.Lemma.table[fn[6:]].obligations():
                r, be, t, info = prove(h, g, 4000); print("ok  " if r == "proved" else "FAIL", fn, lab, be, "%.1f" % t)
            continue
        t0 = time.time()
        try:
            ex = Exec(pr, C, fn); obs = ex.run()
        except Exception as e:
            print("!!", fn, type(e).__name__, e); 
            if "-t" in sys.argv or not type(e).__name__ == "ExtractionError": traceback.print_exc()
            continue
        t1 = time.time(); bad = 0
        for o in obs:
            r, be, t, info = prove(o.hyps, o.goal, 4000)
            if r != "proved":
                bad += 1; print("  ", r, o.name(), o.kind, "%.1fs" % t)
                if bad <= 2: print("      goal:", str(o.goal)[:600])
        print(("ok  " if not bad else "FAIL"), fn, len(obs), "obligations", "exits", ex.reached_exit, "exec %.1fs solve %.1fs" % (t1 - t0, time.time() - t1))
main()
