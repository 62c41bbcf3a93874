"""Belief grids and belief lists (P17), sampled observations and trajectories (P18), in process."""
from .base import *
from .modelgen import *
from .suite_core import start, stop, dotp, snap, lst, vec, proj, shares, possible, projections
import random as _random
OPS = {"P17": ["grid", "grid", "improve", "blist"], "P18": ["sample", "traj"]}
def gen(rng, i, prop):
    op = rng.choice(OPS.get(prop) or sum(OPS.values(), [])); M = model(rng, 4, 3, 3)
    c = dict(op=op, seed=rng.randint(0, 10**9), M=M, kind=rng.randrange(4), pts=rng.choice([1, 2, 3, 5, 10, 40]), eps=rng.choice([1e-9, 1e-3, 0.05]))
    c["prev"] = [[rng.randrange(M["A"]), vec(rng, M["S"])] for _ in range(rng.choice([1, 1, 2, 3, 5]))]
    if rng.random() < .5: M["start"] = dist(rng, M["S"])
    if op == "blist": c["bs"] = [[round(rng.random(), 3) if rng.random() < .8 else 0.0 for _ in range(M["S"])] for _ in range(rng.randint(1, 5))]; c["max"] = rng.choice([0, -1, 1, 2, 3, 99]); c["cut"] = rng.choice([None, None, "mid", "junk"])
    return c
def run(lib, c):
    M = c["M"]; par = start(lib, M)
    try: globals()["op_" + c["op"]](lib, c, M, par)
    finally: stop(lib, par)
def beliefs(lib, L, S, lim=10000):
    o = []
    while L and len(o) < lim: o.append(lib.rd(lib.get("BeliefListStruct", "b", L, PTR), S)); L = lib.get("BeliefListStruct", "next", L, PTR)
    return o
def bayes(M, b, a, z):
    n = [M["O"][a][t][z] * math.fsum(b[s] * M["T"][a][s][t] for s in range(M["S"])) for t in range(M["S"])]; d = math.fsum(n)
    return (d, [x / d for x in n] if d > 0 else None)
def mkgrid(lib, c, M, par, save=None):
    opts = lib.fn("vf_new_opts", PTR, INT, INT)(lib.fn("vf_method", INT, INT)(0), lib.fn("vf_crit", INT, INT)(0))
    lib.fn("vfos_finite_grid_type", None, PTR, INT)(opts, lib.fn("vf_fgtype", INT, INT)(c["kind"])); lib.fn("vfos_finite_grid_points", None, PTR, INT)(opts, c["pts"])
    lib.fn("vfos_fg_epsilon", None, PTR, D)(opts, c["eps"]); lib.fn("vfos_finite_grid_save", None, PTR, INT)(opts, int(bool(save)))
    if save: lib.fn("vfos_prefix", None, PTR, CH)(opts, save.encode())
    lib.set("PomdpSolveParamStruct", "opts", par, opts, PTR)
    f = lib.fn("vf_fopen", PTR, CH, CH)(b"/dev/null", b"w"); lib.set("PomdpSolveParamStruct", "report_file", par, f, PTR)
    lib.fn("initFiniteGrid", None, PTR)(par); return f, opts
def op_grid(lib, c, M, par):
    S, A, Z = M["S"], M["A"], M["Z"]; p = os.path.join(lib.scratch, f"g{os.getpid()}") if c["seed"] % 3 == 0 else None
    f, opts = mkgrid(lib, c, M, par, p); G = lib.gp("gFiniteGrid"); bs = beliefs(lib, G, S); e = c["eps"]; kind = ["simplex", "pairwise", "search", "initial"][c["kind"]]
    w = f"{kind} grid, at most {c['pts']} points, tolerance {e}: {bs}\n{text(M)}"
    check(len(bs) == lib.fn("sizeBeliefList", INT, PTR)(G) >= 1, f"recorded size {lib.fn('sizeBeliefList', INT, PTR)(G)}; {w}")
    for b in bs: check(abs(math.fsum(b) - 1) < 1e-6 and min(b) >= 0, f"{b} is not a belief; {w}")
    for i in range(len(bs)):
        for j in range(i): check(any(abs(x - y) >= e for x, y in zip(bs[i], bs[j])), f"belief {bs[i]} stored twice; {w}")
    corners = [[1.0 if i == j else 0.0 for j in range(S)] for i in range(S)]; has = lambda b: any(max(abs(x - y) for x, y in zip(b, q)) < 1e-9 for q in bs)
    if c["kind"] < 2:
        want = corners + ([[0.5 if k in (i, j) else 0.0 for k in range(S)] for i in range(S) for j in range(i)] if c["kind"] else [])
        check(len(bs) == len(want) and all(has(b) for b in want), f"expected {want}; {w}")
    else:
        check(len(bs) <= c["pts"], f"{len(bs)} beliefs stored; {w}")
        if c["kind"] == 3:
            ini = M.get("start") or [1.0 / S] * S; check(bs[0] == ini or max(abs(x - y) for x, y in zip(bs[0], ini)) < 1e-12, f"does not begin at the initial belief; {w}")
        if len(bs) < c["pts"]:      # the search ended: closed under updates within the tolerance
            for b in bs:
                for a in range(A):
                    for z in range(Z):
                        d, q = bayes(M, b, a, z)
                        if d > 1e-9: check(any(max(abs(x - y) for x, y in zip(q, r)) < e + 1e-7 for r in bs), f"successor {q} of {b} (action {a}, observation {z}) is missing; {w}")
        if c["kind"] == 3:          # every belief but the first is the update of another
            for b in bs[1:]:
                check(any(d > 1e-11 and max(abs(x - y) for x, y in zip(q, b)) < 1e-6 for r in bs if r != b or True for a in range(A) for z in range(Z) for d, q in [bayes(M, r, a, z)] if q), f"{b} is not reached by any update; {w}")
    if p:
        L = lib.fn("readBeliefList", PTR, CH, INT)((p + ".belief").encode(), 0); rb = beliefs(lib, L, S)
        check(len(rb) == len(bs) and all(max(abs(x - y) for x, y in zip(u, v)) < 1e-12 for u, v in zip(rb, bs)), f"the saved grid reads back as {rb}; {w}"); lib.fn("destroyBeliefList", None, PTR)(L); os.unlink(p + ".belief")
    A1, A2 = lst(lib, c["prev"]), lst(lib, [[0, [x + 1.5 if i else x - 4 for i, x in enumerate(v)]] for _, v in c["prev"][:2]])
    lib.set("PomdpSolveParamStruct", "alpha_epsilon", par, 1e-9, D); er = lib.fn("FG_computeError", D, PTR, PTR, PTR)(A1, A2, par)
    mv = lambda L, b: max(dotp(lib.av(n, S), b) for n in lib.nodes(L)); want = max(abs(mv(A1, b) - mv(A2, b)) for b in bs)
    check(abs(er - want) < 1e-7, f"difference over the grid {er}, should be {want}; {w}")
    for L in (A1, A2): lib.fn("destroyAlphaList", None, PTR)(L)
    lib.fn("cleanUpFiniteGrid", None)(); lib.free(opts); lib.fn("vf_fclose", None, PTR)(f)
def op_improve(lib, c, M, par):
    S, A, Z = M["S"], M["A"], M["Z"]; f, opts = mkgrid(lib, c, M, par); bs = beliefs(lib, lib.gp("gFiniteGrid"), S); RI = shares(M, False)
    k = c["seed"] % 3; lib.set("PomdpSolveParamStruct", "fg_purge_option", par, lib.fn("vf_purge", INT, INT)(k), INT); lib.set("PomdpSolveParamStruct", "alpha_epsilon", par, 1e-9, D); lib.set("PomdpSolveParamStruct", "prune_epsilon", par, 1e-9, D); lib.set("PomdpSolveParamStruct", "epsilon", par, 1e-9, D)
    lib.set("PomdpSolveParamStruct", "sparse_epsilon", par, 1e-9, D)
    prev = lst(lib, c["prev"]); pv = [v for _, v in c["prev"]]; pr = projections(lib, M, prev); V = lib.fn("improveFiniteGrid", PTR, PTR, PTR)(pr, par); ns = lib.nodes(V); w = f"grid {bs}, previous {c['prev']}, purge {k}\n{text(M)}"
    vs = [(lib.af(n, "action"), lib.av(n, S)) for n in ns]; check(1 <= len(ns) <= len(bs), f"{len(ns)} vectors for {len(bs)} beliefs; {w}")
    pa = [[[proj(M, RI, a, z, v) for v in pv] if possible(M, a, z) else [[RI[a][s] / Z for s in range(S)]] for z in range(Z)] for a in range(A)]
    for b in bs:
        q = [math.fsum(max(dotp(v, b) for v in pa[a][z]) for z in range(Z)) for a in range(A)]
        g = max(dotp(v, b) for _, v in vs); sc = max(1, abs(max(q)))
        check(abs(g - max(q)) < 1e-6 * sc, f"value {g} at grid belief {b}, the backup is {max(q)}; {w}")
        ba = max(vs, key=lambda x: dotp(x[1], b))[0]; check(any(close(dotp(v, b), g, 1e-7) and close(q[a], max(q), 1e-6) for a, v in vs), f"no best vector at {b} carries a best action (action values {q}); {w}")
    lib.fn("destroyAlphaList", None, PTR)(V); lib.fn("freeAllProjections", None, PTR)(pr); lib.fn("destroyAlphaList", None, PTR)(prev); lib.fn("cleanUpFiniteGrid", None)(); lib.free(opts); lib.fn("vf_fclose", None, PTR)(f)
def op_blist(lib, c, M, par):
    S = M["S"]; rng = _random.Random(c["seed"]); L = None; ref = []
    for b in c["bs"]:
        p = lib.darr(b)
        if rng.random() < .6: L = lib.fn("appendBeliefList", PTR, PTR, PTR)(L, p); ref.append(b)
        else: L = lib.fn("prependBeliefList", PTR, PTR, PTR)(L, p); ref.insert(0, b)
        ctypes.memmove(p, (D * S)(*[9.0] * S), 8 * S); lib.free(p); check(beliefs(lib, L, S) == ref, f"list is {beliefs(lib, L, S)}, expected {ref}"); check(lib.fn("sizeBeliefList", INT, PTR)(L) == len(ref), "recorded size wrong")
    for b in c["bs"] + [[x + 0.01 for x in c["bs"][0]]]:
        p = lib.darr(b); e = rng.choice([1e-6, 0.02]); r = lib.fn("findBeliefState", PTR, PTR, PTR, D)(L, p, e); idx = next((i for i, x in enumerate(ref) if all(abs(u - v) < e for u, v in zip(x, b))), None)
        if idx is None: check(r is None, f"{b} found in {ref} within {e}")
        else:
            nd = L
            for _ in range(idx): nd = lib.get("BeliefListStruct", "next", nd, PTR)
            check(r == nd, f"{b} not found at position {idx} of {ref} within {e}")
        lib.free(p)
    f = os.path.join(lib.scratch, f"b{os.getpid()}.belief"); lib.fn("saveBeliefList", None, PTR, CH)(L, f.encode()); check(beliefs(lib, L, S) == ref, "saving changed the list")
    t = open(f).read().split(); bad = False
    if c["cut"] == "mid" and S > 1: t = t[:-1]; bad = True
    if c["cut"] == "junk": t[len(t) // 2] = "x" + t[len(t) // 2]; bad = True
    if bad: open(f, "w").write(" ".join(t))
    R_ = lib.fn("readBeliefList", PTR, CH, INT)(f.encode(), c["max"]); got = beliefs(lib, R_, S); m = c["max"]; lim = len(ref) if m <= 0 else min(m, len(ref))
    if bad and (m <= 0 or m >= len(ref)): check(R_ is None, f"a malformed file was read as {got}")
    elif not bad: check(len(got) == lim and all(max(abs(x - y) for x, y in zip(u, v)) < 1e-12 for u, v in zip(got, ref)), f"read back {got}, saved {ref}, maximum {m}")
    lib.fn("destroyBeliefList", None, PTR)(L); lib.fn("destroyBeliefList", None, PTR)(R_); os.unlink(f)
def setseed(lib, k): lib.fn("setRandomSeed", None, PTR)(ctypes.cast((ctypes.c_ushort * 3)(k & 0xffff, (k >> 16) & 0xffff, 7), PTR).value)
def randb(rng, S):
    q = [rng.choice([0, 0, 1, 2, 5]) for _ in range(S)]
    if not sum(q): q[rng.randrange(S)] = 1
    return [x / sum(q) for x in q]
def op_sample(lib, c, M, par):
    S, A, Z = M["S"], M["A"], M["Z"]; rng = _random.Random(c["seed"]); b = randb(rng, S); a = rng.randrange(A); bp = lib.darr(b); nb = lib.darr([9.0] * S)
    pz = [bayes(M, b, a, z)[0] for z in range(Z)]; w = f"belief {b}, action {a}, observation probabilities {pz}\n{text(M)}"; cnt = [0] * Z
    setseed(lib, c["seed"]); N = 300
    for k in range(N):
        o = lib.fn("getBeliefObservation", INT, INT, PTR)(a, bp); check(0 <= o < Z and pz[o] > 0, f"observation {o} drawn; {w}"); cnt[o] += 1
    for z in range(Z): check(abs(cnt[z] - N * pz[z]) <= 8 * math.sqrt(N * pz[z] * (1 - pz[z]) + 1) + 1, f"observation {z} drawn {cnt[z]} times of {N}; {w}")
    for k in range(5):
        o = lib.fn("updateBeliefState", INT, PTR, INT, PTR)(bp, a, nb); check(0 <= o < Z and pz[o] > 0, f"observation {o} drawn; {w}"); d, q = bayes(M, b, a, o)
        if d > 1e-6: check(all(abs(x - y) < 1e-8 for x, y in zip(q, lib.rd(nb, S))), f"next belief {lib.rd(nb, S)} after observation {o}, expected {q}; {w}")
    check(lib.rd(bp, S) == b, f"the belief changed; {w}"); lib.free(bp); lib.free(nb)
def op_traj(lib, c, M, par):
    S, A, Z = M["S"], M["A"], M["Z"]; rng = _random.Random(c["seed"]); n = rng.choice([0, 1, 2, 5, 12]); b0 = randb(rng, S) if rng.random() < .6 else None; pol = lst(lib, c["prev"]) if rng.random() < .5 else None; runs = []
    for rep in range(2):
        T = lib.fn("newTrajectory", PTR, INT)(n); setseed(lib, c["seed"] ^ 5); bp = lib.darr(b0) if b0 else None
        lib.fn("generateTrajectory", None, PTR, PTR, PTR)(T, bp, pol); o = []; t = T; g = lambda f, ty=PTR: lib.get("TrajectoryStruct", f, t, ty)
        while t: last = g("next") is None; o.append((lib.rd(g("belief"), S), None if last else g("action", INT), None if last else g("obs", INT))); t = g("next")
        runs.append(o); lib.fn("freeTrajectory", None, PTR)(T)
        if bp: lib.free(bp)
    w = f"trajectory {runs[0]}, policy {c['prev'] if pol else None}\n{text(M)}"
    check(runs[0] == runs[1], f"same seed, different trajectory: {runs[1]}; {w}"); check(len(runs[0]) == n, f"{len(runs[0])} steps of {n}; {w}")
    if n: check(runs[0][0][0] == b0 if b0 else abs(sum(runs[0][0][0]) - 1) < 1e-9, f"does not start at {b0}; {w}")
    for x, y in zip(runs[0], runs[0][1:]):
        check(0 <= x[1] < A and 0 <= x[2] < Z, f"action or observation out of range; {w}"); d, q = bayes(M, x[0], x[1], x[2]); check(d > 0, f"impossible observation {x[2]} drawn; {w}")
        if d > 1e-6: check(all(abs(u - v) < 1e-7 for u, v in zip(q, y[0])), f"belief {y[0]} after {x}, expected {q}; {w}")
        if pol:
            v = [dotp(u, x[0]) for _, u in c["prev"]]; check(any(a == x[1] and close(z, max(v), 1e-6) for z, (a, _) in zip(v, c["prev"])), f"action {x[1]} is not the policy's; {w}")
    if pol: lib.fn("destroyAlphaList", None, PTR)(pol)
