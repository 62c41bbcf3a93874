"""Projections, cross-sums, point-based backups, neighbours and the difference of value functions, in process."""
from .base import *
from .modelgen import *
import random as _random, itertools
OPS = {"P01": ["proj"], "P02": ["cross", "cross", "chain"], "P04": ["backup"], "P14": ["diff"], "P21": ["neigh"], "P13": ["relink"], "P05": ["prune", "simple"]}
VALS = [-3, 0, 0, 1, 2, 5, 2.5, -1.5, 10, 0.25]
def vec(rng, S): return [float(rng.choice(VALS)) for _ in range(S)]
def gen(rng, i, prop):
    op = rng.choice(OPS.get(prop) or sum(OPS.values(), []))
    M = model(rng, 4, 3, 3)
    c = dict(op=op, seed=rng.randint(0, 10**9), M=M, nonneg=rng.random() < .2)
    n = rng.choice([1, 1, 2, 3, 4, 6])
    c["prev"] = [[rng.randrange(M["A"]), vec(rng, M["S"])] for _ in range(n)]
    c["cur"] = [[rng.randrange(M["A"]), vec(rng, M["S"])] for _ in range(rng.choice([1, 2, 3]))]
    c["src"] = rng.random() < .7; c["dom"] = rng.random() < .5
    if op == "diff": c["M"] = M = model(rng, 3, 2, 2); c["prev"] = [[0, vec(rng, M["S"])] for _ in range(n)]; c["cur"] = [[0, vec(rng, M["S"])] for _ in range(rng.choice([1, 2, 3]))]; c["crit"] = rng.randint(0, 2); c["delta"] = rng.choice([0.1, 1, 5, 20])
    if op == "diff" and rng.random() < .4:
        c["cur"] = [[a, [x + rng.choice([0, 0, 0.05, -0.05, 0.5, 1e-3]) for x in v]] for a, v in c["prev"]]
        if rng.random() < .5: rng.shuffle(c["cur"])
    if op == "diff" and c["M"]["discount"] == 1.0: c["M"]["discount"] = 0.5
    if op == "proj" and M["S"] > 1 and rng.random() < .3:      # rare transitions, large values
        for T in M["T"]:
            r = rng.choice(T); i = max(range(M["S"]), key=lambda k: r[k]); j = (i + 1) % M["S"]; q = rng.choice([0.0005, 0.0001, 0.0009])
            if r[j] == 0.0: r[j] = q; r[i] = round(r[i] - q, 4)
        c["prev"] = [[a, [1000.0 * x for x in v]] for a, v in c["prev"]]
    return c
def start(lib, M, nonneg=False):
    p = os.path.join(lib.scratch, f"c{os.getpid()}.POMDP"); open(p, "w").write(text(M))
    lib.si("gRequireNonNegativeRewards", int(nonneg))
    lib.fn("initializePomdp", None, CH, D)(p.encode(), 1e-9)
    lib.fn("initGlobal", None)(); lib.fn("initCommon", None)()
    par = lib.fn("newPomdpSolveParams", PTR)(); lib.fn("initLpInterface", None, PTR)(par)
    return par
def stop(lib, par):
    lib.fn("cleanUpCommon", None)(); lib.fn("cleanUpGlobal", None)(); lib.fn("cleanUpPomdp", None)(); lib.free(par); lib.si("gRequireNonNegativeRewards", 0)
def shares(M, nonneg):
    RI = immediate(M); raw = [[(-x if M["values"] == "cost" else x) for x in r] for r in RI]
    low = min(0.0, min(x for r in raw for x in r))
    return [[x - low if nonneg and low < 0 else x for x in r] for r in RI]
def possible(M, a, z): return any(M["T"][a][s][t] * M["O"][a][t][z] > 0 for s in range(M["S"]) for t in range(M["S"]))
def proj(M, RI, a, z, v): return [RI[a][s] / M["Z"] + M["discount"] * math.fsum(M["T"][a][s][t] * M["O"][a][t][z] * v[t] for t in range(M["S"])) for s in range(M["S"])]
def run(lib, c):
    M = c["M"]; par = start(lib, M, c["nonneg"])
    try: globals()["op_" + c["op"]](lib, c, M, par, shares(M, c["nonneg"]))
    finally: stop(lib, par)
def snap(lib, L, S, Z=0):
    o = []
    for nd in lib.nodes(L):
        o.append((nd, lib.af(nd, "action"), lib.av(nd, S), lib.af(nd, "prev_source"), lib.af(nd, "first_source"), lib.af(nd, "second_source"), lib.af(nd, "obs"), lib.rp(lib.af(nd, "obs_source"), Z) if Z and lib.af(nd, "obs_source") else None, lib.af(nd, "mark"), lib.af(nd, "id")))
    return o
def lst(lib, x): return lib.mklist([v for _, v in x], [a for a, _ in x])
def projections(lib, M, prev): return lib.fn("makeAllProjections", PTR, PTR)(prev)
def op_proj(lib, c, M, par, RI):
    S, A, Z = M["S"], M["A"], M["Z"]
    prev = lst(lib, c["prev"]); before = snap(lib, prev, S)
    pr = projections(lib, M, prev); check(pr, "no projections built")
    check(lib.fn("makeAllProjections", PTR, PTR)(None) is None, "projection of no list is not NULL")
    for a in range(A):
        rowp = lib.rp(lib.rp(pr, A)[a], Z)
        for z in range(Z):
            L = rowp[z]; ns = lib.nodes(L); w = f"projection of action {a}, observation {z}:\n{text(M)}\nprevious {c['prev']}"
            check(lib.af(L, "action") == a and lib.af(L, "obs") == z, f"header says action {lib.af(L, 'action')}, observation {lib.af(L, 'obs')}; {w}")
            g = lib.ri(lib.rp(lib.gp("gObservationPossible"), A)[a], Z)[z]
            check(bool(g) == possible(M, a, z), f"observation {z} after action {a} recorded as {'possible' if g else 'impossible'}; {w}")
            if not possible(M, a, z):
                check(len(ns) == 1, f"{len(ns)} vectors for an impossible observation; {w}")
                x = ns[0]; check(vclose(lib.av(x, S), [RI[a][s] / Z for s in range(S)]), f"vector {lib.av(x, S)} is not the reward share; {w}")
                check(lib.af(x, "prev_source") is None and lib.af(x, "action") == a and lib.af(x, "obs") == z, f"source/action/observation of the reward share wrong; {w}")
                continue
            check(len(ns) == len(before), f"{len(ns)} vectors for {len(before)}; {w}")
            for x, y in zip(ns, before):
                exp = proj(M, RI, a, z, y[2]); check(vclose(lib.av(x, S), exp, 1e-9), f"projected vector {lib.av(x, S)}, expected {exp}; {w}")
                check(lib.af(x, "prev_source") == y[0] and lib.af(x, "obs") == z, f"source or observation not recorded; {w}")
    check(snap(lib, prev, S) == before, "projecting changed the previous list")
    lib.fn("freeAllProjections", None, PTR)(pr); lib.fn("destroyAlphaList", None, PTR)(prev)
def op_cross(lib, c, M, par, RI):
    S, Z = M["S"], M["Z"]; rng = _random.Random(c["seed"])
    def mk(vs, kind, act):
        L = lst(lib, vs); lib.afs(L, "action", act); cov = []
        for nd in lib.nodes(L):
            if kind == "proj": z = rng.randrange(Z); lib.afs(nd, "obs", z); cov.append({z: nd})
            else:
                os_ = lib.fn("newObsSourceArray", PTR)(); d = {}
                for z in range(Z):
                    if rng.random() < .5: d[z] = nd + 16 * (z + 1)
                ctypes.memmove(os_, (PTR * Z)(*[d.get(z) for z in range(Z)]), 8 * Z); lib.afs(nd, "obs_source", os_); cov.append(d)
        return L, cov
    act = rng.randrange(M["A"])
    A_, ca = mk(c["prev"], rng.choice(["proj", "sum"]), act); B_, cb = mk(c["cur"] if rng.random() < .9 else [], rng.choice(["proj", "sum"]), act)
    sa, sb = snap(lib, A_, S, Z), snap(lib, B_, S, Z)
    V = lib.fn("crossSum", PTR, PTR, PTR, INT)(A_, B_, int(c["src"])); w = f"cross-sum of {c['prev']} and {[x[1:3] for x in sb]} (sources tracked: {c['src']})"
    ns = lib.nodes(V); check(len(ns) == len(sa) * len(sb), f"{len(ns)} vectors; {w}"); check(lib.af(V, "action") == act, f"set action {lib.af(V, 'action')}, operands {act}; {w}")
    k = 0
    for i, x in enumerate(sa):
        for j, y in enumerate(sb):
            nd = ns[k]; k += 1
            check(vclose(lib.av(nd, S), [p + q for p, q in zip(x[2], y[2])], 1e-12), f"vector {k - 1} is {lib.av(nd, S)}, expected the sum of {x[2]} and {y[2]}; {w}")
            check(lib.af(nd, "action") == act, f"vector {k - 1} has action {lib.af(nd, 'action')}; {w}")
            check(lib.af(nd, "first_source") == x[0] and lib.af(nd, "second_source") == y[0], f"parents of vector {k - 1} wrong; {w}")
            o = lib.af(nd, "obs_source")
            if not c["src"]: check(o is None, f"choices recorded though not asked for; {w}"); continue
            o = lib.rp(o, Z)
            for z in range(Z):
                want = {m[z] for m in (ca[i], cb[j]) if z in m} or {None}
                check(o[z] in want, f"choice of observation {z} in vector {k - 1} is {o[z]}, the operands give {want}; {w}")
    check(snap(lib, A_, S, Z) == sa and snap(lib, B_, S, Z) == sb, f"the operands changed; {w}")
    for L in (V, A_, B_): lib.fn("destroyAlphaList", None, PTR)(L)
def op_chain(lib, c, M, par, RI):
    """cross-sum of all observations' projections = every choice function"""
    S, A, Z = M["S"], M["A"], M["Z"]; prev = lst(lib, c["prev"][:3]); pr = projections(lib, M, prev); a = c["seed"] % A
    ps = lib.rp(lib.rp(pr, A)[a], Z)
    if Z > 1:
        order = list(range(Z)); _random.Random(c["seed"]).shuffle(order)
        cur = ps[order[0]]; tmp = []
        for z in order[1:]: cur = lib.fn("crossSum", PTR, PTR, PTR, INT)(cur, ps[z], 1); tmp.append(cur)
        opts = [lib.nodes(p) for p in ps]; got = {}
        for nd in lib.nodes(cur):
            ch = tuple(lib.rp(lib.af(nd, "obs_source"), Z)); check(ch not in got, "the same choices appear twice"); got[ch] = lib.av(nd, S)
        exp = set(itertools.product(*opts)); check(set(got) == exp, f"{len(got)} choice functions in the cross-sum of all projections, expected {len(exp)}:\n{text(M)}")
        for ch, v in got.items(): check(vclose(v, [math.fsum(lib.av(p, S)[s] for p in ch) for s in range(S)], 1e-9), f"vector {v} is not the sum of its choices:\n{text(M)}")
        for t in tmp: lib.fn("destroyAlphaList", None, PTR)(t)
    lib.fn("freeAllProjections", None, PTR)(pr); lib.fn("destroyAlphaList", None, PTR)(prev)
def relpoints(rng, S): return beliefs(rng, S, 3) + [dist(rng, S)]
def op_backup(lib, c, M, par, RI):
    S, A, Z = M["S"], M["A"], M["Z"]; rng = _random.Random(c["seed"]); e = 1e-9
    prev = lst(lib, c["prev"]); pr = projections(lib, M, prev); P_ = [lib.rp(lib.rp(pr, A)[a], Z) for a in range(A)]
    pv = [v for _, v in c["prev"]]; seen = lib.fn("newAlphaList", PTR)()
    PV = [[[lib.av(n, S) for n in lib.nodes(P_[a][z])] for z in range(Z)] for a in range(A)]
    w = f"previous {c['prev']}\n{text(M)}"
    for b in relpoints(rng, S):
        q = [math.fsum(max(dotp(v, b) for v in PV[a][z]) for z in range(Z)) for a in range(A)]
        bp = lib.darr(b); best = ctypes.c_void_p()
        val = lib.fn("oneStepValue", D, PTR, PTR, PTR, D)(bp, pr, ctypes.addressof(best), e)
        check(close(val, max(q), 1e-8), f"backup value {val} at {b}, expected {max(q)}; {w}")
        if not c["nonneg"]:
            ex = value(M, RI, b, 1, pv); check(close(val, ex, 1e-7), f"backup value {val} at {b}, expectation from the model {ex}; {w}")
        check(best.value, f"no best vector; {w}"); ba = lib.af(best.value, "action"); check(0 <= ba < A and close(q[ba], max(q), 1e-8), f"best action {ba} with values {q}; {w}")
        cv = lib.rp(lib.gp("gCurAlphaVector"), A)
        for a in range(A):
            ch = lib.rp(lib.af(cv[a], "obs_source"), Z); check(lib.af(cv[a], "action") == a, f"vector of action {a} is labelled {lib.af(cv[a], 'action')}; {w}")
            for z in range(Z):
                ms = lib.nodes(P_[a][z]); check(ch[z] in ms, f"choice for observation {z} is not one of its projections; {w}")
                check(dotp(lib.av(ch[z], S), b) >= max(dotp(v, b) for v in PV[a][z]) - 1e-8, f"choice for observation {z} of action {a} at {b} is not best; {w}")
            check(vclose(lib.av(cv[a], S), [math.fsum(lib.av(x, S)[s] for x in ch) for s in range(S)], 1e-9), f"vector of action {a} is not the sum of its choices; {w}")
        # adding it to a set
        n0 = lib.nodes(seen); sv = [lib.av(n, S) for n in n0]
        bv = lib.av(best.value, S); bc = lib.rp(lib.af(best.value, "obs_source"), Z)
        r = lib.fn("makeAlphaVector", PTR, PTR, PTR, PTR, D)(seen, pr, bp, e); n1 = lib.nodes(seen)
        if any(max(abs(x - y) for x, y in zip(v, bv)) < e / 2 for v in sv): check(r is None and n1 == n0, f"a vector already present was added again; {w}")
        elif all(max(abs(x - y) for x, y in zip(v, bv)) > 2 * e for v in sv):
            check(n1[:-1] == n0 and r == n1[-1] if n1 else False, f"the new vector was not appended; {w}")
            check(vclose(lib.av(r, S), bv) and lib.af(r, "action") == ba and lib.rp(lib.af(r, "obs_source"), Z) == bc, f"the added vector differs from the best one; {w}")
        # one action only
        a = rng.randrange(A); L = lib.fn("newAlphaList", PTR)(); sw = rng.randint(0, 1)
        r = lib.fn("addVectorAtBeliefQ", PTR, PTR, PTR, PTR, INT, D)(L, bp, lib.rp(pr, A)[a], sw, e)
        check(r and lib.nodes(L) == [r] and lib.af(r, "action") == a and close(dotp(lib.av(r, S), b), q[a], 1e-8), f"vector added for action {a} at {b}: value {dotp(lib.av(r, S), b) if r else None}, expected {q[a]}; {w}")
        ch = lib.rp(lib.af(r, "obs_source"), Z); check(vclose(lib.av(r, S), [math.fsum(lib.av(x, S)[s] for x in ch) for s in range(S)], 1e-9), f"added vector is not the sum of its recorded choices; {w}")
        if sw: check(lib.af(r, "witness") and lib.rd(lib.af(r, "witness"), S) == b, f"the witness point is not the belief; {w}")
        check(lib.fn("addVectorAtBeliefQ", PTR, PTR, PTR, PTR, INT, D)(L, bp, lib.rp(pr, A)[a], sw, e) is None and len(lib.nodes(L)) == 1, f"the same vector was added twice; {w}")
        lib.fn("destroyAlphaList", None, PTR)(L); lib.free(bp)
    a = rng.randrange(A); L = lib.fn("newAlphaList", PTR)(); lib.set("PomdpSolveParamStruct", "alg_init_rand_points", par, rng.choice([0, 3]))
    n = lib.fn("initListSimpleQ", INT, PTR, PTR, PTR)(L, lib.rp(pr, A)[a], par); ns = lib.nodes(L); check(n == len(ns) >= 1, f"initial set has {len(ns)} vectors, {n} reported; {w}")
    for s in range(S):
        mx = math.fsum(max(v[s] for v in PV[a][z]) for z in range(Z)); check(close(max(lib.av(x, S)[s] for x in ns), mx, 1e-8), f"initial set of action {a} has value {max(lib.av(x, S)[s] for x in ns)} at corner {s}, expected {mx}; {w}")
    for x in ns: check(lib.af(x, "action") == a, f"initial set of action {a} holds action {lib.af(x, 'action')}; {w}")
    lib.fn("destroyAlphaList", None, PTR)(L); lib.fn("destroyAlphaList", None, PTR)(seen)
    lib.fn("freeAllProjections", None, PTR)(pr); lib.fn("destroyAlphaList", None, PTR)(prev)
def op_prune(lib, c, M, par, RI):
    """LP pruning: no point of the simplex loses value, survivors keep their contents"""
    S, Z = M["S"], M["Z"]; rng = _random.Random(c["seed"]); V = c["prev"] + c["cur"]; rng.shuffle(V); L = lst(lib, V); before = snap(lib, L, S)
    ps = lambda f, v, t=INT: lib.set("PomdpSolveParamStruct", f, par, v, t)
    ps("use_witness_points", rng.randint(0, 1)); ps("prune_init_rand_points", rng.choice([0, 0, 3])); ps("domination_check", rng.randint(0, 1))
    k = rng.choice([0, 1, 2, 2, 2, 4, 3]); w = f"pruning option {k} of {V}"; pe = rng.choice([1e-9, 0.01, 0.5]); ps("prune_epsilon", pe, D); tol = 1e-6
    if k == 3: tol += pe
    if k == 4: lib.fn("normalPrune", INT, PTR, PTR)(L, par)
    else: lib.fn("purgeAlphaList", None, PTR, INT, PTR)(L, k, par)
    after = snap(lib, L, S); old = {x[0]: x for x in before}
    check(all(x[0] in old for x in after) and len({x[0] for x in after}) == len(after), f"the result holds vectors that were not in the set, or twice; {w}")
    for x in after: check(x[1:8] == old[x[0]][1:8], f"a surviving vector changed from {old[x[0]]} to {x}; {w}")
    check(lib.af(L, "length") == len(after), f"recorded length {lib.af(L, 'length')}, {len(after)} members; {w}")
    if k == 0: check([x[0] for x in after] == [x[0] for x in before], f"no pruning asked for; {w}")
    check(after, f"nothing is left; {w}")
    lost = max([margin(x[2], [y[2] for y in after]) for x in before if x[0] not in {y[0] for y in after}] or [0.0])
    check(lost <= tol, f"value lost: {lost}, left are {[y[2] for y in after]}; {w}")
    if k in (2, 4) and len(after) > 1:
        for x in after:
            m = margin(x[2], [y[2] for y in after if y is not x]); check(m > -1e-6, f"{x[2]} is kept but exceeds the others nowhere (margin {m}); {w}")
    lib.fn("destroyAlphaList", None, PTR)(L)
def op_simple(lib, c, M, par, RI):
    """the quick emptiness test says yes only for a vector that is covered"""
    S = M["S"]; rng = _random.Random(c["seed"]); L = lst(lib, c["prev"]); v = list(rng.choice(c["prev"])[1]); e = rng.choice([1e-9, 1e-9, 0.3]); dc = rng.randint(0, 1)
    k = rng.random()
    if k < .3: v = [x - rng.choice([0, 1, 0.5]) for x in v]
    elif k < .6: v = [x - rng.choice([1, 0.5]) for x in v]
    elif k < .7: v = vec(rng, S)
    elif k < .8: v = [x + rng.choice([0, 0, 0.25]) for x in v]
    a = lib.darr(v); r = lib.fn("isEmptyRegionSimpleCheck", INT, PTR, PTR, D, INT)(L, a, e, dc); w = f"vector {v} against {c['prev']}, tolerance {e}, domination check {dc}: answer {r}"
    U = [u for _, u in c["prev"]]; known = any(all(abs(x - y) < e for x, y in zip(u, v)) for u in U); dom = any(all(y > x for x, y in zip(v, u)) for u in U)
    far = all(abs(abs(x - y) - e) > 1e-12 for u in U for x, y in zip(u, v))
    if far: check(bool(r) == (known or (bool(dc) and dom)), f"quick emptiness test wrong; {w}")
    check(lib.fn("isEmptyRegionSimpleCheck", INT, PTR, PTR, D, INT)(L, None, e, dc) == 1 and lib.fn("isEmptyRegionSimpleCheck", INT, PTR, PTR, D, INT)(None, a, e, dc) == 1, "a missing vector or set is not reported empty")
    check([lib.av(n, S) for n in lib.nodes(L)] == U and lib.rd(a, S) == v, f"vector or set changed; {w}"); lib.free(a); lib.fn("destroyAlphaList", None, PTR)(L)
def op_relink(lib, c, M, par, RI):
    S, A, Z = M["S"], M["A"], M["Z"]; prev = lst(lib, c["prev"][:3]); pr = projections(lib, M, prev); a = c["seed"] % A; ps = lib.rp(lib.rp(pr, A)[a], Z)
    if Z > 1:
        cur = ps[0]; tmp = []
        for z in range(1, Z): cur = lib.fn("crossSum", PTR, PTR, PTR, INT)(cur, ps[z], 1); tmp.append(cur)
        exp = [[lib.af(p, "prev_source") for p in lib.rp(lib.af(n, "obs_source"), Z)] for n in lib.nodes(cur)]
        lib.fn("relinkObsSources", None, PTR)(cur)
        got = [lib.rp(lib.af(n, "obs_source"), Z) for n in lib.nodes(cur)]
        check(got == exp, f"after relinking, choices are {got}, expected the sources {exp}:\n{text(M)}")
        for t in tmp: lib.fn("destroyAlphaList", None, PTR)(t)
    lib.fn("freeAllProjections", None, PTR)(pr); lib.fn("destroyAlphaList", None, PTR)(prev)
def op_neigh(lib, c, M, par, RI):
    S, A, Z = M["S"], M["A"], M["Z"]; rng = _random.Random(c["seed"]); e = 1e-9
    prev = lst(lib, c["prev"][:4]); pr = projections(lib, M, prev); a = c["seed"] % A; row = lib.rp(pr, A)[a]; ps = lib.rp(row, Z); opts = [lib.nodes(p) for p in ps]
    sol = lib.fn("newAlphaList", PTR)()
    for _ in range(rng.choice([1, 1, 2])):
        ch = [rng.choice(o) for o in opts]; v = [math.fsum(lib.av(x, S)[s] for x in ch) for s in range(S)]
        nd = lib.fn("newAlphaNode", PTR, PTR, INT)(lib.darr(v), a); o = lib.fn("newObsSourceArray", PTR)(); ctypes.memmove(o, (PTR * Z)(*ch), 8 * Z); lib.afs(nd, "obs_source", o)
        lib.fn("appendNodeToAlphaList", None, PTR, PTR)(sol, nd)
    ag = lib.fn("newAlphaList", PTR)()
    if rng.random() < .4: lib.fn("appendAlphaList", PTR, PTR, PTR, INT)(ag, lib.darr(vec(rng, S)), 0)
    pre = [(n, lib.av(n, S)) for n in lib.nodes(ag)]; before = snap(lib, sol, S, Z)
    n = lib.fn("addAllNeighborsFromList", INT, PTR, PTR, PTR, INT, D)(ag, sol, row, int(c["dom"]), e)
    w = f"action {a}, domination check {c['dom']}, set {[x[2] for x in before]}, previous {c['prev'][:4]}\n{text(M)}"
    ns = lib.nodes(ag); check(len(ns) == len(pre) + n, f"{n} neighbours reported, agenda went from {len(pre)} to {len(ns)}; {w}"); check(ns[n:] == [p for p, _ in pre], f"earlier agenda entries moved; {w}")
    check(snap(lib, sol, S, Z) == before, f"the solution set changed; {w}")
    allv = [(lib.av(x, S), x) for x in ns]
    for x in ns[:n]:
        s0, z, p = lib.af(x, "prev_source"), lib.af(x, "obs"), lib.af(x, "first_source"); src = next((y for y in before if y[0] == s0), None)
        check(src and 0 <= z < Z and p in opts[z] and p != src[7][z], f"entry does not name a replacement of one choice; {w}")
        exp = [math.fsum([src[2][s], -lib.av(src[7][z], S)[s], lib.av(p, S)[s]]) for s in range(S)]
        check(vclose(lib.av(x, S), exp, 1e-9), f"neighbour {lib.av(x, S)}, expected {exp}; {w}")
    for y in before:
        for z in range(Z):
            for p in opts[z]:
                if p == y[7][z]: continue
                v = [y[2][s] - lib.av(y[7][z], S)[s] + lib.av(p, S)[s] for s in range(S)]
                ok = any(max(abs(q - r) for q, r in zip(v, u)) < 2 * e for u, _ in allv) or c["dom"] and any(all(r > q - 1e-9 for q, r in zip(v, u)) for u, _ in allv)
                check(ok, f"neighbour {v} (observation {z}) is neither in the agenda nor dominated there; {w}")
    for x in ns:
        if lib.af(x, "mark"): check(c["dom"] and any(all(r > q for q, r in zip(lib.av(x, S), u)) for u, _ in allv), f"agenda entry {lib.av(x, S)} was marked though nothing dominates it; {w}")
    for L in (ag, sol): lib.fn("destroyAlphaList", None, PTR)(L)
    lib.fn("freeAllProjections", None, PTR)(pr); lib.fn("destroyAlphaList", None, PTR)(prev)
def vertices(cons, n):
    """basic solutions of: max d, d <= (c . b) for c in cons, b >= 0, sum b = 1"""
    best = None
    rows = [("c", k) for k in cons] + [("b", i) for i in range(n)]
    for act in itertools.combinations(rows, n):
        m = [[1.0] * n + [0.0, 1.0]]
        for k, x in act: m.append(list(x) + [-1.0, 0.0] if k == "c" else [1.0 if j == x else 0.0 for j in range(n)] + [0.0, 0.0])
        N = n + 1; ok = True
        for i in range(N):
            p = max(range(i, N), key=lambda r: abs(m[r][i]))
            if abs(m[p][i]) < 1e-12: ok = False; break
            m[i], m[p] = m[p], m[i]
            for r in range(N):
                if r != i and m[r][i]: f = m[r][i] / m[i][i]; m[r] = [x - f * y for x, y in zip(m[r], m[i])]
        if not ok: continue
        sol = [m[i][N] / m[i][i] for i in range(N)]
        if min(sol[:n]) < -1e-9: continue
        if any(dotp(k, sol[:n]) - sol[n] < -1e-8 for k in cons): continue
        if best is None or sol[n] > best[0]: best = (sol[n], sol[:n])
    return best
def margin(v, L):
    """largest margin by which v exceeds every member of L somewhere on the simplex (may be negative)"""
    return vertices([[x - y for x, y in zip(v, u)] for u in L], len(v))[0]
def op_diff(lib, c, M, par, RI):
    S = M["S"]; pv, cv = [v for _, v in c["prev"]], [v for _, v in c["cur"]]
    prev, cur = lst(lib, c["prev"]), lst(lib, c["cur"]); w = f"previous {pv}, current {cv}\n{text(M)}"
    g = max([max(0.0, margin(v, pv)) for v in cv] + [max(0.0, margin(v, cv)) for v in pv]); fwd = max(max(0.0, margin(v, pv)) for v in cv)
    # expected to examine both directions unless values can only grow
    lo = lib.gd("gMinimumImmediateReward"); both = not ((lo >= 0 and M["values"] != "cost") or c["nonneg"])
    e = lib.fn("bellmanError", D, PTR, PTR, PTR)(prev, cur, par); want = g if both else fwd
    check(abs(e - want) <= 1e-6 * max(1, want), f"difference of the value functions {e}, should be {want}; {w}")
    wb = max(min(max(abs(x - y) for x, y in zip(u, v)) for v in pv) for u in cv)
    d = c["delta"]; r = lib.fn("weakBound", D, PTR, PTR, D)(cur, prev, d)
    if wb <= d * (1 - 1e-9): check(close(r, wb, 1e-9), f"vector-wise difference {r}, should be {wb}; {w}")
    elif wb > d * (1 + 1e-9): check(r > d, f"vector-wise difference {r} is not above {d}, it is {wb}; {w}")
    pb, cb = lst(lib, [[a, [1000.0 * x for x in v]] for a, v in c["prev"]]), lst(lib, [[a, [1000.0 * x for x in v]] for a, v in c["cur"]])
    r = lib.fn("weakBound", D, PTR, PTR, D)(cb, pb, 1e9); check(close(r, 1000 * wb, 1e-6), f"vector-wise difference {r} of the sets scaled by 1000, should be {1000 * wb}; {w}")
    lib.fn("destroyAlphaList", None, PTR)(pb); lib.fn("destroyAlphaList", None, PTR)(cb)
    lib.set("PomdpSolveParamStruct", "opts", par, lib.fn("vf_new_opts", PTR, INT, INT)(lib.fn("vf_method", INT, INT)(1), lib.fn("vf_crit", INT, INT)(c["crit"])), PTR); lib.set("PomdpSolveParamStruct", "stop_delta", par, d, D)
    err = lib.darr([-7.0])
    if c["crit"] == 0: lib.fn("sortAlphaList", None, PTR)(prev)
    res = lib.fn("meetStopCriteria", INT, PTR, PTR, PTR, PTR)(prev, cur, err, par); er = lib.rd(err, 1)[0]
    thr = d * (1 - M["discount"]) / (2 * M["discount"])
    if c["crit"] == 0:
        near = lambda X, Y, q: len(X) == len(Y) and all(any(max(abs(p - r) for p, r in zip(x, y)) < q for y in Y) for x in X) and all(any(max(abs(p - r) for p, r in zip(x, y)) < q for y in X) for x in Y)
        if res: check(near(pv, cv, 3e-9) and er == 0, f"exact criterion stops although the sets differ; {w}")
        else: check(pv != cv and er == math.inf, f"exact criterion does not stop on equal sets; {w}")
    else:
        t = want if c["crit"] == 2 else wb
        if res: check(t <= thr * (1 + 1e-6) + 1e-8, f"criterion {c['crit']} stops with difference {t} above {thr}; {w}")
        else: check(t > min(thr, d) * (1 - 1e-6) - 1e-8, f"criterion {c['crit']} goes on with difference {t} below {thr}; {w}")
    lib.free(err); lib.fn("destroyAlphaList", None, PTR)(prev); lib.fn("destroyAlphaList", None, PTR)(cur)
