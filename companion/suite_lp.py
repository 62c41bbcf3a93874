"""Region programs (P11) and the LP layer (P12), in process."""
from .base import *
from .modelgen import *
from .suite_core import start, stop, margin, dotp, snap, lst
from fractions import Fraction as Fr
import random as _random, itertools
OPS = {"P11": ["region", "region", "program"], "P12": ["solve", "solve", "reuse"]}
VALS = [-3, 0, 0, 1, 2, 5, 2.5, -1.5, 10, 0.25, 100, -40]
def gen(rng, i, prop):
    op = rng.choice(OPS.get(prop) or sum(OPS.values(), []))
    if op in ("region", "program"):
        S = rng.choice([1, 2, 2, 3, 3, 4]); n = rng.choice([0, 1, 1, 2, 3, 4]) if op == "region" else rng.choice([1, 2, 3, 5])
        m = lambda: [float(rng.choice(VALS)) for _ in range(S)]
        L = [m() for _ in range(n)]; a = m()
        if L and rng.random() < .25: a = [x + rng.choice([0, 0, 0, 0.05, -0.05, 1]) for x in rng.choice(L)]
        return dict(op=op, S=S, L=L, a=a, seed=rng.randint(0, 10**9), eps=rng.choice([1e-9, 1e-9, 1e-3, 0.5]), sparse=rng.choice([1e-9, 1e-9, 1e-6]))
    n = rng.randint(1, 3); m = rng.randint(1, 4); cf = [-3, -2, -1, 0, 0, 0, 1, 1, 2, 5, 0.5]
    P = []
    for _ in range(2 if op == "reuse" else 1):
        rows = [[rng.choice(cf) for _ in range(n)] for _ in range(m)]
        for j in range(n):
            if not any(r[j] for r in rows): rows[rng.randrange(m)][j] = 1
        P.append(dict(n=n, m=m, rows=rows, sense=[rng.choice("LGE" if rng.random() < .5 else "LG") for _ in range(m)], rhs=[rng.choice([-4, -1, 0, 0, 1, 2, 3, 7.5]) for _ in range(m)], obj=[rng.choice([-3, -1, 0, 1, 1, 2, 4]) for _ in range(n)],
            lo=[rng.choice([0, 0, 0, 1, 0.5]) for _ in range(n)], up=[rng.choice([1, 2, 5, 10, None, None]) for _ in range(n)], mx=rng.random() < .5))
    return dict(op=op, P=P, seed=rng.randint(0, 10**9))
def model1(S): return dict(S=S, A=1, Z=1, discount=0.9, values="reward", T=[[[1.0 if i == j else 0.0 for j in range(S)] for i in range(S)]], O=[[[1.0] for _ in range(S)]], R=[dict(k="one", a=None, s=None, t=None, z=None, v=1)])
def run(lib, c):
    S = c.get("S", 2); par = start(lib, model1(S)); stat = lib.fn("newSolutionStats", PTR, PTR, INT)(None, 0) if False else None
    try: globals()["op_" + c["op"]](lib, c, par, S)
    finally: stop(lib, par)
def decode(lib, lp):
    g = lambda f: lib.get("LpStruct", f, lp); R, Cn = lib.get("LpStruct", "rows", lp, INT), lib.get("LpStruct", "cols", lp, INT)
    p = lambda f: lib.get("LpStruct", f, lp, PTR); D_ = lambda f, n: lib.rd(p(f), n); I_ = lambda f, n: lib.ri(p(f), n)
    beg, cnt = I_("matbeg", Cn), I_("matcnt", Cn); ms = lib.get("LpStruct", "matspace", lp, INT); ind, val = I_("matind", ms), D_("matval", ms)
    sense = ctypes.string_at(p("sense"), R).decode(); rows = [[0.0] * Cn for _ in range(R)]
    for j in range(Cn):
        seen = set()
        for k in range(beg[j], beg[j] + cnt[j]):
            check(0 <= k < ms and 0 <= ind[k] < R, f"column {j} has a coefficient outside the program (position {k}, row {ind[k] if k < ms else '?'})")
            check(ind[k] not in seen, f"two coefficients for row {ind[k]} of column {j}"); seen.add(ind[k]); rows[ind[k]][j] = val[k]
    return dict(R=R, C=Cn, rows=rows, sense=sense, rhs=D_("rhs", R), lo=D_("lowbnd", Cn), up=D_("upbnd", Cn), obj=D_("obj", Cn), sen=lib.get("LpStruct", "objsen", lp, INT))
def op_program(lib, c, par, S):
    L = lib.mklist(c["L"], [0] * len(c["L"])); a = lib.darr(c["a"]); before = snap(lib, L, S); n = len(c["L"])
    lp = lib.fn("setUpRegionLP", PTR, PTR, PTR, D)(a, L, c["sparse"]); P = decode(lib, lp); w = f"region program of {c['a']} against {c['L']}: {P}"
    check(lib.rd(a, S) == c["a"] and snap(lib, L, S) == before, f"vector or set changed; {w}")
    check(P["C"] >= S + 1, f"too few variables; {w}"); extra = P["C"] - S - 1
    check([x for x in P["obj"]] == [1.0 if j == S else 0.0 for j in range(P["C"])] and P["sen"] == -1, f"the objective is not to maximise the margin; {w}")
    check(all(P["lo"][j] == 0 and P["up"][j] >= 1 for j in range(S)) and P["up"][S] >= 1e20, f"bounds of beliefs or margin wrong; {w}")
    check(P["R"] == n + 1 + (1 if extra else 0), f"{P['R']} constraints for {n} members; {w}")
    rng = _random.Random(c["seed"])
    for t in range(12):
        q = [rng.random() if rng.random() < .7 else 0.0 for _ in range(S)]
        if t < S: q = [1.0 if j == t else 0.0 for j in range(S)]
        if sum(q) == 0: q[0] = 1.0
        scale = 1.0 if rng.random() < .8 else rng.choice([0.5, 0.9]); b = [x / sum(q) * scale for x in q]
        gaps = [dotp(c["a"], b) - dotp(u, b) for u in c["L"]]; d = rng.choice([min(gaps), min(gaps) - 0.1, min(gaps) + 0.1, 0.0, max(gaps)]); v = dotp(c["a"], b)
        off = 0.0 if rng.random() < .85 else 1.0
        x = b + [d] + ([max(v, 0) + off, max(-v, 0)] + [0.0] * (extra - 2) if extra >= 2 else [v + off] if extra else [])
        if not extra: off = 0.0
        slack = 1e-6 + 1e-7 * max(1, max(abs(y) for u in c["L"] + [c["a"]] for y in u)); ok = True; tight = False
        for r, s, h in zip(P["rows"], P["sense"], P["rhs"]):
            l = dotp(r, x) - h
            ok &= l <= slack if s == "L" else l >= -slack if s == "G" else abs(l) <= slack
        want = scale == 1.0 and all(g >= d - 1e-7 for g in gaps) and off == 0.0
        far = scale != 1.0 or off or any(g < d - 0.01 for g in gaps) or want
        if far: check(ok == want, f"belief {b}, margin {d}: the program says {'feasible' if ok else 'infeasible'}, the vector exceeds the members by {gaps}; {w}")
    lib.fn("LP_freeLP", None, PTR)(lp); lib.fn("destroyAlphaList", None, PTR)(L); lib.free(a)
def op_region(lib, c, par, S):
    L = lib.mklist(c["L"], [0] * len(c["L"])); a = lib.darr(c["a"]); wit = lib.darr([-7.0] * S); df = lib.darr([-7.0]); before = snap(lib, L, S)
    st = lib.fn("newSolutionStats", PTR)() if False else None
    lib.set("PomdpSolveParamStruct", "epsilon", par, c["eps"], D); lib.set("PomdpSolveParamStruct", "sparse_epsilon", par, c["sparse"], D)
    usew, used = c["seed"] % 4 != 0, c["seed"] % 3 != 0
    r = lib.fn("findRegionPoint", INT, PTR, PTR, PTR, PTR, PTR)(a, L, wit if usew else None, df if used else None, par)
    w = f"vector {c['a']} against {c['L']}, tolerance {c['eps']}: answer {r}, point {lib.rd(wit, S)}, margin {lib.rd(df, 1)}"
    check(snap(lib, L, S) == before and lib.rd(a, S) == c["a"], f"vector or set changed; {w}")
    g = margin(c["a"], c["L"]) if c["L"] else math.inf; sc = max([1.0] + [abs(x) for u in c["L"] + [c["a"]] for x in u]); tol = 1e-6 * sc + 2 * c["sparse"] * S
    if g > c["eps"] + tol: check(r == 1, f"a region of margin {g} was not found; {w}")
    if g < c["eps"] - tol: check(r == 0, f"a region was reported, the largest margin is {g}; {w}")
    if r and usew:
        b = lib.rd(wit, S); check(abs(sum(b) - 1) < 1e-7 and min(b) >= -1e-9, f"the witness is not a belief; {w}")
        if c["L"]:
            m = min(dotp(c["a"], b) - dotp(u, b) for u in c["L"]); check(abs(m - g) <= 10 * tol, f"margin at the witness is {m}, the largest is {g}; {w}")
    if r and used: d = lib.rd(df, 1)[0]; check(d == g or abs(d - g) <= 10 * tol, f"reported margin {d}, the largest is {g}; {w}")
    lib.free(a); lib.free(wit); lib.free(df); lib.fn("destroyAlphaList", None, PTR)(L)
def exact(P, big=10**6):
    """optimum by enumeration of basic solutions with exact rationals: ('inf',) / ('unb',) / ('opt', value)"""
    n = P["n"]; half = []       # a.x <= b
    eqs = []
    for r, s, h in zip(P["rows"], P["sense"], P["rhs"]):
        r = [Fr(x) for x in r]; h = Fr(h)
        if s == "E": eqs.append((r, h)); half += [(r, h), ([-x for x in r], -h)]
        elif s == "L": half.append((r, h))
        else: half.append(([-x for x in r], -h))
    for j in range(n):
        e = [Fr(int(k == j)) for k in range(n)]; half.append(([-x for x in e], -Fr(P["lo"][j]))); half.append((e, Fr(P["up"][j] if P["up"][j] is not None else big)))
    best = None
    for act in itertools.combinations(range(len(half)), n):
        m = [list(half[i][0]) + [half[i][1]] for i in act]; ok = True
        for i in range(n):
            p = next((r for r in range(i, n) if m[r][i] != 0), None)
            if p is None: ok = False; break
            m[i], m[p] = m[p], m[i]
            for r in range(n):
                if r != i and m[r][i]: f = m[r][i] / m[i][i]; m[r] = [x - f * y for x, y in zip(m[r], m[i])]
        if not ok: continue
        x = [m[i][n] / m[i][i] for i in range(n)]
        if any(sum(p * q for p, q in zip(a, x)) > b for a, b in half): continue
        v = sum(Fr(o) * y for o, y in zip(P["obj"], x)); v = v if P["mx"] else -v
        if best is None or v > best[0]: best = (v, x)
    if best is None: return ("inf",)
    if best[0] > big // 100: return ("unb",)
    return ("opt", best[0] if P["mx"] else -best[0])
def build_lp(lib, P):
    n, m = P["n"], P["m"]; beg, cnt, ind, val = [], [], [], []
    for j in range(n):
        beg.append(len(val)); k = 0
        for i in range(m):
            if P["rows"][i][j]: ind.append(i); val.append(float(P["rows"][i][j])); k += 1
        cnt.append(k)
    lp = lib.fn("LP_newLP", PTR, INT, INT, INT)(m, n, len(val))
    mv = lambda f, t, xs: ctypes.memmove(lib.get("LpStruct", f, lp, PTR), (t * len(xs))(*xs), ctypes.sizeof(t) * len(xs))
    mv("matbeg", INT, beg); mv("matcnt", INT, cnt); mv("matind", INT, ind); mv("matval", D, val); mv("rhs", D, [float(x) for x in P["rhs"]]); mv("obj", D, [float(x) for x in P["obj"]])
    mv("lowbnd", D, [float(x) for x in P["lo"]]); mv("upbnd", D, [1e24 if x is None else float(x) for x in P["up"]])
    ctypes.memmove(lib.get("LpStruct", "sense", lp, PTR), "".join(P["sense"]).encode(), m)
    lib.set("LpStruct", "objsen", lp, -1 if P["mx"] else 1)
    return lp
def op_solve(lib, c, par, S):
    for P in c["P"]:
        lp = build_lp(lib, P); before = decode(lib, lp); n = P["n"]; want = exact(P)
        for rnd in range(2 if c["op"] == "reuse" else 1):
            r = lib.fn("LP_solveLP", INT, PTR, PTR)(lp, None); x = lib.rd(lib.get("LpStruct", "x", lp, PTR), n); v = lib.get("LpStruct", "objval", lp, D)
            w = f"program {P}: status {r}, value {v}, solution {x}, exact answer {[float(z) if isinstance(z, Fr) else z for z in want]}"
            check(decode(lib, lp) == before, f"solving changed the program; {w}")
            check(lib.get("LpStruct", "lp", lp, PTR) is None, f"solver data kept after solving; {w}")
            if want[0] != "opt": check(r in (1, 2), f"reported optimal; {w}"); continue
            check(r == 0, f"not reported optimal; {w}")
            check(abs(v - float(want[1])) < 1e-6, f"wrong objective value; {w}")
            check(abs(dotp([float(o) for o in P["obj"]], x) - v) < 1e-6, f"variable values do not give the objective value; {w}")
            for j in range(n): check(x[j] >= P["lo"][j] - 1e-7 and (P["up"][j] is None or x[j] <= P["up"][j] + 1e-7), f"variable {j} outside its bounds; {w}")
            for a, s, h in zip(P["rows"], P["sense"], P["rhs"]):
                l = dotp([float(q) for q in a], x) - h; check(l <= 1e-6 if s == "L" else l >= -1e-6 if s == "G" else abs(l) < 1e-6, f"constraint {a} {s} {h} violated; {w}")
        lib.fn("LP_freeLP", None, PTR)(lp)
op_reuse = op_solve
