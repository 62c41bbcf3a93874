"""src/mdp/parser.y (as compiled: parser.c): what the specification lines of a model file do to the tables (P15)."""
from .reward_ import *
FP = "src/mdp/parser.c"
GHOSTS["ipk"] = AI         # blocks of the intermediate matrices: a+1 for the transition matrix of action a, -(a+1) for its observation matrix, 0 otherwise
GHOSTS["errs"] = AI        # [0]: number of errors recorded so far
E.FRESH_GHOST = E.FRESH_GHOST + ("ipk",)
(NONE, T1, TR, TA, O1, OR_, OA, R1, RR, RA, RM_, SB, SM, SI, SX) = range(15)      # Matrix_Context
def ctx(v): return v.g("curMatrixContext")
def errs(v): return v.gh("errs")[0]
contract("ERR_enter", file="src/mdp/parse_err.c", trusted=True, note="error log: assumed to record one more error", writes={"ghost:errs"}, ghost_writes=("errs",), modifies=lambda c: {"ghost:errs": "any"},
  requires=lambda c: [("known error", c.a(2) < 29)], ensures=lambda c: [("one error more", errs(c.post) == errs(c.pre) + 1)])
# ---------------------------------------------------------------- the tables being filled
def TM(v, g, a): return v.P(v.g(g))[a]
def code(g, a): return a + 1 if g == "IP" else -(a + 1)
def ncols(v, g): return nS(v) if g == "IP" else nZ(v)
def tg(v, tv, g, a, r, x): return iget(v, TM(tv, g, a), r, x)
def tpat(v, tv, g, a, r, x): return [rixR(v, imB(v, TM(tv, g, a)), r, x)]
def itab(v, tv, g, n=None):
    """global table g: one well formed intermediate matrix of nS rows per action, apart from one another; columns in range"""
    a, r, x = bound("a"), bound("r"), bound("x"); M = TM(tv, g, a); gd = And(0 <= a, a < (nA(v) if n is None else n)); T = tv.g(g)
    out = [(g + " table", And(T > 0, arr_ok(v, T, nA(v), "ptr"), v.gh("ipk")[T] == 0, v.gh("ipk")[0] == 0, Sel(v.gh("rownb"), T) == 0)),
           (g + " matrices apart", forall(a, Implies(gd, And(imN(v, M) == nS(v), *[v.gh("ipk")[y] == code(g, a) for y in (M, imR(v, M), imB(v, M))])), [M]))]
    b = imB(v, M); body = imwf0(v, M)
    out.append((g + " matrices live", forall(a, Implies(gd, conj(body)), [M])))
    out += [(g + " " + l, f) for l, f in rwf2(v, a, gd, b, lambda r: v.P(imR(v, M))[r], lambda r: v.Ia(b)[r], nS(v))]
    out.append((g + " columns in range", forall([a, r, x], Implies(And(gd, 0 <= r, r < nS(v), present(v, b, r, imlen(v, M, r), x)), And(0 <= x, x < ncols(v, g))), [rixR(v, b, r, x)])))
    return out
def imwf0(v, M): return [(l, f) for l, f in imwf(v, M) if not z3.is_quantifier(f)]
def rwf2(v, a, gd, b, head, n, rows):
    o = bound("o"); out = []
    for l, f in rwf(v, b, o, head(o), n(o)):
        g, q = lift([a, o], And(gd, 0 <= o, o < rows), [(l, f)])
        out += [(l_, forall([a, o], Implies(And(gd, 0 <= o, o < rows), f_), [n(o)] if "length" in l else [head(o)])) for l_, f_ in g] + q
    return out
def old_tables(v): r = bound("r"); return [("tables allocated before", forall(r, Implies(v.gh("ipk")[r] != 0, r < v.clk), [v.gh("ipk")[r]]))]
def problem(c): return sizes2(c.pre) + ptype(c.pre) + old_tables(c.pre) + itab(c.pre, c.pre, "IP") + [(l, Implies(isP(c.pre), f)) for l, f in itab(c.pre, c.pre, "IR") + [("belief array", And(bel(c.pre) > 0, arr_ok(c.pre, bel(c.pre), nS(c.pre)), Sel(c.pre.gh("rownb"), bel(c.pre)) == 0))]]
def bel(v): return v.g("gInitialBelief")
RNG = (("A", nA), ("I", nS), ("J", nS), ("Obs", nZ))
def inr(v, k, x): return And(v.g("min" + k) <= x, x <= v.g("max" + k))
def ranges(v): return [("cell ranges inside the tables", And(*[And(0 <= v.g("min" + k), v.g("min" + k) <= v.g("max" + k), v.g("max" + k) < n(v)) for k, n in RNG[:3]], Implies(isP(v), And(0 <= v.g("minObs"), v.g("minObs") <= v.g("maxObs"), v.g("maxObs") < nZ(v))))), ("cursor", And(v.g("curRow") >= 0, v.g("curCol") >= 0))]
def tmods(c, g):
    k = c.pre.gh("ipk"); s = (lambda x: x > 0) if g == "IP" else (lambda x: x < 0); own_ = lambda r: Or(r >= c.pre.clk, s(k[Sel(c.pre.gh("rownb"), r)])); blk = lambda r: s(k[r])
    return {fR("next"): own_, fR("value"): own_, "M:int": blk, "M:ptr": blk, "ghost:rseq": blk, "ghost:rix": blk, "ghost:rpos": own_, "ghost:rownb": own_, "ghost:rowno": own_, "freed": own_}
def both(c):
    x, y = tmods(c, "IP"), tmods(c, "IR"); return {k: (lambda r, k=k: Or(x[k](r), y[k](r))) for k in x}
def cells(c, v, g, hit, val):
    a, r, x = bound("a"), bound("r"), bound("x"); n = ncols(c.pre, g)
    return forall([a, r, x], Implies(And(0 <= a, a < nA(c.pre), 0 <= r, r < nS(c.pre)), tg(v, c.pre, g, a, r, x) == If(hit(a, r, x), val(a, r, x), tg(c.pre, c.pre, g, a, r, x))), tpat(v, c.pre, g, a, r, x))
def nest(g, vs, hit, val):
    """loops over the variables vs = [(local, which of a, r, x it is, low, high)], filling the cells of table g for which hit holds"""
    out = []
    for d in range(len(vs)):
        def inv(c, d=d):
            cur_ = [c.lv(n, "int") for n, *_ in vs[:d + 1]]
            def done(a, r, x):
                q = [(a, r, x)[w] for _, w, *_ in vs[:d + 1]]; return Or(*[And(*[q[f] == cur_[f] for f in range(e)], q[e] < cur_[e]) for e in range(d + 1)])
            return itab(c.now, c.pre, g) + [("cells so far", cells(c, c.now, g, lambda *p: And(hit(c, *p), done(*p)), lambda *p: val(c, *p)))]
        lo, hi = vs[d][2:]
        out.append(Loop(bound=lambda c, lo=lo, hi=hi: hi(c.pre) - lo(c.pre) + 1, gw=RG, mods=lambda c: tmods(c, g), inv=inv))
    return out
def vA(n="a"): return (n, 0, lambda v: v.g("minA"), lambda v: v.g("maxA"))
def vI(n, w, k): return (n, w, lambda v: v.g("min" + k), lambda v: v.g("max" + k))
def vall(n, w, f): return (n, w, lambda v: iv(0), lambda v: f(v) - 1)
def zv(c, x): return iqv(c.pre, x)
def inv1(n): return DIV(rv(1), z3.ToReal(n))
# ---------------------------------------------------------------- uniform, identity, reset
def hA(c, a): return inr(c.pre, "A", a)
def u_hit(c, g):
    """cells of table g covered by the current whole-row or whole-matrix specification"""
    k = ctx(c.pre)
    return lambda a, r, x: And(hA(c, a), 0 <= x, x < ncols(c.pre, g), Or(And(k == TR, inr(c.pre, "I", r)), k == TA) if g == "IP" else Or(And(k == OR_, inr(c.pre, "J", r)), k == OA))
def tables(c, hitP, valP, hitR=None, valR=None):
    z = lambda *x: z3.BoolVal(False)
    return itab(c.post, c.pre, "IP") + [("exactly the transition cells named", cells(c, c.post, "IP", hitP, valP))] + [(l, Implies(isP(c.pre), f)) for l, f in itab(c.post, c.pre, "IR") + [("exactly the observation cells named", cells(c, c.post, "IR", hitR or z, valR or (lambda *x: rv(0))))]]
def _u(g, vs): return nest(g, vs, lambda c, *x: u_hit(c, g)(*x), lambda c, *x: zv(c, inv1(ncols(c.pre, g))))
def belu(c): i = bound("i"); return forall(i, Implies(And(0 <= i, i < nS(c.pre)), c.post.D(bel(c.pre))[i] == inv1(nS(c.pre))), [c.post.D(bel(c.pre))[i]])
def bel_keep(c): return c.post.D(bel(c.pre)) == c.pre.D(bel(c.pre))
def errd(c, n): return [("errors recorded", errs(c.post) == errs(c.pre) + n)]
def one(b): return If(b, iv(1), iv(0))
def ofs(v, k): return Or(*[k == x for x in v])
obs_pomdp = lambda c, ks: [("observation tables only in a POMDP", Implies(ofs(ks, ctx(c.pre)), isP(c.pre)))]
contract("enterUniformMatrix", file=FP, ghost_writes=RG + ("errs",), requires=lambda c: problem(c) + ranges(c.pre) + obs_pomdp(c, (OR_, OA)), modifies=lambda c: {**both(c), "M:real": [If(And(isP(c.pre), ctx(c.pre) == SB), bel(c.pre), iv(0))], "ghost:errs": "any"},
  ensures=lambda c: tables(c, u_hit(c, "IP"), lambda *x: zv(c, inv1(nS(c.pre))), u_hit(c, "IR"), lambda *x: zv(c, inv1(nZ(c.pre)))) + [("uniform start belief", Implies(And(isP(c.pre), ctx(c.pre) == SB), belu(c)))] + errd(c, one(Not(ofs((TR, TA, OR_, OA, SB), ctx(c.pre))))),
  loops=_u("IP", [vA(), vI("i", 1, "I"), vall("j", 2, nS)]) + _u("IP", [vA(), vall("i", 1, nS), vall("j", 2, nS)]) + _u("IR", [vA(), vI("j", 1, "J"), vall("obs", 2, nZ)]) + _u("IR", [vA(), vall("j", 1, nS), vall("obs", 2, nZ)]) +
   [Loop(bound=lambda c: nS(c.pre), inv=lambda c: [("filled so far", (lambda i: forall(i, Implies(And(0 <= i, i < c.k), c.now.D(bel(c.pre))[i] == inv1(nS(c.pre))), [c.now.D(bel(c.pre))[i]]))(bound("i")))])])
C["enterUniformMatrix"].local_names = {"a", "i", "j", "obs", "prob"}
def id_hit(c): return lambda a, r, x: And(hA(c, a), 0 <= x, x < nS(c.pre), ctx(c.pre) == TA)
def id_val(c): return lambda a, r, x: If(r == x, rv(1), rv(0))
contract("enterIdentityMatrix", file=FP, ghost_writes=RG + ("errs",), requires=lambda c: problem(c) + ranges(c.pre), modifies=lambda c: {**tmods(c, "IP"), "ghost:errs": "any"},
  ensures=lambda c: tables(c, id_hit(c), id_val(c)) + errd(c, one(ctx(c.pre) != TA)),
  loops=nest("IP", [vA(), vall("i", 1, nS), vall("j", 2, nS)], lambda c, *x: id_hit(c)(*x), lambda c, *x: id_val(c)(*x)))
C["enterIdentityMatrix"].local_names = {"a", "i", "j"}
# reset: to the start belief (POMDP), to the start state (MDP, whose other entries keep what earlier lines gave them: see known-findings.txt)
def rs_hit(c): return lambda a, r, x: And(hA(c, a), inr(c.pre, "I", r), 0 <= x, x < nS(c.pre), ctx(c.pre) == TR, Or(isP(c.pre), x == c.pre.g("gInitialState")))
def rs_val(c): return lambda a, r, x: If(isP(c.pre), zv(c, c.pre.D(bel(c.pre))[x]), rv(1))
contract("enterResetMatrix", file=FP, ghost_writes=RG + ("errs",), requires=lambda c: problem(c) + ranges(c.pre) + [("an MDP names its start state", Implies(And(Not(isP(c.pre)), ctx(c.pre) == TR), And(0 <= c.pre.g("gInitialState"), c.pre.g("gInitialState") < nS(c.pre))))], modifies=lambda c: {**tmods(c, "IP"), "ghost:errs": "any"},
  ensures=lambda c: tables(c, rs_hit(c), rs_val(c)) + errd(c, one(ctx(c.pre) != TR)),
  loops=nest("IP", [vA(), vI("i", 1, "I"), vall("j", 2, nS)], lambda c, *x: rs_hit(c)(*x), lambda c, *x: rs_val(c)(*x)) + nest("IP", [vA(), vI("i", 1, "I")], lambda c, *x: rs_hit(c)(*x), lambda c, *x: rs_val(c)(*x)))
C["enterResetMatrix"].local_names = {"a", "i", "j"}
# ---------------------------------------------------------------- one value of a row or matrix
def gt(v, n): return v.g(n)
def kind(v):
    """(row-shaped contexts, their width) and (matrix-shaped contexts, their width) for the problem type"""
    k, P = ctx(v), isP(v); M = Not(P)
    row = Or(k == TR, k == SB, k == SM, And(P, ofs((OR_, R1, RR), k)), And(M, ofs((RR, RA), k))); mat = Or(k == TA, And(P, ofs((OA, RA), k)), And(M, k == RM_))
    w = If(ofs((TR, SB, TA), k), nS(v), If(ofs((SM, R1), k), iv(1), If(P, nZ(v), If(k == RR, iv(1), nS(v)))))
    return row, mat, w
def slot(v):
    """row and column the next value goes to, and whether there is one"""
    row, mat, w = kind(v); r0, c0 = v.g("curRow"), v.g("curCol"); wrap = And(mat, c0 >= w); r, x = If(wrap, r0 + 1, r0), If(wrap, iv(0), c0)
    return r, x, Or(And(row, x < w), And(mat, r < nS(v)))
def em_hit(c, g):
    v = c.pre; k = ctx(v); r0, x0, ok = slot(v); A = lambda a: inr(v, "A", a)
    if g == "IP": return lambda a, r, x: And(A(a), Or(And(k == T1, inr(v, "I", r), inr(v, "J", x)), And(k == TR, inr(v, "I", r), x == x0, ok), And(k == TA, r == r0, x == x0, ok)))
    return lambda a, r, x: And(isP(v), A(a), Or(And(k == O1, inr(v, "J", r), inr(v, "Obs", x)), And(k == OR_, inr(v, "J", r), x == x0, ok), And(k == OA, r == r0, x == x0, ok)))
def em_cursor(c):
    v, q = c.pre, c.post; row, mat, w = kind(v); r0, x0, ok = slot(v); T = "gTooManyEntries"; idle = And(ctx(v) == OA, Not(isP(v)))
    return [("cursor moves on, left to right and top to bottom", Implies(Not(idle), And(q.g("curRow") == r0, q.g("curCol") == x0 + If(ok, iv(1), iv(0))))), ("a value too many is noticed", If(And(Or(row, mat), Not(ok)), q.g(T) == 1, q.g(T) == v.g(T))), ("cursor stays valid", And(q.g("curRow") >= 0, q.g("curCol") >= 0))]
def rctx(v): return Or(And(isP(v), ofs((R1, RR, RA), ctx(v))), And(Not(isP(v)), ofs((RR, RA, RM_), ctx(v))))
def rform(v): k = ctx(v); return If(isP(v), If(k == R1, iv(1), If(k == RR, iv(2), iv(3))), If(k == RR, iv(1), If(k == RA, iv(2), iv(3))))
def cur_apart(v):
    p = cur(v); M = v.g("gCurIMatrix"); t = rN(v, "type", p); k = v.gh("ipk"); return [("record apart from the tables", And(Implies(t == 2, And(Implies(isP(v), rvec(v, p) != bel(v)), k[rvec(v, p)] == 0, v.gh("rownb")[rvec(v, p)] == 0)), Implies(t == 3, And(k[M] == 0, k[imR(v, M)] == 0, k[imB(v, M)] == 0))))]
def em_pre(c): v = c.pre; return [(l, Implies(rctx(v), f)) for l, f in cur_ok(v) + cur_apart(v) + [("record of the form the context asks for", rN(v, "type", cur(v)) == rform(v))]]
def em_rew(c):
    v, q = c.pre, c.post; p = cur(v); r0, x0, ok = slot(v); M = v.g("gCurIMatrix"); i, u, y = bound("i"), bound("r"), bound("x"); t = rN(v, "type", p); R_ = rctx(v); val = c.a(0)
    return [(l, Implies(R_, f)) for l, f in [("single reward", Implies(t == 1, rval(q, p) == If(ok, val, rval(v, p)))), ("exactly the next reward of the row", Implies(t == 2, forall(i, Implies(And(0 <= i, i < vlen(v)), q.D(rvec(v, p))[i] == If(And(ok, i == x0), val, v.D(rvec(v, p))[i])), [q.D(rvec(v, p))[i]]))),
       ("exactly the next reward of the matrix", Implies(t == 3, forall([u, y], Implies(And(0 <= u, u < nS(v)), iget(q, M, u, y) == If(And(ok, u == r0, y == x0), iqv(v, val), iget(v, M, u, y))), [rixR(q, imB(v, M), u, y)])))] + cur_ok(q)]
def em_bel(c):
    v, q = c.pre, c.post; i = bound("i"); r0, x0, ok = slot(v)
    return [("exactly the next start probability", Implies(ctx(v) == SB, forall(i, Implies(And(0 <= i, i < nS(v)), q.D(bel(v))[i] == If(And(ok, i == x0), c.a(0), v.D(bel(v))[i])), [q.D(bel(v))[i]])))]
def em_mods(c):
    p = cur(c.pre); M = c.pre.g("gCurIMatrix"); t = rN(c.pre, "type", p); on = lambda j: And(rctx(c.pre), t == j); b = both(c); ib = imB(c.pre, M)
    out = {k: (lambda r, k=k: Or(b[k](r), And(on(3), (r == imR(c.pre, M)) if k == "M:ptr" else (r == ib) if k in ("M:int", "ghost:rseq", "ghost:rix") else Or(r >= c.pre.clk, Sel(c.pre.gh("rownb"), r) == ib)))) for k in b}
    return {**out, "M:real": [If(ctx(c.pre) == SB, bel(c.pre), iv(0)), If(on(2), rvec(c.pre, p), iv(0))], "ghost:errs": "any", **{"F:" + UT + "." + f: [If(on(1), sub(p), iv(0))] for f in ("value", "vector", "matrix")}, **{"G:" + g: "any" for g in ("curRow", "curCol", "gTooManyEntries", "gInitialState")}}
def _e(g, vs): return nest(g, vs, lambda c, *x: em_hit(c, g)(*x), lambda c, *x: zv(c, c.a(0)))
contract("enterMatrix", file=FP, ghost_writes=RG + ("errs",), requires=lambda c: problem(c) + ranges(c.pre) + em_pre(c) + [("start probabilities only in a POMDP", Implies(ctx(c.pre) == SB, isP(c.pre)))], modifies=em_mods,
  ensures=lambda c: tables(c, em_hit(c, "IP"), lambda *x: zv(c, c.a(0)), em_hit(c, "IR"), lambda *x: zv(c, c.a(0))) + em_cursor(c) + em_rew(c) + em_bel(c) + [("start state only from its own line", Implies(ctx(c.pre) != SM, c.post.g("gInitialState") == c.pre.g("gInitialState")))] + errd(c, one(Or(ctx(c.pre) <= NONE, ctx(c.pre) > SM))),
  loops=_e("IP", [vA(), vI("i", 1, "I"), vI("j", 2, "J")]) + _e("IP", [vA(), vI("i", 1, "I")]) + _e("IP", [vA()]) + _e("IR", [vA(), vI("j", 1, "J"), vI("obs", 2, "Obs")]) + _e("IR", [vA(), vI("j", 1, "J")]) + _e("IR", [vA()]))
C["enterMatrix"].local_names = {"a", "i", "j", "obs"}; C["enterMatrix"].shards = 6

# ---------------------------------------------------------------- what a specification line names
def spec_args(c):
    v = c.pre; a, i, j, o = (c.a(k) for k in (1, 2, 3, 4)); k = c.a(0); P = isP(v)
    return a, If(And(Not(P), k == RM_), NOTP, i), If(Or(k == RR, k == R1), j, NOTP), If(P, If(k == R1, o, NOTP), iv(0))
def sm_rctx(c): k = c.a(0); return Or(And(isP(c.pre), ofs((R1, RR, RA), k)), And(Not(isP(c.pre)), ofs((RR, RA, RM_), k)))
def sm_ens(c):
    v, q = c.pre, c.post; p = cur(q); i = bound("i"); B_ = q.D(bel(v)); P = isP(v)
    rng = [And(q.g("min" + k) == If(c.a(n) < 0, iv(0), c.a(n)), q.g("max" + k) == If(c.a(n) < 0, f(v) - 1, c.a(n))) for n, (k, f) in enumerate(RNG, 1)]
    return [("context set, nothing read yet", And(ctx(q) == c.a(0), q.g("gTooManyEntries") == 0, q.g("curRow") == 0, q.g("curCol") == 0)), ("named cells; a wildcard names all of them", And(*rng)),
      ("start list begins with none included or none excluded", forall(i, Implies(And(P, ofs((SI, SX), c.a(0)), 0 <= i, i < nS(v)), B_[i] == If(c.a(0) == SI, rv(0), rv(1))), [B_[i]]))] + \
      [(l, Implies(sm_rctx(c), f)) for l, f in cur_ok(q) + cur_apart(q) + hdr_ok(q, p) + zero_all(q, p) + [("record of the form the context asks for", rN(q, "type", p) == rform(q)), ("record names what the line names", And(*[rN(q, f, p) == x for f, x in zip(("action", "cur_state", "next_state", "obs"), spec_args(c))]))]] + \
      errd(c, one(Or(And(Not(P), ofs((SI, SX, R1), c.a(0))), And(P, c.a(0) == RM_))))
def sm_fill(x): return lambda c: [("filled so far", (lambda i: forall(i, Implies(And(0 <= i, i < c.k), c.now.D(bel(c.pre))[i] == rv(x)), [c.now.D(bel(c.pre))[i]]))(bound("i")))]
PG_ = ("curMatrixContext", "gTooManyEntries", "curRow", "curCol") + tuple(m + k for k, _ in RNG for m in ("min", "max"))
contract("setMatrixContext", file=FP, ghost_writes=RG + ("errs",), requires=lambda c: problem(c) + [("arguments in range", And(NONE <= c.a(0), c.a(0) <= SX, -1 <= c.a(1), c.a(1) < nA(c.pre), -1 <= c.a(2), c.a(2) < nS(c.pre), -1 <= c.a(3), c.a(3) < nS(c.pre), -1 <= c.a(4), Implies(isP(c.pre), c.a(4) < nZ(c.pre))))],
  modifies=lambda c: {**{"G:" + g: "any" for g in PG_}, "G:gCurImmRewardNode": "any", "G:gCurIMatrix": "any", "ghost:errs": "any", "M:real": [If(And(isP(c.pre), ofs((SI, SX), c.a(0))), bel(c.pre), iv(0))], **{"F:" + UT + "." + m: (lambda r: E.EMB_OWNER(r) >= c.pre.clk) for m in ("value", "vector", "matrix")}},
  ensures=lambda c: sm_ens(c) + ranges(c.post), loops=[Loop(bound=lambda c: nS(c.pre), inv=sm_fill(0)), Loop(bound=lambda c: nS(c.pre), inv=sm_fill(1))])
C["setMatrixContext"].merge = "heap"
# ---------------------------------------------------------------- start state lists
contract("enterStartState", file=FP, ghost_writes=("errs",), requires=lambda c: problem(c) + [("a state", And(0 <= c.a(0), c.a(0) < nS(c.pre)))], modifies=lambda c: {"M:real": [If(And(isP(c.pre), ofs((SI, SX), ctx(c.pre))), bel(c.pre), iv(0))], "ghost:errs": "any"},
  ensures=lambda c: (lambda i, B_, D0: [("exactly the state named", Implies(And(isP(c.pre), ofs((SI, SX), ctx(c.pre))), forall(i, Implies(And(0 <= i, i < nS(c.pre)), B_[i] == If(i == c.a(0), If(ctx(c.pre) == SI, rv(1), rv(0)), D0[i])), [B_[i]])))] + errd(c, one(And(isP(c.pre), Not(ofs((SI, SX), ctx(c.pre)))))))(bound("i"), c.post.D(bel(c.pre)), c.pre.D(bel(c.pre))))
contract("setStartStateUniform", file=FP, requires=lambda c: problem(c), modifies=lambda c: {"M:real": [If(isP(c.pre), bel(c.pre), iv(0))]}, ensures=lambda c: [("uniform start belief", Implies(isP(c.pre), belu(c)))],
  loops=[Loop(bound=lambda c: nS(c.pre), inv=lambda c: [("filled so far", (lambda i: forall(i, Implies(And(0 <= i, i < c.k), c.now.D(bel(c.pre))[i] == inv1(nS(c.pre))), [c.now.D(bel(c.pre))[i]]))(bound("i")))])])
TOL = rv("10000000000000001/1000000000000000000000")     # 0.00001 as the compiler reads it
def offp(s): return Or(s < 1 - TOL, s > 1 + TOL)
def bsum(v): return suma(v.D(bel(v)), nS(v))
def es_ens(c):
    v, q = c.pre, c.post; i = bound("i"); L = ofs((SI, SX), ctx(v)); s = bsum(v); B_, D0 = q.D(bel(v)), v.D(bel(v))
    return [("a list becomes the normalised distribution over its states", Implies(And(isP(v), L, s > 0), forall(i, Implies(And(0 <= i, i < nS(v)), B_[i] == DIV(D0[i], s)), [B_[i]]))), ("a given distribution is kept", Implies(Or(Not(L), s <= 0), forall(i, Implies(And(isP(v), 0 <= i, i < nS(v)), B_[i] == D0[i]), [B_[i]]))),
            ("context cleared", Implies(Not(And(isP(v), L, s <= 0)), ctx(q) == NONE))] + errd(c, one(And(isP(v), If(L, s <= 0, offp(s)))))
def es_sum(c): return [("sum so far", c.lv("prob", "real") == suma(c.pre.D(bel(c.pre)), c.k))]
contract("endStartStates", file=FP, ghost_writes=("errs",), requires=lambda c: problem(c), modifies=lambda c: {"M:real": [If(And(isP(c.pre), ofs((SI, SX), ctx(c.pre))), bel(c.pre), iv(0))], "G:curMatrixContext": "any", "ghost:errs": "any"}, ensures=es_ens,
  loops=[Loop(bound=lambda c: nS(c.pre), inv=es_sum), Loop(bound=lambda c: nS(c.pre), inv=lambda c: (lambda i: [("normalised so far", And(forall(i, Implies(And(0 <= i, i < c.k), c.now.D(bel(c.pre))[i] == DIV(c.pre.D(bel(c.pre))[i], bsum(c.pre))), [c.now.D(bel(c.pre))[i]]))), ("rest as listed", forall(i, Implies(And(c.k <= i, i < nS(c.pre)), c.now.D(bel(c.pre))[i] == c.pre.D(bel(c.pre))[i]), [c.now.D(bel(c.pre))[i]]))])(bound("i"))), Loop(bound=lambda c: nS(c.pre), inv=es_sum)])
C["endStartStates"].local_names = {"i", "prob"}

# ---------------------------------------------------------------- are they distributions?
if "sprintf" not in C: contract("sprintf", file=None, trusted=True, note="libc: writes its buffer only", writes={"M:char"}, modifies=lambda c: {"M:char": [c.a(0)]})
badrow = RecFun("badrow", [AAI, AR, AI], I, lambda s, m, l: iv(0), lambda s, m, l, i, p: p + If(offp(lsum(s[i], m, l[i])), iv(1), iv(0)))     # rows whose sum is off
badtab = RecFun("badtab", [A3, AR, AI, AI, AAI, I], I, lambda s, m, t, b, mi, n: iv(0), lambda s, m, t, b, mi, n, i, p: p + badrow(s[b[t[i]]], m, mi[b[t[i]]], n))
badrow_nn = Lemma("badrow_nn", [AAI, AR, AI], lambda s, m, l, n: badrow(s, m, l, n) >= 0, pats=lambda s, m, l, n: [badrow(s, m, l, n)])
badrow_mono = Lemma("badrow_mono", [AAI, AR, AI, I], lambda s, m, l, k, n: Implies(And(0 <= k, k <= n), badrow(s, m, l, k) <= badrow(s, m, l, n)), pats=lambda s, m, l, k, n: [z3.MultiPattern(badrow(s, m, l, k), badrow(s, m, l, n))])
badtab_nn = Lemma("badtab_nn", [A3, AR, AI, AI, AAI, I], lambda s, m, t, b, mi, r, n: badtab(s, m, t, b, mi, r, n) >= 0, pats=lambda s, m, t, b, mi, r, n: [badtab(s, m, t, b, mi, r, n)], extra=lambda s, m, t, b, mi, r, n: [badrow_nn(s[b[t[n]]], m, mi[b[t[n]]], r), Implies(r < 0, badrow(s[b[t[n]]], m, mi[b[t[n]]], r) == 0)])
badtab_mono = Lemma("badtab_mono", [A3, AR, AI, AI, AAI, I, I], lambda s, m, t, b, mi, r, k, n: Implies(And(0 <= k, k <= n), badtab(s, m, t, b, mi, r, k) <= badtab(s, m, t, b, mi, r, n)), pats=lambda s, m, t, b, mi, r, k, n: [z3.MultiPattern(badtab(s, m, t, b, mi, r, k), badtab(s, m, t, b, mi, r, n))],
   extra=lambda s, m, t, b, mi, r, k, n: [badrow_nn(s[b[t[n]]], m, mi[b[t[n]]], r), Implies(r < 0, badrow(s[b[t[n]]], m, mi[b[t[n]]], r) == 0)])
def rargs(v, g, a): b = imB(v, TM(v, g, a)); return v.gh("rseq")[b], v.m(fR("value")), v.Ia(b)
def targs(v, g): return v.gh("rseq"), v.m(fR("value")), v.P(v.g(g)), v.m("F:" + IM + ".row_length"), v.m("M:int"), nS(v)
def badP(v, k=None): return badtab(*targs(v, "IP"), nA(v) if k is None else k)
def badR(v, k=None): return badtab(*targs(v, "IR"), nA(v) if k is None else k)
def bad_all(v): return badP(v) + If(isP(v), badR(v), iv(0))
def cp(g, base):
    return [Loop(bound=lambda c: nA(c.pre), gw=("errs",), mods=lambda c: {"ghost:errs": "any"}, inv=lambda c: [("errors so far", errs(c.now) == errs(c.pre) + base(c.pre) + badtab(*targs(c.pre, g), c.k))]),
            Loop(bound=lambda c: nS(c.pre), gw=("errs",), mods=lambda c: {"ghost:errs": "any"}, inv=lambda c: [("errors so far", errs(c.now) == errs(c.pre) + base(c.pre) + badtab(*targs(c.pre, g), c.lv("a", "int")) + badrow(*rargs(c.pre, g, c.lv("a", "int")), c.k))])]
contract("checkProbs", file=FP, ghost_writes=("errs",), requires=lambda c: problem(c), modifies=lambda c: {"ghost:errs": "any"},
  ensures=lambda c: [("an error for every row that is not a distribution, and for observations in an MDP", errs(c.post) == errs(c.pre) + bad_all(c.pre) + one(And(c.pre.g("observationSpecDefined") != 0, Not(isP(c.pre)))))], loops=cp("IP", lambda v: iv(0)) + cp("IR", badP))
C["checkProbs"].local_names = {"a", "i", "j", "obs", "sum", "str"}
def vi_h(c): return [badrow_nn.all(), badrow_mono.all(), badtab_nn.all(), badtab_mono.all()]
def vi(g):
    return [Loop(bound=lambda c: nA(c.pre), hints=lambda c: vi_h(c) + [touch(badtab(*targs(c.pre, g), c.k + 1))], inv=lambda c: [("no row off so far", badtab(*targs(c.pre, g), c.k) == 0)]),
            Loop(bound=lambda c: nS(c.pre), hints=lambda c: vi_h(c) + [touch(badrow(*rargs(c.pre, g, c.lv("a", "int")), c.k + 1))], inv=lambda c: [("no row off so far", badrow(*rargs(c.pre, g, c.lv("a", "int")), c.k) == 0)])]
contract("verifyIntermediateMDP", file=FM, requires=lambda c: problem(c), ensures=lambda c: [("accepted if and only if every row is a distribution", c.r == one(bad_all(c.pre) == 0))], hints=vi_h, loops=vi("IP") + vi("IR"))
C["verifyIntermediateMDP"].local_names = {"a", "i", "j", "obs", "sum"}

# ---------------------------------------------------------------- end of a specification; allocation; preamble
def cm_short(v):
    k, P, col, row = ctx(v), isP(v), v.g("curCol"), v.g("curRow"); M = Not(P)
    r = lambda n: col < n; m = lambda n: Or(row < nS(v) - 1, And(row == nS(v) - 1, col < n))
    return Or(And(ofs((TR, SB), k), r(nS(v))), And(k == OR_, r(nZ(v))), And(k == RR, P, r(nZ(v))), And(k == RA, M, r(nS(v))), And(k == TA, m(nS(v))), And(k == OA, m(nZ(v))), And(k == RA, P, m(nZ(v))), And(k == RM_, m(nS(v))))
def cm_done(v): return Or(ofs((RR, RA, RM_), ctx(v)), And(ctx(v) == R1, isP(v)))
def cm_known(v): return ofs((TR, TA, OR_, OA, SB, SM, RR, RA, R1, RM_), ctx(v))
contract("checkMatrix", file=FP, ghost_writes=IG + ("rwd", "errs") + RG + ("mown",), requires=lambda c: ptype(c.pre) + [(l, Implies(cm_done(c.pre), f)) for l, f in C["doneImmReward"].requires(c)],
  modifies=lambda c: {**dn_mods(c), "G:curMatrixContext": "any", "ghost:errs": "any"},
  ensures=lambda c: errd(c, one(cm_short(c.pre)) + one(Not(cm_known(c.pre))) + one(c.pre.g("gTooManyEntries") != 0)) + [("context cleared", ctx(c.post) == NONE), ("no reward line, no reward change", Implies(Not(cm_done(c.pre)), c.post.gh("rwd") == c.pre.gh("rwd")))] + [("reward line finished: " + l, Implies(cm_done(c.pre), f)) for l, f in C["doneImmReward"].ensures(c)])
def al_zero(v, g, n):
    a, r, x = bound("a"), bound("r"), bound("x"); return [(g + " cells all zero", forall([a, r, x], Implies(And(0 <= a, a < n, 0 <= r, r < nS(v)), tg(v, v, g, a, r, x) == 0), tpat(v, v, g, a, r, x)))]
def al_gh(g):
    def f(c):
        a = c.k; v = c.now; M = TM(v, g, a); k = v.gh("ipk")
        for y in (M, imR(v, M), imB(v, M)): k = z3.Store(k, y, code(g, a))
        return {"ipk": k}
    return f
def al_frame(c): r = bound("r"); return [("older blocks keep their codes", forall(r, Implies(r < c.pre.clk, c.now.gh("ipk")[r] == c.pre.gh("ipk")[r]), [c.now.gh("ipk")[r]])), ("codes only of allocated blocks", forall(r, Implies(c.now.gh("ipk")[r] != 0, r < c.now.clk), [c.now.gh("ipk")[r]]))]
fr = lambda c: (lambda r: r >= c.pre.clk)
def al_loop(g): return Loop(bound=lambda c: nA(c.pre), gw=RG + ("ipk",), ghost=al_gh(g), mods=lambda c: {"M:ptr": fr(c), "M:int": fr(c), "ghost:ipk": fr(c), **{"ghost:" + x: fr(c) for x in RG}, fR("next"): fr(c), fR("value"): fr(c)}, inv=lambda c: itab(c.now, c.now, g, c.k) + al_zero(c.now, g, c.k) + al_frame(c) + (itab(c.now, c.now, "IP") + al_zero(c.now, "IP", nA(c.pre)) if g == "IR" else []))
def P_(c, fs): return [(l, Implies(isP(c.pre), f)) for l, f in fs]
contract("allocateIntermediateMDP", file=FM, ghost_writes=RG + ("ipk",), requires=lambda c: sizes2(c.pre) + ptype(c.pre) + old_tables(c.pre) + [("no block 0", c.pre.gh("ipk")[0] == 0)],
  modifies=lambda c: {"G:IP": "any", "G:IR": "any", "G:IQ": "any", "G:gInitialBelief": "any"},
  ensures=lambda c: itab(c.post, c.post, "IP") + al_zero(c.post, "IP", nA(c.pre)) + P_(c, itab(c.post, c.post, "IR") + al_zero(c.post, "IR", nA(c.pre)) + [("belief array", And(bel(c.post) >= c.pre.clk, arr_ok(c.post, bel(c.post), nS(c.pre)), Sel(c.post.gh("rownb"), bel(c.post)) == 0)), ("start belief zero", (lambda i: forall(i, Implies(And(0 <= i, i < nS(c.pre)), c.post.D(bel(c.post))[i] == 0), [c.post.D(bel(c.post))[i]]))(bound("i")))]) + old_tables(c.post) + imwf(c.post, IQ(c.post)) + [("a reward row per action", imN(c.post, IQ(c.post)) == nA(c.pre))],
  loops=[al_loop("IP"), al_loop("IR")])
def vp(c):
    v, q = c.pre, c.post; d = lambda n: v.g(n) == 0
    return [("an error for everything missing", errs(q) == errs(v) + one(d("discountDefined")) + one(d("valuesDefined")) + one(d("statesDefined")) + one(d("actionsDefined"))), ("sizes usable", And(nS(q) == If(d("statesDefined"), iv(1), nS(v)), nA(q) == If(d("actionsDefined"), iv(1), nA(v)), nZ(q) == If(d("observationsDefined"), iv(0), nZ(v)))), ("a POMDP if and only if observations were given", v_type(q, d("observationsDefined")))]
def v_type(q, no): return q.g("gProblemType") == If(no, iv(1), iv(2))
contract("verifyPreamble", file=FP, ghost_writes=("errs",), requires=lambda c: [], modifies=lambda c: {**{"G:" + g: "any" for g in ("gNumStates", "gNumActions", "gNumObservations", "gProblemType")}, "ghost:errs": "any"}, ensures=vp)
