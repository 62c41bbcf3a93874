"""src/pg-eval.c: evaluation of a policy graph (P19): the linear system built, the answer read back, the value at a belief."""
from .belief_ import *
FE, FG_ = "src/pg-eval.c", "src/pg.c"
PGS, PEC = "PG_Struct", "PgEvalContextStruct"
def pg(v, f, p): return v.f(PGS + "." + f, p)
def pe(v, f, p): return v.f(PEC + "." + f, p)
def nn_(v, p): return pg(v, "num_nodes", p)
def pact(v, p, n): return v.Ia(pg(v, "action", p))[n]
def prow(v, p, n): return v.P(pg(v, "next", p))[n]
def pnext(v, p, n, z): return v.Ia(prow(v, p, n))[z]
def pg_shape(v, p):
    """a policy graph: arrays of the recorded sizes"""
    n = bound("n")
    return [("policy graph", And(p > 0, v.valid(p), KIND(p) == E.kind_of(PGS), nn_(v, p) >= 1, pg(v, "num_obs", p) >= 1, arr_ok(v, pg(v, "action", p), nn_(v, p), "int"), arr_ok(v, pg(v, "id", p), nn_(v, p), "int"), arr_ok(v, pg(v, "marked", p), nn_(v, p), "int"), arr_ok(v, pg(v, "next", p), nn_(v, p), "ptr"), pg(v, "action", p) > 0, pg(v, "id", p) > 0, pg(v, "next", p) > 0, pg(v, "marked", p) > 0,
       Sel(v.gh("gown"), p) == 0, *[Sel(v.gh("gown"), pg(v, f, p)) == 0 for f in ("action", "id", "marked", "next")])),
      ("a row of successors per node", forall(n, Implies(And(0 <= n, n < nn_(v, p)), And(prow(v, p, n) > 0, arr_ok(v, prow(v, p, n), pg(v, "num_obs", p), "int"), Sel(v.gh("gown"), prow(v, p, n)) == p, Sel(v.gh("grow"), prow(v, p, n)) == n)), [prow(v, p, n)])),
      ("separate arrays", And(pg(v, "action", p) != pg(v, "id", p), pg(v, "marked", p) != pg(v, "id", p), pg(v, "marked", p) != pg(v, "action", p)))]
GHOSTS["gown"] = AI; GHOSTS["grow"] = AI        # successor row -> its graph, its node
E.FRESH_GHOST = E.FRESH_GHOST + ("gown",)
def pg_ok(v, p):
    n, z = bound("n"), bound("z")
    return pg_shape(v, p) + [("graph of this model", And(pg(v, "num_obs", p) == nZ(v), pg(v, "num_states", p) == nS(v))), ("actions in range", forall(n, Implies(And(0 <= n, n < nn_(v, p)), And(0 <= pact(v, p, n), pact(v, p, n) < nA(v))), [pact(v, p, n)])),
      ("successors are nodes or markers", forall([n, z], Implies(And(0 <= n, n < nn_(v, p), 0 <= z, z < nZ(v)), pnext(v, p, n, z) < nn_(v, p)), [pnext(v, p, n, z)]))]
# ---------------------------------------------------------------- coefficients of one equation
OBA = [AR, AI, AI, AI]
zc = RecFun("pgz", [AI] + OBA + [R, I, I, I], R, lambda *a: rv(0), lambda nx, ov, oc, os, ol, w, t, nn, m, z, p: p + If(And(nx[z] >= 0, nx[z] + t * nn == m), w * ent_raw(ov, oc, os[t], ol[t], z), rv(0)))
jc = RecFun("pgj", [AR, AI, I, AI] + OBA + [R, I, I, I], R, lambda *a: rv(0), lambda pv, pc, s0, nx, ov, oc, os, ol, g, nn, m, nz, j, p: p + zc(nx, ov, oc, os, ol, g * pv[s0 + j], pc[s0 + j], nn, m, nz))
idx_in = Lemma("idx_in", [I, I, I, I], lambda x, t, nn, N: Implies(And(0 <= x, x < nn, 0 <= t, t < N), And(0 <= x + t * nn, x + t * nn < nn * N, t * nn >= 0)), induct=False)
def cj(v, p, s, n, m, J):
    a = pact(v, p, n); pv, pc, ps, pl = parr(v, a)
    return jc(pv, pc, ps[s], v.Ia(prow(v, p, n)), *oarr(v, a), v.g("gDiscount"), nn_(v, p), m, nZ(v), J)
def coefs(v, p, s, n, m):
    """coefficient of unknown m in the equation of state s and node n"""
    return If(m == n + s * nn_(v, p), rv(1), rv(0)) - cj(v, p, s, n, m, ln_(v, Pm(v, pact(v, p, n)), s))
def sc_in(c): return [("state and node in range", And(0 <= c.a(1), c.a(1) < nS(c.pre), 0 <= c.a(2), c.a(2) < nn_(c.pre, c.a(0))))]
def dc(v): return [("discount", True)]
def row_is(c, A, want, n): m = bound("m"); return forall(m, Implies(And(0 <= m, m < n), A[m] == want(m)), [A[m]])
def nv(c, p=None): return nn_(c.pre, c.a(0) if p is None else p) * nS(c.pre)
RC = lambda c: {"M:real": [c.a(3)]}
contract("PGE_setRowCoefs", file=FE, requires=lambda c: sizes(c) + pr_ok(c.pre) + pg_ok(c.pre, c.a(0)) + sc_in(c) + [("row of coefficients", And(c.a(3) > 0, arr_ok(c.pre, c.a(3), nv(c)), Sel(c.pre.gh("mown"), c.a(3)) == 0))],
  modifies=RC, hints=lambda c: [idx_in(c.a(2), c.a(1), nn_(c.pre, c.a(0)), nS(c.pre))],
  ensures=lambda c: [("one for the node and state itself, minus the discounted probability of every successor node and state, accumulated over observations", row_is(c, c.post.D(c.a(3)), lambda m: coefs(c.pre, c.a(0), c.a(1), c.a(2), m), nv(c)))],
  loops=[Loop(bound=lambda c: nv(c), mods=RC, hints=lambda c: [idx_in(c.a(2), c.a(1), nn_(c.pre, c.a(0)), nS(c.pre))], inv=lambda c: [("zero so far", row_is(c, c.now.D(c.a(3)), lambda m: rv(0), c.k))]),
    Loop(bound=lambda c: ln_(c.pre, Pm(c.pre, pact(c.pre, c.a(0), c.a(2))), c.a(1)), mods=RC, inv=lambda c: [("successors so far", row_is(c, c.now.D(c.a(3)), lambda m: If(m == c.a(2) + c.a(1) * nn_(c.pre, c.a(0)), rv(1), rv(0)) - cj(c.pre, c.a(0), c.a(1), c.a(2), m, c.k), nv(c)))]),
    Loop(bound=lambda c: nZ(c.pre), mods=RC, hints=lambda c: (lambda v, p, z, t: [forall(z, idx_in(pnext(v, p, c.a(2), z), t, nn_(v, p), nS(v)), [pnext(v, p, c.a(2), z)])])(c.pre, c.a(0), bound("z"), c.lv("next_state", "int")),
      inv=lambda c: (lambda v, a, j: (lambda P_: [("observations so far", row_is(c, c.now.D(c.a(3)), lambda m: c.at.D(c.a(3))[m] - zc(v.Ia(prow(v, c.a(0), c.a(2))), *oarr(v, a), v.g("gDiscount") * P_[0][j], c.lv("next_state", "int"), nn_(v, c.a(0)), m, c.k), nv(c)))])(parr(v, a)))(c.pre, pact(c.pre, c.a(0), c.a(2)), c.lv("j", "int")))])
C["PGE_setRowCoefs"].local_names = {"next_state", "j"}

# ---------------------------------------------------------------- the linear system (laspack: storage trusted, ghosts record what it was given)
AAAI, AAAR = z3.ArraySort(I, AAI), z3.ArraySort(I, AAR)
GHOSTS["qlen"] = AAI; GHOSTS["qcol"] = AAAI; GHOSTS["qval"] = AAAR; GHOSTS["vcmp"] = AAR     # matrix -> row -> length, columns, values; vector -> components
def st2(A, i, j, x): return z3.Store(A, i, z3.Store(Sel(A, i), j, x))
LN = "laspack (bundled): stores what it is given; its bodies are outside the contracts"
contract("V_SetCmp", file=None, trusted=True, writes=set(), ghost_writes=("vcmp",), modifies=lambda c: {"ghost:vcmp": [c.a(0)]}, note=LN, ensures=lambda c: [("component set", c.post.gh("vcmp") == st2(c.pre.gh("vcmp"), c.a(0), c.a(1), c.a(2)))])
contract("Q_SetLen", file=None, trusted=True, writes=set(), ghost_writes=("qlen",), modifies=lambda c: {"ghost:qlen": [c.a(0)]}, note=LN, ensures=lambda c: [("row length set", c.post.gh("qlen") == st2(c.pre.gh("qlen"), c.a(0), c.a(1), c.a(2)))])
contract("Q_SetEntry", file=None, trusted=True, writes=set(), ghost_writes=("qcol", "qval"), modifies=lambda c: {"ghost:qcol": [c.a(0)], "ghost:qval": [c.a(0)]}, note=LN,
  ensures=lambda c: [("entry column", c.post.gh("qcol") == z3.Store(c.pre.gh("qcol"), c.a(0), st2(Sel(c.pre.gh("qcol"), c.a(0)), c.a(1), c.a(2), c.a(3)))), ("entry value", c.post.gh("qval") == z3.Store(c.pre.gh("qval"), c.a(0), st2(Sel(c.pre.gh("qval"), c.a(0)), c.a(1), c.a(2), c.a(4))))])
nzc = RecFun("nzc", [AR, R], I, lambda a, e: iv(0), lambda a, e, i, p: If(eqe(a[i], rv(0), e), p, p + 1))
nz_mono = Lemma("nz_mono", [AR, R, I], lambda a, e, m, n: And(Implies(And(0 <= m, m < n, Not(eqe(a[m], rv(0), e))), nzc(a, e, m) + 1 <= nzc(a, e, n)), Implies(And(0 <= m, m <= n), nzc(a, e, m) <= nzc(a, e, n)), nzc(a, e, n) >= 0), pats=lambda a, e, m, n: [z3.MultiPattern(nzc(a, e, m), nzc(a, e, n))])
contract("numNonZero", file=FE, requires=lambda c: [("array", And(c.a(0) > 0, c.a(1) >= 0, arr_ok(c.pre, c.a(0), c.a(1))))], ensures=lambda c: [("number of entries not within the tolerance of zero", c.r == nzc(c.pre.D(c.a(0)), c.a(2), c.a(1)))],
  loops=[Loop(bound=lambda c: c.a(1), inv=lambda c: [("so far", c.lv("count", "int") == nzc(c.pre.D(c.a(0)), c.a(2), c.k))])])
C["numNonZero"].local_names = {"count"}
# a stored row holds exactly the entries of a coefficient array that are not (numerically) zero, in order
def _stored(col, val, A, e, n):
    m = bound("m"); return forall(m, Implies(And(0 <= m, m < n, Not(eqe(A[m], rv(0), e))), And(col[nzc(A, e, m)] == m + 1, val[nzc(A, e, m)] == A[m])), [A[m]])
def _eqn(ln, col, val, rhs, q, pv, pc, s0, nx, ov, oc, os, ol, g, nn, nz, J, main, e, n):
    A = z3.Const("A?row", AR); m = bound("m"); co = If(m == main, rv(1), rv(0)) - jc(pv, pc, s0, nx, ov, oc, os, ol, g, nn, m, nz, J)
    return And(rhs == q, z3.Exists([A], And(forall(m, Implies(And(0 <= m, m < n), A[m] == co), [A[m]]), ln == nzc(A, e, n), _stored(col, val, A, e, n))))
EQN = Opaque("EQN", [I, AI, AR, R, R, AR, AI, I, AI] + OBA + [R, I, I, I, I, R, I], B, _eqn)
eqn_new = Lemma("eqn_new", [AR, I, AI, AR, R, R, AR, AI, I, AI] + OBA + [R, I, I, I, I, R, I], lambda A, ln, col, val, rhs, q, pv, pc, s0, nx, ov, oc, os, ol, g, nn, nz, J, main, e, n: (lambda m: Implies(And(rhs == q, forall(m, Implies(And(0 <= m, m < n), A[m] == If(m == main, rv(1), rv(0)) - jc(pv, pc, s0, nx, ov, oc, os, ol, g, nn, m, nz, J)), [A[m]]), ln == nzc(A, e, n), _stored(col, val, A, e, n)), EQN(ln, col, val, rhs, q, pv, pc, s0, nx, ov, oc, os, ol, g, nn, nz, J, main, e, n)))(bound("m")), induct=False,
  extra=lambda *a: [EQN.reveal()])
EQI = Opaque("EQI", [I, I, I], I, lambda s, n, nn: n + s * nn)
eqi_inj = Lemma("eqi_inj", [I, I, I, I, I], lambda s, n, t, m, nn: Implies(And(0 <= n, n < nn, 0 <= m, m < nn, EQI(s, n, nn) == EQI(t, m, nn)), And(s == t, n == m)), induct=False, extra=lambda s, n, t, m, nn: [EQI.reveal(), Implies(s < t, _mulgap(s, t, nn)), Implies(t < s, _mulgap(t, s, nn))], pats=lambda s, n, t, m, nn: [z3.MultiPattern(EQI(s, n, nn), EQI(t, m, nn))])
def _mulgap(s, t, nn): return mul_gap(s, t, nn)
mul_gap = Lemma("mul_gap", [I, I, I], lambda s, t, nn: Implies(And(s < t, nn >= 0), s * nn + nn <= t * nn), induct=False)
def sub(f): fn = z3.Function("sub:" + PEC + "." + f, I, I); return fn
pA, pB, pX = sub("A"), sub("b"), sub("x")
def equation(c, v, p, e, s, n):
    """the equation stored for state s and node n"""
    v0 = c.pre; w = pg_of(c); nn = nn_(v0, w); a = pact(v0, w, n); pv, pc, ps, pl = parr(v0, a); r = EQI(s, n, nn) + 1; A = pA(p)
    return EQN(Sel(v.gh("qlen"), A)[r], Sel(Sel(v.gh("qcol"), A), r), Sel(Sel(v.gh("qval"), A), r), Sel(v.gh("vcmp"), pB(p))[r], ent(v0, Qm(v0), a, s), pv, pc, ps[s], v0.Ia(prow(v0, w, n)), *oarr(v0, a), v0.g("gDiscount"), nn, nZ(v0), ln_(v0, Pm(v0, a), s), EQI(s, n, nn), pe(v, "zero_epsilon", p), nn * nS(v0))
def pg_of(c): return c.a(0)
def equations(c, v, s1, n1=None):
    s, n = bound("s"), bound("n"); nn = nn_(c.pre, pg_of(c)); g = And(0 <= s, s < s1, 0 <= n, n < nn) if n1 is None else And(0 <= n, n < nn, 0 <= s, Or(s < s1, And(s == s1, n < n1)))
    return [("the equation of every state and node done", forall([s, n], Implies(g, equation(c, v, c.a(1), None, s, n)), [EQI(s, n, nn)]))]
def ctx_ok(c, v, p): return [("evaluation context", And(p > 0, v.valid(p), KIND(p) == E.kind_of(PEC), pe(v, "row_coef", p) > 0, arr_ok(v, pe(v, "row_coef", p), pe(v, "num_vars", p)), Sel(v.gh("mown"), pe(v, "row_coef", p)) == 0))]
QG = ("qlen", "qcol", "qval", "vcmp")
def QMD(c): return {"M:real": [pe(c.pre, "row_coef", c.a(1))], "ghost:qlen": [pA(c.a(1))], "ghost:qcol": [pA(c.a(1))], "ghost:qval": [pA(c.a(1))], "ghost:vcmp": [pB(c.a(1))]}
def cs(c): return c.lv("cur_state", "int"), c.lv("n", "int")
def rowA(c): return c.now.D(pe(c.pre, "row_coef", c.a(1)))
def eq_hint(c):
    s, k = c.lv("cur_state", "int"), c.k; return []
def row_hint(c):
    v0 = c.pre; s, n = cs(c); w = c.a(0); p = c.a(1); nn = nn_(v0, w); a = pact(v0, w, n); return [EQI.reveal()]
contract("PGE_setPGCoefs", file=FE, requires=lambda c: sizes(c) + pr_ok(c.pre) + q_ok(c.pre) + pg_ok(c.pre, c.a(0)) + ctx_ok(c, c.pre, c.a(1)) + [("room for a variable per state and node", And(pe(c.pre, "num_vars", c.a(1)) == nn_(c.pre, c.a(0)) * nS(c.pre)))],
  modifies=QMD, ghost_writes=QG, ensures=lambda c: equations(c, c.post, nS(c.pre)),
  loops=[Loop(bound=lambda c: nS(c.pre), mods=QMD, gw=QG, hints=lambda c: [eqi_inj.all()], inv=lambda c: equations(c, c.now, c.k)),
    Loop(bound=lambda c: nn_(c.pre, c.a(0)), mods=QMD, gw=QG, inv=lambda c: equations(c, c.now, c.lv("cur_state", "int"), c.k), hints=lambda c: pgc_hints(c)),
    Loop(bound=lambda c: pe(c.pre, "num_vars", c.a(1)), mods=lambda c: {"ghost:qcol": [pA(c.a(1))], "ghost:qval": [pA(c.a(1))]}, gw=("qcol", "qval"), hints=lambda c: [nz_mono.all(), eqi_inj.all()],
       inv=lambda c: (lambda s, n, A, e, nn: equations(c, c.now, s, n) + [("entries so far", c.lv("non_zero_element", "int") == nzc(A, e, c.k)), ("stored so far", (lambda r: _stored(Sel(Sel(c.now.gh("qcol"), pA(c.a(1))), r), Sel(Sel(c.now.gh("qval"), pA(c.a(1))), r), A, e, c.k))(EQI(s, n, nn) + 1)), ("row number", c.lv("row", "int") == EQI(s, n, nn))])(*cs(c), rowA(c), pe(c.pre, "zero_epsilon", c.a(1)), nn_(c.pre, c.a(0))))])
C["PGE_setPGCoefs"].local_names = {"cur_state", "n", "row", "non_zero_element"}
def pgc_hints(c):
    """the equation just stored, and what EQI stands for"""
    v0, v = c.pre, c.now; s, n = c.lv("cur_state", "int"), c.k - 1; w, p = c.a(0), c.a(1); nn = nn_(v0, w); a = pact(v0, w, n); pv, pc, ps, pl = parr(v0, a); r = EQI(s, n, nn) + 1; A = pA(p)
    return [eqi_inj.all(), EQI.reveal(), eqn_new(rowA(c), Sel(v.gh("qlen"), A)[r], Sel(Sel(v.gh("qcol"), A), r), Sel(Sel(v.gh("qval"), A), r), Sel(v.gh("vcmp"), pB(p))[r], ent(v0, Qm(v0), a, s), pv, pc, ps[s], v0.Ia(prow(v0, w, n)), *oarr(v0, a), v0.g("gDiscount"), nn, nZ(v0), ln_(v0, Pm(v0, a), s), EQI(s, n, nn), pe(v0, "zero_epsilon", p), nn * nS(v0))]

# ---------------------------------------------------------------- value at a belief
ndot = RecFun("ndot", [AAR, AI, AR, I], R, lambda *a: rv(0), lambda D, S, b, n, s, p: p + Sel(D, S[s])[n] * b[s])
def nval(v, p, b, n): return ndot(v.m("M:real"), v.P(pe(v, "soln", p)), v.D(b), n, pe(v, "num_states", p))
def row_of(v, p, r): t = Sel(v.gh("grow"), r); return And(Sel(v.gh("gown"), r) == p, 0 <= t, t < pe(v, "num_states", p), v.P(pe(v, "soln", p))[t] == r)
def soln_ok(v, p):
    s = bound("s"); S = v.P(pe(v, "soln", p)); ns, nn = pe(v, "num_states", p), pe(v, "num_nodes", p)
    return [("solution table", And(p > 0, v.valid(p), KIND(p) == E.kind_of(PEC), ns >= 0, nn >= 0, pe(v, "soln", p) > 0, arr_ok(v, pe(v, "soln", p), ns, "ptr"), Sel(v.gh("gown"), pe(v, "soln", p)) == 0)),
            ("a row per state", forall(s, Implies(And(0 <= s, s < ns), And(S[s] > 0, arr_ok(v, S[s], nn), Sel(v.gh("mown"), S[s]) == 0, Sel(v.gh("gown"), S[s]) == p, Sel(v.gh("grow"), S[s]) == s)), [S[s]]))]
def bn_post(c, r, best, n):
    k = bound("k"); v = c.pre; val = lambda k: nval(v, c.a(0), c.a(1), k)
    return [("no node is worth more", forall(k, Implies(And(0 <= k, k < n), val(k) <= r), [val(k)])), ("the node reported attains the value", If(best >= 0, And(best < n, val(best) == r), And(best == -1, r == -INF)))]
contract("PGEC_val", file=FE, requires=lambda c: soln_ok(c.pre, c.a(0)) + [("belief", And(c.a(1) > 0, arr_ok(c.pre, c.a(1), pe(c.pre, "num_states", c.a(0))))), ("result cell", And(out_int(c.pre, c.a(2))))], modifies=lambda c: {"M:int": [c.a(2)]},
  ensures=lambda c: bn_post(c, c.r, c.post.Ia(c.a(2))[0], pe(c.pre, "num_nodes", c.a(0))),
  loops=[Loop(bound=lambda c: pe(c.pre, "num_nodes", c.a(0)), inv=lambda c: bn_post(c, c.lv("max_sum", "real"), c.now.Ia(c.a(2))[0], c.k)), Loop(bound=lambda c: pe(c.pre, "num_states", c.a(0)), inv=lambda c: [("sum so far", c.lv("cur_sum", "real") == ndot(c.pre.m("M:real"), c.pre.P(pe(c.pre, "soln", c.a(0))), c.pre.D(c.a(1)), c.lv("cur_node", "int"), c.k))])])
C["PGEC_val"].local_names = {"max_sum", "cur_sum", "cur_node"}
def out_int(v, x): return And(x != 0, v.valid(x), KIND(x) == E.kind_of("int"), LEN(x) >= 1)

# ---------------------------------------------------------------- the evaluation context
DEFEPS = rv("1/100000000")
def pf_(f): return f"F:{PEC}.{f}"
SZ = ("num_states", "num_nodes", "num_obs", "num_vars")
def ctx_wf(v, p):
    e = pe(v, "soln", p) == 0
    return [("context", And(p > 0, v.valid(p), KIND(p) == E.kind_of(PEC), Sel(v.gh("gown"), p) == 0)), ("empty or allocated", e == (pe(v, "row_coef", p) == 0)), ("empty: no sizes", Implies(e, And(*[pe(v, f, p) == 0 for f in SZ]))),
      ("allocated: sizes", Implies(Not(e), And(pe(v, "num_states", p) == nS(v), pe(v, "num_nodes", p) >= 1, pe(v, "num_vars", p) == pe(v, "num_nodes", p) * nS(v), pe(v, "row_coef", p) > 0, arr_ok(v, pe(v, "row_coef", p), pe(v, "num_vars", p)), Sel(v.gh("gown"), pe(v, "row_coef", p)) == 0, Sel(v.gh("mown"), pe(v, "row_coef", p)) == 0))), ("storage", Implies(Not(e), pe(v, "row_coef", p) != pe(v, "soln", p)))] + [(l, Implies(Not(e), f)) for l, f in soln_ok(v, p)]
def fm_ens(c, v, p): return [("emptied", And(*[pe(v, f, p) == 0 for f in SZ + ("row_coef", "soln")])), ("default tolerance", pe(v, "zero_epsilon", p) == DEFEPS)]
def fm_mods(c, p): return dict({pf_(f): [p] for f in SZ + ("row_coef", "soln", "zero_epsilon")}, **{"freed": lambda r: Or(r == pe(c.pre, "row_coef", p), r == pe(c.pre, "soln", p), And(pe(c.pre, "soln", p) != 0, row_of(c.pre, p, r))), "M:ptr": [pe(c.pre, "soln", p)]})
contract("PGEC_freeMemory", file=FE, requires=lambda c: sizes(c) + ctx_wf(c.pre, c.a(0)), modifies=lambda c: fm_mods(c, c.a(0)), ensures=lambda c: fm_ens(c, c.post, c.a(0)) + [("rows released", (lambda s: Implies(pe(c.pre, "soln", c.a(0)) != 0, forall(s, Implies(And(0 <= s, s < nS(c.pre)), Not(c.post.valid(c.pre.P(pe(c.pre, "soln", c.a(0)))[s]))), [c.pre.P(pe(c.pre, "soln", c.a(0)))[s]])))(bound("s")))],
  loops=[Loop(bound=lambda c: nS(c.pre), mods=lambda c: {"freed": lambda r: row_of(c.pre, c.a(0), r), "M:ptr": [pe(c.pre, "soln", c.a(0))]}, only=True,
    inv=lambda c: (lambda s, S: [("released so far", forall(s, Implies(And(0 <= s, s < nS(c.pre)), If(s < c.k, Not(c.now.valid(S[s])), And(c.now.valid(S[s]), c.now.P(pe(c.pre, "soln", c.a(0)))[s] == S[s]))), [S[s]]))])(bound("s"), c.pre.P(pe(c.pre, "soln", c.a(0)))))])
def al_ens(c, v, p, g): return ctx_wf(v, p) + [("sized for the graph", And(pe(v, "num_nodes", p) == nn_(c.pre, g), pe(v, "num_obs", p) == pg(c.pre, "num_obs", g), pe(v, "num_states", p) == nS(v), pe(v, "soln", p) != 0))]
def al_mods(c, p): return {pf_(f): [p] for f in SZ + ("row_coef", "soln")}
def fresh_st(c): s = bound("s"); S = c.post.P(pe(c.post, "soln", c.a(0))); return [("fresh storage", And(pe(c.post, "soln", c.a(0)) >= c.pre.clk, pe(c.post, "row_coef", c.a(0)) >= c.pre.clk)), ("fresh rows", forall(s, Implies(And(0 <= s, s < nS(c.pre)), S[s] >= c.pre.clk), [S[s]]))]
contract("PGEC_allocMemory", file=FE, requires=lambda c: sizes(c) + pg_shape(c.pre, c.a(1)) + [("context, empty", And(c.a(0) > 0, c.pre.valid(c.a(0)), KIND(c.a(0)) == E.kind_of(PEC), Sel(c.pre.gh("gown"), c.a(0)) == 0))], modifies=lambda c: al_mods(c, c.a(0)), ghost_writes=("gown", "grow"),
  ensures=lambda c: al_ens(c, c.post, c.a(0), c.a(1)) + [] + fresh_st(c),
  loops=[Loop(bound=lambda c: nS(c.pre), gw=("gown", "grow"), mods=lambda c: {"M:ptr": [pe(c.now, "soln", c.a(0))], "ghost:gown": lambda r: r >= c.pre.clk, "ghost:grow": lambda r: r >= c.pre.clk}, ghost=lambda c: (lambda S: {"gown": z3.Store(c.now.gh("gown"), S[c.k], c.a(0)), "grow": z3.Store(c.now.gh("grow"), S[c.k], c.k)})(c.now.P(pe(c.now, "soln", c.a(0)))),
    inv=lambda c: (lambda s, v: (lambda S: [("fields", And(pe(v, "num_states", c.a(0)) == nS(c.pre), pe(v, "num_nodes", c.a(0)) == nn_(c.pre, c.a(1)), Sel(v.gh("gown"), pe(v, "soln", c.a(0))) == 0, Sel(v.gh("gown"), pe(v, "row_coef", c.a(0))) == 0)), ("rows so far", forall(s, Implies(And(0 <= s, s < c.k), And(S[s] >= c.pre.clk, S[s] != pe(v, "soln", c.a(0)), S[s] != pe(v, "row_coef", c.a(0)), arr_ok(v, S[s], nn_(c.pre, c.a(1))), Sel(v.gh("mown"), S[s]) == 0, Sel(v.gh("gown"), S[s]) == c.a(0), Sel(v.gh("grow"), S[s]) == s)), [S[s]]))])(v.P(pe(v, "soln", c.a(0)))))(bound("s"), c.now))])
contract("PGEC_Constructor", file=FE, requires=sizes, ensures=lambda c: ctx_wf(c.post, c.r) + [("new and empty", And(c.r >= c.pre.clk, pe(c.post, "soln", c.r) == 0))])
contract("PGEC_Destructor", file=FE, requires=lambda c: sizes(c) + [(l, Implies(c.a(0) != 0, f)) for l, f in ctx_wf(c.pre, c.a(0))], modifies=lambda c: dict(fm_mods(c, c.a(0)), freed=lambda r: Or(r == c.a(0), fm_mods(c, c.a(0))["freed"](r))), ensures=lambda c: [("released", Implies(c.a(0) != 0, Not(c.post.valid(c.a(0)))))])
contract("PGEC_update", file=FE, requires=lambda c: sizes(c) + ctx_wf(c.pre, c.a(0)) + pg_shape(c.pre, c.a(1)) + [("graph of this model", And(pg(c.pre, "num_obs", c.a(1)) == nZ(c.pre), pg(c.pre, "num_states", c.a(1)) == nS(c.pre), c.a(0) != c.a(1))), ("not the graph's storage", pe(c.pre, "soln", c.a(0)) != pg(c.pre, "next", c.a(1)))],
  modifies=lambda c: fm_mods(c, c.a(0)), ghost_writes=("gown", "grow"),
  ensures=lambda c: al_ens(c, c.post, c.a(0), c.a(1)) + [("kept or new: " + l, Or(kept(c), f)) for l, f in fresh_st(c)])
def kept(c): p = c.a(0); return And(*[pe(c.post, f, p) == pe(c.pre, f, p) for f in ("soln", "row_coef", "num_states", "num_nodes")], c.post.P(pe(c.pre, "soln", p)) == c.pre.P(pe(c.pre, "soln", p)))


# ---------------------------------------------------------------- solving the system, and reading the answer back
TR = dict(file=None, trusted=True, writes=set(), note=LN)
contract("Q_Constr", ghost_writes=("qlen", "qcol", "qval"), modifies=lambda c: {"ghost:qlen": [c.a(0)], "ghost:qcol": [c.a(0)], "ghost:qval": [c.a(0)]}, requires=lambda c: [("number of unknowns", c.a(2) >= 1)], **TR)
contract("V_Constr", ghost_writes=("vcmp",), modifies=lambda c: {"ghost:vcmp": [c.a(0)]}, requires=lambda c: [("number of unknowns", c.a(2) >= 1)], **TR)
contract("Q_Destr", **TR); contract("V_Destr", **TR); contract("SetRTCAccuracy", **TR); contract("LASResult", **TR); contract("WriteLASErrDescr", **TR)
contract("V_SetAllCmp", ghost_writes=("vcmp",), modifies=lambda c: {"ghost:vcmp": [c.a(0)]}, **TR)
contract("JacobiIter", ghost_writes=("vcmp",), modifies=lambda c: {"ghost:vcmp": [c.a(1)]}, **dict(TR, note="laspack (bundled): that the iteration solves the system it is given is not proved; companion suite_pg checks the resulting values"))
contract("V_GetCmp", ensures=lambda c: [("the component", c.r == Sel(Sel(c.pre.gh("vcmp"), c.a(0)), c.a(1)))], **TR)
def answer(c, v, s, n): return v.D(v.P(pe(v, "soln", c.a(1)))[s])[n] == Sel(Sel(v.gh("vcmp"), pX(c.a(1))), EQI(s, n, nn_(c.pre, c.a(0))) + 1)
def answers(c, v, s1, n1=None):
    s, n = bound("s"), bound("n"); nn = nn_(c.pre, c.a(0)); S = v.P(pe(v, "soln", c.a(1))); g = And(0 <= s, s < s1, 0 <= n, n < nn) if n1 is None else And(0 <= n, n < nn, 0 <= s, Or(s < s1, And(s == s1, n < n1)))
    return [("the value of every state and node done is that of its own unknown", forall([s, n], Implies(g, answer(c, v, s, n)), [v.D(S[s])[n]]))]
def rows_of(c, v): return lambda r: row_of(v, c.a(1), r)
contract("PGE_evaluate", file=FE, requires=lambda c: sizes(c) + pr_ok(c.pre) + q_ok(c.pre) + pg_ok(c.pre, c.a(0)) + ctx_wf(c.pre, c.a(1)) + [("separate storage", And(c.a(0) != c.a(1), pe(c.pre, "soln", c.a(1)) != pg(c.pre, "next", c.a(0)), pe(c.pre, "soln", c.a(1)) != c.pre.g("P"), pe(c.pre, "soln", c.a(1)) != c.pre.g("R")))],
  modifies=lambda c: dict(fm_mods(c, c.a(1)), **{"M:real": lambda r: Or(r == pe(c.pre, "row_coef", c.a(1)), And(pe(c.pre, "soln", c.a(1)) != 0, row_of(c.pre, c.a(1), r)))}, **{"ghost:" + g: [x(c.a(1))] for g, x in (("qlen", pA), ("qcol", pA), ("qval", pA))}, **{"ghost:vcmp": [pB(c.a(1)), pX(c.a(1))]}),
  ghost_writes=("gown", "grow") + QG,
  ensures=lambda c: al_ens(c, c.post, c.a(1), c.a(0)) + [("outcome", Or(c.r == 0, c.r == 1))] + [(l, Implies(c.r == 1, f)) for l, f in [("solved: " + l, f) for l, f in evs(c, c.post) + answers(c, c.post, nS(c.pre))]],
  loops=[Loop(bound=lambda c: nS(c.pre), mods=lambda c: {"M:real": rows_of(c, c.at)}, inv=lambda c: answers(c, c.now, c.k), hints=lambda c: [EQI.reveal()]),
         Loop(bound=lambda c: nn_(c.pre, c.a(0)), mods=lambda c: {"M:real": rows_of(c, c.at)}, inv=lambda c: answers(c, c.now, c.lv("s", "int"), c.k), hints=lambda c: [EQI.reveal()])])
C["PGE_evaluate"].local_names = {"s"}
def evs(c, v): return [(l, f) for l, f in equations(c, v, nS(c.pre))]
