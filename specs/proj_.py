"""src/pomdp.c, src/projection.c: model tables, back-projection (P01)."""
from .alpha_ import *
from .sparse_ import *
F = "src/projection.c"; FP = "src/pomdp.c"
GHOSTS["oix"] = AI          # row of gObservationPossible / of a projection table -> its index
E.FRESH_GHOST = E.FRESH_GHOST + ("oix",)
def Pm(v, a): return v.P(v.g("P"))[a]
def Rm(v, a): return v.P(v.g("R"))[a]
def Qm(v): return v.g("Q")
def OP(v, a): return v.P(v.g("gObservationPossible"))[a]
def opos(v, a, z): return v.Ia(OP(v, a))[z]
def tab_ok(v, g, what):
    """global array of one compressed matrix per action"""
    return And(v.g(g) > 0, arr_ok(v, v.g(g), nA(v), "ptr"), Sel(v.gh("oix"), v.g(g)) == 0)
def mats_ok(v, Mf, rows, cols, what):
    """for every action the matrix Mf(a) is well formed with `rows` rows and columns below `cols`"""
    a, r, j = bound("a"), bound("r"), bound("j"); M = Mf(a); g = And(0 <= a, a < nA(v))
    A = [mxV(v, M), mxS(v, M), mxL(v, M), mxC(v, M)]
    m0 = And(*[f for _, f in mwf0(v, M)], mxN(v, M) == rows)
    return [(what + " matrices well formed", forall(a, Implies(g, m0), [M])),
            (what + " rows inside the arrays", forall([a, r], Implies(And(g, 0 <= r, r < rows), And(0 <= st_(v, M, r), 0 <= ln_(v, M, r), st_(v, M, r) + ln_(v, M, r) <= mxZ(v, M))), [st_(v, M, r), ln_(v, M, r)])),
            (what + " columns in range", forall([a, j], Implies(And(g, 0 <= j, j < mxZ(v, M)), And(0 <= v.Ia(mxC(v, M))[j], v.Ia(mxC(v, M))[j] < cols)), [v.Ia(mxC(v, M))[j]]))]
def q_ok(v):
    return mwf(v, Qm(v)) + [("reward table has a row per action", mxN(v, Qm(v)) == nA(v))]
def pr_ok(v):
    return [("transition table", tab_ok(v, "P", "P")), ("observation table", tab_ok(v, "R", "R"))] + mats_ok(v, lambda a: Pm(v, a), nS(v), nS(v), "transition") + mats_ok(v, lambda a: Rm(v, a), nS(v), nZ(v), "observation")
def op_ok(v):
    a = bound("a")
    return [("observation flags", And(v.g("gObservationPossible") > 0, Sel(v.gh("oix"), v.g("gObservationPossible")) == 0, arr_ok(v, v.g("gObservationPossible"), nA(v), "ptr"))),
            ("observation flag rows", forall(a, Implies(And(0 <= a, a < nA(v)), And(OP(v, a) > 0, arr_ok(v, OP(v, a), nZ(v), "int"), Sel(v.gh("oix"), OP(v, a)) == a + 1, Sel(v.gh("mown"), OP(v, a)) == 0)), [OP(v, a)]))]
def ent_raw(val, col, s, n, x):
    j = fidx(col, s, x, n); return If(j < n, val[s + j], rv(0))

# ---------------------------------------------------------------- rewards
def _adj(val, col, s0, n, x, vt, rq, mn):
    e = ent_raw(val, col, s0, n, x)
    return If(vt == COST, -e, e) - If(And(rq != 0, mn < 0), mn, rv(0))
ADJ = Opaque("ADJ", [AR, AI, I, I, I, I, I, R], R, _adj)
def adjR(v, a, s):
    """reward used by the solver: costs negated, shifted to be non-negative when required"""
    M = Qm(v)
    return ADJ(v.D(mxV(v, M)), v.Ia(mxC(v, M)), st_(v, M, a), ln_(v, M, a), s, v.g("gValueType"), v.g("gRequireNonNegativeRewards"), v.g("gMinimumImmediateReward"))
COST = iv(1)
contract("worstPossibleValue", file=FP, ensures=lambda c: [("minus infinity", c.r == -INF)])
contract("bestPossibleValue", file=FP, ensures=lambda c: [("infinity", c.r == INF)])
contract("getAdjustedReward", file=FP, hints=lambda c: [ADJ.reveal()], requires=lambda c: q_ok(c.pre) + [("action in range", And(0 <= c.a(0), c.a(0) < nA(c.pre)))],
  ensures=lambda c: [("immediate reward, negated for costs, shifted when required", c.r == adjR(c.pre, c.a(0), c.a(1)))])
contract("valuesRequireScaling", file=FP,
  ensures=lambda c: [("true iff rewards are adjusted", (c.r == 1) == Or(And(c.pre.g("gRequireNonNegativeRewards") != 0, c.pre.g("gMinimumImmediateReward") < 0), c.pre.g("gValueType") == COST)), ("boolean", Or(c.r == 0, c.r == 1))])

# ---------------------------------------------------------------- possible observations
def zero_row(v, a, z, s, n, eps):
    """the first n successors of state s all give observation z (numerically) probability zero"""
    j = bound("j"); M = Pm(v, a); x = v.Ia(mxC(v, M))[j]
    return forall(j, Implies(And(st_(v, M, s) <= j, j < st_(v, M, s) + n), eqe(ent(v, Rm(v, a), x, z), rv(0), eps)), [x])
def zero_obs(v, a, z, n, eps):
    s, j = bound("s"), bound("j"); M = Pm(v, a); x = v.Ia(mxC(v, M))[j]
    return forall([s, j], Implies(And(0 <= s, s < n, st_(v, M, s) <= j, j < st_(v, M, s) + ln_(v, M, s)), eqe(ent(v, Rm(v, a), x, z), rv(0), eps)), [z3.MultiPattern(st_(v, M, s), x)])
def flags(c, v, na, zz=None, at=None):
    a, z = bound("a"), bound("z")
    cond = And(0 <= a, a < na, 0 <= z, z < nZ(c.pre)) if at is None else And(0 <= z, z < zz, a == at)
    return forall([a, z], Implies(cond, opos(v, a, z) == If(zero_obs(c.pre, a, z, nS(c.pre), c.a(0)), iv(0), iv(1))), [opos(v, a, z)])
def spo_mods(c):
    return {"M:int": (lambda r: Or(r == c.pre.g("gNumPossibleObservations"), And(1 <= Sel(c.pre.gh("oix"), r), Sel(c.pre.gh("oix"), r) <= nA(c.pre), r == OP(c.pre, Sel(c.pre.gh("oix"), r) - 1))))}
contract("setPossibleObservations", file=FP, abort_ok=True, note="aborts when some action admits no observation",
  requires=lambda c: sizes(c) + pr_ok(c.pre) + op_ok(c.pre) + [("observation counters", And(c.pre.g("gNumPossibleObservations") > 0, arr_ok(c.pre, c.pre.g("gNumPossibleObservations"), nA(c.pre), "int"), Sel(c.pre.gh("mown"), c.pre.g("gNumPossibleObservations")) == 0, Sel(c.pre.gh("oix"), c.pre.g("gNumPossibleObservations")) == 0))],
  modifies=spo_mods,
  ensures=lambda c: [("an observation is possible iff some successor of some state gives it non-zero probability", flags(c, c.post, nA(c.pre)))],
  loops=[Loop(bound=lambda c: nA(c.pre), inv=lambda c: [("flags so far", flags(c, c.now, c.k))]),
    Loop(bound=lambda c: nZ(c.pre), inv=lambda c: [("flags of earlier actions", flags(c, c.now, c.lv("a", "int"))), ("flags of this action", flags(c, c.now, None, c.k, c.lv("a", "int")))]),
    Loop(bound=lambda c: nS(c.pre), inv=lambda c: [("states so far", zero_obs(c.pre, c.lv("a", "int"), c.lv("z", "int"), c.k, c.a(0)))]),
    Loop(bound=lambda c: ln_(c.pre, Pm(c.pre, c.lv("a", "int")), c.lv("cur_state", "int")), inv=lambda c: [("successors so far", zero_row(c.pre, c.lv("a", "int"), c.lv("z", "int"), c.lv("cur_state", "int"), c.k, c.a(0)))]),
    Loop()])

# ---------------------------------------------------------------- back-projection
psum = RecFun("psum", [AR, AI, I, AR, AI, AI, AI, I, AR], R, lambda *a: rv(0),
   lambda pv, pc, s, ov, oc, os, ol, z, al, i, p: p + pv[s + i] * ent_raw(ov, oc, os[pc[s + i]], ol[pc[s + i]], z) * al[pc[s + i]])
def psum_at(v, a, z, s, al, n):
    M, O = Pm(v, a), Rm(v, a)
    return psum(v.D(mxV(v, M)), v.Ia(mxC(v, M)), st_(v, M, s), v.D(mxV(v, O)), v.Ia(mxC(v, O)), v.Ia(mxS(v, O)), v.Ia(mxL(v, O)), z, al, n)
def share(v, a, s):
    """adjR(v, a, s) / number of observations"""
    return DIV(adjR(v, a, s), z3.ToReal(nZ(v)))
def projv(v, a, z, s, al):
    """component s of the projection of vector al for action a, observation z"""
    return psum_at(v, a, z, s, al, ln_(v, Pm(v, a), s)) * v.g("gDiscount") + share(v, a, s)
def model(v): return pr_ok(v) + q_ok(v) + op_ok(v)
def az(c, i=1): return [("action and observation in range", And(0 <= c.a(i), c.a(i) < nA(c.pre), 0 <= c.a(i + 1), c.a(i + 1) < nZ(c.pre)))]
def proj_is(v, w, al, a, z, src):
    """array al (view w) is the projection of vector array src (view v)"""
    s = bound("s")
    return forall(s, Implies(And(0 <= s, s < nS(v)), w.D(al)[s] == projv(v, a, z, s, v.D(src))), [w.D(al)[s]])
def share_is(v, w, al, a):
    s = bound("s")
    return forall(s, Implies(And(0 <= s, s < nS(v)), w.D(al)[s] == share(v, a, s)), [w.D(al)[s]])
PNF = ("first_source", "second_source", "obs_source", "witness", "mark", "hook")
contract("projectVector", file=F, ghost_writes=("bown",),
  requires=lambda c: sizes(c) + model(c.pre) + az(c) + [("vector node", node_ok(c.pre, c.a(0))), ("observation possible", opos(c.pre, c.a(1), c.a(2)) != 0)],
  ensures=lambda c: [("fresh node", And(c.r >= c.pre.clk, is_node(c.post, c.r))), ("fresh vector", alphaN(c.post, c.r) >= c.pre.clk),
     ("discounted expectation of the vector plus the reward share", proj_is(c.pre, c.post, alphaN(c.post, c.r), c.a(1), c.a(2), alphaN(c.pre, c.a(0)))),
     ("remembers source, observation and action", And(c.post.f(AL + ".prev_source", c.r) == c.a(0), c.post.f(AL + ".obs", c.r) == c.a(2), c.post.f(AL + ".action", c.r) == c.pre.f(AL + ".action", c.a(0)))),
     ("unset fields", And(*[c.post.f(AL + "." + f, c.r) == 0 for f in PNF])), ("well formed, in no list", And(node_ok(c.post, c.r), own(c.post, c.r) == 0, nxt(c.post, c.r) == 0))],
  loops=[Loop(bound=lambda c: nS(c.pre), mods=lambda c: {"M:real": [c.lv("alpha", "ptr")]},
      inv=lambda c: (lambda s: [("components so far", forall(s, Implies(And(0 <= s, s < c.k), c.now.D(c.lv("alpha", "ptr"))[s] == projv(c.pre, c.a(1), c.a(2), s, vecN(c.pre, c.a(0)))), [c.now.D(c.lv("alpha", "ptr"))[s]]))])(bound("s"))),
    Loop(bound=lambda c: ln_(c.pre, Pm(c.pre, c.a(1)), c.lv("cur_state", "int")), mods=lambda c: {"M:real": [c.lv("alpha", "ptr")]},
      inv=lambda c: (lambda s, x: [("sum so far", c.now.D(c.lv("alpha", "ptr"))[x] == psum_at(c.pre, c.a(1), c.a(2), x, vecN(c.pre, c.a(0)), c.k)),
         ("components kept", forall(s, Implies(And(0 <= s, s < x), c.now.D(c.lv("alpha", "ptr"))[s] == c.at.D(c.lv("alpha", "ptr"))[s]), [c.now.D(c.lv("alpha", "ptr"))[s]]))])(bound("s"), c.lv("cur_state", "int")))])
C["projectVector"].local_names = {"alpha", "cur_state"}
def pn(v, f, x): return v.f(AL + "." + f, x)
def plist(v, w, X, L, a, z, n=None):
    """list X (view w) is the projection of list L (view v) for a, z"""
    k, s = bound("k"), bound("s"); x = nodeL(w, X, k); src = nodeL(v, L, k); poss = opos(v, a, z) != 0
    m = lenL(v, L) if n is None else n
    return [("list carries action and observation", And(pn(w, "action", X) == a, pn(w, "obs", X) == z)),
       ("one vector per next-stage vector, or one for an impossible observation", lenL(w, X) == If(L == 0, iv(0), If(poss, m, iv(1)))),
       ("each vector projects the corresponding one and remembers it", forall(k, Implies(And(L != 0, poss, 0 <= k, k < m), And(pn(w, "prev_source", x) == src, pn(w, "obs", x) == z, pn(w, "action", x) == pn(v, "action", src), *[pn(w, f, x) == 0 for f in PNF])), [x])),
       ("components are the discounted expectation plus the reward share", forall([k, s], Implies(And(L != 0, poss, 0 <= k, k < m, 0 <= s, s < nS(v)), vecN(w, x)[s] == projv(v, a, z, s, vecN(v, src))), [vecN(w, x)[s]])),
       ("an impossible observation leaves the reward share alone", forall(s, Implies(And(L != 0, Not(poss), 0 <= s, s < nS(v)), vecN(w, nodeL(w, X, iv(0)))[s] == share(v, a, s)), [vecN(w, nodeL(w, X, iv(0)))[s]])),
       ("provenance for an impossible observation", Implies(And(L != 0, Not(poss)), (lambda y: And(pn(w, "prev_source", y) == 0, pn(w, "obs", y) == z, pn(w, "action", y) == a, *[pn(w, f, y) == 0 for f in PNF]))(nodeL(w, X, iv(0)))))]
def pl_pre(c, L): return [("next-stage set", Or(L == 0, conj(wf(c.pre, L))))]
contract("projectList", file=F, ghost_writes=G3 + ("bown",),
  requires=lambda c: sizes(c) + model(c.pre) + az(c) + pl_pre(c, c.a(0)),
  ensures=lambda c: [("fresh list", And(c.r >= c.pre.clk))] + plist(c.pre, c.post, c.r, c.a(0), c.a(1), c.a(2)) + wf(c.post, c.r),
  loops=[Loop(bound=lambda c: nS(c.pre), mods=lambda c: {"M:real": [c.lv("alpha", "ptr")]},
      inv=lambda c: (lambda s: [("components so far", forall(s, Implies(And(0 <= s, s < c.k), c.now.D(c.lv("alpha", "ptr"))[s] == share(c.pre, c.a(1), s)), [c.now.D(c.lv("alpha", "ptr"))[s]]))])(bound("s"))),
    Loop(walk=lambda c: walks(c.a(0)), bound=lambda c: lenL(c.pre, c.a(0)),
      mods=lambda c: {fA(f): (lambda r: r >= c.pre.clk) for f in ("head", "tail", "length", "next", "id")} | {"ghost:" + g: (lambda r: r >= c.pre.clk) for g in ("seq", "own", "pos")},
      inv=lambda c: (lambda X: wf(c.now, X) + plist(c.pre, c.now, X, c.a(0), c.a(1), c.a(2), c.k) + [("list fresh", And(X >= c.pre.clk, X != 0))])(c.lv("projection", "ptr")))])
C["projectList"].local_names = {"projection", "alpha"}

# ---------------------------------------------------------------- all projections
def prow(v, T_, a): return v.P(T_)[a]
def pcell(v, T_, a, z): return v.P(prow(v, T_, a))[z]
def ptab_ok(v, T_, na=None):
    """projection table: an array of arrays of list pointers"""
    a = bound("a"); r = prow(v, T_, a)
    return [("projection table live", And(T_ > 0, arr_ok(v, T_, nA(v), "ptr"), Sel(v.gh("oix"), T_) == 0, bown(v, T_) == 0, own(v, T_) == 0)),
            ("projection rows live", forall(a, Implies(And(0 <= a, a < (nA(v) if na is None else na)), And(r > 0, arr_ok(v, r, nZ(v), "ptr"), Sel(v.gh("oix"), r) == a + 1, bown(v, r) == 0, own(v, r) == 0)), [r]))]
def isprow(v, T_, r): return And(1 <= Sel(v.gh("oix"), r), Sel(v.gh("oix"), r) <= nA(v), r == prow(v, T_, Sel(v.gh("oix"), r) - 1))
def nullcells(v, T_, na):
    a, z = bound("a"), bound("z")
    return forall([a, z], Implies(And(0 <= a, a < na, 0 <= z, z < nZ(v)), pcell(v, T_, a, z) == 0), [pcell(v, T_, a, z)])
contract("allocateAllProjections", file=F, requires=sizes, ghost_writes=("oix",), modifies=lambda c: {},
  ensures=lambda c: [("fresh table", And(c.r >= c.pre.clk, (lambda a: forall(a, Implies(And(0 <= a, a < nA(c.pre)), prow(c.post, c.r, a) >= c.pre.clk), [prow(c.post, c.r, a)]))(bound("a"))))] + ptab_ok(c.post, c.r) + [("all cells empty", nullcells(c.post, c.r, nA(c.pre)))],
  loops=[Loop(bound=lambda c: nA(c.pre), gw=("oix",), mods=lambda c: {"M:ptr": [c.lv("projection", "ptr")]},
     ghost=lambda c: {"oix": z3.Store(c.now.gh("oix"), prow(c.now, c.lv("projection", "ptr"), c.k), c.k + 1)},
     inv=lambda c: (lambda T_: [("rows fresh", (lambda a: forall(a, Implies(And(0 <= a, a < c.k), And(prow(c.now, T_, a) >= c.pre.clk, prow(c.now, T_, a) != T_)), [prow(c.now, T_, a)]))(bound("a")))] + ptab_ok(c.now, T_, c.k) + [("all cells empty", nullcells(c.now, T_, c.k))])(c.lv("projection", "ptr")))])
def cells(v, w, T_, L, guard, a, z, clk):
    """the cells (a,z) satisfying guard hold the projections"""
    X = pcell(w, T_, a, z)
    return lifted([a, z], guard, [("projection lists fresh and distinct", And(X >= clk, pn(w, "action", X) == a, pn(w, "obs", X) == z))] + wf(w, X) + plist(v, w, X, L, a, z), X)
def sap_mods(c): return {"M:ptr": (lambda r: isprow(c.pre, c.a(0), r))}
def rng(c, a, z): return And(0 <= a, a < nA(c.pre), 0 <= z, z < nZ(c.pre))
def sap_pre(c, T_, L): return sizes(c) + model(c.pre) + pl_pre(c, L) + ptab_ok(c.pre, T_) + [("tables distinct", And(T_ != c.pre.g("P"), T_ != c.pre.g("R"), T_ != c.pre.g("gObservationPossible")))]
def tables_same(c, w, L):
    v = c.pre; a, k = bound("a"), bound("k"); g = And(0 <= a, a < nA(v))
    eq = lambda M: And(*[w.D(mxV(v, M)) == v.D(mxV(v, M))] + [w.Ia(f(v, M)) == v.Ia(f(v, M)) for f in (mxC, mxS, mxL)])
    z, s = bound("z"), bound("s"); x = nodeL(v, L, k)
    pv = lambda u, al: psum_at(u, a, z, s, u.D(al), ln_(u, Pm(u, a), s))
    same = forall([a, z, s, k], Implies(And(g, 0 <= z, z < nZ(v), 0 <= s, s < nS(v), L != 0, 0 <= k, k < lenL(v, L)), pv(w, alphaN(w, nodeL(w, L, k))) == pv(v, alphaN(v, x))), [psum_at(w, a, z, s, w.D(alphaN(w, nodeL(w, L, k))), ln_(w, Pm(w, a), s))])
    sh = forall([a, s], Implies(And(g, 0 <= s, s < nS(v)), share(w, a, s) == share(v, a, s)), [share(w, a, s)])
    return [("projected values unchanged", same), ("reward shares unchanged", sh), ("model tables unchanged", And(forall(a, Implies(g, eq(Pm(v, a))), [Pm(v, a)]), forall(a, Implies(g, eq(Rm(v, a))), [Rm(v, a)]), eq(Qm(v)))),
            ("next-stage set unchanged", forall(k, Implies(And(L != 0, 0 <= k, k < lenL(v, L)), vecN(w, nodeL(v, L, k)) == vecN(v, nodeL(v, L, k))), [nodeL(v, L, k)]))]
contract("setAllProjections", file=F, ghost_writes=G3 + ("bown",), modifies=sap_mods,
  requires=lambda c: sap_pre(c, c.a(0), c.a(1)),
  ensures=lambda c: (lambda a, z: cells(c.pre, c.post, c.a(0), c.a(1), rng(c, a, z), a, z, c.pre.clk))(bound("a"), bound("z")) + ptab_ok(c.post, c.a(0)),
  loops=[Loop(bound=lambda c: nA(c.pre), inv=lambda c: tables_same(c, c.now, c.a(1)) + (lambda a, z: cells(c.pre, c.now, c.a(0), c.a(1), And(rng(c, a, z), a < c.k), a, z, c.pre.clk))(bound("a"), bound("z"))),
    Loop(bound=lambda c: nZ(c.pre), inv=lambda c: tables_same(c, c.now, c.a(1)) + (lambda a, z, x: cells(c.pre, c.now, c.a(0), c.a(1), And(rng(c, a, z), Or(a < x, And(a == x, z < c.k))), a, z, c.pre.clk))(bound("a"), bound("z"), c.lv("a", "int")))])
contract("makeAllProjections", file=F, ghost_writes=G3 + ("bown", "oix"),
  requires=lambda c: sizes(c) + model(c.pre) + pl_pre(c, c.a(0)),
  ensures=lambda c: (lambda a, z: [("nothing to project", (c.r == 0) == (c.a(0) == 0))] + [(l, Implies(c.a(0) != 0, f)) for l, f in cells(c.pre, c.post, c.r, c.a(0), rng(c, a, z), a, z, c.pre.clk) + ptab_ok(c.post, c.r)])(bound("a"), bound("z")))
