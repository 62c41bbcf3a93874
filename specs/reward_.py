"""src/mdp/imm-reward.c, computeRewards in src/mdp/mdp.c: reward specifications and expected immediate rewards (P10)."""
from .belief_ import *
FI, FD = "src/mdp/imm-reward.c", "src/mdp/decision-tree.c"
# ---------------------------------------------------------------- the rewards specified so far
# rwd[action][state][next state][observation]: value of the last specification entered that matches, 0 if none does
RWD = z3.ArraySort(I, z3.ArraySort(I, z3.ArraySort(I, AR)))
GHOSTS["rwd"] = RWD
WILD, NOTP = iv(-1), iv(-99)
def rwt(m, a, s, t, o): return m[a][s][t][o]
def reward(v, a, s, t, o): return rwt(v.gh("rwd"), a, s, t, o)
def wm(d, x): return Or(d == WILD, d == x)
def isP(v): return v.g("gProblemType") == 2
def sizes2(v): return [("problem sizes positive", And(nS(v) >= 1, nA(v) >= 1, Implies(isP(v), nZ(v) >= 1)))]
def rarg(c, lo): return [("arguments in range", And(lo <= c.a(0), c.a(0) < nA(c.pre), lo <= c.a(1), c.a(1) < nS(c.pre), lo <= c.a(2), c.a(2) < nS(c.pre), Implies(isP(c.pre), And(lo <= c.a(3), c.a(3) < nZ(c.pre)))))]
TN = "override tree (recursion over a tagged union): assumed to keep the last matching value; checked by the companion suite"
def aso(n=4): return [bound(x) for x in "asto"]
def over(c, hits, val):
    """rewards of the matching combinations become val, the others stay"""
    a, s, t, o = aso(); return forall([a, s, t, o], reward(c.post, a, s, t, o) == If(hits(a, s, t, o), val(a, s, t, o), reward(c.pre, a, s, t, o)), [reward(c.post, a, s, t, o)])
contract("dtInit", file=FD, trusted=True, note=TN, writes=set())
contract("dtAdd", file=FD, trusted=True, note=TN, writes={"ghost:rwd"}, ghost_writes=("rwd",), modifies=lambda c: {"ghost:rwd": "any"}, requires=lambda c: rarg(c, -1),
  ensures=lambda c: [("matching rewards take the value, others stay", over(c, lambda a, s, t, o: And(wm(c.a(0), a), wm(c.a(1), s), wm(c.a(2), t), wm(c.a(3), o)), lambda *x: c.a(4)))])
contract("dtGet", file=FD, trusted=True, note=TN, writes=set(), requires=lambda c: rarg(c, 0), ensures=lambda c: [("the last matching value", c.r == reward(c.pre, c.a(0), c.a(1), c.a(2), c.a(3)))])
contract("getImmediateReward", file=FI, requires=lambda c: rarg(c, 0), ensures=lambda c: [("the value of the last specification that matches, 0 if none does", c.r == reward(c.pre, c.a(0), c.a(1), c.a(2), c.a(3)))])

# ---------------------------------------------------------------- expectation
rin = RecFun("rin", [AR, AI, I, RWD, I, I, I], R, lambda *x: rv(0), lambda ov, oc, st, w, a, s, t, i, p: p + ov[st + i] * rwt(w, a, s, t, oc[st + i]))
def _rex(pv, pc, st, ov, oc, os, ol, w, pomdp, a, s, i, p):
    t = pc[st + i]; return p + pv[st + i] * If(pomdp == 2, rin(ov, oc, os[t], w, a, s, t, ol[t]), rwt(w, a, s, t, iv(0)))
rex = RecFun("rex", [AR, AI, I, AR, AI, AI, AI, RWD, I, I, I], R, lambda *x: rv(0), _rex)
def mown_(v, r): return Sel(v.gh("mown"), r)
def exq(v, a, s, n=None):
    """expected immediate reward of state s under action a (over the first n stored successors)"""
    pv, pc, ps, pl = parr(v, a); return rex(pv, pc, ps[s], *oarr(v, a), v.gh("rwd"), v.g("gProblemType"), a, s, pl[s] if n is None else n)
def IQ(v): return v.g("IQ")
def pok(v): return [("transition table", tab_ok(v, "P", "P"))] + mats_ok(v, lambda a: Pm(v, a), nS(v), nS(v), "transition")
def rok(v): return [(l, Implies(isP(v), f)) for l, f in [("observation table", tab_ok(v, "R", "R"))] + mats_ok(v, lambda a: Rm(v, a), nS(v), nZ(v), "observation")]
def iq_apart(c, v): r = bound("r"); return [("the intermediate reward matrix is apart from the model", And(mown_(c.pre, imB(c.pre, IQ(c.pre))) == 0, forall(r, Implies(And(r < c.pre.clk, Sel(v.gh("rownb"), r) == imB(c.pre, IQ(c.pre))), KIND(r) == E.kind_of(RN)), [Sel(v.gh("rownb"), r)])))]
def iq_ok(c, v): M = IQ(c.pre); return imwf(v, M) + [("a row per action", imN(v, M) == nA(c.pre))]
def iqv(v, e): return If(isz0(e), rv(0), e)
def cr_done(c, v, na, ns=None):
    """rows below na (and the first ns entries of row na) hold the expected rewards; the minimum is right so far"""
    a, s = bound("a"), bound("s"); M = IQ(c.pre); m = v.gh("minat"); g = v.g("gMinimumImmediateReward"); e = exq(c.pre, a, s)
    ran = Or(And(0 <= a, a < na, 0 <= s, s < nS(c.pre)), And(a == na, 0 <= s, s < (iv(0) if ns is None else ns)))
    pat = [rixR(v, imB(v, M), a, s)]
    return [("expected rewards stored", forall([a, s], Implies(ran, iget(v, M, a, s) == iqv(v, e)), pat)), ("recorded minimum is below every expected reward", forall([a, s], Implies(ran, g <= e), [e])), ("and below zero", g <= 0),
            ("recorded minimum is zero or one of them", Or(g == 0, And(0 <= m[0], m[0] < nA(c.pre), 0 <= m[1], m[1] < nS(c.pre), g == exq(c.pre, m[0], m[1]))))]
GHOSTS["minat"] = AI        # the action and state whose expected reward is the recorded minimum
def cr_m(c): o = c.now; a, s = c.lv("a", "int"), c.k; return {"minat": If(o.g("gMinimumImmediateReward") == exq(c.pre, a, s), z3.Store(z3.Store(o.gh("minat"), 0, a), 1, s), o.gh("minat"))}
def iq_mods(c):
    b = imB(c.pre, IQ(c.pre)); own_ = lambda r: Or(r >= c.pre.clk, Sel(c.pre.gh("rownb"), r) == b)
    return {fR("next"): own_, fR("value"): own_, "M:int": [b], "M:ptr": [imR(c.pre, IQ(c.pre))], "ghost:rseq": [b], "ghost:rix": [b], "ghost:rpos": own_, "ghost:rownb": own_, "ghost:rowno": own_, "freed": own_}
def cr_inv(c): return iq_ok(c, c.now) + iq_apart(c, c.now)
def cr_lm(c): return {**iq_mods(c), "G:gMinimumImmediateReward": "any", "ghost:minat": "any"}
contract("computeRewards", file=FM, ghost_writes=RG + ("minat",), requires=lambda c: sizes2(c.pre) + pok(c.pre) + rok(c.pre) + iq_ok(c, c.pre) + iq_apart(c, c.pre),
  modifies=lambda c: cr_lm(c), ensures=lambda c: cr_done(c, c.post, nA(c.pre)) + imwf(c.post, IQ(c.pre)),
  loops=[Loop(bound=lambda c: nA(c.pre), gw=RG + ("minat",), mods=cr_lm, inv=lambda c: cr_done(c, c.now, c.k) + cr_inv(c)),
    Loop(bound=lambda c: nS(c.pre), gw=RG + ("minat",), ghost=cr_m, mods=cr_lm, inv=lambda c: cr_done(c, c.now, c.lv("a", "int"), c.k) + cr_inv(c)),
    Loop(bound=lambda c: parr(c.pre, c.lv("a", "int"))[3][c.lv("i", "int")], inv=lambda c: [("sum so far", c.lv("sum", "real") == exq(c.pre, c.lv("a", "int"), c.lv("i", "int"), c.k))]),
    Loop(bound=lambda c: oarr(c.pre, c.lv("a", "int"))[3][c.lv("next_state", "int")], inv=lambda c: (lambda ov, oc, os, ol, a, s, t: [("inner sum so far", c.lv("inner_sum", "real") == rin(ov, oc, os[t], c.pre.gh("rwd"), a, s, t, c.k))])(*oarr(c.pre, c.lv("a", "int")), c.lv("a", "int"), c.lv("i", "int"), c.lv("next_state", "int")))])
C["computeRewards"].local_names = {"a", "i", "next_state", "sum", "inner_sum"}

# ---------------------------------------------------------------- entering a specification
IRN, UT = "Imm_Reward_Node_Struct", "rep_tag"
E.kind_of(IRN)
def rN(v, f, p): return v.f(IRN + "." + f, p)
def sub(p): return z3.Function("sub:" + IRN + ".rep", I, I)(p)
def rval(v, p): return v.f(UT + ".value", sub(p))
def rvec(v, p): return v.f(UT + ".vector", sub(p))
def rmat(v, p): return v.f(UT + ".matrix", sub(p))
def cur(v): return v.g("gCurImmRewardNode")
def ptype(v): return [("problem type known", Or(v.g("gProblemType") == 1, isP(v)))]
def rkind(v, cs, ns, o):
    """1 single value, 2 vector, 3 matrix: what the header of the specification leaves open"""
    return If(isP(v), If(o != NOTP, iv(1), If(ns != NOTP, iv(2), iv(3))), If(ns != NOTP, iv(1), If(cs != NOTP, iv(2), iv(3))))
def vlen(v): return If(isP(v), nZ(v), nS(v))
def node_is(v, p): return And(p > 0, v.valid(p), KIND(p) == E.kind_of(IRN))
def vec_is(v, p): return And(rvec(v, p) > 0, arr_ok(v, rvec(v, p), vlen(v)), Sel(v.gh("mown"), rvec(v, p)) == 0)
def cur_ok(v):
    p = cur(v); M = v.g("gCurIMatrix")
    return [("a specification is being entered", And(node_is(v, p), rN(v, "next", p) == 0, Or(*[rN(v, "type", p) == i for i in (1, 2, 3)]))), ("its vector", Implies(rN(v, "type", p) == 2, vec_is(v, p))), ("record apart from its matrix", Implies(rN(v, "type", p) == 3, Sel(v.gh("rownb"), p) == 0))] + [("its matrix: " + l, Implies(rN(v, "type", p) == 3, f)) for l, f in imwf(v, M) + [("a row per state", imN(v, M) == nS(v)), ("columns in range", im_cols(v, M))]]
def im_cols(v, M):
    r, x = bound("r"), bound("x"); return forall([r, x], Implies(And(0 <= r, r < nS(v), present(v, imB(v, M), r, imlen(v, M, r), x)), And(0 <= x, x < vlen(v))), [rixR(v, imB(v, M), r, x)])
def f4(c, v, p): return [("as given", And(*[rN(v, f, p) == c.a(i) for i, f in enumerate(("action", "cur_state", "next_state", "obs"))]))]
def zero_all(v, p):
    i, r, x = bound("i"), bound("r"), bound("x"); M = v.g("gCurIMatrix")
    return [("single value zero", Implies(rN(v, "type", p) == 1, rval(v, p) == 0)), ("vector zero", Implies(rN(v, "type", p) == 2, forall(i, Implies(And(0 <= i, i < vlen(v)), v.D(rvec(v, p))[i] == 0), [v.D(rvec(v, p))[i]]))),
            ("matrix zero", Implies(rN(v, "type", p) == 3, forall([r, x], Implies(And(0 <= r, r < nS(v)), iget(v, M, r, x) == 0), [rixR(v, imB(v, M), r, x)])))]
contract("newImmReward", file=FI, ghost_writes=RG, requires=lambda c: sizes2(c.pre) + ptype(c.pre), modifies=lambda c: {"G:gCurImmRewardNode": "any", "G:gCurIMatrix": "any", **{"F:" + UT + "." + m: (lambda r: E.EMB_OWNER(r) >= c.pre.clk) for m in ("value", "vector", "matrix")}},
  ensures=lambda c: [("fresh record", cur(c.post) >= c.pre.clk), ("fresh storage", (lambda v, p, M, t: And(Implies(t == 2, And(rvec(v, p) >= c.pre.clk, v.gh("rownb")[rvec(v, p)] == 0)), Implies(t == 3, And(M >= c.pre.clk, imR(v, M) >= c.pre.clk, imB(v, M) >= c.pre.clk))))(c.post, cur(c.post), c.post.g("gCurIMatrix"), rN(c.post, "type", cur(c.post))))] + cur_ok(c.post) + f4(c, c.post, cur(c.post)) + [("form given by what is left open", rN(c.post, "type", cur(c.post)) == rkind(c.pre, c.a(1), c.a(2), c.a(3)))] + zero_all(c.post, cur(c.post)))
def ent_args(c): P = isP(c.pre); r, x = If(P, c.a(1), c.a(0)), If(P, c.a(2), c.a(1)); return r, x
def ei_pre(c):
    r, x = ent_args(c); t = rN(c.pre, "type", cur(c.pre))
    return [("index in range", And(Implies(t == 2, And(0 <= x, x < vlen(c.pre))), Implies(t == 3, And(0 <= r, r < nS(c.pre), 0 <= x, x < vlen(c.pre)))))]
def ei_ens(c):
    p = cur(c.pre); r, x = ent_args(c); t = rN(c.pre, "type", p); i, u, y = bound("i"), bound("r"), bound("x"); M = c.pre.g("gCurIMatrix"); v = c.post
    return [("single value", Implies(t == 1, rval(v, p) == c.a(3))), ("exactly the vector entry named", forall(i, Implies(And(t == 2, 0 <= i, i < vlen(c.pre)), v.D(rvec(c.pre, p))[i] == If(i == x, c.a(3), c.pre.D(rvec(c.pre, p))[i])), [v.D(rvec(c.pre, p))[i]])), ("same vector", Implies(t != 1, rvec(v, p) == rvec(c.pre, p))),
            ("exactly the matrix entry named", Implies(t == 3, forall([u, y], Implies(And(0 <= u, u < nS(v)), iget(v, M, u, y) == If(And(u == r, y == x), iqv(v, c.a(3)), iget(c.pre, M, u, y))), [rixR(v, imB(v, M), u, y)])))]
def ei_mods(c):
    p = cur(c.pre); t = rN(c.pre, "type", p); M = c.pre.g("gCurIMatrix"); m = row_mods(c, imB(c.pre, M), ent_args(c)[0]); m["M:ptr"] = [imR(c.pre, M)]
    g = lambda f: (lambda r: And(t == 3, f(r) if callable(f) else Or(*[r == x for x in f])))
    return {**{k: g(f) for k, f in m.items()}, "M:real": [If(t == 2, rvec(c.pre, p), iv(0))], **{"F:" + UT + "." + f: [If(t == 1, sub(p), iv(0))] for f in ("value", "vector", "matrix")}}
contract("enterImmReward", file=FI, ghost_writes=RG, requires=lambda c: sizes2(c.pre) + ptype(c.pre) + cur_ok(c.pre) + ei_pre(c), modifies=ei_mods, ensures=lambda c: cur_ok(c.post) + ei_ens(c))

# ---------------------------------------------------------------- recording a specification
def inw(x, n): return And(-1 <= x, x < n)
def hdr_ok(v, p):
    """the header fields that the form of the record does not leave open are in range"""
    ty = rN(v, "type", p); P = isP(v); f = lambda x: rN(v, x, p)
    return [("header in range", And(inw(f("action"), nA(v)), Implies(Or(P, ty != 3), inw(f("cur_state"), nS(v))), Implies(If(P, ty != 3, ty == 1), inw(f("next_state"), nS(v))), Implies(And(P, ty == 1), inw(f("obs"), nZ(v)))))]
def hits(v, p, a, s, t, o):
    """the record speaks about action a, state s, next state t, observation o"""
    ty = rN(v, "type", p); P = isP(v); f = lambda x, y: wm(rN(v, x, p), y)
    A, S_, T, O = f("action", a), f("cur_state", s), f("next_state", t), f("obs", o); i = If(P, o, t)
    return And(A, Or(And(ty == 1, S_, T, Implies(P, O)), And(ty == 2, S_, Implies(P, T), 0 <= i, i < vlen(v)), And(ty == 3, Implies(P, S_))))
def cell(v, p, s, t, o, get):
    """the value it gives; get reads the matrix"""
    ty = rN(v, "type", p); P = isP(v); r, x = If(P, t, s), If(P, o, t)
    return If(ty == 1, rval(v, p), If(ty == 2, v.D(rvec(v, p))[x], If(And(0 <= r, r < nS(v)), get(r, x), rv(0))))
def ir_over(c, p, get):
    return over(c, lambda a, s, t, o: hits(c.pre, p, a, s, t, o), lambda a, s, t, o: cell(c.pre, p, s, t, o, get))
def cols_ok(v, M):
    """columns in range and distinct within a row"""
    r, i = bound("r"), bound("i"); C_ = v.Ia(mxC(v, M)); st, ln = v.Ia(mxS(v, M)), v.Ia(mxL(v, M)); g = And(0 <= r, r < nS(v), st[r] <= i, i < st[r] + ln[r])
    return [("columns in range and distinct in a row", forall([r, i], Implies(g, And(0 <= C_[i], C_[i] < vlen(v), fidx(C_, st[r], C_[i], ln[r]) == i - st[r])), [z3.MultiPattern(st[r], C_[i])]))]
def irm_ok(v, p): M = rmat(v, p); return [("its matrix: " + l, Implies(rN(v, "type", p) == 3, f)) for l, f in mwf(v, M) + [("a row per state", mxN(v, M) == nS(v))] + cols_ok(v, M)]
def ir_ok(v, p): return [("record live", And(node_is(v, p), Or(*[rN(v, "type", p) == i for i in (1, 2, 3)]))), ("its vector", Implies(rN(v, "type", p) == 2, vec_is(v, p)))] + irm_ok(v, p) + hdr_ok(v, p)
def entm(v, M):
    return lambda r, x: ent(v, M, r, x)
def ir_loop(c, hit, val): return [("rewards so far", over(type("D", (), {"pre": c.pre, "post": c.now}), hit, val))]
def ir_vec(c):
    p = c.a(0); v = c.pre
    return ir_loop(c, lambda a, s, t, o: And(hits(v, p, a, s, t, o), If(isP(v), o, t) < c.k), lambda a, s, t, o: v.D(rvec(v, p))[If(isP(v), o, t)])
def ir_mat(c, i, k):
    p = c.a(0); v = c.pre; M = rmat(v, p); C_ = v.Ia(mxC(v, M))
    def val(a, s, t, o):
        r, x = If(isP(v), t, s), If(isP(v), o, t); f = fidx(C_, st_(v, M, r), x, ln_(v, M, r))
        return If(And(0 <= r, r < i) if k is None else Or(And(0 <= r, r < i), And(r == i, f < k)), ent(v, M, r, x), rv(0))
    return ir_loop(c, lambda *x: hits(v, p, *x), val)
def ir_m(c): return {"ghost:rwd": "any"}
_iv = lambda f: Loop(bound=lambda c: f(c), gw=("rwd",), mods=ir_m, inv=ir_vec)
contract("irAddToDecisionTree", file=FI, ghost_writes=("rwd",), requires=lambda c: sizes2(c.pre) + ptype(c.pre) + ir_ok(c.pre, c.a(0)), modifies=ir_m,
  ensures=lambda c: [("the record overrides the rewards it speaks about, the others stay", ir_over(c, c.a(0), entm(c.pre, rmat(c.pre, c.a(0)))))], hints=lambda c: [fidx_is.all()],
  loops=[_iv(lambda c: nZ(c.pre)), _iv(lambda c: nS(c.pre)),
    Loop(bound=lambda c: nS(c.pre), gw=("rwd",), mods=ir_m, inv=lambda c: ir_mat(c, c.k, None), hints=lambda c: [fidx_is.all()]),
    Loop(bound=lambda c: ln_(c.pre, rmat(c.pre, c.a(0)), c.lv("i", "int")), gw=("rwd",), mods=ir_m, inv=lambda c: ir_mat(c, c.lv("i", "int"), c.k), hints=lambda c: [fidx_is.all()])])
C["irAddToDecisionTree"].local_names = {"i", "j", "k", "m"}

# ---------------------------------------------------------------- the list of records
GHOSTS["irs"] = AI         # index -> record
GHOSTS["irp"] = AI         # record -> 1 + its index (0: in no list)
GHOSTS["irn"] = AI         # [0]: number of records
E.FRESH_GHOST = E.FRESH_GHOST + ("irp",)
def irn(v): return v.gh("irn")[0]
def irk(v, k): return v.gh("irs")[k]
def irl(v, L):
    k = bound("k"); n = irn(v)
    return [("records live, in order", And(n >= 0, L == If(n > 0, irk(v, iv(0)), iv(0)), forall(k, Implies(And(0 <= k, k < n), And(node_is(v, irk(v, k)), v.gh("irp")[irk(v, k)] == k + 1, rN(v, "next", irk(v, k)) == If(k + 1 < n, irk(v, k + 1), iv(0)))), [irk(v, k)])))]
def ap_gh(c): n = irn(c.pre); return {"irs": z3.Store(c.now.gh("irs"), n, c.a(1)), "irp": z3.Store(c.now.gh("irp"), c.a(1), n + 1), "irn": z3.Store(c.now.gh("irn"), 0, n + 1)}
IG = ("irs", "irp", "irn")
def ap_m(c, L): return {"F:" + IRN + ".next": lambda r: Sel(c.pre.gh("irp"), r) > 0, **{"ghost:" + g: "any" for g in IG}}
def ap_ens(c, L, p):
    k = bound("k"); return [("one record more, at the end", And(irn(c.post) == irn(c.pre) + 1, irk(c.post, irn(c.pre)) == p)), ("the others in their places", forall(k, Implies(And(0 <= k, k < irn(c.pre)), irk(c.post, k) == irk(c.pre, k)), [irk(c.post, k)]))]
def wk_ir(c):
    def mk(d): return lambda k, v: If(And(0 <= k + d, k + d < irn(c.pre)), irk(c.pre, k + d), iv(0))
    return [mk(0), mk(1), mk(-1)]
contract("appendImmRewardList", file=FI, ghost_writes=IG, ghost_exit=ap_gh, modifies=lambda c: ap_m(c, c.a(0)), requires=lambda c: irl(c.pre, c.a(0)) + [("new record", And(node_is(c.pre, c.a(1)), rN(c.pre, "next", c.a(1)) == 0, c.pre.gh("irp")[c.a(1)] == 0))],
  ensures=lambda c: irl(c.post, c.r) + ap_ens(c, c.a(0), c.a(1)), hints=lambda c: [irk(c.pre, irn(c.pre) - 1) == irk(c.pre, irn(c.pre) - 1)],
  loops=[Loop(walk=wk_ir, bound=lambda c: irn(c.pre) - 1, inv=lambda c: [])])
contract("doneImmReward", file=FI, ghost_writes=IG + ("rwd",) + RG + ("mown",), 
  requires=lambda c: (lambda p: [(l, Implies(p != 0, f)) for l, f in sizes2(c.pre) + ptype(c.pre) + cur_ok(c.pre) + hdr_ok(c.pre, p) + irl(c.pre, c.pre.g("gImmRewardList")) + [("record in no list", c.pre.gh("irp")[p] == 0), ("list apart from the matrix being entered", lists_apart(c.pre))]])(cur(c.pre)),
  modifies=lambda c: dn_mods(c), ensures=lambda c: (lambda p, M: [("no specification being entered", cur(c.post) == 0), ("nothing entered, nothing changed", Implies(p == 0, c.post.gh("rwd") == c.pre.gh("rwd"))),
     ("the specification overrides the rewards it speaks about, the others stay", Implies(p != 0, ir_over(c, p, lambda r, x: iget(c.pre, M, r, x))))] + [(l, Implies(p != 0, f)) for l, f in irl(c.post, c.post.g("gImmRewardList")) + ap_ens(c, c.pre.g("gImmRewardList"), p)])(cur(c.pre), c.pre.g("gCurIMatrix")))
def lists_apart(v):
    k = bound("k"); M = v.g("gCurIMatrix"); return Implies(rN(v, "type", cur(v)) == 3, And(M != cur(v), forall(k, Implies(And(0 <= k, k < irn(v)), Sel(v.gh("rownb"), irk(v, k)) == 0), [irk(v, k)])))
def dn_mods(c):
    p = cur(c.pre); t = rN(c.pre, "type", p); M = c.pre.g("gCurIMatrix"); on = And(p != 0, t == 3)
    return {"ghost:rwd": "any", "G:gCurImmRewardNode": "any", "G:gCurIMatrix": "any", "G:gImmRewardList": "any", **ap_m(c, None), **{"F:" + UT + "." + f: [If(on, sub(p), iv(0))] for f in ("value", "vector", "matrix")},
      "freed": lambda r: And(on, Or(r == M, r == imB(c.pre, M), r == imR(c.pre, M), Sel(c.pre.gh("rownb"), r) == imB(c.pre, M))), "F:" + IM + ".row": [If(on, M, iv(0))], "F:" + IM + ".row_length": [If(on, M, iv(0))]}
