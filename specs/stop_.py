"""Stopping criteria and error bounds (P14): src/pomdp-solve.c, bellmanError in src/common.c, FG_computeError in src/finite-grid.c."""
from .region_ import *
from . import common_, belief_
from .belief_ import DIV
FP, FC, FST = "src/pomdp-solve.c", "src/common.c", "src/stats.c"
# ---------------------------------------------------------------- weak bound
def maxr(x, y): return If(x < y, y, x)
cmx = RecFun("cmx", [AR, AR], R, lambda a, b: -INF, lambda a, b, i, p: If(absr(a[i] - b[i]) > p, absr(a[i] - b[i]), p))
LV = [AI, AI, AAR, I]
pmn = RecFun("pmn", LV + [AR], R, lambda *a: INF, lambda sq, AF, DM, N, x, j, p: (lambda d: If(d < p, d, p))(cmx(x, Sel(DM, AF[sq[j]]), N)))
wbn = RecFun("wbn", LV + [AI, I], R, lambda *a: -INF, lambda sq, AF, DM, N, sp, np, j, p: (lambda d: If(d > p, d, p))(pmn(sp, AF, DM, N, Sel(DM, AF[sq[j]]), np)))
wb_mono = Lemma("wb_mono", LV + [AI, I, I], lambda sq, AF, DM, N, sp, np, k, n: Implies(And(0 <= k, k < n), (lambda d, p, t: And(d <= t, p <= t))(pmn(sp, AF, DM, N, Sel(DM, AF[sq[k]]), np), wbn(sq, AF, DM, N, sp, np, k), wbn(sq, AF, DM, N, sp, np, n))),
  pats=lambda sq, AF, DM, N, sp, np, k, n: [z3.MultiPattern(wbn(sq, AF, DM, N, sp, np, k), wbn(sq, AF, DM, N, sp, np, n))])
def lv_(v, L): return seqL(v, L), v.m(fA("alpha")), v.m("M:real"), nS(v)
def wb(v, cur, prev, k): return wbn(*lv_(v, cur), seqL(v, prev), lenL(v, prev), k)
def wb_res(v, cur, prev, delta): x = wb(v, cur, prev, lenL(v, cur)); return If(x > delta, INF, x)
def wb_at(c): return pos(c.pre, c.lv("p_x", "ptr"))
contract("weakBound", file=FP, requires=lambda c: sizes(c) + wf(c.pre, c.a(0)) + wf(c.pre, c.a(1)) + [("tolerance", c.a(2) > -INF)],
  hints=lambda c: [wb_mono.all()],
  ensures=lambda c: [("largest over the new vectors of the smallest component-wise distance to an old one; infinite beyond delta", c.r == wb_res(c.pre, c.a(0), c.a(1), c.a(2)))],
  loops=[Loop(walk=lambda c: walks(c.a(0)), bound=lambda c: lenL(c.pre, c.a(0)), inv=lambda c: [("largest so far", c.lv("max_p_x", "real") == wb(c.pre, c.a(0), c.a(1), c.k)), ("within delta so far", c.lv("max_p_x", "real") <= c.a(2))]),
         Loop(walk=lambda c: walks(c.a(1)), bound=lambda c: lenL(c.pre, c.a(1)), inv=lambda c: [("smallest so far", c.lv("min_p_y", "real") == pmn(seqL(c.pre, c.a(1)), *lv_(c.pre, c.a(0))[1:], vecN(c.pre, c.lv("p_x", "ptr")), c.k))]),
         Loop(only=True, bound=lambda c: nS(c.pre), inv=lambda c: [("largest component difference so far", c.lv("max_s", "real") == cmx(vecN(c.pre, c.lv("p_x", "ptr")), vecN(c.pre, c.lv("p_y", "ptr")), c.k))])])
C["weakBound"].local_names = {"max_p_x", "min_p_y", "max_s", "p_x", "p_y"}

# ---------------------------------------------------------------- Bellman residual
mxg = RecFun("mxg", [AR, I], R, lambda g, s: -INF, lambda g, s, i, p: maxr(p, g[s + i]))
def frn(v): return v.gh("fr_n")[0]
def asked(v0, v, s, L, other, n):
    """calls s..s+n-1 asked for the region of every vector of L, in order, against the other set"""
    k = bound("k"); return [("every vector is compared with the other set", forall(k, Implies(And(0 <= k, k < n), And(v.gh("fr_vec")[s + k] == alphaN(v0, nodeL(v0, L, k)), v.gh("fr_list")[s + k] == other)), [nodeL(v0, L, k)]))]
def log_kept(v0, v):
    k = bound("k"); n = frn(v0)
    return [("earlier comparisons stay on record", forall(k, Implies(And(0 <= k, k < n), v.gh(g)[k] == v0.gh(g)[k]), [v.gh(g)[k]])) for g in FRL]

def temp_ok(v): b = v.g("gTempBelief"); return [("scratch belief", And(b > 0, arr_ok(v, b, nS(v)), bown(v, b) == 0))]
def one_sided(v, p): return And(Or(And(v.g("gMinimumImmediateReward") >= 0, v.g("gValueType") != 1), v.g("gRequireNonNegativeRewards") != 0), pf(v, "initial_policy", p) == 0)
FR_M = dict(SLV_G, **FR_G)
FRGW = tuple(SV) + tuple(LPG) + FRL + ("fr_n",)
def fr_mods(c, p): return dict(FR_M, **{"M:real": [c.pre.g("gTempBelief")], "M:char": lambda r: r < -1000000, "M:int": stat_mods(pf(c.pre, "stat", p)), "G:gLpSolveInstabilityCount": "any", "F:_matrec.value": lambda r: ELTB(r) >= c.pre.clk, "F:_matrec.row_nr": lambda r: ELTB(r) >= c.pre.clk})
def bell_ens(c, r, prev, cur, p):
    v0, v = c.pre, c.post; n0, nc, np = frn(v0), lenL(v0, cur), lenL(v0, prev); os = one_sided(v0, p)
    return [("comparisons made", frn(v) == n0 + nc + If(os, 0, np))] + asked(v0, v, n0, cur, prev, nc) + [("and every old vector with the new set, unless values cannot fall", Implies(Not(os), asked(v0, v, n0 + nc, prev, cur, np)[0][1]))] + \
       [("the error is the largest gap found in either direction", r == mxg(v.gh("fr_gain"), n0, frn(v) - n0))]
mxg_ext = Lemma("mxg_ext", [AR, AR, I], lambda g, h, s, n: (lambda i: Implies(forall(i, Implies(And(s <= i, i < s + n), g[i] == h[i]), [g[i]]), mxg(g, s, n) == mxg(h, s, n)))(bound("i")))
def bell_hint(c):
    g, h = c.now.gh("fr_gain"), c.at.gh("fr_gain")
    return [mxg_ext.all()]
contract("bellmanError", file=FC, requires=lambda c: sizes(c) + wf(c.pre, c.a(0)) + wf(c.pre, c.a(1)) + par_ok(c.pre, c.a(2)) + temp_ok(c.pre), ghost_writes=FRGW,
  modifies=lambda c: fr_mods(c, c.a(2)), ensures=lambda c: bell_ens(c, c.r, c.a(0), c.a(1), c.a(2)) + log_kept(c.pre, c.post),
  loops=[Loop(walk=lambda c: walks(c.a(1)), bound=lambda c: lenL(c.pre, c.a(1)), hints=lambda c: [mxg_ext.all()], gw=FRGW, mods=lambda c: fr_mods(c, c.a(2)),
           inv=lambda c: [("comparisons so far", frn(c.now) == frn(c.pre) + c.k), ("largest so far", c.lv("max_diff", "real") == mxg(c.now.gh("fr_gain"), frn(c.pre), c.k))] + asked(c.pre, c.now, frn(c.pre), c.a(1), c.a(0), c.k) + log_kept(c.pre, c.now)),
         Loop(walk=lambda c: walks(c.a(0)), bound=lambda c: lenL(c.pre, c.a(0)), hints=lambda c: [mxg_ext.all()], gw=FRGW, mods=lambda c: fr_mods(c, c.a(2)),
           inv=lambda c: (lambda nc: [("comparisons so far", frn(c.now) == frn(c.pre) + nc + c.k), ("largest so far", c.lv("max_diff", "real") == mxg(c.now.gh("fr_gain"), frn(c.pre), nc + c.k))] + asked(c.pre, c.now, frn(c.pre), c.a(1), c.a(0), nc) + asked(c.pre, c.now, frn(c.pre) + nc, c.a(0), c.a(1), c.k) + log_kept(c.pre, c.now))(lenL(c.pre, c.a(1))))])
C["bellmanError"].local_names = {"max_diff"}

# ---------------------------------------------------------------- error over the grid
from . import grid_
from .grid_ import blist, blen, bn, bb, GR, bwalks
def best(v, L, b): return top(v, L, b, lenL(v, L))
def gap(v, prev, cur, b): return absr(best(v, prev, b) - best(v, cur, b))
def fg_inv(c, m, n): return fg_inv2(c.pre, c.a(0), c.a(1), c.a(2), m, n)
def fg_inv2(v, prev, cur, p, m, n):
    """m is, within the tolerance, the largest gap between the two value functions over the first n grid beliefs"""
    k = bound("k"); e = pf(v, "alpha_epsilon", p); g = lambda k: gap(v, prev, cur, bb(v, bn(v, GR(v), k))); x = bn(v, GR(v), k)
    return [("no grid belief has a larger gap", forall(k, Implies(And(0 <= k, k < n), g(k) <= m + e), [x])), ("some grid belief has it", Implies(n > 0, z3.Exists([k], And(0 <= k, k < n, m <= g(k) + e), patterns=[x]))), ("no beliefs, no gap", Implies(n == 0, m == -INF)), ("never below", m >= -INF)]
def lists_pre(c, prev, cur): return sizes(c) + wf(c.pre, prev) + wf(c.pre, cur)
contract("FG_computeError", file=grid_.FG, requires=lambda c: lists_pre(c, c.a(0), c.a(1)) + par_ok(c.pre, c.a(2)) + blist(c.pre, GR(c.pre)) + [("tolerance", pf(c.pre, "alpha_epsilon", c.a(2)) >= 0)],
  ensures=lambda c: fg_inv(c, c.r, blen(c.pre, GR(c.pre))),
  loops=[Loop(walk=lambda c: bwalks(GR(c.pre)), bound=lambda c: blen(c.pre, GR(c.pre)), inv=lambda c: fg_inv(c, c.lv("max_diff", "real"), c.k))])
C["FG_computeError"].local_names = {"max_diff"}

# ---------------------------------------------------------------- phases (statistics)
contract("getSecs", file=None, trusted=True, writes=set(), note="processor time; any value")
contract("incrementEpochContextTime", file=FST, trusted=True, writes=set(), note="adds to the epoch's own timing records, which no contract reads")
def scx(v, s): return v.f(SST + ".cur_context", s)
contract("startContext", file=FST, requires=lambda c: [stat_ok(c.pre, c.a(0)), ("no phase running", Implies(c.a(0) != 0, scx(c.pre, c.a(0)) == 0)), ("a phase", And(0 <= c.a(1), c.a(1) < NCTX))],
  modifies=lambda c: {f"F:{SST}.cur_context": [c.a(0)], f"F:{SST}.cur_context_start_time": [c.a(0)]}, ensures=lambda c: [("phase running", Implies(c.a(0) != 0, scx(c.post, c.a(0)) == c.a(1)))])
contract("endContext", file=FST, requires=lambda c: [stat_ok(c.pre, c.a(0)), ("that phase running", Implies(c.a(0) != 0, scx(c.pre, c.a(0)) == c.a(1))), ("a phase", And(0 <= c.a(1), c.a(1) < NCTX))],
  modifies=lambda c: {f"F:{SST}.cur_context": [c.a(0)], "M:real": stat_mods(c.a(0))}, ensures=lambda c: [("no phase running", Implies(c.a(0) != 0, scx(c.post, c.a(0)) == 0))])

# ---------------------------------------------------------------- when iteration stops
EXACT, WEAK, BELLMAN = 0, 1, 2
METHOD_GRID = 5
from .grid_ import opt, OPTS
def pstat(v, p): return pf(v, "stat", p)
def msc_threshold(v, p): return DIV(pf(v, "stop_delta", p) * (1 - v.g("gDiscount")), 2 * v.g("gDiscount"))
def msc_pre(c, p):
    v = c.pre; o = pf(v, "opts", p); grid = opt(v, "method", p) == METHOD_GRID
    return sizes(c) + wf(v, c.a(0)) + wf(v, c.a(1)) + par_ok(v, p) + temp_ok(v) + [("options", And(o > 0, v.valid(o), KIND(o) == E.kind_of(OPTS))), ("no phase running", Implies(pstat(v, p) != 0, scx(v, pstat(v, p)) == 0)), ("tolerances", And(pf(v, "alpha_epsilon", p) >= 0, pf(v, "stop_delta", p) > -INF)), ("discount", v.g("gDiscount") > 0), ("a known criterion", Or(opt(v, "method", p) == METHOD_GRID, And(0 <= opt(v, "stop_criteria", p), opt(v, "stop_criteria", p) <= 2))), ("result", And(out_real(v, c.a(2)), c.a(2) >= -1000000, c.a(2) != v.g("gTempBelief"), Or(c.a(2) < 0, bown(v, c.a(2)) == 0))), ("distinct sets", c.a(0) != c.a(1))] + \
      [("grid: " + l, Implies(grid, f)) for l, f in blist(v, GR(v))]

def same_lists(v, L, M, e):
    k = bound("k"); return And(lenL(v, L) == lenL(v, M), forall(k, Implies(And(0 <= k, k < lenL(v, L)), samev(v, nodeL(v, L, k), alphaN(v, nodeL(v, M, k)), e)), [nodeL(v, L, k)]))
def msc_mods(c):
    p, L = c.a(3), c.a(1); st = pstat(c.pre, p); mine = lambda r: own(c.pre, r) == L
    return dict(fr_mods(c, p), **{"M:real": lambda r: Or(r == c.pre.g("gTempBelief"), r == c.a(2), stat_mods(st)(r)), f"F:{SST}.cur_context": [st], f"F:{SST}.cur_context_start_time": [st],
      fA("next"): mine, fA("id"): mine, fA("head"): [L], fA("tail"): [L], fA("length"): [L], "ghost:seq": [L], "ghost:own": mine, "ghost:pos": mine, "ghost:qix": mine})
def msc_ens(c):
    v, w = c.pre, c.post; prev, cur, p = c.a(0), c.a(1), c.a(3); e = w.D(c.a(2))[0]; grid = opt(v, "method", p) == METHOD_GRID; sc = opt(v, "stop_criteria", p)
    exact, weak, bell = [And(Not(grid), sc == x) for x in (EXACT, WEAK, BELLMAN)]
    k = bound("k")
    x, y = nodeL(v, cur, k), nodeL(w, cur, k)
    unch = And(lenL(w, cur) == lenL(v, cur), seqL(w, cur) == seqL(v, cur))
    return [("a truth value", Or(c.r == 0, c.r == 1)), ("a known criterion", Or(grid, exact, weak, bell)),
      ("stop exactly when the error is within precision times (1 - discount) / (2 discount)", Implies(Not(exact), (c.r == 1) == (e <= msc_threshold(v, p)))),
      ("exact criterion: stop exactly when the sets are equal within the tolerance", Implies(exact, (c.r == 1) == same_lists(w, prev, cur, pf(v, "alpha_epsilon", p)))),
      ("exact criterion: error zero or unknown", Implies(exact, e == If(c.r == 1, rv(0), INF))),
      ("exact criterion: the new set is only sorted", Implies(exact, And(lenL(w, cur) == lenL(v, cur), forall(k, Implies(And(0 <= k, k < lenL(v, cur)), inlist(w, cur, x)), [x]), forall(k, Implies(And(0 <= k, k < lenL(v, cur)), inlist(v, cur, y)), [y])))),
      ("otherwise the sets are untouched", Implies(Not(exact), unch)),
      ("weak criterion: error", Implies(weak, e == wb_res(v, cur, prev, pf(v, "stop_delta", p))))] + \
      [("grid: " + l, Implies(grid, f)) for l, f in fg_inv2(v, prev, cur, p, e, blen(v, GR(v)))] + [("Bellman criterion: " + l, Implies(bell, f)) for l, f in bell_ens(c, e, prev, cur, p)] + [("no phase left running", Implies(pstat(v, p) != 0, scx(w, pstat(v, p)) == 0))] + wf(w, cur) + wf(w, prev)
contract("meetStopCriteria", file=FP, requires=lambda c: msc_pre(c, c.a(3)), modifies=msc_mods, ghost_writes=FRGW + G3 + ("qix",), ensures=msc_ens)
