"""src/belief.c and src/finite-grid.c: belief lists and grids (P17), error over a grid (P14)."""
from .belief_ import *
FB, FG = "src/belief.c", "src/finite-grid.c"
BL = "BeliefListStruct"
def bfl(f): return "F:" + BL + "." + f
for g, s in dict(bls=AAI, bll=AI, bpos=AI, bhd=AI).items(): GHOSTS[g] = s      # list head -> nodes, length; node -> index, head of its list
E.FRESH_GHOST = E.FRESH_GHOST + ("bhd",); E.OWNER_GHOST = E.OWNER_GHOST + ("bhd",); E.GAP_GHOST = E.GAP_GHOST + ("bhd",)
BGW = ("bls", "bll", "bpos", "bhd")
def bb(v, x): return v.f(BL + ".b", x)
def bnx(v, x): return v.f(BL + ".next", x)
def bmk(v, x): return v.f(BL + ".mark", x)
def bn(v, h, k): return Sel(v.gh("bls"), h, k)
def blen(v, h): return If(h == 0, iv(0), Sel(v.gh("bll"), h))
def bhd(v, x): return Sel(v.gh("bhd"), x)
def bpos(v, x): return Sel(v.gh("bpos"), x)
def bcell(v, x): return And(x > 0, v.valid(x), KIND(x) == E.kind_of(BL), bown(v, x) == 0, bb(v, x) > 0, arr_ok(v, bb(v, x), nS(v)), bown(v, bb(v, x)) == x, Sel(v.gh("mown"), bb(v, x)) == 0)
def blist(v, h, null=True):
    """h is null or the first node of a list of beliefs bls[h][0..bll[h]-1], each with its own array"""
    k = bound("k"); n = blen(v, h); x = bn(v, h, k); g = And(0 <= k, k < n)
    return [("belief list: length", And(h >= 0, n >= If(h == 0, 0, 1))), ("belief list: head", Implies(h != 0, bn(v, h, iv(0)) == h))] + ([] if null else [("belief list: not empty", h != 0)]) + \
       [("belief list: nodes", forall(k, Implies(g, And(bhd(v, x) == h, bpos(v, x) == k, bcell(v, x))), [x])), ("belief list: links", forall(k, Implies(g, bnx(v, x) == If(k + 1 < n, bn(v, h, k + 1), iv(0))), [bnx(v, x)]))]
def bin_(v, h, x): return And(h != 0, bhd(v, x) == h, 0 <= bpos(v, x), bpos(v, x) < blen(v, h), bn(v, h, bpos(v, x)) == x)
def bwalks(h): return [(lambda o: (lambda k, v: If(And(0 <= k + o, k + o < blen(v, h)), bn(v, h, k + o), iv(0))))(o) for o in (0, 1, -1)]
def sameD(a, b, n, e): i = bound("i"); return forall(i, Implies(And(0 <= i, i < n), eqe(a[i], b[i], e)), [a[i]])
def barr(v, r): return [("belief", And(r > 0, arr_ok(v, r, nS(v))))]
TMP = lambda c: c.lv("temp", "ptr")
contract("duplicateBelief", file=FB, requires=lambda c: sizes(c) + [("belief", Implies(c.a(0) != 0, arr_ok(c.pre, c.a(0), nS(c.pre))))],
  ensures=lambda c: [("nothing for nothing", Implies(c.a(0) == 0, c.r == 0)), ("a fresh copy", Implies(c.a(0) != 0, And(c.r >= c.pre.clk, arr_ok(c.post, c.r, nS(c.pre)), bown(c.post, c.r) == 0, Sel(c.post.gh("mown"), c.r) == 0))), ("same components", Implies(c.a(0) != 0, beqv(c.post.D(c.r), c.pre.D(c.a(0)), nS(c.pre))))],
  loops=[Loop(bound=lambda c: nS(c.pre), mods=lambda c: {"M:real": [TMP(c)]}, inv=lambda c: [("copied so far", beqv(c.now.D(TMP(c)), c.pre.D(c.a(0)), c.k))])])
C["duplicateBelief"].local_names = {"temp"}
contract("copyBelief", file=FB, requires=lambda c: sizes(c) + [("source", Implies(c.a(1) != 0, arr_ok(c.pre, c.a(1), nS(c.pre)))), ("destination", Implies(c.a(0) != 0, arr_ok(c.pre, c.a(0), nS(c.pre))))],
  modifies=lambda c: {"M:real": [c.a(0)]}, ensures=lambda c: [("copied", Implies(And(c.a(0) != 0, c.a(1) != 0), beqv(c.post.D(c.a(0)), c.pre.D(c.a(1)), nS(c.pre)))), ("nothing done on null", Implies(Or(c.a(0) == 0, c.a(1) == 0), c.post.m("M:real") == c.pre.m("M:real")))],
  loops=[Loop(bound=lambda c: nS(c.pre), inv=lambda c: (lambda i: [("copied so far", forall(i, Implies(And(0 <= i, i < nS(c.pre)), c.now.D(c.a(0))[i] == If(i < c.k, c.pre.D(c.a(1))[i], c.pre.D(c.a(0))[i])), [c.now.D(c.a(0))[i]]))])(bound("i")))])
contract("sameBelief", file=FB, requires=lambda c: sizes(c) + [("first", Implies(c.a(0) != 0, arr_ok(c.pre, c.a(0), nS(c.pre)))), ("second", Implies(c.a(1) != 0, arr_ok(c.pre, c.a(1), nS(c.pre))))],
  ensures=lambda c: (lambda s: [("boolean", Or(c.r == 0, c.r == 1)), ("both null", Implies(And(c.a(0) == 0, c.a(1) == 0), c.r == 1)), ("one null", Implies((c.a(0) == 0) != (c.a(1) == 0), c.r == 0)),
     ("true only if every component agrees", Implies(And(c.a(0) != 0, c.a(1) != 0, c.r == 1), s)), ("false only if one does not", Implies(And(c.a(0) != 0, c.a(1) != 0, c.r == 0), Not(s)))])(sameD(c.pre.D(c.a(0)), c.pre.D(c.a(1)), nS(c.pre), c.a(2))),
  loops=[Loop(bound=lambda c: nS(c.pre), inv=lambda c: [("prefix agrees", sameD(c.pre.D(c.a(0)), c.pre.D(c.a(1)), c.k, c.a(2)))])])
def node_new(c, r, b): return [("fresh node", And(r >= c.pre.clk, bcell(c.post, r), bb(c.post, r) >= c.pre.clk, bb(c.post, r) != r, bhd(c.post, r) == 0)), ("unmarked and unlinked", And(bmk(c.post, r) == 0, bnx(c.post, r) == 0)), ("holds a copy of the belief", beqv(c.post.D(bb(c.post, r)), c.pre.D(b), nS(c.pre)))]
contract("newBeliefNode", file=FB, requires=lambda c: sizes(c) + barr(c.pre, c.a(0)), ghost_writes=("bown",), ensures=lambda c: node_new(c, c.r, c.a(0)), ghost_exit=lambda c: {"bown": z3.Store(c.now.gh("bown"), bb(c.now, c.r), c.r)})
contract("destroyBeliefNode", file=FB, requires=lambda c: sizes(c) + [("node", bcell(c.pre, c.a(0)))], modifies=lambda c: {"freed": [c.a(0), bb(c.pre, c.a(0))]}, ensures=lambda c: [("released with its array", And(Not(c.post.valid(c.a(0))), Not(c.post.valid(bb(c.pre, c.a(0))))))])
def app_ghost(c):
    h = c.a(0); o = c.pre; n = blen(o, h); r = If(h == 0, c.r, bnx(c.now, blast(o, h))); H = If(h == 0, r, h)
    return {"bls": z3.Store(c.now.gh("bls"), H, z3.Store(Sel(c.now.gh("bls"), H), n, r)), "bll": z3.Store(c.now.gh("bll"), H, n + 1), "bpos": z3.Store(c.now.gh("bpos"), r, n), "bhd": z3.Store(c.now.gh("bhd"), r, H)}
def app_ens(c, h, b):
    v0, v = c.pre, c.post; n = blen(v0, h); x = bn(v, c.r, n); k = bound("k")
    return [("the head stays", Implies(h != 0, c.r == h)), ("a list is returned", c.r != 0), ("one longer", blen(v, c.r) == n + 1), ("earlier beliefs keep their place", forall(k, Implies(And(0 <= k, k < n), bn(v, c.r, k) == bn(v0, h, k)), [bn(v, c.r, k)])),
        ("the last node is new", And(x >= v0.clk, bb(v, x) >= v0.clk, bmk(v, x) == 0)), ("and holds the belief", beqv(v.D(bb(v, x)), v0.D(b), nS(v0))), ("a distribution if that is one", Implies(DISTR(v0.D(b), nS(v0)), DISTR(v.D(bb(v, x)), nS(v0))))]
def blast(v, h): return If(h == 0, iv(0), bn(v, h, blen(v, h) - 1))
def app_hint(c): x = If(c.a(0) == 0, c.r, bnx(c.now, blast(c.pre, c.a(0)))); return [distr_ext(c.now.D(bb(c.now, x)), c.pre.D(c.a(1)), nS(c.pre)), distr_ext(c.now.D(bb(c.now, bn(c.now, c.r, blen(c.pre, c.a(0))))), c.pre.D(c.a(1)), nS(c.pre))]
contract("appendBeliefList", file=FB, hints=app_hint, requires=lambda c: sizes(c) + barr(c.pre, c.a(1)) + blist(c.pre, c.a(0)), ghost_writes=BGW + ("bown",), ghost_exit=app_ghost, chain=True,
  modifies=lambda c: {bfl("next"): [blast(c.pre, c.a(0))], "ghost:bls": [c.a(0)], "ghost:bll": [c.a(0)]}, ensures=lambda c: app_ens(c, c.a(0), c.a(1)) + blist(c.post, c.r, null=False),
  loops=[Loop(walk=lambda c: bwalks(c.a(0)), bound=lambda c: blen(c.pre, c.a(0)) - 1)])
C["appendBeliefList"].local_names = {"temp"}
contract("sizeBeliefList", file=FB, requires=lambda c: sizes(c) + blist(c.pre, c.a(0), null=False), ensures=lambda c: [("its length", c.r == blen(c.pre, c.a(0)))],
  loops=[Loop(walk=lambda c: bwalks(c.pre_arg(0)) if False else bwalks(c.a(0)), bound=lambda c: blen(c.pre, c.a(0)), inv=lambda c: [("count so far", c.lv("count", "int") == c.k)])])
C["sizeBeliefList"].local_names = {"count"}
def bsame(v, h, k, D, e): return sameD(v.D(bb(v, bn(v, h, k))), D, nS(v), e)
def nowhere(v, h, D, n, e): k = bound("k"); return forall(k, Implies(And(0 <= k, k < n), Not(bsame(v, h, k, D, e))), [bn(v, h, k)])
contract("findBeliefState", file=FB, requires=lambda c: sizes(c) + barr(c.pre, c.a(1)) + blist(c.pre, c.a(0)),
  ensures=lambda c: (lambda v, h, D: [("a node of the list or nothing", Or(c.r == 0, bin_(v, h, c.r))), ("found only if equal within epsilon", Implies(c.r != 0, bsame(v, h, bpos(v, c.r), D, c.a(2)))), ("not found only if none is", Implies(c.r == 0, nowhere(v, h, D, blen(v, h), c.a(2))))])(c.pre, c.a(0), c.pre.D(c.a(1))),
  loops=[Loop(walk=lambda c: bwalks(c.a(0)), bound=lambda c: blen(c.pre, c.a(0)), inv=lambda c: [("none so far", nowhere(c.pre, c.a(0), c.pre.D(c.a(1)), c.k, c.a(2)))])])
contract("destroyBeliefList", file=FB, requires=lambda c: sizes(c) + blist(c.pre, c.a(0)), modifies=lambda c: {"freed": lambda r: And(c.a(0) != 0, Or(bhd(c.pre, r) == c.a(0), And(bown(c.pre, r) != 0, bhd(c.pre, bown(c.pre, r)) == c.a(0))))},
  ensures=lambda c: (lambda k: [("every node released", forall(k, Implies(And(0 <= k, k < blen(c.pre, c.a(0))), Not(c.post.valid(bn(c.pre, c.a(0), k)))), [bn(c.pre, c.a(0), k)]))])(bound("k")),
  loops=[Loop(walk=lambda c: bwalks(c.a(0)), bound=lambda c: blen(c.pre, c.a(0)), inv=lambda c: (lambda k: [("released so far", forall(k, Implies(And(0 <= k, k < c.k), Not(c.now.valid(bn(c.pre, c.a(0), k)))), [bn(c.pre, c.a(0), k)])), ("rest live", forall(k, Implies(And(c.k <= k, k < blen(c.pre, c.a(0))), bcell(c.now, bn(c.pre, c.a(0), k))), [bn(c.pre, c.a(0), k)]))])(bound("k")))])

# ---------------------------------------------------------------- probability distributions
const_sum = Lemma("const_sum", [AR, R], lambda a, x, n: (lambda i: Implies(forall(i, Implies(And(0 <= i, i < n), a[i] == x), [a[i]]), suma(a, n) == z3.ToReal(n) * x))(bound("i")))
scale_sum = Lemma("scale_sum", [AR, AR, R], lambda a, b, d, n: (lambda i: Implies(And(d != 0, forall(i, Implies(And(0 <= i, i < n), b[i] == DIV(a[i], d)), [b[i]])), suma(b, n) * d == suma(a, n)))(bound("i")), extra=lambda *a: [div_mul.all()])
unit_sum = Lemma("unit_sum", [AR, I], lambda a, s, n: (lambda i: Implies(And(0 <= s, forall(i, Implies(And(0 <= i, i < n), a[i] == If(i == s, rv(1), rv(0))), [a[i]])), suma(a, n) == If(s < n, rv(1), rv(0))))(bound("i")))
HALF = rv("1/2")
pair_sum = Lemma("pair_sum", [AR, I, I], lambda a, s, t, n: (lambda i: Implies(And(0 <= t, t < s, forall(i, Implies(And(0 <= i, i < n), a[i] == If(Or(i == s, i == t), HALF, rv(0))), [a[i]])), suma(a, n) == If(s < n, rv(1), If(t < n, HALF, rv(0)))))(bound("i")))
def alld(v, h, n): k = bound("k"); return [("every belief is a probability distribution", forall(k, Implies(And(0 <= k, k < n), DISTR(v.D(bb(v, bn(v, h, k))), nS(v))), [bn(v, h, k)]))]
def alldist(v, h): return alld(v, h, blen(v, h))
def apart(v, h, e):
    i, j = bound("i"), bound("j"); return [("no two beliefs are equal within the tolerance", forall([i, j], Implies(And(0 <= i, i < j, j < blen(v, h)), Not(sameD(v.D(bb(v, bn(v, h, i))), v.D(bb(v, bn(v, h, j))), nS(v), e))), [z3.MultiPattern(bn(v, h, i), bn(v, h, j))]))]
def tmpb(v): return v.g("gFGTempBelief")
def tmp_ok(v): t = tmpb(v); return [("scratch belief", And(t > 0, arr_ok(v, t, nS(v)), bown(v, t) == 0, Sel(v.gh("mown"), t) == 0, Sel(v.gh("oix"), t) == 0))]
GR = lambda v: v.g("gFiniteGrid")
def kept(v0, v, h, n):
    """the first n beliefs of list h and their components stay"""
    k, i = bound("k"), bound("i"); x = bn(v0, h, k)
    return [("earlier beliefs keep their place", forall(k, Implies(And(0 <= k, k < n), And(bn(v, h, k) == x, bb(v, x) == bb(v0, x), v.D(bb(v0, x)) == v0.D(bb(v0, x)))), [bn(v, h, k)]))]
def _unit(D, s, n): i = bound("i"); return forall(i, Implies(And(0 <= i, i < n), D[i] == If(i == s, rv(1), rv(0))), [D[i]])
UNIT = Opaque("UNIT", [AR, I, I], B, _unit)
def _pair(D, s, t, n): i = bound("i"); return forall(i, Implies(And(0 <= i, i < n), D[i] == If(Or(i == s, i == t), HALF, rv(0))), [D[i]])
PAIR = Opaque("PAIR", [AR, I, I, I], B, _pair)
unit_new = Lemma("unit_new", [AR, AR, I, I], lambda A, D, s, n: Implies(And(_unit(D, s, n), beqv(A, D, n), 0 <= s, s < n), And(UNIT(A, s, n), DISTR(A, n))), induct=False, extra=lambda A, D, s, n: [UNIT.reveal(), DISTR.reveal(), unit_sum(A, s, n)])
pair_new = Lemma("pair_new", [AR, AR, I, I, I], lambda A, D, s, t, n: Implies(And(_pair(D, s, t, n), beqv(A, D, n), 0 <= t, t < s, s < n), And(PAIR(A, s, t, n), DISTR(A, n))), induct=False, extra=lambda A, D, s, t, n: [PAIR.reveal(), DISTR.reveal(), pair_sum(A, s, t, n)])
def GH(c): return GR(c.now)
def mine(c, v, h0, h):
    """list h is h0 grown at its end, or new"""
    k = bound("k"); x = bn(v, h, k)
    return [("the head stays", Implies(h0 != 0, h == h0)), ("a list started here is new", Implies(h0 == 0, Or(h == 0, h >= c.pre.clk))), ("the nodes are those given or new", forall(k, Implies(And(0 <= k, k < blen(v, h)), Or(x >= c.pre.clk, And(h0 != 0, bhd(c.pre, x) == h0))), [x]))] + blist(v, h)
def glist(c, v): return mine(c, v, GR(c.pre), GR(v))
def corners(c, v, m):
    n0 = blen(c.pre, GR(c.pre)); k = bound("k"); D = v.D(bb(v, bn(v, GR(v), k)))
    return glist(c, v) + [("beliefs added", blen(v, GR(v)) == n0 + m), ("the corners in order", forall(k, Implies(And(n0 <= k, k < n0 + m), UNIT(D, k - n0, nS(v))), [bn(v, GR(v), k)]))] + alldist(v, GR(v))
GM = lambda c: {bfl("next"): lambda r: And(GR(c.pre) != 0, bhd(c.pre, r) == GR(c.pre)), "ghost:bls": [GR(c.pre)], "ghost:bll": [GR(c.pre)], "M:real": [tmpb(c.pre)], "G:gFiniteGrid": "any"}
def GML(c): g = lambda r: Or(r >= c.pre.clk, And(GR(c.pre) != 0, r == GR(c.pre))); return {bfl("next"): lambda r: Or(r >= c.pre.clk, And(GR(c.pre) != 0, bhd(c.pre, r) == GR(c.pre))), "ghost:bls": g, "ghost:bll": g, "M:real": [tmpb(c.pre)], "G:gFiniteGrid": "any"}
contract("FG_addSimplexCorners", file=FG, requires=lambda c: sizes(c) + tmp_ok(c.pre) + blist(c.pre, GR(c.pre)) + alldist(c.pre, GR(c.pre)), modifies=GM, ghost_writes=BGW + ("bown",), chain=True,
  ensures=lambda c: corners(c, c.post, nS(c.pre)),
  loops=[Loop(bound=lambda c: nS(c.pre), hints=lambda c: fg_hints(c, lambda A, D, n: unit_new(A, D, c.k - 1, n)), mods=GM, gw=BGW + ("bown",), inv=lambda c: corners(c, c.now, c.k)),
         Loop(only=True, bound=lambda c: nS(c.pre), mods=lambda c: {"M:real": [tmpb(c.pre)]}, inv=lambda c: (lambda j, T, i: [("unit vector so far", forall(j, Implies(And(0 <= j, j < c.k), T[j] == If(j == i, rv(1), rv(0))), [T[j]]))])(bound("j"), c.now.D(tmpb(c.pre)), c.lv("i", "int")))])
C["FG_addSimplexCorners"].local_names = {"i"}
def fg_hints(c, new):
    """the belief just added is a distribution"""
    v = c.now; x = blast(v, GR(v)); return [new(v.D(bb(v, x)), v.D(tmpb(c.pre)), nS(c.pre))]

# pairs (s, t), t < s, in order: pp(0) = (1, 0), pp(1) = (2, 0), pp(2) = (2, 1), ..
pp = RecFun("pairno", [], AI, lambda: z3.Store(z3.K(I, iv(0)), 0, iv(1)), lambda i, p: If(p[1] + 1 < p[0], z3.Store(p, 1, p[1] + 1), z3.Store(z3.Store(p, 0, p[0] + 1), 1, iv(0))))
tri = RecFun("tri", [], I, lambda: iv(0), lambda i, p: p + i)
def pairs(c, v, m):
    n0 = blen(c.pre, GR(c.pre)); k = bound("k"); D = v.D(bb(v, bn(v, GR(v), k)))
    return glist(c, v) + [("beliefs added", blen(v, GR(v)) == n0 + m), ("the pairs in order", forall(k, Implies(And(n0 <= k, k < n0 + m), PAIR(D, pp(k - n0)[0], pp(k - n0)[1], nS(v))), [bn(v, GR(v), k)]))] + alldist(v, GR(v))
contract("FG_addPairwise", file=FG, requires=lambda c: sizes(c) + tmp_ok(c.pre) + blist(c.pre, GR(c.pre)) + alldist(c.pre, GR(c.pre)), modifies=GM, ghost_writes=BGW + ("bown",), chain=True,
  ensures=lambda c: pairs(c, c.post, tri(nS(c.pre))),
  loops=[Loop(only=True, bound=lambda c: nS(c.pre), mods=GML, gw=BGW + ("bown",), inv=lambda c: pairs(c, c.now, tri(c.k)) + [("next pair", And(pp(tri(c.k))[0] == If(c.k < 1, iv(1), c.k), pp(tri(c.k))[1] == 0, tri(c.k) >= 0))]),
         Loop(only=True, bound=lambda c: c.lv("i", "int"), mods=GML, gw=BGW + ("bown",), hints=lambda c: fg_hints(c, lambda A, D, n: pair_new(A, D, c.lv("i", "int"), c.k - 1, n)),
              inv=lambda c: (lambda i, j, m: pairs(c, c.now, m) + [("next pair", And(m >= 0, pp(m)[0] == If(j < i, i, i + 1), pp(m)[1] == If(j < i, j, iv(0))))])(c.lv("i", "int"), c.k, tri(c.lv("i", "int")) + c.k)),
         Loop(only=True, bound=lambda c: nS(c.pre), mods=lambda c: {"M:real": [tmpb(c.pre)]}, inv=lambda c: (lambda k, T, i, j: [("pair so far", forall(k, Implies(And(0 <= k, k < c.k), T[k] == If(Or(k == i, k == j), HALF, rv(0))), [T[k]]))])(bound("k"), c.now.D(tmpb(c.pre)), c.lv("i", "int"), c.lv("j", "int")))])
C["FG_addPairwise"].local_names = {"i", "j"}

# ---------------------------------------------------------------- breadth-first search
def model_nn(v):
    """no probability of the model is negative"""
    a, z = bound("a"), bound("z"); pv, pc, ps, pl = parr(v, a)
    return [("no transition probability is negative", forall(a, Implies(And(0 <= a, a < nA(v)), TRNN(pv, ps, pl, nS(v))), [TRNN(pv, ps, pl, nS(v))])), ("no observation probability is negative", forall([a, z], Implies(And(0 <= a, a < nA(v), 0 <= z, z < nZ(v)), OBNN(*oarr(v, a), z, nS(v))), [OBNN(*oarr(v, a), z, nS(v))]))]
def srch_pre(c, h, e): return sizes(c) + pr_ok(c.pre) + model_nn(c.pre) + tmp_ok(c.pre) + blist(c.pre, h) + alldist(c.pre, h) + apart(c.pre, h, e) + [("tolerance", e > 0)]
def srch(c, v, h0, h, lim, e):
    n0 = blen(c.pre, h0)
    return mine(c, v, h0, h) + [("no beliefs lost, the requested maximum respected", And(n0 <= blen(v, h), blen(v, h) <= If(n0 > lim, n0, lim)))] + kept(c.pre, v, h0, n0) + alldist(v, h) + apart(v, h, e)
def SM(c, h): g = lambda r: Or(r >= c.pre.clk, And(h != 0, r == h)); n = lambda r: Or(r >= c.pre.clk, And(h != 0, bhd(c.pre, r) == h)); return {bfl("next"): n, bfl("mark"): n, "ghost:bls": g, "ghost:bll": g, "M:real": [tmpb(c.pre)]}
def s_inv(c):
    h = c.a(0); v = c.now; w = c.lv("walk_ptr", "ptr")
    return srch(c, v, h, h, c.a(1), c.a(2)) + [("list started from", c.lv("belief_list", "ptr") == h), ("size known", c.lv("cur_size", "int") == blen(v, h))]
def s_walk(c): h = c.a(0); w = c.lv("walk_ptr", "ptr"); return [("on the list", Or(w == 0, bin_(c.now, h, w)))]
def s_on(c): h = c.a(0); w = c.lv("walk_ptr", "ptr"); return [("on the list", bin_(c.now, h, w))]
def s_hints(c):
    v = c.now; h = c.a(0); x = blast(v, h); T = v.D(tmpb(c.pre)); n = nS(c.pre); w = c.lv("walk_ptr", "ptr"); B_ = v.D(bb(v, w))
    return [distr_nn.all()]
contract("searchAndAddBeliefStates", file=FG, requires=lambda c: srch_pre(c, c.a(0), c.a(2)), modifies=lambda c: SM(c, c.a(0)), ghost_writes=BGW + ("bown",), chain=True,
  ensures=lambda c: [("the list given", c.r == c.a(0))] + srch(c, c.post, c.a(0), c.r, c.a(1), c.a(2)),
  loops=[Loop(nocand=True, only=True, mods=lambda c: SM(c, c.a(0)), gw=BGW + ("bown",), inv=s_inv), Loop(nocand=True, only=True, mods=lambda c: SM(c, c.a(0)), gw=BGW + ("bown",), inv=lambda c: s_inv(c) + s_walk(c)),
         Loop(only=True, bound=lambda c: nA(c.pre), mods=lambda c: SM(c, c.a(0)), gw=BGW + ("bown",), inv=lambda c: s_inv(c) + s_on(c)), Loop(only=True, bound=lambda c: nZ(c.pre), mods=lambda c: SM(c, c.a(0)), gw=BGW + ("bown",), hints=s_hints, inv=lambda c: s_inv(c) + s_on(c))])
C["searchAndAddBeliefStates"].local_names = {"walk_ptr", "belief_list", "cur_size", "action"}

# ---------------------------------------------------------------- generated grids
OPTS = "PomdpSolveProgOptionsStruct"
def opt(v, f, p): return v.f(OPTS + "." + f, v.f("PomdpSolveParamStruct.opts", p))
def gp_ok(v, p): o = v.f("PomdpSolveParamStruct.opts", p); return [("parameters", And(p > 0, v.valid(p), KIND(p) == E.kind_of("PomdpSolveParamStruct"), o > 0, v.valid(o), KIND(o) == E.kind_of(OPTS)))]
def owners(v): r = bound("r"); return ("list owners on record exist", forall(r, Implies(r < v.clk, bhd(v, r) < v.clk), [bhd(v, r)]))
def gen_pre(c): p = c.a(0); return sizes(c) + pr_ok(c.pre) + model_nn(c.pre) + tmp_ok(c.pre) + gp_ok(c.pre, p) + [("tolerance", opt(c.pre, "fg_epsilon", p) > 0), ("room for a belief", opt(c.pre, "finite_grid_points", p) >= 1), owners(c.pre)]
def gen(c, v, h, n=None):
    """h is a new list of distributions, pairwise apart, no longer than requested"""
    p = c.a(0); return mine(c, v, iv(0), h) + [("the requested maximum is respected", And(blen(v, h) >= (1 if n is None else n), blen(v, h) <= opt(c.pre, "finite_grid_points", p)))] + alldist(v, h) + apart(v, h, opt(c.pre, "fg_epsilon", p))
def unif(D, n, k=None): i = bound("i"); return forall(i, Implies(And(0 <= i, i < (n if k is None else k)), D[i] == DIV(rv(1), z3.ToReal(n))), [D[i]])
uni_new = Lemma("uni_new", [AR, I], lambda A, n: Implies(And(n >= 1, unif(A, n)), DISTR(A, n)), induct=False, extra=lambda A, n: [DISTR.reveal(), const_sum(A, DIV(rv(1), z3.ToReal(n)), n), div_mul(rv(1), z3.ToReal(n)), div_nn(rv(1), z3.ToReal(n))])
def uni_loop(): return Loop(only=True, hints=lambda c: [uni_new(c.now.D(tmpb(c.pre)), nS(c.pre))], bound=lambda c: nS(c.pre), mods=lambda c: {"M:real": [tmpb(c.pre)]}, inv=lambda c: [("uniform so far", unif(c.now.D(tmpb(c.pre)), nS(c.pre), c.k))])
def gib(v): return v.g("gInitialBelief")
def gini_pre(c): b = gib(c.pre); return [("initial belief, if any", Implies(b != 0, And(b > 0, arr_ok(c.pre, b, nS(c.pre)), DISTR(c.pre.D(b), nS(c.pre)), b != tmpb(c.pre))))]
GMD = lambda c: {"M:real": [tmpb(c.pre)]}
GLP = lambda c: c.lv("belief_list", "ptr")
contract("genInitialDerivedBeliefStates", file=FG, requires=lambda c: gen_pre(c) + gini_pre(c), modifies=GMD, ghost_writes=BGW + ("bown",), chain=True,
  ensures=lambda c: gen(c, c.post, c.r), loops=[uni_loop()])

sel_new = Lemma("sel_new", [AR, AR, I, I], lambda T, A, m, n: (lambda i: Implies(And(n >= 1, m >= 1, suma(T, n) == z3.ToReal(m), forall(i, Implies(And(0 <= i, i < n), And(T[i] >= 0, A[i] == DIV(T[i], z3.ToReal(m)))), [A[i]])), DISTR(A, n)))(bound("i")), induct=False,
   extra=lambda T, A, m, n: [DISTR.reveal(), scale_sum(T, A, z3.ToReal(m), n), div_nn.all(), cancel(suma(A, n), z3.ToReal(m))])
def gl_inv(c): return gen(c, c.now, GLP(c)) + [("a list", GLP(c) != 0)]
def can_obs(c, x): return Not(eqe(obsp(c.pre, c.lv("action", "int"), x, c.lv("obs", "int")), rv(0), opt(c.pre, "fg_epsilon", c.a(0))))
def tnow(c): return c.now.D(tmpb(c.pre))
GLM = lambda c: SM(c, iv(0))
contract("genAllBeliefStates", file=FG, requires=gen_pre, modifies=GMD, ghost_writes=BGW + ("bown",), chain=True, ensures=lambda c: gen(c, c.post, c.r),
  loops=[uni_loop(), Loop(only=True, bound=lambda c: nA(c.pre), mods=GLM, gw=BGW + ("bown",), inv=gl_inv), Loop(only=True, bound=lambda c: nZ(c.pre), mods=GLM, gw=BGW + ("bown",), inv=gl_inv),
    Loop(only=True, bound=lambda c: nS(c.pre), mods=lambda c: {"M:real": [tmpb(c.pre)]}, inv=lambda c: (lambda i, T: [("zero so far", forall(i, Implies(And(0 <= i, i < c.k), T[i] == 0), [T[i]]))])(bound("i"), tnow(c))),
    Loop(only=True, bound=lambda c: nS(c.pre), mods=lambda c: {"M:real": [tmpb(c.pre)]}, hints=lambda c: [suma_ext.all()],
      inv=lambda c: (lambda i, T: [("one for the states that can produce the observation, zero for the others and the rest", forall(i, Implies(And(0 <= i, i < nS(c.pre)), T[i] == If(And(i < c.k, can_obs(c, i)), rv(1), rv(0))), [T[i]])), ("number of such states", And(z3.ToReal(c.lv("num_found", "int")) == suma(T, c.k), c.lv("num_found", "int") >= 0))])(bound("i"), tnow(c))),
    Loop(only=True, bound=lambda c: nS(c.pre), mods=lambda c: {"M:real": [tmpb(c.pre)]}, hints=lambda c: [sel_new(c.at.D(tmpb(c.pre)), tnow(c), c.lv("num_found", "int"), nS(c.pre))],
      inv=lambda c: (lambda i, T, T0: [("divided so far", forall(i, Implies(And(0 <= i, i < nS(c.pre)), T[i] == If(i < c.k, DIV(T0[i], z3.ToReal(c.lv("num_found", "int"))), T0[i])), [T[i]]))])(bound("i"), tnow(c), c.at.D(tmpb(c.pre))))])
C["genAllBeliefStates"].local_names = {"belief_list", "action", "obs", "num_found"}

# ---------------------------------------------------------------- set-up and clean-up of the grid
if "sprintf" not in C: contract("sprintf", file=None, trusted=True, writes={"M:char"}, modifies=lambda c: {"M:char": [c.a(0)]}, note="libc; formats a file name (buffer size not checked)")
contract("saveBeliefList", file=FB, trusted=True, note="writes the grid to a file; no effect on memory")
def fgt(c): return opt(c.pre, "finite_grid_type", c.a(0))
def init_ens(c, v):
    h = GR(v); n = nS(c.pre); t = fgt(c); searched = Or(t == 2, t == 3)
    return [(l, f) for l, f in mine(c, v, iv(0), h) + alldist(v, h)] + [("searched grids respect the requested maximum", Implies(searched, And(1 <= blen(v, h), blen(v, h) <= opt(c.pre, "finite_grid_points", c.a(0))))),
       ("searched grids hold no belief twice", Implies(searched, apart(v, h, opt(c.pre, "fg_epsilon", c.a(0)))[0][1])),
       ("otherwise the corners, and the pairs of states if asked for", Implies(Not(searched), blen(v, h) == n + If(t == 1, tri(n), iv(0))))]
contract("initFiniteGrid", file=FG, requires=lambda c: sizes(c) + pr_ok(c.pre) + model_nn(c.pre) + gp_ok(c.pre, c.a(0)) + [("tolerance", opt(c.pre, "fg_epsilon", c.a(0)) > 0), ("room for a belief", opt(c.pre, "finite_grid_points", c.a(0)) >= 1), owners(c.pre)] + gini_pre(c) + [("no grid yet", GR(c.pre) == 0)],
  modifies=lambda c: {"G:gFiniteGrid": "any", "G:gFGTempBelief": "any"}, ghost_writes=BGW + ("bown",), chain=True, ensures=lambda c: init_ens(c, c.post) + tmp_ok(c.post))
contract("cleanUpFiniteGrid", file=FG, requires=lambda c: sizes(c) + tmp_ok(c.pre) + blist(c.pre, GR(c.pre)), modifies=lambda c: {"G:gFiniteGrid": "any", "G:gFGTempBelief": "any", "freed": lambda r: Or(r == tmpb(c.pre), And(GR(c.pre) != 0, Or(bhd(c.pre, r) == GR(c.pre), And(bown(c.pre, r) != 0, bhd(c.pre, bown(c.pre, r)) == GR(c.pre)))))},
  ensures=lambda c: [("no grid left", And(GR(c.post) == 0, tmpb(c.post) == 0))])

C["searchAndAddBeliefStates"].shards = 3
C["genAllBeliefStates"].shards = 2
C["initFiniteGrid"].shards = 2
