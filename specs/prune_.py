"""src/parsimonious.c: pruning a set of vectors (P05)."""
from .region_ import *
from .belief_ import RM, SREF
from .stop_ import temp_ok, fr_mods, FRGW, FRL, frn, log_kept
from . import stop_
F = "src/parsimonious.c"
def exdom(v, L, a): k = bound("k"); return z3.Exists([k], And(0 <= k, k < lenL(v, L), domvec(v, alphaN(v, nodeL(v, L, k)), a)), patterns=[nodeL(v, L, k)])
contract("isEmptyRegionSimpleCheck", file=F,
  requires=lambda c: sizes(c) + [("set", Or(c.a(0) == 0, conj(wf(c.pre, c.a(0))))), ("vector", Or(c.a(1) == 0, And(c.a(1) > 0, arr_ok(c.pre, c.a(1), nS(c.pre)))))],
  ensures=lambda c: (lambda n, m, d: [("a truth value", Or(c.r == 0, c.r == 1)), ("nothing given: empty", Implies(n, c.r == 1)), ("empty only if the vector is present within epsilon or, on request, strictly dominated by a member", Implies(And(Not(n), c.r == 1), Or(m, d))), ("a present vector is empty", Implies(And(Not(n), m), c.r == 1)), ("a dominated vector is empty on request", Implies(And(Not(n), d), c.r == 1))])
    (Or(c.a(0) == 0, c.a(1) == 0), member(c.pre, c.a(0), c.a(1), c.a(2)), And(c.a(3) != 0, exdom(c.pre, c.a(0), c.a(1)))))

# ---------------------------------------------------------------- marking the best vectors at chosen beliefs
GHOSTS["bestn"] = AI        # number of a belief examined -> the vector picked there
GHOSTS["pickat"] = AI       # vector -> number of the belief it was first picked at
GHOSTS["seenb"] = AAR       # number of a belief examined -> the belief
def unit(b, i, n): j = bound("j"); return forall(j, Implies(And(0 <= j, j < n), b[j] == If(j == i, rv(1), rv(0))), [b[j]])
unit_dot = Lemma("unit_dot", [AR, AR, I], lambda b, v, i, n: Implies(unit(b, i, n), dot(b, v, n) == If(And(0 <= i, i < n), v[i], rv(0))), pats=lambda b, v, i, n: [z3.MultiPattern(dot(b, v, n), v[i])])
def tops(v, L, b, x, eps): k = bound("k"); return And(inlist(v, L, x), forall(k, Implies(And(0 <= k, k < lenL(v, L)), bvd(v, L, k, b) <= dot(b, vecN(v, x), nS(v)) + 2 * eps), [nodeL(v, L, k)]))
def bvd(v, L, k, b): return dot(b, vecN(v, nodeL(v, L, k)), nS(v))
def corner_top(v, L, i, x, eps): k = bound("k"); return And(inlist(v, L, x), forall(k, Implies(And(0 <= k, k < lenL(v, L)), vecN(v, nodeL(v, L, k))[i] <= vecN(v, x)[i] + 2 * eps), [nodeL(v, L, k)]))
def bestn(v, i): return Sel(v.gh("bestn"), i)
def pickat(v, x): return Sel(v.gh("pickat"), x)
def marked(c, v, L, n, save):
    """only vectors picked at one of the first n beliefs gain a mark, and keep the belief as witness on request"""
    k = bound("k"); x = nodeL(c.pre, L, k); j = pickat(v, x)
    return [("only vectors picked somewhere are marked", forall(k, Implies(And(0 <= k, k < lenL(c.pre, L)), Or(mk(v, x) == mk(c.pre, x), And(mk(c.pre, x) == 0, mk(v, x) == 1, 0 <= j, j < n, bestn(v, j) == x))), [x])),
            ("unmarked vectors keep their witness", forall(k, Implies(And(0 <= k, k < lenL(c.pre, L), Or(mk(c.pre, x) != 0, mk(v, x) == 0, save != 1)), witN(v, x) == witN(c.pre, x)), [x]))]
def wit_mods(c, L): return {fA("mark"): (lambda r: own(c.pre, r) == L), fA("witness"): (lambda r: own(c.pre, r) == L), "freed": (lambda r: And(bown(c.pre, r) != 0, own(c.pre, bown(c.pre, r)) == L, r == witN(c.pre, bown(c.pre, r)))), "ghost:bestn": "any", "ghost:pickat": (lambda r: own(c.pre, r) == L), "ghost:seenb": "any"}
MG = ("bestn", "pickat", "seenb", "bown")
def pick(c): return {"bestn": z3.Store(c.now.gh("bestn"), c.k, c.lv("node", "ptr")), "pickat": If(mk(c.at, c.lv("node", "ptr")) == 0, z3.Store(c.now.gh("pickat"), c.lv("node", "ptr"), c.k), c.now.gh("pickat"))}
def tb(v): return v.g("gTempBelief")
def nonempty(c): return [("non-empty", lenL(c.pre, c.a(0)) >= 1)]
contract("markBestAtSimplexVertices", file=F, ghost_writes=MG,
  requires=lambda c: sizes(c) + wf(c.pre, c.a(0)) + nonempty(c) + temp_ok(c.pre) + [("tolerance", c.a(2) >= 0)],
  modifies=lambda c: {**wit_mods(c, c.a(0)), "M:real": [tb(c.pre)]},
  ensures=lambda c: sv_corner(c, c.post, nS(c.pre)) + wf(c.post, c.a(0)),
  loops=[Loop(only=True, bound=lambda c: nS(c.pre), mods=lambda c: {"M:real": [tb(c.pre)]}, inv=lambda c: [("zero so far", zeros(c.now.D(tb(c.pre)), c.k))]),
    Loop(bound=lambda c: nS(c.pre), gw=("bestn", "pickat"), ghost=pick, hints=lambda c: [unit_dot.all()], mods=lambda c: {**wit_mods(c, c.a(0)), "M:real": (lambda r: Or(r == tb(c.pre), r >= c.pre.clk)), "ghost:bown": (lambda r: r >= c.pre.clk)},
      inv=lambda c: [("zero between corners", zeros(c.now.D(tb(c.pre)), nS(c.pre)))] + sv_corner(c, c.now, c.k) + wf(c.now, c.a(0)))])
C["markBestAtSimplexVertices"].local_names = {"node"}
def zeros(b, n): i = bound("i"); return forall(i, Implies(And(0 <= i, i < n), b[i] == 0), [b[i]])
def sv_corner(c, v, n):
    i = bound("i"); L = c.a(0); x = bestn(v, i)
    return [("at every corner the vector picked is best", forall(i, Implies(And(0 <= i, i < n), corner_top(c.pre, L, i, x, c.a(2))), [x])), ("and marked", forall(i, Implies(And(0 <= i, i < n), mk(v, x) != 0), [x]))] + marked(c, v, L, n, c.a(1))

def seenb(v, i): return Sel(v.gh("seenb"), i)
def isdist(x, n): j = bound("j"); return And(forall(j, Implies(And(0 <= j, j < n), And(0 <= x[j], x[j] <= 1)), [x[j]]), suma(x, n) == 1)
def sv_random(c, v, n):
    i = bound("i"); L = c.a(0); x = bestn(v, i)
    return [("the vector picked at every belief is best there", forall(i, Implies(And(0 <= i, i < n), tops(c.pre, L, seenb(v, i), x, c.a(3))), [x])), ("and marked", forall(i, Implies(And(0 <= i, i < n), mk(v, x) != 0), [x])),
            ("every belief is a probability distribution", forall(i, Implies(And(0 <= i, i < n), isdist(seenb(v, i), nS(c.pre))), [seenb(v, i)]))] + marked(c, v, L, n, c.a(2))
contract("markBestAtRandomPoints", file=F, ghost_writes=MG,
  requires=lambda c: sizes(c) + wf(c.pre, c.a(0)) + [("non-empty", Or(c.a(1) < 1, lenL(c.pre, c.a(0)) >= 1))] + temp_ok(c.pre) + [("tolerance", c.a(3) >= 0)],
  modifies=lambda c: {**wit_mods(c, c.a(0)), "M:real": [tb(c.pre)], **RM(c)},
  ensures=lambda c: sv_random(c, c.post, c.a(1)) + wf(c.post, c.a(0)),
  loops=[Loop(bound=lambda c: c.a(1), gw=("bestn", "pickat", "seenb"), ghost=lambda c: dict(pick(c), seenb=z3.Store(c.now.gh("seenb"), c.k, c.now.D(tb(c.pre)))), mods=lambda c: {**wit_mods(c, c.a(0)), "M:real": (lambda r: Or(r == tb(c.pre), r >= c.pre.clk)), "M:int": [SREF], "ghost:bown": (lambda r: r >= c.pre.clk)},
      inv=lambda c: sv_random(c, c.now, c.k) + wf(c.now, c.a(0)))])
C["markBestAtRandomPoints"].local_names = {"node"}

# ---------------------------------------------------------------- removing dominated vectors
GHOSTS["domby"] = AI        # marked vector -> an unmarked vector strictly better in every state
DM = Opaque("DM", [AR, AR, I], B, lambda a, b, n: (lambda i: forall(i, Implies(And(0 <= i, i < n), a[i] > b[i]), [a[i]]))(bound("i")))
dm_trans = Lemma("dm_trans", [AR, AR, AR, I], lambda a, b, d, n: Implies(And(DM(a, b, n), DM(b, d, n)), DM(a, d, n)), pats=lambda a, b, d, n: [z3.MultiPattern(DM(a, b, n), DM(b, d, n))], induct=False, extra=lambda a, b, d, n: [DM.reveal()])
dm_irr = Lemma("dm_irr", [AR, I], lambda a, n: Implies(n >= 1, Not(DM(a, a, n))), pats=lambda a, n: [DM(a, a, n)], induct=False, extra=lambda a, n: [DM.reveal()])
def dmn(v, x, y): return DM(vecN(v, x), vecN(v, y), nS(v))
def domby(v, x): return Sel(v.gh("domby"), x)
def dc_inv(c, v, n):
    k, j = bound("k"), bound("j"); L = c.a(0); x = nodeL(c.pre, L, k); y = domby(v, x); z = nodeL(c.pre, L, j)
    return [("a marked vector has a better one that is not marked", forall(k, Implies(And(0 <= k, k < lenL(c.pre, L), mk(v, x) != 0), And(inlist(c.pre, L, y), mk(v, y) == 0, dmn(c.pre, y, x))), [x])),
            ("vectors an examined unmarked vector dominates are marked", forall([k, j], Implies(And(0 <= k, k < lenL(c.pre, L), 0 <= j, j < n, mk(v, z) == 0, dmn(c.pre, z, x)), mk(v, x) != 0), [z3.MultiPattern(x, z)])),
            ("marks", forall(k, Implies(And(0 <= k, k < lenL(c.pre, L)), Or(mk(v, x) == 0, mk(v, x) == 1)), [x]))]
def dc_ghost(c):
    o = c.now; z = nodeL(c.pre, c.a(0), c.k); take = lambda r: And(mk(o, z) == 0, dmn(c.pre, z, r))
    return {"domby": defmap(o.st, AI, lambda r: If(Or(take(r), take(domby(o, r))), z, domby(o, r)), "domby")}
def dc_ens(c, v):
    k, j = bound("k"), bound("j"); L = c.a(0); n = lenL(c.pre, L); x, y = nodeL(c.pre, L, k), nodeL(c.pre, L, j); d = domby(v, x)
    return [("fewer vectors by the number returned", And(c.r >= 0, lenL(v, L) == n - c.r)),
            ("a vector leaves only if a vector that stays is strictly better in every state", forall(k, Implies(And(0 <= k, k < n, own(v, x) != L), And(own(c.pre, d) == L, own(v, d) == L, dmn(c.pre, d, x))), [x])),
            ("no vector stays that a remaining one beats in every state", forall([k, j], Implies(And(0 <= k, k < n, 0 <= j, j < n, n >= 2, own(v, x) == L, own(v, y) == L), Not(dmn(c.pre, y, x))), [z3.MultiPattern(x, y)])),
            ("vectors that stay keep their contents", forall(k, Implies(And(0 <= k, k < n, own(v, x) == L), And(alphaN(v, x) == alphaN(c.pre, x), obsS(v, x) == obsS(c.pre, x), witN(v, x) == witN(c.pre, x), nodeL(v, L, pos(v, x)) == x)), [x])),
            ("and their order", forall([k, j], Implies(And(0 <= k, k < j, j < n, own(v, x) == L, own(v, y) == L), pos(v, x) < pos(v, y)), [z3.MultiPattern(x, y)]))] + wf(v, L)
def dc_hints(c):
    k = bound("k"); L = c.a(0); x = nodeL(c.pre, L, k); z = nodeL(c.pre, L, c.k - 1); a = (vecN(c.pre, z), vecN(c.pre, x), nS(c.pre))
    return [dm_trans.all(), dm_irr(vecN(c.pre, z), nS(c.pre)), forall(k, DM(*a) == DM.body(*a), [x])]
um_lt = Lemma("um_lt", [AI, AI, I, I], lambda s, m, j, n: Implies(And(0 <= j, j < n), unmk(s, m, j) + If(m[s[j]] == 0, iv(1), iv(0)) <= unmk(s, m, n)), pats=lambda s, m, j, n: [z3.MultiPattern(unmk(s, m, j), unmk(s, m, n))], induct=False, extra=lambda s, m, j, n: [um_mono(s, m, j, n)])
contract("dominationCheck", file=F, ghost_writes=G3 + ("domby",), requires=lambda c: sizes(c) + wf(c.pre, c.a(0)), modifies=lambda c: {**rm_mods(c, c.a(0)), "ghost:domby": "any"},
  ensures=lambda c: dc_ens(c, c.post), hints=lambda c: [dm_irr.all(), um_b.all(), um_lt.all()],
  loops=[Loop(walk=lambda c: walks(c.a(0)), bound=lambda c: lenL(c.pre, c.a(0)), mods=lambda c: {fA("mark"): (lambda r: own(c.pre, r) == c.a(0)), "ghost:domby": "any"}, gw=("domby",), ghost=dc_ghost, hints=dc_hints,
     inv=lambda c: dc_inv(c, c.now, c.k))])

# ---------------------------------------------------------------- pruning by region programs
for _g, _s in dict(whyout=AI, seenw=AAR, left=AI, whyin=AI).items(): GHOSTS[_g] = _s
# whyout: a vector removed -> number of the region search that found no witness for it
# left: a vector -> the round it left the input set in (negative: before the first round); seenw: a vector kept -> the belief it was picked at; whyin: ... and the number of the search that found it
NPG = ("whyout", "seenw", "left", "whyin")
def gm(v, g, x): return Sel(v.gh(g), x)
def NX(c): return c.lv("new_alpha_list", "ptr")
def apart(c, L, p):
    t, s = c.pre.g("gTempBelief"), pf(c.pre, "stat", p)
    return [("settings are apart from the vectors", And(*[And(own(c.pre, q) == 0, bown(c.pre, q) == 0) for q in (p, s, t)], bown(c.pre, L) == 0))]
def np_pre(c, L, p): return sizes(c) + wf(c.pre, L) + nonempty(c) + temp_ok(c.pre) + par_ok(c.pre, p) + apart(c, L, p) + [("tolerance", pf(c.pre, "alpha_epsilon", p) >= 0), ("search precision", And(pf(c.pre, "epsilon", p) > 0, pf(c.pre, "epsilon", p) <= INF))]
def np_state(c, v, N, p, j, L2=None):
    L = c.a(0); k, i, q = bound("k"), bound("i"), bound("p"); n = lenL(c.pre, L); x, y = nodeL(c.pre, L, k), nodeL(c.pre, L, i); w, u, b = gm(v, "whyout", x), gm(v, "whyin", x), gm(v, "seenw", x)
    todo = (lambda z: own(v, z) == L) if L2 is None else (lambda z: z3.BoolVal(False))
    gone = lambda z: And(own(v, z) != N, Not(todo(z))); ran = And(0 <= k, k < n)
    return [("a vector is given up only after a region search found no belief where it beats the vectors kept", forall(k, Implies(And(ran, gone(x)), And(frn(c.pre) <= w, w < frn(v), v.gh("fr_vec")[w] == alphaN(c.pre, x), v.gh("fr_list")[w] == nlist(v), v.gh("fr_gain")[w] == 0)), [x])),
            ("vectors keep their values", forall(k, Implies(And(ran, Not(gone(x))), And(alphaN(v, x) == alphaN(c.pre, x), obsS(v, x) == obsS(c.pre, x), vecN(v, x) == vecN(c.pre, x))), [x])),
            ("nothing else enters the sets", forall(q, Implies(Not(gone(q)), own(c.pre, q) == L), [own(v, q)])),
            ("vectors that left did so before now", forall(k, Implies(And(ran, Not(todo(x))), And(gm(v, "left", x) >= -1, gm(v, "left", x) < j)), [x])),
            ("a vector kept was picked at a belief a region search found", forall(k, Implies(And(ran, own(v, x) == N, gm(v, "left", x) >= 0), And(frn(c.pre) <= u, u < frn(v), v.gh("fr_gain")[u] >= pf(c.pre, "epsilon", p), v.gh("fr_list")[u] == nlist(v))), [x])),
            ("and was best there among the vectors not tried yet", forall([k, i], Implies(And(ran, own(v, x) == N, gm(v, "left", x) >= 0, 0 <= i, i < n, Or(todo(y), gm(v, "left", y) >= gm(v, "left", x))), dot(b, vecN(c.pre, y), nS(c.pre)) <= dot(b, vecN(c.pre, x), nS(c.pre)) + 2 * pf(c.pre, "alpha_epsilon", p)), [dot(b, vecN(c.pre, y), nS(c.pre))]))] + log_kept(c.pre, v)
GHOSTS["nlist"] = AI        # 0 -> the list of vectors kept
def nlist(v): return v.gh("nlist")[0]
def np_inv(c):
    L, N, v, p = c.a(0), NX(c), c.now, c.a(1); q = bound("p")
    return np_state(c, v, N, p, c.k) + wf(v, L) + wf(v, N) + [("list of vectors kept", And(N == nlist(v), N >= c.pre.clk, N != L)), ("counts", And(lenL(v, L) == lenL(c.at, L) - c.k, lenL(v, L) + lenL(v, N) + c.lv("num_pruned", "int") == lenL(c.pre, L))),
       ("only members belong to the list of vectors kept", forall(q, Implies(own(v, q) == N, inlist(v, N, q)), [own(v, q)])), ("comparisons", frn(v) >= frn(c.pre)), ("removals counted", And(c.lv("num_pruned", "int") >= 0, lenL(c.at, L) <= lenL(c.pre, L))),
       ("vectors still to be tried are members", (lambda k, x: forall(k, Implies(And(0 <= k, k < lenL(c.pre, L), own(v, x) == L), inlist(v, L, x)), [x]))(*(lambda k: (k, nodeL(c.pre, L, k)))(bound("k"))))]
def np_init(c): o = c.now; return {"nlist": z3.Store(o.gh("nlist"), 0, NX(c)), "left": z3.K(I, iv(-1))}
def np_ghost(c):
    o = c.now; cur = c.lv("cur_node", "ptr"); best = c.lv("best_node", "ptr"); gone = Not(o.valid(cur)); x = If(gone, cur, best); w = frn(o) - 1
    return {"left": z3.Store(o.gh("left"), x, c.k), "whyout": If(gone, z3.Store(o.gh("whyout"), cur, w), o.gh("whyout")), "whyin": If(gone, o.gh("whyin"), z3.Store(o.gh("whyin"), best, w)),
            "seenw": If(gone, o.gh("seenw"), z3.Store(o.gh("seenw"), best, o.D(tb(c.pre))))}
def either(*fs): return lambda r: Or(*[f(r) if callable(f) else Or(*[r == x for x in f]) for f in fs])
NODEF = ("next", "mark", "id", "alpha", "obs_source", "witness")
def np_mods(c, L, p):
    mine = lambda r: own(c.pre, r) == L; M = dict(fr_mods(c, p)); M["M:int"] = either(M["M:int"], [SREF])
    return {**M, **{fA(f): [L] for f in ("head", "tail", "length")}, **{fA(f): mine for f in NODEF}, "freed": blocks_of(c.pre, L), "G:seeded": "any", "ghost:seq": [L], "ghost:own": mine, "ghost:pos": mine, **{"ghost:" + g: "any" for g in ("bestn", "seenb", "pickat", "nlist") + NPG}}
def np_lmods(c):
    M = np_mods(c, c.a(0), c.a(1)); fr = lambda f: (lambda r: Or(r >= c.pre.clk, f(r)))
    return {k: (v if isinstance(v, str) else fr(v) if callable(v) else (lambda v: lambda r: Or(r >= c.pre.clk, *[r == x for x in v]))(v)) for k, v in {**M, "ghost:bown": []}.items()}
def np_ens(c, p):
    L, v = c.a(0), c.post
    return [("fewer vectors by the number returned", And(c.r >= 0, lenL(v, L) == lenL(c.pre, L) - c.r))] + np_state(c, v, L, p, lenL(c.pre, L), L2=L) + wf(v, L)
def np_exit(c):
    L, o = c.a(0), c.now; N = nlist(o)
    return {"seq": z3.Store(o.gh("seq"), L, seqL(o, N)), "own": defmap(o.st, AI, lambda r: If(own(o, r) == N, L, own(o, r)), "ownx")}
contract("normalPrune", file=F, ghost_writes=G3 + FRGW + MG + NPG + ("nlist",), requires=lambda c: np_pre(c, c.a(0), c.a(1)), modifies=lambda c: np_mods(c, c.a(0), c.a(1)), ghost_exit=np_exit,
  ensures=lambda c: np_ens(c, c.a(1)),
  loops=[Loop(bound=lambda c: lenL(c.at, c.a(0)), gw=G3 + FRGW + NPG + ("bown",), ginit=np_init, ghost=np_ghost, mods=np_lmods, inv=np_inv)])
C["normalPrune"].shards = 6; C["normalPrune"].local_names = {"new_alpha_list", "cur_node", "best_node", "num_pruned"}
