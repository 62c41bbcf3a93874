"""src/neighbor.c: one-choice neighbours for the witness search (P21)."""
from .alpha_ import *
from .proj_ import pn, lifted
F = "src/neighbor.c"
TW = z3.Function("TW", I, I)            # names witnesses of existential statements for the solver; 0 everywhere
def tw_all(): p = bound("p"); return forall(p, TW(p) == 0, [TW(p)])
def nbv(v, node, z, x, i):
    """component i of the neighbour: observation z's choice replaced by projected vector x"""
    return vecN(v, node)[i] - vecN(v, v.P(obsS(v, node))[z])[i] + vecN(v, x)[i]
def covers(w, L, n, val, dom, eps, pats):
    """some vector of L equals the values val(i) within the tolerance, or (domination check on) is larger in every state"""
    p, i, j = bound("p"), bound("i"), bound("i"); x = lambda t: w.D(alphaN(w, p))[t]
    body = And(TW(p) == 0, inlist(w, L, p), Or(forall(i, Implies(And(0 <= i, i < n), eqe(x(i), val(i), eps)), [x(i)]), And(dom != 0, forall(j, Implies(And(0 <= j, j < n), x(j) > val(j)), [x(j)]))))
    return z3.Exists([p], body, patterns=[f(p) for f in pats])
def shifted(v, w, L, n):
    """list L: n vectors put in front of the entry list, the rest in place"""
    k = bound("k")
    return [("vectors already there stay, in order", And(lenL(w, L) == lenL(v, L) + n, n >= 0)), ("vectors already there keep their order", forall(k, Implies(And(n <= k, k < lenL(w, L)), nodeL(w, L, k) == nodeL(v, L, k - n)), [nodeL(w, L, k)])), 
            ("vectors already there are still in the set", forall(k, Implies(inlist(v, L, k), And(inlist(w, L, k), pos(w, k) == pos(v, k) + n)), [own(v, k), own(w, k)]))]
def touch_shift(c, n):
    p = bound("p"); L = c.a(0)
    return forall(p, touch(nodeL(c.post, L, pos(c.pre, p) + n)), [own(c.pre, p)])
def marks_kept(v, w, L, dom):
    r = bound("r")
    return [("marks are only ever set, and only with the domination check", forall(r, Implies(inlist(v, L, r), Or(mk(w, r) == mk(v, r), And(dom != 0, mk(w, r) == 1))), [mk(w, r)]))]
def nb_mods(c, L):
    return {fA("next"): [], fA("id"): [], fA("head"): [L], fA("tail"): [L], fA("length"): [L], "ghost:seq": [L], "ghost:own": [], "ghost:pos": (lambda r: own(c.pre, r) == L), fA("mark"): (lambda r: own(c.pre, r) == L)}
def an_present(c):
    L = c.a(0); k = bound("k")
    return Or(member(c.pre, L, c.a(1), c.a(6)), And(c.a(5) != 0, z3.Exists([k], And(0 <= k, k < lenL(c.pre, L), domvec(c.pre, alphaN(c.pre, nodeL(c.pre, L, k)), c.a(1))), patterns=[nodeL(c.pre, L, k)])))
contract("addNeighbor", file=F, ghost_writes=G3 + ("bown",), chain=True,
  requires=lambda c: sizes(c) + wf(c.pre, c.a(0)) + [("neighbour vector", And(c.a(1) > 0, arr_ok(c.pre, c.a(1), nS(c.pre)), bown(c.pre, c.a(1)) == 0, own(c.pre, c.a(1)) == 0)), ("tolerance", c.a(6) > 0)],
  modifies=lambda c: nb_mods(c, c.a(0)) | {"ghost:bown": [c.a(1)]}, hints=lambda c: [tw_all(), touch_shift(c, iv(1)), touch_shift(c, iv(0))],
  ensures=lambda c: (lambda L, x: [("0 or 1", Or(c.r == 0, c.r == 1))] + wf(c.post, L) + shifted(c.pre, c.post, L, c.r) + marks_kept(c.pre, c.post, L, c.a(5)) +
    [("not added only when an equal or (with the check) a dominating vector is present", Implies(c.r == 0, an_present(c))), ("added only when no equal vector is present", Implies(c.r == 1, (lambda k: forall(k, Implies(And(0 <= k, k < lenL(c.pre, L)), Not(samev(c.pre, nodeL(c.pre, L, k), c.a(1), c.a(6)))), [nodeL(c.pre, L, k)]))(bound("k")))),
     ("added only when (with the check) no dominating vector is present", Implies(And(c.r == 1, c.a(5) != 0), (lambda k: forall(k, Implies(And(0 <= k, k < lenL(c.pre, L)), Not(domvec(c.pre, alphaN(c.pre, nodeL(c.pre, L, k)), c.a(1)))), [nodeL(c.pre, L, k)]))(bound("k")))),
     ("the set covers the neighbour", covers(c.post, L, nS(c.pre), lambda i: c.pre.D(c.a(1))[i], c.a(5), c.a(6), [lambda p: pos(c.pre, p), lambda p: pos(c.post, p)])),
     ("the vector added is the neighbour itself, with its origin", Implies(c.r == 1, And(x >= c.pre.clk, alphaN(c.post, x) == c.a(1), pn(c.post, "prev_source", x) == c.a(2), pn(c.post, "obs", x) == c.a(3), pn(c.post, "first_source", x) == c.a(4), mk(c.post, x) == 0))),
     ("not added: the vector stays the caller's", Implies(c.r == 0, bown(c.post, c.a(1)) == bown(c.pre, c.a(1))))])(c.a(0), nodeL(c.post, c.a(0), iv(0))))

def PZ(v, P_, z): return v.P(P_)[z]
def an_pre(c, L, node, P_):
    z = bound("z"); X = PZ(c.pre, P_, z); y = c.pre.P(obsS(c.pre, node))[z]
    return sizes(c) + wf(c.pre, L) + [("vector with its choices", And(node_ok(c.pre, node), obsS(c.pre, node) != 0)), ("tolerance", c.a(4) > 0), ("projection sets: array", And(P_ > 0, arr_ok(c.pre, P_, nZ(c.pre), "ptr"), bown(c.pre, P_) == 0))] + \
      [("projection sets: " + l, f) for l, f in lifted([z], And(0 <= z, z < nZ(c.pre)), wf(c.pre, X) + [("not the set of neighbours", X != L), ("the choice made is a live vector", And(is_node(c.pre, y), alphaN(c.pre, y) > 0, arr_ok(c.pre, alphaN(c.pre, y), nS(c.pre)), bown(c.pre, alphaN(c.pre, y)) == y))], X)]
def cov(c, w, done):
    """every one-choice replacement (z, k) in done is covered"""
    L, node, P_ = c.a(0), c.a(1), c.a(2); z, k = bound("z"), bound("k"); v = c.pre; x = nodeL(v, PZ(v, P_, z), k)
    return forall([z, k], Implies(And(0 <= z, z < nZ(v), 0 <= k, k < lenL(v, PZ(v, P_, z)), done(z, k), x != v.P(obsS(v, node))[z]), covers(w, L, nS(v), lambda i: nbv(v, node, z, x, i), c.a(3), c.a(4), [lambda p: TW(p)])), [x])
def newok(c, w, n):
    """the first n vectors of L are neighbours, each with the components its recorded replacement gives"""
    L, node, P_ = c.a(0), c.a(1), c.a(2); j, i = bound("j"), bound("i"); v = c.pre; x = nodeL(w, L, j); z, y = pn(w, "obs", x), pn(w, "first_source", x)
    return [("new vectors record the replacement that made them", forall(j, Implies(And(0 <= j, j < n), And(x >= v.clk, alphaN(w, x) >= v.clk, pn(w, "prev_source", x) == node, 0 <= z, z < nZ(v), inlist(v, PZ(v, P_, z), y), y != v.P(obsS(v, node))[z])), [x])),
            ("new vectors have the components the replacement gives", forall([j, i], Implies(And(0 <= j, j < n, 0 <= i, i < nS(v)), vecN(w, x)[i] == nbv(v, node, z, y, i)), [vecN(w, x)[i]]))]
def an_inv(c, n, done):
    L = c.a(0)
    return wf(c.now, L) + shifted(c.pre, c.now, L, n) + marks_kept(c.pre, c.now, L, c.a(3)) + [("every replacement so far is covered", cov(c, c.now, done))] + newok(c, c.now, n)
def an_mods(c):
    L = c.a(0); fr = lambda r: r >= c.pre.clk
    d = {k: (lambda r, x=x: Or(r >= c.pre.clk, x(r) if callable(x) else Or(*[r == y for y in x]))) for k, x in nb_mods(c, L).items()}
    for m in ("M:real", "freed", "ghost:bown", fA("prev_source"), fA("obs"), fA("first_source"), fA("alpha"), fA("action"), fA("witness"), fA("obs_source"), fA("second_source"), fA("hook")): d[m] = fr
    return d
contract("addAllNeighbors", file=F, ghost_writes=G3 + ("bown",), requires=lambda c: an_pre(c, c.a(0), c.a(1), c.a(2)), modifies=lambda c: nb_mods(c, c.a(0)), hints=lambda c: [tw_all()],
  ensures=lambda c: wf(c.post, c.a(0)) + shifted(c.pre, c.post, c.a(0), c.r) + marks_kept(c.pre, c.post, c.a(0), c.a(3)) + [("every one-choice replacement is covered", cov(c, c.post, lambda z, k: z3.BoolVal(True)))] + newok(c, c.post, c.r),
  loops=[Loop(bound=lambda c: nZ(c.pre), mods=an_mods, hints=lambda c: [tw_all()], inv=lambda c: an_inv(c, c.lv("num_added", "int"), lambda z, k: z < c.k)),
    Loop(bound=lambda c: lenL(c.pre, PZ(c.pre, c.a(2), c.lv("z", "int"))), walk=lambda c: walks(PZ(c.pre, c.a(2), c.lv("z", "int"))), mods=an_mods, hints=lambda c: [tw_all()],
      inv=lambda c: (lambda zz: an_inv(c, c.lv("num_added", "int"), lambda z, k: Or(z < zz, And(z == zz, k < c.k))))(c.lv("z", "int"))),
    Loop(bound=lambda c: nS(c.pre), mods=lambda c: {"M:real": [c.lv("neighbor", "ptr")]},
      inv=lambda c: (lambda i, nb, node, x, v: [("components so far", forall(i, Implies(And(0 <= i, i < c.k), c.now.D(nb)[i] == nbv(v, node, c.lv("z", "int"), x, i)), [c.now.D(nb)[i]]))])(bound("i"), c.lv("neighbor", "ptr"), c.a(1), c.lv("proj_z", "ptr"), c.pre))])
C["addAllNeighbors"].shards = 6
C["addAllNeighbors"].local_names = {"num_added", "z", "neighbor", "proj_z"}

def cov_m(c, w, n):
    """every one-choice replacement of the first n vectors of list a(1) is covered"""
    L, M, P_ = c.a(0), c.a(1), c.a(2); m, z, k = bound("m"), bound("z"), bound("k"); v = c.pre; x = nodeL(v, PZ(v, P_, z), k); node = nodeL(v, M, m)
    return forall([m, z, k], Implies(And(0 <= m, m < n, 0 <= z, z < nZ(v), 0 <= k, k < lenL(v, PZ(v, P_, z)), x != v.P(obsS(v, node))[z]), covers(w, L, nS(v), lambda i: nbv(v, node, z, x, i), c.a(3), c.a(4), [lambda p: TW(p)])), [z3.MultiPattern(node, x)])
def touch_proj(c):
    z, k = bound("z"), bound("k"); X = PZ(c.pre, c.a(2), z)
    return And(forall([z, k], touch(nodeL(c.now, X, k)), [nodeL(c.pre, X, k)]), forall(k, touch(nodeL(c.now, c.a(1), k)), [nodeL(c.pre, c.a(1), k)]))
def fl_pre(c):
    z, m = bound("z"), bound("m"); v = c.pre; M = c.a(1); node = nodeL(v, M, m); y = v.P(obsS(v, node))[z]; X = PZ(v, c.a(2), z)
    return sizes(c) + wf(v, c.a(0)) + wf(v, M) + [("different sets", c.a(0) != M), ("tolerance", c.a(4) > 0), ("projection sets: array", And(c.a(2) > 0, arr_ok(v, c.a(2), nZ(v), "ptr"), bown(v, c.a(2)) == 0)),
       ("vectors have choices", forall(m, Implies(And(0 <= m, m < lenL(v, M)), And(obsS(v, node) != 0)), [node])),
       ("each choice is a live vector", forall([m, z], Implies(And(0 <= m, m < lenL(v, M), 0 <= z, z < nZ(v)), And(is_node(v, y), alphaN(v, y) > 0, arr_ok(v, alphaN(v, y), nS(v)), bown(v, alphaN(v, y)) == y)), [y]))] + \
       [("projection sets: " + l, f) for l, f in lifted([z], And(0 <= z, z < nZ(v)), wf(v, X) + [("not the set of neighbours", X != c.a(0))], X)]
contract("addAllNeighborsFromList", file=F, ghost_writes=G3 + ("bown",), requires=fl_pre, modifies=lambda c: nb_mods(c, c.a(0)),
  ensures=lambda c: wf(c.post, c.a(0)) + shifted(c.pre, c.post, c.a(0), c.r) + marks_kept(c.pre, c.post, c.a(0), c.a(3)) + [("every one-choice replacement of every vector is covered", cov_m(c, c.post, lenL(c.pre, c.a(1))))],
  hints=lambda c: [tw_all()],
  loops=[Loop(walk=lambda c: walks(c.a(1)), bound=lambda c: lenL(c.pre, c.a(1)), mods=an_mods, hints=lambda c: [tw_all(), touch_proj(c)],
     inv=lambda c: wf(c.now, c.a(0)) + shifted(c.pre, c.now, c.a(0), c.lv("num_added", "int")) + marks_kept(c.pre, c.now, c.a(0), c.a(3)) + [("covered so far", cov_m(c, c.now, c.k))])])
C["addAllNeighborsFromList"].local_names = {"num_added"}
