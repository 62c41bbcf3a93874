"""src/common.c: vectors at a belief (P04), relinking of choices (P13), set initialisation."""
from .alpha_ import *
from .proj_ import pn, PNF, lifted
from .belief_ import RM, SREF
F = "src/common.c"
# ---------------------------------------------------------------- displays: output only
for nm in ("showAlpha", "showAlphaList", "showAlphaNode"):
    contract(nm, file="src/alpha.c", trusted=True, note="prints only")
# component i of the sum of the first n chosen vectors (null choices contribute nothing)
csum = RecFun("csum", [AI, AI, AAR, I], R, lambda o, al, d, i: rv(0), lambda o, al, d, i, z, p: p + If(o[z] == 0, rv(0), Sel(d, al[o[z]], i)))
def _cx(o, o2, al, d, d2, i, n):
    z = bound("z")
    return Implies(forall(z, Implies(And(0 <= z, z < n), And(o[z] == o2[z], Or(o[z] == 0, Sel(d, al[o[z]]) == Sel(d2, al[o[z]])))), [o[z]]), csum(o, al, d, i, n) == csum(o2, al, d2, i, n))
csum_ext = Lemma("csum_ext", [AI, AI, AI, AAR, AAR, I], _cx, pats=lambda o, o2, al, d, d2, i, n: [z3.MultiPattern(csum(o, al, d, i, n), csum(o2, al, d2, i, n))])
def chosen_sum(v, o, i, n): return csum(o, v.m(fA("alpha")), v.m("M:real"), i, n)
def projs_ok(v, row, node, what="projection sets"):
    z = bound("z"); X = v.P(row)[z]
    return [(what + ": array", And(row > 0, arr_ok(v, row, nZ(v), "ptr"), bown(v, row) == 0))] + \
       [(what + ": " + l, f) for l, f in lifted([z], And(0 <= z, z < nZ(v), X != 0), wf(v, X) + [("non-empty", lenL(v, X) > 0)] + ([("node in no projection set", own(v, node) != X)] if node is not None else []), X)]
def best_at(v, L, x, b, eps):
    """x is a vector of L whose value at b no other vector of L exceeds by more than twice the tolerance"""
    k = bound("k")
    return And(inlist(v, L, x), forall(k, Implies(And(0 <= k, k < lenL(v, L)), bv_val(v, L, k, b) <= dot(v.D(b), vecN(v, x), nS(v)) + 2 * eps), [nodeL(v, L, k)]))
def choice_is(v, row, os, b, eps, n):
    z = bound("z"); X = v.P(row)[z]
    return forall(z, Implies(And(0 <= z, z < n), If(X == 0, os[z] == 0, best_at(v, X, os[z], b, eps))), [X, os[z]])
def curnode(v, x): return And(node_ok(v, x), obsS(v, x) != 0, witN(v, x) == 0)
def q_pre(c, node, b, row, eps):
    z = bound("z")
    return sizes(c) + [("node with a choice array", curnode(c.pre, node)), ("belief", And(b > 0, arr_ok(c.pre, b, nS(c.pre)), b != alphaN(c.pre, node))), ("tolerance", eps >= 0)] + projs_ok(c.pre, row, node) + \
      [("some observation is possible", z3.Exists([z], And(0 <= z, z < nZ(c.pre), c.pre.P(row)[z] != 0)))]
def q_ens(v, w, node, b, row, eps):
    """node (view w) holds the sum of the best projected vectors at b, and exactly those choices"""
    s = bound("s"); os = w.P(obsS(v, node))
    return [("records the best vector of every projection set at the belief", choice_is(v, row, os, b, eps, nZ(v))),
            ("is the sum of exactly the recorded choices", forall(s, Implies(And(0 <= s, s < nS(v)), w.D(alphaN(v, node))[s] == chosen_sum(v, os, s, nZ(v))), [w.D(alphaN(v, node))[s]]))]
def bq_inv(c, n):
    node = c.a(0); s = bound("s"); os = c.now.P(obsS(c.pre, node)); z = bound("z")
    return [("choices so far", choice_is(c.pre, c.a(2), os, c.a(1), c.a(3), n)),
            ("sum so far", forall(s, Implies(And(0 <= s, s < nS(c.pre)), c.now.D(alphaN(c.pre, node))[s] == chosen_sum(c.pre, os, s, n)), [c.now.D(alphaN(c.pre, node))[s]]))]
contract("bestAlphaForBeliefQ", file=F, requires=lambda c: q_pre(c, c.a(0), c.a(1), c.a(2), c.a(3)),
  modifies=lambda c: {"M:real": [alphaN(c.pre, c.a(0))], "M:ptr": [obsS(c.pre, c.a(0))]},
  ensures=lambda c: [("succeeds", c.r == 1)] + q_ens(c.pre, c.post, c.a(0), c.a(1), c.a(2), c.a(3)),
  loops=[Loop(bound=lambda c: nS(c.pre), mods=lambda c: {"M:real": [alphaN(c.pre, c.a(0))]}, inv=lambda c: (lambda s: [("zero so far", forall(s, Implies(And(0 <= s, s < c.k), c.now.D(alphaN(c.pre, c.a(0)))[s] == 0), [c.now.D(alphaN(c.pre, c.a(0)))[s]]))])(bound("s"))),
    Loop(bound=lambda c: nZ(c.pre), hints=lambda c: [csum_ext.all()], inv=lambda c: bq_inv(c, c.k) + (lambda z: [("possible observation seen", Or(c.lv("non_null_proj", "int") == 1, And(c.lv("non_null_proj", "int") == 0, forall(z, Implies(And(0 <= z, z < c.k), c.pre.P(c.a(2))[z] == 0), [c.pre.P(c.a(2))[z]]))))])(bound("z"))),
    Loop(bound=lambda c: nS(c.pre), mods=lambda c: {"M:real": [alphaN(c.pre, c.a(0))]}, inv=lambda c: (lambda s, al, x: [("added so far", forall(s, Implies(And(0 <= s, s < nS(c.pre)), c.now.D(al)[s] == c.at.D(al)[s] + If(s < c.k, vecN(c.pre, x)[s], rv(0))), [c.now.D(al)[s]]))])(bound("s"), alphaN(c.pre, c.a(0)), c.lv("best_proj_vector", "ptr")))])
C["bestAlphaForBeliefQ"].local_names = {"non_null_proj", "best_proj_vector"}

# ---------------------------------------------------------------- all actions
def H_(v): return v.g("gCurAlphaHeader")
def T_(v): return v.g("gCurAlphaVector")
def cnode(v, a): return v.P(T_(v))[a]
def cur_ok(v):
    a = bound("a"); x = cnode(v, a); H = H_(v)
    return [("scratch set: " + l, f) for l, f in wf(v, H)] + [("one scratch vector per action", And(lenL(v, H) == nA(v), T_(v) > 0, arr_ok(v, T_(v), nA(v), "ptr"), bown(v, T_(v)) == 0)),
       ("scratch vectors have choice arrays", forall(a, Implies(And(0 <= a, a < nA(v)), And(nodeL(v, H, a) == x, own(v, x) == H, pos(v, x) == a, curnode(v, x), pn(v, "action", x) == a)), [x, nodeL(v, H, a)]))]
def rowp(v, t, a): return v.P(t)[a]
def tab_pre(v, t):
    a = bound("a"); row = rowp(v, t, a); z = bound("z")
    return [("projection table", And(t > 0, arr_ok(v, t, nA(v), "ptr"), bown(v, t) == 0))] + lifted([a], And(0 <= a, a < nA(v)), projs_ok(v, row, None) + [("some observation is possible", z3.Exists([z], And(0 <= z, z < nZ(v), v.P(row)[z] != 0))), ("scratch set is no projection set", forall(z, Implies(And(0 <= z, z < nZ(v)), v.P(row)[z] != H_(v)), [v.P(row)[z]]))], row)
def b_pre(v, b): return [("belief", And(b > 0, arr_ok(v, b, nS(v)), bown(v, b) == 0))]
def cur_blocks(v): return lambda r: And(bown(v, r) != 0, own(v, bown(v, r)) == H_(v))
def all_q(v, w, b, t, eps, n):
    a = bound("a"); x = cnode(v, a); g = And(0 <= a, a < n)
    return lifted([a], g, q_ens(v, w, x, b, rowp(v, t, a), eps), x)
def v_pre(c, b, t, eps): return sizes(c) + cur_ok(c.pre) + tab_pre(c.pre, t) + b_pre(c.pre, b) + [("tolerance", eps >= 0)]
contract("setBestAlphaForBeliefQ", file=F, requires=lambda c: cur_ok(c.pre) + b_pre(c.pre, c.a(0)) + q_pre(c, cnode(c.pre, iv(0)), c.a(0), c.a(1), c.a(2)),
  modifies=lambda c: {"M:real": [alphaN(c.pre, cnode(c.pre, iv(0)))], "M:ptr": [obsS(c.pre, cnode(c.pre, iv(0)))]},
  ensures=lambda c: [("succeeds", c.r == 1)] + q_ens(c.pre, c.post, cnode(c.pre, iv(0)), c.a(0), c.a(1), c.a(2)))
contract("setBestAlphasForBeliefV", file=F, requires=lambda c: v_pre(c, c.a(0), c.a(1), c.a(2)),
  modifies=lambda c: {"M:real": cur_blocks(c.pre), "M:ptr": cur_blocks(c.pre)},
  ensures=lambda c: [("succeeds", c.r == 1)] + all_q(c.pre, c.post, c.a(0), c.a(1), c.a(2), nA(c.pre)) + cur_ok(c.post),
  loops=[Loop(bound=lambda c: nA(c.pre), hints=lambda c: [csum_ext.all()], inv=lambda c: [("all succeed", c.lv("result", "int") == 1)] + all_q(c.pre, c.now, c.a(0), c.a(1), c.a(2), c.k)), Loop(bound=lambda c: nA(c.pre))])
C["setBestAlphasForBeliefV"].local_names = {"result"}

def best_of_all(v, H, x, val, b, eps):
    """x is a vector of H best at b among all (up to the tolerance) and val its value (up to the tolerance)"""
    return [(l, f) for l, f in bv_post(v, H, b, x, val, -INF, eps, lenL(v, H))] + [("a best vector exists", x != 0)]
contract("oneStepValue", file=F, requires=lambda c: v_pre(c, c.a(0), c.a(1), c.a(3)) + [("result cell", And(out_cell(c.pre, c.a(2), "ptr"), Or(c.a(2) < 0, bown(c.pre, c.a(2)) == 0), c.a(2) != T_(c.pre), c.a(2) != c.a(1), (lambda a: forall(a, Implies(And(0 <= a, a < nA(c.pre)), rowp(c.pre, c.a(1), a) != c.a(2)), [rowp(c.pre, c.a(1), a)]))(bound("a"))))],
  modifies=lambda c: {"M:real": cur_blocks(c.pre), "M:ptr": (lambda r: Or(r == c.a(2), cur_blocks(c.pre)(r)))},
  ensures=lambda c: all_q(c.pre, c.post, c.a(0), c.a(1), c.a(3), nA(c.pre)) + cur_ok(c.post) + best_of_all(c.post, H_(c.pre), c.post.P(c.a(2))[0], c.r, c.a(0), c.a(3)))
def other_list(c, L): return wf(c.pre, L) + [("not the scratch set", L != H_(c.pre))]
def best_scratch(c, x, b, eps):
    """x is a scratch vector (one per action) no other scratch vector beats at b by more than the tolerance"""
    H = H_(c.pre); k = bound("k")
    return And(x != 0, inlist(c.pre, H, x), forall(k, Implies(And(0 <= k, k < nA(c.pre)), bv_val(c.post, H, k, b) <= dot(c.post.D(b), vecN(c.post, x), nS(c.pre)) + 2 * eps), [nodeL(c.pre, H, k)]))
def in_before(c, L, x, eps):
    k = bound("k")
    return z3.Exists([k], And(0 <= k, k < lenL(c.pre, L), same(c.post, alphaN(c.pre, nodeL(c.pre, L, k)), alphaN(c.pre, x), nS(c.pre), eps)), patterns=[nodeL(c.pre, L, k)])
def copy_of(c, r, x):
    """r is a fresh copy of scratch vector x, as it is on return"""
    z = bound("z"); o = obsS(c.post, r)
    return And(r >= c.pre.clk, is_node(c.post, r), alphaN(c.post, r) >= c.pre.clk, eqvec(vecN(c.post, r), vecN(c.post, x), nS(c.pre)), o >= c.pre.clk,
       forall(z, Implies(And(0 <= z, z < nZ(c.pre)), c.post.P(o)[z] == c.post.P(obsS(c.pre, x))[z]), [c.post.P(o)[z]]))
def listsame(c, L): return And(lenL(c.post, L) == lenL(c.pre, L), seqL(c.post, L) == seqL(c.pre, L))
def appended(c, L, r):
    n = lenL(c.pre, L)
    return And(lenL(c.post, L) == n + 1, seqL(c.post, L) == z3.Store(seqL(c.pre, L), n, r), own(c.post, r) == L)
contract("makeAlphaVector", file=F, ghost_writes=G3 + ("bown",), chain=True,
  requires=lambda c: v_pre(c, c.a(2), c.a(1), c.a(3)) + other_list(c, c.a(0)),
  modifies=lambda c: {"M:real": cur_blocks(c.pre), "M:ptr": cur_blocks(c.pre), **append_mods(c, c.a(0), iv(0))},
  ensures=lambda c: all_q(c.pre, c.post, c.a(2), c.a(1), c.a(3), nA(c.pre)) + wf(c.post, c.a(0)) +
    (lambda x, y: [("nothing added when a best vector is already present", Implies(c.r == 0, And(listsame(c, c.a(0)), z3.Exists([y], And(best_scratch(c, y, c.a(2), c.a(3)), in_before(c, c.a(0), y, c.a(3))), patterns=[pos(c.pre, y)])))),
        ("otherwise the action recorded is one whose vector is best at the belief", Implies(c.r != 0, best_scratch(c, x, c.a(2), c.a(3)))),
        ("its vector was not present", Implies(c.r != 0, Not(in_before(c, c.a(0), x, c.a(3))))),
        ("a copy of that vector and its choices is added", Implies(c.r != 0, copy_of(c, c.r, x))),
        ("appended, rest of the set unchanged", Implies(c.r != 0, appended(c, c.a(0), c.r)))])(cnode(c.pre, pn(c.post, "action", c.r)), bound("y")))
def q0(c): return cnode(c.pre, iv(0))
contract("addVectorAtBeliefQ", file=F, ghost_writes=G3 + ("bown",), chain=True,
  requires=lambda c: cur_ok(c.pre) + b_pre(c.pre, c.a(1)) + q_pre(c, q0(c), c.a(1), c.a(2), c.a(4)) + other_list(c, c.a(0)) + [("first projection set present", c.pre.P(c.a(2))[0] != 0)],
  modifies=lambda c: {"M:real": [alphaN(c.pre, q0(c))], "M:ptr": [obsS(c.pre, q0(c))], **append_mods(c, c.a(0), iv(0))},
  ensures=lambda c: q_ens(c.pre, c.post, q0(c), c.a(1), c.a(2), c.a(4)) + wf(c.post, c.a(0)) + cur_ok(c.post) +
    [("nothing added when an equal vector is present", Implies(c.r == 0, And(in_before(c, c.a(0), q0(c), c.a(4)), listsame(c, c.a(0))))),
     ("otherwise the vector built is appended with its choices and the action of the projection sets", Implies(c.r != 0, And(Not(in_before(c, c.a(0), q0(c), c.a(4))), copy_of(c, c.r, q0(c)), pn(c.post, "action", c.r) == pn(c.pre, "action", c.pre.P(c.a(2))[0]), appended(c, c.a(0), c.r)))),
     ("witness saved on request", Implies(And(c.r != 0, c.a(3) == 1), eqvec(c.post.D(witN(c.post, c.r)), c.pre.D(c.a(1)), nS(c.pre))))])
def mk_nodes(c, v, n):
    a, b = bound("a"), bound("b"); x = cnode(v, a)
    return [("nodes made so far", forall(a, Implies(And(0 <= a, a < n), And(x >= c.pre.clk, x != T_(v), curnode(v, x), own(v, x) == 0, pn(v, "action", x) == a, nxt(v, x) == 0)), [x])),
            ("nodes distinct", forall([a, b], Implies(And(0 <= a, a < b, b < n), x != cnode(v, b)), [z3.MultiPattern(x, cnode(v, b))]))]
contract("initCommon", file=F, requires=sizes, ghost_writes=G3 + ("bown",), modifies=lambda c: {"G:gCurAlphaHeader": "any", "G:gCurAlphaVector": "any"},
  ensures=lambda c: cur_ok(c.post),
  loops=[Loop(bound=lambda c: nA(c.pre), gw=("bown",), mods=lambda c: {fA("obs_source"): (lambda r: r >= c.pre.clk), "M:ptr": [T_(c.now)]},
      ghost=lambda c: {"bown": z3.Store(c.now.gh("bown"), obsS(c.now, cnode(c.now, c.k)), cnode(c.now, c.k))},
      inv=lambda c: mk_nodes(c, c.now, c.k)),
    Loop(bound=lambda c: nA(c.pre), mods=lambda c: {fA(f): (lambda r: r >= c.pre.clk) for f in ("head", "tail", "length", "next", "id")} | {"ghost:" + g: (lambda r: r >= c.pre.clk) for g in G3},
      inv=lambda c: (lambda a: wf(c.now, H_(c.now)) + [("appended so far", And(lenL(c.now, H_(c.now)) == c.k, H_(c.now) >= c.pre.clk)),
         ("scratch vectors in order", forall(a, Implies(And(0 <= a, a < nA(c.pre)), (lambda x: And(x != H_(c.now), curnode(c.now, x), pn(c.now, "action", x) == a, If(a < c.k, And(nodeL(c.now, H_(c.now), a) == x, own(c.now, x) == H_(c.now), pos(c.now, x) == a), And(own(c.now, x) == 0, nxt(c.now, x) == 0))))(cnode(c.now, a))), [cnode(c.now, a), nodeL(c.now, H_(c.now), a)]))])(bound("a")))])
def TB(v): return v.g("gTempBelief")
def grown(c, v, L, added):
    """L in view v is the entry list with `added` more vectors at the end"""
    k = bound("k"); n = lenL(c.pre, L)
    return [("grown by the vectors added", And(lenL(v, L) == n + added, added >= 0)), ("earlier vectors stay in place", forall(k, Implies(And(0 <= k, k < n), nodeL(v, L, k) == nodeL(c.pre, L, k)), [nodeL(v, L, k)]))]
def iw_pre(c, L, row, eps): return cur_ok(c.pre) + b_pre(c.pre, TB(c.pre)) + q_pre(c, q0(c), TB(c.pre), row, eps) + other_list(c, L) + [("first projection set present", c.pre.P(row)[0] != 0)] + \
   [("set is no projection set", (lambda z: forall(z, Implies(And(0 <= z, z < nZ(c.pre)), c.pre.P(row)[z] != L), [c.pre.P(row)[z]]))(bound("z")))]
def iw_mods(c, L):
    return {"M:real": [alphaN(c.pre, q0(c)), TB(c.pre)], "M:ptr": [obsS(c.pre, q0(c))], **{fA(f): [L] for f in ("head", "tail", "length")}, "ghost:seq": [L], fA("next"): [If(lenL(c.pre, L) > 0, tailL(c.pre, L), iv(0))], fA("id"): []}
def iw_loopmods(c, L):
    fr = lambda r: r >= c.pre.clk
    return {fA(f): fr for f in ("next", "id", "action", "witness", "alpha", "obs_source", "mark", "hook", "obs", "prev_source", "first_source", "second_source")} | {"ghost:" + g: fr for g in ("own", "pos", "bown")} | {"M:real": fr, "M:ptr": fr, "freed": fr}

def iw_inv(c, v, L, row, eps):
    return [("added so far", c.lv("num_added", "int") == lenL(v, L) - lenL(c.pre, L))] + grown(c, v, L, lenL(v, L) - lenL(c.pre, L)) + wf(v, L) + cur_ok(v) + projs_ok(v, row, q0(c)) + [("tail fresh or untouched", Or(And(lenL(v, L) == lenL(c.pre, L), tailL(v, L) == tailL(c.pre, L)), tailL(v, L) >= c.pre.clk))]
contract("initWithSimplexCornersQ", file=F, ghost_writes=G3 + ("bown",),
  requires=lambda c: iw_pre(c, c.a(0), c.a(1), c.a(3)), modifies=lambda c: iw_mods(c, c.a(0)),
  ensures=lambda c: grown(c, c.post, c.a(0), c.r) + wf(c.post, c.a(0)),
  loops=[Loop(bound=lambda c: nS(c.pre), mods=lambda c: {"M:real": [TB(c.pre)]}),
    Loop(bound=lambda c: nS(c.pre), mods=lambda c: iw_loopmods(c, c.a(0)), inv=lambda c: iw_inv(c, c.now, c.a(0), c.a(1), c.a(3)))])
contract("initWithRandomBeliefPointsQ", file=F, ghost_writes=G3 + ("bown",),
  requires=lambda c: iw_pre(c, c.a(0), c.a(2), c.a(4)), modifies=lambda c: iw_mods(c, c.a(0)) | RM(c),
  ensures=lambda c: grown(c, c.post, c.a(0), c.r) + wf(c.post, c.a(0)),
  loops=[Loop(bound=lambda c: c.a(1), mods=lambda c: iw_loopmods(c, c.a(0)) | {"M:int": [SREF]}, inv=lambda c: iw_inv(c, c.now, c.a(0), c.a(2), c.a(4)))])
for nm in ("initWithSimplexCornersQ", "initWithRandomBeliefPointsQ"): C[nm].local_names = {"num_added"}

# ---------------------------------------------------------------- policy graph links (P13)
def relinked(c, v, L, n, ex=None, m=None):
    """choices of the first n vectors (and the first m of vector ex) point at the previous stage's vectors"""
    k, z = bound("k"), bound("z"); x = nodeL(c.pre, L, k); old = c.pre.P(obsS(c.pre, x))[z]; new = v.P(obsS(c.pre, x))[z]
    done = (k < n) if ex is None else Or(k < n, And(k == n, z < m))
    return forall([k, z], Implies(And(0 <= k, k < lenL(c.pre, L), 0 <= z, z < nZ(c.pre)), new == If(And(done, old != 0), pn(c.pre, "prev_source", old), old)), [new])
contract("relinkObsSources", file=F,
  requires=lambda c: sizes(c) + wf(c.pre, c.a(0)) + [("every vector has choices, each a live projected vector or none", (lambda k, z: forall([k, z], Implies(And(0 <= k, k < lenL(c.pre, c.a(0)), 0 <= z, z < nZ(c.pre)), (lambda x: And(obsS(c.pre, x) != 0, (lambda y: Or(y == 0, is_node(c.pre, y)))(c.pre.P(obsS(c.pre, x))[z])))(nodeL(c.pre, c.a(0), k))), [c.pre.P(obsS(c.pre, nodeL(c.pre, c.a(0), k)))[z]]))(bound("k"), bound("z"))),
     ("choice arrays exist", (lambda k: forall(k, Implies(And(0 <= k, k < lenL(c.pre, c.a(0))), obsS(c.pre, nodeL(c.pre, c.a(0), k)) != 0), [nodeL(c.pre, c.a(0), k)]))(bound("k")))],
  modifies=lambda c: {"M:ptr": (lambda r: And(bown(c.pre, r) != 0, own(c.pre, bown(c.pre, r)) == c.a(0)))},
  ensures=lambda c: [("every choice points at the previous stage's vector it was projected from", relinked(c, c.post, c.a(0), lenL(c.pre, c.a(0))))],
  loops=[Loop(walk=lambda c: walks(c.a(0)), bound=lambda c: lenL(c.pre, c.a(0)), inv=lambda c: [("relinked so far", relinked(c, c.now, c.a(0), c.k))]),
    Loop(bound=lambda c: nZ(c.pre), mods=lambda c: {"M:ptr": [obsS(c.pre, c.lv("list", "ptr"))]}, inv=lambda c: [("relinked so far", relinked(c, c.now, c.a(0), pos(c.pre, c.lv("list", "ptr")), True, c.k))])])
