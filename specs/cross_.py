"""src/cross-sum.c (P02)."""
from .alpha_ import *
from .proj_ import pn, PNF
F = "src/cross-sum.c"
# MULR(b, n) = b * n, by repeated addition (linear steps for the solver); equality with the product is a proved lemma
MULR = RecFun("MULR", [I], I, lambda b: iv(0), lambda b, i, p: p + b)
MULR_is = Lemma("MULR_is", [I], lambda b, n: MULR(b, n) == b * n, pats=lambda b, n: [MULR(b, n)])
def chc(v, p, z, old):
    """observation choice after merging in operand p: its own choices where it has them, itself if it is a projected vector"""
    o = obsS(v, p)
    return If(o != 0, If(v.P(o)[z] != 0, v.P(o)[z], old), If(z == pn(v, "obs", p), p, old))
def merged(v, p, q, z, old): return chc(v, q, z, chc(v, p, z, old))
def src_ok(v, p, save):
    return And(node_ok(v, p), Implies(And(save, obsS(v, p) == 0), And(0 <= pn(v, "obs", p), pn(v, "obs", p) < nZ(v))))
def choices(v, w, x, p, q, old, n):
    """the first n observation choices of node x (view w) are those of p and q merged over old"""
    z = bound("z")
    return forall(z, Implies(And(0 <= z, z < n), w.P(obsS(w, x))[z] == merged(v, p, q, z, old(z))), [w.P(obsS(w, x))[z]])
def half(c, v, w, x, p, old, n, base):
    z = bound("z")
    return forall(z, Implies(And(0 <= z, z < nZ(c.pre)), w.P(obsS(w, x))[z] == If(z < n, chc(v, p, z, old(z)), old(z))), [w.P(obsS(w, x))[z]])
contract("setAlphaListSources", file=F,
  requires=lambda c: sizes(c) + [("new node", And(c.a(0) != 0, is_node(c.pre, c.a(0)), c.a(0) != c.a(1), c.a(0) != c.a(2))), ("its choice array", node_ok(c.pre, c.a(0))),
     ("first operand", src_ok(c.pre, c.a(1), obsS(c.pre, c.a(0)) != 0)), ("second operand", src_ok(c.pre, c.a(2), obsS(c.pre, c.a(0)) != 0))],
  modifies=lambda c: {fA("first_source"): [c.a(0)], fA("second_source"): [c.a(0)], "M:ptr": [obsS(c.pre, c.a(0))]},
  ensures=lambda c: [("parents recorded", And(pn(c.post, "first_source", c.a(0)) == c.a(1), pn(c.post, "second_source", c.a(0)) == c.a(2))),
     ("each observation points at the operand choice covering it", Implies(obsS(c.pre, c.a(0)) != 0, choices(c.pre, c.post, c.a(0), c.a(1), c.a(2), lambda z: c.pre.P(obsS(c.pre, c.a(0)))[z], nZ(c.pre))))],
  loops=[Loop(bound=lambda c: nZ(c.pre), mods=lambda c: {"M:ptr": [obsS(c.pre, c.a(0))]}, inv=lambda c: [("choices so far", half(c, c.pre, c.now, c.a(0), c.a(1), lambda z: c.at.P(obsS(c.pre, c.a(0)))[z], c.k, None))]),
    Loop(bound=lambda c: nZ(c.pre), mods=lambda c: {"M:ptr": [obsS(c.pre, c.a(0))]}, inv=lambda c: [("choices so far", half(c, c.pre, c.now, c.a(0), c.a(2), lambda z: c.at.P(obsS(c.pre, c.a(0)))[z], c.k, None))])])

def xmember(v, w, V, A, B, save):
    """list V (view w): element q is the sum of one pair, at the position of that pair in first-operand-major order"""
    q, s, z = bound("q"), bound("s"), bound("z"); x = nodeL(w, V, q); p, r = pn(w, "first_source", x), pn(w, "second_source", x)
    g = And(0 <= q, q < lenL(w, V))
    return [("each vector comes from a pair of members", forall(q, Implies(g, And(inlist(v, A, p), inlist(v, B, r))), [x])),
       ("pairs in order, each exactly once", forall(q, Implies(g, q == MULR(lenL(v, B), pos(v, p)) + pos(v, r)), [x])),
       ("components are the sums", forall([q, s], Implies(And(g, 0 <= s, s < nS(v)), vecN(w, x)[s] == vecN(v, p)[s] + vecN(v, r)[s]), [vecN(w, x)[s]])),
       ("action of the first set", forall(q, Implies(g, pn(w, "action", x) == pn(v, "action", A)), [x])),
       ("no choices unless requested", forall(q, Implies(And(g, Not(save)), obsS(w, x) == 0), [x])),
       ("choice array owned", forall(q, Implies(And(g, save), obsS(w, x) >= v.clk), [x])),
       ("choices merged", forall([q, z], Implies(And(g, save, 0 <= z, z < nZ(v)), w.P(obsS(w, x))[z] == merged(v, p, r, z, iv(0))), [w.P(obsS(w, x))[z]])),
       ("other fields unset", forall(q, Implies(g, And(alphaN(w, x) >= v.clk, x >= v.clk, *[pn(w, f, x) == 0 for f in ("prev_source", "witness", "mark", "hook")], pn(w, "obs", x) == -1)), [x]))]
def operand(v, L, save):
    k = bound("k"); x = nodeL(v, L, k)
    return forall(k, Implies(And(0 <= k, k < lenL(v, L)), src_ok(v, x, save)), [x])
def xs_mods(c):
    V = c.lv("V", "ptr"); fr = lambda r: r >= c.pre.clk
    return {fA(f): [V] for f in ("head", "tail", "length")} | {fA(f): fr for f in ("next", "id", "first_source", "second_source", "alpha", "action", "obs", "obs_source", "prev_source", "witness", "mark", "hook")} | {"ghost:seq": [V], "ghost:own": fr, "ghost:pos": fr, "ghost:bown": fr, "M:ptr": fr, "M:real": fr}
def xs_inv(c, n):
    V = c.lv("V", "ptr"); A, B, save = c.a(0), c.a(1), c.a(2) != 0
    return wf(c.now, V) + [("number of pairs so far", lenL(c.now, V) == n), ("list fresh", And(V >= c.pre.clk, V != 0, pn(c.now, "action", V) == pn(c.pre, "action", A)))] + xmember(c.pre, c.now, V, A, B, save)
contract("crossSum", file=F, ghost_writes=G3 + ("bown",),
  requires=lambda c: sizes(c) + wf(c.pre, c.a(0)) + wf(c.pre, c.a(1)) + [("first operand", operand(c.pre, c.a(0), c.a(2) != 0)), ("second operand", operand(c.pre, c.a(1), c.a(2) != 0))],
  ensures=lambda c: [("fresh list", And(c.r >= c.pre.clk, pn(c.post, "action", c.r) == pn(c.pre, "action", c.a(0)))), ("as many vectors as pairs", lenL(c.post, c.r) == MULR(lenL(c.pre, c.a(1)), lenL(c.pre, c.a(0))))] + xmember(c.pre, c.post, c.r, c.a(0), c.a(1), c.a(2) != 0) + wf(c.post, c.r),
  loops=[Loop(walk=lambda c: walks(c.a(0)), bound=lambda c: lenL(c.pre, c.a(0)), mods=xs_mods, inv=lambda c: xs_inv(c, MULR(lenL(c.pre, c.a(1)), c.k))),
    Loop(walk=lambda c: walks(c.a(1)), bound=lambda c: lenL(c.pre, c.a(1)), mods=xs_mods, inv=lambda c: xs_inv(c, MULR(lenL(c.pre, c.a(1)), pos(c.pre, c.lv("a", "ptr"))) + c.k)),
    Loop(bound=lambda c: nS(c.pre), mods=lambda c: {"M:real": [c.lv("alpha", "ptr")]}, inv=lambda c: (lambda s, al: [("sums so far", forall(s, Implies(And(0 <= s, s < c.k), c.now.D(al)[s] == vecN(c.pre, c.lv("a", "ptr"))[s] + vecN(c.pre, c.lv("b", "ptr"))[s]), [c.now.D(al)[s]]))])(bound("s"), c.lv("alpha", "ptr")))])
C["crossSum"].local_names = {"V", "a", "b", "alpha"}
def single(c, v, V, n, k):
    x, a = nodeL(v, V, k), nodeL(c.pre, c.a(0), k)
    return [("action of the set", forall(k, Implies(And(0 <= k, k < n), pn(v, "action", x) == pn(c.pre, "action", c.a(0))), [x])),
            ("choice is the projected vector", forall(k, Implies(And(0 <= k, k < n), And(obsS(v, x) >= c.pre.clk, v.P(obsS(v, x))[0] == a)), [x]))]
def samevecs(c, v, V, k):
    x, a = nodeL(v, V, k), nodeL(c.pre, c.a(0), k)
    return [("same vectors in the same order, in fresh memory", forall(k, Implies(And(0 <= k, k < lenL(c.pre, c.a(0))), And(x >= c.pre.clk, alphaN(v, x) >= c.pre.clk, eqvec(vecN(v, x), vecN(c.pre, a), nS(c.pre)))), [x]))]
def nocho(c, v, V, k0, k):
    x = nodeL(v, V, k)
    return forall(k, Implies(And(k0 <= k, k < lenL(c.pre, c.a(0))), obsS(v, x) == 0), [x])
def so_gbown(c):
    o = obsS(c.now, nodeL(c.now, c.lv("V", "ptr"), c.k))
    return {"bown": z3.Store(c.now.gh("bown"), o, nodeL(c.now, c.lv("V", "ptr"), c.k))}
contract("singleObsCrossSum", file=F, ghost_writes=G3 + ("bown",),
  requires=lambda c: sizes(c) + wf(c.pre, c.a(0)) + [("set header unlinked", nxt(c.pre, c.a(0)) == 0)],
  ensures=lambda c: [("fresh list", c.r >= c.pre.clk), ("same number of vectors", lenL(c.post, c.r) == lenL(c.pre, c.a(0)))] + samevecs(c, c.post, c.r, bound("k")) + single(c, c.post, c.r, lenL(c.pre, c.a(0)), bound("k")) + wf(c.post, c.r),
  loops=[Loop(walk=lambda c: walks(c.a(0)) + walks(c.lv("V", "ptr")), bound=lambda c: lenL(c.pre, c.a(0)), gw=("bown",), ghost=so_gbown,
    mods=lambda c: {fA("action"): (lambda r: And(r >= c.pre.clk, own(c.at, r) == c.lv("V", "ptr"))), fA("obs_source"): (lambda r: And(r >= c.pre.clk, own(c.at, r) == c.lv("V", "ptr"))), "ghost:bown": (lambda r: r >= c.at.clk), "M:ptr": (lambda r: r >= c.at.clk)},
    inv=lambda c: (lambda V: [("choice arrays so far", (lambda k: forall(k, Implies(And(0 <= k, k < c.k), obsS(c.now, nodeL(c.at, V, k)) >= c.at.clk), [nodeL(c.at, V, k)]))(bound("k")))] + single(c, c.now, V, c.k, bound("k")) + [("others without choices", nocho(c, c.now, V, c.k, bound("k")))] + wf(c.now, V))(c.lv("V", "ptr")))])
C["singleObsCrossSum"].local_names = {"V", "a", "v"}
