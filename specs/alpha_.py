from .lib import *
F = "src/alpha.c"
def unowned(v, r): return And(own(v, r) == 0, bown(v, r) == 0)
def n_(c): return nS(c.pre)

contract("newAlpha", file=F, requires=lambda c: [("states", nS(c.pre) >= 0)],
  ensures=lambda c: [("fresh array of gNumStates", And(c.r >= c.pre.clk, arr_ok(c.post, c.r, nS(c.pre)))), ("unowned", unowned(c.post, c.r))])

def _dup_ens(c):
    k = bound("k"); s = c.a(0)
    return [("null copies to null", Implies(s == 0, c.r == 0)),
            ("fresh array of gNumStates", Implies(s != 0, And(c.r >= c.pre.clk, arr_ok(c.post, c.r, nS(c.pre)), unowned(c.post, c.r)))),
            ("same components", Implies(s != 0, forall(k, Implies(And(0 <= k, k < nS(c.pre)), c.post.D(c.r)[k] == c.pre.D(s)[k]), [c.post.D(c.r)[k]])))]
contract("duplicateAlpha", file=F,
  requires=lambda c: sizes(c) + [("source array", Implies(c.a(0) != 0, arr_ok(c.pre, c.a(0), nS(c.pre))))],
  ensures=_dup_ens,
  loops=[Loop(bound=lambda c: nS(c.pre),
    mods=lambda c: {"M:real": [c.lv("temp", "ptr")]},
    inv=lambda c: [("prefix copied", (lambda k: forall(k, Implies(And(0 <= k, k < c.k), c.now.D(c.lv("temp"))[k] == c.pre.D(c.a(0))[k]), [c.now.D(c.lv("temp"))[k]]))(bound()))])])

contract("copyAlpha", file=F,
  requires=lambda c: sizes(c) + [("source array", Implies(c.a(1) != 0, arr_ok(c.pre, c.a(1), nS(c.pre)))), ("destination array", Implies(c.a(0) != 0, arr_ok(c.pre, c.a(0), nS(c.pre))))],
  modifies=lambda c: {"M:real": [c.a(0)]},
  ensures=lambda c: (lambda k: [("components copied", Implies(And(c.a(0) != 0, c.a(1) != 0), forall(k, Implies(And(0 <= k, k < nS(c.pre)), c.post.D(c.a(0))[k] == c.pre.D(c.a(1))[k]), [c.post.D(c.a(0))[k]]))),
                                ("nothing done on null", Implies(Or(c.a(0) == 0, c.a(1) == 0), c.post.m("M:real") == c.pre.m("M:real")))])(bound()),
  loops=[Loop(bound=lambda c: nS(c.pre),
    inv=lambda c: (lambda k: [("prefix copied", forall(k, Implies(And(0 <= k, k < nS(c.pre)), c.now.D(c.a(0))[k] == If(k < c.k, c.pre.D(c.a(1))[k], c.pre.D(c.a(0))[k])), [c.now.D(c.a(0))[k]]))])(bound()))])

def twoarr(c, i=0, j=1): return [("first vector", arr_ok(c.pre, c.a(i), nS(c.pre))), ("second vector", arr_ok(c.pre, c.a(j), nS(c.pre)))]

def same(v, a, b, n, e):
    k = bound("k")
    return forall(k, Implies(And(0 <= k, k < n), eqe(v.D(a)[k], v.D(b)[k], e)), [v.D(a)[k]])
contract("sameAlpha", file=F,
  requires=lambda c: sizes(c) + [("first vector", Implies(c.a(0) != 0, arr_ok(c.pre, c.a(0), nS(c.pre)))), ("second vector", Implies(c.a(1) != 0, arr_ok(c.pre, c.a(1), nS(c.pre))))],
  ensures=lambda c: [("boolean", Or(c.r == 0, c.r == 1)),
     ("both null are the same", Implies(And(c.a(0) == 0, c.a(1) == 0), c.r == 1)),
     ("one null differs", Implies((c.a(0) == 0) != (c.a(1) == 0), c.r == 0)),
     ("true iff every component agrees within epsilon", Implies(And(c.a(0) != 0, c.a(1) != 0), (c.r == 1) == same(c.pre, c.a(0), c.a(1), nS(c.pre), c.a(2))))],
  loops=[Loop(bound=lambda c: nS(c.pre), inv=lambda c: [("prefix agrees", same(c.pre, c.a(0), c.a(1), c.k, c.a(2)))])])

def iszero(v, a, n, e):
    k = bound("k")
    return forall(k, Implies(And(0 <= k, k < n), eqe(v.D(a)[k], rv(0), e)), [v.D(a)[k]])
contract("isZeroAlpha", file=F,
  requires=lambda c: sizes(c) + [("vector", Implies(c.a(0) != 0, arr_ok(c.pre, c.a(0), nS(c.pre))))],
  ensures=lambda c: [("null is zero", Implies(c.a(0) == 0, c.r == 1)), ("boolean", Or(c.r == 0, c.r == 1)),
     ("true iff every component is within epsilon of zero", Implies(c.a(0) != 0, (c.r == 1) == iszero(c.pre, c.a(0), nS(c.pre), c.a(1))))],
  loops=[Loop(bound=lambda c: nS(c.pre), inv=lambda c: [("prefix zero", iszero(c.pre, c.a(0), c.k, c.a(1)))])])

contract("isLexicographicallyBetterAlpha", file=F,
  requires=lambda c: sizes(c) + twoarr(c) ,
  ensures=lambda c: [("boolean", Or(c.r == 0, c.r == 1)), ("true iff larger at the first differing component", (c.r == 1) == lexbetter(c.pre.D(c.a(0)), c.pre.D(c.a(1)), nS(c.pre), c.a(2)))],
  loops=[Loop(bound=lambda c: nS(c.pre), inv=lambda c: [("prefix equal", same(c.pre, c.a(0), c.a(1), c.k, c.a(2)))])])
contract("isDominatedVector", file=F,
  requires=lambda c: sizes(c) + twoarr(c),
  ensures=lambda c: (lambda k: [("boolean", Or(c.r == 0, c.r == 1)), ("true only if strictly larger in every component",
     Implies(c.r == 1, forall(k, Implies(And(0 <= k, k < nS(c.pre)), c.pre.D(c.a(0))[k] > c.pre.D(c.a(1))[k]), [c.pre.D(c.a(0))[k]]))),
     ("false only if some component is not larger", Implies(c.r == 0, z3.Exists([k], And(0 <= k, k < nS(c.pre), Not(c.pre.D(c.a(0))[k] > c.pre.D(c.a(1))[k])), patterns=[c.pre.D(c.a(0))[k]])))])(bound()),
  loops=[Loop(bound=lambda c: nS(c.pre), inv=lambda c: (lambda k: [("prefix dominated", forall(k, Implies(And(0 <= k, k < c.k), c.pre.D(c.a(0))[k] > c.pre.D(c.a(1))[k]), [c.pre.D(c.a(0))[k]]))])(bound()))])

# ---------------------------------------------------------------- obs_source arrays
contract("newObsSourceArray", file=F, requires=sizes,
  ensures=lambda c: (lambda k: [("fresh array of gNumObservations nulls", And(c.r >= c.pre.clk, arr_ok(c.post, c.r, nZ(c.pre), 'ptr'), unowned(c.post, c.r), forall(k, Implies(And(0 <= k, k < nZ(c.pre)), c.post.P(c.r)[k] == 0), [c.post.P(c.r)[k]])))])(bound()))
contract("duplicateObsSourceArray", file=F,
  requires=lambda c: sizes(c) + [("source", arr_ok(c.pre, c.a(0), nZ(c.pre), 'ptr'))],
  ensures=lambda c: (lambda k: [("fresh array", And(c.r >= c.pre.clk, arr_ok(c.post, c.r, nZ(c.pre), 'ptr'), unowned(c.post, c.r))),
       ("same pointers", forall(k, Implies(And(0 <= k, k < nZ(c.pre)), c.post.P(c.r)[k] == c.pre.P(c.a(0))[k]), [c.post.P(c.r)[k]]))])(bound()),
  loops=[Loop(bound=lambda c: nZ(c.pre), mods=lambda c: {"M:ptr": [c.lv("new_obs_source", "ptr")]},
     inv=lambda c: (lambda k: [("prefix", forall(k, Implies(And(0 <= k, k < c.k), c.now.P(c.lv("new_obs_source", "ptr"))[k] == c.pre.P(c.a(0))[k]), [c.now.P(c.lv("new_obs_source", "ptr"))[k]]))])(bound()))])

# ---------------------------------------------------------------- nodes
NEWF = dict(id=-1, obs=-1, prev_source=0, next=0, obs_source=0, first_source=0, second_source=0, witness=0, mark=0, hook=0)
def fresh_node(c, r):
    return [("fresh node", And(r >= c.pre.clk, is_node(c.post, r)))]
def na_pre(c): return [("vector unowned", Implies(c.a(0) != 0, And(c.a(0) > 0, c.pre.valid(c.a(0)), KIND(c.a(0)) == E.kind_of("real"), bown(c.pre, c.a(0)) == 0, own(c.pre, c.a(0)) == 0)))]
def na_ens(c, skip=()):
    return fresh_node(c, c.r) + [("given vector and action", And(c.post.f(AL + ".alpha", c.r) == c.a(0), c.post.f(AL + ".action", c.r) == c.a(1))),
     ("all other fields unset", And(*[c.post.f(AL + "." + f, c.r) == v for f, v in NEWF.items() if f not in skip])),
     ("unowned", And(own(c.post, c.r) == 0, bown(c.post, c.r) == 0)), ("owns the vector", Implies(c.a(0) != 0, bown(c.post, c.a(0)) == c.r))]
contract("newAlphaNode", file=F, requires=na_pre, modifies=lambda c: {"ghost:bown": [c.a(0)]}, ghost_writes=("bown",),
  ghost_exit=lambda c: {"bown": If(c.a(0) != 0, z3.Store(c.now.gh("bown"), c.a(0), c.r), c.now.gh("bown"))},
  ensures=na_ens)
contract("newAlphaNodeObsSource", file=F, requires=lambda c: sizes(c) + na_pre(c), modifies=lambda c: {"ghost:bown": [c.a(0)]}, ghost_writes=("bown",),
  ghost_exit=lambda c: {"bown": z3.Store(c.now.gh("bown"), c.now.f(AL + ".obs_source", c.r), c.r)},
  ensures=lambda c: na_ens(c, ("obs_source",)) +
     [("fresh null choice array", (lambda k, o: And(o >= c.pre.clk, o != c.r, o != c.a(0), arr_ok(c.post, o, nZ(c.pre), 'ptr'), bown(c.post, o) == c.r, forall(k, Implies(And(0 <= k, k < nZ(c.pre)), c.post.P(o)[k] == 0), [c.post.P(o)[k]])))(bound(), c.post.f(AL + ".obs_source", c.r)))])

def live_or_null(v, p): return Or(p == 0, v.valid(p))
def node_blocks(v, p):
    """what destroyAlphaNode frees"""
    return [v.f(AL + ".alpha", p), v.f(AL + ".obs_source", p), v.f(AL + ".witness", p), p]
contract("destroyAlphaNode", file=F,
  requires=lambda c: sizes(c) + [("node well formed", node_ok(c.pre, c.a(0)))],
  modifies=lambda c: {"freed": [b for b in node_blocks(c.pre, c.a(0))], fA("obs_source"): [c.a(0)], fA("witness"): [c.a(0)], fA("alpha"): [c.a(0)]},
  ensures=lambda c: [("node released", Not(c.post.valid(c.a(0))))])

def upd_append(c, L, p):
    n = lenL(c.pre, L)
    return {"seq": z3.Store(c.now.gh("seq"), L, z3.Store(Sel(c.now.gh("seq"), L), n, p)),
            "own": z3.Store(c.now.gh("own"), p, L), "pos": z3.Store(c.now.gh("pos"), p, n)}
def append_mods(c, L, p):
    n = lenL(c.pre, L)
    t = If(n > 0, tailL(c.pre, L), iv(0))
    return {fA("next"): [t], fA("id"): [p], fA("head"): [L], fA("tail"): [L], fA("length"): [L],
            "ghost:seq": [L], "ghost:own": [p], "ghost:pos": [p]}
def append_ens(c, L, p):
    n = lenL(c.pre, L)
    return [("one longer", lenL(c.post, L) == n + 1),
            ("appended at the end, rest unchanged", And(seqL(c.post, L) == z3.Store(seqL(c.pre, L), n, p), own(c.post, p) == L, pos(c.post, p) == n)),
            ("id follows the previous tail", c.post.f(AL + ".id", p) == If(n == 0, iv(0), c.pre.f(AL + ".id", tailL(c.pre, L)) + 1))]
def appendable(c, L, p):
    return [("node well formed", node_ok(c.pre, p)), ("node is not the header", p != L), ("node not in this list already", own(c.pre, p) != L), ("node unlinked", nxt(c.pre, p) == 0)]
G3 = ("seq", "own", "pos")
for nm in ("appendNodeToAlphaList", "enqueueAlphaNode"):
    contract(nm, file=F, requires=lambda c: sizes(c) + wf(c.pre, c.a(0)) + appendable(c, c.a(0), c.a(1)),
      modifies=lambda c: append_mods(c, c.a(0), c.a(1)), ghost_writes=G3, ghost_exit=(lambda c: upd_append(c, c.a(0), c.a(1))) if nm == "appendNodeToAlphaList" else None,
      ensures=lambda c: append_ens(c, c.a(0), c.a(1)) + wf(c.post, c.a(0)))

def upd_prepend(c):
    L, p = c.a(0), c.a(1); s = seqL(c.now, L); o = c.now
    ns = defmap(c.now.st, AI, lambda i: If(i == 0, p, s[i - 1]), "seqp")
    npos = defmap(c.now.st, AI, lambda r: If(r == p, iv(0), If(own(o, r) == L, pos(o, r) + 1, pos(o, r))), "posp")
    return {"seq": z3.Store(o.gh("seq"), L, ns), "own": z3.Store(o.gh("own"), p, L), "pos": npos}
contract("prependNodeToAlphaList", file=F,
  requires=lambda c: sizes(c) + wf(c.pre, c.a(0)) + [x for x in appendable(c, c.a(0), c.a(1))],
  modifies=lambda c: {fA("next"): [c.a(1)], fA("id"): [c.a(1)], fA("head"): [c.a(0)], fA("tail"): [c.a(0)], fA("length"): [c.a(0)],
     "ghost:seq": [c.a(0)], "ghost:own": [c.a(1)], "ghost:pos": (lambda r: Or(r == c.a(1), own(c.pre, r) == c.a(0)))},
  ghost_writes=G3, ghost_exit=upd_prepend,
  ensures=lambda c: (lambda k, L: [("one longer", lenL(c.post, L) == lenL(c.pre, L) + 1),
      ("placed first", nodeL(c.post, L, iv(0)) == c.a(1)),
      ("others shifted by one", forall(k, Implies(And(1 <= k, k <= lenL(c.pre, L)), nodeL(c.post, L, k) == nodeL(c.pre, L, k - 1)), [nodeL(c.post, L, k)])),
      ("id precedes the previous head", c.post.f(AL + ".id", c.a(1)) == If(lenL(c.pre, L) == 0, iv(0), c.pre.f(AL + ".id", headL(c.pre, L)) - 1))] + wf(c.post, L))(bound(), c.a(0)))

def upd_remove(c, L, p, j):
    """node p at index j leaves the list"""
    o = c.now; s = seqL(o, L)
    ns = defmap(o.st, AI, lambda i: If(i < j, s[i], s[i + 1]), "seqr")
    npos = defmap(o.st, AI, lambda r: If(And(own(o, r) == L, pos(o, r) > j), pos(o, r) - 1, pos(o, r)), "posr")
    return {"seq": z3.Store(o.gh("seq"), L, ns), "own": z3.Store(o.gh("own"), p, iv(0)), "pos": npos}
def removed_ens(c, L, p, j, cond):
    k = bound()
    return [("one shorter", Implies(cond, lenL(c.post, L) == lenL(c.pre, L) - 1)),
            ("others keep their order", Implies(cond, forall(k, Implies(And(0 <= k, k < lenL(c.pre, L) - 1), nodeL(c.post, L, k) == If(k < j, nodeL(c.pre, L, k), nodeL(c.pre, L, k + 1))), [nodeL(c.post, L, k)]))),
            ("other members stay members", Implies(cond, (lambda q: forall(q, Implies(And(inlist(c.pre, L, q), q != p), And(inlist(c.post, L, q), pos(c.post, q) == pos(c.pre, q) - If(pos(c.pre, q) < j, iv(0), iv(1)))), [own(c.post, q)]))(bound("q")))),
            ("removed node is unlinked and unowned", Implies(cond, And(nxt(c.post, p) == 0, own(c.post, p) == 0)))]
def remove_mods(c, L, p, j):
    return {fA("next"): [p, If(j > 0, nodeL(c.pre, L, j - 1), iv(0))], fA("head"): [L], fA("tail"): [L], fA("length"): [L],
            "ghost:seq": [L], "ghost:own": [p], "ghost:pos": (lambda r: own(c.pre, r) == L)}
def upd_deq(c):
    L = c.a(0); n = lenL(c.pre, L)
    u = upd_remove(c, L, c.r, iv(0))
    return {k: If(n > 0, v, c.now.gh(k)) for k, v in u.items()}
contract("dequeueAlphaNode", file=F, requires=lambda c: sizes(c) + wf(c.pre, c.a(0)),
  modifies=lambda c: remove_mods(c, c.a(0), If(lenL(c.pre, c.a(0)) > 0, nodeL(c.pre, c.a(0), iv(0)), iv(0)), iv(0)),
  ghost_writes=G3, ghost_exit=upd_deq,
  ensures=lambda c: [("first node, or null when empty", c.r == If(lenL(c.pre, c.a(0)) > 0, nodeL(c.pre, c.a(0), iv(0)), iv(0))),
       ("empty list unchanged", Implies(lenL(c.pre, c.a(0)) == 0, lenL(c.post, c.a(0)) == 0))] +
       removed_ens(c, c.a(0), c.r, iv(0), lenL(c.pre, c.a(0)) > 0) + wf(c.post, c.a(0)))

def upd_ext(c):
    L, p = c.a(0), c.a(1)
    u = upd_remove(c, L, p, pos(c.pre, p)); cond = And(p != 0, inlist(c.pre, L, p))
    return {k: If(cond, v, c.now.gh(k)) for k, v in u.items()}
def ext_cond(c): return And(c.a(1) != 0, inlist(c.pre, c.a(0), c.a(1)))
contract("extractAlphaNode", file=F, requires=lambda c: sizes(c) + wf(c.pre, c.a(0)) + [("node live or null", Or(c.a(1) == 0, is_node(c.pre, c.a(1))))],
  modifies=lambda c: {k: (v if callable(v) else [If(ext_cond(c), x, iv(0)) for x in v]) for k, v in remove_mods(c, c.a(0), c.a(1), pos(c.pre, c.a(1))).items()},
  ghost_writes=G3, ghost_exit=upd_ext,
  ensures=lambda c: [("returns the node iff it is in the list", c.r == If(ext_cond(c), c.a(1), iv(0))),
      ("list untouched otherwise", Implies(Not(ext_cond(c)), And(lenL(c.post, c.a(0)) == lenL(c.pre, c.a(0)), seqL(c.post, c.a(0)) == seqL(c.pre, c.a(0)), c.post.gh("pos") == c.pre.gh("pos"))))] +
      removed_ens(c, c.a(0), c.a(1), pos(c.pre, c.a(1)), ext_cond(c)) + wf(c.post, c.a(0)),
  loops=[Loop(walk=lambda c: walks(c.a(0)), bound=lambda c: lenL(c.pre, c.a(0)) - 1,
     inv=lambda c: (lambda k: [("not found yet", forall(k, Implies(And(0 <= k, k <= c.k), nodeL(c.pre, c.a(0), k) != c.a(1)), [nodeL(c.pre, c.a(0), k)]))])(bound()))])

# ---------------------------------------------------------------- more nodes
def freshvec(c, r, src):
    """r is a fresh array holding a copy of src (entry state)"""
    k = bound("k")
    return And(r >= c.pre.clk, arr_ok(c.post, r, nS(c.pre)), forall(k, Implies(And(0 <= k, k < nS(c.pre)), c.post.D(r)[k] == c.pre.D(src)[k]), [c.post.D(r)[k]]))
def dupnode_ens(c, r, src, owner=0):
    p, q = c.pre, c.post; o = q.f(AL + ".obs_source", r); so = obsS(p, src); k = bound("k")
    return [("fresh node", And(r >= p.clk, is_node(q, r))),
            ("vector copied", freshvec(c, alphaN(q, r), alphaN(p, src))),
            ("action and sources copied", And(*[q.f(AL + "." + f, r) == p.f(AL + "." + f, src) for f in ("action", "prev_source", "obs", "first_source", "second_source")])),
            ("choices copied to a new array", If(so == 0, o == 0, And(o >= p.clk, o != alphaN(q, r), arr_ok(q, o, nZ(p), 'ptr'), forall(k, Implies(And(0 <= k, k < nZ(p)), q.P(o)[k] == p.P(so)[k]), [q.P(o)[k]]))))]
contract("duplicateAlphaNode", file=F,
  requires=lambda c: sizes(c) + [("node well formed", node_ok(c.pre, c.a(0))), ("no witness to share", witN(c.pre, c.a(0)) == 0)],
  ghost_writes=("bown",),
  ghost_exit=lambda c: {"bown": If(obsS(c.now, c.r) != 0, z3.Store(c.now.gh("bown"), obsS(c.now, c.r), c.r), c.now.gh("bown"))},
  ensures=lambda c: dupnode_ens(c, c.r, c.a(0)) + [("well formed, in no list", And(node_ok(c.post, c.r), own(c.post, c.r) == 0, nxt(c.post, c.r) == 0)), ("id copied", c.post.f(AL + ".id", c.r) == c.pre.f(AL + ".id", c.a(0))),
      ("unset fields", And(*[c.post.f(AL + "." + f, c.r) == 0 for f in ("mark", "hook", "witness")]))],
  loops=[Loop(bound=lambda c: nZ(c.pre), mods=lambda c: {"M:ptr": [obsS(c.at, c.lv("new_node", "ptr"))]},
    inv=lambda c: (lambda k, o: [("prefix copied", forall(k, Implies(And(0 <= k, k < c.k), c.now.P(o)[k] == c.pre.P(obsS(c.pre, c.a(0)))[k]), [c.now.P(o)[k]]))])(bound(), obsS(c.at, c.lv("new_node", "ptr"))))])
contract("appendDuplicateNodeToAlphaList", file=F,
  requires=lambda c: sizes(c) + wf(c.pre, c.a(0)) + [("node well formed", node_ok(c.pre, c.a(1))), ("no witness to share", witN(c.pre, c.a(1)) == 0)],
  modifies=lambda c: append_mods(c, c.a(0), iv(0)), ghost_writes=G3 + ("bown",),
  ensures=lambda c: dupnode_ens(c, c.r, c.a(1)) + [x for x in append_ens(c, c.a(0), c.r)] + wf(c.post, c.a(0)) + [("unset fields", And(*[c.post.f(AL + "." + f, c.r) == 0 for f in ("mark", "hook", "witness")]))])
contract("addWitnessToAlphaNode", file=F,
  requires=lambda c: sizes(c) + [("node well formed", node_ok(c.pre, c.a(0))), ("witness point", And(c.a(1) != 0, arr_ok(c.pre, c.a(1), nS(c.pre)), c.a(1) != witN(c.pre, c.a(0))))],
  modifies=lambda c: {fA("witness"): [c.a(0)], "freed": [witN(c.pre, c.a(0))]}, ghost_writes=("bown",),
  ghost_exit=lambda c: {"bown": z3.Store(c.now.gh("bown"), witN(c.now, c.a(0)), c.a(0))},
  ensures=lambda c: [("witness is a fresh copy", freshvec(c, witN(c.post, c.a(0)), c.a(1))), ("node well formed", node_ok(c.post, c.a(0)))],
  loops=[Loop(bound=lambda c: nS(c.pre), mods=lambda c: {"M:real": [witN(c.at, c.a(0))]},
    inv=lambda c: (lambda k, w: [("prefix copied", forall(k, Implies(And(0 <= k, k < c.k), c.now.D(w)[k] == c.pre.D(c.a(1))[k]), [c.now.D(w)[k]]))])(bound(), witN(c.at, c.a(0))))])

# ---------------------------------------------------------------- lists
HDRF = dict(head=0, tail=0, length=0, alpha=0, action=-1, obs=-1, id=-1, next=0, obs_source=0, prev_source=0, first_source=0, second_source=0, witness=0, mark=0, hook=0)
def hdr_reset(c, r): return [("header reset", And(*[c.post.f(AL + "." + f, r) == v for f, v in HDRF.items()]))]
contract("initAlphaList", file=F,
  requires=lambda c: sizes(c) + [("header live", And(is_node(c.pre, c.a(0)), own(c.pre, c.a(0)) == 0, bown(c.pre, c.a(0)) == 0))],
  modifies=lambda c: {fA(f): [c.a(0)] for f in HDRF},
  ensures=lambda c: hdr_reset(c, c.a(0)) + wf(c.post, c.a(0)))
contract("newAlphaList", file=F, requires=sizes,
  ensures=lambda c: [("fresh header", And(c.r >= c.pre.clk, is_node(c.post, c.r))), ("no vector belongs to it", (lambda p: forall(p, own(c.post, p) != c.r, [own(c.post, p)]))(bound("p")))] + hdr_reset(c, c.r) + wf(c.post, c.r))
contract("renumberAlphaList", file=F,
  requires=lambda c: sizes(c) + wf(c.pre, c.a(0)),
  modifies=lambda c: {fA("id"): (lambda r: own(c.pre, r) == c.a(0))},
  ensures=lambda c: (lambda k: [("ids are positions", forall(k, Implies(And(0 <= k, k < lenL(c.pre, c.a(0))), c.post.f(AL + ".id", nodeL(c.pre, c.a(0), k)) == k), [nodeL(c.pre, c.a(0), k)]))] )(bound()) + wf(c.post, c.a(0)),
  loops=[Loop(walk=lambda c: walks(c.a(0)), bound=lambda c: lenL(c.pre, c.a(0)),
    inv=lambda c: (lambda k: [("prefix numbered", forall(k, Implies(And(0 <= k, k < c.k), c.now.f(AL + ".id", nodeL(c.pre, c.a(0), k)) == k), [nodeL(c.pre, c.a(0), k)]))])(bound()))])
def addlist_pre(c): return [("vector", And(c.a(1) > 0, arr_ok(c.pre, c.a(1), nS(c.pre)), bown(c.pre, c.a(1)) == 0, own(c.pre, c.a(1)) == 0))]
def newnode_ens(c):
    return [("fresh node", And(c.r >= c.pre.clk, is_node(c.post, c.r))), ("given vector and action", And(c.post.f(AL + ".alpha", c.r) == c.a(1), c.post.f(AL + ".action", c.r) == c.a(2))),
       ("unset fields", And(*[c.post.f(AL + "." + f, c.r) == v for f, v in NEWF.items() if f not in ("id", "next")]))]
contract("appendAlphaList", file=F,
  requires=lambda c: sizes(c) + wf(c.pre, c.a(0)) + addlist_pre(c),
  modifies=lambda c: dict(append_mods(c, c.a(0), iv(0)), **{"ghost:bown": [c.a(1)]}), ghost_writes=G3 + ("bown",),
  ensures=lambda c: newnode_ens(c) + append_ens(c, c.a(0), c.r) + [("owns the vector", bown(c.post, c.a(1)) == c.r)] + wf(c.post, c.a(0)))
contract("prependAlphaList", file=F,
  requires=lambda c: sizes(c) + wf(c.pre, c.a(0)) + addlist_pre(c),
  modifies=lambda c: {fA("head"): [c.a(0)], fA("tail"): [c.a(0)], fA("length"): [c.a(0)],
     "ghost:seq": [c.a(0)], "ghost:pos": (lambda r: own(c.pre, r) == c.a(0)), "ghost:bown": [c.a(1)]}, ghost_writes=G3 + ("bown",),
  ensures=lambda c: (lambda k, L: newnode_ens(c) + [("one longer", lenL(c.post, L) == lenL(c.pre, L) + 1), ("placed first", nodeL(c.post, L, iv(0)) == c.r),
      ("others shifted by one", forall(k, Implies(And(1 <= k, k <= lenL(c.pre, L)), nodeL(c.post, L, k) == nodeL(c.pre, L, k - 1)), [nodeL(c.post, L, k)]))] + wf(c.post, L))(bound(), c.a(0)))
def blocks_of(v, L):
    return lambda r: Or(own(v, r) == L, And(bown(v, r) != 0, own(v, bown(v, r)) == L))
def wfh(v, L):
    """wf, or a header whose nodes were handed on (no first node; the length may be stale)"""
    w = wf(v, L); return w[:1] + [(l, Implies(headL(v, L) != 0, f)) for l, f in w[1:]]
def hlen(v, L): return If(headL(v, L) == 0, iv(0), lenL(v, L))
def hblocks(v, L): b = blocks_of(v, L); return lambda r: And(headL(v, L) != 0, b(r))
def hwalks(L): return [lambda k, v: If(And(headL(v, L) != 0, 0 <= k, k < lenL(v, L)), nodeL(v, L, k), iv(0))]
contract("clearAlphaList", file=F,
  requires=lambda c: sizes(c) + wfh(c.pre, c.a(0)),
  modifies=lambda c: dict({fA(f): [c.a(0)] for f in HDRF}, **{"freed": hblocks(c.pre, c.a(0)), **{fA(f): (lambda r: Or(r == c.a(0), And(headL(c.pre, c.a(0)) != 0, own(c.pre, r) == c.a(0)))) for f in ("alpha", "obs_source", "witness")}}),
  ensures=lambda c: (lambda k: hdr_reset(c, c.a(0)) + wf(c.post, c.a(0)) + [("every node released", forall(k, Implies(And(0 <= k, k < hlen(c.pre, c.a(0))), Not(c.post.valid(nodeL(c.pre, c.a(0), k)))), [nodeL(c.pre, c.a(0), k)]))])(bound()),
  loops=[Loop(walk=lambda c: hwalks(c.a(0)), bound=lambda c: hlen(c.pre, c.a(0)),
     inv=lambda c: (lambda k, L: [("rest intact", forall(k, Implies(And(c.k <= k, k < hlen(c.pre, L)), node_ok(c.now, nodeL(c.pre, L, k))), [nodeL(c.pre, L, k)])),
        ("prefix released", forall(k, Implies(And(0 <= k, k < c.k), Not(c.now.valid(nodeL(c.pre, L, k)))), [nodeL(c.pre, L, k)])),
        ("header live", c.now.valid(L)), ("nodes kept", forall(k, Implies(And(0 <= k, k < hlen(c.pre, L)), nxt(c.now, nodeL(c.pre, L, k)) == nxt(c.pre, nodeL(c.pre, L, k))), [nxt(c.now, nodeL(c.pre, L, k))]))])(bound(), c.a(0)))])
contract("destroyAlphaList", file=F,
  requires=lambda c: sizes(c) + wfh(c.pre, c.a(0)),
  modifies=lambda c: dict({fA(f): [c.a(0)] for f in HDRF}, **{"freed": (lambda r: Or(r == c.a(0), hblocks(c.pre, c.a(0))(r))), **{fA(f): (lambda r: Or(r == c.a(0), And(headL(c.pre, c.a(0)) != 0, own(c.pre, r) == c.a(0)))) for f in ("alpha", "obs_source", "witness")}}),
  ensures=lambda c: [("header released", Not(c.post.valid(c.a(0))))])

# ---------------------------------------------------------------- value lookup (P03)
def bv_val(v, L, k, b): return dot(v.D(b), vecN(v, nodeL(v, L, k)), nS(v))
def bv_post(v, L, b, best, val, init, eps, n, finite=False):
    """the value/vector the lookup returns, over the first n list elements"""
    k = bound("k"); j = bound("j")
    bd = dot(v.D(b), vecN(v, best), nS(v))
    return [("no vector of the set is worth more than the value returned by more than epsilon", forall(k, Implies(And(0 <= k, k < n), bv_val(v, L, k, b) <= val + eps), [nodeL(v, L, k)])),
            ("value never below the initial value", val >= init),
            ("nothing better than the initial value returns no vector", Implies(best == 0, val == init)),
            ("the vector returned is in the set", Implies(best != 0, And(own(v, best) == L, 0 <= pos(v, best), pos(v, best) < n, nodeL(v, L, pos(v, best)) == best))),
            ("the vector returned attains the value returned within epsilon", Implies(best != 0, And(bd <= val + eps, val <= bd + eps))),
            ("the value returned beats the initial value", Implies(best != 0, val >= init + eps)),
            ("the value returned is attained exactly by some vector of the set", Implies(best != 0, z3.Exists([j], And(0 <= j, j < n, bv_val(v, L, j, b) == val), patterns=[nodeL(v, L, j)]))),
            ("ties go to the lexicographically larger vector", Implies(best != 0, forall(k, Implies(And(pos(v, best) < k, k < n, eqe(bv_val(v, L, k, b), val, eps)), Not(lexbetter(vecN(v, nodeL(v, L, k)), vecN(v, best), nS(v), eps))), [nodeL(v, L, k)])))]
mxv = RecFun("mxv", [AI, AI, AAR, I, AR, R], R, lambda sq, AF, DM, N, b, x: x, lambda sq, AF, DM, N, b, x, j, p: (lambda d: If(d > p, d, p))(dot(b, Sel(DM, AF[sq[j]]), N)))
def top(v, L, bp, n, init=None): return mxv(seqL(v, L), v.m(fA("alpha")), v.m("M:real"), nS(v), v.D(bp), -INF if init is None else init, n)
def bv_max(c, r, init, eps, n): t = top(c.pre, c.a(0), c.a(1), n, init); return [("the value returned is the maximum over the set, short of it by at most epsilon", And(r <= t, t <= r + eps))]
def bv_pre(c, i=0):
    return sizes(c) + wf(c.pre, c.a(0)) + [("belief array", And(c.a(1) != 0, arr_ok(c.pre, c.a(1), nS(c.pre))))]
def out_cell(v, p, kind): return And(p != 0, v.valid(p) if not (z3.is_int_value(p)) else TRUE, LEN(p) >= 1)
def cellp(v, p): return v.P(p)[0]
contract("bestVectorValuePrimed", file=F,
  requires=lambda c: bv_pre(c) + [("result cell", out_cell(c.pre, c.a(2), "ptr")), ("epsilon non-negative", c.a(4) >= 0)],
  modifies=lambda c: {"M:ptr": [c.a(2)]},
  ensures=lambda c: bv_post(c.pre, c.a(0), c.a(1), c.post.P(c.a(2))[0], c.r, c.a(3), c.a(4), lenL(c.pre, c.a(0))) + bv_max(c, c.r, c.a(3), c.a(4), lenL(c.pre, c.a(0))),
  loops=[Loop(walk=lambda c: walks(c.a(0)), bound=lambda c: lenL(c.pre, c.a(0)),
      inv=lambda c: bv_post(c.pre, c.a(0), c.a(1), c.now.P(c.a(2))[0], c.lv("cur_best_value", "real"), c.a(3), c.a(4), c.k) + bv_max(c, c.lv("cur_best_value", "real"), c.a(3), c.a(4), c.k)),
    Loop(bound=lambda c: nS(c.pre), inv=lambda c: [("dot product prefix", c.lv("cur_value", "real") == dot(c.pre.D(c.a(1)), vecN(c.pre, c.lv("list", "ptr")), c.k))])])
contract("bestVectorValue", file=F,
  requires=lambda c: bv_pre(c) + [("result cell", out_cell(c.pre, c.a(2), "ptr")), ("epsilon non-negative", c.a(3) >= 0)],
  modifies=lambda c: {"M:ptr": [c.a(2)]},
  ensures=lambda c: bv_post(c.pre, c.a(0), c.a(1), c.post.P(c.a(2))[0], c.r, -INF, c.a(3), lenL(c.pre, c.a(0))) + bv_max(c, c.r, -INF, c.a(3), lenL(c.pre, c.a(0))))
contract("bestVectorPrimed", file=F,
  requires=lambda c: bv_pre(c) + [("result cell", out_cell(c.pre, c.a(2), "real")), ("epsilon non-negative", c.a(4) >= 0)],
  modifies=lambda c: {"M:real": [c.a(2)]},
  ensures=lambda c: bv_post(c.pre, c.a(0), c.a(1), c.r, c.post.D(c.a(2))[0], c.a(3), c.a(4), lenL(c.pre, c.a(0))))
def finite_vals(v, L, b, eps):
    k = bound("k")
    return forall(k, Implies(And(0 <= k, k < lenL(v, L)), bv_val(v, L, k, b) > eps - INF), [nodeL(v, L, k)])
contract("bestVector", file=F,
  requires=lambda c: bv_pre(c) + [("result cell", out_cell(c.pre, c.a(2), "real")), ("epsilon non-negative", c.a(3) >= 0)],
  modifies=lambda c: {"M:real": [c.a(2)]},
  note="values are finite (below HUGE_VAL in magnitude)", hints=lambda c: [finite_vals(c.pre, c.a(0), c.a(1), c.a(3)), Implies(lenL(c.pre, c.a(0)) > 0, nodeL(c.pre, c.a(0), iv(0)) == nodeL(c.pre, c.a(0), iv(0)))],
  ensures=lambda c: bv_post(c.pre, c.a(0), c.a(1), c.r, c.post.D(c.a(2))[0], -INF, c.a(3), lenL(c.pre, c.a(0))) +
     [("a non-empty set always yields a vector", Implies(lenL(c.pre, c.a(0)) > 0, c.r != 0))])

# ---------------------------------------------------------------- membership and comparison of sets
def samev(v, x, a, e): return same(v, alphaN(v, x), a, nS(v), e)
contract("findAlphaVector", file=F,
  requires=lambda c: sizes(c) + wf(c.pre, c.a(0)) + [("vector", And(c.a(1) != 0, arr_ok(c.pre, c.a(1), nS(c.pre))))],
  ensures=lambda c: (lambda k: [("found node is in the set and equal within epsilon", Implies(c.r != 0, And(inlist(c.pre, c.a(0), c.r), samev(c.pre, c.r, c.a(1), c.a(2))))),
      ("it is the first such node", Implies(c.r != 0, forall(k, Implies(And(0 <= k, k < pos(c.pre, c.r)), Not(samev(c.pre, nodeL(c.pre, c.a(0), k), c.a(1), c.a(2)))), [nodeL(c.pre, c.a(0), k)]))),
      ("null only if no vector of the set is equal", Implies(c.r == 0, forall(k, Implies(And(0 <= k, k < lenL(c.pre, c.a(0))), Not(samev(c.pre, nodeL(c.pre, c.a(0), k), c.a(1), c.a(2)))), [nodeL(c.pre, c.a(0), k)])))])(bound()),
  loops=[Loop(walk=lambda c: walks(c.a(0)), bound=lambda c: lenL(c.pre, c.a(0)),
     inv=lambda c: (lambda k: [("none so far", forall(k, Implies(And(0 <= k, k < c.k), Not(samev(c.pre, nodeL(c.pre, c.a(0), k), c.a(1), c.a(2)))), [nodeL(c.pre, c.a(0), k)]))])(bound()))])
def member(v, L, a, e):
    k = bound("k")
    return z3.Exists([k], And(0 <= k, k < lenL(v, L), samev(v, nodeL(v, L, k), a, e)), patterns=[nodeL(v, L, k)])
contract("queryAlphaList", file=F,
  requires=lambda c: sizes(c) + wf(c.pre, c.a(0)) + [("vector", And(c.a(1) != 0, arr_ok(c.pre, c.a(1), nS(c.pre))))],
  ensures=lambda c: [("boolean", Or(c.r == 0, c.r == 1)), ("true iff some vector of the set is equal within epsilon", (c.r == 1) == member(c.pre, c.a(0), c.a(1), c.a(2)))])
contract("sizeAlphaList", file=F, requires=lambda c: sizes(c) + wf(c.pre, c.a(0)), ensures=lambda c: [("number of vectors", c.r == lenL(c.pre, c.a(0)))])
contract("sameAlphaList", file=F, requires=lambda c: sizes(c) + wf(c.pre, c.a(0)) + wf(c.pre, c.a(1)),
  ensures=lambda c: (lambda k: [("boolean", Or(c.r == 0, c.r == 1)), ("true iff equal vectors in equal order", (c.r == 1) == And(lenL(c.pre, c.a(0)) == lenL(c.pre, c.a(1)),
      forall(k, Implies(And(0 <= k, k < lenL(c.pre, c.a(0))), samev(c.pre, nodeL(c.pre, c.a(0), k), alphaN(c.pre, nodeL(c.pre, c.a(1), k)), c.a(2))), [nodeL(c.pre, c.a(0), k)])))])(bound()),
  loops=[Loop(walk=lambda c: walks(c.a(0)) + walks(c.a(1)), bound=lambda c: lenL(c.pre, c.a(0)),
     inv=lambda c: (lambda k: [("prefix equal", forall(k, Implies(And(0 <= k, k < c.k), samev(c.pre, nodeL(c.pre, c.a(0), k), alphaN(c.pre, nodeL(c.pre, c.a(1), k)), c.a(2))), [nodeL(c.pre, c.a(0), k)]))])(bound()))])
def subset(v, L, M, n, e):
    k = bound("k")
    return forall(k, Implies(And(0 <= k, k < n), member(v, M, alphaN(v, nodeL(v, L, k)), e)), [nodeL(v, L, k)])
contract("similarAlphaList", file=F, requires=lambda c: sizes(c) + wf(c.pre, c.a(0)) + wf(c.pre, c.a(1)),
  ensures=lambda c: [("boolean", Or(c.r == 0, c.r == 1)), ("true iff each set contains an equal of every vector of the other", (c.r == 1) == And(lenL(c.pre, c.a(0)) == lenL(c.pre, c.a(1)),
     subset(c.pre, c.a(0), c.a(1), lenL(c.pre, c.a(0)), c.a(2)), subset(c.pre, c.a(1), c.a(0), lenL(c.pre, c.a(1)), c.a(2))))],
  loops=[Loop(walk=lambda c: walks(c.a(0)), bound=lambda c: lenL(c.pre, c.a(0)), inv=lambda c: [("prefix contained", subset(c.pre, c.a(0), c.a(1), c.k, c.a(2)))]),
         Loop(walk=lambda c: walks(c.a(1)), bound=lambda c: lenL(c.pre, c.a(1)), inv=lambda c: [("prefix contained", subset(c.pre, c.a(1), c.a(0), c.k, c.a(2)))])])

# ---------------------------------------------------------------- copies
def copied(c, v, D, S, n, k):
    """first n vectors of D (view v) are fresh copies of those of S (entry state)"""
    x = nodeL(v, D, k)
    return forall(k, Implies(And(0 <= k, k < n), And(x >= c.pre.clk, alphaN(v, x) >= c.pre.clk, v.f(AL + ".action", x) == c.pre.f(AL + ".action", nodeL(c.pre, S, k)), eqvec(v.D(alphaN(v, x)), vecN(c.pre, nodeL(c.pre, S, k)), nS(c.pre)),
        witN(v, x) == 0, obsS(v, x) == 0, *[v.f(AL + "." + f, x) == c.pre.f(AL + "." + f, nodeL(c.pre, S, k)) for f in COPIED])), [x])
COPIED = ("id", "obs", "prev_source", "first_source", "second_source", "mark", "hook")
def eqvec(a, b, n):
    k = bound("i")
    return forall(k, Implies(And(0 <= k, k < n), a[k] == b[k]), [a[k]])
COPYF = ("id", "obs", "prev_source", "next", "first_source", "second_source", "mark", "hook", "length", "head", "tail", "obs_source", "witness", "action", "alpha")
contract("copyAlphaList", file=F,
  requires=lambda c: sizes(c) + wf(c.pre, c.a(1)) + [("destination header", And(is_node(c.pre, c.a(0)), own(c.pre, c.a(0)) == 0, bown(c.pre, c.a(0)) == 0, c.a(0) != c.a(1))), ("source header unlinked", nxt(c.pre, c.a(1)) == 0)],
  modifies=lambda c: dict({fA(f): [c.a(0)] for f in COPYF}, **{"ghost:seq": [c.a(0)]}), ghost_writes=G3 + ("bown",),
  ensures=lambda c: [("same number of vectors", lenL(c.post, c.a(0)) == lenL(c.pre, c.a(1))), ("same vectors with all their own fields in the same order, in fresh memory", copied(c, c.post, c.a(0), c.a(1), lenL(c.pre, c.a(1)), bound()))] + wf(c.post, c.a(0)) +
     [("header action and observation copied", And(*[c.post.f(AL + "." + f, c.a(0)) == c.pre.f(AL + "." + f, c.a(1)) for f in ("action", "obs", "next")]))],
  loops=[Loop(walk=lambda c: walks(c.a(1)), bound=lambda c: lenL(c.pre, c.a(1)),
     inv=lambda c: [("copied so far", lenL(c.now, c.a(0)) == c.k), ("prefix copied", copied(c, c.now, c.a(0), c.a(1), c.k, bound()))] + wf(c.now, c.a(0)) + wf(c.now, c.a(1)) +
       [("header kept", And(*[c.now.f(AL + "." + f, c.a(0)) == c.pre.f(AL + "." + f, c.a(1)) for f in ("action", "obs", "next")]))])])
contract("duplicateAlphaList", file=F,
  requires=lambda c: sizes(c) + wf(c.pre, c.a(0)) + [("source header unlinked", nxt(c.pre, c.a(0)) == 0)], ghost_writes=G3 + ("bown",),
  ensures=lambda c: [("fresh list", And(c.r >= c.pre.clk, nxt(c.post, c.r) == 0)), ("same number of vectors", lenL(c.post, c.r) == lenL(c.pre, c.a(0))), ("same vectors with all their own fields in the same order, in fresh memory", copied(c, c.post, c.r, c.a(0), lenL(c.pre, c.a(0)), bound())),
      ("header action and observation copied", And(*[c.post.f(AL + "." + f, c.r) == c.pre.f(AL + "." + f, c.a(0)) for f in ("action", "obs")]))] + wf(c.post, c.r))
SCALE = z3.Function("value_scale", R, R, R, I, R, R)
contract("clearObsSourceAlphaList", file=F, requires=lambda c: sizes(c) + [("list", Or(c.a(0) == 0, conj(wf(c.pre, c.a(0)))))],
  modifies=lambda c: {fA("obs_source"): (lambda r: And(c.a(0) != 0, own(c.pre, r) == c.a(0))), "freed": (lambda r: And(c.a(0) != 0, own(c.pre, bown(c.pre, r)) == c.a(0)))},
  ensures=lambda c: (lambda k: [("well formed", Or(c.a(0) == 0, conj(wf(c.post, c.a(0))))), ("choices cleared", Implies(c.a(0) != 0, forall(k, Implies(And(0 <= k, k < lenL(c.pre, c.a(0))), obsS(c.post, nodeL(c.pre, c.a(0), k)) == 0), [nodeL(c.pre, c.a(0), k)])))])(bound()),
  loops=[Loop(walk=lambda c: walks(c.a(0)), bound=lambda c: lenL(c.pre, c.a(0)),
    inv=lambda c: (lambda k: [("prefix cleared", forall(k, Implies(And(0 <= k, k < c.k), obsS(c.now, nodeL(c.pre, c.a(0), k)) == 0), [nodeL(c.pre, c.a(0), k)]))] + wf(c.now, c.a(0)))(bound()))])

# ---------------------------------------------------------------- union
def upd_union(c):
    L, M = c.a(0), c.a(1); o = c.now; n, m = lenL(c.pre, L), lenL(c.pre, M)
    cond = And(L != 0, M != 0, m != 0)
    ns = defmap(o.st, AI, lambda i: If(i < n, nodeL(c.pre, L, i), nodeL(c.pre, M, i - n)), "sequ")
    no = defmap(o.st, AI, lambda r: If(own(c.pre, r) == M, L, own(c.pre, r)), "ownu")
    np = defmap(o.st, AI, lambda r: If(own(c.pre, r) == M, pos(c.pre, r) + n, pos(c.pre, r)), "posu")
    return {"seq": If(cond, z3.Store(o.gh("seq"), L, ns), o.gh("seq")), "own": If(cond, no, o.gh("own")), "pos": If(cond, np, o.gh("pos"))}
def un_cond(c): return And(c.a(0) != 0, c.a(1) != 0, lenL(c.pre, c.a(1)) != 0)
contract("unionTwoAlphaLists", file=F,
  requires=lambda c: sizes(c) + [("first list", Or(c.a(0) == 0, conj(wf(c.pre, c.a(0))))), ("second list", Or(c.a(1) == 0, conj(wf(c.pre, c.a(1))))), ("different lists", Or(c.a(0) == 0, c.a(0) != c.a(1)))],
  modifies=lambda c: {**{fA(f): [c.a(0)] for f in ("head", "tail", "length")}, fA("next"): [If(And(un_cond(c), lenL(c.pre, c.a(0)) > 0), tailL(c.pre, c.a(0)), iv(0))], "freed": [If(un_cond(c), c.a(1), iv(0))], "ghost:seq": [c.a(0)],
     "ghost:own": (lambda r: And(c.a(1) != 0, own(c.pre, r) == c.a(1))), "ghost:pos": (lambda r: And(c.a(1) != 0, own(c.pre, r) == c.a(1)))}, ghost_writes=G3, ghost_exit=upd_union,
  ensures=lambda c: (lambda k, L, M: [("length is the sum", Implies(un_cond(c), lenL(c.post, L) == lenL(c.pre, L) + lenL(c.pre, M))),
      ("first list then second list, in order", Implies(un_cond(c), forall(k, Implies(And(0 <= k, k < lenL(c.pre, L) + lenL(c.pre, M)), nodeL(c.post, L, k) == If(k < lenL(c.pre, L), nodeL(c.pre, L, k), nodeL(c.pre, M, k - lenL(c.pre, L)))), [nodeL(c.post, L, k)]))),
      ("nothing changes when there is nothing to add", Implies(Not(un_cond(c)), And(c.post.m(fA("length")) == c.pre.m(fA("length")), c.post.m(fA("next")) == c.pre.m(fA("next")), c.post.gh("seq") == c.pre.gh("seq"), c.post.gh("own") == c.pre.gh("own"), c.post.gh("pos") == c.pre.gh("pos")))),
      ("result well formed", Or(L == 0, conj(wf(c.post, L))))])(bound(), c.a(0), c.a(1)))
contract("appendUniqueAlphaList", file=F,
  requires=lambda c: sizes(c) + wf(c.pre, c.a(0)) + addlist_pre(c),
  modifies=lambda c: dict(append_mods(c, c.a(0), iv(0)), **{"ghost:bown": [c.a(1)]}), ghost_writes=G3 + ("bown",),
  ensures=lambda c: (lambda mem: [("null iff already present", (c.r == 0) == mem), ("unchanged if already present", Implies(mem, And(lenL(c.post, c.a(0)) == lenL(c.pre, c.a(0)), seqL(c.post, c.a(0)) == seqL(c.pre, c.a(0)))))] +
     [(l, Implies(Not(mem), f)) for l, f in newnode_ens(c) + append_ens(c, c.a(0), c.r)] + wf(c.post, c.a(0)))(member(c.pre, c.a(0), c.a(1), c.a(3))))

# ---------------------------------------------------------------- domination and marks
def domvec(v, x, y):
    k = bound("i")
    return forall(k, Implies(And(0 <= k, k < nS(v)), v.D(x)[k] > v.D(y)[k]), [v.D(x)[k]])
contract("dominatedAlphaList", file=F, requires=lambda c: sizes(c) + wf(c.pre, c.a(1)) + [("vector", And(c.a(0) != 0, arr_ok(c.pre, c.a(0), nS(c.pre))))],
  ensures=lambda c: (lambda k: [("boolean", Or(c.r == 0, c.r == 1)), ("true only if some vector of the set dominates it", Implies(c.r == 1, z3.Exists([k], And(0 <= k, k < lenL(c.pre, c.a(1)), domvec(c.pre, alphaN(c.pre, nodeL(c.pre, c.a(1), k)), c.a(0))), patterns=[nodeL(c.pre, c.a(1), k)]))),
     ("false only if none does", Implies(c.r == 0, forall(k, Implies(And(0 <= k, k < lenL(c.pre, c.a(1))), Not(domvec(c.pre, alphaN(c.pre, nodeL(c.pre, c.a(1), k)), c.a(0)))), [nodeL(c.pre, c.a(1), k)])))])(bound()),
  loops=[Loop(walk=lambda c: walks(c.a(1)), bound=lambda c: lenL(c.pre, c.a(1)), inv=lambda c: (lambda k: [("none so far", forall(k, Implies(And(0 <= k, k < c.k), Not(domvec(c.pre, alphaN(c.pre, nodeL(c.pre, c.a(1), k)), c.a(0)))), [nodeL(c.pre, c.a(1), k)]))])(bound()))])
def mk(v, p): return v.f(AL + ".mark", p)
for nm, val in (("clearMarkAlphaList", 0), ("markAllAlphaList", 1)):
    contract(nm, file=F, requires=lambda c: sizes(c) + [("list", Or(c.a(0) == 0, conj(wf(c.pre, c.a(0)))))],
      modifies=lambda c: {fA("mark"): (lambda r: And(c.a(0) != 0, own(c.pre, r) == c.a(0)))},
      ensures=lambda c, val=val: (lambda k: [("every mark set", Implies(c.a(0) != 0, forall(k, Implies(And(0 <= k, k < lenL(c.pre, c.a(0))), mk(c.post, nodeL(c.pre, c.a(0), k)) == val), [nodeL(c.pre, c.a(0), k)])))])(bound()),
      loops=[Loop(walk=lambda c: walks(c.a(0)), bound=lambda c: lenL(c.pre, c.a(0)), inv=lambda c, val=val: (lambda k: [("prefix", forall(k, Implies(And(0 <= k, k < c.k), mk(c.now, nodeL(c.pre, c.a(0), k)) == val), [nodeL(c.pre, c.a(0), k)]))])(bound()))])
# number of unmarked nodes among the first n
unmk = RecFun("unmk", [AI, AI], I, lambda s, m: iv(0), lambda s, m, i, p: p + If(m[s[i]] == 0, iv(1), iv(0)))
um_b = Lemma("um_b", [AI, AI], lambda s, m, n: And(0 <= unmk(s, m, n), unmk(s, m, n) <= n), pats=lambda s, m, n: [unmk(s, m, n)])
um_mono = Lemma("um_mono", [AI, AI, I], lambda s, m, j, n: Implies(And(0 <= j, j < n), And(unmk(s, m, j) + If(m[s[j]] == 0, iv(1), iv(0)) <= unmk(s, m, n), j - unmk(s, m, j) + If(m[s[j]] == 0, iv(0), iv(1)) <= n - unmk(s, m, n))))
def um_at(c, n):
    """um_mono for every j at n"""
    j = bound("j"); s, m = seqL(c.pre, c.a(0)), c.pre.m(fA("mark"))
    return And(um_b.all(), forall(j, um_mono(s, m, j, n), [s[j]]))
contract("sizeUnmarkedAlphaList", file=F, requires=lambda c: sizes(c) + wf(c.pre, c.a(0)),
  ensures=lambda c: [("number of unmarked nodes", c.r == unmk(seqL(c.pre, c.a(0)), c.pre.m(fA("mark")), lenL(c.pre, c.a(0))))],
  loops=[Loop(walk=lambda c: walks(c.a(0)), bound=lambda c: lenL(c.pre, c.a(0)), inv=lambda c: [("count so far", c.lv("count", "int") == unmk(seqL(c.pre, c.a(0)), c.pre.m(fA("mark")), c.k))])])
contract("allMarkedAlphaList", file=F, requires=lambda c: sizes(c) + [("list", Or(c.a(0) == 0, conj(wf(c.pre, c.a(0)))))],
  ensures=lambda c: (lambda k: [("boolean", Or(c.r == 0, c.r == 1)), ("null list", Implies(c.a(0) == 0, c.r == 1)), ("true iff every node is marked", Implies(c.a(0) != 0, (c.r == 1) == forall(k, Implies(And(0 <= k, k < lenL(c.pre, c.a(0))), mk(c.pre, nodeL(c.pre, c.a(0), k)) != 0), [nodeL(c.pre, c.a(0), k)])))])(bound()),
  loops=[Loop(walk=lambda c: walks(c.a(0)), bound=lambda c: lenL(c.pre, c.a(0)), inv=lambda c: (lambda k: [("all so far", forall(k, Implies(And(0 <= k, k < c.k), mk(c.pre, nodeL(c.pre, c.a(0), k)) != 0), [nodeL(c.pre, c.a(0), k)]))])(bound()))])
contract("findUnmarkedVector", file=F, requires=lambda c: sizes(c) + wf(c.pre, c.a(0)),
  ensures=lambda c: (lambda k: [("an unmarked node of the set", Implies(c.r != 0, And(inlist(c.pre, c.a(0), c.r), mk(c.pre, c.r) == 0))), ("the first one", Implies(c.r != 0, forall(k, Implies(And(0 <= k, k < pos(c.pre, c.r)), mk(c.pre, nodeL(c.pre, c.a(0), k)) != 0), [nodeL(c.pre, c.a(0), k)]))),
     ("null iff all are marked", Implies(c.r == 0, forall(k, Implies(And(0 <= k, k < lenL(c.pre, c.a(0))), mk(c.pre, nodeL(c.pre, c.a(0), k)) != 0), [nodeL(c.pre, c.a(0), k)])))])(bound()),
  loops=[Loop(walk=lambda c: walks(c.a(0)), bound=lambda c: lenL(c.pre, c.a(0)), inv=lambda c: (lambda k: [("all so far marked", forall(k, Implies(And(0 <= k, k < c.k), mk(c.pre, nodeL(c.pre, c.a(0), k)) != 0), [nodeL(c.pre, c.a(0), k)]))])(bound()))])
contract("markDominatedAlphaList", file=F, requires=lambda c: sizes(c) + wf(c.pre, c.a(1)) + [("vector", And(c.a(0) != 0, arr_ok(c.pre, c.a(0), nS(c.pre))))],
  modifies=lambda c: {fA("mark"): (lambda r: own(c.pre, r) == c.a(1))},
  ensures=lambda c: (lambda k: [("exactly the dominated vectors become marked", forall(k, Implies(And(0 <= k, k < lenL(c.pre, c.a(1))), mk(c.post, nodeL(c.pre, c.a(1), k)) == If(And(mk(c.pre, nodeL(c.pre, c.a(1), k)) != 1, domvec(c.pre, c.a(0), alphaN(c.pre, nodeL(c.pre, c.a(1), k)))), iv(1), mk(c.pre, nodeL(c.pre, c.a(1), k)))), [nodeL(c.pre, c.a(1), k)]))])(bound()),
  loops=[Loop(walk=lambda c: walks(c.a(1)), bound=lambda c: lenL(c.pre, c.a(1)),
    inv=lambda c: (lambda k: [("prefix", forall(k, Implies(And(0 <= k, k < lenL(c.pre, c.a(1))), mk(c.now, nodeL(c.pre, c.a(1), k)) == If(And(k < c.k, mk(c.pre, nodeL(c.pre, c.a(1), k)) != 1, domvec(c.pre, c.a(0), alphaN(c.pre, nodeL(c.pre, c.a(1), k)))), iv(1), mk(c.pre, nodeL(c.pre, c.a(1), k)))), [nodeL(c.pre, c.a(1), k)]))])(bound()))])

# ---------------------------------------------------------------- scaled copy
VSCALE = z3.Function("value_scale", I, B, R, R, I, R)
contract("getValueScaleFactor", file="src/pomdp.c",
  requires=lambda c: [("discount is a probability", And(c.pre.g("gDiscount") >= 0, c.pre.g("gDiscount") <= 1))],
  ensures=lambda c: [("no scaling unless rewards were shifted to be non-negative", Implies(Or(c.pre.g("gRequireNonNegativeRewards") == 0, c.pre.g("gMinimumImmediateReward") >= 0), c.r == 0))])
contract("makeScaledAlphaList", file=F,
  requires=lambda c: sizes(c) + wf(c.pre, c.a(0)) + [("source header unlinked", nxt(c.pre, c.a(0)) == 0), ("discount is a probability", And(c.pre.g("gDiscount") >= 0, c.pre.g("gDiscount") <= 1))], ghost_writes=G3 + ("bown",),
  ensures=lambda c: (lambda k, x, i: [("fresh list", c.r >= c.pre.clk), ("same number of vectors", lenL(c.post, c.r) == lenL(c.pre, c.a(0))),
      ("every vector shifted by the same amount", z3.Exists([x], And(Implies(Or(c.pre.g("gRequireNonNegativeRewards") == 0, c.pre.g("gMinimumImmediateReward") >= 0), x == 0),
          forall(k, Implies(And(0 <= k, k < lenL(c.pre, c.a(0))), And(nodeL(c.post, c.r, k) >= c.pre.clk, c.post.f(AL + ".action", nodeL(c.post, c.r, k)) == c.pre.f(AL + ".action", nodeL(c.pre, c.a(0), k)),
             forall(i, Implies(And(0 <= i, i < nS(c.pre)), vecN(c.post, nodeL(c.post, c.r, k))[i] == vecN(c.pre, nodeL(c.pre, c.a(0), k))[i] + x), [vecN(c.post, nodeL(c.post, c.r, k))[i]]))), [nodeL(c.post, c.r, k)]))))] + wf(c.post, c.r))(bound(), bound("x", R), bound()),
  loops=[Loop(walk=lambda c: walks(c.lv("scaled_list", "ptr")), bound=lambda c: lenL(c.pre, c.a(0)),
     mods=lambda c: {"M:real": (lambda r: r >= c.pre.clk)},
     inv=lambda c: (lambda k, i, L: [("vectors shifted so far", forall([k, i], Implies(And(0 <= k, k < lenL(c.pre, c.a(0)), 0 <= i, i < nS(c.pre)),
         vecN(c.now, nodeL(c.at, L, k))[i] == vecN(c.pre, nodeL(c.pre, c.a(0), k))[i] + If(k < c.k, c.lv("scale_value", "real"), rv(0))), [vecN(c.now, nodeL(c.at, L, k))[i]]))])(bound(), bound(), c.lv("scaled_list", "ptr"))),
   Loop(bound=lambda c: nS(c.pre), mods=lambda c: {"M:real": [alphaN(c.at, c.lv("node", "ptr"))]},
     inv=lambda c: (lambda i: [("components shifted so far", forall(i, Implies(And(0 <= i, i < nS(c.pre)), vecN(c.now, c.lv("node", "ptr"))[i] == vecN(c.at, c.lv("node", "ptr"))[i] + If(i < c.k, c.lv("scale_value", "real"), rv(0))), [vecN(c.now, c.lv("node", "ptr"))[i]]))])(bound()))])
C["makeScaledAlphaList"].local_names = {"scaled_list", "node", "scale_value"}
def haswit(v, L):
    k = bound()
    return forall(k, Implies(And(0 <= k, k < lenL(v, L)), witN(v, nodeL(v, L, k)) != 0), [nodeL(v, L, k)])
contract("duplicateAlphaListWithWitnesses", file=F,
  requires=lambda c: sizes(c) + wf(c.pre, c.a(0)) + [("source header unlinked", nxt(c.pre, c.a(0)) == 0), ("every vector has a witness", haswit(c.pre, c.a(0)))], ghost_writes=G3 + ("bown",),
  ensures=lambda c: (lambda k: [("fresh list", c.r >= c.pre.clk), ("same number of vectors", lenL(c.post, c.r) == lenL(c.pre, c.a(0))),
     ("same vectors, actions and witnesses in the same order, in fresh memory", forall(k, Implies(And(0 <= k, k < lenL(c.pre, c.a(0))), And(nodeL(c.post, c.r, k) >= c.pre.clk, c.post.f(AL + ".action", nodeL(c.post, c.r, k)) == c.pre.f(AL + ".action", nodeL(c.pre, c.a(0), k)),
         eqvec(vecN(c.post, nodeL(c.post, c.r, k)), vecN(c.pre, nodeL(c.pre, c.a(0), k)), nS(c.pre)),
         eqvec(c.post.D(witN(c.post, nodeL(c.post, c.r, k))), c.pre.D(witN(c.pre, nodeL(c.pre, c.a(0), k))), nS(c.pre)))), [nodeL(c.post, c.r, k)]))] + wf(c.post, c.r))(bound()),
  loops=[Loop(walk=lambda c: walks(c.a(0)) + walks(c.lv("new_list", "ptr")), bound=lambda c: lenL(c.pre, c.a(0)),
     mods=lambda c: {fA("witness"): (lambda r: r >= c.pre.clk)},
     inv=lambda c: (lambda k, L: wf(c.now, L) + [("witnesses copied so far", forall(k, Implies(And(0 <= k, k < c.k), And(witN(c.now, nodeL(c.at, L, k)) >= c.at.clk, eqvec(c.now.D(witN(c.now, nodeL(c.at, L, k))), c.pre.D(witN(c.pre, nodeL(c.pre, c.a(0), k))), nS(c.pre)))), [nodeL(c.at, L, k)])),
         ("rest has no witness", forall(k, Implies(And(c.k <= k, k < lenL(c.pre, c.a(0))), witN(c.now, nodeL(c.at, L, k)) == 0), [nodeL(c.at, L, k)]))])(bound(), c.lv("new_list", "ptr")))])
C["duplicateAlphaListWithWitnesses"].local_names = {"new_list"}

# ---------------------------------------------------------------- extraction of marked nodes
def emX(c): return c.lv("extracted_list", "ptr")
def part_inv(c, v, X, n):
    """where the first n nodes of the entry sequence of L are in view v: unmarked still in L, marked in X"""
    L = c.a(0); k = bound(); p = bound("p")
    nd = nodeL(c.pre, L, k); um = lambda i: unmk(seqL(c.pre, L), c.pre.m(fA("mark")), i)
    return [("lengths add up", And(lenL(v, L) + lenL(v, X) == lenL(c.pre, L), lenL(v, X) <= n, lenL(v, X) == n - um(n))),
            ("moved and kept nodes keep their relative order", forall(k, Implies(And(0 <= k, k < n), If(mk(c.pre, nd) != 0, And(pos(v, nd) == k - um(k), nodeL(v, X, k - um(k)) == nd), And(pos(v, nd) == um(k), nodeL(v, L, um(k)) == nd))), [nd])),
            ("marked nodes moved, unmarked nodes kept", forall(k, Implies(And(0 <= k, k < lenL(c.pre, L)), And(own(v, nd) == If(And(k < n, mk(c.pre, nd) != 0), X, L), Implies(k >= n, And(pos(v, nd) == k - lenL(v, X), nodeL(v, L, k - lenL(v, X)) == nd)), Implies(And(k < n, mk(c.pre, nd) == 0), And(0 <= pos(v, nd), pos(v, nd) < n - lenL(v, X))))), [nd])),
            ("nothing else enters the lists", forall(p, Implies(Or(own(v, p) == L, own(v, p) == X), own(c.pre, p) == L), [own(v, p)])),
            ("only members belong to the list of moved nodes", forall(p, Implies(own(v, p) == X, And(0 <= pos(v, p), pos(v, p) < lenL(v, X), nodeL(v, X, pos(v, p)) == p)), [own(v, p)])),
            ("nodes of other lists stay", forall(p, Implies(own(c.pre, p) != L, own(v, p) == own(c.pre, p)), [own(v, p)])),
            ("marks of moved nodes cleared, others kept", forall(k, Implies(And(0 <= k, k < lenL(c.pre, L)), mk(v, nd) == If(k < n, iv(0), mk(c.pre, nd))), [nd]))]
def em_ghost(c):
    """the node just processed (entry index k) left L at its current position, if it was marked"""
    L = c.a(0); X = emX(c); o = c.now
    nd = nodeL(c.pre, L, c.k); j = c.k - (lenL(o, X) - If(mk(c.pre, nd) != 0, iv(1), iv(0)))
    s = seqL(o, L)
    rem = mk(c.pre, nd) != 0
    ns = defmap(o.st, AI, lambda i: If(And(rem, i >= j), s[i + 1], s[i]), "seqm")
    np = defmap(o.st, AI, lambda r: If(And(r != 0, rem, own(o, r) == L, pos(o, r) > j), pos(o, r) - 1, pos(o, r)), "posm")
    return {"seq": z3.Store(o.gh("seq"), L, ns), "pos": np}
contract("extractMarkedAlphaList", file=F,
  requires=lambda c: sizes(c) + wf(c.pre, c.a(0)),
  modifies=lambda c: {**{fA(f): [c.a(0)] for f in ("head", "tail", "length")}, **{fA(f): (lambda r: own(c.pre, r) == c.a(0)) for f in ("next", "mark", "id")}, "ghost:seq": [c.a(0)], "ghost:own": (lambda r: own(c.pre, r) == c.a(0)), "ghost:pos": (lambda r: own(c.pre, r) == c.a(0))},
  ghost_writes=G3,
  ensures=lambda c: [("fresh result list", c.r >= c.pre.clk)] + part_inv(c, c.post, c.r, lenL(c.pre, c.a(0))) + wf(c.post, c.a(0)) + wf(c.post, c.r),
  hints=lambda c: [um_at(c, lenL(c.pre, c.a(0)))],
  loops=[Loop(bound=lambda c: lenL(c.pre, c.a(0)), gw=("seq", "pos"), ghost=em_ghost, hints=lambda c: [um_at(c, c.k)],
     mods=lambda c: {fA("head"): [emX(c)], fA("tail"): [emX(c)], fA("length"): [emX(c)], "ghost:seq": [emX(c)]},
     inv=lambda c: (lambda L, X, q: part_inv(c, c.now, X, c.k) + wf(c.now, L) + wf(c.now, X) +
       [("cursor", c.lv("walk") == If(q < lenL(c.now, L), nodeL(c.now, L, q), iv(0))), ("cursor index", 0 <= q),
        ("trailing pointer", Implies(q > 0, c.lv("trail") == nodeL(c.now, L, q - 1))), ("prefix unmarked", q <= lenL(c.now, L))])(c.a(0), emX(c), c.k - lenL(c.now, emX(c))))])
C["extractMarkedAlphaList"].local_names = {"extracted_list", "walk", "trail"}

# ---------------------------------------------------------------- finding a node and taking it out
def take_mods(c, L):
    mine = lambda r: own(c.pre, r) == L
    return {fA("next"): mine, fA("head"): [L], fA("tail"): [L], fA("length"): [L], "ghost:seq": [L], "ghost:own": mine, "ghost:pos": mine}
def taken_ens(c, L, p, cond):
    """node p left L, everything else stays in order; L untouched when cond fails"""
    q = bound("p"); j = pos(c.pre, p)
    return removed_ens(c, L, p, j, cond) + wf(c.post, L) + [("untouched when nothing is taken out", Implies(Not(cond), And(lenL(c.post, L) == lenL(c.pre, L), seqL(c.post, L) == seqL(c.pre, L)))),
        ("no other node leaves the set", forall(q, Implies(And(own(c.pre, q) == L, Or(Not(cond), q != p)), own(c.post, q) == L), [own(c.post, q)]))]
contract("extractUnmarkedVector", file=F, requires=lambda c: sizes(c) + wf(c.pre, c.a(0)), modifies=lambda c: take_mods(c, c.a(0)), ghost_writes=G3,
  ensures=lambda c: (lambda k, L: [("null iff all are marked", (c.r == 0) == forall(k, Implies(And(0 <= k, k < lenL(c.pre, L)), mk(c.pre, nodeL(c.pre, L, k)) != 0), [nodeL(c.pre, L, k)])),
      ("the first unmarked vector of the set", Implies(c.r != 0, And(inlist(c.pre, L, c.r), node_ok(c.post, c.r), mk(c.pre, c.r) == 0, forall(k, Implies(And(0 <= k, k < pos(c.pre, c.r)), mk(c.pre, nodeL(c.pre, L, k)) != 0), [nodeL(c.pre, L, k)]))))] + taken_ens(c, L, c.r, c.r != 0))(bound(), c.a(0)))
contract("extractFromAlphaList", file=F, requires=lambda c: sizes(c) + wf(c.pre, c.a(0)) + [("vector", And(c.a(1) != 0, arr_ok(c.pre, c.a(1), nS(c.pre))))], modifies=lambda c: take_mods(c, c.a(0)), ghost_writes=G3,
  ensures=lambda c: (lambda L: [("null iff no vector of the set is equal", (c.r != 0) == member(c.pre, L, c.a(1), c.a(2))), ("a vector of the set equal within epsilon", Implies(c.r != 0, And(inlist(c.pre, L, c.r), node_ok(c.post, c.r), samev(c.pre, c.r, c.a(1), c.a(2)))))] + taken_ens(c, L, c.r, c.r != 0))(c.a(0)))
contract("removebestVectorNode", file=F, requires=lambda c: bv_pre(c) + [("epsilon non-negative", c.a(2) >= 0)], modifies=lambda c: take_mods(c, c.a(0)), ghost_writes=G3,
  ensures=lambda c: (lambda L, x, k: [("null iff the set is empty", (c.r == 0) == (lenL(c.pre, L) == 0)),
      ("a vector of the set that is best at the belief within the tolerance", Implies(c.r != 0, And(inlist(c.pre, L, c.r), node_ok(c.post, c.r), forall(k, Implies(And(0 <= k, k < lenL(c.pre, L)), bv_val(c.pre, L, k, c.a(1)) <= dot(c.pre.D(c.a(1)), vecN(c.pre, c.r), nS(c.pre)) + 2 * c.a(2)), [nodeL(c.pre, L, k)]))))] + taken_ens(c, L, c.r, c.r != 0))(c.a(0), None, bound()))
contract("removeFromAlphaList", file=F, requires=lambda c: sizes(c) + wf(c.pre, c.a(0)) + [("vector", And(c.a(1) != 0, arr_ok(c.pre, c.a(1), nS(c.pre))))],
  modifies=lambda c: {**take_mods(c, c.a(0)), "freed": blocks_of(c.pre, c.a(0)), **{fA(f): (lambda r: own(c.pre, r) == c.a(0)) for f in ("alpha", "obs_source", "witness")}}, ghost_writes=G3,
  ensures=lambda c: (lambda L, q: [("0 or 1", Or(c.r == 0, c.r == 1)), ("removes something iff an equal vector is present", (c.r == 1) == member(c.pre, L, c.a(1), c.a(2))), ("at most one vector goes", lenL(c.post, L) == lenL(c.pre, L) - c.r),
       ("a vector that leaves equals the given one", forall(q, Implies(And(own(c.pre, q) == L, own(c.post, q) != L), samev(c.pre, q, c.a(1), c.a(2))), [own(c.post, q)]))] + wf(c.post, L))(c.a(0), bound("q")))
def rm_mods(c, L):
    mine = lambda r: own(c.pre, r) == L
    return {**{fA(f): [L] for f in ("head", "tail", "length")}, **{fA(f): mine for f in ("next", "mark", "id", "alpha", "obs_source", "witness")}, "ghost:seq": [L], "ghost:own": mine, "ghost:pos": mine, "freed": blocks_of(c.pre, L)}
def rm_ens(c, L, m):
    """exactly the nodes with mark m != 0 leave; the rest keep order and contents"""
    k = bound(); s = seqL(c.pre, L); nd = s[k]; n = lenL(c.pre, L); um = lambda i: unmk(s, m, i)
    return [("number removed", And(c.r == n - um(n), lenL(c.post, L) == um(n))),
            ("every other vector stays, in order, with its contents", forall(k, Implies(And(0 <= k, k < n, m[nd] == 0), And(own(c.post, nd) == L, pos(c.post, nd) == um(k), nodeL(c.post, L, um(k)) == nd, alphaN(c.post, nd) == alphaN(c.pre, nd), obsS(c.post, nd) == obsS(c.pre, nd), witN(c.post, nd) == witN(c.pre, nd))), [nd])),
            ("the marked vectors leave", forall(k, Implies(And(0 <= k, k < n, m[nd] != 0), own(c.post, nd) != L), [nd]))] + wf(c.post, L)
contract("removeMarkedAlphaList", file=F, requires=lambda c: sizes(c) + wf(c.pre, c.a(0)), modifies=lambda c: rm_mods(c, c.a(0)), ghost_writes=G3, hints=lambda c: [um_b.all()], ensures=lambda c: rm_ens(c, c.a(0), c.pre.m(fA("mark"))))
contract("removeDominatedAlphaList", file=F, requires=lambda c: sizes(c) + wf(c.pre, c.a(1)) + [("vector", And(c.a(0) != 0, arr_ok(c.pre, c.a(0), nS(c.pre)), own(c.pre, bown(c.pre, c.a(0))) != c.a(1)))], modifies=lambda c: rm_mods(c, c.a(1)), ghost_writes=G3, hints=lambda c: [um_b.all()],
  ensures=lambda c: (lambda L, k: [("fewer vectors by the number returned", And(c.r >= 0, lenL(c.post, L) == lenL(c.pre, L) - c.r)),
     ("exactly the vectors smaller than the given one in every state leave", (lambda nd: forall(k, Implies(And(0 <= k, k < lenL(c.pre, L)), And((own(c.post, nd) == L) == Not(domvec(c.pre, c.a(0), alphaN(c.pre, nd))), Implies(own(c.post, nd) == L, And(alphaN(c.post, nd) == alphaN(c.pre, nd), obsS(c.post, nd) == obsS(c.pre, nd), nodeL(c.post, L, pos(c.post, nd)) == nd)))), [nd]))(nodeL(c.pre, L, k)))] + wf(c.post, L))(c.a(1), bound()))

# ---------------------------------------------------------------- sorting (P22)
GHOSTS["qix"] = AI          # node -> its index in the array being sorted
SORT_EPS = z3.Q(10000000000000001, 10**31)      # the literal 1e-15 as clang prints it
LB = Opaque("LB", [AR, AR, I], B, lambda a, b, n: lexbetter(a, b, n, SORT_EPS))
lb_asym = Lemma("lb_asym", [AR, AR, I], lambda a, b, n: Implies(LB(a, b, n), Not(LB(b, a, n))), pats=lambda a, b, n: [LB(a, b, n)], induct=False, extra=lambda a, b, n: [LB.reveal()])
def qix(v, p): return Sel(v.gh("qix"), p)
def two(c): x, y = c.arg(0), c.arg(1); return x.b, x.o, y.b, y.o
contract("swapPointersAlphaList", file=F, interior=(0, 1), ghost_writes=("qix",),
  requires=lambda c: (lambda b, i, b2, j: [("one array", And(b == b2, b != 0, c.pre.valid(b), 0 <= i, i < LEN(b), 0 <= j, j < LEN(b)))])(*two(c)),
  modifies=lambda c: (lambda b, i, b2, j: {"M:ptr": [b], "ghost:qix": [c.pre.P(b)[i], c.pre.P(b)[j]]})(*two(c)),
  ghost_exit=lambda c: (lambda b, i, b2, j: {"qix": z3.Store(z3.Store(c.now.gh("qix"), c.pre.P(b)[i], j), c.pre.P(b)[j], i)})(*two(c)),
  ensures=lambda c: (lambda b, i, b2, j: (lambda x, y: [("the two cells are exchanged and nothing else", c.post.P(b) == z3.Store(z3.Store(c.pre.P(b), i, y), j, x)),
      ("indices follow", c.post.gh("qix") == z3.Store(z3.Store(c.pre.gh("qix"), x, j), y, i))])(c.pre.P(b)[i], c.pre.P(b)[j]))(*two(c)))
def qok(v, A, lo, hi):
    k = bound(); x = v.P(A)[k]
    return [("entries are distinct live vectors", forall(k, Implies(And(lo <= k, k <= hi), And(qix(v, x) == k, is_node(v, x), alphaN(v, x) > 0, arr_ok(v, alphaN(v, x), nS(v)))), [x]))]
def qperm(v, w, A, lo, hi):
    k = bound(); x, y = w.P(A)[k], v.P(A)[k]; g = And(lo <= k, k <= hi)
    return [("entries come from the segment", forall(k, Implies(g, And(qix(w, x) == k, lo <= qix(v, x), qix(v, x) <= hi, v.P(A)[qix(v, x)] == x)), [x])),
            ("no entry of the segment is lost", forall(k, Implies(g, And(qix(v, y) == k, lo <= qix(w, y), qix(w, y) <= hi, w.P(A)[qix(w, y)] == y)), [y])),
            ("the rest of the array stays", forall(k, Implies(Not(g), x == y), [x]))]
def lbn(v, x, y): return LB(vecN(v, x), vecN(v, y), nS(v))
def qsorted(v, w, A, lo, hi):
    k = bound(); return [("no vector is lexicographically smaller than the one before it", forall(k, Implies(And(lo <= k, k < hi), Not(lbn(v, w.P(A)[k], w.P(A)[k + 1]))), [w.P(A)[k]]))]
def qmods(c):
    A, lo, hi = c.a(0), c.a(1), c.a(2)
    return {"M:ptr": [A], "ghost:qix": (lambda r: And(lo <= qix(c.pre, r), qix(c.pre, r) <= hi, c.pre.P(A)[qix(c.pre, r)] == r))}
def qtouch(c):
    k = bound(); A = c.a(0); return And(forall(k, touch(c.pre.P(A)[k]), [c.now.P(A)[k]]), forall(k, touch(c.now.P(A)[k]), [c.pre.P(A)[k]]))
def lb_at(c):
    """LB unfolded for the pivot and the entry about to be examined"""
    A = c.now.P(c.a(0)); x, y = vecN(c.pre, A[c.a(1)]), vecN(c.pre, A[c.a(1) + 1 + c.k])
    return LB(x, y, nS(c.pre)) == lexbetter(x, y, nS(c.pre), SORT_EPS)
contract("quicksortAlphaList", file=F, ghost_writes=("qix",), chain=True,
  requires=lambda c: sizes(c) + [("segment of the array", And(c.a(0) > 0, c.pre.valid(c.a(0)), KIND(c.a(0)) == E.kind_of("ptr"), 0 <= c.a(1), Or(c.a(1) > c.a(2), c.a(2) < LEN(c.a(0)))))] + qok(c.pre, c.a(0), c.a(1), c.a(2)),
  modifies=qmods, hints=lambda c: [lb_asym.all()],
  ensures=lambda c: qperm(c.pre, c.post, c.a(0), c.a(1), c.a(2)) + qsorted(c.pre, c.post, c.a(0), c.a(1), c.a(2)),
  loops=[Loop(bound=lambda c: c.a(2) - c.a(1), mods=lambda c: qmods(c), hints=lambda c: [lb_at(c)],
     inv=lambda c: (lambda A, lo, hi, last, k: qperm(c.pre, c.now, A, lo, hi) + [("split", And(lo <= last, last <= lo + c.k)),
        ("before the split: smaller than the pivot", forall(k, Implies(And(lo < k, k <= last), lbn(c.pre, c.now.P(A)[lo], c.now.P(A)[k])), [c.now.P(A)[k]])),
        ("behind the split: not smaller", forall(k, Implies(And(last < k, k <= lo + c.k), Not(lbn(c.pre, c.now.P(A)[lo], c.now.P(A)[k]))), [c.now.P(A)[k]]))])(c.a(0), c.a(1), c.a(2), c.lv("last", "int"), bound()))])
C["quicksortAlphaList"].local_names = {"last"}
def so_arr(c): return c.lv("array", "ptr")
def so_mods(c):
    L = c.a(0); mine = lambda r: own(c.pre, r) == L
    return {fA("next"): mine, fA("id"): mine, fA("head"): [L], fA("tail"): [L], fA("length"): [L], "ghost:seq": [L], "ghost:own": mine, "ghost:pos": mine, "ghost:qix": mine}
def so_free(c, v, x): return And(node_ok(v, x), own(v, x) == 0, nxt(v, x) == 0, own(c.pre, x) == c.a(0), x != c.a(0))
contract("sortAlphaList", file=F, requires=lambda c: sizes(c) + wf(c.pre, c.a(0)), modifies=so_mods, ghost_writes=G3 + ("qix",),
  ensures=lambda c: (lambda L, k: (lambda x, y: wf(c.post, L) + [("same number of vectors", lenL(c.post, L) == lenL(c.pre, L)),
     ("no vector is lost", forall(k, Implies(And(0 <= k, k < lenL(c.pre, L)), inlist(c.post, L, x)), [x])),
     ("no vector is added", forall(k, Implies(And(0 <= k, k < lenL(c.pre, L)), inlist(c.pre, L, y)), [y])),
     ("numbered from zero", forall(k, Implies(And(0 <= k, k < lenL(c.pre, L)), c.post.f(AL + ".id", y) == k), [y])),
     ("no vector is lexicographically smaller than the one before it", forall(k, Implies(And(0 <= k, k < lenL(c.pre, L) - 1), Not(lbn(c.pre, y, nodeL(c.post, L, k + 1)))), [y]))])(nodeL(c.pre, L, k), nodeL(c.post, L, k)))(c.a(0), bound()),
  loops=[Loop(bound=lambda c: lenL(c.pre, c.a(0)), mods=lambda c: {**so_mods(c), "M:ptr": [so_arr(c)]}, gw=("qix",), ghost=lambda c: {"qix": z3.Store(c.now.gh("qix"), nodeL(c.pre, c.a(0), c.k), c.k)},
     inv=lambda c: (lambda L, A, k: (lambda x: wf(c.now, L) + [("rest of the list", lenL(c.now, L) == lenL(c.pre, L) - c.k),
        ("rest in order", forall(k, Implies(And(c.k <= k, k < lenL(c.pre, L)), And(nodeL(c.now, L, k - c.k) == x, own(c.now, x) == L, pos(c.now, x) == k - c.k)), [x])),
        ("taken out so far", forall(k, Implies(And(0 <= k, k < c.k), And(c.now.P(A)[k] == x, so_free(c, c.now, x), qix(c.now, x) == k)), [x])),
        ("array so far", forall(k, Implies(And(0 <= k, k < c.k), c.now.P(A)[k] == x), [c.now.P(A)[k]]))])(nodeL(c.pre, L, k)))(c.a(0), so_arr(c), bound())),
   Loop(bound=lambda c: lenL(c.pre, c.a(0)), mods=lambda c: so_mods(c),
     inv=lambda c: (lambda L, A, k: (lambda x: wf(c.now, L) + [("number put back", lenL(c.now, L) == c.k),
        ("put back so far", forall(k, Implies(And(0 <= k, k < c.k), And(nodeL(c.now, L, k) == x, own(c.now, x) == L, pos(c.now, x) == k, c.now.f(AL + ".id", x) == k)), [x])),
        ("list so far", forall(k, Implies(And(0 <= k, k < c.k), nodeL(c.now, L, k) == x), [nodeL(c.now, L, k)])),
        ("still to be put back", forall(k, Implies(And(c.k <= k, k < lenL(c.pre, L)), so_free(c, c.now, x)), [x]))])(c.now.P(A)[k]))(c.a(0), so_arr(c), bound()))])
C["sortAlphaList"].local_names = {"array"}
