"""src/pg.c: policy graphs as arrays and as linked lists (P13)."""
from .pgeval_ import *
LPS = "Linked_PG_Struct"
def lp(v, f, p): return v.f(LPS + "." + f, p)
def pgf(f): return f"F:{PGS}.{f}"
def lpf(f): return f"F:{LPS}.{f}"
ARRS = ("marked", "id", "action", "next")
GW_ = ("gown", "grow")
def fresh_pg(c, p):
    """a graph all of whose storage is new"""
    n = bound("n"); v = c.post
    return [("new graph", And(p >= c.pre.clk, *[pg(v, f, p) >= c.pre.clk for f in ARRS])), ("new rows", forall(n, Implies(And(0 <= n, n < nn_(v, p)), prow(v, p, n) >= c.pre.clk), [prow(v, p, n)])), ("unowned arrays", And(*[Sel(v.gh("mown"), pg(v, f, p)) == 0 for f in ARRS]))]
def pg_dims(v, p, n, s, a, z): return [("its sizes", And(nn_(v, p) == n, pg(v, "num_states", p) == s, pg(v, "num_actions", p) == a, pg(v, "num_obs", p) == z))]
def ids_are(v, p, n, m): k = bound("n"); return forall(k, Implies(And(0 <= k, k < n), And(v.Ia(pg(v, "id", p))[k] == m(k))), [v.Ia(pg(v, "id", p))[k]])
def ctor_inv(c, n):
    v = c.now; p = c.lv("pg", "ptr"); k = bound("n"); r = prow(v, p, k)
    return [("fields", And(*[pg(v, f, p) == pg(c.at, f, p) for f in ARRS + ("num_nodes", "num_states", "num_actions", "num_obs")])),
      ("arrays unowned", And(Sel(v.gh("gown"), p) == 0, *[Sel(v.gh("gown"), pg(v, f, p)) == 0 for f in ARRS])),
      ("numbered and unmarked so far", forall(k, Implies(And(0 <= k, k < n), And(v.Ia(pg(v, "id", p))[k] == k)), [v.Ia(pg(v, "id", p))[k]])),
      ("unmarked so far", forall(k, Implies(And(0 <= k, k < n), And(v.Ia(pg(v, "marked", p))[k] == 0)), [v.Ia(pg(v, "marked", p))[k]])),
      ("rows so far", forall(k, Implies(And(0 <= k, k < n), And(r >= c.pre.clk, arr_ok(v, r, c.a(3), "int"), *[r != pg(v, f, p) for f in ARRS], Sel(v.gh("gown"), r) == p, Sel(v.gh("grow"), r) == k)), [r]))]
contract("PG_Constructor", file=FG_, requires=lambda c: [("sizes", And(c.a(0) > 0, c.a(3) > 0))], ghost_writes=GW_,
  ensures=lambda c: pg_shape(c.post, c.r) + fresh_pg(c, c.r) + pg_dims(c.post, c.r, c.a(0), c.a(1), c.a(2), c.a(3)) + [("nodes numbered by position", ids_are(c.post, c.r, c.a(0), lambda k: k))],
  loops=[Loop(bound=lambda c: c.a(0), gw=GW_, mods=lambda c: {"M:ptr": [pg(c.now, "next", c.lv("pg", "ptr"))], "M:int": [pg(c.now, "marked", c.lv("pg", "ptr")), pg(c.now, "id", c.lv("pg", "ptr"))], "ghost:gown": lambda r: r >= c.pre.clk, "ghost:grow": lambda r: r >= c.pre.clk},
    ghost=lambda c: (lambda r: {"gown": z3.Store(c.now.gh("gown"), r, c.lv("pg", "ptr")), "grow": z3.Store(c.now.gh("grow"), r, c.k)})(prow(c.now, c.lv("pg", "ptr"), c.k)), inv=lambda c: ctor_inv(c, c.k))])
C["PG_Constructor"].local_names = {"pg"}
def rowcells(v, p, n, want, z1):
    """row n holds want(z) for z < z1"""
    z = bound("z"); return forall(z, Implies(And(0 <= z, z < z1), pnext(v, p, n, z) == want(z)), [pnext(v, p, n, z)])
def cells(v, p, n1, z1, want):
    n, z = bound("n"), bound("z"); return forall([n, z], Implies(And(0 <= n, n < n1, 0 <= z, z < z1), pnext(v, p, n, z) == want(n, z)), [pnext(v, p, n, z)])
def acts(v, p, n1, want): n = bound("n"); return forall(n, Implies(And(0 <= n, n < n1), pact(v, p, n) == want(n)), [pact(v, p, n)])
def marks(v, p, n1, want): n = bound("n"); return forall(n, Implies(And(0 <= n, n < n1), v.Ia(pg(v, "marked", p))[n] == want(n)), [v.Ia(pg(v, "marked", p))[n]])
# ---- from the vectors
def succ(v, x, z):
    """the entry for observation z of the vector x"""
    o = obsS(v, x); y = v.P(o)[z]
    return If(o == 0, iv(-2), If(y == 0, iv(-1), v.f(AL + ".id", y)))
def src_ok(v, L):
    k, z = bound("k"), bound("z"); x = nodeL(v, L, k); y = v.P(obsS(v, x))[z]
    return [("choices recorded are live vectors", forall([k, z], Implies(And(0 <= k, k < lenL(v, L), 0 <= z, z < nZ(v), obsS(v, x) != 0, y != 0), is_node(v, y)), [z3.MultiPattern(x, y)]))]
def fl_m(c): p = c.lv("pg", "ptr"); return {"M:int": lambda r: r >= c.pre.clk}
def fa_inv(c, n, v):
    p = c.lv("pg", "ptr"); L = c.a(0); x = lambda k: nodeL(c.pre, L, k)
    return [("graph rows kept", And(*[True])), ("numbers so far", ids_are(v, p, n, lambda k: c.pre.f(AL + ".id", x(k)))), ("actions so far", acts(v, p, n, lambda k: c.pre.f(AL + ".action", x(k)))), ("successors so far", cells(v, p, n, nZ(c.pre), lambda k, z: succ(c.pre, x(k), z)))]
def fa_ens(c, p, L): x = lambda k: nodeL(c.pre, L, k); return [("each node has its vector's number", ids_are(c.post, p, lenL(c.pre, L), lambda k: c.pre.f(AL + ".id", x(k)))), ("and action", acts(c.post, p, lenL(c.pre, L), lambda k: c.pre.f(AL + ".action", x(k)))), ("and for every observation the number of the vector chosen, or the marker", cells(c.post, p, lenL(c.pre, L), nZ(c.pre), lambda k, z: succ(c.pre, x(k), z)))]
def fa_pre(c, L): return sizes(c) + wf(c.pre, L) + [("not empty", lenL(c.pre, L) >= 1)] + src_ok(c.pre, L)
def fa_in(c, want): return lambda: None
def fa_row(c, n, want): p = c.lv("pg", "ptr"); return fa_inv(c, n, c.now) + [("number of this node", c.now.Ia(pg(c.now, "id", p))[n] == c.pre.f(AL + ".id", nodeL(c.pre, c.a(0), n))), ("action of this node", pact(c.now, p, n) == c.pre.f(AL + ".action", nodeL(c.pre, c.a(0), n))), ("row so far", rowcells(c.now, p, n, want, c.k))]
contract("PG_ConstructorFromAlphaList", file=FG_, requires=lambda c: fa_pre(c, c.a(0)), ghost_writes=GW_,
  ensures=lambda c: pg_shape(c.post, c.r) + fresh_pg(c, c.r) + pg_dims(c.post, c.r, lenL(c.pre, c.a(0)), nS(c.pre), nA(c.pre), nZ(c.pre)) + fa_ens(c, c.r, c.a(0)),
  loops=[Loop(walk=lambda c: walks(c.a(0)), bound=lambda c: lenL(c.pre, c.a(0)), mods=fl_m, inv=lambda c: fa_inv(c, c.k, c.now)),
    Loop(bound=lambda c: nZ(c.pre), mods=lambda c: {"M:int": [prow(c.now, c.lv("pg", "ptr"), c.lv("n", "int"))]}, inv=lambda c: fa_row(c, c.lv("n", "int"), lambda z: succ(c.pre, nodeL(c.pre, c.a(0), c.lv("n", "int")), z))),
    Loop(bound=lambda c: nZ(c.pre), mods=lambda c: {"M:int": [prow(c.now, c.lv("pg", "ptr"), c.lv("n", "int"))]}, inv=lambda c: fa_row(c, c.lv("n", "int"), lambda z: succ(c.pre, nodeL(c.pre, c.a(0), c.lv("n", "int")), z)))])
C["PG_ConstructorFromAlphaList"].local_names = {"pg", "n"}
# ---- copies, renumbering, release
def cl_inv(c, n):
    p, q, v = c.lv("clone", "ptr"), c.a(0), c.now
    return [("actions so far", acts(v, p, n, lambda k: pact(c.pre, q, k))), ("numbers so far", ids_are(v, p, n, lambda k: c.pre.Ia(pg(c.pre, "id", q))[k])), ("marks so far", marks(v, p, n, lambda k: c.pre.Ia(pg(c.pre, "marked", q))[k])), ("successors so far", cells(v, p, n, pg(c.pre, "num_obs", q), lambda k, z: pnext(c.pre, q, k, z)))]
contract("PG_clone", file=FG_, requires=lambda c: pg_shape(c.pre, c.a(0)), ghost_writes=GW_,
  ensures=lambda c: pg_shape(c.post, c.r) + fresh_pg(c, c.r) + (lambda v, q: pg_dims(c.post, c.r, *[pg(v, f, q) for f in ("num_nodes", "num_states", "num_actions", "num_obs")]) + [("same numbers", ids_are(c.post, c.r, nn_(v, q), lambda k: v.Ia(pg(v, "id", q))[k])), ("same actions", acts(c.post, c.r, nn_(v, q), lambda k: pact(v, q, k))), ("same marks", marks(c.post, c.r, nn_(v, q), lambda k: v.Ia(pg(v, "marked", q))[k])), ("same successors", cells(c.post, c.r, nn_(v, q), pg(v, "num_obs", q), lambda k, z: pnext(v, q, k, z)))])(c.pre, c.a(0)),
  loops=[Loop(bound=lambda c: nn_(c.pre, c.a(0)), mods=lambda c: {"M:int": lambda r: r >= c.pre.clk}, inv=lambda c: cl_inv(c, c.k)),
    Loop(bound=lambda c: pg(c.pre, "num_obs", c.a(0)), mods=lambda c: {"M:int": [prow(c.now, c.lv("clone", "ptr"), c.lv("n", "int"))]},
      inv=lambda c: (lambda n, p, q: cl_inv(c, n) + [("this node", And(pact(c.now, p, n) == pact(c.pre, q, n), c.now.Ia(pg(c.now, "id", p))[n] == c.pre.Ia(pg(c.pre, "id", q))[n], c.now.Ia(pg(c.now, "marked", p))[n] == c.pre.Ia(pg(c.pre, "marked", q))[n])), ("row so far", rowcells(c.now, p, n, lambda z: pnext(c.pre, q, n, z), c.k))])(c.lv("n", "int"), c.lv("clone", "ptr"), c.a(0)))])
C["PG_clone"].local_names = {"clone", "n"}
def rl(c, n, z):
    """the successor after renumbering"""
    x = pnext(c.pre, c.a(0), n, z); return If(x < 0, x, If(x > c.a(2), iv(-2), c.pre.Ia(c.a(1))[x]))
def rl_rows(c): return lambda r: (lambda t: And(Sel(c.pre.gh("gown"), r) == c.a(0), 0 <= t, t < nn_(c.pre, c.a(0)), prow(c.pre, c.a(0), t) == r))(Sel(c.pre.gh("grow"), r))
def rl_inv(c, n, z1=None):
    p = c.a(0); k, z = bound("n"), bound("z"); done = k < n if z1 is None else Or(k < n, And(k == n, z < z1))
    return [("renumbered so far, the rest as given", forall([k, z], Implies(And(0 <= k, k < nn_(c.pre, p), 0 <= z, z < pg(c.pre, "num_obs", p)), c.now.Ia(prow(c.pre, p, k))[z] == If(done, rl(c, k, z), pnext(c.pre, p, k, z))), [c.now.Ia(prow(c.pre, p, k))[z]]))]
contract("PG_relink", file=FG_, requires=lambda c: pg_shape(c.pre, c.a(0)) + [("map", And(c.a(1) > 0, arr_ok(c.pre, c.a(1), c.a(2) + 1, "int"), Sel(c.pre.gh("gown"), c.a(1)) == 0))], modifies=lambda c: {"M:int": rl_rows(c)},
  ensures=lambda c: [("every link goes to what the map says, markers stay, unknown numbers become the no-information marker", cells(c.post, c.a(0), nn_(c.pre, c.a(0)), pg(c.pre, "num_obs", c.a(0)), lambda n, z: rl(c, n, z)))],
  loops=[Loop(bound=lambda c: nn_(c.pre, c.a(0)), mods=lambda c: {"M:int": rl_rows(c)}, inv=lambda c: rl_inv(c, c.k)),
    Loop(bound=lambda c: pg(c.pre, "num_obs", c.a(0)), mods=lambda c: {"M:int": [prow(c.pre, c.a(0), c.lv("n", "int"))]}, inv=lambda c: rl_inv(c, c.lv("n", "int"), c.k))])
C["PG_relink"].local_names = {"n"}
def pd_freed(c, p): return lambda r: And(p != 0, Or(r == p, *[r == pg(c.pre, f, p) for f in ("next", "action")], (lambda t: And(Sel(c.pre.gh("gown"), r) == p, 0 <= t, t < nn_(c.pre, p), prow(c.pre, p, t) == r))(Sel(c.pre.gh("grow"), r))))
contract("PG_Destructor", file=FG_, requires=lambda c: [(l, Implies(c.a(0) != 0, f)) for l, f in pg_shape(c.pre, c.a(0))], modifies=lambda c: {"freed": pd_freed(c, c.a(0)), "M:ptr": [pg(c.pre, "next", c.a(0))], pgf("next"): [c.a(0)], pgf("action"): [c.a(0)]},
  ensures=lambda c: [("released", Implies(c.a(0) != 0, And(Not(c.post.valid(c.a(0))), Not(c.post.valid(pg(c.pre, "next", c.a(0)))), Not(c.post.valid(pg(c.pre, "action", c.a(0)))), (lambda n: forall(n, Implies(And(0 <= n, n < nn_(c.pre, c.a(0))), Not(c.post.valid(prow(c.pre, c.a(0), n)))), [prow(c.pre, c.a(0), n)]))(bound("n")))))],
  loops=[Loop(bound=lambda c: nn_(c.pre, c.a(0)), only=True, mods=lambda c: {"freed": lambda r: (lambda t: And(Sel(c.pre.gh("gown"), r) == c.a(0), 0 <= t, t < nn_(c.pre, c.a(0)), prow(c.pre, c.a(0), t) == r))(Sel(c.pre.gh("grow"), r)), "M:ptr": [pg(c.pre, "next", c.a(0))]},
    inv=lambda c: (lambda n, S: [("released so far", forall(n, Implies(And(0 <= n, n < nn_(c.pre, c.a(0))), If(n < c.k, Not(c.now.valid(S[n])), And(c.now.valid(S[n]), c.now.P(pg(c.pre, "next", c.a(0)))[n] == S[n]))), [S[n]]))])(bound("n"), c.pre.P(pg(c.pre, "next", c.a(0)))))])

# ---------------------------------------------------------------- linked policy graphs: the first node stands for the list
GHOSTS["lseq"] = AAI; GHOSTS["llen"] = AI; GHOSTS["lown"] = AI; GHOSTS["lpos"] = AI; GHOSTS["lbo"] = AI     # first node -> members, length; node -> list, index; array -> node
E.FRESH_GHOST = E.FRESH_GHOST + ("lbo", "lown")
LG = ("lseq", "llen", "lown", "lpos")
def LL(v, h): return If(h == 0, iv(0), Sel(v.gh("llen"), h))
def ln(v, h, k): return Sel(v.gh("lseq"), h, k)
def lown(v, p): return Sel(v.gh("lown"), p)
def lpos(v, p): return Sel(v.gh("lpos"), p)
def lnb(v, p): return v.Ia(lp(v, "neighbor", p))
def lnode(v, p): b = lp(v, "neighbor", p); return And(p > 0, v.valid(p), KIND(p) == E.kind_of(LPS), Sel(v.gh("lbo"), p) == 0, b > 0, arr_ok(v, b, nZ(v), "int"), Sel(v.gh("lbo"), b) == p)
def lwf(v, h):
    k = bound("k"); p = ln(v, h, k); n = LL(v, h); return [("graph list: length", And(h >= 0, Implies(h != 0, n >= 1), Implies(h != 0, ln(v, h, iv(0)) == h))),
      ("graph list: nodes", forall(k, Implies(And(0 <= k, k < n), And(lnode(v, p), lown(v, p) == h, lpos(v, p) == k)), [p])),
      ("graph list: linked in order", forall(k, Implies(And(0 <= k, k < n), lp(v, "next", p) == If(k + 1 < n, ln(v, h, k + 1), iv(0))), [p]))]
def single(v, p): return [("a single node", And(p > 0, lnode(v, p), Sel(v.gh("llen"), p) == 1, ln(v, p, iv(0)) == p, lown(v, p) == p, lpos(v, p) == 0, lp(v, "next", p) == 0))]
def lwalk(h): return [lambda k, v: If(And(0 <= k, k < LL(v, h)), ln(v, h, k), iv(0))]
def lblocks(v, h): return lambda r: And(h != 0, Or(lown(v, r) == h, And(Sel(v.gh("lbo"), r) != 0, lown(v, Sel(v.gh("lbo"), r)) == h)))
def nb_pre(c, i): return [("successors given", Implies(c.a(i) != 0, And(c.a(i) > 0, arr_ok(c.pre, c.a(i), nZ(c.pre), "int"))))]
def nb_is(c, v, p, i): z = bound("z"); return forall(z, Implies(And(0 <= z, z < nZ(c.pre)), lnb(v, p)[z] == If(c.a(i) == 0, iv(0), c.pre.Ia(c.a(i))[z])), [lnb(v, p)[z]])
def nn_ens(c, p, i): v = c.post; return [("new node", And(p >= c.pre.clk, lp(v, "neighbor", p) >= c.pre.clk, lp(v, "id", p) == c.a(i), lp(v, "action", p) == c.a(i + 1))), ("with the successors given", nb_is(c, v, p, i + 2))]
def nn_gh(c): r = c.r; st = lambda g, i, x: z3.Store(c.now.gh(g), i, x); return {"lseq": st("lseq", r, z3.Store(Sel(c.now.gh("lseq"), r), iv(0), r)), "llen": st("llen", r, iv(1)), "lown": st("lown", r, r), "lpos": st("lpos", r, iv(0)), "lbo": st("lbo", lp(c.now, "neighbor", r), r)}
contract("LPG_newNode", file=FG_, requires=lambda c: sizes(c) + nb_pre(c, 2), ghost_writes=LG + ("lbo",), ghost_exit=nn_gh, ensures=lambda c: single(c.post, c.r) + nn_ens(c, c.r, 0),
  loops=[Loop(bound=lambda c: nZ(c.pre), mods=lambda c: {"M:int": [lp(c.now, "neighbor", c.lv("pg", "ptr"))]}, inv=lambda c: (lambda z, p: [("successors so far", forall(z, Implies(And(0 <= z, z < c.k), lnb(c.now, p)[z] == c.pre.Ia(c.a(2))[z]), [lnb(c.now, p)[z]]))])(bound("z"), c.lv("pg", "ptr")))])
C["LPG_newNode"].local_names = {"pg"}
contract("LPG_destroyNode", file=FG_, requires=lambda c: sizes(c) + [("node or nothing", Implies(c.a(0) != 0, lnode(c.pre, c.a(0))))], modifies=lambda c: {"freed": lambda r: And(c.a(0) != 0, Or(r == c.a(0), r == lp(c.pre, "neighbor", c.a(0)))), lpf("neighbor"): [c.a(0)]}, ensures=lambda c: [("released", Implies(c.a(0) != 0, And(Not(c.post.valid(c.a(0))), Not(c.post.valid(lp(c.pre, "neighbor", c.a(0)))))))])
contract("LPG_destroy", file=FG_, requires=lambda c: sizes(c) + lwf(c.pre, c.a(0)), modifies=lambda c: {"freed": lblocks(c.pre, c.a(0)), lpf("neighbor"): lambda r: And(c.a(0) != 0, lown(c.pre, r) == c.a(0))},
  ensures=lambda c: (lambda k: [("every node released", forall(k, Implies(And(0 <= k, k < LL(c.pre, c.a(0))), Not(c.post.valid(ln(c.pre, c.a(0), k)))), [ln(c.pre, c.a(0), k)]))])(bound("k")),
  loops=[Loop(walk=lambda c: lwalk(c.a(0)), bound=lambda c: LL(c.pre, c.a(0)), inv=lambda c: (lambda k: (lambda p: [("rest intact", forall(k, Implies(And(c.k <= k, k < LL(c.pre, c.a(0))), lnode(c.now, p)), [p])), ("released so far", forall(k, Implies(And(0 <= k, k < c.k), Not(c.now.valid(p))), [p]))])(ln(c.pre, c.a(0), k)))(bound("k")))])
def ap2(c, h, p): n = LL(c.pre, h); return {"lseq": If(h == 0, c.now.gh("lseq"), z3.Store(c.now.gh("lseq"), h, z3.Store(Sel(c.now.gh("lseq"), h), n, p))), "llen": If(h == 0, c.now.gh("llen"), z3.Store(c.now.gh("llen"), h, n + 1)), "lown": If(h == 0, c.now.gh("lown"), z3.Store(c.now.gh("lown"), p, h)), "lpos": If(h == 0, c.now.gh("lpos"), z3.Store(c.now.gh("lpos"), p, n))}
def ap_mods(c, h, p): n = LL(c.pre, h); return {lpf("next"): [If(h != 0, ln(c.pre, h, n - 1), iv(0))], "ghost:lseq": [h], "ghost:llen": [h], "ghost:lown": [p], "ghost:lpos": [p]}
def ap_ens(c, h, p):
    n = LL(c.pre, h); k = bound("k"); return [("the list, or the node if there was none", c.r == If(h == 0, p, h)), ("one longer", LL(c.post, c.r) == n + 1), ("the node is last", ln(c.post, c.r, n) == p), ("the others stay, in order", forall(k, Implies(And(0 <= k, k < n), ln(c.post, c.r, k) == ln(c.pre, h, k)), [ln(c.post, c.r, k)]))]
contract("LPG_append", file=FG_, requires=lambda c: sizes(c) + lwf(c.pre, c.a(0)) + single(c.pre, c.a(1)) + [("not in the list", c.a(0) != c.a(1))], modifies=lambda c: ap_mods(c, c.a(0), c.a(1)), ghost_writes=LG, ghost_exit=lambda c: ap2(c, c.a(0), c.a(1)),
  ensures=lambda c: lwf(c.post, c.r) + ap_ens(c, c.a(0), c.a(1)),
  loops=[Loop(bound=lambda c: LL(c.pre, c.a(0)), inv=lambda c: [("at a member", And(c.lv("temp", "ptr") == ln(c.pre, c.a(0), c.k), c.k < LL(c.pre, c.a(0))))])])
C["LPG_append"].local_names = {"temp"}
def add_ens(c):
    h = c.a(0); n = LL(c.pre, h); k = bound("k"); p = ln(c.post, c.r, n)
    return lwf(c.post, c.r) + [("the list, or the new node if there was none", If(h == 0, c.r == p, c.r == h)), ("one longer", LL(c.post, c.r) == n + 1), ("the others stay, in order", forall(k, Implies(And(0 <= k, k < n), ln(c.post, c.r, k) == ln(c.pre, h, k)), [ln(c.post, c.r, k)]))] + nn_ens(c, p, 1)
contract("LPG_addNode", file=FG_, requires=lambda c: sizes(c) + lwf(c.pre, c.a(0)) + nb_pre(c, 3), modifies=lambda c: {k: v for k, v in ap_mods(c, c.a(0), iv(0)).items()}, ghost_writes=LG + ("lbo",), ensures=add_ens)
# ---- look-up
def lid(v, h, k): return lp(v, "id", ln(v, h, k))
def noid(v, h, x, n): k = bound("k"); return forall(k, Implies(And(0 <= k, k < n), lid(v, h, k) != x), [ln(v, h, k)])
def hasid(v, h, x): k = bound("k"); return z3.Exists([k], And(0 <= k, k < LL(v, h), lid(v, h, k) == x), patterns=[ln(v, h, k)])
contract("LPG_findNode", file=FG_, requires=lambda c: sizes(c) + lwf(c.pre, c.a(0)), ensures=lambda c: (lambda v, h, x, k: [("null iff no node has the id", Implies(c.r == 0, noid(v, h, x, LL(v, h)))), ("otherwise the first node that has it", Implies(c.r != 0, And(lown(v, c.r) == h, 0 <= k, k < LL(v, h), ln(v, h, k) == c.r, lp(v, "id", c.r) == x, noid(v, h, x, k))))])(c.pre, c.a(0), c.a(1), lpos(c.pre, c.r)),
  loops=[Loop(walk=lambda c: lwalk(c.a(0)), bound=lambda c: LL(c.pre, c.a(0)), inv=lambda c: [("not found so far", noid(c.pre, c.a(0), c.a(1), c.k))])])
contract("LPG_size", file=FG_, requires=lambda c: sizes(c) + lwf(c.pre, c.a(0)), ensures=lambda c: [("number of nodes", c.r == LL(c.pre, c.a(0)))],
  loops=[Loop(walk=lambda c: lwalk(c.a(0)), bound=lambda c: LL(c.pre, c.a(0)), inv=lambda c: [("counted so far", c.lv("count", "int") == c.k)])])
C["LPG_size"].local_names = {"count"}
contract("LPG_getPGNodePosition", file=FG_, requires=lambda c: sizes(c) + lwf(c.pre, c.a(0)), ensures=lambda c: (lambda v, h, x: [("-1: no node has the id", Implies(c.r == -1, noid(v, h, x, LL(v, h)))), ("otherwise the first position that has it", Implies(c.r != -1, And(0 <= c.r, c.r < LL(v, h), lid(v, h, c.r) == x, noid(v, h, x, c.r))))])(c.pre, c.a(0), c.a(1)),
  loops=[Loop(walk=lambda c: lwalk(c.a(0)), bound=lambda c: LL(c.pre, c.a(0)), inv=lambda c: [("position", c.lv("position", "int") == c.k), ("not found so far", noid(c.pre, c.a(0), c.a(1), c.k))])])
C["LPG_getPGNodePosition"].local_names = {"position"}
def good_node(c, k, z1=None):
    v, h = c.pre, c.a(0); p = ln(v, h, k); j = bound("j"); z = bound("z"); x = lnb(v, p)[z]
    g = [0 <= lp(v, "action", p), lp(v, "action", p) < nA(v), noid(v, h, lp(v, "id", p), k)]
    return And(*g, forall(z, Implies(And(0 <= z, z < (nZ(v) if z1 is None else z1)), Or(x == -1, x == -2, hasid(v, h, x))), [x]))
def verified(c, n): k = bound("k"); return forall(k, Implies(And(0 <= k, k < n), good_node(c, k)), [ln(c.pre, c.a(0), k)])
def bad_somewhere(c): k = bound("k"); return z3.Exists([k], And(0 <= k, k < LL(c.pre, c.a(0)), Not(good_node(c, k))), patterns=[ln(c.pre, c.a(0), k)])
contract("LPG_verify", file=FG_, requires=lambda c: sizes(c) + lwf(c.pre, c.a(0)), ensures=lambda c: [("0 or 1", Or(c.r == 0, c.r == 1)), ("accepted: every action is in range, no id is used twice, every successor is a node or a marker", Implies(c.r == 1, verified(c, LL(c.pre, c.a(0))))), ("rejected: some node is wrong", Implies(c.r == 0, bad_somewhere(c)))],
  loops=[Loop(walk=lambda c: lwalk(c.a(0)), bound=lambda c: LL(c.pre, c.a(0)), inv=lambda c: [("verified so far", verified(c, c.k))]),
    Loop(bound=lambda c: nZ(c.pre), inv=lambda c: (lambda p, z: [("successors so far", forall(z, Implies(And(0 <= z, z < c.k), Or(lnb(c.pre, p)[z] == -1, lnb(c.pre, p)[z] == -2, hasid(c.pre, c.a(0), lnb(c.pre, p)[z]))), [lnb(c.pre, p)[z]]))])(c.lv("pg", "ptr"), bound("z")))])
C["LPG_verify"].local_names = {"pg"}
# ---- conversion
def uniq(v, h): j, k = bound("j"), bound("k"); return forall([j, k], Implies(And(0 <= j, j < k, k < LL(v, h)), lid(v, h, j) != lid(v, h, k)), [z3.MultiPattern(ln(v, h, j), ln(v, h, k))])
def cv(c, v, p, n, z1=None):
    h = c.a(0); k, z = bound("k"), bound("z"); i = lid(c.pre, h, k)
    return [("the action of every node done, at its id", Implies(uniq(c.pre, h), forall(k, Implies(And(0 <= k, k < n), pact(v, p, i) == lp(c.pre, "action", ln(c.pre, h, k))), [ln(c.pre, h, k)]))),
            ("the successors of every node done, at its id", Implies(uniq(c.pre, h), forall([k, z], Implies(And(0 <= k, k < n, 0 <= z, z < nZ(c.pre)), pnext(v, p, i, z) == lnb(c.pre, ln(c.pre, h, k))[z]), [lnb(c.pre, ln(c.pre, h, k))[z]]))),
            ("ids are positions in the arrays", forall(k, Implies(And(0 <= k, k < n), And(0 <= i, i < LL(c.pre, h))), [ln(c.pre, h, k)]))]
contract("PG_convertLPGToPG", file=FG_, abort_ok=True, note="aborts when an id is not below the number of nodes", requires=lambda c: sizes(c) + lwf(c.pre, c.a(0)) + [("not empty", c.a(0) != 0)], ghost_writes=GW_,
  ensures=lambda c: pg_shape(c.post, c.r) + fresh_pg(c, c.r) + pg_dims(c.post, c.r, LL(c.pre, c.a(0)), nS(c.pre), nA(c.pre), nZ(c.pre)) + [("nodes numbered by position", ids_are(c.post, c.r, LL(c.pre, c.a(0)), lambda k: k))] + cv(c, c.post, c.r, LL(c.pre, c.a(0))),
  loops=[Loop(walk=lambda c: lwalk(c.a(0)), bound=lambda c: LL(c.pre, c.a(0)), mods=lambda c: {"M:int": lambda r: r >= c.pre.clk}, inv=lambda c: cv(c, c.now, c.lv("pg", "ptr"), c.k) + [("numbers stay", ids_are(c.now, c.lv("pg", "ptr"), LL(c.pre, c.a(0)), lambda k: k))]),
    Loop(bound=lambda c: nZ(c.pre), mods=lambda c: {"M:int": [prow(c.now, c.lv("pg", "ptr"), lp(c.pre, "id", c.lv("old_pg", "ptr")))]},
      inv=lambda c: (lambda p, q: cv(c, c.now, p, lpos(c.pre, q)) + [("action of this node", pact(c.now, p, lp(c.pre, "id", q)) == lp(c.pre, "action", q)), ("row so far", rowcells(c.now, p, lp(c.pre, "id", q), lambda z: lnb(c.pre, q)[z], c.k)), ("numbers stay", ids_are(c.now, p, LL(c.pre, c.a(0)), lambda k: k))])(c.lv("pg", "ptr"), c.lv("old_pg", "ptr")))])
C["PG_convertLPGToPG"].local_names = {"pg", "old_pg"}

# ---------------------------------------------------------------- the text written: a sequence of words per stream
for _g in ("oln", "osp"): GHOSTS[_g] = AI
GHOSTS["otk"] = AAI; GHOSTS["oti"] = AAI; GHOSTS["otr"] = AAR
OG = ("oln", "osp", "otk", "oti", "otr")
def oln(v, f): return Sel(v.gh("oln"), f)
def word(v, f, i, kind, val): return And(Sel(v.gh("otk"), f, i) == kind, Sel(v.gh("oti"), f, i) == val)
WX, WD = E.text_code("X"), E.text_code("-")
WP = Opaque("WP", [I, I, I], I, lambda n, j, w: n * w + j)      # word j of line n, lines of w words
wp_inj = Lemma("wp_inj", [I, I, I, I, I], lambda n, j, m, i, w: Implies(And(0 <= j, j < w, 0 <= i, i < w, WP(n, j, w) == WP(m, i, w)), And(n == m, j == i)), induct=False, extra=lambda n, j, m, i, w: [WP.reveal(), Implies(n < m, mul_gap(n, m, w)), Implies(m < n, mul_gap(m, n, w))], pats=lambda n, j, m, i, w: [z3.MultiPattern(WP(n, j, w), WP(m, i, w))])
wp_pos = Lemma("wp_pos", [I, I, I], lambda n, j, w: Implies(And(0 <= n, 0 <= j, j < w), WP(n, j, w) >= 0), induct=False, extra=lambda n, j, w: [WP.reveal(), Implies(n > 0, mul_gap(iv(0), n, w))], pats=lambda n, j, w: [WP(n, j, w)])
wp_step = Lemma("wp_step", [I, I, I], lambda n, j, w: And(WP(n, j + 1, w) == WP(n, j, w) + 1, WP(n, w, w) == WP(n + 1, iv(0), w), WP(iv(0), iv(0), w) == 0), induct=False, extra=lambda n, j, w: [WP.reveal()])
def line_word(v, p, n, j, w, u, f, base):
    """word j of line n: the node's number, its action, its successors (or the markers)"""
    x = pnext(v, p, n, j - 2); i = base + WP(n, j, w)
    return If(j == 0, word(u, f, i, 0, n), If(j == 1, word(u, f, i, 0, pact(v, p, n)), If(x == -1, word(u, f, i, 2, iv(WX)), If(x == -2, word(u, f, i, 2, iv(WD)), word(u, f, i, 0, x)))))
def written(c, u, p, f, base, n1, j1=None, v=None):
    v = c.pre if v is None else v; n, j = bound("n"), bound("j"); w = pg(v, "num_obs", p) + 2; i = bound("i")
    g = And(0 <= n, 0 <= j, j < w, n < n1 if j1 is None else Or(n < n1, And(n == n1, j < j1)))
    return [("every node's line: number, action, successors or markers", forall([n, j], Implies(g, line_word(v, p, n, j, w, u, f, base)), [WP(n, j, w)])),
            ("number of words", oln(u, f) == base + (WP(n1, iv(0), w) if j1 is None else WP(n1, j1, w))), ("words stay separate", Sel(u.gh("osp"), f) == 1)]
def kept_words(c, u, f, base): i = bound("i"); return [("what was written before stays", forall(i, Implies(i < base, And(Sel(u.gh("otk"), f, i) == Sel(c.pre.gh("otk"), f, i), Sel(u.gh("oti"), f, i) == Sel(c.pre.gh("oti"), f, i), Sel(u.gh("otr"), f, i) == Sel(c.pre.gh("otr"), f, i))), [Sel(u.gh("otk"), f, i)]))]
def om(f): return {"ghost:" + g: [f] for g in OG}
def stream(c, i): return [("stream, between words", And(c.a(i) != 0, Sel(c.pre.gh("osp"), c.a(i)) == 1))]
def pf_hints(c, n, j): w = pg(c.pre, "num_obs", c.a(0)) + 2; return [wp_inj.all(), wp_pos.all(), wp_step(n, j, w), wp_step(n, iv(0), w), wp_step(n, iv(1), w), mul_gap(n, n + 1, w)]
contract("PG_printf", file=FG_, ehints=lambda c: [wp_step(iv(0), iv(0), pg(c.pre, "num_obs", c.a(0)) + 2)], requires=lambda c: pg_shape(c.pre, c.a(0)) + stream(c, 1), modifies=lambda c: om(c.a(1)), ghost_writes=OG,
  ensures=lambda c: written(c, c.post, c.a(0), c.a(1), oln(c.pre, c.a(1)), nn_(c.pre, c.a(0))) + kept_words(c, c.post, c.a(1), oln(c.pre, c.a(1))), 
  loops=[Loop(bound=lambda c: nn_(c.pre, c.a(0)), gw=OG, mods=lambda c: om(c.a(1)), hints=lambda c: pf_hints(c, c.k, iv(0)), inv=lambda c: written(c, c.now, c.a(0), c.a(1), oln(c.pre, c.a(1)), c.k) + kept_words(c, c.now, c.a(1), oln(c.pre, c.a(1)))),
    Loop(bound=lambda c: pg(c.pre, "num_obs", c.a(0)), gw=OG, mods=lambda c: om(c.a(1)), hints=lambda c: pf_hints(c, c.lv("n", "int"), c.k + 2), inv=lambda c: written(c, c.now, c.a(0), c.a(1), oln(c.pre, c.a(1)), c.lv("n", "int"), c.k + 2) + kept_words(c, c.now, c.a(1), oln(c.pre, c.a(1))))])
C["PG_printf"].local_names = {"n"}
# files: opening gives a new, empty stream; ofile: file name -> the stream last opened for it
GHOSTS["ofile"] = AI
contract("fopen", file=None, trusted=True, writes={"clk"}, ghost_writes=("ofile", "oln", "osp", "otk", "oti", "otr"), note="libc: a new empty stream, or NULL", modifies=lambda c: {"ghost:ofile": [c.a(0)], **{"ghost:" + g: (lambda r: r >= c.pre.clk) for g in OG}},
  ensures=lambda c: [("null or a new stream", Or(c.r == 0, And(c.r >= c.pre.clk, c.r < c.post.clk))), ("empty", Implies(c.r != 0, And(oln(c.post, c.r) == 0, Sel(c.post.gh("osp"), c.r) == 1))), ("recorded for its name", Sel(c.post.gh("ofile"), c.a(0)) == c.r)])
contract("fclose", file=None, trusted=True, writes=set(), note="libc: what was written stays", requires=lambda c: [("stream", c.a(0) != 0)])
def wr_mods(c, i): return {"ghost:ofile": [c.a(i)], **{"ghost:" + g: (lambda r: Or(r >= c.pre.clk, r == c.pre.g("gStdErrFile"))) for g in OG}}
def wr_ens(c, i, ls): F_ = Sel(c.post.gh("ofile"), c.a(i)); return [("file written, if it could be opened: " + l, Implies(F_ != 0, f)) for l, f in ls(F_)]
contract("PG_write", file=FG_, requires=lambda c: pg_shape(c.pre, c.a(0)) + [("file name", c.a(1) != 0)], modifies=lambda c: wr_mods(c, 1), ghost_writes=OG + ("ofile",),
  ensures=lambda c: wr_ens(c, 1, lambda F_: written(c, c.post, c.a(0), F_, iv(0), nn_(c.pre, c.a(0)))))
contract("PG_display", file=FG_, requires=lambda c: pg_shape(c.pre, c.a(0)) + [("standard output, between words", And(c.pre.g("stdout") != 0, Sel(c.pre.gh("osp"), c.pre.g("stdout")) == 1))], modifies=lambda c: om(c.pre.g("stdout")), ghost_writes=OG,
  ensures=lambda c: written(c, c.post, c.a(0), c.pre.g("stdout"), oln(c.pre, c.pre.g("stdout")), nn_(c.pre, c.a(0))))
def alpha_word(v, L, n, j, u, f, base):
    x = nodeL(v, L, n); i = base + WP(n, j, nZ(v) + 2); o = obsS(v, x); y = v.P(o)[j - 2]; d = v.f(AL + ".id", y)
    return If(j == 0, word(u, f, i, 0, n), If(j == 1, word(u, f, i, 0, v.f(AL + ".action", x)), If(o == 0, word(u, f, i, 2, iv(WD)), If(y == 0, word(u, f, i, 2, iv(WX)), Implies(d >= 0, word(u, f, i, 0, d))))))
def alpha_written(c, u, L, f, base):
    v = c.pre; n, j = bound("n"), bound("j"); w = nZ(v) + 2
    return [("every vector's line: number, action, for each observation the number of the vector chosen, or the marker", forall([n, j], Implies(And(0 <= n, n < lenL(v, L), 0 <= j, j < w), alpha_word(v, L, n, j, u, f, base)), [WP(n, j, w)])), ("number of words", oln(u, f) == base + WP(lenL(v, L), iv(0), w))]
AGW = OG + GW_
contract("APG_displayPolicyGraph", file=FG_, requires=lambda c: fa_pre(c, c.a(1)) + stream(c, 0), modifies=lambda c: om(c.a(0)), ghost_writes=AGW, ensures=lambda c: alpha_written(c, c.post, c.a(1), c.a(0), oln(c.pre, c.a(0))))
contract("APG_writePolicyGraph", file=FG_, requires=lambda c: fa_pre(c, c.a(0)) + [("file name", c.a(1) != 0)], modifies=lambda c: wr_mods(c, 1), ghost_writes=AGW + ("ofile",), ensures=lambda c: wr_ens(c, 1, lambda F_: alpha_written(c, c.post, c.a(0), F_, iv(0))))
def lpg_written(c, u, h, f, base):
    v = c.pre; k, j = bound("k"), bound("j"); w = nZ(v) + 2; p = ln(v, h, k); x = lnb(v, p)[j - 2]; i = base + WP(lp(v, "id", p), j, w)
    return [("every node's line, at its number", Implies(uniq(v, h), forall([k, j], Implies(And(0 <= k, k < LL(v, h), 0 <= j, j < w), If(j == 0, word(u, f, i, 0, lp(v, "id", p)), If(j == 1, word(u, f, i, 0, lp(v, "action", p)), If(x == -1, word(u, f, i, 2, iv(WX)), If(x == -2, word(u, f, i, 2, iv(WD)), word(u, f, i, 0, x)))))), [WP(lp(v, "id", p), j, w)]))), ("number of words", oln(u, f) == base + WP(LL(v, h), iv(0), w))]
LPN = "aborts when an id is not below the number of nodes"
contract("LPG_printf", file=FG_, abort_ok=True, note=LPN, requires=lambda c: sizes(c) + lwf(c.pre, c.a(0)) + [("not empty", c.a(0) != 0)] + stream(c, 1), modifies=lambda c: om(c.a(1)), ghost_writes=AGW, ensures=lambda c: lpg_written(c, c.post, c.a(0), c.a(1), oln(c.pre, c.a(1))))
contract("LPG_write", file=FG_, abort_ok=True, note=LPN, requires=lambda c: sizes(c) + lwf(c.pre, c.a(0)) + [("not empty", c.a(0) != 0), ("file name", c.a(1) != 0)], modifies=lambda c: wr_mods(c, 1), ghost_writes=AGW + ("ofile",), ensures=lambda c: wr_ens(c, 1, lambda F_: lpg_written(c, c.post, c.a(0), F_, iv(0))))
