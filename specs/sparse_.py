"""src/mdp/sparse-matrix.c: rows as sorted linked lists, compressed matrices (P08)."""
from .lib import *
F = "src/mdp/sparse-matrix.c"
RN, IM, MX = "I_Matrix_Row_Node_Struct", "I_Matrix_Struct", "Matrix_Struct"
A3 = z3.ArraySort(I, AAI)
# a row is identified by the cell that holds its length: (block b, offset o)
GHOSTS["rseq"] = A3        # b, o, index -> node
GHOSTS["rix"] = A3         # b, o, column -> number of entries with a smaller column
GHOSTS["rownb"] = AI       # node -> b (0: in no row)
GHOSTS["rowno"] = AI       # node -> o
GHOSTS["mown"] = AI        # array block of a compressed matrix -> the matrix
GHOSTS["rpos"] = AI        # node -> index
E.FRESH_GHOST = E.FRESH_GHOST + ("rownb", "mown")
RG = ("rseq", "rix", "rownb", "rowno", "rpos")

def fR(f): return "F:" + RN + "." + f
def colN(v, p): return v.f(RN + ".column", p)
def valN(v, p): return v.f(RN + ".value", p)
def nxN(v, p): return v.f(RN + ".next", p)
def nodeR(v, b, o, k): return Sel(v.gh("rseq"), b, o, k)
def rixR(v, b, o, c): return Sel(v.gh("rix"), b, o, c)
def is_rnode(v, p): return And(p > 0, v.valid(p), KIND(p) == E.kind_of(RN))
def inrow(v, p, b, o): return And(Sel(v.gh("rownb"), p) == b, Sel(v.gh("rowno"), p) == o)
def isz0(x, c=None): return And(x < ZT, x > -ZT)
ZT = rv("0.0000000001")      # POS_ZERO_TOLERANCE

def rwf(v, b, o, head, n, rows=None):
    """the row (b,o) with first node `head` is a sorted list of n entries (for every o in [0,rows) if rows is given)"""
    k, c = bound("k"), bound("c")
    nd = lambda i: nodeR(v, b, o, i)
    ix = rixR(v, b, o, c)
    def q(vs, f, pats):
        if rows is not None: return forall(([o] if o is not None else []) + vs, Implies(And(0 <= o, o < rows), f), pats)
        return forall(vs, f, pats) if vs else f
    return [("row length non-negative", q([], n >= 0, [n])),
            ("row nodes live and owned", q([k], Implies(And(0 <= k, k < n), And(is_rnode(v, nd(k)), inrow(v, nd(k), b, o), Sel(v.gh("rpos"), nd(k)) == k, rixR(v, b, o, colN(v, nd(k))) == k)), [nd(k)])),
            ("row linked in order", q([k], Implies(And(0 <= k, k < n), nxN(v, nd(k)) == If(k + 1 < n, nd(k + 1), iv(0))), [nd(k)])),
            ("row head", q([], head == If(n > 0, nd(iv(0)), iv(0)), [head])),
            ("entries sorted by column", q([c], And(0 <= ix, ix <= n), [ix])),
            ("smaller columns come first", q([c, k], Implies(And(0 <= k, k < n), (colN(v, nd(k)) < c) == (k < ix)), [z3.MultiPattern(ix, nd(k))]))]
def present(v, b, o, n, c):
    j = rixR(v, b, o, c)
    return And(j < n, colN(v, nodeR(v, b, o, j)) == c)
def rget(v, b, o, n, c):
    """entry at column c of the row (0 when absent)"""
    return If(present(v, b, o, n, c), valN(v, nodeR(v, b, o, rixR(v, b, o, c))), rv(0))
def wr(c):
    """walk over the row of argument `count`"""
    p = c.arg(CNT[c.ex.fname]); n = c.pre.Ia(p.b)[p.o]
    def mk(d): return lambda k, v: If(And(0 <= k + d, k + d < n), nodeR(v, p.b, p.o, k + d), iv(0))
    return [mk(0), mk(1), mk(-1)]
CNT = {"removeRowNode": 2, "addEntryToRow": 3}
def cnt(c, i): return c.arg(i).b, c.arg(i).o, c.pre.Ia(c.arg(i).b)[c.arg(i).o]
def cell_ok(v, p): return And(v.valid(p.b), 0 <= p.o, p.o < LEN(p.b), KIND(p.b) == E.kind_of("int"))

contract("newRowNode", file=F,
  ensures=lambda c: [("fresh entry", And(c.r >= c.pre.clk, is_rnode(c.post, c.r), colN(c.post, c.r) == c.a(0), valN(c.post, c.r) == c.a(1), nxN(c.post, c.r) == 0, Sel(c.post.gh("rownb"), c.r) == 0))])

def st3(m, b, o, x): return z3.Store(m, b, z3.Store(Sel(m, b), o, x))
def sdef(st, n, f, nm, at=None):
    """as defmap, with the values at the points `at` spelled out"""
    A = defmap(st, n, f, nm)
    for x in at or (): st.assume(A[x] == f(x))
    return A
def upd_rem(c, b, o, col):
    v = c.now; pre = c.pre; j = rixR(pre, b, o, col); p = nodeR(pre, b, o, j)
    s, ixm = Sel(pre.gh("rseq"), b, o), Sel(pre.gh("rix"), b, o)
    ns = sdef(v.st, AI, lambda i: If(i < j, s[i], s[i + 1]), "rs")
    nix = defmap(v.st, AI, lambda x: If(x > col, ixm[x] - 1, ixm[x]), "rx")
    np_ = defmap(v.st, AI, lambda r: If(And(inrow(pre, r, b, o), Sel(pre.gh("rpos"), r) > j), Sel(pre.gh("rpos"), r) - 1, Sel(pre.gh("rpos"), r)), "rp")
    return {"rseq": st3(v.gh("rseq"), b, o, ns), "rix": st3(v.gh("rix"), b, o, nix), "rownb": z3.Store(v.gh("rownb"), p, iv(0)), "rpos": np_}
def cond_upd(v, cond, u): return {k: If(cond, x, v.gh(k)) for k, x in u.items()}
def row_frame(c, b, o):
    """other rows kept with the same length cell block"""
    k = bound("o")
    return [("other rows of the matrix untouched", And(*[forall(k, Implies(k != o, Sel(c.post.gh(g), b, k) == Sel(c.pre.gh(g), b, k)), [Sel(c.post.gh(g), b, k)]) for g in ("rseq", "rix")])),
            ("other lengths untouched", forall(k, Implies(k != o, c.post.Ia(b)[k] == c.pre.Ia(b)[k]), [c.post.Ia(b)[k]]))]
def row_mods(c, b, o):
    own_ = lambda r: inrow(c.pre, r, b, o)
    return {fR("next"): own_, fR("value"): own_, "M:int": [b], "ghost:rseq": [b], "ghost:rix": [b], "ghost:rpos": own_, "ghost:rownb": own_, "ghost:rowno": own_, "freed": own_}
def rget_ens(c, b, o, n, f):
    x = bound("x"); n2 = c.post.Ia(b)[o]
    return [("entry values", forall(x, rget(c.post, b, o, n2, x) == f(x, rget(c.pre, b, o, n, x)), [rixR(c.post, b, o, x)])),
            ("no other column stored", forall(x, Implies(And(x != c.a(1), present(c.post, b, o, n2, x)), present(c.pre, b, o, n, x)), [rixR(c.post, b, o, x)]))]

def rem_c(c): b, o, n = cnt(c, 2); return b, o, n, present(c.pre, b, o, n, c.a(1))
contract("removeRowNode", file=F, interior=(2,),
  requires=lambda c: (lambda b, o, n: [("length cell", cell_ok(c.pre, c.arg(2)))] + rwf(c.pre, b, o, c.a(0), n))(*cnt(c, 2)),
  modifies=lambda c: row_mods(c, *cnt(c, 2)[:2]), ghost_writes=RG,
  ghost_exit=lambda c: (lambda b, o, n, pr: cond_upd(c.now, pr, upd_rem(c, b, o, c.a(1))))(*rem_c(c)),
  hints=lambda c: (lambda b, o, n, pr: [nodeR(c.pre, b, o, rixR(c.pre, b, o, c.a(1))) == nodeR(c.pre, b, o, rixR(c.pre, b, o, c.a(1)))])(*rem_c(c)),
  ensures=lambda c: (lambda b, o, n, pr: [("one fewer entry iff the column was present", c.post.Ia(b)[o] == n - If(pr, iv(1), iv(0))), ("column absent", Not(present(c.post, b, o, c.post.Ia(b)[o], c.a(1))))]
     + rwf(c.post, b, o, c.r, c.post.Ia(b)[o]) + rget_ens(c, b, o, n, lambda x, old: If(x == c.a(1), rv(0), old)) + row_frame(c, b, o))(*rem_c(c)),
  loops=[Loop(walk=wr, bound=lambda c: cnt(c, 2)[2] - 1,
     inv=lambda c: (lambda b, o, n, k: [("column not found so far", forall(k, Implies(And(0 <= k, k <= c.k), colN(c.pre, nodeR(c.pre, b, o, k)) != c.a(1)), [nodeR(c.pre, b, o, k)]))])(*cnt(c, 2), bound()))])

def upd_ins(c, b, o, col, n):
    v = c.now; pre = c.pre; j = rixR(pre, b, o, col); 
    p = If(j == 0, c.r, nxN(v, nodeR(pre, b, o, j - 1)))
    s, ixm = Sel(pre.gh("rseq"), b, o), Sel(pre.gh("rix"), b, o)
    ns = sdef(v.st, AI, lambda i: If(i < j, s[i], If(i == j, p, s[i - 1])), "rs", [j])
    nix = defmap(v.st, AI, lambda x: If(x > col, ixm[x] + 1, ixm[x]), "rx")
    np_ = defmap(v.st, AI, lambda r: If(r == p, j, If(And(inrow(pre, r, b, o), Sel(pre.gh("rpos"), r) >= j), Sel(pre.gh("rpos"), r) + 1, Sel(pre.gh("rpos"), r))), "rp")
    return {"rseq": st3(v.gh("rseq"), b, o, ns), "rix": st3(v.gh("rix"), b, o, nix), "rownb": z3.Store(v.gh("rownb"), p, b), "rowno": z3.Store(v.gh("rowno"), p, o), "rpos": np_}
def add_new(col, val, acc):
    """new value of an entry"""
    return lambda x, old: If(x != col, old, If(isz0(val), If(acc != 0, old, rv(0)), If(acc != 0, old + val, val)))
def add_ghost(c):
    b, o, n = cnt(c, 3); col, val = c.a(1), c.a(2)
    ins = And(Not(isz0(val)), Not(present(c.pre, b, o, n, col)))
    return cond_upd(c.now, ins, upd_ins(c, b, o, col, n))
contract("addEntryToRow", file=F, interior=(3,),
  requires=lambda c: (lambda b, o, n: [("length cell", cell_ok(c.pre, c.arg(3)))] + rwf(c.pre, b, o, c.a(0), n))(*cnt(c, 3)),
  modifies=lambda c: row_mods(c, *cnt(c, 3)[:2]), ghost_writes=RG, ghost_exit=add_ghost,
  hints=lambda c: (lambda b, o, n: [nodeR(c.pre, b, o, rixR(c.pre, b, o, c.a(1))) == nodeR(c.pre, b, o, rixR(c.pre, b, o, c.a(1))), nodeR(c.pre, b, o, rixR(c.pre, b, o, c.a(1)) - 1) == nodeR(c.pre, b, o, rixR(c.pre, b, o, c.a(1)) - 1)])(*cnt(c, 3)),
  ensures=lambda c: (lambda b, o, n: rwf(c.post, b, o, c.r, c.post.Ia(b)[o]) + rget_ens(c, b, o, n, add_new(c.a(1), c.a(2), c.a(4))) + row_frame(c, b, o))(*cnt(c, 3)),
  loops=[Loop(walk=wr, bound=lambda c: cnt(c, 3)[2],
     inv=lambda c: (lambda b, o, n: [("passed entries have smaller columns", c.k <= rixR(c.pre, b, o, c.a(1))), ("row not empty", And(n > 0, colN(c.pre, nodeR(c.pre, b, o, iv(0))) <= c.a(1))),
          ("trailing node", Implies(c.k > 0, c.lv("trail_node", "ptr") == nodeR(c.pre, b, o, c.k - 1)))])(*cnt(c, 3)))])

# ---------------------------------------------------------------- whole intermediate matrices
def imB(v, M): return v.f(IM + ".row_length", M)
def imR(v, M): return v.f(IM + ".row", M)
def imN(v, M): return v.f(IM + ".num_rows", M)
def imlen(v, M, r): return v.Ia(imB(v, M))[r]
def imwf(v, M):
    r = bound("r"); b = imB(v, M)
    return [("matrix live", And(M > 0, v.valid(M), KIND(M) == E.kind_of(IM), imN(v, M) >= 0)),
            ("row arrays live", And(*[Sel(v.gh("rownb"), x) == 0 for x in (M, imR(v, M), b)], imR(v, M) > 0, b > 0, arr_ok(v, imR(v, M), imN(v, M), "ptr"), arr_ok(v, b, imN(v, M), "int"), LEN(imR(v, M)) == imN(v, M)))] + rwf(v, b, r, v.P(imR(v, M))[r], v.Ia(b)[r], rows=imN(v, M))
def iget(v, M, r, x): return rget(v, imB(v, M), r, imlen(v, M, r), x)
def nodeI(v, M, r, k): return nodeR(v, imB(v, M), r, k)
isum = RecFun("isum", [AI], I, lambda a: iv(0), lambda a, i, p: p + a[i])
isum_mono = Lemma("isum_mono", [AI, I], lambda a, m, n: Implies(And(0 <= m, m <= n, (lambda i: forall(i, Implies(And(0 <= i, i < n), a[i] >= 0), [a[i]]))(bound("i"))), isum(a, m) <= isum(a, n)),
                  pats=lambda a, m, n: [z3.MultiPattern(isum(a, m), isum(a, n))])
lsum = RecFun("lsum", [AI, AR], R, lambda s, m: rv(0), lambda s, m, i, p: p + m[s[i]])    # sum of m over the nodes s[0..n-1]

contract("newIMatrix", file=F, requires=lambda c: [("rows", c.a(0) >= 0)], ghost_writes=RG, modifies=lambda c: {},
  ghost_exit=lambda c: {"rix": z3.Store(c.now.gh("rix"), imB(c.now, c.r), z3.K(I, z3.K(I, iv(0))))},
  ensures=lambda c: (lambda r, x: [("fresh matrix", And(c.r >= c.pre.clk, imR(c.post, c.r) >= c.pre.clk, imB(c.post, c.r) >= c.pre.clk, imN(c.post, c.r) == c.a(0)))] + imwf(c.post, c.r) +
      [("no entry is stored", forall(r, Implies(And(0 <= r, r < c.a(0)), imlen(c.post, c.r, r) == 0), [imlen(c.post, c.r, r)])), ("every entry is zero", forall([r, x], Implies(And(0 <= r, r < c.a(0)), iget(c.post, c.r, r, x) == 0), [rixR(c.post, imB(c.post, c.r), r, x)]))])(bound("r"), bound("x")))
def im_pre(c): return imwf(c.pre, c.a(0)) + [("row in range", And(0 <= c.a(1), c.a(1) < imN(c.pre, c.a(0))))]
def im_mods(c):
    m = row_mods(c, imB(c.pre, c.a(0)), c.a(1)); m["M:ptr"] = [imR(c.pre, c.a(0))]; return m
def im_ens(c, acc):
    M, r, x = c.a(0), bound("r"), bound("x")
    return imwf(c.post, M) + [("entry values", forall([r, x], Implies(And(0 <= r, r < imN(c.pre, M)), iget(c.post, M, r, x) == If(r == c.a(1), add_new(c.a(2), c.a(3), iv(acc))(x, iget(c.pre, M, r, x)), iget(c.pre, M, r, x))), [rixR(c.post, imB(c.post, M), r, x)])),
      ("no other column stored", forall([r, x], Implies(And(0 <= r, r < imN(c.pre, M), Not(And(r == c.a(1), x == c.a(2))), present(c.post, imB(c.post, M), r, imlen(c.post, M, r), x)), present(c.pre, imB(c.pre, M), r, imlen(c.pre, M, r), x)), [rixR(c.post, imB(c.post, M), r, x)]))]
for _n, _acc in (("addEntryToIMatrix", 0), ("accumulateEntryInIMatrix", 1)):
    contract(_n, file=F, requires=im_pre, modifies=im_mods, ghost_writes=RG, ensures=lambda c, _acc=_acc: im_ens(c, _acc) + [("success", c.r == 1)])
contract("countEntriesInIMatrix", file=F, requires=lambda c: imwf(c.pre, c.a(0)),
  ensures=lambda c: [("number of entries", And(c.r == isum(c.pre.Ia(imB(c.pre, c.a(0))), imN(c.pre, c.a(0))), c.r >= 0))], hints=lambda c: [isum_mono(c.pre.Ia(imB(c.pre, c.a(0))), iv(0), imN(c.pre, c.a(0)))],
  loops=[Loop(bound=lambda c: imN(c.pre, c.a(0)), inv=lambda c: [("prefix counted", c.lv("total", "int") == isum(c.pre.Ia(imB(c.pre, c.a(0))), c.k))])])
def row_walk(B, o, n):
    def mk(d): return lambda k, v: If(And(0 <= k + d, k + d < n), nodeR(v, B, o, k + d), iv(0))
    return [mk(0), mk(1), mk(-1)]
contract("sumIMatrixRowValues", file=F, requires=im_pre,
  ensures=lambda c: [("sum of the entries of the row", c.r == lsum(Sel(c.pre.gh("rseq"), imB(c.pre, c.a(0)), c.a(1)), c.pre.m(fR("value")), imlen(c.pre, c.a(0), c.a(1))))],
  loops=[Loop(walk=lambda c: row_walk(imB(c.pre, c.a(0)), c.a(1), imlen(c.pre, c.a(0), c.a(1))), bound=lambda c: imlen(c.pre, c.a(0), c.a(1)),
     inv=lambda c: [("prefix summed", c.lv("sum", "real") == lsum(Sel(c.pre.gh("rseq"), imB(c.pre, c.a(0)), c.a(1)), c.pre.m(fR("value")), c.k))])])
def drow(c): b, o = Sel(c.pre.gh("rownb"), c.a(0)), Sel(c.pre.gh("rowno"), c.a(0)); return b, o, c.pre.Ia(b)[o]
contract("destroyRow", file=F, requires=lambda c: [(l, Implies(c.a(0) != 0, f)) for l, f in rwf(c.pre, *drow(c)[:2], c.a(0), drow(c)[2])],
  modifies=lambda c: {"freed": (lambda r: And(c.a(0) != 0, inrow(c.pre, r, *drow(c)[:2])))},
  ensures=lambda c: (lambda k, b, o, n: [("every entry released", Implies(c.a(0) != 0, forall(k, Implies(And(0 <= k, k < n), Not(c.post.valid(nodeR(c.pre, b, o, k)))), [nodeR(c.pre, b, o, k)])))])(bound(), *drow(c)),
  loops=[Loop(walk=lambda c: row_walk(drow(c)[0], drow(c)[1], If(c.a(0) != 0, drow(c)[2], iv(0))), bound=lambda c: If(c.a(0) != 0, drow(c)[2], iv(0)),
    inv=lambda c: (lambda k, b, o, n: [("rest live", Implies(c.a(0) != 0, forall(k, Implies(And(c.k <= k, k < n), c.now.valid(nodeR(c.pre, b, o, k))), [nodeR(c.pre, b, o, k)]))),
        ("prefix released", Implies(c.a(0) != 0, forall(k, Implies(And(0 <= k, k < c.k), Not(c.now.valid(nodeR(c.pre, b, o, k)))), [nodeR(c.pre, b, o, k)])))])(bound(), *drow(c)))])
contract("destroyIMatrix", file=F, requires=lambda c: imwf(c.pre, c.a(0)),
  modifies=lambda c: {"freed": (lambda r: Or(r == c.a(0), r == imB(c.pre, c.a(0)), r == imR(c.pre, c.a(0)), Sel(c.pre.gh("rownb"), r) == imB(c.pre, c.a(0)))),
        IM and "F:" + IM + ".row": [c.a(0)], "F:" + IM + ".row_length": [c.a(0)]},
  ensures=lambda c: [("matrix released", And(*[Not(c.post.valid(x)) for x in (c.a(0), imB(c.pre, c.a(0)), imR(c.pre, c.a(0)))]))],
  loops=[Loop(bound=lambda c: imN(c.pre, c.a(0)),
    inv=lambda c: (lambda r, k, M: [("header and row array live", And(c.now.valid(M), c.now.valid(imR(c.pre, M)), Not(c.now.valid(imB(c.pre, M))))),
       ("rest live", forall([r, k], Implies(And(c.k <= r, r < imN(c.pre, M), 0 <= k, k < imlen(c.pre, M, r)), c.now.valid(nodeI(c.pre, M, r, k))), [nodeI(c.pre, M, r, k)]))])(bound("r"), bound(), c.a(0)))])

# ---------------------------------------------------------------- compressed matrices
def mxf(f): return lambda v, M: v.f(MX + "." + f, M)
mxN, mxZ, mxV, mxS, mxL, mxC = (mxf(f) for f in ("num_rows", "num_non_zero", "mat_val", "row_start", "row_length", "col"))
def st_(v, M, r): return v.Ia(mxS(v, M))[r]
def ln_(v, M, r): return v.Ia(mxL(v, M))[r]
def mwf0(v, M):
    A = [mxV(v, M), mxS(v, M), mxL(v, M), mxC(v, M)]
    return [("matrix live", And(M > 0, v.valid(M), KIND(M) == E.kind_of(MX), mxN(v, M) >= 0, mxZ(v, M) >= 0)),
            ("matrix arrays live and distinct", And(*[a > 0 for a in A], arr_ok(v, A[0], mxZ(v, M)), arr_ok(v, A[1], mxN(v, M), "int"), arr_ok(v, A[2], mxN(v, M), "int"), arr_ok(v, A[3], mxZ(v, M), "int"), A[1] != A[2], A[1] != A[3], A[2] != A[3], *[Sel(v.gh("mown"), a) == M for a in A]))]
def mwf(v, M):
    r = bound("r")
    return mwf0(v, M) + [("rows lie inside the arrays", forall(r, Implies(And(0 <= r, r < mxN(v, M)), And(0 <= st_(v, M, r), 0 <= ln_(v, M, r), st_(v, M, r) + ln_(v, M, r) <= mxZ(v, M))), [st_(v, M, r), ln_(v, M, r)]))]
# first position in row segment cols[s..s+n-1] holding column x (n if none)
fidx = RecFun("fidx", [AI, I, I], I, lambda a, s, x: iv(0), lambda a, s, x, i, p: If(p < i, p, If(a[s + i] == x, i, i + 1)))
def _fidx(a, s, x, n):
    j = bound("j"); f = fidx(a, s, x, n)
    return And(0 <= f, f <= n, Implies(f < n, a[s + f] == x), forall(j, Implies(And(0 <= j, j < f), a[s + j] != x), [a[s + j]]))
fidx_is = Lemma("fidx_is", [AI, I, I], _fidx, pats=lambda a, s, x, n: [fidx(a, s, x, n)])
def ent(v, M, r, x):
    """entry (r,x) of the compressed matrix"""
    j = fidx(v.Ia(mxC(v, M)), st_(v, M, r), x, ln_(v, M, r))
    return If(j < ln_(v, M, r), v.D(mxV(v, M))[st_(v, M, r) + j], rv(0))
segsum = RecFun("segsum", [AR, I], R, lambda a, s: rv(0), lambda a, s, i, p: p + a[s + i])
def own_arrays(c):
    m = c.now.gh("mown")
    for f in (mxV, mxS, mxL, mxC): m = z3.Store(m, f(c.now, c.r), c.r)
    return {"mown": m}
contract("newMatrix", file=F, requires=lambda c: [("sizes", And(c.a(0) >= 0, c.a(1) >= 0))], ghost_writes=("mown",), ghost_exit=own_arrays,
  ensures=lambda c: [("fresh matrix of the given sizes", And(c.r >= c.pre.clk, *[f(c.post, c.r) >= c.pre.clk for f in (mxV, mxS, mxL, mxC)], mxN(c.post, c.r) == c.a(0), mxZ(c.post, c.r) == c.a(1), *[Sel(c.post.gh("rownb"), x) == 0 for x in (c.r, *[f(c.post, c.r) for f in (mxV, mxS, mxL, mxC)])]))] + mwf(c.post, c.r))
contract("destroyMatrix", file=F, requires=lambda c: mwf0(c.pre, c.a(0)),
  modifies=lambda c: dict({"freed": [c.a(0)] + [f(c.pre, c.a(0)) for f in (mxV, mxS, mxL, mxC)]}, **{"F:" + MX + "." + f: [c.a(0)] for f in ("mat_val", "row_start", "row_length", "col")}),
  ensures=lambda c: [("matrix released", And(Not(c.post.valid(c.a(0))), *[Not(c.post.valid(f(c.pre, c.a(0)))) for f in (mxV, mxS, mxL, mxC)]))])
def mrow(c): return [("row in range", And(0 <= c.a(1), c.a(1) < mxN(c.pre, c.a(0))))]
contract("sumRowValues", file=F, requires=lambda c: mwf(c.pre, c.a(0)) + mrow(c),
  ensures=lambda c: [("sum of the entries of the row", c.r == segsum(c.pre.D(mxV(c.pre, c.a(0))), st_(c.pre, c.a(0), c.a(1)), ln_(c.pre, c.a(0), c.a(1))))],
  loops=[Loop(bound=lambda c: ln_(c.pre, c.a(0), c.a(1)), inv=lambda c: [("prefix summed", c.lv("sum", "real") == segsum(c.pre.D(mxV(c.pre, c.a(0))), st_(c.pre, c.a(0), c.a(1)), c.k))])])
contract("getEntryMatrix", file=F, requires=lambda c: mwf(c.pre, c.a(0)) + mrow(c),
  ensures=lambda c: [("the entry stored at row and column, 0 if none is stored", c.r == ent(c.pre, c.a(0), c.a(1), c.a(2)))], hints=lambda c: [fidx_is.all()],
  loops=[Loop(bound=lambda c: ln_(c.pre, c.a(0), c.a(1)), inv=lambda c: [("not found so far", fidx(c.pre.Ia(mxC(c.pre, c.a(0))), st_(c.pre, c.a(0), c.a(1)), c.a(2), c.k) == c.k)])])
def seg_copied(v, c, M, X, r, j):
    """entry j of row r copied from the list"""
    return And(v.Ia(mxC(v, X))[st_(v, X, r) + j] == colN(c.pre, nodeI(c.pre, M, r, j)), v.D(mxV(v, X))[st_(v, X, r) + j] == valN(c.pre, nodeI(c.pre, M, r, j)))
def tr_inv(c, X):
    M, v, r, j = c.a(0), c.now, bound("r"), bound("j"); L = c.pre.Ia(imB(c.pre, M))
    return [("position", And(c.lv("index", "int") == isum(L, c.k), isum(L, c.k) >= 0)),
            ("rows placed", forall(r, Implies(And(0 <= r, r < c.k), And(st_(v, X, r) == isum(L, r), st_(v, X, r) >= 0, ln_(v, X, r) == L[r], st_(v, X, r) + L[r] <= isum(L, c.k))), [st_(v, X, r), ln_(v, X, r)])),
            ("rows copied", forall([r, j], Implies(And(0 <= r, r < c.k, 0 <= j, j < L[r]), seg_copied(v, c, M, X, r, j)), [nodeI(c.pre, M, r, j)]))]
def tr_inner(c, X):
    M, v, r, j = c.a(0), c.now, bound("r"), bound("j"); L = c.pre.Ia(imB(c.pre, M)); row = c.lv("row", "int")
    return [("position", c.lv("index", "int") == isum(L, row) + c.k), ("row in range", And(0 <= row, row < imN(c.pre, M), st_(v, X, row) == isum(L, row), ln_(v, X, row) == L[row])),
            ("earlier rows kept", forall([r, j], Implies(And(0 <= r, r < row, 0 <= j, j < L[r]), seg_copied(v, c, M, X, r, j)), [nodeI(c.pre, M, r, j)])),
            ("prefix copied", forall(j, Implies(And(0 <= j, j < c.k), seg_copied(v, c, M, X, row, j)), [nodeI(c.pre, M, row, j)]))]
def tr_mods(c):
    X = c.lv("matrix", "ptr"); return {"M:int": [mxS(c.at, X), mxL(c.at, X), mxC(c.at, X)], "M:real": [mxV(c.at, X)]}
def tr_mods2(c):
    X = c.lv("matrix", "ptr"); return {"M:int": [mxC(c.at, X)], "M:real": [mxV(c.at, X)]}
def tr_mono2(c):
    L = c.pre.Ia(imB(c.pre, c.a(0))); row = c.lv("row", "int")
    return [isum_mono(L, row + 1, imN(c.pre, c.a(0)))]
def tr_touch(c):
    M, X, v, r, x = c.a(0), c.r, c.now, bound("r"), bound("x"); B_ = imB(c.pre, M); ix = rixR(c.pre, B_, r, x)
    f = fidx(v.Ia(mxC(v, X)), st_(v, X, r), x, ln_(v, X, r))
    return forall([r, x], touch(nodeR(c.pre, B_, r, f), nodeR(c.pre, B_, r, ix), v.Ia(mxC(v, X))[st_(v, X, r) + ix], v.Ia(mxC(v, X))[st_(v, X, r) + f]), [ix])
def tr_mono(c):
    L = c.pre.Ia(imB(c.pre, c.a(0)))
    return [isum_mono.all()]
def tr_cols(c, M):
    r, i = bound("r"), bound("i"); v = c.post; C_, st, ln = v.Ia(mxC(v, c.r)), v.Ia(mxS(v, c.r)), v.Ia(mxL(v, c.r)); b = imB(c.pre, M)
    q = lambda f: forall([r, i], Implies(And(0 <= r, r < imN(c.pre, M), st[r] <= i, i < st[r] + ln[r]), f), [z3.MultiPattern(st[r], C_[i])])
    return [("stored columns are those of the list", q(And(C_[i] == colN(c.pre, nodeI(c.pre, M, r, i - st[r])), rixR(c.pre, b, r, C_[i]) == i - st[r], present(c.pre, b, r, imlen(c.pre, M, r), C_[i])))), ("columns distinct in a row", q(fidx(C_, st[r], C_[i], ln[r]) == i - st[r]))]
contract("transformIMatrix", file=F, chain=True, requires=lambda c: imwf(c.pre, c.a(0)), hints=lambda c: [fidx_is.all(), isum_mono.all(), tr_touch(c)],
  ensures=lambda c: (lambda r, x, j, M: [("fresh matrix", And(c.r >= c.pre.clk, *[f(c.post, c.r) >= c.pre.clk for f in (mxV, mxS, mxL, mxC)], mxN(c.post, c.r) == imN(c.pre, M)))] + mwf(c.post, c.r) +
     [("rows stored one after the other", forall(r, Implies(And(0 <= r, r < imN(c.pre, M)), And(ln_(c.post, c.r, r) == imlen(c.pre, M, r), st_(c.post, c.r, r) == isum(c.pre.Ia(imB(c.pre, M)), r))), [st_(c.post, c.r, r)])),
      ("entries in list order", forall([r, j], Implies(And(0 <= r, r < imN(c.pre, M), 0 <= j, j < imlen(c.pre, M, r)), seg_copied(c.post, c, M, c.r, r, j)), [nodeI(c.pre, M, r, j)])),
      ("fresh blocks in no row", And(*[Sel(c.post.gh("rownb"), x) == 0 for x in (c.r, *[f(c.post, c.r) for f in (mxV, mxS, mxL, mxC)])])),
      ("a column is found at its position in the row list", forall([r, x], Implies(And(0 <= r, r < imN(c.pre, M)), fidx(c.post.Ia(mxC(c.post, c.r)), st_(c.post, c.r, r), x, ln_(c.post, c.r, r)) == If(present(c.pre, imB(c.pre, M), r, imlen(c.pre, M, r), x), rixR(c.pre, imB(c.pre, M), r, x), imlen(c.pre, M, r))), [rixR(c.pre, imB(c.pre, M), r, x)])),
      ("same entry at every row and column", forall([r, x], Implies(And(0 <= r, r < imN(c.pre, M)), ent(c.post, c.r, r, x) == iget(c.pre, M, r, x)), [rixR(c.pre, imB(c.pre, M), r, x)]))] + tr_cols(c, M))(bound("r"), bound("x"), bound("j"), c.a(0)),
  loops=[Loop(bound=lambda c: imN(c.pre, c.a(0)), mods=tr_mods, inv=lambda c: tr_inv(c, c.lv("matrix", "ptr")), hints=tr_mono),
         Loop(bound=lambda c: imlen(c.pre, c.a(0), c.lv("row", "int")), walk=lambda c: row_walk(imB(c.pre, c.a(0)), c.lv("row", "int"), imlen(c.pre, c.a(0), c.lv("row", "int"))), mods=tr_mods2, inv=lambda c: tr_inner(c, c.lv("matrix", "ptr")), hints=tr_mono2)])
