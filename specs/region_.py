"""src/region.c: region programs (P11) and src/lp-interface.c: handing them to the bundled solver (P12)."""
from .alpha_ import *
from . import names_
F, FL = "src/region.c", "src/lp-interface.c"
LPT = "LpStruct"
def lf(v, f, p): return v.f(LPT + "." + f, p)
def LPF(f): return "F:" + LPT + "." + f
REALS = ("obj", "lowbnd", "upbnd", "x", "rhs", "matval"); INTS = ("matbeg", "matcnt", "matind")
def lp_parts(v, p):
    n, m, s = lf(v, "cols", p), lf(v, "rows", p), lf(v, "matspace", p); size = dict(obj=n, lowbnd=n, upbnd=n, x=n, rhs=m, matval=s, matbeg=n, matcnt=n, matind=s)
    return size
def lp_ok(v, p):
    """p is a program record of its own arrays, big enough for its dimensions"""
    sz = lp_parts(v, p); A = {f: lf(v, f, p) for f in sz}; sn = lf(v, "sense", p)
    out = [("program record live", And(p > 0, v.valid(p), KIND(p) == E.kind_of(LPT))), ("program dimensions", And(lf(v, "cols", p) >= 1, lf(v, "rows", p) >= 1, lf(v, "matspace", p) >= 1))]
    for f in sz: out.append(("program array " + f, And(A[f] > 0, arr_ok(v, A[f], sz[f], "real" if f in REALS else "int"), bown(v, A[f]) == 0, own(v, A[f]) == 0)))
    out.append(("program array sense", And(sn > 0, arr_ok(v, sn, lf(v, "rows", p), "char"), bown(v, sn) == 0, sn != lf(v, "name", p))))
    for g in (REALS, INTS): out.append(("program arrays are distinct", z3.Distinct(*[A[f] for f in g])))
    return out
def lp_name(v, p): N = lf(v, "name", p); return [("program name", And(N > 0, v.valid(N), KIND(N) == E.kind_of("char"), N != lf(v, "sense", p), LEN(N) >= 1))]

# ---------------------------------------------------------------- counting coefficients
def nz(x, e): return Not(eqe(x, rv(0), e))
def one(b): return If(b, iv(1), iv(0))
acnt = RecFun("acnt", [AR, R], I, lambda a, e: iv(0), lambda a, e, i, p: p + one(nz(a[i], e)))
LS = [AI, AI, AAR, R]
def ev(sq, AF, DM, k): return Sel(DM, AF[sq[k]])
lcnt = RecFun("lcnt", LS + [I], I, lambda *a: iv(0), lambda sq, AF, DM, e, s, k, p: p + one(nz(ev(sq, AF, DM, k)[s], e)))      # column s, first k members
rcnt = RecFun("rcnt", LS + [I], I, lambda *a: iv(0), lambda sq, AF, DM, e, k, s, p: p + one(nz(ev(sq, AF, DM, k)[s], e)))      # member k, first s columns
scnt = RecFun("scnt", LS + [I], I, lambda *a: iv(0), lambda sq, AF, DM, e, k, s, p: p + lcnt(sq, AF, DM, e, s, k))             # first s columns, first k members
gcnt = RecFun("gcnt", LS + [I], I, lambda *a: iv(0), lambda sq, AF, DM, e, n, k, p: p + rcnt(sq, AF, DM, e, k, n))             # first k members, n columns
sc_zero = Lemma("sc_zero", LS, lambda sq, AF, DM, e, s: scnt(sq, AF, DM, e, iv(0), s) == 0)
sc_step = Lemma("sc_step", LS + [I], lambda sq, AF, DM, e, k, s: Implies(k >= 0, scnt(sq, AF, DM, e, k + 1, s) == scnt(sq, AF, DM, e, k, s) + rcnt(sq, AF, DM, e, k, s)))
fubini = Lemma("fubini", LS + [I], lambda sq, AF, DM, e, n, k: Implies(n >= 0, gcnt(sq, AF, DM, e, n, k) == scnt(sq, AF, DM, e, k, n)), extra=lambda sq, AF, DM, e, n, k: [sc_zero(sq, AF, DM, e, n), sc_step(sq, AF, DM, e, k, n)])
lc_mono = Lemma("lc_mono", LS + [I, I], lambda sq, AF, DM, e, s, k, n: Implies(And(0 <= k, k <= n), And(0 <= lcnt(sq, AF, DM, e, s, k), lcnt(sq, AF, DM, e, s, k) <= lcnt(sq, AF, DM, e, s, n))), extra=lambda sq, AF, DM, e, s, k, n: [lc_nn(sq, AF, DM, e, s, k), lc_nn(sq, AF, DM, e, s, n)])
lc_nn = Lemma("lc_nn", LS + [I], lambda sq, AF, DM, e, s, k: lcnt(sq, AF, DM, e, s, k) >= 0)
# coefficients in the columns before column s: the simplex row, the vector's own row, the rows of n members
def ib(sq, AF, DM, e, a, n, s): return s + acnt(a, e, s) + scnt(sq, AF, DM, e, n, s)
ib_mono = Lemma("ib_mono", LS + [AR, I, I], lambda sq, AF, DM, e, a, n, s, t: Implies(And(0 <= s, s <= t, n >= 0), And(0 <= scnt(sq, AF, DM, e, n, s), ib(sq, AF, DM, e, a, n, s) <= ib(sq, AF, DM, e, a, n, t))), extra=lambda sq, AF, DM, e, a, n, s, t: [lc_nn(sq, AF, DM, e, t, n), sc_nn(sq, AF, DM, e, n, s), sc_nn(sq, AF, DM, e, n, t)])
ib_step = Lemma("ib_step", LS + [AR, I, I], lambda sq, AF, DM, e, a, n, s: Implies(s >= 0, And(scnt(sq, AF, DM, e, n, s + 1) == scnt(sq, AF, DM, e, n, s) + lcnt(sq, AF, DM, e, s, n), acnt(a, e, s + 1) == acnt(a, e, s) + one(nz(a[s], e)))), induct=False)
ib_zero = Lemma("ib_zero", LS + [AR, I], lambda sq, AF, DM, e, a, n: ib(sq, AF, DM, e, a, n, iv(0)) == 0, induct=False)
sc_nn = Lemma("sc_nn", LS + [I], lambda sq, AF, DM, e, k, s: Implies(k >= 0, scnt(sq, AF, DM, e, k, s) >= 0), extra=lambda sq, AF, DM, e, k, s: [lc_nn(sq, AF, DM, e, s, k)])
def la(v, L, e): return (seqL(v, L), v.m(fA("alpha")), v.m("M:real"), e)

# the counts depend on the members' components alone
def comps_same(sq, AF, D1, D2, n): j = bound("j"); return forall(j, Implies(And(0 <= j, j < n), Sel(D1, AF[sq[j]]) == Sel(D2, AF[sq[j]])), [sq[j]])
CSAME = Opaque("CSAME", [AI, AI, AAR, AAR, I], B, comps_same)
LX = [AI, AI, AAR, AAR, R]
rc_ext = Lemma("rc_ext", LX + [I], lambda sq, AF, D1, D2, e, k, n: Implies(Sel(D1, AF[sq[k]]) == Sel(D2, AF[sq[k]]), rcnt(sq, AF, D1, e, k, n) == rcnt(sq, AF, D2, e, k, n)))
lc_ext = Lemma("lc_ext", LX + [I, I], lambda sq, AF, D1, D2, e, s, K, k: Implies(And(CSAME(sq, AF, D1, D2, K), k <= K), lcnt(sq, AF, D1, e, s, k) == lcnt(sq, AF, D2, e, s, k)), extra=lambda sq, AF, D1, D2, e, s, K, k: [CSAME.reveal()])
sc_ext = Lemma("sc_ext", LX + [I, I], lambda sq, AF, D1, D2, e, K, k, s: Implies(And(CSAME(sq, AF, D1, D2, K), 0 <= k, k <= K), scnt(sq, AF, D1, e, k, s) == scnt(sq, AF, D2, e, k, s)), extra=lambda sq, AF, D1, D2, e, K, k, s: [lc_ext(sq, AF, D1, D2, e, s, K, k)])
gc_ext = Lemma("gc_ext", LX + [I, I], lambda sq, AF, D1, D2, e, K, n, k: Implies(And(CSAME(sq, AF, D1, D2, K), k <= K), gcnt(sq, AF, D1, e, n, k) == gcnt(sq, AF, D2, e, n, k)), extra=lambda sq, AF, D1, D2, e, K, n, k: [CSAME.reveal(), rc_ext(sq, AF, D1, D2, e, k, n), rc_neg(sq, AF, D1, D2, e, k, n)])
rc_neg = Lemma("rc_neg", LX + [I, I], lambda sq, AF, D1, D2, e, k, n: Implies(n <= 0, rcnt(sq, AF, D1, e, k, n) == rcnt(sq, AF, D2, e, k, n)), induct=False)

contract("countNonZeroesAlpha", file=F, requires=lambda c: sizes(c) + [("vector", And(c.a(0) != 0, arr_ok(c.pre, c.a(0), nS(c.pre))))],
  ensures=lambda c: [("number of components not within epsilon of zero", c.r == acnt(c.pre.D(c.a(0)), c.a(1), nS(c.pre)))],
  loops=[Loop(only=True, bound=lambda c: nS(c.pre), inv=lambda c: [("count so far", c.lv("count", "int") == acnt(c.pre.D(c.a(0)), c.a(1), c.k))])])
C["countNonZeroesAlpha"].local_names = {"count"}
contract("countNonZeroesList", file=F, requires=lambda c: sizes(c) + wf(c.pre, c.a(0)),
  ensures=lambda c: [("number of components not within epsilon of zero", c.r == gcnt(*la(c.pre, c.a(0), c.a(1)), nS(c.pre), lenL(c.pre, c.a(0))))],
  loops=[Loop(walk=lambda c: walks(c.a(0)), bound=lambda c: lenL(c.pre, c.a(0)), inv=lambda c: [("count so far", c.lv("count", "int") == gcnt(*la(c.pre, c.a(0), c.a(1)), nS(c.pre), c.k))]),
         Loop(only=True, bound=lambda c: nS(c.pre), inv=lambda c: [("count so far", c.lv("count", "int") == gcnt(*la(c.pre, c.a(0), c.a(1)), nS(c.pre), pos(c.pre, c.lv("list", "ptr"))) + rcnt(*la(c.pre, c.a(0), c.a(1)), pos(c.pre, c.lv("list", "ptr")), c.k))])])
C["countNonZeroesList"].local_names = {"count", "list"}

INFB = rv("999999999999999980000000")       # INFBOUND, 1e24, as the compiler front end prints the double
def objective(c, v, p):
    """maximise the margin; beliefs between 0 and 1, the other variables non-negative"""
    i = bound("i"); n = nS(c.pre); N = lf(v, "cols", p); ob, lo, up = (v.D(lf(v, f, p)) for f in ("obj", "lowbnd", "upbnd"))
    return [("maximisation", lf(v, "objsen", p) == -1), ("the objective is the margin variable", forall(i, Implies(And(0 <= i, i < N), ob[i] == If(i == n, rv(1), rv(0))), [ob[i]])),
            ("variable bounds", forall(i, Implies(And(0 <= i, i < N), And(lo[i] == 0, up[i] == If(i < n, rv(1), INFB))), [lo[i]])), ("variable bounds, upper", forall(i, Implies(And(0 <= i, i < N), up[i] == If(i < n, rv(1), INFB)), [up[i]]))]
contract("setUpObjectiveFunction", file=F, requires=lambda c: sizes(c) + lp_ok(c.pre, c.a(0)) + [("a column for every state and the margin", lf(c.pre, "cols", c.a(0)) > nS(c.pre))],
  modifies=lambda c: {"M:real": [lf(c.pre, f, c.a(0)) for f in ("obj", "lowbnd", "upbnd")], LPF("objsen"): [c.a(0)]},
  ensures=lambda c: objective(c, c.post, c.a(0)),
  loops=[Loop(only=True, bound=lambda c: lf(c.pre, "cols", c.a(0)), mods=lambda c: {"M:real": [lf(c.pre, "obj", c.a(0))]}, inv=lambda c: (lambda i: [("zeroes so far", forall(i, Implies(And(0 <= i, i < c.k), c.now.D(lf(c.pre, "obj", c.a(0)))[i] == 0), [c.now.D(lf(c.pre, "obj", c.a(0)))[i]]))])(bound("i"))),
         Loop(only=True, bound=lambda c: nS(c.pre), mods=lambda c: {"M:real": [lf(c.pre, "lowbnd", c.a(0)), lf(c.pre, "upbnd", c.a(0))]}, inv=lambda c: bnds(c, c.k)),
         Loop(only=True, bound=lambda c: lf(c.pre, "cols", c.a(0)) - nS(c.pre), mods=lambda c: {"M:real": [lf(c.pre, "lowbnd", c.a(0)), lf(c.pre, "upbnd", c.a(0))]}, inv=lambda c: bnds(c, nS(c.pre) + c.k))])
def bnds(c, k):
    i = bound("i"); lo, up = (c.now.D(lf(c.pre, f, c.a(0))) for f in ("lowbnd", "upbnd"))
    return [("lower bounds so far", forall(i, Implies(And(0 <= i, i < k), lo[i] == 0), [lo[i]])), ("upper bounds so far", forall(i, Implies(And(0 <= i, i < k), up[i] == If(i < nS(c.pre), rv(1), INFB)), [up[i]]))]

def mat(v, p): return v.D(lf(v, "matval", p)), v.Ia(lf(v, "matind", p)), v.Ia(lf(v, "matbeg", p)), v.Ia(lf(v, "matcnt", p))
def below(v0, v1, p, n):
    """entries before position n of the coefficient arrays are unchanged"""
    i = bound("i"); a, b = mat(v0, p), mat(v1, p)
    return [("earlier coefficients stay", forall(i, Implies(And(0 <= i, i < n), b[0][i] == a[0][i]), [b[0][i]])), ("earlier row numbers stay", forall(i, Implies(And(0 <= i, i < n), b[1][i] == a[1][i]), [b[1][i]]))]
def extra_col(m, mb, mc, col, i0, rows, sign, upto=None):
    """column col starts at i0 and holds `sign` in rows 1..rows-1"""
    r = bound("r"); mv, mi = m
    return [("extra column: coefficients and rows", forall(r, Implies(And(i0 <= r, r < i0 + (rows - 1 if upto is None else upto)), And(mv[r] == sign, mi[r] == r - i0 + 1)), [mv[r]])), ("extra column: rows", forall(r, Implies(And(i0 <= r, r < i0 + (rows - 1 if upto is None else upto)), mi[r] == r - i0 + 1), [mi[r]]))]
contract("addExtraVarColumn", file=F, interior=(2,),
  requires=lambda c: sizes(c) + lp_ok(c.pre, c.a(0)) + [("column in range", And(0 <= c.a(1), c.a(1) < lf(c.pre, "cols", c.a(0)))), ("position cell", And(c.pre.valid(c.arg(2).b), 0 <= c.arg(2).o, c.arg(2).o < LEN(c.arg(2).b), KIND(c.arg(2).b) == E.kind_of("int"), *[c.arg(2).b != lf(c.pre, f, c.a(0)) for f in INTS])),
     ("room for the column", And(lf(c.pre, "rows", c.a(0)) >= 2, ix0(c) >= 0, ix0(c) + lf(c.pre, "rows", c.a(0)) - 1 <= lf(c.pre, "matspace", c.a(0))))],
  modifies=lambda c: {"M:real": [lf(c.pre, "matval", c.a(0))], "M:int": [lf(c.pre, f, c.a(0)) for f in INTS] + [c.arg(2).b]},
  ensures=lambda c: (lambda m, p, i: [("position advanced by one entry per row from 1", c.post.Ia(c.arg(2).b)[c.arg(2).o] == ix0(c) + lf(c.pre, "rows", p) - 1), ("column start", m[2][c.a(1)] == ix0(c)), ("column length", m[3][c.a(1)] == lf(c.pre, "rows", p) - 1)] +
     extra_col(m[:2], m[2], m[3], c.a(1), ix0(c), lf(c.pre, "rows", p), c.a(3)) + below(c.pre, c.post, p, ix0(c)) +
     [("other columns keep their start", forall(i, Implies(i != c.a(1), m[2][i] == mat(c.pre, p)[2][i]), [m[2][i]])), ("other columns keep their length", forall(i, Implies(i != c.a(1), m[3][i] == mat(c.pre, p)[3][i]), [m[3][i]])),
      ("nothing else in the block of the position", forall(i, Implies(i != c.arg(2).o, c.post.Ia(c.arg(2).b)[i] == c.pre.Ia(c.arg(2).b)[i]), [c.post.Ia(c.arg(2).b)[i]]))])(mat(c.post, c.a(0)), c.a(0), bound("i")),
  loops=[Loop(only=True, bound=lambda c: lf(c.pre, "rows", c.a(0)) - 2, mods=lambda c: {"M:real": [lf(c.pre, "matval", c.a(0))], "M:int": [lf(c.pre, "matind", c.a(0)), c.arg(2).b]},
     inv=lambda c: [("position", c.now.Ia(c.arg(2).b)[c.arg(2).o] == ix0(c) + 1 + c.k), ("nothing else in the block of the position", (lambda i: forall(i, Implies(i != c.arg(2).o, c.now.Ia(c.arg(2).b)[i] == c.pre.Ia(c.arg(2).b)[i]), [c.now.Ia(c.arg(2).b)[i]]))(bound("i")))] + extra_col(mat(c.now, c.a(0))[:2], None, None, None, ix0(c), None, c.a(3), upto=c.k + 1) + below(c.pre, c.now, c.a(0), ix0(c)))])
def ix0(c): return c.pre.Ia(c.arg(2).b)[c.arg(2).o]

def tot(m, cols): return m[2][cols - 1] + m[3][cols - 1]
def prog_cols(m, cols, rows, space):
    """the columns follow each other in the coefficient arrays, and every row number is a row of the program"""
    mv, mi, mb, mc = m; c, d, i = bound("c"), bound("d"), bound("i")
    return [("columns start at the first coefficient", mb[0] == 0), ("columns within the coefficient arrays", forall(c, Implies(And(0 <= c, c < cols), And(mb[c] >= 0, mc[c] >= 0, mb[c] + mc[c] <= space)), [mc[c], mb[c]])),
            ("columns follow each other", forall(c, Implies(And(0 <= c, c < cols - 1), mb[c + 1] == mb[c] + mc[c]), [mc[c]])),
            ("columns do not overlap", forall([c, d], Implies(And(0 <= c, c < d, d < cols), mb[c] + mc[c] <= mb[d]), [z3.MultiPattern(mc[c], mb[d])])),
            ("row numbers in range", forall(i, Implies(And(0 <= i, i < tot(m, cols)), And(0 <= mi[i], mi[i] < rows)), [mi[i]]))]

# ---------------------------------------------------------------- the region program
def slot(A, a, n, s, k):
    """position of member k's coefficient of state s"""
    e = A[3]; return ib(*A, a, n, s) + 1 + one(nz(a[s], e)) + lcnt(*A, s, k)
def state_cols(A, a, n, m, upto, limit):
    """columns of the first `upto` states: the simplex row, the vector's own row, one row per member (coefficients within
    epsilon of zero left out), and nothing else"""
    mv, mi, mb, mc = m; e = A[3]; s, k = bound("s"), bound("k"); B0 = lambda x: ib(*A, a, n, x); x = slot(A, a, n, s, k)
    g = And(0 <= s, s < upto)
    return [("state columns: start", forall(s, Implies(g, mb[s] == B0(s)), [mb[s]])), ("state columns: length", forall(s, Implies(g, mc[s] == 1 + one(nz(a[s], e)) + lcnt(*A, s, n)), [mc[s]])),
        ("state columns: within the matrix", forall(s, Implies(g, And(0 <= B0(s), B0(s) + one(nz(a[s], e)) < limit)), [acnt(a, e, s)])),
        ("state columns: simplex row number", forall(s, Implies(g, mi[B0(s)] == 0), [acnt(a, e, s)])), ("state columns: simplex row coefficient", forall(s, Implies(g, mv[B0(s)] == 1), [acnt(a, e, s)])),
        ("state columns: number of the vector's own row", forall(s, Implies(And(g, nz(a[s], e)), mi[B0(s) + 1] == 1), [acnt(a, e, s)])), ("state columns: coefficient in the vector's own row", forall(s, Implies(And(g, nz(a[s], e)), mv[B0(s) + 1] == a[s]), [acnt(a, e, s)])),
        ("state columns: one row per member", forall([s, k], Implies(And(g, 0 <= k, k < n, nz(ev(A[0], A[1], A[2], k)[s], e)), And(0 <= x, x < limit, mi[x] == k + 2, mv[x] == ev(A[0], A[1], A[2], k)[s])), [lcnt(*A, s, k)]))]
def plain_col(m, col, i0, n, first, val):
    """column col: n entries `val` in rows first, first+1, .."""
    mv, mi, mb, mc = m; r = bound("r")
    return [("column start", mb[col] == i0), ("column length", mc[col] == n), ("column coefficients", forall(r, Implies(And(i0 <= r, r < i0 + n), mv[r] == val), [mv[r]])), ("column rows", forall(r, Implies(And(i0 <= r, r < i0 + n), mi[r] == r - i0 + first), [mi[r]]))]
def rows_ok(sense, rhs, n):
    r = bound("r")
    return [("simplex row: equals one", And(sense[0] == 69, rhs[0] == 1)), ("own row: equals zero", And(sense[1] == 69, rhs[1] == 0)), ("member rows: at most zero", forall(r, Implies(And(2 <= r, r < n + 2), And(sense[r] == 76, rhs[r] == 0)), [sense[r]])), ("member rows: right-hand sides", forall(r, Implies(And(2 <= r, r < n + 2), rhs[r] == 0), [rhs[r]]))]
def rng(mi, upto, rows): i = bound("i"); return [("row numbers in range", forall(i, Implies(And(0 <= i, i < upto), And(0 <= mi[i], mi[i] < rows)), [mi[i]]))]
def region_rows(A, a, n, N, m, sense, rhs):
    """the coefficient matrix of the region program of vector a against the n vectors of the set"""
    tag = lambda t, fs: [(t + ": " + l, f) for l, f in fs]; i0 = ib(*A, a, n, N)
    return state_cols(A, a, n, m, N, i0) + tag("margin variable", plain_col(m, N, i0, n, 2, rv(1))) + tag("value variable, negative part", plain_col(m, N + 1, i0 + n, n + 1, 1, rv(-1))) + tag("value variable, positive part", plain_col(m, N + 2, i0 + 2 * n + 1, n + 1, 1, rv(1))) + rows_ok(sense, rhs, n)
def rA2(c): p = c.a(0); return la(c.post, c.a(2), lf(c.pre, "sparse_epsilon", p))
def rA(c): p = c.a(0); return la(c.pre, c.a(2), lf(c.pre, "sparse_epsilon", p))
def rc_pre(c):
    p, a, L = c.a(0), c.a(1), c.a(2); n = lenL(c.pre, L); k = bound("k"); v = c.pre
    return sizes(c) + lp_ok(v, p) + wf(v, L) + [("vector", And(a > 0, arr_ok(v, a, nS(v)), a != lf(v, "matval", p), a != lf(v, "rhs", p))), ("dimensions", And(lf(v, "cols", p) == nS(v) + 3, lf(v, "rows", p) == n + 2)),
      ("room for exactly the coefficients", lf(v, "matspace", p) == nS(v) + acnt(v.D(a), lf(v, "sparse_epsilon", p), nS(v)) + 2 + gcnt(*rA(c), nS(v), n) + 3 * n)]
def ib_all(A, a, n):
    s, t = bound("s"), bound("t"); e = A[3]
    return [ForAll([s, t], ib_mono(*A, a, n, s, t), patterns=[z3.MultiPattern(acnt(a, e, s), acnt(a, e, t))]), ForAll([s, t], lc_mono(*A, s, t, n), patterns=[lcnt(*A, s, t)]), (lambda u: forall(u, lc_nn(*A, u, n), [lcnt(*A, u, n)]))(bound("u"))]
def rc_hints(c):
    A = rA(c); a = c.pre.D(c.a(1)); n = lenL(c.pre, c.a(2)); s = bound("s"); return [forall(s, touch(acnt(a, A[3], s + 1)), [mat(c.now, c.a(0))[2][s]])] + ib_all(A, a, n) + [fubini(*A, nS(c.pre), n), sc_nn(*A, n, nS(c.pre)), ib_mono(*A, a, n, iv(0), nS(c.pre))]
def rc_end_hints(c):
    A = rA(c); a = c.pre.D(c.a(1)); n = lenL(c.pre, c.a(2)); s = bound("s"); N = nS(c.pre); mc = mat(c.now, c.a(0))[3]; return rc_hints(c) + [forall(s, ib_step(*A, a, n, s), [mc[s]]), ib_zero(*A, a, n), *bridge(c, c.pre, c.now, c.a(2), c.a(1), A[3]), touch(mc[N], mc[N + 1], mc[N + 2], acnt(a, A[3], iv(0)), acnt(a, A[3], N), scnt(*A, n, iv(0)))]
def bridge(c, v1, v2, L, a, e):
    """the region program read off the components before (v1) and after (v2)"""
    A1, A2 = la(v1, L, e), la(v2, L, e); x = A1[:2] + (A1[2], A2[2], e); n = lenL(c.pre, L); s, k = bound("s"), bound("k"); y = A2[:2] + (A2[2], A1[2], e)
    return [CSAME.reveal(), touch(CSAME(*x[:4], n), CSAME(*y[:4], n)), forall([s, k], lc_ext(*x, s, n, k), [lcnt(*A1, s, k)]), forall([s, k], lc_ext(*y, s, n, k), [lcnt(*A2, s, k)]), forall(s, sc_ext(*x, n, n, s), [scnt(*A1, n, s)]), forall(s, sc_ext(*y, n, n, s), [scnt(*A2, n, s)])]
def rc_in_hints(c): return rc_hints(c) + [touch(lcnt(*rA(c), c.lv("col", "int"), c.k + 1), acnt(c.pre.D(c.a(1)), rA(c)[3], c.lv("col", "int") + 1), scnt(*rA(c), lenL(c.pre, c.a(2)), c.lv("col", "int") + 1))]
def rc_m(c): return mat(c.now, c.a(0))
def rc_mods(*fs): return lambda c: {"M:real": [lf(c.pre, f, c.a(0)) for f in fs if f in REALS], "M:int": [lf(c.pre, f, c.a(0)) for f in fs if f in INTS] , "M:char": [lf(c.pre, "sense", c.a(0))] if "sense" in fs else []}
def tagl(t, fs): return [(t + ": " + l, f) for l, f in fs]
def rc_in(c):
    """while the column of state `col` is being written, k members done"""
    p = c.a(0); A = rA(c); a = c.pre.D(c.a(1)); n = lenL(c.pre, c.a(2)); e = A[3]; col = c.lv("col", "int"); ix = c.lv("index", "int"); mv, mi, mb, mc = rc_m(c); b0 = ib(*A, a, n, col); k = bound("k"); x = slot(A, a, n, col, k)
    return rng(mi, ix, lf(c.pre, "rows", p)) + state_cols(A, a, n, rc_m(c), col, b0) + [("position", ix == slot(A, a, n, col, c.k)), ("row", c.lv("row", "int") == c.k + 2), ("this column: start", mb[col] == b0), ("this column: simplex row", And(mi[b0] == 0, mv[b0] == 1)),
       ("this column: own row", Implies(nz(a[col], e), And(mi[b0 + 1] == 1, mv[b0 + 1] == a[col]))), ("this column: members", forall(k, Implies(And(0 <= k, k < c.k, nz(ev(A[0], A[1], A[2], k)[col], e)), And(x < ix, mi[x] == k + 2, mv[x] == ev(A[0], A[1], A[2], k)[col])), [lcnt(*A, col, k)]))]
contract("setUpRegionConstraintsNew", file=F, requires=rc_pre, modifies=rc_mods("matval", "rhs", "matbeg", "matcnt", "matind", "sense"), hints=rc_end_hints,
  ensures=lambda c: region_rows(rA2(c), c.post.D(c.a(1)), lenL(c.pre, c.a(2)), nS(c.pre), mat(c.post, c.a(0)), c.post.Ch(lf(c.pre, "sense", c.a(0))), c.post.D(lf(c.pre, "rhs", c.a(0)))) + prog_cols(mat(c.post, c.a(0)), nS(c.pre) + 3, lenL(c.pre, c.a(2)) + 2, lf(c.pre, "matspace", c.a(0))),
  loops=[Loop(only=True, bound=lambda c: nS(c.pre), mods=rc_mods("matval", "matbeg", "matcnt", "matind"), hints=rc_hints,
           inv=lambda c: [("position", c.lv("index", "int") == ib(*rA(c), c.pre.D(c.a(1)), lenL(c.pre, c.a(2)), c.k))] + state_cols(rA(c), c.pre.D(c.a(1)), lenL(c.pre, c.a(2)), rc_m(c), c.k, ib(*rA(c), c.pre.D(c.a(1)), lenL(c.pre, c.a(2)), c.k)) + rng(rc_m(c)[1], c.lv("index", "int"), lf(c.pre, "rows", c.a(0)))),
         Loop(only=True, walk=lambda c: walks(c.a(2)), bound=lambda c: lenL(c.pre, c.a(2)), mods=rc_mods("matval", "matind"), hints=rc_in_hints, inv=rc_in),
         Loop(only=True, bound=lambda c: lenL(c.pre, c.a(2)), mods=rc_mods("matval", "matind"), hints=rc_hints,
           inv=lambda c: (lambda A, a, n, N, m, r: rng(m[1], c.lv("index", "int"), lf(c.pre, "rows", c.a(0))) + [("position", c.lv("index", "int") == ib(*A, a, n, N) + c.k)] + state_cols(A, a, n, m, N, ib(*A, a, n, N)) + [("margin start", m[2][N] == ib(*A, a, n, N)), ("margin coefficients", forall(r, Implies(And(ib(*A, a, n, N) <= r, r < ib(*A, a, n, N) + c.k), And(m[0][r] == 1)), [m[0][r]])), ("margin rows", forall(r, Implies(And(ib(*A, a, n, N) <= r, r < ib(*A, a, n, N) + c.k), m[1][r] == r - ib(*A, a, n, N) + 2), [m[1][r]]))])(rA(c), c.pre.D(c.a(1)), lenL(c.pre, c.a(2)), nS(c.pre), rc_m(c), bound("r"))),
         Loop(only=True, bound=lambda c: lenL(c.pre, c.a(2)), mods=rc_mods("rhs", "sense"), inv=lambda c: rows_ok(c.now.Ch(lf(c.pre, "sense", c.a(0))), c.now.D(lf(c.pre, "rhs", c.a(0))), c.k))])
C["setUpRegionConstraintsNew"].local_names = {"index", "row", "col"}

# ---------------------------------------------------------------- the LP layer (P12)
LPR, MR = "_lprec", "_matrec"
def qf(v, f, q): return v.f(LPR + "." + f, q)
def QF(f): return "F:" + LPR + "." + f
QR = dict(orig_rh="r1", rh="r1", rhs="r1", orig_upbo="s1", upbo="s1", orig_lowbo="s1", lowbo="s1", solution="s1", best_solution="s1", duals="r1", eta_value=None)
QI = dict(col_no="n1", col_end="c1", row_end="r1", bas="r1", must_be_int="s1", basis="s1", lower="s1", ch_sign="r1", eta_row_nr=None, eta_col_end=None)
def q_ok(v, q):
    """q is a solver record with its own arrays"""
    n, m, t = qf(v, "columns", q), qf(v, "rows", q), qf(v, "non_zeros", q); sz = dict(r1=m + 1, s1=n + m + 1, c1=n + 1, n1=t + 1)
    out = [("solver record live", And(q > 0, v.valid(q), KIND(q) == E.kind_of(LPR), n >= 1, m >= 1, t >= 1)), ("solver matrix", And(qf(v, "mat", q) > 0, v.valid(qf(v, "mat", q)), LEN(qf(v, "mat", q)) >= t))]
    for d, kd in ((QR, "real"), (QI, "int")):
        for f, s in d.items():
            A = qf(v, f, q); out.append(("solver array " + f, And(A > 0, v.valid(A), KIND(A) == E.kind_of(kd), *([LEN(A) >= sz[s]] if s else []))))
        out.append(("solver arrays are distinct", z3.Distinct(*[qf(v, f, q) for f in d])))
    return out
DINF = rv("999999999999999980000000")
contract("create_hash_table", file=None, trusted=True, writes={"clk"}, note="bundled lp_solve; the name tables are never used", modifies=lambda c: {}, ensures=lambda c: [("table", And(c.r > 0, c.r >= c.pre.clk, c.r < c.post.clk))])
fr = lambda c: (lambda r: r >= c.pre.clk)
def fillL(mp, fld, n, want=None):
    """a loop that fills the arrays fld[..] of the new record; want: value of the first one"""
    q = lambda c: c.lv("newlp", "ptr"); rd = lambda c: (c.now.D if mp == "M:real" else c.now.Ia)(qf(c.now, fld[0], q(c)))
    return Loop(only=True, bound=n, mods=lambda c: {mp: [qf(c.now, f, q(c)) for f in fld]}, inv=lambda c: (lambda i: [("filled so far", forall(i, Implies(And(0 <= i, i < c.k), rd(c)[i] == want), [rd(c)[i]]))])(bound("i")) if want is not None else [])
contract("LP_make_lp", file=FL, modifies=lambda c: {"M:char": lambda r: r < -1000000}, requires=lambda c: [("dimensions", And(c.a(0) >= 1, c.a(1) >= 1, c.a(2) >= 1))],
  ensures=lambda c: (lambda q, v: [("fresh", q >= c.pre.clk)] + q_ok(v, q) + [("arrays are fresh", And(*[qf(v, f, q) >= c.pre.clk for f in list(QR) + list(QI) + ["mat"] + list(HT2)])), ("dimensions", And(qf(v, "rows", q) == c.a(0), qf(v, "columns", q) == c.a(1), qf(v, "non_zeros", q) == c.a(2), qf(v, "sum", q) == c.a(0) + c.a(1)))] + make_arrays(v, q))(c.r, c.post),
  loops=[fillL("M:int", ["must_be_int"], lambda c: c.a(0) + c.a(1) + 1, iv(0)), fillL("M:real", ["orig_upbo"], lambda c: c.a(0) + c.a(1) + 1, DINF), fillL("M:int", ["bas", "basis"], lambda c: c.a(0) + 1), fillL("M:int", ["basis"], lambda c: c.a(1)), fillL("M:int", ["lower"], lambda c: c.a(0) + c.a(1) + 1), fillL("M:int", ["ch_sign"], lambda c: c.a(0) + 1, iv(0))])
C["LP_make_lp"].local_names = {"newlp"}
def make_arrays(v, q):
    i = bound("i"); up, lo, rh, mi, cs, m = v.D(qf(v, "orig_upbo", q)), v.D(qf(v, "orig_lowbo", q)), v.D(qf(v, "orig_rh", q)), v.Ia(qf(v, "must_be_int", q)), v.Ia(qf(v, "ch_sign", q)), qf(v, "rows", q) + qf(v, "columns", q)
    return [("no upper bounds", forall(i, Implies(And(0 <= i, i <= m), up[i] == DINF), [up[i]])), ("lower bounds zero", forall(i, Implies(And(0 <= i, i <= m), lo[i] == 0), [lo[i]])), ("right-hand sides zero", forall(i, Implies(And(0 <= i, i <= qf(v, "rows", q)), rh[i] == 0), [rh[i]])),
            ("no variable is integral", forall(i, Implies(And(0 <= i, i <= m), mi[i] == 0), [mi[i]])), ("no row is negated", forall(i, Implies(And(0 <= i, i <= qf(v, "rows", q)), cs[i] == 0), [cs[i]])), ("a minimisation", And(qf(v, "maximise", q) == 0, qf(v, "nr_lagrange", q) == 0, qf(v, "scaling_used", q) == 0))]

# hash-table handles of the solver record are storage of its own too
HT2 = ("rowname_hashtab", "colname_hashtab")
MAXIMIZE = -1
def pcols(v, p): return (v.D(lf(v, "matval", p)), v.Ia(lf(v, "matind", p)), v.Ia(lf(v, "matbeg", p)), v.Ia(lf(v, "matcnt", p)))
contract("LP_newLP", file=FL, requires=lambda c: [("dimensions", And(c.a(0) >= 1, c.a(1) >= 1, c.a(2) >= 1))],
  ensures=lambda c: (lambda p, v: [("fresh", p >= c.pre.clk)] + lp_ok(v, p) + lp_name(v, p) + [("storage is fresh", And(*[lf(v, f, p) >= c.pre.clk for f in REALS + INTS + ("sense", "name")])),
     ("dimensions", And(lf(v, "rows", p) == c.a(0), lf(v, "cols", p) == c.a(1), lf(v, "matspace", p) == c.a(2))), ("a maximisation, nothing loaded", And(lf(v, "objsen", p) == MAXIMIZE, lf(v, "lp", p) == 0)), ("algorithm", Or(lf(v, "lp_algorithm", p) == 0, lf(v, "lp_algorithm", p) == 1)),
     ("coefficients within 1e-12 of zero count as zero", lf(v, "sparse_epsilon", p) == rv("49999999999999999/50000000000000000000000000000"))])(c.r, c.post))
def freed_set(v, p): return [p] + [lf(v, f, p) for f in REALS + INTS + ("sense", "name")]
contract("LP_freeLP", file=FL, requires=lambda c: [(l, Implies(c.a(0) != 0, f)) for l, f in lp_ok(c.pre, c.a(0)) + lp_name(c.pre, c.a(0))],
  modifies=lambda c: dict({"freed": [x for x in freed_set(c.pre, c.a(0))]}, **{LPF(f): [c.a(0)] for f in REALS + INTS + ("sense", "name")}),
  ensures=lambda c: [("record and arrays released", Implies(c.a(0) != 0, And(*[Not(c.post.valid(x)) for x in freed_set(c.pre, c.a(0))])))])

# ---- the program the solver is given
def mrow(v, q, i): return v.f(MR + ".row_nr", ELT(qf(v, "mat", q), i))
def mval(v, q, i): return v.f(MR + ".value", ELT(qf(v, "mat", q), i))
class Prog:
    """arrays of a program in the caller's form"""
    def __init__(s, v, p):
        s.m = pcols(v, p); s.obj, s.lo, s.up, s.rhs = (v.D(lf(v, f, p)) for f in ("obj", "lowbnd", "upbnd", "rhs")); s.sense = v.Ch(lf(v, "sense", p)); s.cols, s.rows, s.sen = lf(v, "cols", p), lf(v, "rows", p), lf(v, "objsen", p)
class GProg(Prog):
    """the same, as recorded when the program was solved"""
    def __init__(s, v):
        s.m = (v.gh("lp_mv"), v.gh("lp_mi"), v.gh("lp_mb"), v.gh("lp_mc")); s.obj, s.lo, s.up, s.rhs, s.sense = v.gh("lp_obj"), v.gh("lp_lo"), v.gh("lp_up"), v.gh("lp_rhs"), v.gh("lp_sense"); n = v.gh("lp_n"); s.cols, s.rows, s.sen = n[0], n[1], n[2]
class QProg:
    def __init__(s, v, q): s.row, s.val = (lambda i: mrow(v, q, i)), (lambda i: mval(v, q, i)); s.ce = v.Ia(qf(v, "col_end", q)); s.up, s.lo, s.rh = (v.D(qf(v, f, q)) for f in ("orig_upbo", "orig_lowbo", "orig_rh")); s.mi, s.cs = v.Ia(qf(v, "must_be_int", q)), v.Ia(qf(v, "ch_sign", q)); s.rows, s.cols, s.mx, s.nz = qf(v, "rows", q), qf(v, "columns", q), qf(v, "maximise", q), qf(v, "non_zeros", q)
class SProg(QProg):
    def __init__(s, v): g = v.gh; s.row, s.val = (lambda i: g("sv_row")[i]), (lambda i: g("sv_val")[i]); s.ce, s.up, s.lo, s.rh, s.mi, s.cs = g("sv_ce"), g("sv_up"), g("sv_lo"), g("sv_rh"), g("sv_int"), g("sv_ch"); n = g("sv_n"); s.rows, s.cols, s.mx, s.nz = n[0], n[1], n[2], n[3]
GHS = dict(lp_mv=AR, lp_mi=AI, lp_mb=AI, lp_mc=AI, lp_obj=AR, lp_lo=AR, lp_up=AR, lp_rhs=AR, lp_sense=AI, lp_n=AI, sv_row=AI, sv_val=AR, sv_ce=AI, sv_up=AR, sv_lo=AR, sv_rh=AR, sv_int=AI, sv_ch=AI, sv_n=AI, sv_best=AR, sv_stat=AI)
for g, s in GHS.items(): GHOSTS[g] = s
SV = [g for g in GHS if g.startswith("sv_")]; LPG = [g for g in GHS if g.startswith("lp_")]
def sgn(P, x): return If(P.sen == MAXIMIZE, -x, x)
def gneg(P, r, x): return If(P.sense[r] == 71, -x, x)
def img_obj(P, Q, c): mb, mc = P.m[2], P.m[3]; return And(Q.row(c + mb[c]) == 0, Q.val(c + mb[c]) == sgn(P, P.obj[c]))
def img_ent(P, Q, c, i): mv, mi = P.m[:2]; return And(Q.row(c + 1 + i) == mi[i] + 1, Q.val(c + 1 + i) == gneg(P, mi[i], mv[i]))
def image_mat(P, Q, upto):
    mv, mi, mb, mc = P.m; c, i = bound("c"), bound("i")
    return [("solver columns: ends", forall(c, Implies(And(0 <= c, c < upto), Q.ce[c + 1] == c + 1 + mb[c] + mc[c]), [mc[c]])), ("solver columns: objective coefficient, turned for a maximisation", forall(c, Implies(And(0 <= c, c < upto), img_obj(P, Q, c)), [mb[c]])),
            ("solver columns: every coefficient, >= rows negated", forall([c, i], Implies(And(0 <= c, c < upto, mb[c] <= i, i < mb[c] + mc[c]), img_ent(P, Q, c, i)), [z3.MultiPattern(mc[c], mi[i])]))]
def bnd_img(P, Q, upto): i = bound("i"); return [("solver bounds of the variables", forall(i, Implies(And(0 <= i, i < upto), And(Q.up[P.rows + i + 1] == P.up[i], Q.lo[P.rows + i + 1] == P.lo[i])), [P.up[i]]))]
def rhs_img(P, Q, upto): i = bound("i"); return [("solver right-hand sides, >= rows negated", forall(i, Implies(And(0 <= i, i < upto), Q.rh[i + 1] == gneg(P, i, P.rhs[i])), [P.rhs[i]]))]
def eq_img(P, Q, upto): i = bound("i"); return [("equality rows have no slack, other rows are one-sided", forall(i, Implies(And(0 <= i, i < P.rows), And(Q.lo[i + 1] == 0, Q.up[i + 1] == If(And(i < upto, P.sense[i] == 69), rv(0), DINF))), [P.sense[i]]))]
def image(P, Q):
    """Q is program P in the solver's form: one-based rows, the objective as row 0 of every column, a minimisation"""
    i = bound("i")
    return [("solver dimensions", And(Q.rows == P.rows, Q.cols == P.cols)), ("solver columns start at 0", Q.ce[0] == 0)] + image_mat(P, Q, P.cols) + bnd_img(P, Q, P.cols) + rhs_img(P, Q, P.rows) + eq_img(P, Q, P.rows) + [("solver minimises", Q.mx == 0), ("solver variables are real", forall(i, Implies(And(0 <= i, i <= Q.rows + Q.cols), Q.mi[i] == 0), [Q.mi[i]])), ("solver rows keep their sign", forall(i, Implies(And(0 <= i, i <= Q.rows), Q.cs[i] == 0), [Q.cs[i]]))]
QARR = list(QR) + list(QI) + ["mat"]
def q_fresh(c, v, q): return [("solver record fresh", q >= c.pre.clk), ("solver arrays fresh", And(*[qf(v, f, q) >= c.pre.clk for f in QARR + list(HT2)]))]
def ll_mods(c, *reals): return {"M:real": [qf(c.now, f, c.lv("lp_solve_lp", "ptr")) for f in reals]}
def llq(c): return c.lv("lp_solve_lp", "ptr")
def elts(c): return lambda r: ELTB(r) == qf(c.now, "mat", llq(c))
def ll_touch(c): col = c.lv("col", "int"); m = pcols(c.pre, c.a(0)); return [touch(m[2][col], m[3][col], m[2][col + 1])]
def lpx(c): n = lf(c.pre, "cols", c.a(0)); m = pcols(c.pre, c.a(0)); return lambda k: If(k < n, m[2][k], tot(m, n))
def ll_head(c, col):
    P, Q = Prog(c.pre, c.a(0)), QProg(c.now, llq(c)); return image_mat(P, Q, col)
PRE_SOLVE = lambda c: lp_ok(c.pre, c.a(0)) + prog_cols(pcols(c.pre, c.a(0)), lf(c.pre, "cols", c.a(0)), lf(c.pre, "rows", c.a(0)), lf(c.pre, "matspace", c.a(0)))
contract("LP_loadLpSolveLP", file=FL, requires=PRE_SOLVE, modifies=lambda c: {"M:char": lambda r: r < -1000000, "F:_matrec.value": lambda r: ELTB(r) >= c.pre.clk, "F:_matrec.row_nr": lambda r: ELTB(r) >= c.pre.clk},
  ensures=lambda c: q_ok(c.post, c.r) + q_fresh(c, c.post, c.r) + image(Prog(c.pre, c.a(0)), QProg(c.post, c.r)) + [("no other settings", And(qf(c.post, "nr_lagrange", c.r) == 0, qf(c.post, "scaling_used", c.r) == 0))],
  loops=[Loop(only=True, bound=lambda c: lf(c.pre, "cols", c.a(0)), mods=lambda c: {"F:_matrec.value": elts(c), "F:_matrec.row_nr": elts(c), "M:int": [qf(c.now, "col_end", llq(c))]}, hints=ll_touch,
           inv=lambda c: [("position", c.lv("lpi", "int") == c.k + lpx(c)(c.k))] + ll_head(c, c.k)),
         Loop(only=True, bound=lambda c: pcols(c.pre, c.a(0))[3][c.lv("col", "int")], mods=lambda c: {"F:_matrec.value": elts(c), "F:_matrec.row_nr": elts(c)},
           inv=lambda c: (lambda P, Q, col, i: [("position", c.lv("lpi", "int") == col + 1 + P.m[2][col] + c.k), ("index", c.lv("i", "int") == P.m[2][col] + c.k)] + ll_head(c, col) + [("this column: objective", img_obj(P, Q, col)), ("this column: coefficients so far", forall(i, Implies(And(P.m[2][col] <= i, i < P.m[2][col] + c.k), img_ent(P, Q, col, i)), [P.m[1][i]]))])(Prog(c.pre, c.a(0)), QProg(c.now, llq(c)), c.lv("col", "int"), bound("i"))),
         Loop(only=True, bound=lambda c: lf(c.pre, "cols", c.a(0)), mods=lambda c: ll_mods(c, "orig_upbo", "orig_lowbo"), inv=lambda c: bnd_img(Prog(c.pre, c.a(0)), QProg(c.now, llq(c)), c.k) + eq_img(Prog(c.pre, c.a(0)), QProg(c.now, llq(c)), iv(0))),
         Loop(only=True, bound=lambda c: lf(c.pre, "rows", c.a(0)), mods=lambda c: ll_mods(c, "orig_rh"), inv=lambda c: rhs_img(Prog(c.pre, c.a(0)), QProg(c.now, llq(c)), c.k)),
         Loop(only=True, bound=lambda c: lf(c.pre, "rows", c.a(0)), mods=lambda c: ll_mods(c, "orig_upbo"), inv=lambda c: bnd_img(Prog(c.pre, c.a(0)), QProg(c.now, llq(c)), lf(c.pre, "cols", c.a(0))) + eq_img(Prog(c.pre, c.a(0)), QProg(c.now, llq(c)), c.k))])
C["LP_loadLpSolveLP"].local_names = {"lp_solve_lp", "lpi", "col", "i"}
C["LP_loadLpSolveLP"].shards = 8
C["LP_make_lp"].shards = 2

# ---- the bundled solver: trusted (P25); what it was given and what it answered is recorded
def solve_rec(c):
    v0, v, q, i = c.pre, c.post, c.a(0), bound("i"); S = SProg(v)
    Q0 = QProg(v0, q)
    return [("program given", And(S.rows == Q0.rows, S.cols == Q0.cols, S.mx == Q0.mx, S.nz == Q0.nz, S.ce == Q0.ce, S.up == Q0.up, S.lo == Q0.lo, S.rh == Q0.rh, S.mi == Q0.mi, S.cs == Q0.cs)),
            ("coefficients given", forall(i, And(S.row(i) == mrow(v0, q, i), S.val(i) == mval(v0, q, i)), [S.row(i), S.val(i)])), ("answer", And(v.gh("sv_best") == v.D(qf(v, "best_solution", q)), v.gh("sv_stat")[0] == c.r))]
SOLVER_F = ["eta_valid", "eta_alloc", "eta_size", "num_inv", "eta_value", "eta_row_nr", "eta_col_end", "basis_valid", "row_end_valid", "iter", "total_iter", "nr_lagrange0", "valid"]
contract("solve", file=None, trusted=True, writes={"clk", "freed", "M:real", "M:int", "F:_lprec.eta_value", "F:_lprec.eta_row_nr", "F:_lprec.eta_col_end", "F:_lprec.eta_alloc", "F:_lprec.eta_size", "F:_lprec.num_inv", "F:_lprec.iter", "F:_lprec.total_iter", "F:_lprec.basis_valid", "F:_lprec.eta_valid", "F:_lprec.row_end_valid", "G:gLpSolveInstabilityCount"}, ghost_writes=SV,
  note="bundled lp_solve (P25 is not claimed): reads the program record, writes only its own working arrays and its answer; its internal global state is not modelled",
  requires=lambda c: q_ok(c.pre, c.a(0)), modifies=lambda c: dict({"ghost:" + g: "any" for g in SV}, **{"M:real": [qf(c.pre, f, c.a(0)) for f in QR], "M:int": [qf(c.pre, f, c.a(0)) for f in QI], "freed": [qf(c.pre, f, c.a(0)) for f in ("eta_value", "eta_row_nr", "eta_col_end")], "G:gLpSolveInstabilityCount": "any"}, **{QF(f): [c.a(0)] for f in ("eta_value", "eta_row_nr", "eta_col_end", "eta_alloc", "eta_size", "num_inv", "iter", "total_iter", "basis_valid", "eta_valid", "row_end_valid")}),
  ensures=lambda c: q_ok(c.post, c.a(0)) + [("working arrays may have been replaced", And(*[Or(qf(c.post, f, c.a(0)) == qf(c.pre, f, c.a(0)), qf(c.post, f, c.a(0)) >= c.pre.clk) for f in ("eta_value", "eta_row_nr", "eta_col_end")]))] + solve_rec(c))
contract("delete_lp", file=None, trusted=True, writes={"freed"}, note="bundled lp_solve: releases the record and its arrays", requires=lambda c: q_ok(c.pre, c.a(0)) + [("no further arrays", And(qf(c.pre, "nr_lagrange", c.a(0)) == 0, qf(c.pre, "scaling_used", c.a(0)) == 0))],
  modifies=lambda c: {"freed": [c.a(0)] + [qf(c.pre, f, c.a(0)) for f in QARR + list(HT2)]})
contract("LP_writeLP", file=FL, trusted=True, writes=set(), note="writes a text file; only reached for a solver status outside the documented ones")
SST = "SolutionStatsStruct"
if "sprintf" not in C: contract("sprintf", file=None, trusted=True, writes={"M:char"}, modifies=lambda c: {"M:char": [c.a(0)]}, note="libc; formats a warning text (buffer size not checked)")
NCTX = 7
def stat_ok(v, s): return ("statistics record, if any, in a known phase", Implies(s != 0, And(s > 0, v.valid(s), KIND(s) == E.kind_of(SST), 0 <= v.f(SST + ".cur_context", s), v.f(SST + ".cur_context", s) < NCTX)))
def stat_mods(s): return lambda r: And(r < -1000000, E.EMB_OWNER(r) == s)
contract("recordLpStats", file="src/stats.c", requires=lambda c: [stat_ok(c.pre, c.a(0))], modifies=lambda c: {"M:int": stat_mods(c.a(0))})

contract("LP_extractLpSolveSolution", file=FL, requires=lambda c: lp_ok(c.pre, c.a(0)) + [(l, f) for l, f in q_ok(c.pre, lf(c.pre, "lp", c.a(0)))] + [("same dimensions", And(qf(c.pre, "rows", lf(c.pre, "lp", c.a(0))) == lf(c.pre, "rows", c.a(0)), qf(c.pre, "columns", lf(c.pre, "lp", c.a(0))) == lf(c.pre, "cols", c.a(0)))), ("own arrays", lf(c.pre, "x", c.a(0)) != qf(c.pre, "best_solution", lf(c.pre, "lp", c.a(0))))],
  modifies=lambda c: {"M:real": [lf(c.pre, "x", c.a(0))], LPF("objval"): [c.a(0)]}, ensures=lambda c: answer(c, c.post, c.a(0), c.pre.D(qf(c.pre, "best_solution", lf(c.pre, "lp", c.a(0)))), lf(c.pre, "cols", c.a(0))),
  loops=[Loop(bound=lambda c: lf(c.pre, "cols", c.a(0)), inv=lambda c: answer(c, c.now, c.a(0), c.pre.D(qf(c.pre, "best_solution", lf(c.pre, "lp", c.a(0)))), c.k))])
def answer(c, v, p, best, n):
    i = bound("i"); x = v.D(lf(c.pre, "x", p))
    return [("objective value, turned back for a maximisation", lf(v, "objval", p) == If(lf(c.pre, "objsen", p) == MAXIMIZE, -best[0], best[0])), ("variable values in the caller's order", forall(i, Implies(And(0 <= i, i < n), x[i] == best[lf(c.pre, "rows", p) + i + 1]), [x[i]]))]

def lp_snap(v, p): P = Prog(v, p); return dict(lp_mv=P.m[0], lp_mi=P.m[1], lp_mb=P.m[2], lp_mc=P.m[3], lp_obj=P.obj, lp_lo=P.lo, lp_up=P.up, lp_rhs=P.rhs, lp_sense=P.sense, lp_n=z3.Store(z3.Store(z3.Store(v.gh("lp_n"), 0, P.cols), 1, P.rows), 2, P.sen))
def snapped(c, p): return [("recorded program " + g, c.post.gh(g) == t) if g != "lp_n" else ("recorded dimensions", And(*[c.post.gh(g)[i] == x for i, x in enumerate((lf(c.pre, "cols", p), lf(c.pre, "rows", p), lf(c.pre, "objsen", p)))])) for g, t in lp_snap(c.pre, p).items()]
SLV_G = {"ghost:" + g: "any" for g in SV + LPG}
contract("LP_solveLP", file=FL, requires=lambda c: PRE_SOLVE(c) + [("no program loaded", lf(c.pre, "lp", c.a(0)) == 0), ("a simplex variant", Or(lf(c.pre, "lp_algorithm", c.a(0)) == 0, lf(c.pre, "lp_algorithm", c.a(0)) == 1)), stat_ok(c.pre, c.a(1))],
  modifies=lambda c: dict(SLV_G, **{"M:char": lambda r: r < -1000000, "M:int": stat_mods(c.a(1)), "M:real": [lf(c.pre, "x", c.a(0))], LPF("objval"): [c.a(0)], LPF("lpstat"): [c.a(0)], LPF("lp"): [c.a(0)], "G:gLpSolveInstabilityCount": "any", "F:_matrec.value": lambda r: ELTB(r) >= c.pre.clk, "F:_matrec.row_nr": lambda r: ELTB(r) >= c.pre.clk}),
  ghost_writes=SV + LPG, ghost_exit=lambda c: lp_snap(c.pre, c.a(0)),
  ensures=lambda c: snapped(c, c.a(0)) + image(Prog(c.pre, c.a(0)), SProg(c.post)) + answer(c, c.post, c.a(0), c.post.gh("sv_best"), lf(c.pre, "cols", c.a(0))) +
     [("optimal only if the solver says so", (c.r == 0) == (c.post.gh("sv_stat")[0] == 0)), ("otherwise infeasible", Or(c.r == 0, c.r == 1)), ("nothing loaded any more", lf(c.post, "lp", c.a(0)) == 0)])
C["LP_solveLP"].shards = 4
C["LP_solveLP"].merge = "heap"

# ---------------------------------------------------------------- region programs (P11)
def rp_pre(c, a, L): return sizes(c) + wf(c.pre, L) + [("vector", And(a > 0, arr_ok(c.pre, a, nS(c.pre))))]
gc_nn = Lemma("gc_nn", LS + [I], lambda sq, AF, DM, e, n, k: Implies(n >= 0, gcnt(sq, AF, DM, e, n, k) >= 0), extra=lambda sq, AF, DM, e, n, k: [rc_nn(sq, AF, DM, e, k, n)])
rc_nn = Lemma("rc_nn", LS + [I], lambda sq, AF, DM, e, k, n: rcnt(sq, AF, DM, e, k, n) >= 0)
ac_nn = Lemma("ac_nn", [AR, R], lambda a, e, n: acnt(a, e, n) >= 0)
def su_eh(c):
    a, L, e = c.a(0), c.a(1), c.a(2); A = la(c.pre, L, e); D2 = z3.Const("D2?", AAR); n, N = lenL(c.pre, L), nS(c.pre); x = A[:2] + (A[2], D2, e)
    return [CSAME.reveal(), ForAll([D2], gc_ext(*x, n, N, n), patterns=[gcnt(*A[:2], D2, e, N, n)]), gc_nn(*A, N, n), ac_nn(c.pre.D(a), e, N)]
contract("setUpRegionLP", file=F, requires=lambda c: rp_pre(c, c.a(0), c.a(1)), ehints=su_eh, hints=lambda c: bridge(c, c.pre, c.now, c.a(1), c.a(0), c.a(2)),
  ensures=lambda c: (lambda p, v: [("fresh", p >= c.pre.clk)] + lp_ok(v, p) + lp_name(v, p) + [("storage is fresh", And(*[lf(v, f, p) >= c.pre.clk for f in REALS + INTS + ("sense", "name")])),
      ("dimensions", And(lf(v, "cols", p) == nS(c.pre) + 3, lf(v, "rows", p) == lenL(c.pre, c.a(1)) + 2)), ("nothing loaded", And(lf(v, "lp", p) == 0, Or(lf(v, "lp_algorithm", p) == 0, lf(v, "lp_algorithm", p) == 1)))] + objective(c, v, p)
      + region_rows(la(c.pre, c.a(1), c.a(2)), c.pre.D(c.a(0)), lenL(c.pre, c.a(1)), nS(c.pre), mat(v, p), v.Ch(lf(v, "sense", p)), v.D(lf(v, "rhs", p))) + prog_cols(mat(v, p), lf(v, "cols", p), lf(v, "rows", p), lf(v, "matspace", p)))(c.r, c.post))
PP = "PomdpSolveParamStruct"
def pf(v, f, p): return v.f(PP + "." + f, p)
def par_ok(v, p): return [("parameters", And(p > 0, v.valid(p), KIND(p) == E.kind_of(PP))), stat_ok(v, pf(v, "stat", p))]
def objP(P, n):
    i = bound("i")
    return [("maximisation", P.sen == MAXIMIZE), ("the objective is the margin variable", forall(i, Implies(And(0 <= i, i < P.cols), P.obj[i] == If(i == n, rv(1), rv(0))), [P.obj[i]])),
            ("variable bounds", forall(i, Implies(And(0 <= i, i < P.cols), And(P.lo[i] == 0, P.up[i] == If(i < n, rv(1), INFB))), [P.lo[i]])), ("variable bounds, upper", forall(i, Implies(And(0 <= i, i < P.cols), P.up[i] == If(i < n, rv(1), INFB)), [P.up[i]]))]
def out_real(v, x): return And(x != 0, v.valid(x), KIND(x) == E.kind_of("real"), LEN(x) >= 1)
def frp_parts(c): return c.a(0), c.a(1), c.a(2), c.a(3), c.a(4)
def region_given(c, a, L, e):
    """the program recorded at the solver is the region program of vector a against list L"""
    P = GProg(c.post); n, N = lenL(c.pre, L), nS(c.pre)
    return [("dimensions", And(P.cols == N + 3, P.rows == n + 2))] + objP(P, N) + region_rows(la(c.pre, L, e), c.pre.D(a), n, N, P.m, P.sense, P.rhs) + image(P, SProg(c.post))
def frp_ens(c):
    a, L, w, d, p = frp_parts(c); n, N = lenL(c.pre, L), nS(c.pre); ne = n > 0; i = bound("i"); eps = pf(c.pre, "epsilon", p); best, st = c.post.gh("sv_best"), c.post.gh("sv_stat")[0]; W, Dd = c.post.D(w), c.post.D(d)
    margin = -best[0]; found = And(st == 0, margin >= eps, best[n + 2 + N + 1] >= eps)
    return [("a truth value", Or(c.r == 0, c.r == 1)), ("against an empty set every belief is a witness", Implies(Not(ne), c.r == 1)),
      ("empty set: a corner is reported", Implies(And(Not(ne), w != 0), And(W[0] == 1, forall(i, Implies(And(1 <= i, i < N), W[i] == 0), [W[i]])))), ("empty set: unbounded margin", Implies(And(Not(ne), d != 0), Dd[0] == INF))] + \
      [("program solved: " + l, Implies(ne, f)) for l, f in region_given(c, a, L, pf(c.pre, "sparse_epsilon", p))] + \
      [("a witness only for an optimal program with both margins at least epsilon", Implies(And(ne, c.r == 1), found)), ("such a program always gives a witness", Implies(And(ne, found), c.r == 1)),
       ("the witness is the solution of the program", Implies(And(ne, c.r == 1, w != 0), forall(i, Implies(And(0 <= i, i < N), W[i] == best[n + 2 + i + 1]), [W[i]]))), ("the reported margin is the objective", Implies(And(ne, st == 0, d != 0), Dd[0] == margin)),
       ("on record: call", c.post.gh("fr_n")[0] == c.pre.gh("fr_n")[0] + 1)] + [("on record: " + g, c.post.gh(g) == t) for g, t in fr_log(c).items() if g != "fr_n"] + \
      [("no witness written without one", Implies(And(c.r == 0, w != 0), W == c.pre.D(w))), ("no margin written without a solution", Implies(And(ne, st != 0, d != 0), Dd == c.pre.D(d)))]
# every call of findRegionPoint is put on record: whose region, against which list, and the margin found (0 for none)
for _g, _s in dict(fr_vec=AI, fr_list=AI, fr_gain=AR, fr_n=AI).items(): GHOSTS[_g] = _s
FRL = ("fr_vec", "fr_list", "fr_gain")
FR_G = {"ghost:" + g: "any" for g in FRL + ("fr_n",)}
def fr_gain(c): return If(c.r == 1, If(lenL(c.pre, c.a(1)) > 0, -c.now.gh("sv_best")[0], INF), rv(0))
def fr_log(c): n = c.pre.gh("fr_n")[0]; return dict(fr_vec=z3.Store(c.pre.gh("fr_vec"), n, c.a(0)), fr_list=z3.Store(c.pre.gh("fr_list"), n, c.a(1)), fr_gain=z3.Store(c.pre.gh("fr_gain"), n, fr_gain(c)), fr_n=z3.Store(c.pre.gh("fr_n"), 0, n + 1))
contract("findRegionPoint", file=F, ghost_writes=tuple(SV + LPG) + FRL + ("fr_n",), ghost_exit=fr_log, requires=lambda c: rp_pre(c, c.a(0), c.a(1)) + par_ok(c.pre, c.a(4)) + [("witness storage, if any", Implies(c.a(2) != 0, And(c.pre.valid(c.a(2)), KIND(c.a(2)) == E.kind_of("real"), LEN(c.a(2)) >= nS(c.pre), c.a(2) > 0))), ("margin storage, if any", Implies(c.a(3) != 0, And(out_real(c.pre, c.a(3)), c.a(3) != c.a(2)))),
     ("witness storage is apart from the vectors", And(c.a(2) != c.a(0), c.a(3) != c.a(0), Or(c.a(2) == 0, bown(c.pre, c.a(2)) == 0), Or(c.a(3) == 0, bown(c.pre, c.a(3)) == 0)))],
  modifies=lambda c: dict(SLV_G, **FR_G, **{"M:real": [c.a(2), c.a(3)], "M:char": lambda r: r < -1000000, "M:int": stat_mods(pf(c.pre, "stat", c.a(4))), "G:gLpSolveInstabilityCount": "any", "F:_matrec.value": lambda r: ELTB(r) >= c.pre.clk, "F:_matrec.row_nr": lambda r: ELTB(r) >= c.pre.clk}),
  ensures=frp_ens,
  loops=[Loop(bound=lambda c: nS(c.pre) - 1, mods=lambda c: {"M:real": [c.a(2)]}, only=True, inv=lambda c: (lambda i, W: [("corner so far", And(W[0] == 1, forall(i, Implies(And(1 <= i, i < c.k + 1), W[i] == 0), [W[i]])))])(bound("i"), c.now.D(c.a(2)))),
         Loop(bound=lambda c: nS(c.pre), mods=lambda c: {"M:real": [c.a(2)]}, only=True, inv=lambda c: (lambda i, W, b: [("copied so far", forall(i, Implies(And(0 <= i, i < c.k), W[i] == b[lenL(c.pre, c.a(1)) + 3 + i]), [W[i]]))])(bound("i"), c.now.D(c.a(2)), c.now.gh("sv_best")))])
C["findRegionPoint"].shards = 6
C["setUpRegionConstraintsNew"].shards = 4
C["setUpRegionLP"].shards = 3
