"""src/mdp/parse_hash.c: names declared in a model file (P16)."""
from .lib import *
F = "src/mdp/parse_hash.c"
ND = "Node_Struct"; NB = 255
# ---------------------------------------------------------------- C strings (libc contracts are trusted)
SLEN = z3.Function("SLEN", AI, I)               # index of the first NUL
def is_str(v, p):
    A, k = v.Ch(p), bound("k"); n = SLEN(A)
    return And(p != 0, v.valid(p), KIND(p) == E.kind_of("char"), 0 <= n, n < LEN(p), A[n] == 0, forall(k, Implies(And(0 <= k, k < n), And(1 <= A[k], A[k] <= 127)), [A[k]]))
def _lit(st, r, b):
    if not all(1 <= ord(x) <= 127 for x in b): return
    A = Sel(st.H("M:char"), r); n = len(b)
    st.assume(And(Not(Sel(st.H("freed"), r)), KIND(r) == E.kind_of("char"), LEN(r) == n + 1, SLEN(A) == n, A[n] == 0, *[A[i] == ord(x) for i, x in enumerate(b)]))
E.STRING_HOOK[0] = _lit
def streq(A, B_):
    k = bound("k")
    return And(SLEN(A) == SLEN(B_), forall(k, Implies(And(0 <= k, k < SLEN(A)), A[k] == B_[k]), [A[k]], ))
# equality of strings as a relation on contents; its definition is revealed where needed
SEQ = Opaque("SEQ", [AI, AI], B, streq)
seq_refl = Lemma("seq_refl", [AI, AI], lambda a, b: Implies(SEQ(a, b), And(SLEN(a) == SLEN(b), SEQ(b, a))), pats=lambda a, b: [SEQ(a, b)], induct=False, extra=lambda a, b: [SEQ.reveal()])
seq_tr = Lemma("seq_tr", [AI, AI, AI], lambda a, b, c: Implies(And(SEQ(a, b), SEQ(b, c)), SEQ(a, c)), pats=lambda a, b, c: [z3.MultiPattern(SEQ(a, b), SEQ(b, c))], induct=False, extra=lambda a, b, c: [SEQ.reveal()])
def hval(A, n):
    m = n - 1
    return If(m == 0, A[0], If(m == 1, A[0] * A[1], If(m == 2, A[0] * A[1] + A[2], A[0] * A[1] * A[m - 1] + A[m]))) % NB
HSH = Opaque("HSH", [AI], I, lambda A: hval(A, SLEN(A)))
hsh_ext = Lemma("hsh_ext", [AI, AI], lambda a, b: Implies(And(SEQ(a, b), SLEN(a) >= 1), HSH(a) == HSH(b)), pats=lambda a, b: [SEQ(a, b)], induct=False, extra=lambda a, b: [SEQ.reveal(), HSH.reveal(), seq_refl(a, b)])
contract("strlen", file=None, trusted=True, writes=set(), requires=lambda c: [("string", is_str(c.pre, c.a(0)))], ensures=lambda c: [("length", c.r == SLEN(c.pre.Ch(c.a(0))))], note="libc")
contract("strcmp", file=None, trusted=True, writes=set(), requires=lambda c: [("first string", is_str(c.pre, c.a(0))), ("second string", is_str(c.pre, c.a(1)))],
   ensures=lambda c: [("zero iff equal", (c.r == 0) == SEQ(c.pre.Ch(c.a(0)), c.pre.Ch(c.a(1))))], note="libc")
contract("strcpy", file=None, trusted=True, writes={"M:char"}, requires=lambda c: [("source", is_str(c.pre, c.a(1))), ("room", And(c.a(0) != 0, c.a(0) != c.a(1), c.pre.valid(c.a(0)), KIND(c.a(0)) == E.kind_of("char"), LEN(c.a(0)) > SLEN(c.pre.Ch(c.a(1)))))],
   modifies=lambda c: {"M:char": [c.a(0)]}, ensures=lambda c: [("copied", And(is_str(c.post, c.a(0)), SEQ(c.post.Ch(c.a(0)), c.pre.Ch(c.a(1)))))], note="libc")

# ---------------------------------------------------------------- the table of names
for g, s in dict(hs=AAI, hl=AI, hb=AI, hp=AI, hn=AAI, sown=AI).items(): GHOSTS[g] = s
E.FRESH_GHOST = E.FRESH_GHOST + ("hb", "sown")
def f_(f): return lambda v, p: v.f(ND + "." + f, p)
ty, num, strN, nxtN = f_("type"), f_("number"), f_("str"), f_("next")
def HT(v): return v.g("Hash_Table")
def nd(v, b, k): return Sel(v.gh("hs"), b, k)
def hl(v, b): return Sel(v.gh("hl"), b)
def hb(v, p): return Sel(v.gh("hb"), p)          # bucket + 1, 0 when in no bucket
def hp(v, p): return Sel(v.gh("hp"), p)
def hn(v, t, n): return Sel(v.gh("hn"), t, n)
def cntof(v, t): return If(t == 0, nS(v), If(t == 1, nA(v), nZ(v)))
def intab(v, p): return And(1 <= hb(v, p), hb(v, p) <= NB, 0 <= hp(v, p), hp(v, p) < hl(v, hb(v, p) - 1), nd(v, hb(v, p) - 1, hp(v, p)) == p)
def name_of(v, p): return v.Ch(strN(v, p))
def ht_wf(v):
    b, k, t, p, q = bound("b"), bound("k"), bound("t"), bound("p"), bound("q"); x = nd(v, b, k)
    return [("table live", And(HT(v) > 0, arr_ok(v, HT(v), iv(NB), "ptr"), hb(v, HT(v)) == 0)),
      ("bucket lengths", forall(b, Implies(And(0 <= b, b < NB), hl(v, b) >= 0), [hl(v, b)])),
      ("bucket heads", forall(b, Implies(And(0 <= b, b < NB), v.P(HT(v))[b] == If(hl(v, b) > 0, nd(v, b, iv(0)), iv(0))), [v.P(HT(v))[b], hl(v, b)])),
      ("nodes live, each in its own bucket", forall([b, k], Implies(And(0 <= b, b < NB, 0 <= k, k < hl(v, b)), And(x > 0, v.valid(x), KIND(x) == E.kind_of(ND), hb(v, x) == b + 1, hp(v, x) == k, nxtN(v, x) == If(k + 1 < hl(v, b), nd(v, b, k + 1), iv(0)))), [x])),
      ("names", forall(p, Implies(hb(v, p) != 0, And(intab(v, p), is_str(v, strN(v, p)), SLEN(name_of(v, p)) >= 1, Sel(v.gh("sown"), strN(v, p)) == p, HSH(name_of(v, p)) == hb(v, p) - 1)), [hb(v, p), strN(v, p)])),
      ("kinds and numbers", forall(p, Implies(hb(v, p) != 0, And(0 <= ty(v, p), ty(v, p) <= 2, 0 <= num(v, p), num(v, p) < cntof(v, ty(v, p)), hn(v, ty(v, p), num(v, p)) == p)), [hb(v, p)])),
      ("every number names one entry of its kind", forall([t, k], Implies(And(0 <= t, t <= 2, 0 <= k, k < cntof(v, t)), And(hb(v, hn(v, t, k)) != 0, ty(v, hn(v, t, k)) == t, num(v, hn(v, t, k)) == k)), [hn(v, t, k)])),
      ("no name twice for one kind", forall([p, q], Implies(And(hb(v, p) != 0, hb(v, q) != 0, ty(v, p) == ty(v, q), SEQ(name_of(v, p), name_of(v, q))), p == q), [SEQ(name_of(v, p), name_of(v, q))])),
      ("counts", And(nS(v) >= 0, nA(v) >= 0, nZ(v) >= 0))]
def arg_str(c): return [("name: a non-empty string of the table's character range", And(is_str(c.pre, c.a(0)), SLEN(c.pre.Ch(c.a(0))) >= 1))]
contract("H_string", file=F, requires=arg_str, hints=lambda c: [HSH.reveal()], note="characters 1..127, as the scanner produces",
  ensures=lambda c: [("the bucket depends on the characters of the name alone", c.r == HSH(c.pre.Ch(c.a(0)))), ("bucket in range", And(0 <= c.r, c.r < NB))])
def matches(c, p): return And(hb(c.pre, p) != 0, ty(c.pre, p) == c.a(1), SEQ(c.pre.Ch(c.a(0)), name_of(c.pre, p)))
def none_before(c, b, n):
    k = bound("k")
    return forall(k, Implies(And(0 <= k, k < n), Not(matches(c, nd(c.pre, b, k)))), [nd(c.pre, b, k)])
def kind_pre(c): return [("kind of name", And(0 <= c.a(1), c.a(1) <= 2))]
def bk(c): return HSH(c.pre.Ch(c.a(0)))
def bwalk(c):
    b = bk(c)
    def mk(d): return lambda k, v: If(And(0 <= k + d, k + d < hl(c.pre, b)), nd(c.pre, b, k + d), iv(0))
    return [mk(0), mk(-1), mk(1)]
def absent(c):
    p = bound("p")
    return forall(p, Not(matches(c, p)), [hb(c.pre, p)])
LH = lambda c: [hsh_ext.all(), seq_refl.all(), seq_tr.all()]
contract("H_lookup", file=F, requires=lambda c: ht_wf(c.pre) + arg_str(c) + kind_pre(c), hints=LH,
  ensures=lambda c: [("unknown names are reported as such", Implies(c.r == -1, absent(c))),
     ("a declared name denotes its number", Implies(c.r != -1, And(0 <= c.r, c.r < cntof(c.pre, c.a(1)), matches(c, hn(c.pre, c.a(1), c.r)))))],
  loops=[Loop(walk=bwalk, bound=lambda c: hl(c.pre, bk(c)), inv=lambda c: [("not found so far", none_before(c, bk(c), c.k))])])
def ent_ghost(c):
    v = c.now; b = bk(c); n = hl(c.pre, b); t = c.a(1)
    p = v.P(HT(c.pre))[b]; p = If(n > 0, nxtN(v, nd(c.pre, b, n - 1)), p)
    on = c.r == 1; g = v.gh; num_ = cntof(c.pre, t)
    up = {"hs": z3.Store(g("hs"), b, z3.Store(Sel(g("hs"), b), n, p)), "hl": z3.Store(g("hl"), b, n + 1), "hb": z3.Store(g("hb"), p, b + 1), "hp": z3.Store(g("hp"), p, n),
          "hn": z3.Store(g("hn"), t, z3.Store(Sel(g("hn"), t), num_, p)), "sown": z3.Store(g("sown"), strN(v, p), p)}
    return {k: If(on, x, g(k)) for k, x in up.items()}
HG = ("hs", "hl", "hb", "hp", "hn", "sown")
def ent_last(c): b = bk(c); n = hl(c.pre, b); return If(n > 0, nd(c.pre, b, n - 1), iv(0))
contract("H_enter", file=F, requires=lambda c: ht_wf(c.pre) + arg_str(c) + kind_pre(c) + [("name not held by the table", Sel(c.pre.gh("sown"), c.a(0)) == 0)], hints=LH, ghost_writes=HG, ghost_exit=ent_ghost,
  modifies=lambda c: {"G:gNumStates": "any", "G:gNumActions": "any", "G:gNumObservations": "any", "M:ptr": [HT(c.pre)], "F:" + ND + ".next": [ent_last(c)], "ghost:hs": [bk(c)], "ghost:hl": [bk(c)], "ghost:hb": [], "ghost:hp": [], "ghost:hn": [c.a(1)], "ghost:sown": []},
  ensures=lambda c: ht_wf(c.post) + (lambda t, k, p: [("a repeated name is refused", (c.r == 0) == Not(absent(c))), ("0 or 1", Or(c.r == 0, c.r == 1)),
     ("refusal changes no numbering", Implies(c.r == 0, And(nS(c.post) == nS(c.pre), nA(c.post) == nA(c.pre), nZ(c.post) == nZ(c.pre)))),
     ("counts of the other kinds unchanged", forall(t, Implies(And(0 <= t, t <= 2), cntof(c.post, t) == cntof(c.pre, t) + If(And(t == c.a(1), c.r == 1), iv(1), iv(0))), [touch_t(t)])),
     ("earlier numbers keep their names", forall([t, k], Implies(And(0 <= t, t <= 2, 0 <= k, k < cntof(c.pre, t)), And(hn(c.post, t, k) == hn(c.pre, t, k), name_of(c.post, hn(c.pre, t, k)) == name_of(c.pre, hn(c.pre, t, k)))), [hn(c.pre, t, k), hn(c.post, t, k)])),
     ("the new name gets the next number of its kind", Implies(c.r == 1, And(ty(c.post, p) == c.a(1), num(c.post, p) == cntof(c.pre, c.a(1)), SEQ(name_of(c.post, p), c.pre.Ch(c.a(0))))))])(bound("t"), bound("k"), hn(c.post, c.a(1), cntof(c.pre, c.a(1)))),
  loops=[Loop(walk=bwalk, bound=lambda c: hl(c.pre, bk(c)), inv=lambda c: [("not found so far", none_before(c, bk(c), c.k)), ("last node passed", c.lv("trail", "ptr") == If(c.k > 0, nd(c.pre, bk(c), c.k - 1), c.pre.P(HT(c.pre))[bk(c)]))])])
C["H_enter"].local_names = {"trail"}
def touch_t(t): return z3.Function("touch_t", I, I)(t)
contract("H_create", file=F, ghost_writes=HG, modifies=lambda c: {"G:Hash_Table": "any", "G:gNumStates": "any", "G:gNumActions": "any", "G:gNumObservations": "any", **{"ghost:" + g: "any" for g in HG}},
  ghost_exit=lambda c: {"hl": z3.K(I, iv(0)), "hb": z3.K(I, iv(0)), "sown": z3.K(I, iv(0))},
  ensures=lambda c: ht_wf(c.post) + [("no names yet", And(nS(c.post) == 0, nA(c.post) == 0, nZ(c.post) == 0))])
