"""src/mdp/mdp.c, src/sim.c, src/random.c: belief update (P09), random draws and simulated steps (P18)."""
from .proj_ import *
FM, FS, FR = "src/mdp/mdp.c", "src/sim.c", "src/random.c"
# ---------------------------------------------------------------- Bayes' rule
# mass moved from one state (weight w) to state x by the first n stored successors at s
pin = RecFun("pin", [AR, AI, I, R, I], R, lambda pv, pc, s, w, x: rv(0), lambda pv, pc, s, w, x, i, p: p + If(pc[s + i] == x, w * pv[s + i], rv(0)))
# predicted probability of state x, summed over the first n states
pout = RecFun("pout", [AR, AR, AI, AI, AI, I], R, lambda *a: rv(0), lambda b, pv, pc, ps, pl, x, i, p: p + pin(pv, pc, ps[i], b[i], x, pl[i]))
# the same with every term weighted by o (the observation probability of x), as the code accumulates it; both agree (lemmas)
jin = RecFun("jin", [AR, AI, I, R, I, R], R, lambda *a: rv(0), lambda pv, pc, s, w, x, o, i, p: p + If(pc[s + i] == x, w * pv[s + i] * o, rv(0)))
jout = RecFun("jout", [AR, AR, AI, AI, AI, I, R], R, lambda *a: rv(0), lambda b, pv, pc, ps, pl, x, o, i, p: p + jin(pv, pc, ps[i], b[i], x, o, pl[i]))
jin_f = Lemma("jin_f", [AR, AI, I, R, I, R], lambda pv, pc, s, w, x, o, n: jin(pv, pc, s, w, x, o, n) == pin(pv, pc, s, w, x, n) * o)
jout_f = Lemma("jout_f", [AR, AR, AI, AI, AI, I, R], lambda b, pv, pc, ps, pl, x, o, n: jout(b, pv, pc, ps, pl, x, o, n) == pout(b, pv, pc, ps, pl, x, n) * o,
   pats=lambda b, pv, pc, ps, pl, x, o, n: [jout(b, pv, pc, ps, pl, x, o, n)], extra=lambda b, pv, pc, ps, pl, x, o, n: [jin_f(pv, pc, ps[n], b[n], x, o, pl[n]), Implies(pl[n] < 0, And(jin(pv, pc, ps[n], b[n], x, o, pl[n]) == 0, pin(pv, pc, ps[n], b[n], x, pl[n]) == 0))])
# total probability of the observation over the first n states
btot = RecFun("btot", [AR, AR, AI, AI, AI, AR, AI, AI, AI, I, I], R, lambda *a: rv(0),
   lambda b, pv, pc, ps, pl, ov, oc, os, ol, z, m, x, p: p + pout(b, pv, pc, ps, pl, x, m) * ent_raw(ov, oc, os[x], ol[x], z))
def parr(v, a): M = Pm(v, a); return v.D(mxV(v, M)), v.Ia(mxC(v, M)), v.Ia(mxS(v, M)), v.Ia(mxL(v, M))
def oarr(v, a): M = Rm(v, a); return v.D(mxV(v, M)), v.Ia(mxC(v, M)), v.Ia(mxS(v, M)), v.Ia(mxL(v, M))
def pred(v, b, a, x, n): return pout(v.D(b), *parr(v, a), x, n)
def obsp(v, a, x, z): ov, oc, os, ol = oarr(v, a); return ent_raw(ov, oc, os[x], ol[x], z)
def joint(v, b, a, z, x): return pred(v, b, a, x, nS(v)) * obsp(v, a, x, z)
def total(v, b, a, z, n): return btot(v.D(b), *parr(v, a), *oarr(v, a), z, nS(v), n)
def _pinnn(pv, pc, s, w, x, n):
    i = bound("i"); return Implies(And(w >= 0, forall(i, Implies(And(s <= i, i < s + n), pv[i] >= 0), [pv[i]])), pin(pv, pc, s, w, x, n) >= 0)
pin_nn = Lemma("pin_nn", [AR, AI, I, R, I], _pinnn, pats=lambda pv, pc, s, w, x, n: [pin(pv, pc, s, w, x, n)])
def nnseg(pv, ps, pl, n):
    i, c = bound("i"), bound("c"); return forall([c, i], Implies(And(0 <= c, c < n, ps[c] <= i, i < ps[c] + pl[c]), pv[i] >= 0), [z3.MultiPattern(ps[c], pv[i])])
def _poutnn(b, pv, pc, ps, pl, x, n):
    c = bound("c"); return Implies(And(forall(c, Implies(And(0 <= c, c < n), And(b[c] >= 0, pl[c] >= 0)), [b[c]]), nnseg(pv, ps, pl, n)), pout(b, pv, pc, ps, pl, x, n) >= 0)
pout_nn = Lemma("pout_nn", [AR, AR, AI, AI, AI, I], _poutnn, pats=lambda b, pv, pc, ps, pl, x, n: [pout(b, pv, pc, ps, pl, x, n)], extra=lambda b, pv, pc, ps, pl, x, n: [pin_nn(pv, pc, ps[n], b[n], x, pl[n])])
def nonneg_model(v, b, a, z):
    c, x = bound("c"), bound("x"); pv, pc, ps, pl = parr(v, a)
    return And(forall(c, Implies(And(0 <= c, c < nS(v)), v.D(b)[c] >= 0), [v.D(b)[c]]), nnseg(pv, ps, pl, nS(v)), forall(x, Implies(And(0 <= x, x < nS(v)), obsp(v, a, x, z) >= 0), [oarr(v, a)[2][x]]))
def _norm(h, b, pv, pc, ps, pl, ov, oc, os, ol, z, m, d, n):
    i = bound("i"); return Implies(And(d != 0, forall(i, Implies(And(0 <= i, i < n), h[i] == DIV(pout(b, pv, pc, ps, pl, i, m) * ent_raw(ov, oc, os[i], ol[i], z), d)), [h[i]])), suma(h, n) * d == btot(b, pv, pc, ps, pl, ov, oc, os, ol, z, m, n))
norm_sum = Lemma("norm_sum", [AR, AR, AR, AI, AI, AI, AR, AI, AI, AI, I, I, R], _norm, extra=lambda *a: [div_mul.all()])
div_mul = Lemma("div_mul", [R, R], lambda x, y: Implies(y != 0, DIV(x, y) * y == x), pats=lambda x, y: [DIV(x, y)], induct=False, extra=lambda x, y: [DIV.reveal()])
div_nn = Lemma("div_nn", [R, R], lambda x, y: Implies(And(y > 0, x >= 0), DIV(x, y) >= 0), pats=lambda x, y: [DIV(x, y)], induct=False, extra=lambda x, y: [DIV.reveal()])
cancel = Lemma("cancel", [R, R], lambda s, d: Implies(And(d != 0, s * d == d), s == 1), induct=False)
mul_nn = Lemma("mul_nn", [R, R], lambda x, y: Implies(And(x >= 0, y >= 0), x * y >= 0), induct=False)
def _bt(b, pv, pc, ps, pl, ov, oc, os, ol, z, m, n):
    i, c = bound("i"), bound("c")
    return Implies(And(forall(c, Implies(And(0 <= c, c < m), And(b[c] >= 0, pl[c] >= 0)), [b[c]]), nnseg(pv, ps, pl, m), forall(i, Implies(And(0 <= i, i < n), ent_raw(ov, oc, os[i], ol[i], z) >= 0), [os[i]])), btot(b, pv, pc, ps, pl, ov, oc, os, ol, z, m, n) >= 0)
btot_nn = Lemma("btot_nn", [AR, AR, AI, AI, AI, AR, AI, AI, AI, I, I], _bt, extra=lambda b, pv, pc, ps, pl, ov, oc, os, ol, z, m, n: [Implies(m >= 0, pout_nn(b, pv, pc, ps, pl, n, m)), Implies(m < 0, pout(b, pv, pc, ps, pl, n, m) == 0), mul_nn(pout(b, pv, pc, ps, pl, n, m), ent_raw(ov, oc, os[n], ol[n], z))])
TB_EPS = rv("1/10000000000")
def bel_ok(v, b): return [("belief array", And(b > 0, arr_ok(v, b, nS(v)), Sel(v.gh("mown"), b) == 0))]
def az2(c, a, z): return [("action and observation in range", And(0 <= a, a < nA(c.pre), 0 <= z, z < nZ(c.pre)))]
def tb_pre(c, b, h, a, z): return sizes(c) + pr_ok(c.pre) + bel_ok(c.pre, b) + bel_ok(c.pre, h) + az2(c, a, z) + [("separate arrays", b != h)]
def tb_a(c): return c.a(0), c.a(1), c.a(2), c.a(3)
def jnt(c, x, n): return jout(c.pre.D(c.a(0)), *parr(c.pre, c.a(2)), x, obsp(c.pre, c.a(2), x, c.a(3)), n)
def upto(c, hf, want, n=None):
    x = bound("x"); h = c.a(1)
    return forall(x, Implies(And(0 <= x, x < (nS(c.pre) if n is None else n)), c.now.D(h)[x] == want(x)), [c.now.D(h)[x]])
def rest(c, k):
    x = bound("x"); h = c.a(1)
    return forall(x, Implies(And(k <= x, x < nS(c.pre)), c.now.D(h)[x] == c.at.D(h)[x]), [c.now.D(h)[x]])
def beqv(A, D, n): i = bound("i"); return forall(i, Implies(And(0 <= i, i < n), A[i] == D[i]), [A[i]])
suma_ext = Lemma("suma_ext", [AR, AR], lambda a, b, n: (lambda i: Implies(forall(i, Implies(And(0 <= i, i < n), a[i] == b[i]), [a[i]]), suma(a, n) == suma(b, n)))(bound("i")), pats=lambda a, b, n: [z3.MultiPattern(suma(a, n), suma(b, n))])
def _distr(D, n): i = bound("i"); return And(suma(D, n) == 1, forall(i, Implies(And(0 <= i, i < n), D[i] >= 0), [D[i]]))
DISTR = Opaque("DISTR", [AR, I], B, _distr)
distr_def = Lemma("distr_def", [AR, I], lambda D, n: DISTR(D, n) == _distr(D, n), induct=False, extra=lambda D, n: [DISTR.reveal()])
distr_ext = Lemma("distr_ext", [AR, AR, I], lambda A, D, n: Implies(And(DISTR(D, n), beqv(A, D, n)), DISTR(A, n)), induct=False, extra=lambda A, D, n: [DISTR.reveal(), Implies(n >= 0, suma_ext(A, D, n)), Implies(n < 0, suma(A, n) == suma(D, n))])
NN = Opaque("NN", [AR, I], B, lambda b, n: (lambda c: forall(c, Implies(And(0 <= c, c < n), b[c] >= 0), [b[c]]))(bound("c")))
TRNN = Opaque("TRNN", [AR, AI, AI, I], B, lambda pv, ps, pl, n: nnseg(pv, ps, pl, n))
OBNN = Opaque("OBNN", [AR, AI, AI, AI, I, I], B, lambda ov, oc, os, ol, z, n: (lambda x: forall(x, Implies(And(0 <= x, x < n), ent_raw(ov, oc, os[x], ol[x], z) >= 0), [os[x]]))(bound("x")))
distr_nn = Lemma("distr_nn", [AR, I], lambda D, n: Implies(DISTR(D, n), NN(D, n)), induct=False, extra=lambda D, n: [DISTR.reveal(), NN.reveal()], pats=lambda D, n: [DISTR(D, n)])
def model_def(*a): return [NN.reveal(), TRNN.reveal(), OBNN.reveal(), DISTR.reveal()]
POMDPK = iv(2)
def bayes_ens(c, b, h, a, z, ok):
    v = c.pre; x = bound("x"); D = total(v, b, a, z, nS(v))
    return [("success iff the observation's probability is not (numerically) zero", (ok == 1) == And(v.g("gProblemType") == POMDPK, Not(absr(D) < TB_EPS))), ("0 or 1", Or(ok == 0, ok == 1)),
      ("observation probability times predicted probability over the total", Implies(ok == 1, forall(x, Implies(And(0 <= x, x < nS(v)), c.post.D(h)[x] == DIV(joint(v, b, a, z, x), D)), [c.post.D(h)[x]]))),
      ("the components sum to one", Implies(ok == 1, suma(c.post.D(h), nS(v)) == 1)),
      ("no component is negative when no probability is", Implies(And(ok == 1, nonneg_model(v, b, a, z)), forall(x, Implies(And(0 <= x, x < nS(v)), c.post.D(h)[x] >= 0), [c.post.D(h)[x]])))]
def bayes_hints(c, b, h, a, z):
    v = c.pre; x = bound("x"); D = total(v, b, a, z, nS(v)); A = (v.D(b), *parr(v, a), *oarr(v, a), z, nS(v))
    nnj = forall(x, And(mul_nn(pred(v, b, a, x, nS(v)), obsp(v, a, x, z)), pout_nn(v.D(b), *parr(v, a), x, nS(v))), [pred(v, b, a, x, nS(v))])
    return [norm_sum(c.post.D(h), *A, D, nS(v)), cancel(suma(c.post.D(h), nS(v)), D), btot_nn(*A, nS(v)), nnj, div_nn.all()]
contract("transformBeliefState", file=FM, requires=lambda c: tb_pre(c, *tb_a(c)), modifies=lambda c: {"M:real": [c.a(1)]},
  ensures=lambda c: bayes_ens(c, *tb_a(c), c.r) + (lambda v, b, a, z: [("a probability distribution when no probability is negative", Implies(And(c.r == 1, NN(v.D(b), nS(v)), TRNN(*[parr(v, a)[i] for i in (0, 2, 3)], nS(v)), OBNN(*oarr(v, a), z, nS(v))), DISTR(c.post.D(c.a(1)), nS(v))))])(c.pre, c.a(0), c.a(2), c.a(3)), chain=True,
  hints=lambda c: [jout_f.all()] + bayes_hints(c, *tb_a(c)) + model_def(),
  loops=[Loop(bound=lambda c: nS(c.pre), mods=lambda c: {"M:real": [c.a(1)]}, inv=lambda c: [("zeroed", upto(c, None, lambda x: rv(0), c.k))]),
    Loop(bound=lambda c: nS(c.pre), mods=lambda c: {"M:real": [c.a(1)]}, inv=lambda c: [("mass of the states so far", upto(c, None, lambda x: jnt(c, x, c.k)))]),
    Loop(bound=lambda c: ln_(c.pre, Pm(c.pre, c.a(2)), c.lv("cur_state", "int")), mods=lambda c: {"M:real": [c.a(1)]},
      inv=lambda c: (lambda s, P_: [("mass of the successors so far", upto(c, None, lambda x: jnt(c, x, s) + jin(P_[0], P_[1], P_[2][s], c.pre.D(c.a(0))[s], x, obsp(c.pre, c.a(2), x, c.a(3)), c.k)))])(c.lv("cur_state", "int"), parr(c.pre, c.a(2)))),
    Loop(bound=lambda c: nS(c.pre), hints=lambda c: [jout_f.all()], inv=lambda c: [("total so far", c.lv("denom", "real") == total(c.pre, c.a(0), c.a(2), c.a(3), c.k))]),
    Loop(bound=lambda c: nS(c.pre), mods=lambda c: {"M:real": [c.a(1)]}, inv=lambda c: [("normalised so far", upto(c, None, lambda x: DIV(c.at.D(c.a(1))[x], c.lv("denom", "real")), c.k)), ("rest kept", rest(c, c.k))])])
C["transformBeliefState"].local_names = {"cur_state", "denom"}

# ---------------------------------------------------------------- random numbers (P18)
# erand48 draws a number in [0,1) that depends on the seed alone, and replaces the seed by one that depends on the seed alone (libc; trusted)
ERAND = z3.Function("ERAND", I, I, I, R); NX = [z3.Function("NEXTSEED%d" % i, I, I, I, I) for i in range(3)]
def nexts(A): return z3.Store(z3.Store(z3.Store(A, 0, NX[0](A[0], A[1], A[2])), 1, NX[1](A[0], A[1], A[2])), 2, NX[2](A[0], A[1], A[2]))
def draw(A): return ERAND(A[0], A[1], A[2])
SREF = E.glob_ref_of("random_seed48")
def sd(v): return v.Ia(SREF)
seedn = RecFun("seedn", [AI], AI, lambda A: A, lambda A, i, p: nexts(p))        # the seed after n draws
seed_det = Lemma("seed_det", [AI, AI], lambda a, b, n: Implies(And(*[a[i] == b[i] for i in range(3)]), And(draw(seedn(a, n)) == draw(seedn(b, n)), *[seedn(a, n)[i] == seedn(b, n)[i] for i in range(3)])))
def seeded(v): return v.g("seeded") != 0
contract("erand48", file=None, trusted=True, writes={"M:int"}, note="libc", requires=lambda c: [("seed array of three", And(c.a(0) != 0, LEN(c.a(0)) >= 3))], modifies=lambda c: {"M:int": [c.a(0)]},
  ensures=lambda c: [("in [0,1)", And(0 <= c.r, c.r < 1)), ("a function of the seed", c.r == draw(c.pre.Ia(c.a(0)))), ("next seed", c.post.Ia(c.a(0)) == nexts(c.pre.Ia(c.a(0))))])
contract("init_randomizer", file=FR, trusted=True, note="seeds from the clock and process ids; only when no seed was given", writes={"M:int", "G:seeded"}, modifies=lambda c: {"M:int": [SREF], "G:seeded": "any"}, ensures=lambda c: [("seeded", c.post.g("seeded") == 1)])
RM = lambda c: {"M:int": [SREF], "G:seeded": "any"}
def r_ens(c, n): return [("seeded", seeded(c.post)), ("with a given seed, the next seed depends on the seed alone", Implies(seeded(c.pre), sd(c.post) == seedn(sd(c.pre), n)))]
contract("fran", file=FR, modifies=RM, ensures=lambda c: [("in [0,1)", And(0 <= c.r, c.r < 1)), ("with a given seed, the number drawn depends on the seed alone", Implies(seeded(c.pre), c.r == draw(sd(c.pre))))] + r_ens(c, iv(1)))
contract("randomize", file=FR, modifies=RM, ensures=lambda c: r_ens(c, iv(0)))
contract("getRandomDouble", file=FR, modifies=RM, requires=lambda c: [("range not empty", c.a(0) <= c.a(1))],
  ensures=lambda c: [("within the bounds", And(c.a(0) <= c.r, c.r <= c.a(1))), ("depends on seed and bounds alone", Implies(seeded(c.pre), c.r == draw(sd(c.pre)) * (c.a(1) - c.a(0)) + c.a(0)))] + r_ens(c, iv(1)), hints=lambda c: [rnd_in(0, c)])
def rnd_in(_, c):
    x, w = bound("x", R), c.a(1) - c.a(0)
    return scale01.all()
scale01 = Lemma("scale01", [R, R], lambda x, w: Implies(And(0 <= x, x < 1, w >= 0), And(0 <= x * w, x * w <= w)), pats=lambda x, w: [x * w], induct=False)
contract("getRandomInt", file=FR, modifies=RM, requires=lambda c: [("range not empty", c.a(0) <= c.a(1))],
  ensures=lambda c: [("within the closed range", And(c.a(0) <= c.r, c.r <= c.a(1))), ("depends on seed and bounds alone", Implies(seeded(c.pre), c.r == z3.ToInt(draw(sd(c.pre)) * z3.ToReal(c.a(1) - c.a(0) + 1)) + c.a(0)))] + r_ens(c, iv(1)))
def seedarr(c): return [("seed array of three", And(c.a(0) > 0, arr_ok(c.pre, c.a(0), iv(3), "int")))]
contract("setRandomSeed", file=FR, requires=seedarr, modifies=RM, loops=[Loop(bound=lambda c: iv(3), mods=lambda c: {"M:int": [SREF]}, inv=lambda c: (lambda i: [("copied so far", forall(i, Implies(And(0 <= i, i < c.k), c.now.Ia(SREF)[i] == c.pre.Ia(c.a(0))[i]), [c.now.Ia(SREF)[i]]))])(bound("i")))],
  ensures=lambda c: [("seeded", seeded(c.post))] + [("the seed given", And(*[sd(c.post)[i] == c.pre.Ia(c.a(0))[i] for i in range(3)]))])
contract("getRandomSeed", file=FR, requires=seedarr, modifies=lambda c: {"M:int": [c.a(0)]}, loops=[Loop(bound=lambda c: iv(3), mods=lambda c: {"M:int": [c.a(0)]}, inv=lambda c: (lambda i: [("copied so far", forall(i, Implies(And(0 <= i, i < c.k), c.now.Ia(c.a(0))[i] == c.pre.Ia(SREF)[i]), [c.now.Ia(c.a(0))[i]]))])(bound("i")))],
  ensures=lambda c: [("the current seed", And(*[c.post.Ia(c.a(0))[i] == sd(c.pre)[i] for i in range(3)]))])
# ---- distributions
def upart(A, i): return 1 - E.STRICT_EXP(DIV(rv(1), z3.ToReal(i)) * E.LOGF(draw(seedn(A, i - 1))))
rdv = RecFun("rdv", [AI, I], R, lambda A, j: rv(0), lambda A, j, i, p: If(i == 0, If(j == 0, rv(1), rv(0)), If(j == i, upart(A, i), p * (1 - upart(A, i)))))
def _ss(h, u, d, n):
    i = bound("i"); return Implies(forall(i, Implies(And(0 <= i, i < n), h[i] == u[i] * d), [h[i]]), suma(h, n) == suma(u, n) * d)
sum_scale = Lemma("sum_scale", [AR, AR, R], _ss)
expo = Lemma("expo", [I, R], lambda i, l: Implies(And(i >= 1, l <= 0), DIV(rv(1), z3.ToReal(i)) * l <= 0), pats=lambda i, l: [DIV(rv(1), z3.ToReal(i)) * l], induct=False, extra=lambda i, l: [DIV.reveal()])
def rd_x(c): return c.now.D(c.a(0))
def rd_inv(c, x, n, k=None):
    j = bound("j")
    return [("components drawn so far", Implies(seeded(c.pre), forall(j, Implies(And(0 <= j, j < n), x[j] == rdv(sd(c.pre), j, n)), [x[j]]))), ("no component negative", forall(j, Implies(And(0 <= j, j < n), And(0 <= x[j], x[j] <= 1)), [x[j]])), ("components sum to one", suma(x, n) == 1)]
mul01 = Lemma("mul01", [R, R], lambda a, b: Implies(And(0 <= a, a <= 1, 0 <= b, b <= 1), And(0 <= a * b, a * b <= 1)), induct=False)
contract("setRandomDistribution", file=FR, requires=lambda c: [("array of probabilities", And(c.a(0) > 0, c.a(1) >= 1, arr_ok(c.pre, c.a(0), c.a(1))))], modifies=lambda c: {"M:real": [c.a(0)], **RM(c)},
  ensures=lambda c: (lambda j, x, n: [("no component negative", forall(j, Implies(And(0 <= j, j < n), And(0 <= x[j], x[j] <= 1)), [x[j]])), ("the components sum to one", suma(x, n) == 1),
     ("with a given seed, the distribution depends on the seed alone", Implies(seeded(c.pre), And(forall(j, Implies(And(0 <= j, j < n), x[j] == rdv(sd(c.pre), j, n)), [x[j]]), sd(c.post) == seedn(sd(c.pre), n - 1))))])(bound("j"), c.post.D(c.a(0)), c.a(1)),
  loops=[Loop(bound=lambda c: c.a(1) - 1, mods=lambda c: {"M:real": [c.a(0)], "M:int": [SREF]}, hints=lambda c: [expo.all()], inv=lambda c: rd_inv(c, rd_x(c), c.k + 1) + [("seed so far", Implies(seeded(c.pre), And(seeded(c.now), sd(c.now) == seedn(sd(c.pre), c.k))))]),
    Loop(bound=lambda c: c.lv("i", "int"), mods=lambda c: {"M:real": [c.a(0)]}, hints=lambda c: [sum_scale(rd_x(c), c.at.D(c.a(0)), 1 - rd_x(c)[c.lv("i", "int")], c.lv("i", "int")), suma_ext.all(), mul01(c.at.D(c.a(0))[c.k - 1], 1 - rd_x(c)[c.lv("i", "int")]), mul01(c.at.D(c.a(0))[c.k], 1 - rd_x(c)[c.lv("i", "int")])],
      inv=lambda c: (lambda j, x, y, i: [("bounds so far", forall(j, Implies(And(0 <= j, j <= i), And(0 <= x[j], x[j] <= 1)), [x[j]])), ("scaled so far", forall(j, Implies(And(0 <= j, j < c.a(1)), x[j] == If(j < c.k, y[j] * (1 - y[i]), y[j])), [x[j]]))])(bound("j"), rd_x(c), c.at.D(c.a(0)), c.lv("i", "int")))])
C["setRandomDistribution"].local_names = {"i"}
contract("setRandomDoubleVector", file=FR, requires=lambda c: [("array", And(c.a(0) > 0, c.a(1) >= 0, arr_ok(c.pre, c.a(0), c.a(1)), c.a(2) <= c.a(3)))], modifies=lambda c: {"M:real": [c.a(0)], **RM(c)},
  ensures=lambda c: [("every component within the bounds", (lambda j: forall(j, Implies(And(0 <= j, j < c.a(1)), And(c.a(2) <= c.post.D(c.a(0))[j], c.post.D(c.a(0))[j] <= c.a(3))), [c.post.D(c.a(0))[j]]))(bound("j")))],
  loops=[Loop(bound=lambda c: c.a(1), mods=lambda c: {"M:real": [c.a(0)], "M:int": [SREF]}, inv=lambda c: [("components so far", (lambda j: forall(j, Implies(And(0 <= j, j < c.k), And(c.a(2) <= c.now.D(c.a(0))[j], c.now.D(c.a(0))[j] <= c.a(3))), [c.now.D(c.a(0))[j]]))(bound("j")))])])

# ---------------------------------------------------------------- simulated steps (P18)
gin = RecFun("gin", [AR, AI, I, R, AR, AI, AI, AI, I], R, lambda *a: rv(0), lambda pv, pc, s, w, ov, oc, os, ol, z, i, p: p + w * pv[s + i] * ent_raw(ov, oc, os[pc[s + i]], ol[pc[s + i]], z))
GS = [AR, AR, AI, AI, AI, AR, AI, AI, AI]
# probability of observation z under the belief, over the first n states
gobs = RecFun("gobs", GS + [I], R, lambda *a: rv(0), lambda b, pv, pc, ps, pl, ov, oc, os, ol, z, i, p: p + gin(pv, pc, ps[i], b[i], ov, oc, os, ol, z, pl[i]))
# cumulative probability of the first n observations
gcum = RecFun("gcum", GS + [I], R, lambda *a: rv(0), lambda b, pv, pc, ps, pl, ov, oc, os, ol, m, z, p: p + gobs(b, pv, pc, ps, pl, ov, oc, os, ol, z, m))
def gargs(v, b, a): return (v.D(b), *parr(v, a), *oarr(v, a))
def pobs(v, b, a, z): return gobs(*gargs(v, b, a), z, nS(v))
def cum(v, b, a, n): return gcum(*gargs(v, b, a), nS(v), n)
def go_pre(c, a, b):
    z = bound("z")
    return sizes(c) + pr_ok(c.pre) + bel_ok(c.pre, b) + [("action in range", And(0 <= a, a < nA(c.pre))), ("some observation has positive probability", z3.Exists([z], And(0 <= z, z < nZ(c.pre), pobs(c.pre, b, a, z) > 0)))]
def go_ens(c, a, b, r):
    z = bound("z"); d = draw(sd(c.pre)); v = c.pre
    return [("an observation", And(0 <= r, r < nZ(v))), ("of positive probability under the belief and action", pobs(v, b, a, r) > 0),
      ("with a given seed: the first one whose cumulative probability exceeds the number drawn, if any", Implies(seeded(v), And(forall(z, Implies(And(0 <= z, z < r), Or(cum(v, b, a, z + 1) <= d, cum(v, b, a, nZ(v)) <= d)), [gobs(*gargs(v, b, a), z, nS(v))]), Or(d < cum(v, b, a, r + 1), cum(v, b, a, nZ(v)) <= d))))] + r_ens(c, iv(1))
def gl(c): return c.lv("obs", "int"), c.lv("state", "int")
contract("getBeliefObservation", file=FS, requires=lambda c: go_pre(c, c.a(0), c.a(1)), modifies=RM, ensures=lambda c: go_ens(c, c.a(0), c.a(1), c.r),
  loops=[Loop(bound=lambda c: nZ(c.pre), inv=lambda c: (lambda z, v, a, b: [("cumulative probability", c.lv("prob_sum", "real") == cum(v, b, a, c.k)), ("not reached yet", And(c.lv("prob_sum", "real") <= c.lv("rand", "real"), forall(z, Implies(And(0 <= z, z < c.k), cum(v, b, a, z + 1) <= c.lv("rand", "real")), [gobs(*gargs(v, b, a), z, nS(v))]))),
        ("fallback has positive probability once one was seen", Or(forall(z, Implies(And(0 <= z, z < c.k), pobs(v, b, a, z) <= 0), [gobs(*gargs(v, b, a), z, nS(v))]), (lambda d: And(0 <= d, d < c.k, pobs(v, b, a, d) > 0))(c.lv("desperate_obs", "int"))))])(bound("z"), c.pre, c.a(0), c.a(1))),
    Loop(bound=lambda c: nS(c.pre), inv=lambda c: [("states so far", c.lv("sum", "real") == gobs(*gargs(c.pre, c.a(1), c.a(0)), gl(c)[0], c.k))]),
    Loop(bound=lambda c: ln_(c.pre, Pm(c.pre, c.a(0)), gl(c)[1]), inv=lambda c: (lambda o, s, P_: [("successors so far", c.lv("sum", "real") == gobs(*gargs(c.pre, c.a(1), c.a(0)), o, s) + gin(P_[0], P_[1], P_[2][s], c.pre.D(c.a(1))[s], *oarr(c.pre, c.a(0)), o, c.k))])(*gl(c), parr(c.pre, c.a(0))))])
C["getBeliefObservation"].local_names = {"obs", "state", "sum", "prob_sum", "rand", "desperate_obs"}
def ub_a(c): return c.a(0), c.a(1), c.a(2)
contract("updateBeliefState", file=FS, requires=lambda c: go_pre(c, c.a(1), c.a(0)) + bel_ok(c.pre, c.a(2)) + [("separate arrays", c.a(0) != c.a(2))], modifies=lambda c: {"M:real": [c.a(2)], **RM(c)},
  ensures=lambda c: go_ens(c, c.a(1), c.a(0), c.r) + (lambda v, b, a, h, z, x: [("the next belief is the Bayes update for that observation", Implies(And(v.g("gProblemType") == POMDPK, Not(absr(total(v, b, a, z, nS(v))) < TB_EPS)), forall(x, Implies(And(0 <= x, x < nS(v)), c.post.D(h)[x] == DIV(joint(v, b, a, z, x), total(v, b, a, z, nS(v)))), [c.post.D(h)[x]])))])(c.pre, c.a(0), c.a(1), c.a(2), c.r, bound("x")))
