"""Term helpers, recursive spec functions, and the discharge back end."""
import z3, time, subprocess, os, tempfile, hashlib, shutil
I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()
AI = z3.ArraySort(I, I); AR = z3.ArraySort(I, R); AB = z3.ArraySort(I, B)
AAI = z3.ArraySort(I, AI); AAR = z3.ArraySort(I, AR)
iv = z3.IntVal
def rv(x): return z3.RealVal(x)
And, Or, Not, Implies, If, ForAll, Exists = z3.And, z3.Or, z3.Not, z3.Implies, z3.If, z3.ForAll, z3.Exists
TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)
LEN = z3.Function("LEN", I, I)                 # element count of an array block
KIND = z3.Function("KIND", I, I)               # element type of a block
INF = z3.Const("HUGE", R)                      # HUGE_VAL
ELT = z3.Function("ELT", I, I, I)              # address of element i of an array of structs

ELTB, ELTI = z3.Function("ELTB", I, I), z3.Function("ELTI", I, I)      # array and index of an element address
_eb, _eo = z3.Const("eb?", I), z3.Const("eo?", I)
# elements of arrays of structs: element 0 is the array's own address, the others have addresses of their own
ELT_AX = z3.ForAll([_eb, _eo], z3.And(ELTB(ELT(_eb, _eo)) == _eb, ELTI(ELT(_eb, _eo)) == _eo, z3.If(_eo == 0, ELT(_eb, _eo) == _eb, ELT(_eb, _eo) < -1000000)), patterns=[ELT(_eb, _eo)])
_elt_cache = {}
def uses_elt(e):
    k = e.get_id()
    if k in _elt_cache and _elt_cache[k][0].eq(e): return _elt_cache[k][1]
    seen, stack, hit = set(), [e], False
    while stack and not hit:
        x = stack.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): stack.append(x.body()); continue
        if z3.is_app(x):
            hit = x.decl().name() in ("ELT", "ELTB"); stack.extend(x.children())
    _elt_cache[k] = (e, hit); return hit

_n = [0]
def fresh(name, sort):
    _n[0] += 1
    return z3.Const(f"{name}!{_n[0]}", sort)
def reset_fresh(): _n[0] = 0

def Sel(a, *idx):
    for i in idx: a = z3.Select(a, i)
    return a
def forall(vs, body, pats=None):
    if not isinstance(vs, (list, tuple)): vs = [vs]
    pats = [p for p in (pats or []) if pat_ok(p)]
    if pats: return z3.ForAll(list(vs), body, patterns=list(pats))
    return z3.ForAll(list(vs), body)
def pat_ok(p):
    st = [p]; seen = set()
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_bool(x) or z3.is_quantifier(x): return False
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_ITE: return False
            st.extend(x.children())
    return True
_q = [0]
def bound(prefix="k", sort=I):
    _q[0] += 1
    return z3.Const(f"{prefix}?{_q[0]}", sort)

# ---- recursive spec functions: defined by a one-step unfolding over their last Int argument
class RecFun:
    """f(args..., n) = base if n<=0 else step(args..., n-1, f(args..., n-1))."""
    table = {}
    def __init__(self, name, argsorts, ret, base, step, lower=0):
        self.name, self.base, self.step, self.lower = name, base, step, lower
        self.f = z3.Function(name, *argsorts, I, ret)
        self.argsorts = argsorts
        RecFun.table[name] = self
    def __call__(self, *a): return self.f(*a)
    def unfold(self, app):
        ch = app.children(); n = ch[-1]; a = ch[:-1]
        prev = z3.simplify(n - 1)
        return [Implies(n <= self.lower, app == self.base(*a)),
                Implies(n > self.lower, app == self.step(*a, prev, self.f(*a, prev)))]
    def ext(self, a1, a2, n):
        """congruence: equal array contents below n give equal values (proved once per function,
        see engine.prove_recfun_lemmas)."""
        w = fresh("w_" + self.name, I)
        diff = [x[w] != y[w] if z3.is_array(x) else x != y for x, y in zip(a1, a2)]
        return Or(And(0 <= w, w < n, Or(*diff)), Or(*[x != y for x, y in zip(a1, a2) if not z3.is_array(x)] + [FALSE]),
                  self.f(*a1, n) == self.f(*a2, n))

class Opaque:
    """a defined spec function whose definition is only given where a contract asks for it (reveal)"""
    def __init__(self, name, sorts, ret, body):
        self.f = z3.Function(name, *sorts, ret); self.sorts, self.body = sorts, body
    def __call__(self, *a): return self.f(*a)
    def reveal(self):
        vs = [bound("d", s) for s in self.sorts]
        return z3.ForAll(vs, self.f(*vs) == self.body(*vs), patterns=[self.f(*vs)])

DIV = Opaque("DIV", [R, R], R, lambda x, y: x / y)      # real quotient; divisor is proved non-zero where the code divides

_apps_cache = {}
def rec_apps(e):
    """ground applications of recursive spec functions in e (not under binders)"""
    k = e.get_id()
    if k in _apps_cache and _apps_cache[k][0].eq(e): return _apps_cache[k][1]
    out, seen, stack = {}, set(), [e]
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen: continue
        seen.add(i)
        if z3.is_quantifier(x): continue
        if z3.is_app(x):
            d = x.decl()
            if d.kind() == z3.Z3_OP_UNINTERPRETED and d.name() in RecFun.table and d.arity() > 0:
                out[i] = x
            stack.extend(x.children())
    r = list(out.values())
    _apps_cache[k] = (e, r)
    return r

def unfoldings(fs, rounds=2):
    done, out, cur = set(), [], list(fs)
    for _ in range(rounds):
        new = []
        for f in cur:
            for a in rec_apps(f):
                if a.get_id() in done: continue
                done.add(a.get_id())
                new += RecFun.table[a.decl().name()].unfold(a)
        if not new: break
        out += new; cur = new
    return out

class Stats:
    def __init__(self): self.time, self.calls, self.by = 0.0, 0, {}

STATS = Stats()
USED = {"z3": 0, "cvc5": 0}

def _z3try(fs, ms, mbqi, seed=7, relevancy=2, ctx=None):
    s = z3.SimpleSolver(ctx=ctx)
    s.set("timeout", int(ms))
    s.set("auto_config", False)
    s.set("mbqi", mbqi)
    s.set("random_seed", seed)
    if relevancy != 2: s.set("relevancy", relevancy)
    s.add(*fs)
    return s.check(), s

_nest = {}
def nested(f):
    """a quantifier below the top of the formula (under the outer universal and its guard)"""
    k = f.get_id()
    if k in _nest and _nest[k][0].eq(f): return _nest[k][1]
    b = f.body() if z3.is_quantifier(f) and f.is_forall() else f
    st, seen, r = [b], set(), False
    while st and not r:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): r = True
        elif z3.is_app(x): st += x.children()
    _nest[k] = (f, r); return r

def last_splits(g, sks):
    """tautologies that let the solver distinguish the last index below a bound: for x < e, the cases x = e-1, x < e-1, x > e-1"""
    ids = {x.get_id() for x in sks if x.sort() == I}; out = []; st = [g]
    while st:
        f = st.pop()
        if z3.is_and(f): st += f.children(); continue
        if z3.is_lt(f) or z3.is_gt(f):
            a, b = f.children()
            if z3.is_gt(f): a, b = b, a
            if a.get_id() in ids:
                t = z3.simplify(b - 1); out.append(Or(a == t, a < t, a > t))
    return out

def prove(hyps, goal, ms=4000, deep=True, seed=7):
    """-> ('proved'|'refuted'|'unknown', backend, seconds, info)"""
    t0 = time.time()
    neg = z3.simplify(Not(goal))
    if z3.is_false(neg): return "proved", "simplify", 0.0, ""
    hyps = list(hyps)
    sks = []
    while True:     # name the universally quantified variables of the goal, so that spec functions unfold at them
        if z3.is_quantifier(goal) and goal.is_forall():
            sks = [fresh("sk", goal.var_sort(i)) for i in range(goal.num_vars())]
            goal = z3.substitute_vars(goal.body(), *reversed(sks))
        elif z3.is_implies(goal):
            hyps.append(goal.arg(0)); hyps += last_splits(goal.arg(0), sks); goal = goal.arg(1)
        else: break
    base = hyps + [goal.arg(0) if z3.is_not(goal) else Not(goal)]
    fs = base + unfoldings(base) + ([ELT_AX] if any(uses_elt(f) for f in base) else [])
    STATS.calls += 1
    try:
        r, s = _z3try(fs, ms, False, seed)
    except z3.Z3Exception as e:
        r, s = z3.unknown, None
    if r == z3.unsat:
        STATS.time += time.time() - t0
        return "proved", "z3", time.time() - t0, ""
    try: r, s = _z3try(fs, ms, False, seed, 0)
    except z3.Z3Exception: r = z3.unknown
    if r == z3.unsat:
        STATS.time += time.time() - t0
        return "proved", "z3", time.time() - t0, ""
    fl = [f for f in fs[:len(hyps)] if not nested(f)] + fs[len(hyps):]     # without the hypotheses that have quantifiers inside (fewer cases to split)
    if len(fl) < len(fs):
        try: r, s1 = _z3try(fl, ms, False, seed)
        except z3.Z3Exception: r = z3.unknown
        if r == z3.unsat:
            STATS.time += time.time() - t0
            return "proved", "z3", time.time() - t0, ""
    if z3.is_and(goal) and goal.num_args() > 1:     # part by part
        for g in goal.children():
            r = prove(hyps, g, ms, False, seed)
            if r[0] != "proved": break
        else: return "proved", "z3", time.time() - t0, ""
    info = ""
    if deep:
        # 2: model-based instantiation (can also refute), 3: cvc5
        try:
            r, s = _z3try(fs, ms * 2, True, seed)
        except z3.Z3Exception: r = z3.unknown
        if r == z3.unsat:
            STATS.time += time.time() - t0
            return "proved", "z3-mbqi", time.time() - t0, ""
        if r == z3.sat:
            try: info = str(s.model())[:4000]
            except Exception: info = ""
            STATS.time += time.time() - t0
            return "refuted", "z3-mbqi", time.time() - t0, info
        c = cvc5(fs, ms * 2)
        if c == "unsat":
            STATS.time += time.time() - t0
            return "proved", "cvc5", time.time() - t0, ""
        info = "z3: unknown; cvc5: " + str(c)
    STATS.time += time.time() - t0
    return "unknown", "z3", time.time() - t0, info

def cvc5(fs, ms):
    exe = shutil.which("cvc5")
    if not exe: return "absent"
    s = z3.Solver(); s.add(*fs)
    txt = "(set-logic ALL)\n" + s.to_smt2()
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
        f.write(txt); fn = f.name
    try:
        p = subprocess.run([exe, f"--tlimit={int(ms)}", "--full-saturate-quant", fn], capture_output=True, timeout=ms / 1000 + 5)
        out = p.stdout.decode().strip().split("\n")[0]
        return out or p.stderr.decode()[:200]
    except subprocess.TimeoutExpired: return "timeout"
    finally: os.unlink(fn)

# ---- lemmas about spec functions, proved by induction over their last variable (an Int, from 0 up)
class Lemma:
    """forall vars, n >= 0: stmt(*vars, n).  Obligations: stmt(.., 0) and stmt(.., n) -> stmt(.., n+1).
    `extra(*vars, n)` gives instances of other (proved) lemmas used in the step."""
    table = {}
    used = set()
    def __init__(self, name, sorts, stmt, pats=None, base=0, extra=None, induct=True):
        self.name, self.sorts, self.stmt, self.pats, self.base, self.extra, self.induct = name, sorts, stmt, pats, base, extra, induct
        Lemma.table[name] = self
    def __call__(self, *a):
        Lemma.used.add(self.name)
        return Implies(a[-1] >= self.base, self.stmt(*a)) if self.induct else self.stmt(*a)
    def all(self):
        vs = [bound("l", s) for s in self.sorts] + ([bound("n")] if self.induct else [])
        return forall(vs, self(*vs), self.pats(*vs) if self.pats else None)
    def obligations(self):
        vs = [fresh("v", s) for s in self.sorts]
        if not self.induct:
            return [("statement", self.extra(*vs) if self.extra else [], self.stmt(*vs))]
        n = fresh("n", I)
        ex = self.extra(*vs, n) if self.extra else []
        return [("base", self.extra(*vs, iv(self.base)) if self.extra else [], self.stmt(*vs, iv(self.base))), ("step", [n >= self.base, self.stmt(*vs, n)] + ex, self.stmt(*vs, n + 1))]
