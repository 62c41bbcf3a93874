"""Shared specification vocabulary."""
import z3
from vc.smt import *
from vc import smt
from vc.engine import Contract, Loop, GHOSTS, Ptr, EXTERN, EXTERN_WRITES
from vc import engine as E

C = {}                      # name -> Contract : every contract, by function name
def contract(name, **kw):
    c = Contract(name, **kw)
    assert name not in C, name
    C[name] = c
    return c

# ------------------------------------------------------------ ghosts
GHOSTS["seq"] = AAI         # list header -> (index -> node)
GHOSTS["pos"] = AI          # node -> its index
GHOSTS["own"] = AI          # node -> list header owning it (0: none)
GHOSTS["bown"] = AI         # block -> node owning it (0: none)
E.OWNER_GHOST = ("own",)
E.FRESH_GHOST = ("own", "bown")     # 0 at every reference that is not yet allocated

_TOUCH_I, _TOUCH_R = z3.Function("touch_i", I, B), z3.Function("touch_r", R, B)
def touch(*ts):
    """names terms for the solver's instantiation; the predicates are true of everything"""
    return And(*[(_TOUCH_I if z3.is_int(t) else _TOUCH_R)(t) for t in ts])
def absr(x): return If(x >= 0, x, -x)
def eqe(x, y, e): return absr(x - y) < e                # macro Equal
def gte(x, y, e): return y + e <= x                     # macro GreaterThan

# ------------------------------------------------------------ globals
def nS(v): return v.g("gNumStates")
def nA(v): return v.g("gNumActions")
def nZ(v): return v.g("gNumObservations")
def sizes(c):
    return [("problem sizes positive", And(nS(c.pre) >= 1, nA(c.pre) >= 1, nZ(c.pre) >= 1))]

def arr_ok(v, r, n, kind="real"):
    """r is a live array of at least n elements"""
    return And(v.valid(r), LEN(r) >= n, KIND(r) == E.kind_of(kind))
def is_node(v, p): return And(p > 0, v.valid(p), KIND(p) == E.kind_of(AL))

# ------------------------------------------------------------ recursive spec functions
# dot(a, b, n) = sum_{i<n} a[i]*b[i]
dot = RecFun("dot", [AR, AR], R, lambda a, b: rv(0), lambda a, b, i, p: p + a[i] * b[i])
suma = RecFun("suma", [AR], R, lambda a: rv(0), lambda a, i, p: p + a[i])
def lexbetter(a, b, n, e):
    """at the first component where a and b differ by at least e, a is larger"""
    f, k = bound("f"), bound("k")
    return z3.Exists([f], And(0 <= f, f < n, a[f] >= b[f] + e,
                     forall(k, Implies(And(0 <= k, k < f), eqe(a[k], b[k], e)), [a[k]])), patterns=[a[f]])

# ------------------------------------------------------------ vector sets (AlphaList)
AL = "AlphaListType"
def lenL(v, L): return v.f(AL + ".length", L)
def seqL(v, L): return Sel(v.gh("seq"), L)
def nodeL(v, L, k): return Sel(v.gh("seq"), L, k)
def nxt(v, p): return v.f(AL + ".next", p)
def alphaN(v, p): return v.f(AL + ".alpha", p)
def vecN(v, p): return v.D(alphaN(v, p))
def headL(v, L): return v.f(AL + ".head", L)
def tailL(v, L): return v.f(AL + ".tail", L)
def own(v, p): return Sel(v.gh("own"), p)
def pos(v, p): return Sel(v.gh("pos"), p)

def bown(v, p): return Sel(v.gh("bown"), p)
def obsS(v, p): return v.f(AL + ".obs_source", p)
def witN(v, p): return v.f(AL + ".witness", p)
def node_ok(v, p):
    """the memory blocks of a vector node: live, owned by it alone"""
    A, O, W = alphaN(v, p), obsS(v, p), witN(v, p)
    return And(is_node(v, p), bown(v, p) == 0, A > 0, arr_ok(v, A, nS(v)), bown(v, A) == p,
               O >= 0, Implies(O != 0, And(arr_ok(v, O, nZ(v), 'ptr'), bown(v, O) == p, O != A)),
               W >= 0, Implies(W != 0, And(arr_ok(v, W, nS(v)), bown(v, W) == p, W != A, W != O)))
def wf(v, L):
    """L is a well formed list whose nodes are seq[L][0..length-1]"""
    n = lenL(v, L); k = bound("k")
    nd = lambda i: nodeL(v, L, i)
    body = And(nd(k) != L, own(v, nd(k)) == L, pos(v, nd(k)) == k, node_ok(v, nd(k)))
    return [("list header live", And(is_node(v, L), own(v, L) == 0, bown(v, L) == 0)),
            ("list length non-negative", n >= 0),
            ("list nodes live, distinct, owned", forall(k, Implies(And(0 <= k, k < n), body), [nd(k)])),
            ("list linked in sequence order", forall(k, Implies(And(0 <= k, k < n), nxt(v, nd(k)) == If(k + 1 < n, nd(k + 1), iv(0))), [nxt(v, nd(k))])),
            ("list head", headL(v, L) == If(n > 0, nd(iv(0)), iv(0))),
            ("list tail", Implies(n > 0, tailL(v, L) == nd(n - 1)))]
def conj(fs): return And(*[f for _, f in fs])
def walkL(v, L):
    """cursor formula for a walk over list L: k-th node or null past the end"""
    return lambda k, now: If(And(0 <= k, k < lenL(v, L)), nodeL(v, L, k), iv(0))

def walks(L, when="now"):
    """cursor candidates for a walk over list L (offsets -1, 0, +1)"""
    def mk(o):
        return lambda k, v: If(And(0 <= k + o, k + o < lenL(v, L)), nodeL(v, L, k + o), iv(0))
    return [mk(0), mk(1), mk(-1)]

def defmap(st, sort, f, name="def"):
    """a fresh map defined pointwise (conservative: such a map always exists)"""
    A = fresh(name, sort); r = bound("r")
    st.assume(forall(r, A[r] == f(r), [A[r]]))
    return A
def inlist(v, L, p):
    return And(own(v, p) == L, 0 <= pos(v, p), pos(v, p) < lenL(v, L), nodeL(v, L, pos(v, p)) == p)
def notin(v, L, p):
    k = bound("k")
    return forall(k, Implies(And(0 <= k, k < lenL(v, L)), nodeL(v, L, k) != p), [nodeL(v, L, k)])

def fA(f): return "F:" + AL + "." + f
LISTHDR = [fA("head"), fA("tail"), fA("length")]

def lift(vs, guard, fs):
    """the labelled formulas fs for all vs satisfying guard (quantifiers merged; patterns kept)"""
    out = []
    for lab, f in fs:
        if z3.is_quantifier(f) and f.is_forall():
            ks = [z3.Const(f"{f.var_name(i)}~{bound().decl().name()}", f.var_sort(i)) for i in range(f.num_vars())]
            sub = lambda e: z3.substitute_vars(e, *reversed(ks))
            pats = []
            for i in range(f.num_patterns()):
                p = sub(f.pattern(i)) if False else [z3.substitute_vars(t, *reversed(ks)) for t in f.pattern(i).children()]
                pats.append(z3.MultiPattern(*p) if len(p) > 1 else p[0])
            out.append((lab, z3.ForAll(list(vs) + ks, Implies(guard, sub(f.body())), patterns=pats)))
        else: out.append((lab, f, "ground"))
    g = [(l, f) for l, f, *x in out if x]
    return g, [(x[0], x[1]) for x in out if len(x) == 2]
def lifted(vs, guard, fs, pat):
    """as lift; formulas without quantifier get the pattern pat"""
    g, q = lift(vs, guard, fs)
    return [(l, forall(list(vs), Implies(guard, f), [pat])) for l, f in g] + q
