"""Deductive verifier for the C subset used by pomdp-solve.

One function at a time: the body (clang AST of the current /repo source) is executed
symbolically from an arbitrary state satisfying the precondition; calls are replaced by
contracts (functions without a contract but with source are inlined); loops are cut by
invariants; every obligation is sent to an SMT solver.
See DESIGN.md for the memory model and the list of what is treated mathematically.
"""
import z3, time, os
from fractions import Fraction
from . import front
from .front import T, ExtractionError, Program
from .smt import *
from . import smt

class Ptr:
    __slots__ = ("b", "o")
    def __init__(s, b, o=None):
        s.b = iv(b) if isinstance(b, int) else b
        s.o = iv(0) if o is None else (iv(o) if isinstance(o, int) else o)
    def __repr__(s): return f"Ptr({s.b},{s.o})"
NULLP = Ptr(0)
class LRef:
    """pointer to a scalar location that is not an array cell"""
    __slots__ = ("lv",)
    def __init__(s, lv): s.lv = lv
class SizeV:
    """value of sizeof-expressions, kept symbolic: count * sizeof(type)"""
    __slots__ = ("n", "t")
    def __init__(s, n, t): s.n, s.t = n, t
SIZEOF = {"real": 8, "ptr": 8, "char": 1}
class StV:
    """struct rvalue/lvalue location"""
    __slots__ = ("ref", "name")
    def __init__(s, ref, name): s.ref, s.name = ref, name
class FnV:
    __slots__ = ("name",)
    def __init__(s, n): s.name = n

NORMAL, BRK, CONT, RET, ABORT = "normal", "break", "continue", "return", "abort"

def sort_of(t):
    if t.k == "real": return R
    if t.k in ("int", "char", "ptr", "arr", "func"): return I
    raise ExtractionError(f"no sort for {t}")
def mem_name(t):
    if t.k == "real": return "M:real"
    if t.k == "int": return "M:int"
    if t.k == "char": return "M:char"
    if t.k == "ptr": return "M:ptr"
    raise ExtractionError(f"array of {t} unsupported")
def map_sort(name):
    if name.startswith("M:"): return AAR if name == "M:real" else AAI
    raise KeyError(name)

def isz(v, n=0): return z3.is_int_value(v) and v.as_long() == n

class State:
    __slots__ = ("vars", "heap", "pc", "ex", "boxes")
    def __init__(s, ex): s.vars, s.heap, s.pc, s.ex, s.boxes = {}, {}, [], ex, {}
    def copy(s):
        n = State(s.ex); n.vars = dict(s.vars); n.heap = dict(s.heap); n.pc = list(s.pc); n.boxes = dict(s.boxes)
        return n
    def H(s, name):
        if name not in s.heap: s.heap[name] = s.ex.init_map(name)
        return s.heap[name]
    def assume(s, f):
        if isinstance(f, bool): f = z3.BoolVal(f)
        if z3.is_true(f): return
        s.pc.append(f)
    @property
    def clk(s): return s.H("clk")
    def valid(s, r): return And(r != 0, r < s.H("clk"), Not(Sel(s.H("freed"), r)))

class View:
    """read access to a state for specifications"""
    def __init__(s, st): s.st = st
    def m(s, name): return s.st.H(name)
    def f(s, fld, ref): return Sel(s.st.H("F:" + fld), ref)
    def D(s, ref): return Sel(s.st.H("M:real"), ref)
    def Ia(s, ref): return Sel(s.st.H("M:int"), ref)
    def Ch(s, ref): return Sel(s.st.H("M:char"), ref)
    def P(s, ref): return Sel(s.st.H("M:ptr"), ref)
    def g(s, name):
        v = s.st.H("G:" + name); return v
    def gh(s, name): return s.st.H("ghost:" + name)
    def valid(s, r): return s.st.valid(r)
    @property
    def clk(s): return s.st.clk

EMB_OWNER, EMB_FIELD = z3.Function("emb_owner", I, I), z3.Function("emb_field", I, I)
STRING_HOOK = [None]      # (state, ref, text): what is known of a string literal
_emb = {}
def emb_id(n): return iv(_emb.setdefault(n, len(_emb)))
class Loop:
    """loop specification; attached to loops in the order they are reached"""
    def __init__(self, inv=None, walk=None, bound=None, mods=None, where=None, unfold=None, hints=None, keep=None, nocand=False, variant=None, ghost=None, gw=(), only=False, ginit=None):
        self.ginit = ginit          # ginit(c) : ghost assignments just before the loop (proof-only)
        self.gw = tuple(gw); self.only = only      # only: mods replace the function's frame for the maps they name
        self.inv, self.walk, self.bound, self.mods, self.hints = inv, walk, bound, mods, hints
        self.nocand = nocand
        self.variant = variant
        self.ghost = ghost          # ghost(c) : dict ghostmap -> term; ghost assignments at the back edge (proof-only)

class Contract:
    def __init__(self, name, file=None, requires=None, ensures=None, modifies=None, loops=(), params=None,
                 ghost_exit=None, may_abort=None, ghost_writes=(), trusted=None, frees=None, hints=None, ehints=None,
                 note="", inline=(), opaque=(), timeout=None, fresh_result=False, skip_frame=(), entry=None, writes=None, abort_ok=False, pure=False, merge=True, interior=(), chain=False):
        self.chain = chain              # postconditions are proved in order, each available to the next
        self.interior = set(interior)   # pointer arguments that may point into the middle of an array
        self.name, self.file = name, file
        self.requires, self.ensures, self.modifies = requires or (lambda c: []), ensures or (lambda c: []), modifies or (lambda c: {})
        self.loops = list(loops)
        self.params = params
        self.ghost_exit, self.ghost_writes = ghost_exit, tuple(ghost_writes)
        self.abort_ok = abort_ok
        self.trusted = trusted
        self.hints, self.ehints = hints, ehints
        self.note = note
        self.inline = set(inline)       # callees inlined although they have a contract
        self.timeout = timeout
        self.skip_frame = set(skip_frame)
        self.entry = entry
        self.writes = writes            # explicit write set for trusted/external functions
        self.pure = pure
        self.merge = merge

class Ctx:
    """what specifications see"""
    def __init__(s, ex, pre, now, args, res=None, **kw):
        s.ex, s.pre, s.now, s.args, s.res = ex, View(pre), View(now), args, res
        s.post = s.now
        for k, v in kw.items(): setattr(s, k, v)
    def a(s, i):
        """i-th argument at entry: plain term (pointer base for pointers)"""
        v = s.args[i]
        return v.b if isinstance(v, Ptr) else v
    def arg(s, i): return s.args[i]
    @property
    def r(s): return s.res.b if isinstance(s.res, Ptr) else s.res
    # locals by name (loops only)
    def lv(s, name, like=None):
        return s.ex.local_by_name(s, name, like)

class Ob:
    __slots__ = ("fn", "label", "line", "hyps", "goal", "kind", "res", "be", "t", "info")
    def __init__(s, fn, label, line, hyps, goal, kind):
        s.fn, s.label, s.line, s.hyps, s.goal, s.kind = fn, label, line, hyps, goal, kind
        s.res = s.be = None; s.t = 0; s.info = ""
    def name(s): return f"{s.fn}: {s.label} (line {s.line})"

PURE_CALLS = {"fabs", "__builtin_fabs", "__builtin_huge_val", "exp", "log", "pow", "sqrt", "floor", "ceil", "strcmp", "__builtin_inf", "abs", "__builtin_inff"}
IGNORED = {"fprintf", "printf", "fputs", "fputc", "putc", "puts", "putchar", "fflush", "perror", "__builtin___fprintf_chk", "vfprintf", "fwrite"}
NORETURN = {"exit", "abort", "__assert_fail", "__assert_rtn", "_exit"}
STRICT_EXP = z3.Function("exp_", R, R)
LOGF = z3.Function("log_", R, R)
POWF = z3.Function("pow_", R, R, R)
SQRTF = z3.Function("sqrt_", R, R)
STRCMP = z3.Function("strcmp_", I, I, I)

class Exec:
    def __init__(self, program, contracts, fname, case=None):
        self.prog, self.contracts = program, contracts
        self.fname = fname
        self.contract = contracts[fname]
        f = program.find(fname)
        if not f: raise ExtractionError(f"function {fname} not found in the extracted sources")
        self.tu, self.fn = f
        self.obs = []
        self.seen = set()
        self.init = {}
        self.loop_ids = {}
        self.box_n = 0
        self.inline_stack = []
        self.call_chain = ()
        self.assumptions = set()
        self.cut = False
        self.lines = set()
        self.trace_choice = {}
        self.reached_exit = 0
        self.strings = {}
        self.wcache = {}
        self.inlined = set()
        self.used = set()

    # --------------------------------------------------------- maps
    def init_map(self, name):
        if name not in self.init:
            self.init[name] = z3.Const(name + "!0", self.map_sort(name))
        return self.init[name]
    def map_sort(self, name):
        if name == "clk": return I
        if name == "freed": return AB
        if name.startswith("M:"): return AAR if name == "M:real" else AAI
        if name.startswith("F:"):
            st, fl = name[2:].split(".", 1)
            t = self.any_field_type(st, fl)
            return z3.ArraySort(I, sort_of(t))
        if name.startswith("G:"):
            t = self.global_type(name[2:])
            return sort_of(t)
        if name.startswith("ghost:"):
            return GHOSTS[name[6:]]
        raise ExtractionError("map " + name)
    def any_field_type(self, st, fl):
        for t in [self.tu] + self.prog.tus:
            if st in t.records and fl in t.records[st]: return t.field_type(st, fl)
        raise ExtractionError(f"no field {st}.{fl}")
    def global_type(self, name):
        for t in [self.tu] + self.prog.tus:
            if name in t.globals: return t.nty(t.globals[name])
        raise ExtractionError(f"no global {name}")

    # --------------------------------------------------------- obligations
    def oblige(self, st, label, goal, line, kind="post", deep=True):
        if isinstance(goal, bool): goal = z3.BoolVal(goal)
        for g in split_goal(goal):
            gs = z3.simplify(g)
            if z3.is_true(gs):
                self.obs.append(Ob(self.fname, label, line, [], TRUE, kind)); continue
            key = (label, line, g.get_id(), tuple(f.get_id() for f in st.pc[-40:]), len(st.pc))
            if key in self.seen: continue
            self.seen.add(key)
            self.obs.append(Ob(self.fname, label, line, list(st.pc), g, kind))

    def feasible(self, st, ms=150):
        if not st.pc: return True
        if z3.is_false(z3.simplify(st.pc[-1])): return False
        s = z3.SimpleSolver(); s.set("timeout", ms); s.set("auto_config", False); s.set("mbqi", False)
        s.add(*st.pc)
        s.add(*unfoldings(st.pc[-3:], 1))
        return s.check() != z3.unsat

    # --------------------------------------------------------- values
    def symbol(self, name, t, st=None):
        if t.k == "real": return fresh(name, R)
        if t.k in ("int", "char"): return fresh(name, I)
        if t.k == "ptr": return Ptr(fresh(name, I))
        if t.k == "struct":
            return StV(self.newbox(), t.a)
        raise ExtractionError(f"symbol of type {t}")
    def wrap(self, term, t):
        return Ptr(term) if t.k in ("ptr", "func") else term
    def unwrap(self, v, what=""):
        """term stored in a map"""
        if isinstance(v, Ptr):
            if not isz(z3.simplify(v.o)): raise ExtractionError("interior pointer stored in memory " + what)
            return v.b
        if isinstance(v, SizeV): return self.num(v)
        if isinstance(v, FnV): return iv(hash(v.name) % 1000003 + 10**9)
        if isinstance(v, LRef): raise ExtractionError("address of a scalar stored in memory " + what)
        if z3.is_bool(v): return b2i(v)
        return v
    def num(self, v):
        if isinstance(v, SizeV):
            if v.t.k == "int": sz = 4 if v.t.a in ("int", "unsigned int", "unsigned") else (2 if "short" in (v.t.a or "") else 8)
            elif v.t.k == "struct": sz = 64
            else: sz = SIZEOF.get(v.t.k, 8)
            return v.n * sz
        if z3.is_bool(v): return b2i(v)
        if isinstance(v, Ptr): return v.b
        return v
    def truth(self, v):
        if isinstance(v, Ptr): return v.b != 0
        if isinstance(v, LRef): return TRUE
        if isinstance(v, FnV): return TRUE
        if z3.is_bool(v): return v
        if isinstance(v, SizeV): return self.num(v) != 0
        if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_ITE:
            c = v.children()
            if isz(c[1], 1) and isz(c[2], 0): return c[0]
            if isz(c[1], 0) and isz(c[2], 1): return Not(c[0])
        return v != 0

    def convert(self, v, t, line=0):
        if t.k == "real":
            v = self.num(v)
            return z3.ToReal(v) if z3.is_int(v) else v
        if t.k in ("int", "char"):
            v = v if isinstance(v, SizeV) else self.num(v)
            if isinstance(v, SizeV): return v
            if z3.is_real(v):
                if z3.is_rational_value(v):
                    q = Fraction(v.numerator_as_long(), v.denominator_as_long())
                    return iv(int(q))
                return If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))
            return v
        if t.k == "ptr":
            if isinstance(v, (Ptr, LRef, FnV)): return v
            if isinstance(v, StV): return Ptr(v.ref)
            v = self.num(v)
            return Ptr(v)
        return v

    # --------------------------------------------------------- lvalues
    def newbox(self, st=None, t=None):
        self.box_n += 1
        b = iv(-self.box_n)
        if st is not None:      # storage of a local: live, of its type, owned by nothing
            st.assume(Not(Sel(st.H("freed"), b)))
            if t is not None: st.assume(KIND(b) == kind_of(t))
            for g in FRESH_GHOST: st.assume(Sel(st.H("ghost:" + g), b) == 0)
        return b
    def glob_ref(self, name): return glob_ref_of(name)

    def read(self, st, lv, line):
        k = lv[0]
        if k == "var": 
            if lv[1] not in st.vars:
                raise ExtractionError(f"read of unknown variable at line {line}")
            return st.vars[lv[1]]
        if k == "glob":
            t = lv[2]
            if t.k in ("arr",):
                r = self.glob_ref(lv[1])
                if t.n is None:     # declared without a size here: the defining unit knows it
                    for u in self.prog.tus:
                        if lv[1] in u.globals:
                            t2 = u.nty(u.globals[lv[1]])
                            if t2.k == "arr" and t2.n is not None: t = t2
                if t.n is not None and t.a.scalar: st.assume(LEN(r) == t.n)
                return Ptr(r)
            if t.k == "struct": return StV(self.glob_ref(lv[1]), t.a)
            return self.wrap(st.H("G:" + lv[1]), t)
        if k == "fld":
            _, sn, fn, ref, t = lv
            if t.k == "arr":
                f = z3.Function("arr:" + sn + "." + fn, I, I); a = f(ref)     # the array is part of the struct: storage of its own, never an allocated block
                st.assume(And(a < -1000000, Not(Sel(st.H("freed"), a)), EMB_OWNER(a) == ref, EMB_FIELD(a) == emb_id(sn + "." + fn)))
                if t.n is not None and t.a.scalar: st.assume(And(LEN(a) == t.n, KIND(a) == kind_of(t.a)))
                return Ptr(a)
            if t.k == "struct":
                f = z3.Function("sub:" + sn + "." + fn, I, I)
                a = f(ref); st.assume(And(EMB_OWNER(a) == ref, EMB_FIELD(a) == emb_id(sn + "." + fn)))
                return StV(a, t.a)
            return self.wrap(Sel(st.H(f"F:{sn}.{fn}"), ref), t)
        if k == "mem":
            _, t, b, o = lv
            if t.k == "struct": return StV(b if isz(z3.simplify(o)) else ELT(b, o), t.a)
            if t.k == "arr":
                return Ptr(ELT(b, o))
            return self.wrap(Sel(st.H(mem_name(t)), b, o), t)
        if k == "st": return StV(lv[1], lv[2])
        raise ExtractionError("read " + k)

    def write(self, st, lv, v, line):
        k = lv[0]
        if k == "var":
            st.vars[lv[1]] = v; return
        if k == "glob":
            st.heap["G:" + lv[1]] = self.unwrap(v, "global " + lv[1]); return
        if k == "fld":
            _, sn, fn, ref, t = lv
            m = f"F:{sn}.{fn}"
            st.heap[m] = z3.Store(st.H(m), ref, self.unwrap(v, sn + "." + fn))
            for m2 in self.union_mates(sn, fn): h = st.H(m2); st.heap[m2] = z3.Store(h, ref, fresh("undef", h.sort().range()))
            return
        if k == "mem":
            _, t, b, o = lv
            if t.k == "struct": return self.copy_struct(st, b if isz(z3.simplify(o)) else ELT(b, o), v.ref, t.a)
            m = mem_name(t)
            h = st.H(m)
            st.heap[m] = z3.Store(h, b, z3.Store(Sel(h, b), o, self.unwrap(v, "array"))); return
        if k == "st":
            return self.copy_struct(st, lv[1], v.ref, lv[2])
        raise ExtractionError("write " + k)

    def union_mates(self, sn, fn):
        """the other members of the union: undefined once fn is written"""
        if sn not in front.UNIONS: return []
        fs = next(t.records[sn] for t in self.prog.tus if sn in t.records)
        if not all(self.any_field_type(sn, f).scalar for f in fs): raise ExtractionError("union with aggregate members")
        return [f"F:{sn}.{f}" for f in fs if f != fn]
    def copy_struct(self, st, dst, src, name):
        if name in front.UNIONS: raise ExtractionError("union copy")
        for t in self.prog.tus:
            if name in t.records:
                for f in t.records[name]:
                    ft = t.field_type(name, f)
                    if not ft.scalar: raise ExtractionError("struct copy with nested aggregate")
                    m = f"F:{name}.{f}"
                    st.heap[m] = z3.Store(st.H(m), dst, Sel(st.H(m), src))
                return
        raise ExtractionError("unknown struct " + name)

    # --------------------------------------------------------- expressions
    def strip(self, e):
        while e["kind"] in ("ParenExpr",) or (e["kind"] == "ImplicitCastExpr" and e.get("castKind") in ("NoOp",)):
            e = e["inner"][0]
        return e
    def nty(self, e): return self.tu.nty(e)

    def lval(self, e, st):
        """-> list of (state, lvalue)"""
        e = self.strip(e); k = e["kind"]; line = e.get("_line", 0)
        if k == "DeclRefExpr":
            d = e["referencedDecl"]
            if d["id"] in st.boxes:
                t = self.tu.ty(d["type"]["qualType"])
                return [(st, ("mem", t, st.boxes[d["id"]], iv(0)))] if t.k != "struct" else [(st, ("st", st.boxes[d["id"]], t.a))]
            if d["id"] in st.vars: return [(st, ("var", d["id"]))]
            if d["kind"] == "VarDecl":
                key = "static:" + d["id"]
                return [(st, ("glob", d["name"], self.tu.ty(d["type"]["qualType"]) if d["name"] not in self.tu.globals else self.tu.nty(self.tu.globals[d["name"]])))]
            raise ExtractionError(f"variable {d.get('name')} unknown")
        if k == "MemberExpr":
            base = e["inner"][0]; fn = e["name"]
            bt = self.nty(base)
            out = []
            if e.get("isArrow"):
                sn = bt.a.a
                for s, p in self.ev(base, st):
                    if isinstance(p, LRef):
                        v = self.read(s, p.lv, line)
                        p = Ptr(v.ref)
                    ref = self.deref(s, p, line)
                    out.append((s, ("fld", sn, fn, ref, self.any_field_type(sn, fn))))
            else:
                sn = bt.a
                for s, l in self.lval(base, st):
                    v = self.read(s, l, line)
                    out.append((s, ("fld", sn, fn, v.ref, self.any_field_type(sn, fn))))
            return out
        if k == "ArraySubscriptExpr":
            b, i = e["inner"]
            et = self.nty(e); out = []
            for s, p in self.ev(b, st):
                for s2, ix in self.ev(i, s):
                    if not isinstance(p, Ptr) and isinstance(ix, Ptr): p, ix = ix, p
                    if isinstance(p, LRef):
                        out.append((s2, p.lv)); continue
                    o = z3.simplify(p.o + self.num(ix))
                    self.bounds(s2, p.b, o, line)
                    out.append((s2, ("mem", et, p.b, o)))
            return out
        if k == "UnaryOperator" and e["opcode"] == "*":
            out = []
            for s, p in self.ev(e["inner"][0], st):
                if isinstance(p, LRef): out.append((s, p.lv)); continue
                t = self.nty(e)
                if t.k == "struct":
                    out.append((s, ("st", self.deref(s, p, line), t.a)))
                else:
                    self.bounds(s, p.b, p.o, line)
                    out.append((s, ("mem", t, p.b, p.o)))
            return out
        if k in ("ImplicitCastExpr", "CStyleCastExpr"):
            return self.lval(e["inner"][0], st)
        if k == "CallExpr" or k == "ConditionalOperator":
            out = []
            for s, v in self.ev(e, st):
                if isinstance(v, StV): out.append((s, ("st", v.ref, v.name)))
                else: raise ExtractionError("lvalue call")
            return out
        if k == "StringLiteral":
            return [(st, ("mem", T("char"), self.strlit(e, st), iv(0)))]
        raise ExtractionError(f"lvalue {k} at line {line}")

    def strlit(self, e, st=None):
        v = e.get("value", "")
        if v not in self.strings: self.strings[v] = iv(-200000 - len(self.strings))
        r = self.strings[v]
        if st is not None and STRING_HOOK[0]:
            try: b = __import__("ast").literal_eval(v)
            except Exception: b = None
            if b is not None and len(b) < 40: STRING_HOOK[0](st, r, b)
        return r

    def deref(self, st, p, line):
        if not isinstance(p, Ptr): raise ExtractionError(f"deref of non pointer at line {line}")
        r = p.b if isz(z3.simplify(p.o)) else ELT(p.b, p.o)
        if z3.is_int_value(r) and r.as_long() < 0: return r
        self.oblige(st, "valid dereference", st.valid(r), line, "safety")
        return r
    def bounds(self, st, b, o, line):
        if z3.is_int_value(b) and b.as_long() < 0:
            self.oblige(st, "index in bounds", And(0 <= o, o < LEN(b)), line, "safety"); return
        self.oblige(st, "valid array access", st.valid(b), line, "safety")
        self.oblige(st, "index in bounds", And(0 <= o, o < LEN(b)), line, "safety")

    def pure(self, e):
        k = e["kind"]
        if k == "CallExpr":
            n = self.callee_name(e)
            if n not in PURE_CALLS: return False
        if k == "UnaryOperator" and e["opcode"] in ("++", "--"): return False
        if k in ("CompoundAssignOperator", "StmtExpr"): return False
        if k == "BinaryOperator" and e["opcode"] == "=": return False
        return all(self.pure(c) for c in e.get("inner", []) if isinstance(c, dict) and "kind" in c)

    ALIAS = {"XA_malloc": "malloc", "XA_calloc": "calloc", "XA_realloc": "realloc"}
    def callee_name(self, e):
        n = self.callee_name0(e)
        return self.ALIAS.get(n, n)
    def callee_name0(self, e):
        f = self.strip(e["inner"][0])
        while f["kind"] in ("ImplicitCastExpr", "ParenExpr", "CStyleCastExpr") or (f["kind"] == "UnaryOperator" and f["opcode"] in ("*", "&")):
            f = f["inner"][0]
        if f["kind"] == "DeclRefExpr" and f["referencedDecl"]["kind"] == "FunctionDecl": return f["referencedDecl"]["name"]
        return None

    def ev1(self, e, st):
        r = self.ev(e, st)
        if len(r) != 1: raise ExtractionError("unexpected fork")
        return r[0][1]

    def ev(self, e, st):
        """-> list of (state, value)"""
        k = e["kind"]; line = e.get("_line", 0)
        if k == "ParenExpr" or k == "ConstantExpr": return self.ev(e["inner"][0], st)
        if k == "IntegerLiteral": return [(st, iv(int(e["value"])))]
        if k == "CharacterLiteral": return [(st, iv(int(e["value"])))]
        if k == "FloatingLiteral":
            x = e["value"]
            f = Fraction(x) if "x" not in x.lower() else Fraction(float.fromhex(x))
            return [(st, rv(f))]
        if k == "StringLiteral": return [(st, Ptr(self.strlit(e, st)))]
        if k == "PredefinedExpr": return [(st, Ptr(iv(-300000)))]
        if k == "DeclRefExpr":
            d = e["referencedDecl"]
            if d["kind"] == "EnumConstantDecl":
                for t in [self.tu] + self.prog.tus:
                    if d["name"] in t.enums: return [(st, iv(t.enums[d["name"]]))]
                raise ExtractionError("enum " + d["name"])
            if d["kind"] == "FunctionDecl": return [(st, FnV(d["name"]))]
            s, l = self.lval(e, st)[0]
            return [(s, self.read(s, l, line))]
        if k in ("MemberExpr", "ArraySubscriptExpr"):
            return [(s, self.read(s, l, line)) for s, l in self.lval(e, st)]
        if k in ("ImplicitCastExpr", "CStyleCastExpr"):
            ck = e.get("castKind"); sub = e["inner"][0]
            if ck == "LValueToRValue":
                return [(s, self.read(s, l, line)) for s, l in self.lval(sub, st)]
            if ck == "ArrayToPointerDecay":
                out = []
                sub_ = self.strip(sub)
                if sub_["kind"] == "StringLiteral": return [(st, Ptr(self.strlit(sub_, st)))]
                if sub_["kind"] == "PredefinedExpr": return [(st, Ptr(iv(-300000)))]
                for s, l in self.lval(sub, st):
                    v = self.read(s, l, line) if not (l[0] == "mem" and l[1].k == "arr" and l[2] is not None and z3.is_int_value(l[2]) and l[2].as_long() < 0 and isz(l[3])) else Ptr(l[2])
                    out.append((s, v))
                return out
            if ck in ("FunctionToPointerDecay", "BuiltinFnToFnPtr"): return self.ev(sub, st)
            if ck == "NullToPointer": return [(st, NULLP)]
            if ck == "ToVoid": return [(s, None) for s, v in self.ev(sub, st)]
            t = self.nty(e)
            # typed allocation
            c = self.strip(sub)
            if c["kind"] == "CallExpr" and self.callee_name(c) in ("malloc", "calloc", "realloc") and t.k == "ptr":
                return self.ev_call(c, st, want=t)
            if ck in ("BitCast", "NoOp"):
                return self.ev(sub, st)
            if ck == "PointerToBoolean": return [(s, self.truth(v)) for s, v in self.ev(sub, st)]
            if ck in ("IntegralToPointer", "PointerToIntegral"):
                return [(s, self.convert(v, t)) for s, v in self.ev(sub, st)]
            if ck in ("IntegralCast", "IntegralToFloating", "FloatingCast", "FloatingToIntegral", "IntegralToBoolean", "FloatingToBoolean", None):
                return [(s, self.convert(v, t)) for s, v in self.ev(sub, st)]
            raise ExtractionError(f"cast {ck}")
        if k == "UnaryExprOrTypeTraitExpr":
            if e.get("name") != "sizeof": raise ExtractionError("trait")
            t = self.tu.ty(e["argType"]["qualType"]) if "argType" in e else self.nty(e["inner"][0])
            if t.k == "arr": return [(st, SizeV(iv(t.n), t.a))]
            return [(st, SizeV(iv(1), t))]
        if k == "UnaryOperator": return self.ev_unary(e, st)
        if k == "BinaryOperator": return self.ev_binary(e, st)
        if k == "CompoundAssignOperator":
            op = e["opcode"][:-1]; out = []
            for s, v in self.ev(e["inner"][1], st):
                for s2, l in self.lval(e["inner"][0], s):
                    cur = self.read(s2, l, line)
                    lt = self.nty(e["inner"][0])
                    ct = self.tu.ty(e["computeResultType"]["qualType"]) if "computeResultType" in e else lt
                    cc = self.convert(cur, ct) if ct.k == "real" else cur
                    r = self.arith(s2, op, cc, v, line)
                    r = self.convert(r, lt)
                    self.write(s2, l, r, line); out.append((s2, r))
            return out
        if k == "ConditionalOperator":
            c, a, b = e["inner"]; out = []
            for s, cv in self.ev(c, st):
                t = self.truth(cv)
                ts = z3.simplify(t)
                if z3.is_true(ts): out += self.ev(a, s); continue
                if z3.is_false(ts): out += self.ev(b, s); continue
                if self.pure(a) and self.pure(b):
                    n = len(s.pc)
                    s.pc.append(t); va = self.ev1(a, s); del s.pc[n:]
                    s.pc.append(Not(t)); vb = self.ev1(b, s); del s.pc[n:]
                    out.append((s, ite(t, va, vb, self)))
                else:
                    s2 = s.copy(); s.assume(t); s2.assume(Not(t))
                    if self.feasible(s): out += self.ev(a, s)
                    if self.feasible(s2): out += self.ev(b, s2)
            return out
        if k == "CallExpr": return self.ev_call(e, st)
        if k == "StmtExpr":
            out = []
            for s, oc, v in self.stmt(e["inner"][0], st):
                if oc == ABORT: out.append((s, ABORT))
                elif oc == NORMAL: out.append((s, None))
                else: raise ExtractionError("jump out of a statement expression")
            return out
        if k == "InitListExpr": raise ExtractionError("init list")
        if k == "ImplicitValueInitExpr": return [(st, self.convert(iv(0), self.nty(e)))]
        raise ExtractionError(f"expression {k} at line {line}")

    def ev_unary(self, e, st):
        op = e["opcode"]; sub = e["inner"][0]; line = e.get("_line", 0)
        if op in ("++", "--"):
            out = []
            for s, l in self.lval(sub, st):
                v = self.read(s, l, line)
                if isinstance(v, Ptr): n = Ptr(v.b, z3.simplify(v.o + (1 if op == "++" else -1)))
                else: n = v + 1 if op == "++" else v - 1
                self.write(s, l, n, line)
                out.append((s, v if e.get("isPostfix") else n))
            return out
        if op == "&":
            out = []
            se = self.strip(sub)
            for s, l in self.lval(sub, st):
                if l[0] == "mem" and l[1].k != "struct": out.append((s, Ptr(l[2], l[3])))
                elif l[0] == "mem": out.append((s, Ptr(l[2], l[3])))
                elif l[0] == "st": out.append((s, Ptr(l[1])))
                else:
                    v = self.read(s, l, line) if l[0] != "var" else None
                    if isinstance(v, StV): out.append((s, Ptr(v.ref)))
                    else: out.append((s, LRef(l)))
            return out
        if op == "*":
            return [(s, self.read(s, l, line)) for s, l in self.lval(e, st)]
        out = []
        for s, v in self.ev(sub, st):
            if op == "!": out.append((s, Not(self.truth(v))))
            elif op == "-": out.append((s, -self.num(v)))
            elif op == "+": out.append((s, v))
            elif op == "~": out.append((s, -self.num(v) - 1))
            elif op == "__extension__": out.append((s, v))
            else: raise ExtractionError("unary " + op)
        return out

    def ev_binary(self, e, st):
        op = e["opcode"]; l, r = e["inner"]; line = e.get("_line", 0); out = []
        if op == "=":
            lt = self.nty(l)
            for s, v in self.ev(r, st):
                for s2, lv in self.lval(l, s):
                    v2 = self.convert(v, lt) if lt.scalar else v
                    self.write(s2, lv, v2, line); out.append((s2, v2))
            return out
        if op == ",":
            for s, _ in self.ev(l, st): out += self.ev(r, s)
            return out
        if op in ("&&", "||"):
            for s, a in self.ev(l, st):
                t = self.truth(a); ts = z3.simplify(t)
                if op == "&&" and z3.is_false(ts): out.append((s, FALSE)); continue
                if op == "||" and z3.is_true(ts): out.append((s, TRUE)); continue
                if self.pure(r):
                    n = len(s.pc)
                    s.pc.append(t if op == "&&" else Not(t))
                    b = self.truth(self.ev1(r, s)); del s.pc[n:]
                    out.append((s, And(t, b) if op == "&&" else Or(t, b)))
                else:
                    s2 = s.copy()
                    s.assume(t if op == "&&" else Not(t)); s2.assume(Not(t) if op == "&&" else t)
                    if self.feasible(s2): out.append((s2, FALSE if op == "&&" else TRUE))
                    if self.feasible(s):
                        for s3, b in self.ev(r, s): out.append((s3, self.truth(b)))
            return out
        for s, a in self.ev(l, st):
            for s2, b in self.ev(r, s):
                out.append((s2, self.arith(s2, op, a, b, line)))
        return out

    def arith(self, st, op, a, b, line):
        if op in ("==", "!="):
            if isinstance(a, (Ptr, LRef, FnV)) or isinstance(b, (Ptr, LRef, FnV)):
                if isinstance(a, (LRef, FnV)) or isinstance(b, (LRef, FnV)):
                    other = b if isinstance(a, (LRef, FnV)) else a
                    if isinstance(other, Ptr) and isz(z3.simplify(other.b)): return FALSE if op == "==" else TRUE
                    raise ExtractionError("comparison of scalar addresses")
                pa = a if isinstance(a, Ptr) else Ptr(self.num(a)); pb = b if isinstance(b, Ptr) else Ptr(self.num(b))
                eq = pa.b == pb.b
                if not (isz(pa.o) and isz(pb.o)): eq = And(eq, pa.o == pb.o)
                return eq if op == "==" else Not(eq)
            a, b = coerce(self.num(a), self.num(b))
            return a == b if op == "==" else a != b
        if op in ("+", "-") and (isinstance(a, Ptr) or isinstance(b, Ptr)):
            if isinstance(a, Ptr) and isinstance(b, Ptr):
                return a.o - b.o
            if isinstance(b, Ptr): a, b = b, a
            d = self.num(b)
            return Ptr(a.b, z3.simplify(a.o + d if op == "+" else a.o - d))
        if op == "*" and (isinstance(a, SizeV) or isinstance(b, SizeV)):
            if isinstance(b, SizeV): a, b = b, a
            return SizeV(a.n * self.num(b), a.t)
        if op in ("+", "-") and isinstance(a, SizeV) and isinstance(b, SizeV):
            if a.t == b.t: return SizeV(a.n + b.n if op == "+" else a.n - b.n, a.t)
        if isinstance(a, Ptr) and isinstance(b, Ptr): a, b = a.o, b.o
        a, b = self.num(a), self.num(b)
        if op in ("<", ">", "<=", ">="):
            a, b = coerce(a, b)
            return {"<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b}[op]
        if op in ("+", "-", "*"):
            a, b = coerce(a, b)
            return a + b if op == "+" else a - b if op == "-" else a * b
        if op == "/":
            a, b = coerce(a, b)
            self.oblige(st, "division by zero excluded", b != 0, line, "safety")
            if z3.is_real(a): return a / b if z3.is_rational_value(z3.simplify(b)) else DIV(a, b)
            return If(Or(And(a >= 0, b > 0), And(a <= 0, b < 0)), z3.If(a >= 0, a / b, (-a) / (-b)), If(a >= 0, -(a / (-b)), -((-a) / b)))
        if op == "%":
            self.oblige(st, "modulo by zero excluded", b != 0, line, "safety")
            return If(a >= 0, a % If(b > 0, b, -b), -((-a) % If(b > 0, b, -b)))
        if op == "&":
            f = z3.Function("bitand", I, I, I); return f(a, b)
        if op == "|":
            f = z3.Function("bitor", I, I, I); return f(a, b)
        if op == "<<" and z3.is_int_value(z3.simplify(b)): return a * (2 ** z3.simplify(b).as_long())
        raise ExtractionError(f"operator {op} at line {line}")

    # --------------------------------------------------------- calls
    def ev_args(self, args, st):
        outs = [(st, [])]
        for a in args:
            nxt = []
            for s, vs in outs:
                for s2, v in self.ev(a, s): nxt.append((s2, vs + [v]))
            outs = nxt
        return outs

    def alloc(self, st, t_elem, count, zero, line, name="new"):
        """allocate a block of `count` elements (count a term) of type t_elem"""
        r = fresh(name, I)
        st.assume(And(r > 0, r >= st.clk))
        if not self.feasible_alloc_ok: pass
        nc = fresh("clk", I); clk0 = st.clk
        st.assume(nc > r); st.heap["clk"] = nc
        st.assume(Not(Sel(st.H("freed"), r)))
        st.assume(KIND(r) == kind_of(t_elem))
        for g in FRESH_GHOST: st.assume(Sel(st.H("ghost:" + g), r) == 0)
        for g in GAP_GHOST: q = bound("q"); st.assume(forall(q, Implies(And(clk0 <= q, q < nc), Sel(st.H("ghost:" + g), q) == 0), [Sel(st.H("ghost:" + g), q)]))     # numbers never handed out own nothing
        if t_elem.k == "struct":
            # ghost owners are always existing references (every ghost assignment stores one)
            for g in OWNER_GHOST:
                q = bound("q"); st.assume(forall(q, Sel(st.H("ghost:" + g), q) != r, [Sel(st.H("ghost:" + g), q)]))
            st.assume(LEN(r) == count)
            if zero:
                for t in self.prog.tus:
                    if t_elem.a in t.records:
                        for f in t.records[t_elem.a]:
                            ft = t.field_type(t_elem.a, f)
                            if ft.scalar and isz(z3.simplify(count), 1):
                                m = f"F:{t_elem.a}.{f}"
                                st.heap[m] = z3.Store(st.H(m), r, rv(0) if ft.k == "real" else iv(0))
                        break
        else:
            st.assume(LEN(r) == count)
            if zero:
                m = mem_name(t_elem)
                st.heap[m] = z3.Store(st.H(m), r, z3.K(I, rv(0) if t_elem.k == "real" else iv(0)))
        return Ptr(r)
    feasible_alloc_ok = True

    def ev_call(self, e, st, want=None):
        line = e.get("_line", 0)
        name = self.callee_name(e)
        if name is None:
            raise ExtractionError(f"indirect call at line {line}")
        args = e["inner"][1:]
        if name == "fprintf" and "oln" in self.contract.ghost_writes: return self.print_tokens(args, st, line)
        if name in IGNORED or name.startswith("__builtin___") :
            for s, vs in self.ev_args_lenient(args, st): st = s
            return [(st, fresh(name, I))]
        out = []
        for s, vs in self.ev_args(args, st):
            out += self.call(name, vs, s, line, self.nty(e), want, e)
        return out

    def print_tokens(self, args, st, line):
        """fprintf to a stream whose contract speaks about the words written: ghosts oln (number of words), otk (kind 0 int, 1 real,
        2 text), oti (value, or the characters of a text as a number), otr, osp (1: the next character starts a new word)"""
        a = args[1]
        while a["kind"] != "StringLiteral":
            if len(a.get("inner", [])) != 1: raise ExtractionError("format is not a literal")
            a = a["inner"][0]
        import json as _j, re as _re
        try: fmt = _j.loads(a["value"])
        except Exception: raise ExtractionError("format literal")
        lits = []
        for x in args[2:]:
            while x["kind"] != "StringLiteral" and len(x.get("inner", [])) == 1 and x["kind"] in ("ImplicitCastExpr", "ParenExpr", "CStyleCastExpr"): x = x["inner"][0]
            lits.append(_j.loads(x["value"]) if x["kind"] == "StringLiteral" else None)
        out = []
        for s, vs in self.ev_args(args, st):
            f = vs[0].b; rest = list(zip(vs[2:], lits))
            for part in _re.findall(r"%[-+ 0#]*(?:\*|\d+)?(?:\.(?:\*|\d+))?l?[a-z%]|\s+|[^%\s]+", fmt):
                g = lambda n: s.H("ghost:" + n)
                if part.isspace():
                    self.set_ghost(s, "osp", z3.Store(g("osp"), f, iv(1))); continue
                if part[0] == "%" and part != "%%":
                    for _ in range(part.count("*")): rest.pop(0)
                    v, lit = rest.pop(0); k = part[-1]
                    if k in "di": kind, ival, rval = 0, self.num(v), rv(0)
                    elif k in "fge": kind, ival, rval = 1, iv(0), self.convert(v, T("real"))
                    elif k == "s" and lit is not None: kind, ival, rval = 2, iv(text_code(lit)), rv(0)
                    else: raise ExtractionError("conversion " + part)
                else: kind, ival, rval = 2, iv(text_code(part)), rv(0)
                sep = Sel(g("osp"), f) == 1; n = Sel(g("oln"), f); i = If(sep, n, n - 1)      # no separation: the words run together
                def put(nm, val, undef): self.set_ghost(s, nm, z3.Store(g(nm), f, z3.Store(Sel(g(nm), f), i, If(sep, val, undef))))
                put("otk", iv(kind), fresh("word", I)); put("oti", ival, fresh("word", I)); put("otr", rval, fresh("word", R))
                self.set_ghost(s, "oln", z3.Store(g("oln"), f, i + 1)); self.set_ghost(s, "osp", z3.Store(g("osp"), f, iv(0)))
            out.append((s, fresh("fprintf", I)))
        return out

    def ev_args_lenient(self, args, st):
        # output-only calls: arguments are evaluated for their safety obligations where possible
        try:
            probe = st.copy(); n = len(self.obs)
            r = self.ev_args(args, probe)
            if len(r) == 1: return r
            del self.obs[n:]
        except ExtractionError: pass
        return [(st, [])]

    def call(self, name, vs, st, line, rt, want=None, e=None):
        if name in NORETURN:
            st.vars["__abort"] = line
            return [(st, ABORT)]
        if name in ("malloc", "calloc"):
            t = want.a if want else None
            if t is None or t.k == "void":
                sv0 = vs[-1]
                t = sv0.t if isinstance(sv0, SizeV) else T("char", "char")
            if name == "calloc":
                n = self.num(vs[0]) if not isinstance(vs[0], SizeV) else vs[0].n
                if not isinstance(vs[1], SizeV):
                    if isinstance(vs[0], SizeV): n = self.num(vs[1])
                    elif t.k == "char": n = n * self.num(vs[1])
                    else: raise ExtractionError("calloc size")
                elif vs[1].t.k == "struct" and t.k in ("ptr", "int", "real"):
                    # a block at least as large as n elements of t
                    p = self.alloc(st, t, fresh("n", I), True, line)
                    st.assume(LEN(p.b) >= n); return [(st, p)]
                elif not same_size(vs[1].t, t): raise ExtractionError(f"calloc of mismatched type {vs[1].t} for {t}")
                elif not isz(z3.simplify(vs[1].n), 1): n = n * vs[1].n
                return [(st, self.alloc(st, t, n, True, line))]
            sv = vs[0]
            if isinstance(sv, SizeV):
                if not same_size(sv.t, t): raise ExtractionError(f"malloc of mismatched type {sv.t} for {t} at line {line}")
                return [(st, self.alloc(st, t, sv.n, False, line))]
            if t.k == "char": return [(st, self.alloc(st, t, self.num(sv), False, line))]
            raise ExtractionError(f"malloc size at line {line}")
        if name == "realloc":
            t = want.a if want else vs[1].t
            old = vs[0]; n = vs[1].n
            p = self.alloc(st, t, n, False, line)
            if t.k == "struct": raise ExtractionError("realloc of structs")
            m = mem_name(t); h = st.H(m); k = bound()
            na = fresh("realloc", AR if t.k == "real" else AI)
            st.heap[m] = z3.Store(h, p.b, na)
            st.assume(forall(k, Implies(And(0 <= k, k < LEN(old.b), k < n), na[k] == Sel(h, old.b, k)), [na[k]]))
            st.heap["freed"] = z3.Store(st.H("freed"), old.b, If(old.b != 0, TRUE, Sel(st.H("freed"), old.b)))
            return [(st, p)]
        if name == "free":
            p = vs[0]
            if not isinstance(p, Ptr): raise ExtractionError("free of non pointer")
            self.oblige(st, "free of a live block or null", Or(p.b == 0, And(st.valid(p.b), p.o == 0)), line, "safety")
            fz = st.H("freed")
            st.heap["freed"] = z3.Store(fz, p.b, If(p.b != 0, TRUE, Sel(fz, p.b)))
            return [(st, None)]
        if name in ("fabs", "__builtin_fabs"):
            x = self.convert(vs[0], T("real")); return [(st, If(x >= 0, x, -x))]
        if name == "abs":
            x = self.num(vs[0]); return [(st, If(x >= 0, x, -x))]
        if name in ("__builtin_huge_val", "__builtin_inf", "__builtin_inff"):
            self.assumptions.add("HUGE_VAL is a real number larger than every value the specification bounds")
            return [(st, INF)]
        if name == "exp":
            x = self.convert(vs[0], T("real")); r = STRICT_EXP(x)
            st.assume(And(r >= 0, Implies(x <= 0, r <= 1), Implies(x >= 0, r >= 1)))
            self.assumptions.add("exp(x) >= 0, <= 1 for x <= 0, >= 1 for x >= 0"); return [(st, r)]
        if name == "log":
            x = self.convert(vs[0], T("real")); r = LOGF(x)
            st.assume(And(Implies(x <= 1, r <= 0), Implies(x >= 1, r >= 0)))
            self.assumptions.add("log(x) <= 0 for x <= 1, >= 0 for x >= 1 (log 0 treated as some non-positive value)"); return [(st, r)]
        if name == "pow":
            return [(st, POWF(self.convert(vs[0], T("real")), self.convert(vs[1], T("real"))))]
        if name == "sqrt":
            x = self.convert(vs[0], T("real")); r = SQRTF(x); st.assume(Implies(x >= 0, And(r >= 0, r * r == x))); return [(st, r)]
        if name == "strcmp" and "strcmp" not in self.contracts:
            a, b = vs
            return [(st, STRCMP(str_id(st, a), str_id(st, b)))]
        if name in EXTERN:
            return EXTERN[name](self, vs, st, line, rt)
        if name in IGNORED: return [(st, fresh(name, I))]
        top = self.contract
        if name in self.contracts and name not in top.inline:
            return self.apply_contract(self.contracts[name], vs, st, line, rt)
        f = self.prog.find(name, self.tu)
        if f: return self.inline(f, name, vs, st, line, rt)
        raise ExtractionError(f"call of {name}: no contract, no source")

    def inline(self, f, name, vs, st, line, rt):
        if name in self.inline_stack or len(self.inline_stack) > 12: raise ExtractionError(f"recursive call of {name} without contract")
        tu, fn = f
        self.inlined.add(name)
        saved = (self.tu, self.call_chain)
        self.inline_stack.append(name)
        self.tu = tu; self.call_chain = self.call_chain + ((name, line),)
        outer_vars, outer_boxes = dict(st.vars), dict(st.boxes)
        out = []
        try:
            self.bind_params(st, fn, vs)
            body = [c for c in fn["inner"] if c.get("kind") == "CompoundStmt"][0]
            self.box_addressed(st, fn, body)
            for s, oc, v in self.stmt(body, st):
                ab = s.vars.get("__abort")
                # restore the caller's frame; locals of the caller may only change through boxes
                s.vars = dict(outer_vars) if oc != ABORT else s.vars
                s.boxes = dict(outer_boxes)
                if oc == ABORT: out.append((s, ABORT))
                elif oc in (RET, NORMAL):
                    ret_t = tu.ty(fn["type"]["qualType"].split("(")[0])
                    if v is not None and ret_t.scalar: v = self.convert(v, ret_t)
                    if v is None and ret_t.scalar: v = self.symbol("noret", ret_t)
                    out.append((s, v))
                else: raise ExtractionError("break out of function")
        finally:
            self.inline_stack.pop(); self.tu, self.call_chain = saved
        return out

    def bind_params(self, st, fn, vs):
        ps = [c for c in fn.get("inner", []) if c.get("kind") == "ParmVarDecl"]
        if len(ps) > len(vs): raise ExtractionError("missing arguments in call of " + fn["name"])
        for p, v in zip(ps, vs):
            t = self.tu.nty(p)
            if t.k == "arr": t = T("ptr", t.a)
            if t.scalar: v = self.convert(v, t)
            if isinstance(v, LRef) and v.lv[0] == "var": raise ExtractionError("address of an unboxed local")
            st.vars[p["id"]] = v

    def box_addressed(self, st, fn, body):
        """locals whose address is taken live in memory cells"""
        addr = set()
        def walk(x):
            if x.get("kind") == "UnaryOperator" and x["opcode"] == "&":
                y = x["inner"][0]
                while y["kind"] in ("ParenExpr",): y = y["inner"][0]
                if y["kind"] == "DeclRefExpr": addr.add(y["referencedDecl"]["id"])
            for c in x.get("inner", []):
                if isinstance(c, dict) and "kind" in c: walk(c)
        walk(body)
        st.vars["__addr"] = addr | set(st.vars.get("__addr", set()))
        for p in [c for c in fn.get("inner", []) if c.get("kind") == "ParmVarDecl"]:
            if p["id"] in addr:
                t = self.tu.nty(p)
                if t.k != "struct" and t.scalar:
                    b = self.newbox(st, t); st.assume(LEN(b) == 1)
                    v = st.vars.pop(p["id"]); st.boxes[p["id"]] = b
                    self.write(st, ("mem", t, b, iv(0)), v, 0)

    def declare(self, d, st):
        t = self.tu.nty(d); vid = d["id"]; line = d.get("_line", 0)
        if d.get("storageClass") in ("extern",): return [st]
        if d.get("storageClass") == "static": raise ExtractionError("static local")
        init = [c for c in d.get("inner", []) if isinstance(c, dict) and "kind" in c and c["kind"] != "FullComment"]
        if t.k == "arr":
            b = self.newbox(st, t.a); st.boxes[vid] = b
            st.assume(LEN(b) == (t.n or 1))
            if init and self.strip(init[0])["kind"] == "InitListExpr":
                il = self.strip(init[0])
                vals = il.get("inner", [])
                for i, x in enumerate(vals):
                    if x.get("kind") == "ImplicitValueInitExpr": continue
                    v = self.ev1(x, st)
                    self.write(st, ("mem", t.a, b, iv(i)), self.convert(v, t.a), line)
            return [st]
        if t.k == "struct":
            b = self.newbox(); st.boxes[vid] = b
            st.vars.pop(vid, None)
            if init:
                for s, v in self.ev(init[0], st):
                    self.copy_struct(s, b, v.ref, t.a); return [s]
            return [st]
        boxed = vid in st.vars.get("__addr", set())
        if boxed:
            b = self.newbox(st, t); st.boxes[vid] = b; st.assume(LEN(b) == 1)
        if init:
            out = []
            for s, v in self.ev(init[0], st):
                if v is ABORT: out.append((s, ABORT)); continue
                v = self.convert(v, t)
                if boxed: self.write(s, ("mem", t, s.boxes[vid], iv(0)), v, line)
                else: s.vars[vid] = v
                out.append(s)
            return out
        if not boxed: st.vars[vid] = self.symbol("undef_" + d.get("name", ""), t)
        return [st]

    def apply_contract(self, ct, vs, st, line, rt):
        vs = list(vs)
        self.used.add(ct.name)
        f = self.prog.find(ct.name)
        if f:
            tu, fn = f
            ps = [c for c in fn.get("inner", []) if c.get("kind") == "ParmVarDecl"]
            vs2 = []
            for p, v in zip(ps, vs):
                t = tu.nty(p)
                if t.k == "arr": t = T("ptr", t.a)
                vs2.append(self.convert(v, t) if t.scalar else v)
            vs = vs2
        lrefs = [v for v in vs if isinstance(v, LRef)]
        if lrefs:
            # scalar locations passed by reference are moved to a temporary cell around the call
            return self.apply_with_cells(ct, vs, st, line, rt)
        # interior pointers to arrays are supported only when the contract speaks about (base, offset)
        for i, v in enumerate(vs):
            if isinstance(v, Ptr) and not isz(z3.simplify(v.o)) and i not in ct.interior:
                pt = T("void")
                if f and i < len(ps): pt = tu.nty(ps[i])
                if pt.k == "ptr" and pt.a.k == "struct": vs[i] = Ptr(ELT(v.b, v.o))
                else: self.oblige(st, f"precondition of {ct.name}: argument {i + 1} points to the start of a block", v.o == 0, line, "pre"); vs[i] = Ptr(v.b)
        pre = st.copy()
        c0 = Ctx(self, pre, pre, vs)
        for lab, g in ct.requires(c0):
            self.oblige(st, f"precondition of {ct.name}: {lab}", g, line, "pre")
        mods = ct.modifies(c0)
        wr = self.writes_of(ct.name)
        if ct.entry: ct.entry(c0)
        clk0 = st.clk
        if "clk" in wr or ct.writes is None and any(True for _ in ()):
            pass
        if "clk" in wr:
            nc = fresh("clk", I); st.assume(nc >= clk0); st.heap["clk"] = nc
        for m in sorted(wr):
            if m == "clk": continue
            if m.startswith("G:"):
                if m in mods: st.heap[m] = fresh(m, self.map_sort(m))
                continue
            old = st.H(m)
            if m.startswith("ghost:") and m not in mods and m not in ct.ghost_writes and not any(m in self.contracts[x].ghost_writes for x in self.contracts):
                continue
            new = fresh(m, old.sort())
            st.heap[m] = new
            mod = mods.get(m, [])
            if mod == "any": continue
            r = bound("r")
            if callable(mod): keep = Or(r == 0, Not(mod(r)))
            else: keep = Or(r == 0, And(*[r != x for x in mod])) if mod else TRUE
            st.assume(forall(r, Implies(And(r < clk0, keep) if "clk" in wr else keep, new[r] == old[r]), [new[r]]))
        res = None
        if rt.k != "void":
            res = self.symbol("res_" + ct.name, rt)
        c = Ctx(self, pre, st, vs, res)
        for lab, g in ct.ensures(c): st.assume(g)
        return [(st, res)]

    def apply_with_cells(self, ct, vs, st, line, rt):
        moved = []
        vs2 = []
        for v in vs:
            if isinstance(v, LRef):
                cur = self.read(st, v.lv, line)
                t = T("real") if not isinstance(cur, Ptr) and z3.is_real(cur) else (T("ptr") if isinstance(cur, Ptr) else T("int"))
                b = self.newbox(st, t); st.assume(LEN(b) == 1)
                self.write(st, ("mem", t, b, iv(0)), cur, line)
                moved.append((v.lv, t, b)); vs2.append(Ptr(b))
            else: vs2.append(v)
        out = self.apply_contract(ct, vs2, st, line, rt)
        for s, r in out:
            for lv, t, b in moved:
                self.write(s, lv, self.read(s, ("mem", t, b, iv(0)), line), line)
        return out

    # --------------------------------------------------------- write sets (syntactic, transitive)
    def writes_of(self, name, stack=()):
        if name in self.wcache: return self.wcache[name]
        if name in stack: return set()
        ct = self.contracts.get(name)
        if ct and ct.writes is not None:
            r = set(ct.writes) | {"ghost:" + g for g in ct.ghost_writes}
            self.wcache[name] = r; return r
        f = self.prog.find(name)
        r = set()
        if name in ("malloc", "calloc"): r = {"clk"}
        elif name == "realloc": r = {"clk", "freed", "M:real", "M:int", "M:ptr", "M:char"}
        elif name == "free": r = {"freed"}
        elif name in EXTERN_WRITES: r = set(EXTERN_WRITES[name])
        elif f:
            tu, fn = f
            body = [c for c in fn["inner"] if c.get("kind") == "CompoundStmt"][0]
            lw, hw = self.writes_in(body, tu, stack + (name,), fn)
            r = hw
        if ct: r = r | {"ghost:" + g for g in ct.ghost_writes}
        if ct and not stack: self.wcache[name] = r
        elif not stack: self.wcache[name] = r
        return r

    def writes_in(self, node, tu, stack=(), fn=None):
        """(local decl ids, heap maps) possibly written by the statement"""
        lw, hw = set(), set()
        def target(x):
            x = self.strip(x)
            while x["kind"] in ("ImplicitCastExpr", "CStyleCastExpr"): x = self.strip(x["inner"][0])
            k = x["kind"]
            if k == "DeclRefExpr":
                d = x["referencedDecl"]
                if d["kind"] in ("VarDecl", "ParmVarDecl"):
                    lw.add(d["id"])
                    if d["name"] in tu.globals:
                        t = tu.nty(tu.globals[d["name"]])
                        if t.scalar: hw.add("G:" + d["name"])
                    t = tu.ty(d["type"]["qualType"])
                    if t.scalar and d["id"] in boxed_ids: hw.add(mem_name(t))
            elif k == "MemberExpr":
                bt = tu.nty(x["inner"][0])
                sn = bt.a.a if x.get("isArrow") else bt.a
                t = self.any_field_type(sn, x["name"])
                if t.scalar: hw.add(f"F:{sn}.{x['name']}"); hw.update(self.union_mates(sn, x["name"]))
            elif k == "ArraySubscriptExpr" or (k == "UnaryOperator" and x["opcode"] == "*"):
                t = tu.nty(x)
                if t.scalar: hw.add(mem_name(t))
                elif t.k == "struct": structw(t.a)
            elif k == "ConditionalOperator":
                target(x["inner"][1]); target(x["inner"][2])
        def structw(sn):
            for t in self.prog.tus:
                if sn in t.records:
                    for f in t.records[sn]:
                        if t.field_type(sn, f).scalar: hw.add(f"F:{sn}.{f}")
                    return
        boxed_ids = set()
        def pre(x):
            if x.get("kind") == "UnaryOperator" and x["opcode"] == "&":
                y = self.strip(x["inner"][0])
                if y["kind"] == "DeclRefExpr": boxed_ids.add(y["referencedDecl"]["id"])
            for c in x.get("inner", []):
                if isinstance(c, dict) and "kind" in c: pre(c)
        pre(fn if fn else node)
        if self._allboxed: boxed_ids |= self._allboxed
        def walk(x):
            k = x.get("kind")
            if k == "BinaryOperator" and x["opcode"] == "=":
                target(x["inner"][0])
                t = tu.nty(x["inner"][0])
                if t.k == "struct": structw(t.a)
            elif k == "CompoundAssignOperator": target(x["inner"][0])
            elif k == "UnaryOperator" and x["opcode"] in ("++", "--"): target(x["inner"][0])
            elif k == "UnaryOperator" and x["opcode"] == "&":
                target(x["inner"][0])   # may be written through the pointer
            elif k == "VarDecl":
                lw.add(x["id"])
                t = tu.nty(x)
                if x["id"] in boxed_ids and t.scalar: hw.add(mem_name(t))
                if t.k == "struct": structw(t.a)
            elif k == "CallExpr":
                n = self.callee_name(x)
                if n in ("malloc", "calloc"):
                    hw.add("clk")
                    if n == "calloc":
                        hw.update({"M:real", "M:int", "M:ptr"})
                elif n:
                    hw.update(self.writes_of(n, stack))
            for c in x.get("inner", []):
                if isinstance(c, dict) and "kind" in c: walk(c)
        walk(node)
        return lw, hw
    _allboxed = set()

    # --------------------------------------------------------- statements
    def stmt(self, s, st):
        """-> list of (state, outcome, value)"""
        k = s.get("kind"); line = s.get("_line", 0)
        self.lines.add((self.tu.path, line))
        if k == "CompoundStmt": return self.block(s.get("inner", []), st)
        if k == "NullStmt" or not k: return [(st, NORMAL, None)]
        if k == "DeclStmt":
            sts = [st]
            out = []
            for d in s["inner"]:
                if d["kind"] != "VarDecl": continue
                n = []
                for x in sts:
                    for y in self.declare(d, x):
                        if isinstance(y, tuple): out.append((y[0], ABORT, None))
                        else: n.append(y)
                sts = n
            return out + [(x, NORMAL, None) for x in sts]
        if k == "IfStmt": return self.if_stmt(s, st)
        if k in ("WhileStmt", "ForStmt", "DoStmt"): return self.loop(s, st)
        if k == "SwitchStmt": return self.switch(s, st)
        if k == "BreakStmt": return [(st, BRK, None)]
        if k == "ContinueStmt": return [(st, CONT, None)]
        if k == "ReturnStmt":
            if not s.get("inner"): return [(st, RET, None)]
            return [(x, ABORT if v is ABORT else RET, v) for x, v in self.ev(s["inner"][0], st)]
        if k in ("CaseStmt", "DefaultStmt", "LabelStmt"):
            inner = s["inner"][-1]
            return self.stmt(inner, st)
        if k == "GotoStmt": return [(st, ("goto", s["targetLabelDeclId"]), None)]
        # expression statement
        return [(x, ABORT if v is ABORT else NORMAL, None) for x, v in self.ev(s, st)]

    def block(self, items, st):
        cur, out = [st], []
        labels = {}                       # forward jumps to a label of this block
        for it in items:
            x = it
            while isinstance(x, dict) and x.get("kind") in ("LabelStmt", "CaseStmt", "DefaultStmt"):
                if x["kind"] == "LabelStmt": labels[x["declId"]] = []
                x = x["inner"][-1]
        for it in items:
            if not isinstance(it, dict) or "kind" not in it: continue
            x = it
            while x.get("kind") in ("LabelStmt", "CaseStmt", "DefaultStmt"):
                if x["kind"] == "LabelStmt": cur = cur + labels.pop(x["declId"])
                x = x["inner"][-1]
            nxt = []
            for s in cur:
                for s2, oc, v in self.stmt(it, s):
                    if oc == NORMAL: nxt.append(s2)
                    elif isinstance(oc, tuple) and oc[1] in labels: labels[oc[1]].append(s2)
                    else: out.append((s2, oc, v))
            cur = nxt
            if not cur and not any(labels.values()): break
            if len(cur) > 400: raise ExtractionError("too many paths")
        return out + [(s, NORMAL, None) for s in cur]

    def branch(self, c, st):
        """condition c -> [(state, truth term)] with forks on calls"""
        return [(s, ABORT if v is ABORT else self.truth(v)) for s, v in self.ev(c, st)]

    def if_stmt(self, s, st):
        inn = s["inner"]; c = inn[0]; th = inn[1]; el = inn[2] if len(inn) > 2 else None
        out = []
        for x, t in self.branch(c, st):
            if t is ABORT: out.append((x, ABORT, None)); continue
            ts = z3.simplify(t)
            if z3.is_true(ts): out += self.stmt(th, x); continue
            if z3.is_false(ts):
                out += self.stmt(el, x) if el else [(x, NORMAL, None)]; continue
            base = len(x.pc)
            y = x.copy()
            x.assume(t); y.assume(Not(t))
            ro = []
            if self.feasible(x): a = self.stmt(th, x)
            else: a = []
            if self.feasible(y): b = self.stmt(el, y) if el else [(y, NORMAL, None)]
            else: b = []
            if self.contract.merge and len(a) == 1 and len(b) == 1 and a[0][1] == NORMAL and b[0][1] == NORMAL:
                m = self.merge(a[0][0], b[0][0], t, base)
                if m: out.append((m, NORMAL, None)); continue
            out += self.join(a + b, base) if self.contract.merge == "heap" else a + b
        return out

    def merge(self, x, y, t, base):
        if x.boxes != y.boxes: return None
        for m in set(x.heap) | set(y.heap):
            if not x.H(m).eq(y.H(m)): return None
        r = x.copy()
        for v in list(x.vars):
            if v not in y.vars: r.vars.pop(v, None); continue
            a, b = x.vars[v], y.vars[v]
            if a is b: continue
            if isinstance(a, (set, int, str)) or isinstance(b, (set, int, str)): continue
            if isinstance(a, (LRef, SizeV, StV, FnV)) or isinstance(b, (LRef, SizeV, StV, FnV)): return None
            if isinstance(a, Ptr) != isinstance(b, Ptr): return None
            r.vars[v] = ite(t, a, b, self)
        r.pc = x.pc[:base]
        ex = x.pc[base + 1:]; ey = y.pc[base + 1:]
        for f in ex: r.pc.append(Implies(t, f))
        for f in ey: r.pc.append(Implies(Not(t), f))
        return r

    def join(self, outs, base):
        """outcomes of the branches of one statement with the normal ones joined into one state: every path gets a name, and
        what the path assumed and computed holds if that name does"""
        ns = [s for s, oc, _ in outs if oc == NORMAL]; rest = [o for o in outs if o[1] != NORMAL]
        if len(ns) < 2: return outs
        if any(s.boxes != ns[0].boxes for s in ns): return outs
        r = ns[0].copy(); r.pc = ns[0].pc[:base]; gs = [fresh("path", z3.BoolSort()) for _ in ns]
        new, eqs = {}, []
        for m in sorted(set().union(*[set(s.heap) for s in ns])):
            hs = [s.H(m) for s in ns]
            if all(h.eq(hs[0]) for h in hs): new[m] = hs[0]; continue
            new[m] = fresh(m + "j", hs[0].sort()); eqs += [Implies(g, new[m] == h) for g, h in zip(gs, hs)]
        vs = {}
        for v in ns[0].vars:
            if not all(v in s.vars for s in ns): continue
            xs = [s.vars[v] for s in ns]
            if all(x is xs[0] for x in xs): vs[v] = xs[0]; continue
            if all(isinstance(x, Ptr) for x in xs):
                if all(x.b.eq(xs[0].b) and x.o.eq(xs[0].o) for x in xs): vs[v] = xs[0]; continue
                p = Ptr(fresh("pj", I), fresh("pjo", I)); vs[v] = p
                eqs += [Implies(g, And(p.b == x.b, p.o == x.o)) for g, x in zip(gs, xs)]; continue
            if all(z3.is_expr(x) for x in xs):
                xs = [b2i(x) if z3.is_bool(x) else x for x in xs]
                if any(z3.is_real(x) for x in xs): xs = [z3.ToReal(x) if z3.is_int(x) else x for x in xs]
                if all(x.eq(xs[0]) for x in xs): vs[v] = xs[0]; continue
                p = fresh("vj", xs[0].sort()); vs[v] = p; eqs += [Implies(g, p == x) for g, x in zip(gs, xs)]; continue
            if all(x is None for x in xs): vs[v] = None; continue
            if any(x is None for x in xs): continue
            return outs
        r.heap = new; r.vars = vs
        r.pc.append(Or(*gs))
        for g, s in zip(gs, ns):
            for f in s.pc[base:]: r.pc.append(Implies(g, f))
        r.pc += eqs
        return rest + [(r, NORMAL, None)]

    def switch(self, s, st):
        c = s["inner"][0]; body = s["inner"][-1]
        items = []   # flattened: ('label', value|None) / stmt
        def flat(x):
            if x["kind"] == "CaseStmt":
                items.append(("case", x["inner"][0])); flat(x["inner"][-1])
            elif x["kind"] == "DefaultStmt":
                items.append(("default", None)); flat(x["inner"][-1])
            else: items.append(("stmt", x))
        for x in body.get("inner", []): 
            if isinstance(x, dict) and "kind" in x: flat(x)
        out = []
        for x, v in self.ev(c, st):
            v = self.num(v)
            cases = [(i, self.ev1(it[1], x)) for i, it in enumerate(items) if it[0] == "case"]
            default = [i for i, it in enumerate(items) if it[0] == "default"]
            todo = [(i, v == cv) for i, cv in cases]
            none = And(*[v != cv for _, cv in cases]) if cases else TRUE
            if default: todo.append((default[0], none))
            else: todo.append((len(items), none))
            base = len(x.pc); mine = []
            for start, cond in todo:
                y = x.copy(); y.assume(cond)
                if z3.is_false(z3.simplify(cond)) or not self.feasible(y): continue
                for z, oc, rv_ in self.block([it[1] for it in items[start:] if it[0] == "stmt"], y):
                    mine.append((z, NORMAL if oc == BRK else oc, rv_))
            out += self.join(mine, base) if self.contract.merge == "heap" else mine
        return out

    # --------------------------------------------------------- loops
    def loop(self, s, st):
        k = s["kind"]; line = s.get("_line", 0); inn = s["inner"]
        if k == "ForStmt":
            init, cvar, cond, inc, body = (inn + [{}] * 5)[:5]
        elif k == "WhileStmt": init, cond, inc, body = {}, inn[0], {}, inn[-1]
        else: init, cond, inc, body = {}, inn[1], {}, inn[0]
        if k == "DoStmt":
            cv = self.const_cond(cond)
            if cv is False:
                return [(x, NORMAL if oc in (BRK, CONT) else oc, v) for x, oc, v in self.stmt(body, st)]
        sts = [st]
        pre_out = []
        if init.get("kind"):
            sts = []
            for x, oc, v in self.stmt(init, st):
                if oc == NORMAL: sts.append(x)
                else: pre_out.append((x, oc, v))
        out = pre_out
        for x in sts: out += self.loop1(s, k, cond, inc, body, x, line)
        return out

    def const_cond(self, c):
        c = self.strip(c)
        while c["kind"] in ("ImplicitCastExpr", "ParenExpr"): c = c["inner"][0]
        if c["kind"] == "IntegerLiteral": return int(c["value"]) != 0
        return None

    def loop1(self, s, k, cond, inc, body, st, line):
        key = (s["id"], self.call_chain)
        if key not in self.loop_ids: self.loop_ids[key] = len(self.loop_ids)
        idx = self.loop_ids[key]
        specs = self.contract.loops
        spec = specs[idx] if idx < len(specs) else Loop()
        lw, hw = set(), set("ghost:" + g for g in spec.gw)
        for part in (cond, inc, body):
            if part.get("kind"):
                a, b = self.writes_in(part, self.tu, (), None); lw |= a; hw |= b
        # calls that were inlined into this loop may write boxed locals
        for vid in list(lw):
            if vid in st.boxes:
                pass
        for vid, b in st.boxes.items():
            if vid in lw or True: pass
        if spec.ginit:
            for gm, tm in spec.ginit(self.mkctx(st, st, iv(0), self.names_of(st), [])).items(): self.set_ghost(st, gm, tm)
        entry = st.copy()
        mods_fn = self.contract.modifies(Ctx(self, self.entry_state, entry, self.entry_args))
        decl_in = set()
        def decls(x):
            if x.get("kind") == "VarDecl": decl_in.add(x["id"])
            for c in x.get("inner", []):
                if isinstance(c, dict) and "kind" in c: decls(c)
        for part in (cond, inc, body):
            if part.get("kind"): decls(part)
        names = self.names_of(st)
        modified = [v for v in lw if v in st.vars and v not in decl_in]
        cands = self.candidates(st, spec, modified, entry, names)
        kept, has = [], set()
        dead = self.dead_at_head(modified, cond, body, inc)
        for cd in cands:
            v, kind = cd[0][0], cd[0][1]
            if v in dead or cd[0] in self.known_drops.get(idx, ()): continue
            if kind == "cursor" and v in has: continue
            if kind == "base" and not self.steps_ptr(v, cond, inc, body): continue
            if kind in ("up", "down") and kind not in self.steps_int(v, cond, inc, body): continue
            if self.quick(entry, cd[1](entry, iv(0), entry)):
                kept.append(cd)
                if kind == "cursor": has.add(v)
        cands = kept
        for v in modified:
            if isinstance(st.vars[v], (Ptr, z3.ExprRef)): cands.append(((v, "same"), None))
        for m in hw: cands.append(((m, "same"), None))
        if os.environ.get("VC_DEBUG"): print("   loop", idx + 1, "line", line, "candidates on entry:", [(names.get(c[0][0]), *c[0][1:]) for c in cands], "modified", [names.get(v) for v in modified])
        # candidates this loop lost in every visit of an earlier, stronger-hypothesis attempt of an enclosing loop
        known = self.known_drops.get(idx, set()); cands = [c for c in cands if c[0] not in known]
        visit = set(known)
        nobs = len(self.obs); seen0 = set(self.seen); ids0 = dict(self.loop_ids); box0 = self.box_n
        for attempt in range(14):
            del self.obs[nobs:]; self.seen = set(seen0); self.loop_ids = dict(ids0)
            mark = len(self.drop_log)
            bad, outs = self.loop_body(k, cond, inc, body, st.copy(), line, spec, idx, modified, hw, entry, mods_fn, cands, names)
            if os.environ.get("VC_DEBUG"): print("   loop", idx + 1, "dropped:", [(names.get(c[0]), *c[1:]) for c in bad])
            if not bad:
                self.drop_log.append((idx, visit)); return outs
            cands = [c for c in cands if c[0] not in bad]; visit |= bad
            inner = {}
            for i, d in self.drop_log[mark:]: inner[i] = inner[i] & d if i in inner else set(d)
            del self.drop_log[mark:]
            for i, d in inner.items(): self.known_drops[i] = self.known_drops.get(i, set()) | d
        raise ExtractionError("loop candidates do not stabilise")

    def names_of(self, st):
        return {v: n for v, n in self.decl_names.items() if v in st.vars or v in st.boxes}

    def quick(self, st, goal, ms=800):
        r, _, _, _ = prove(st.pc, goal, ms, deep=False)
        return r == "proved"

    def candidates(self, st, spec, modified, entry, names):
        """automatic inductive candidates: counters and list cursors"""
        out = []
        if spec.nocand: return out
        for v in modified:
            val = st.vars[v]
            if isinstance(val, Ptr):
                b0 = val.b
                walks = spec.walk(self.mkctx(entry, entry, iv(0), names, modified)) if spec.walk else []
                for j, w in enumerate(walks):
                    out.append(((v, "cursor", j), (lambda stt, kk, en, v=v, w=w: stt.vars[v].b == w(kk, View(stt)))))
                if isz(z3.simplify(val.o)):
                    out.append(((v, "base"), (lambda stt, kk, en, v=v: And(stt.vars[v].b == en.vars[v].b, stt.vars[v].o == kk))))
            elif z3.is_int(val) and not isinstance(val, SizeV):
                out.append(((v, "up"), (lambda stt, kk, en, v=v: self.num(stt.vars[v]) == en.vars[v] + kk)))
                out.append(((v, "down"), (lambda stt, kk, en, v=v: self.num(stt.vars[v]) == en.vars[v] - kk)))
        return out

    def mkctx(self, entry, now, kk, names, modified):
        c = Ctx(self, self.entry_state, now, self.entry_args)
        c.k, c.at, c.names, c.modified, c.entry_st, c.now_st = kk, View(entry), names, modified, entry, now
        return c

    def local_by_name(self, c, name, like=None):
        """value of the local called `name`; if renamed, the only unmatched modified local of the same type"""
        st = c.now_st
        def val(v):
            if v in st.boxes:
                t = self.decl_types.get(v)
                r = self.read(st, ("mem", t, st.boxes[v], iv(0)), 0)
            else: r = st.vars[v]
            return r.b if isinstance(r, Ptr) else (b2i(r) if z3.is_bool(r) else r)
        best = None
        for v, n in c.names.items():
            if n == name and (v in st.vars or v in st.boxes): best = v
        if best is None:
            want = like
            pool = [v for v in list(c.modified) + [b for b in st.boxes] if v in self.decl_types and self.decl_names.get(v) not in self.spec_names]
            if want: pool = [v for v in pool if self.decl_types[v].k == want]
            pool = sorted(set(pool), key=lambda v: self.decl_order.get(v, 0))
            ch = self.trace_choice.get((name,), 0)
            if not pool: raise ExtractionError(f"annotation refers to local '{name}' which no longer exists")
            best = pool[min(ch, len(pool) - 1)]
        return val(best)

    def loop_body(self, k, cond, inc, body, st, line, spec, idx, modified, hw, entry, mods_fn, cands, names):
        tag = f"loop {idx + 1}"
        c0 = self.mkctx(entry, st, iv(0), names, modified)
        inv0 = spec.inv(c0) if spec.inv else []
        for lab, g in inv0: self.oblige(st, f"{tag} invariant holds on entry: {lab}", g, line, "inv")
        # ---- havoc
        kk = fresh("k", I)
        st.assume(kk >= 0)
        same = {c[0][0] for c in cands if c[0][1] == "same"}
        cands = [c for c in cands if c[0][1] != "same"]
        for v in modified:
            val = st.vars[v]
            nm = self.decl_names.get(v, "v")
            if v in same: continue
            if isinstance(val, Ptr):
                st.vars[v] = Ptr(fresh(nm, I), fresh(nm + "_o", I) if not isz(z3.simplify(val.o)) or self.steps_ptr(v, cond, inc, body) else None)
            elif isinstance(val, (SizeV, LRef, FnV)): raise ExtractionError("loop over size/function values")
            elif isinstance(val, StV): pass
            elif z3.is_real(val): st.vars[v] = fresh(nm, R)
            else: st.vars[v] = fresh(nm, I)
        clk_e = entry.clk
        lm = dict(mods_fn)
        if spec.mods:
            for m, x in spec.mods(c0).items():
                if x == "any": lm[m] = "any"
                elif spec.only: lm[m] = x
                elif callable(x):
                    prev = lm.get(m, [])
                    if callable(prev) or prev == "any": lm[m] = x if callable(prev) else prev
                    else: lm[m] = (lambda r, x=x, prev=prev: Or(x(r), *[r == y for y in prev]))
                elif callable(lm.get(m)):
                    prev = lm[m]; lm[m] = (lambda r, x=x, prev=prev: Or(prev(r), *[r == y for y in x]))
                elif lm.get(m) != "any": lm[m] = list(lm.get(m, [])) + list(x)
        hw = set(hw)
        frames = []
        boxes = [b for b in entry.boxes.values()]
        for m in sorted(hw):
            if m in same:
                st.H(m); continue
            if m == "clk":
                nc = fresh("clk", I); st.assume(nc >= clk_e); st.heap["clk"] = nc; continue
            if m.startswith("G:"):
                st.heap[m] = fresh(m, self.map_sort(m)); continue
            old = st.H(m); new = fresh(m, old.sort()); st.heap[m] = new
            mod = lm.get(m, [])
            if mod == "any": continue
            allowed = mod if callable(mod) else (lambda r, mod=mod: Or(*[r == x for x in mod]) if mod else FALSE)
            # boxed locals of this class may change too
            if m.startswith("M:"):
                al0 = allowed
                allowed = lambda r, al0=al0: Or(al0(r), *[r == b for b in boxes])
            al1 = allowed
            allowed = lambda r, al1=al1: And(r != 0, al1(r))
            r = bound("r")
            st.assume(forall(r, Implies(And(r < clk_e if "clk" in hw else TRUE, Not(allowed(r))), new[r] == old[r]), [new[r]]))
            frames.append((m, allowed, old))
        en_for = entry
        def assume_inv(state, kterm):
            c = self.mkctx(entry, state, kterm, names, modified)
            for nm, f in cands: state.assume(f(state, kterm, entry))
            if spec.inv:
                for lab, g in spec.inv(c): state.assume(g)
            if spec.hints:
                for h in spec.hints(c): state.assume(h)
        assume_inv(st, kk)
        bterm = spec.bound(self.mkctx(entry, st, kk, names, modified)) if spec.bound else None
        if bterm is not None: st.assume(kk <= bterm)
        outs, bad = [], set()
        # ---- condition
        conds = [(st, TRUE)]
        if k != "DoStmt" and cond.get("kind"):
            conds = self.branch(cond, st)
        exits, enters = [], []
        for x, t in conds:
            if t is ABORT: outs.append((x, ABORT, None)); continue
            ts = z3.simplify(t)
            y = x.copy()
            if not z3.is_true(ts):
                y.assume(Not(t))
                if self.feasible(y): exits.append(y)
            if not z3.is_false(ts):
                x.assume(t)
                if self.feasible(x): enters.append(x)
        if bterm is not None:
            self.oblige(entry, f"{tag} bound non-negative", spec.bound(self.mkctx(entry, entry, iv(0), names, modified)) >= 0, line, "inv")
        for x in enters:
            if bterm is not None:
                self.oblige(x, f"{tag} terminates: iteration count below its bound", kk < bterm, line, "term")
            vterm = spec.variant(self.mkctx(entry, x, kk, names, modified)) if spec.variant else None
            if vterm is not None:
                self.oblige(x, f"{tag} terminates: variant non-negative", vterm >= 0, line, "term")
            for y, oc, v in self.stmt(body, x):
                if oc in (NORMAL, CONT):
                    zs = [(y, TRUE)]
                    if inc.get("kind"):
                        zs = []
                        for z, v2 in self.ev(inc, y): zs.append((z, TRUE))
                    if k == "DoStmt":
                        z2 = []
                        for z, _ in zs:
                            for w, t in self.branch(cond, z):
                                ts = z3.simplify(t)
                                e2 = w.copy(); e2.assume(Not(t))
                                if not z3.is_true(ts) and self.feasible(e2): exits.append(e2)
                                if not z3.is_false(ts):
                                    w.assume(t); z2.append((w, TRUE))
                        zs = z2
                    for z, _ in zs:
                        if not self.feasible(z): continue
                        if spec.ghost:
                            cg = self.mkctx(entry, z, kk, names, modified)
                            for gm, tm in spec.ghost(cg).items(): self.set_ghost(z, gm, tm)
                        kn = kk + 1
                        for v in same:
                            if v in hw:
                                if not z.H(v).eq(entry.H(v)): bad.add((v, "same"))
                            else:
                                a, b = z.vars.get(v), entry.vars[v]
                                if isinstance(a, Ptr) and isinstance(b, Ptr): ok = a.b.eq(b.b) and a.o.eq(b.o)
                                else: ok = isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef) and a.eq(b)
                                if not ok: bad.add((v, "same"))
                        if any(x[1] == "same" for x in bad): continue
                        for nm, f in cands:
                            if not self.quick(z, f(z, kn, entry), 3000): bad.add(nm)
                        if bad: continue
                        c2 = self.mkctx(entry, z, kn, names, modified)
                        if spec.hints:
                            for h in spec.hints(c2): z.assume(h)
                        if spec.inv:
                            for lab, g in spec.inv(c2): self.oblige(z, f"{tag} invariant preserved: {lab}", g, line, "inv")
                        if vterm is not None:
                            self.oblige(z, f"{tag} terminates: variant decreases", spec.variant(c2) < vterm, line, "term")
                        for m, allowed, old in frames:
                            r = fresh("r", I)
                            cur = z.H(m)
                            self.oblige(z, f"{tag} changes only what it may: {m}", Implies(And(r < clk_e if "clk" in hw else TRUE, Not(allowed(r))), Sel(cur, r) == Sel(old, r)), line, "frame")
                        for m in set(z.heap):
                            if m in hw or m == "clk": continue
                            if m.startswith("ghost:") and spec.ghost: continue
                            if m in entry.heap and not z.heap[m].eq(entry.heap[m]) or (m not in entry.heap and not z.heap[m].eq(self.init_map(m))):
                                raise ExtractionError(f"loop writes {m}, not in the computed write set")
                elif oc == BRK: exits.append(y)
                else: outs.append((y, oc, v))
        for y in exits: outs.append((y, NORMAL, None))
        return bad, outs

    def dead_at_head(self, vs, cond, body, inc):
        """variables whose first occurrence in an iteration is being assigned (no candidate facts are tried for them)"""
        first = {}
        def ref(x):
            y = x
            while y.get("kind") in ("ParenExpr",) and y.get("inner"): y = y["inner"][0]
            return y["referencedDecl"]["id"] if y.get("kind") == "DeclRefExpr" else None
        def walk(x):
            if x.get("kind") == "BinaryOperator" and x.get("opcode") == "=":
                l, r = x["inner"]
                walk(r)
                i = ref(l)
                if i is None: walk(l)
                else: first.setdefault(i, "w")
                return
            if x.get("kind") == "DeclRefExpr": first.setdefault(x["referencedDecl"]["id"], "r")
            for c in x.get("inner", []):
                if isinstance(c, dict) and "kind" in c: walk(c)
        for p in (cond, body, inc):
            if p.get("kind"): walk(p)
        return {v for v in vs if first.get(v) == "w"}

    def steps_int(self, v, cond, inc, body):
        out = set()
        def names(x): return (x.get("kind") == "DeclRefExpr" and x["referencedDecl"]["id"] == v) or any(names(c) for c in x.get("inner", []) if isinstance(c, dict) and "kind" in c)
        def walk(x):
            kd, op = x.get("kind"), x.get("opcode")
            if kd in ("UnaryOperator", "CompoundAssignOperator", "BinaryOperator") and op in ("++", "--", "+=", "-=", "="):
                y = self.strip(x["inner"][0])
                if y.get("kind") == "DeclRefExpr" and y["referencedDecl"]["id"] == v:
                    if op in ("++", "+="): out.add("up")
                    elif op in ("--", "-="): out.add("down")
                    elif names(x["inner"][1]): out.update(("up", "down"))
                elif op != "=" and y.get("kind") != "DeclRefExpr": out.update(("up", "down")) if names(y) else None
            if kd == "CallExpr" and any(names(c) for c in x.get("inner", [])[1:] if isinstance(c, dict) and "kind" in c and c.get("kind") == "UnaryOperator"): out.update(("up", "down"))
            for c in x.get("inner", []):
                if isinstance(c, dict) and "kind" in c: walk(c)
        for p in (cond, inc, body):
            if p.get("kind"): walk(p)
        return out

    def steps_ptr(self, v, cond, inc, body):
        found = [False]
        def walk(x):
            if x.get("kind") == "UnaryOperator" and x["opcode"] in ("++", "--") or x.get("kind") == "CompoundAssignOperator":
                y = self.strip(x["inner"][0])
                if y["kind"] == "DeclRefExpr" and y["referencedDecl"]["id"] == v: found[0] = True
            for c in x.get("inner", []):
                if isinstance(c, dict) and "kind" in c: walk(c)
        for p in (cond, inc, body):
            if p.get("kind"): walk(p)
        return found[0]

    def set_ghost(self, st, gm, tm):
        """ghost assignment, through a named constant so that patterns stay simple"""
        if tm.eq(st.H("ghost:" + gm)): return
        if not z3.is_const(tm):
            nm = fresh("gh_" + gm, tm.sort()); st.assume(nm == tm); tm = nm
        st.heap["ghost:" + gm] = tm

    # --------------------------------------------------------- whole function
    def collect_decls(self):
        self.decl_names, self.decl_types, self.decl_order = {}, {}, {}
        allboxed = set()
        for t in self.prog.tus:
            def walk(x, tu):
                if x.get("kind") in ("VarDecl", "ParmVarDecl") and x.get("name"):
                    self.decl_names[x["id"]] = x["name"]
                    try: self.decl_types[x["id"]] = tu.nty(x)
                    except ExtractionError: pass
                    self.decl_order[x["id"]] = len(self.decl_order)
                for c in x.get("inner", []):
                    if isinstance(c, dict) and "kind" in c: walk(c, tu)
            for f in t.funcs.values():
                if t is self.tu or True: walk(f, t)

    def run(self):
        self.known_drops, self.drop_log = {}, []
        self.collect_decls()
        ct = self.contract
        self.spec_names = set(getattr(ct, "local_names", ()))
        st = State(self)
        vs = []
        ps = [c for c in self.fn.get("inner", []) if c.get("kind") == "ParmVarDecl"]
        for p in ps:
            t = self.tu.nty(p)
            if t.k == "arr": t = T("ptr", t.a)
            v = self.symbol("arg_" + p.get("name", ""), t)
            if isinstance(v, Ptr) and len(vs) in ct.interior: v = Ptr(v.b, fresh("off_" + p.get("name", ""), I))
            vs.append(v)
        self.entry_args = vs
        st.assume(st.clk > 0)
        st.assume(INF > 0)
        self.entry_state = st.copy()
        self.entry_state.heap = {}
        c0 = Ctx(self, self.entry_state, st, vs)
        # the view of the entry state is shared lazily: same initial map constants
        for lab, g in ct.requires(c0): st.assume(g)
        for i, v in enumerate(vs):
            if isinstance(v, Ptr): st.assume(v.b < st.clk)
        self.entry_state.pc = list(st.pc)
        self.pre_pc = list(st.pc)
        if ct.ehints:
            for h in ct.ehints(c0): st.assume(h)
        for p, v in zip(ps, vs): st.vars[p["id"]] = v
        body = [c for c in self.fn["inner"] if c.get("kind") == "CompoundStmt"][0]
        self.box_addressed(st, self.fn, body)
        rt = self.tu.ty(self.fn["type"]["qualType"].split("(")[0])
        outs = self.stmt(body, st)
        for s, oc, v in outs:
            line = self.fn.get("_line", 0)
            if oc == ABORT:
                if not ct.abort_ok:
                    self.oblige(s, "program does not abort here", FALSE, s.vars.get("__abort", line), "abort")
                continue
            if oc not in (RET, NORMAL): raise ExtractionError("stray break")
            self.reached_exit += 1
            res = None
            if rt.k != "void":
                res = self.convert(v, rt) if v is not None and rt.scalar else v
                if res is None: res = self.symbol("noret", rt)
                if z3.is_bool(res): res = b2i(res)
            c = Ctx(self, self.entry_state, s, vs, res)
            if ct.ghost_exit:
                for gm, tm in ct.ghost_exit(c).items(): self.set_ghost(s, gm, tm)
                c = Ctx(self, self.entry_state, s, vs, res)
            if ct.hints:
                for h in ct.hints(c): s.assume(h)
            for lab, g in ct.ensures(c):
                self.oblige(s, f"postcondition: {lab}", g, line, "post")
                if ct.chain: s.assume(g)
            # frame
            mods = ct.modifies(Ctx(self, self.entry_state, self.entry_state, vs))
            for m in sorted(s.heap):
                if m in ("clk",) or m in ct.skip_frame: continue
                cur, old = s.heap[m], self.init_map(m)
                if cur.eq(old): continue
                if m.startswith("G:"):
                    if m not in mods: self.oblige(s, f"frame: {m} unchanged", cur == old, line, "frame")
                    continue
                mod = mods.get(m, [])
                if mod == "any": continue
                r = fresh("r", I)
                keep = Not(mod(r)) if callable(mod) else And(*[r != x for x in mod]) if mod else TRUE
                self.oblige(s, f"frame: {m}", Implies(And(r < self.init_map("clk") if "clk" in self.writes_of(self.fname) else TRUE, Or(r > 0, r < -self.box_n), keep), Sel(cur, r) == Sel(old, r)), line, "frame")
        if self.reached_exit == 0: raise ExtractionError("no path reaches the end of the function")
        return self.obs

_kinds = {"real": 1, "int": 2, "char": 3, "ptr": 4}
def kind_of(t):
    """immutable run-time kind of a block: element type it was allocated for"""
    if isinstance(t, str): return iv(_kinds.setdefault(t, len(_kinds) + 1))
    return kind_of(t.a if t.k == "struct" else t.k)
GHOSTS = {}
FRESH_GHOST = ()
OWNER_GHOST = ()
GAP_GHOST = ()
GLOBREF = {}
def glob_ref_of(name):
    """fixed address of a global array / struct"""
    if name in GLOBREF: return iv(-GLOBREF[name])
    h = 5000 + (sum((i + 1) * ord(c) for i, c in enumerate(name)) % 90000)
    while h in GLOBREF.values(): h += 100000
    GLOBREF[name] = h
    return iv(-h)
EXTERN = {}
EXTERN_WRITES = {}

def same_size(a, b):
    if a == b: return True
    if a.k == b.k == "ptr": return True
    if {a.k, b.k} <= {"real", "ptr"}: return True
    if a.k == "int" and b.k == "int": return True
    return False

def text_code(t): return int.from_bytes(t.encode(), "big")
def str_id(st, p):
    return p.b

def b2i(v):
    v2 = z3.simplify(v) if z3.is_bool(v) else v
    if z3.is_true(v2): return iv(1)
    if z3.is_false(v2): return iv(0)
    return If(v, iv(1), iv(0))

def coerce(a, b):
    if z3.is_bool(a): a = b2i(a)
    if z3.is_bool(b): b = b2i(b)
    if z3.is_real(a) and z3.is_int(b): b = rv(b.as_long()) if z3.is_int_value(b) else z3.ToReal(b)
    if z3.is_real(b) and z3.is_int(a): a = rv(a.as_long()) if z3.is_int_value(a) else z3.ToReal(a)
    return a, b

def ite(t, a, b, ex):
    if a is b: return a
    if a is None or b is None: return None
    if isinstance(a, Ptr) or isinstance(b, Ptr):
        if not (isinstance(a, Ptr) and isinstance(b, Ptr)): raise ExtractionError("ite of pointer kinds")
        o = a.o if a.o.eq(b.o) else If(t, a.o, b.o)
        return Ptr(a.b if a.b.eq(b.b) else If(t, a.b, b.b), o)
    if isinstance(a, SizeV) or isinstance(b, SizeV): a, b = ex.num(a), ex.num(b)
    if z3.is_bool(a) and z3.is_bool(b): return If(t, a, b)
    a, b = coerce(a, b)
    if a.eq(b): return a
    return If(t, a, b)

def split_goal(g):
    if z3.is_and(g):
        r = []
        for c in g.children(): r += split_goal(c)
        return r
    if z3.is_implies(g):
        a, b = g.children()
        if z3.is_and(b): return [x for y in b.children() for x in split_goal(Implies(a, y))]
    return [g]
