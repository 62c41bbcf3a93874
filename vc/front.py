"""C front end: clang's own AST (JSON) of the real /repo sources, read on every run.

Nothing is hand-copied: every function body that is verified is the body clang
parsed, after preprocessing with the same flags the build uses.
"""
import json, os, re, subprocess, hashlib, tempfile

class ExtractionError(Exception):
    """the source uses something the verifier's C subset does not cover, or an
    annotation no longer attaches: a tool limit, never a violation."""

REPO = os.environ.get("VERIF_REPO", "/repo")

def cflags(repo=None):
    r = repo or REPO
    return ["-DHAVE_CONFIG_H", "-I" + r + "/src", "-I" + r, "-I" + r + "/src/mdp",
            "-I" + r + "/src/lp-solve", "-I" + r + "/src/laspack"]

# ---------------------------------------------------------------- types
INTS = {"int", "unsigned int", "long", "unsigned long", "short", "unsigned short",
        "long long", "unsigned long long", "_Bool", "unsigned", "size_t", "long int"}
CHARS = {"char", "signed char", "unsigned char"}
REALS = {"double", "float", "long double"}

class T:
    __slots__ = ("k", "a", "n")
    def __init__(s, k, a=None, n=None): s.k, s.a, s.n = k, a, n
    def __eq__(s, o): return isinstance(o, T) and (s.k, s.a, s.n) == (o.k, o.a, o.n)
    def __hash__(s): return hash((s.k, s.a, s.n))
    def __repr__(s):
        if s.k == "ptr": return f"{s.a}*"
        if s.k == "arr": return f"{s.a}[{s.n}]"
        return f"{s.k}:{s.a}" if s.a else s.k
    @property
    def scalar(s): return s.k in ("int", "real", "char", "ptr")

UNIONS = set()      # names of union types: writing one member leaves the others undefined
def strip_q(s):
    s = re.sub(r"\b(const|volatile|restrict|__restrict|register|enum)\b", " ", s)
    return re.sub(r"\s+", " ", s).strip()

class TU:
    """one translation unit"""
    def __init__(self, path, repo=None, actual=None):
        self.path = path
        self.actual = actual or path      # regenerated parser/scanner, when only the grammar was edited
        self.repo = repo or REPO
        self.funcs, self.globals, self.records, self.typedefs, self.enums = {}, {}, {}, {}, {}
        self.protos = {}
        self._tcache = {}
        self.load()

    def load(self):
        cmd = ["clang", "-Xclang", "-ast-dump=json", "-fsyntax-only", "-w", "-std=gnu11"] + (["-I" + os.path.dirname(self.actual)] if self.actual != self.path else []) + cflags(self.repo) + [self.actual]
        p = subprocess.run(cmd, capture_output=True, cwd=os.path.dirname(self.path))
        if p.returncode != 0 or not p.stdout:
            raise ExtractionError(f"clang could not parse {self.path}: {p.stderr.decode()[:800]}")
        d = json.loads(p.stdout)
        self.last_line, self.last_file = 0, None
        self.anon = {}
        for n in d["inner"]:
            self.loc(n)
            k = n.get("kind")
            if k == "TypedefDecl":
                # anonymous struct/enum typedefs are resolved by decl id
                self.typedefs[n["name"]] = n["type"]["qualType"]
                o = self.owned(n)
                if o: self.typedefs[n["name"]] = o
            elif k == "RecordDecl":
                if n.get("completeDefinition"):
                    name = n.get("name") or ("anon_" + n["id"])
                    self.anon[n["id"]] = name
                    self.addrec(n, name)
            elif k == "EnumDecl":
                self.addenum(n)
            elif k == "VarDecl":
                if n.get("name"):
                    if n["name"] not in self.globals or "init" in n or n.get("storageClass") != "extern": self.globals[n["name"]] = n
            elif k == "FunctionDecl":
                self.protos.setdefault(n["name"], n)
                if any(c.get("kind") == "CompoundStmt" for c in n.get("inner", [])):
                    self.funcs[n["name"]] = n

    def owned(self, n):
        def f(x):
            d = x.get("ownedTagDecl") or {}
            if d.get("id") in self.anon: return "struct " + self.anon[d["id"]]
            if d.get("kind") == "EnumDecl": return "int"
            for c in x.get("inner", []):
                if isinstance(c, dict):
                    r = f(c)
                    if r: return r
        for c in n.get("inner", []):
            if c.get("kind") in ("ElaboratedType",) or "ownedTagDecl" in c:
                return f(c)
        return None

    def addrec(self, n, name):
        fields = {}
        for c in n.get("inner", []):
            if c.get("kind") == "FieldDecl":
                fields[c.get("name", "")] = c["type"]["qualType"]
            elif c.get("kind") == "RecordDecl" and c.get("completeDefinition"):
                nm = c.get("name") or ("anon_" + c["id"])
                self.anon[c["id"]] = nm
                self.addrec(c, nm)
            elif c.get("kind") == "EnumDecl": self.addenum(c)
        self.records[name] = fields
        if n.get("tagUsed") == "union": UNIONS.add(name)

    def addenum(self, n):
        v = 0
        for c in n.get("inner", []):
            if c.get("kind") == "EnumConstantDecl":
                for x in c.get("inner", []):
                    iv = self.const_of(x)
                    if iv is not None: v = iv
                self.enums[c["name"]] = v
                v += 1

    def const_of(self, x):
        if "value" in x and x.get("kind") in ("ConstantExpr", "IntegerLiteral"):
            try: return int(x["value"])
            except ValueError: return None
        for c in x.get("inner", []):
            r = self.const_of(c)
            if r is not None: return r
        return None

    def loc(self, n):
        """annotate nodes with absolute line numbers (clang prints them as deltas)"""
        def one(l):
            if not isinstance(l, dict): return None
            if "spellingLoc" in l or "expansionLoc" in l:
                one(l.get("spellingLoc"))
                return one(l.get("expansionLoc"))
            if "file" in l: self.last_file = l["file"]
            if "line" in l: self.last_line = l["line"]
            return self.last_line if l else None
        stack = [(n, 0)]
        def walk(x):
            if "loc" in x:
                r = one(x["loc"])
                if r: x["_line"] = r
            if "range" in x:
                b = one(x["range"].get("begin"))
                one(x["range"].get("end"))
                if b: x["_line"] = b if x.get("kind") not in ("FunctionDecl",) else x.get("_line", b)
            for c in x.get("inner", []):
                if isinstance(c, dict): walk(c)
        walk(n)
        n["_file"] = self.last_file

    # ------------------------------------------------ type resolution
    def ty(self, s):
        s0 = s
        if s in self._tcache: return self._tcache[s]
        t = self._ty(s)
        self._tcache[s0] = t
        return t

    def _ty(self, s):
        s = strip_q(s)
        m = re.match(r"^(.*?)\s*\((\*+)\)\s*(\(.*\)|\[.*\])$", s)
        if m: return T("ptr", T("func")) if m.group(3).startswith("(") else T("ptr", self._ty(m.group(1) + m.group(3)))
        if s.endswith(")"): return T("func")
        m = re.match(r"^([^\[]*)\[(\d*)\](.*)$", s)
        if m:
            inner = self._ty(m.group(1).strip() + m.group(3))
            return T("arr", inner, int(m.group(2)) if m.group(2) else None)
        if s.endswith("*"): return T("ptr", self._ty(s[:-1]))
        if s in REALS: return T("real")
        if s in CHARS: return T("char", s)
        if s in INTS: return T("int", s)
        if s == "void": return T("void")
        if s in self.typedefs: return T("int", "int") if strip_q(self.typedefs[s]) == s else self._ty(self.typedefs[s])    # typedef enum x x
        if s.startswith("struct ") or s.startswith("union "):
            return T("struct", s.split(" ", 1)[1])
        if s in self.records: return T("struct", s)
        return T("int", "int") if s in self.enums else T("struct", s)

    def nty(self, n):
        t = n.get("type")
        if not t: return T("void")
        q = t["qualType"]
        r = self.ty(q)
        if r.k == "struct" and "desugaredQualType" in t:
            r2 = self.ty(t["desugaredQualType"])
            if r2.k != "struct" or r2.a in self.records: return r2
        if r.k == "struct" and r.a not in self.records:
            # enum types print as the bare typedef/enum name
            if "enum" in t.get("desugaredQualType", "") or "enum" in q: return T("int", "int")
        return r

    def field_type(self, struct, field):
        if struct not in self.records: raise ExtractionError(f"unknown struct {struct}")
        f = self.records[struct]
        if field not in f: raise ExtractionError(f"no field {struct}.{field}")
        q = f[field]
        if re.match(r"^enum ", q): return T("int", "int")
        t = self.ty(q)
        if t.k == "struct" and t.a not in self.records: return T("int", "int")
        return t

_cache = {}
def tu(path, repo=None, actual=None):
    key = (path, repo or REPO)
    if key not in _cache: _cache[key] = TU(path, repo, actual)
    return _cache[key]

class Program:
    """all translation units a property needs; function lookup across them"""
    def __init__(self, files, repo=None, generated=None):
        self.repo = repo or REPO
        from concurrent.futures import ThreadPoolExecutor
        g = generated or {}
        self.tus = [tu(os.path.join(self.repo, f), repo, g.get("/".join(f.split("/")[-2:]))) for f in files]
        self.where = {}
        for t in self.tus:
            for name, f in t.funcs.items():
                self.where.setdefault(name, (t, f))
    def find(self, name, prefer=None):
        if prefer is not None and name in prefer.funcs: return prefer, prefer.funcs[name]
        return self.where.get(name)
