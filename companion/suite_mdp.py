"""model side: sparse matrices, Bayes update, reward lookup, the model-file reader, names, random numbers"""
from .base import *
from .modelgen import *
import math, os, random as _random
OPS = {"P08": ["matrix", "matrix", "rowlist"], "P09": ["bayes"], "P10": ["reward", "tree"], "P15": ["file", "file", "reject"], "P16": ["names", "hash"], "P18": ["rand", "dist"]}
ZT = 1e-10
# ---------------------------------------------------------------- model files as lists of entries
def nm(rng, names, i): return names[i] if names and rng.random() < .7 else str(i)
def pick(rng, n, wild=.3): return -1 if rng.random() < wild else rng.randrange(n)
def rng_of(x, n): return range(n) if x < 0 else [x]
WORDS = ["s", "st", "Left", "right", "open-door", "a_b", "x1", "go", "wait", "tiger-left", "zz", "Q", "up", "down", "ba", "ab", "aab", "aba"]
def names(rng, n):
    k = rng.randint(0, 3)
    if k == 0: return None
    pool = [w + (str(j) if j else "") for j in range(12) for w in WORDS] if k == 1 else [rng.choice("abcXYZ") + "".join(rng.choice("abc01-_") for _ in range(rng.randint(0, 12))) for _ in range(12 * n + 5)]
    pool = list(dict.fromkeys(p for p in pool if p not in RES and not p.endswith("-") or k == 1)); pool = [p for p in pool if p not in RES]
    if len(pool) < n: return None
    return rng.sample(pool, n)
RES = {"discount", "values", "states", "actions", "observations", "T", "O", "R", "uniform", "identity", "reward", "cost", "start", "include", "exclude", "reset"}
def genfile(rng, prop=None):
    S, A, Z = rng.randint(1, 5), rng.randint(1, 4), rng.randint(1, 4)
    M = dict(S=S, A=A, Z=Z, discount=rng.choice([0.95, 0.5, 1.0, 0.9]), values=rng.choice(["reward", "cost"]), sn=names(rng, S), an=names(rng, A), on=names(rng, Z))
    M["start"] = None
    k = rng.randint(0, 5)
    if k == 1: M["start"] = ["vec", dist(rng, S)]
    elif k == 2: M["start"] = ["uniform"]
    elif k == 3: M["start"] = ["include", [rng.randrange(S) for _ in range(rng.randint(1, S))]]
    elif k == 4 and S > 1: M["start"] = ["exclude", [rng.randrange(S - 1) for _ in range(rng.randint(1, S - 1))]]
    elif k == 5 and M["sn"]: M["start"] = ["name", rng.randrange(S)]
    ent = []
    def tentry(full):
        k = rng.randint(0, 4) if not full else rng.choice([2, 3, 4])
        a = -1 if full else pick(rng, A)
        if k == 2: return ["Trow", a, -1 if full else pick(rng, S), "uniform" if rng.random() < .3 else "reset" if rng.random() < .3 else dist(rng, S)]
        if k == 3: return ["Tall", a, rng.choice(["uniform", "identity"])]
        if k == 4: return ["Tall", a, [dist(rng, S) for _ in range(S)]]
        s, r = pick(rng, S), dist(rng, S)
        return ["Tsing", a, s, [(t, p) for t, p in rng.sample(list(enumerate(r)), S)]]
    def oentry(full):
        k = rng.randint(0, 4) if not full else rng.choice([2, 3, 4])
        a = -1 if full else pick(rng, A)
        if k == 2: return ["Orow", a, -1 if full else pick(rng, S), "uniform" if rng.random() < .3 else dist(rng, Z)]
        if k in (3, 4): return ["Oall", a, "uniform" if k == 3 else [dist(rng, Z) for _ in range(S)]]
        return ["Osing", a, pick(rng, S), [(z, p) for z, p in rng.sample(list(enumerate(dist(rng, Z))), Z)]]
    ent.append(tentry(True)); ent.append(oentry(True))
    for _ in range(rng.randint(0, 6)): ent.append(tentry(False) if rng.random() < .5 else oentry(False))
    if rng.random() < .3:       # distributions given value by value, one state at a time
        for s in range(S): ent.append(["Tsing", -1, s, list(enumerate(dist(rng, S)))])
    rv_ = lambda: rng.choice([0, 0, 1, -1, 2.5, 10, -100, 1e-12, 3])
    for _ in range(rng.randint(1, 8)):
        k = rng.random(); a, s, t, z = pick(rng, A, .4), pick(rng, S, .4), pick(rng, S, .4), pick(rng, Z, .4)
        if k < .15: ent.append(["Rmat", a, s, [[rv_() for _ in range(Z)] for _ in range(S)]])
        elif k < .35: ent.append(["Rrow", a, s, t, [rv_() for _ in range(Z)]])
        else: ent.append(["Rsing", a, s, t, z, rv_()])
    M["ent"] = ent; M["shuffle"] = rng.randint(0, 10**9)
    return M
def num(rng, x):
    if isinstance(x, float) and x == int(x) and abs(x) < 1e6 and rng.random() < .5: return str(int(x))
    return repr(x) if abs(x) >= 1e-4 or x == 0 else "%.20f" % x
def ftext(M):
    rng = _random.Random(M["shuffle"]); S, A, Z = M["S"], M["A"], M["Z"]
    w = lambda x, n: "*" if x < 0 else nm(rng, n, x)
    a_, s_, o_ = (lambda x: w(x, M["an"])), (lambda x: w(x, M["sn"])), (lambda x: w(x, M["on"]))
    row = lambda r: " ".join(num(rng, float(x)) for x in r)
    o = []
    pre = [f"discount: {M['discount']}", f"values: {M['values']}", "states: " + (" ".join(M["sn"]) if M["sn"] else str(S)), "actions: " + (" ".join(M["an"]) if M["an"] else str(A)), "observations: " + (" ".join(M["on"]) if M["on"] else str(Z))]
    if rng.random() < .3: rng.shuffle(pre)
    o += pre
    st = M["start"]
    if st:
        if st[0] == "vec": o.append("start: " + row(st[1]))
        elif st[0] == "uniform": o.append("start: uniform")
        elif st[0] in ("include", "exclude"): o.append(f"start {st[0]}: " + " ".join(s_(x) for x in st[1]))
        else: o.append("start: " + M["sn"][st[1]])
    if rng.random() < .3: o.append("# a comment : T : 0 : 0 0.5")
    for e in M["ent"]:
        k = e[0]
        if k == "Trow": o.append(f"T: {a_(e[1])} : {s_(e[2])}"); o.append(e[3] if isinstance(e[3], str) else row(e[3]))
        elif k == "Orow": o.append(f"O: {a_(e[1])} : {s_(e[2])}"); o.append(e[3] if isinstance(e[3], str) else row(e[3]))
        elif k in ("Tall", "Oall"):
            o.append(f"{k[0]}: {a_(e[1])}")
            if isinstance(e[2], str): o.append(e[2])
            else: o += [row(r) for r in e[2]] if rng.random() < .8 else [" ".join(row(r) for r in e[2])]
        elif k == "Tsing": o += [f"T: {a_(e[1])} : {s_(e[2])} : {s_(t)} {num(rng, p)}" for t, p in e[3]]
        elif k == "Osing": o += [f"O: {a_(e[1])} : {s_(e[2])} : {o_(z)} {num(rng, p)}" for z, p in e[3]]
        elif k == "Rmat": o.append(f"R: {a_(e[1])} : {s_(e[2])}"); o += [row(r) for r in e[3]]
        elif k == "Rrow": o.append(f"R: {a_(e[1])} : {s_(e[2])} : {s_(e[3])}"); o.append(row(e[4]))
        elif k == "Rsing": o.append(f"R: {a_(e[1])} : {s_(e[2])} : {s_(e[3])} : {o_(e[4])} {num(rng, float(e[5]))}")
        elif k == "raw": o.append(e[1])
    return "\n".join(o) + "\n"
def start_of(M):
    S, st = M["S"], M["start"]
    if not st or st[0] == "uniform": return [1.0 / S] * S
    if st[0] == "vec": return list(st[1])
    if st[0] == "name": return [1.0 if i == st[1] else 0.0 for i in range(S)]
    b = [0.0 if st[0] == "include" else 1.0] * S
    for x in st[1]: b[x] = 1.0 if st[0] == "include" else 0.0
    t = sum(b); return [x / t for x in b]
def tables(M):
    """what the file says: entries in order, later ones override exactly the elements they name"""
    S, A, Z = M["S"], M["A"], M["Z"]; b0 = start_of(M)
    T = [[[0.0] * S for _ in range(S)] for _ in range(A)]; O = [[[0.0] * Z for _ in range(S)] for _ in range(A)]; Rl = []
    for e in M["ent"]:
        k = e[0]
        if k in ("Trow", "Orow"):
            X, n = (T, S) if k == "Trow" else (O, Z)
            r = [1.0 / n] * n if e[3] == "uniform" else b0 if e[3] == "reset" else e[3]
            for a in rng_of(e[1], A):
                for s in rng_of(e[2], S): X[a][s] = list(r)
        elif k in ("Tall", "Oall"):
            X, n = (T, S) if k == "Tall" else (O, Z)
            for a in rng_of(e[1], A):
                for s in range(S): X[a][s] = [1.0 / n] * n if e[2] == "uniform" else [1.0 if s == t else 0.0 for t in range(n)] if e[2] == "identity" else list(e[2][s])
        elif k in ("Tsing", "Osing"):
            X, n = (T, S) if k == "Tsing" else (O, Z)
            for j, p in e[3]:
                for a in rng_of(e[1], A):
                    for s in rng_of(e[2], S):
                        for jj in rng_of(j, n): X[a][s][jj] = p
        else: Rl.append(e)
    def R(a, s, t, z):
        v = 0.0
        for e in Rl:
            if e[1] not in (-1, a) or e[2] not in (-1, s): continue
            if e[0] == "Rmat": v = e[3][t][z]
            elif e[0] == "Rrow":
                if e[3] in (-1, t): v = e[4][z]
            elif e[3] in (-1, t) and e[4] in (-1, z): v = e[5]
        return v
    return T, O, R, b0
def bad(rng, M):
    """break the file in one way that must be refused"""
    k = rng.choice(["rowsum", "few", "many", "rfew", "rmany", "prob", "unknown", "dup", "range", "start", "mfew", "mmany", "ofew", "omany", "osum", "obsrange", "actname", "discount", "badtok", "resetO", "idO", "rprob"])
    S, A, Z = M["S"], M["A"], M["Z"]; E = M["ent"]
    raw = lambda s: E.append(["raw", s])
    if k == "rowsum": raw(f"T: {rng.randrange(A)} : {rng.randrange(S)}\n" + " ".join(["0.3"] * S) if S not in (3,) or 1 else "")
    elif k == "osum": raw(f"O: {rng.randrange(A)} : {rng.randrange(S)}\n" + " ".join(["0.3"] * Z))
    elif k == "few": raw(f"T: * : {rng.randrange(S)}\n1.0" if S > 1 else "T: 0 : 0 : 0 2.0")
    elif k == "many": raw(f"T: * : {rng.randrange(S)}\n" + " ".join(["1.0"] + ["0.0"] * S))
    elif k == "mfew": raw("T: 0\n" + " ".join(["1.0"] + ["0.0"] * (S - 1)) if S > 1 else "T: 0 : 0 : 0 2.0")
    elif k == "mmany": raw("T: 0\n" + "\n".join(" ".join(["1.0"] + ["0.0"] * (S - 1)) for _ in range(S)) + " 0.0")
    elif k == "ofew": raw(f"O: * : {rng.randrange(S)}\n1.0" if Z > 1 else "O: 0 : 0 : 0 2.0")
    elif k == "omany": raw(f"O: * : {rng.randrange(S)}\n" + " ".join(["1.0"] + ["0.0"] * Z))
    elif k == "rfew": raw(f"R: * : {rng.randrange(S)} : *\n" + " ".join(["1.0"] * (Z - 1)) if Z > 1 else "R: * : 0 : 0 :")
    elif k == "rmany": raw(f"R: * : {rng.randrange(S)} : *\n" + " ".join(["1.0"] * (Z + 1)))
    elif k == "prob": raw(f"T: * : {rng.randrange(S)} : {rng.randrange(S)} {rng.choice(['1.5', '-0.2', '7'])}")
    elif k == "rprob": raw(f"O: * : {rng.randrange(S)} : {rng.randrange(Z)} {rng.choice(['1.5', '-0.2', '7'])}")
    elif k == "unknown": raw("T: * : nosuchstate : 0 0.5")
    elif k == "actname": raw("R: nosuchaction : * : * : * 1.0")
    elif k == "range": raw(f"T: * : {S + rng.randint(0, 3)} : 0 0.5")
    elif k == "obsrange": raw(f"O: * : 0 : {Z + rng.randint(0, 3)} 0.5")
    elif k == "dup":
        w = rng.choice(["sn", "an", "on"]); n = M[{"sn": "S", "an": "A", "on": "Z"}[w]]
        v = M[w] or ["nm%d" % j for j in range(n)]
        M[w] = v[:-1] + [v[0]] if n > 1 else v + v
        return "dup"
    elif k == "start": M["start"] = ["vec", [0.25] * S if S != 4 else [0.2] * S]
    elif k == "discount": M["discount"] = rng.choice([1.5, -0.5, 2])
    elif k == "badtok": raw(rng.choice(["T: * : 0 : 0 : 0 1.0", "O 0 1.0", "R: : 1", "T: * * 1.0", "@", "states: 3"]))
    elif k == "resetO": raw("O: * : 0\nreset")
    elif k == "idO": raw("O: 0\nidentity")
    return k
# ---------------------------------------------------------------- generation
def gen(rng, i, prop):
    op = rng.choice(OPS.get(prop) or sum(OPS.values(), []))
    c = dict(op=op, seed=rng.randint(0, 10**9))
    if op in ("matrix", "rowlist"):
        r, q = rng.randint(1, 5), rng.choice([1, 2, 3, 6, 12])
        c["rows"], c["cols"] = r, q
        c["ops"] = [[rng.choice(["set", "set", "acc"]), rng.randrange(r), rng.randrange(q), rng.choice([0, 0.0, 1, 0.5, -0.5, -1, 2, 1e-11, -1e-11, 2e-10, 1e-10, 0.25, 1e6, -2e-10])] for _ in range(rng.randint(0, 40))]
    elif op in ("bayes", "reward", "file", "reject", "names", "tree"):
        c["M"] = genfile(rng)
        if op == "reject": c["bad"] = bad(rng, c["M"])
        if op == "names":
            M = c["M"]; n = rng.choice([1, 2, 5, 30, 300])
            M["S"] = 3; c["n"] = n
    if op == "hash":
        base = [rng.choice(WORDS) + str(rng.randint(0, 40)) for _ in range(rng.choice([1, 3, 10, 60, 600]))]
        if rng.random() < .5: base = ["".join(rng.choice("ab") for _ in range(rng.randint(1, 6))) for _ in base]
        c["w"] = [[rng.randint(0, 2), b] for b in base]
    if op == "rand": c["sd"] = [rng.randint(0, 65535) for _ in range(3)]; c["n"] = rng.randint(1, 200); c["lo"] = rng.randint(-5, 5); c["span"] = rng.choice([0, 1, 2, 3, 10, 100])
    if op == "dist": c["sd"] = [rng.randint(0, 65535) for _ in range(3)]; c["n"] = rng.choice([1, 2, 3, 5, 20, 100])
    return c
def run(lib, c): globals()["op_" + c["op"]](lib, c)
# ---------------------------------------------------------------- P08
def isz(x): return -ZT < x < ZT
def op_matrix(lib, c):
    rows, cols = c["rows"], c["cols"]
    m = lib.fn("newIMatrix", PTR, INT)(rows)
    ref = [dict() for _ in range(rows)]
    near = False
    for k, r, q, v in c["ops"]:
        f = "addEntryToIMatrix" if k == "set" else "accumulateEntryInIMatrix"
        lib.fn(f, INT, PTR, INT, INT, D)(m, r, q, float(v))
        old = ref[r].get(q, 0.0)
        if k == "set": new = 0.0 if isz(v) else v
        else: new = old if isz(v) else old + v
        if isz(new) and new != 0.0: near = True          # a sum inside the zero tolerance may stay or go
        if new == 0.0 and k == "set": ref[r].pop(q, None)
        elif new == 0.0 and q not in ref[r]: pass
        else: ref[r][q] = new
    # row lists: sorted by column, no duplicates, counted
    heads = lib.rp(lib.get("I_Matrix_Struct", "row", m, PTR), rows); lens = lib.ri(lib.get("I_Matrix_Struct", "row_length", m, PTR), rows)
    for r in range(rows):
        got = []; p = heads[r]
        while p:
            q, v = INT.from_address(p).value, D.from_address(p + 8).value; got.append((q, v)); p = lib.rp(p + 16, 1)[0]
            check(len(got) <= 10000, "row list is cyclic")
        check([q for q, _ in got] == sorted(set(q for q, _ in got)), f"row {r} is not strictly sorted by column: {got}")
        check(len(got) == lens[r], f"row {r} has {len(got)} entries but counts {lens[r]}")
        d = dict(got)
        for q in range(cols): check(close(d.get(q, 0.0), ref[r].get(q, 0.0), 1e-12) or abs(d.get(q, 0.0) - ref[r].get(q, 0.0)) <= ZT, f"entry ({r},{q}) is {d.get(q, 0.0)}, last write was {ref[r].get(q, 0.0)}")
        check(set(d) <= set(ref[r]), f"row {r} stores columns {sorted(d)} never written or cleared; expected {sorted(ref[r])}")
        s = lib.fn("sumIMatrixRowValues", D, PTR, INT)(m, r); check(abs(s - math.fsum(d.values())) <= 1e-9 * max(1, sum(map(abs, d.values()))), f"sum of intermediate row {r} is {s}, entries {d}")
        ref[r] = d
    M = lib.fn("transformIMatrix", PTR, PTR)(m)
    check(lib.get("Matrix_Struct", "num_rows", M) == rows, "row count changed")
    nz = lib.get("Matrix_Struct", "num_non_zero", M); check(nz == sum(len(d) for d in ref), f"{nz} stored entries, expected {sum(len(d) for d in ref)}")
    rs = lib.ri(lib.get("Matrix_Struct", "row_start", M, PTR), rows); rl = lib.ri(lib.get("Matrix_Struct", "row_length", M, PTR), rows)
    val = lib.rd(lib.get("Matrix_Struct", "mat_val", M, PTR), nz); col = lib.ri(lib.get("Matrix_Struct", "col", M, PTR), nz)
    seen = set()
    for r in range(rows):
        check(rl[r] == len(ref[r]), f"row {r} length {rl[r]}, expected {len(ref[r])}")
        idx = list(range(rs[r], rs[r] + rl[r])); check(all(0 <= j < nz for j in idx) and not seen & set(idx), f"row {r} occupies entries {idx} of {nz}, overlapping or outside"); seen |= set(idx)
        check({col[j]: val[j] for j in idx} == ref[r], f"row {r} holds {[(col[j], val[j]) for j in idx]}, expected {ref[r]}")
        for q in range(cols): 
            g = lib.fn("getEntryMatrix", D, PTR, INT, INT)(M, r, q); check(g == ref[r].get(q, 0.0), f"entry ({r},{q}) reads {g}, was written {ref[r].get(q, 0.0)}")
        s = lib.fn("sumRowValues", D, PTR, INT)(M, r); check(abs(s - math.fsum(ref[r].values())) <= 1e-9 * max(1, sum(map(abs, ref[r].values()))), f"sum of row {r} is {s}, entries {ref[r]}")
    lib.fn("destroyIMatrix", None, PTR)(m); lib.fn("destroyMatrix", None, PTR)(M)
op_rowlist = op_matrix
# ---------------------------------------------------------------- loading
def load(lib, M, init=False):
    p = os.path.join(lib.scratch, f"m{os.getpid()}.POMDP"); open(p, "w").write(M if isinstance(M, str) else ftext(M))
    if lib.fn("readMDP", INT, CH)(p.encode()) != 1: return False
    if lib.gi("gProblemType") is None: pass
    return True
def refused(lib, tx):
    """a fresh process: is the file refused?"""
    import subprocess, shutil
    d = os.path.join(lib.scratch, f"x{os.getpid()}"); os.makedirs(d, exist_ok=True); open(d + "/m.POMDP", "w").write(tx)
    env = dict(os.environ); env.pop("LD_PRELOAD", None)
    p = subprocess.run([lib.exe, "-pomdp", "m.POMDP", "-horizon", "1", "-o", "o"], cwd=d, stdin=subprocess.DEVNULL, capture_output=True, timeout=40, env=env)
    o = p.stdout.decode(errors="replace"); e = p.stderr.decode(errors="replace")
    check("AddressSanitizer" not in e, f"reading crashed: {e[-1500:]}\n{tx}")
    return "Solution found" not in o and p.returncode != 0
def unload(lib): lib.fn("deallocateMDP", None)()
def mat(lib, name, a): return lib.rp(lib.gp(name), a + 1)[a]
def entry(lib, m, r, q): return lib.fn("getEntryMatrix", D, PTR, INT, INT)(m, r, q)
def check_model(lib, M, T, O, R, b0, what, rewards=True):
    S, A, Z = M["S"], M["A"], M["Z"]
    check((lib.gi("gNumStates"), lib.gi("gNumActions"), lib.gi("gNumObservations")) == (S, A, Z), f"sizes wrong: {what}")
    check(lib.gd("gDiscount") == M["discount"], f"discount {lib.gd('gDiscount')}: {what}")
    check(lib.gi("gValueType") == (0 if M["values"] == "reward" else 1), f"values type wrong: {what}")
    got = lib.rd(lib.gp("gInitialBelief"), S); check(vclose(got, b0, 1e-9), f"start belief {got}, file says {b0}: {what}")
    q = lib.gp("Q"); gi_ = lib.fn("getImmediateReward", D, INT, INT, INT, INT)
    lo = 0.0
    for a in range(A):
        P_, R_ = mat(lib, "P", a), mat(lib, "R", a)
        for s in range(S):
            for t in range(S): check(abs(entry(lib, P_, s, t) - T[a][s][t]) <= 1e-9, f"T({a},{s},{t}) = {entry(lib, P_, s, t)}, file says {T[a][s][t]}: {what}")
            for z in range(Z): check(abs(entry(lib, R_, s, z) - O[a][s][z]) <= 1e-9, f"O({a},{s},{z}) = {entry(lib, R_, s, z)}, file says {O[a][s][z]}: {what}")
        if rewards:
            for s in range(S):
                for t in range(S):
                    for z in range(Z):
                        g = gi_(a, s, t, z); check(abs(g - R(a, s, t, z)) <= 1e-9, f"R({a},{s},{t},{z}) = {g}, last matching entry says {R(a, s, t, z)}: {what}")
                w = math.fsum(T[a][s][t] * O[a][t][z] * R(a, s, t, z) for t in range(S) for z in range(Z)); lo = min(lo, w)
                g = entry(lib, q, a, s); check(abs(g - w) <= 1e-7 * max(1, abs(w)), f"expected reward of action {a} in state {s} is {g}, should be {w}: {what}")
    if rewards: check(abs(lib.gd("gMinimumImmediateReward") - lo) <= 1e-7 * max(1, abs(lo)), f"minimum reward {lib.gd('gMinimumImmediateReward')}, should be {lo}: {what}")
def op_file(lib, c):
    M = c["M"]; tx = ftext(M); check(load(lib, tx), f"valid model refused:\n{tx}")
    T, O, R, b0 = tables(M); check_model(lib, M, T, O, R, b0, "\n" + tx); unload(lib)
def op_reward(lib, c): op_file(lib, c)
def op_reject(lib, c):
    M = c["M"]; tx = ftext(M)
    if c["bad"] == "rowsum" and abs(0.3 * M["S"] - 1) < 1e-5 or c["bad"] == "osum" and abs(0.3 * M["Z"] - 1) < 1e-5: return
    if c["bad"] == "start" and abs(sum(M["start"][1]) - 1) < 1e-5: return
    check(refused(lib, tx), f"model that must be refused ({c['bad']}) was accepted:\n{tx}")
def op_names(lib, c):
    """every declared name denotes its position, per kind"""
    rng = _random.Random(c["seed"]); n = c["n"]
    kind = rng.choice(["states", "actions", "observations"])
    ws = []
    for j in range(n): ws.append(rng.choice(["n", "nm", "x-", "k_"]) + str(j) if rng.random() < .7 else "".join(rng.choice("abAB") for _ in range(9)) + str(j))
    ws = list(dict.fromkeys(ws)); n = len(ws); i = rng.randrange(n); j = rng.randrange(n)
    other = ["nm0", "b-c", "zz"] if rng.random() < .5 else ws[:3] + ["q", "r", "s"][:max(0, 3 - n)]
    S = n if kind == "states" else 3; A = n if kind == "actions" else len(other) ; Z = n if kind == "observations" else len(other)
    sn = ws if kind == "states" else other; an = ws if kind == "actions" else other; on = ws if kind == "observations" else other
    S, A, Z = len(sn), len(an), len(on)
    o = ["discount: 0.9", "values: reward", "states: " + " ".join(sn), "actions: " + " ".join(an), "observations: " + " ".join(on), "T: *", "identity", "O: *", "uniform"]
    a, s, t, z = (rng.randrange(x) for x in (A, S, S, Z))
    o += [f"T: {an[a]} : {sn[s]} : {sn[s]} 0.0", f"T: {an[a]} : {sn[s]} : {sn[t]} 1.0", f"R: {an[a]} : {sn[s]} : {sn[t]} : {on[z]} 7.0"]
    tx = "\n".join(o) + "\n"; check(load(lib, tx), f"valid model refused: {tx[:3000]}")
    check((lib.gi("gNumStates"), lib.gi("gNumActions"), lib.gi("gNumObservations")) == (S, A, Z), f"number of names counted {lib.gi('gNumStates')},{lib.gi('gNumActions')},{lib.gi('gNumObservations')} instead of {S},{A},{Z}: {tx[:3000]}")
    check(abs(entry(lib, mat(lib, "P", a), s, t) - 1) < 1e-9, f"names {an[a]} {sn[s]} {sn[t]} do not denote {a} {s} {t}: {tx[:3000]}")
    for zz in range(Z): check(lib.fn("getImmediateReward", D, INT, INT, INT, INT)(a, s, t, zz) == (7.0 if zz == z else 0.0), f"names in reward entry resolved wrongly at observation {zz}: {tx[:3000]}")
    unload(lib)
    # an undeclared name is refused, and so is a name of another kind
    if rng.random() < .5:
        bad_ = "nosuch" if rng.random() < .5 else next((w for w in an if w not in sn), "nosuch")
        check(refused(lib, tx + f"T: * : {bad_} : 0 0.0\nT: * : 0 : 0 1.0\n"), f"undeclared state name {bad_} accepted: {tx[:2000]}")
def op_hash(lib, c):
    for g in ("gNumStates", "gNumActions", "gNumObservations"): lib.si(g, 0)
    lib.fn("H_create", None)(); ref = {}; cnt = [0, 0, 0]
    try:
        for k, w in c["w"]:
            r = lib.fn("H_enter", INT, CH, INT)(w.encode(), k)
            check((r == 0) == ((k, w) in ref), f"entering {w!r} of kind {k}: returned {r}, known names {ref}")
            if (k, w) not in ref: ref[(k, w)] = cnt[k]; cnt[k] += 1
        for (k, w), n in ref.items():
            g = lib.fn("H_lookup", INT, CH, INT)(w.encode(), k); check(g == n, f"{w!r} of kind {k} resolves to {g}, declared as {n}")
        for k in range(3):
            for _, w in c["w"][:50]:
                for v in (w, w + "a", w[:-1], w.swapcase()):
                    if v and (k, v) not in ref:
                        g = lib.fn("H_lookup", INT, CH, INT)(v.encode(), k); check(g == -1, f"undeclared {v!r} of kind {k} resolves to {g}")
        check([lib.gi(g) for g in ("gNumStates", "gNumActions", "gNumObservations")] == cnt, "counts of names wrong")
    finally: lib.fn("H_destroy", None)()
# ---------------------------------------------------------------- P09
def op_bayes(lib, c):
    M = c["M"]; tx = ftext(M); check(load(lib, tx), f"valid model refused:\n{tx}")
    T, O, R, b0 = tables(M); S, A, Z = M["S"], M["A"], M["Z"]; rng = _random.Random(c["seed"])
    N = dict(S=S, A=A, Z=Z, T=T, O=O)
    f = lib.fn("transformBeliefState", INT, PTR, PTR, INT, INT)
    for b in beliefs(rng, S, 3) + [dist(rng, S, .6)]:
        for a in range(A):
            tot = 0.0
            for z in range(Z):
                src = lib.darr(b); out = lib.darr([7.0] * S); u = update(N, b, a, z); w = math.fsum(u); tot += w
                r = f(src, out, a, z); got = lib.rd(out, S)
                check(lib.rd(src, S) == b, "belief update changed its input")
                if w > 1e-9:
                    check(r == 1, f"possible observation (a={a}, z={z}, probability {w}) reported impossible at {b}:\n{tx}")
                    check(vclose(got, [x / w for x in u], 1e-7), f"updated belief {got}, Bayes' rule gives {[x / w for x in u]} (b={b}, a={a}, z={z}):\n{tx}")
                    check(abs(math.fsum(got) - 1) < 1e-7 and min(got) >= -1e-12, f"updated belief {got} is no distribution")
                elif w < 1e-11: check(r == 0, f"impossible observation (a={a}, z={z}) not reported at {b}:\n{tx}")
                lib.free(src); lib.free(out)
    # in place copy helpers
    x = lib.darr(b0); y = lib.darr([0.0] * S); lib.fn("copyBeliefState", None, PTR, PTR)(y, x); check(lib.rd(y, S) == b0, "copyBeliefState differs"); lib.free(x); lib.free(y)
    nb = lib.fn("newBeliefState", PTR)(); check(lib.rd(nb, S) == [0.0] * S, "new belief not zero"); lib.free(nb)
    unload(lib)
    # rare observations
    q = [rng.choice([1e-4, 2e-5, 1e-6, 3e-7, 1e-7, 5e-8]) for _ in range(2)]
    tx = "discount: 0.9\nvalues: reward\nstates: 2\nactions: 1\nobservations: 2\nT: 0\nidentity\nO: 0\n" + "".join(f"{1 - x:.9f} {x:.9f}\n" for x in q) + "R: * : * : * : * 1\n"
    check(load(lib, tx), f"valid model refused:\n{tx}"); src = lib.darr([0.5, 0.5]); out = lib.darr([7.0] * 2)
    r = f(src, out, 0, 1); got = lib.rd(out, 2); exp = [x / (q[0] + q[1]) for x in q]
    check(r == 1 and vclose(got, exp, 1e-6), f"rare observation of probability {(q[0] + q[1]) / 2}: success {r}, belief {got}, Bayes' rule gives {exp}:\n{tx}")
    lib.free(src); lib.free(out); unload(lib)
# ---------------------------------------------------------------- P10: the decision tree under the reward entries
def op_tree(lib, c):
    M = c["M"]; S, A, Z = M["S"], M["A"], M["Z"]; T, O, R, b0 = tables(M)
    for g, v in (("gNumStates", S), ("gNumActions", A), ("gNumObservations", Z), ("gProblemType", 2)): lib.si(g, v)
    new, ent, done = lib.fn("newImmReward", None, INT, INT, INT, INT), lib.fn("enterImmReward", None, INT, INT, INT, D), lib.fn("doneImmReward", None)
    get = lib.fn("getImmediateReward", D, INT, INT, INT, INT)
    ents = [e for e in M["ent"] if e[0][0] == "R"]
    for j, e in enumerate(ents):
        if e[0] == "Rsing": new(e[1], e[2], e[3], e[4]); ent(0, 0, 0, float(e[5]))
        elif e[0] == "Rrow":
            new(e[1], e[2], e[3], -99)
            for z in range(Z): ent(0, 0, z, float(e[4][z]))
        else:
            new(e[1], e[2], -99, -99)
            for t in range(S):
                for z in range(Z): ent(0, t, z, float(e[3][t][z]))
        done()
    for a in range(A):
        for s in range(S):
            for t in range(S):
                for z in range(Z):
                    g = get(a, s, t, z); check(abs(g - R(a, s, t, z)) <= 1e-9, f"reward ({a},{s},{t},{z}) is {g}, last matching entry says {R(a, s, t, z)}: {ents}")
    lib.fn("destroyImmRewards", None)()
    # and once more through the tree directly
    lib.fn("dtInit", None, INT, INT, INT)(A, S, Z); add = lib.fn("dtAdd", None, INT, INT, INT, INT, D)
    for e in ents:
        if e[0] == "Rsing": add(e[1], e[2], e[3], e[4], float(e[5]))
        elif e[0] == "Rrow":
            for z in range(Z): add(e[1], e[2], e[3], z, float(e[4][z]))
        else:
            for t in range(S):
                for z in range(Z): add(e[1], e[2], t, z, float(e[3][t][z]))
    g_ = lib.fn("dtGet", D, INT, INT, INT, INT)
    for a in range(A):
        for s in range(S):
            for t in range(S):
                for z in range(Z):
                    g = g_(a, s, t, z); check(abs(g - R(a, s, t, z)) <= 1e-12, f"tree ({a},{s},{t},{z}) is {g}, last matching entry says {R(a, s, t, z)}: {ents}")
    lib.fn("dtDeallocate", None)()
# ---------------------------------------------------------------- P18
def e48(x): return (0x5DEECE66D * x + 0xB) & ((1 << 48) - 1)
class Gen:
    def __init__(s, sd): s.x = sd[0] | sd[1] << 16 | sd[2] << 32
    def __call__(s): s.x = e48(s.x); return s.x / float(1 << 48)
def seed_both(lib, sd):
    lib.fn("setRandomSeed", None, PTR)(ctypes.cast((ctypes.c_ushort * 3)(*sd), PTR).value); return Gen(sd)
def op_rand(lib, c):
    sd, lo, hi = c["sd"], c["lo"], c["lo"] + c["span"]
    if c["seed"] % 2: lib.fn("setRandomSeedFromString", None, CH)(":".join(map(str, sd)).encode()); g = Gen(sd)
    else: g = seed_both(lib, sd)
    seen = set()
    for k in range(c["n"]):
        if k % 3 == 0: x = lib.fn("getRandomInt", INT, INT, INT)(lo, hi); g(); check(lo <= x <= hi, f"random integer {x} outside [{lo},{hi}]"); seen.add(x)
        elif k % 3 == 1: x = lib.fn("getRandomDouble", D, D, D)(float(lo), float(hi)); w = g() * (hi - lo) + lo; check(lo <= x <= hi and x == w, f"random number {x} for seed {sd} at draw {k}, sequence gives {w}")
        else: x = lib.fn("fran", D)(); w = g(); check(x == w and 0 <= x < 1, f"draw {k} after seed {sd} is {x}, sequence gives {w}")
    cur = (ctypes.c_ushort * 3)(); lib.fn("getRandomSeed", None, PTR)(ctypes.cast(cur, PTR).value)
    check(cur[0] | cur[1] << 16 | cur[2] << 32 == g.x, "the reported seed does not continue the sequence")
    again = lib.fn("fran", D)(); check(again == g(), "continuing from the seed differs")
    if c["span"] <= 3 and c["n"] >= 150: check(seen == set(range(lo, hi + 1)), f"{len(seen)} of the integers [{lo},{hi}] were never drawn in {c['n'] // 3 + 1} draws")
def op_dist(lib, c):
    seed_both(lib, c["sd"]); n = c["n"]
    xs = []
    for rep in range(2):
        seed_both(lib, c["sd"]); p = lib.darr([9.0] * n); lib.fn("setRandomDistribution", None, PTR, INT)(p, n); xs.append(lib.rd(p, n)); lib.free(p)
    check(xs[0] == xs[1], "same seed, different distribution")
    check(abs(math.fsum(xs[0]) - 1) < 1e-9 and all(-1e-15 <= x <= 1 + 1e-15 for x in xs[0]), f"random distribution {xs[0]} does not sum to one or leaves [0,1]")
    p = lib.darr([9.0] * n); seed_both(lib, c["sd"]); lib.fn("setRandomDoubleVector", None, PTR, INT, D, D)(p, n, -2.0, 3.0); v = lib.rd(p, n); lib.free(p)
    g = Gen(c["sd"]); check(all(x == g() * 5.0 - 2.0 for x in v), f"random vector {v} does not follow the sequence of the seed")
