"""policy graphs: building, writing, reading, relinking, and their evaluation"""
from .base import *
from .modelgen import *
from .suite_core import start as load, stop as unload
import random as _random
OPS = {"P13": ["build", "read", "read", "relinkpg", "clone"], "P19": ["coef", "eval", "best"]}
def gen(rng, i, prop):
    op = rng.choice(OPS.get(prop) or sum(OPS.values(), []))
    M = model(rng, 3, 3, 3)
    if op == "eval" and M["discount"] == 1.0: M["discount"] = 0.9
    n = rng.choice([1, 1, 2, 3, 5])
    c = dict(op=op, M=M, seed=rng.randint(0, 10**9), n=n)
    c["act"] = [rng.randrange(M["A"]) for _ in range(n)]
    c["nxt"] = [[rng.choice([-1] if rng.random() < .15 else [-2] if rng.random() < .1 else list(range(n))) for _ in range(M["Z"])] for _ in range(n)]
    if op == "read":
        c["order"] = rng.sample(range(n), n) if rng.random() < .5 else list(range(n))
        c["bad"] = rng.choice([None, None, "action", "succ", "dup", "trunc", "junk", "negaction", "range", "long"])
    return c
INV, NOI = -1, -2
def run(lib, c):
    par = load(lib, c["M"])
    try: globals()["op_" + c["op"]](lib, c, c["M"], _random.Random(c["seed"]))
    finally: unload(lib, par)
def pgof(lib, p, Z):
    n = lib.get("PG_Struct", "num_nodes", p)
    return n, lib.ri(lib.get("PG_Struct", "action", p, PTR), n), [lib.ri(x, Z) for x in lib.rp(lib.get("PG_Struct", "next", p, PTR), n)]
def mkpg(lib, c, M):
    n, Z = c["n"], M["Z"]
    p = lib.fn("PG_Constructor", PTR, INT, INT, INT, INT)(n, M["S"], M["A"], Z)
    a = lib.get("PG_Struct", "action", p, PTR); ctypes.memmove(a, (INT * n)(*c["act"]), 4 * n)
    for q, row in zip(lib.rp(lib.get("PG_Struct", "next", p, PTR), n), c["nxt"]): ctypes.memmove(q, (INT * Z)(*row), 4 * Z)
    return p
def word(x): return "X" if x == INV else "-" if x == NOI else str(x)
def readback(lib, path, Z, verify=1):
    p = lib.fn("PG_read", PTR, CH, INT)(path.encode(), verify)
    if not p: return None
    r = pgof(lib, p, Z); lib.fn("PG_Destructor", None, PTR)(p); return r
def op_build(lib, c, M, rng):
    """from vectors with recorded choices, through the written file, and back"""
    S, Z, n = M["S"], M["Z"], c["n"]; w = f"actions {c['act']}, choices {c['nxt']}"
    prev = lib.mklist([[0.0] * S for _ in range(n)]); pn = lib.nodes(prev)
    ids = rng.sample(range(n), n)
    for x, k in zip(pn, ids): lib.afs(x, "id", k)
    byid = {k: x for x, k in zip(pn, ids)}
    L = lib.mklist([[float(i)] * S for i in range(n)], c["act"]); exp = []
    for i, nd in enumerate(lib.nodes(L)):
        lib.afs(nd, "id", i)
        if NOI in c["nxt"][i]: exp.append([NOI] * Z); continue
        o = lib.fn("newObsSourceArray", PTR)(); ctypes.memmove(o, (PTR * Z)(*[None if x < 0 else byid[x] for x in c["nxt"][i]]), 8 * Z); lib.afs(nd, "obs_source", o); exp.append([x if x >= 0 else INV for x in c["nxt"][i]])
    p = lib.fn("PG_ConstructorFromAlphaList", PTR, PTR)(L); g = pgof(lib, p, Z)
    check(g == (n, c["act"], exp), f"policy graph of the vectors is {g}, expected {(n, c['act'], exp)}; {w}")
    check(lib.ri(lib.get("PG_Struct", "id", p, PTR), n) == list(range(n)), f"node numbers differ from the vectors' numbers; {w}")
    q = lib.fn("PG_clone", PTR, PTR)(p); check(pgof(lib, q, Z) == g, f"clone differs; {w}"); lib.fn("PG_Destructor", None, PTR)(q); lib.fn("PG_Destructor", None, PTR)(p)
    f = os.path.join(lib.scratch, f"g{os.getpid()}.pg")
    lib.fn("APG_writePolicyGraph", None, PTR, CH)(L, f.encode())
    got = [l.split() for l in open(f) if l.strip()]; check(got == [[str(i), str(c["act"][i])] + [word(x) for x in exp[i]] for i in range(n)], f"file holds {got}, expected {exp}; {w}")
    r = readback(lib, f, Z); check(r == (n, c["act"], exp), f"read back {r}, wrote {exp}; {w}")
    for l in (L, prev): lib.fn("destroyAlphaList", None, PTR)(l)
def op_read(lib, c, M, rng):
    Z, n = M["Z"], c["n"]; lines = [[str(i), str(c["act"][i])] + [word(x) for x in c["nxt"][i]] for i in c["order"]]
    b = c["bad"]; k = rng.randrange(n)
    if b == "action": lines[k][1] = str(M["A"] + rng.randint(0, 2))
    elif b == "negaction": lines[k][1] = "-1"
    elif b == "succ": lines[k][2 + rng.randrange(Z)] = str(n + rng.randint(0, 3))
    elif b == "dup":
        if n == 1: return
        lines[k][0] = lines[(k + 1) % n][0]
    elif b == "trunc": lines[-1] = lines[-1][:rng.randint(1, len(lines[-1]) - 1)]
    elif b == "junk": lines[k][rng.randrange(len(lines[k]))] = rng.choice(["foo", "?", "x"])
    elif b == "long": lines[k][2 + rng.randrange(Z)] = rng.choice("ax") * rng.choice([1094, 1095, 1096, 1097, 3000])
    elif b == "range": lines[k][2 + rng.randrange(Z)] = str(-3 - rng.randint(0, 5))
    f = os.path.join(lib.scratch, f"g{os.getpid()}.pg"); open(f, "w").write("\n".join("  ".join(l) for l in lines) + rng.choice(["", "\n", " \n\n"]))
    w = f"file {[[x if len(x) < 20 else f'{x[:3]}... ({len(x)} characters)' for x in l] for l in lines]} for {M['A']} actions, {Z} observations"
    if b is None:
        r = readback(lib, f, Z); check(r == (n, c["act"], c["nxt"]), f"read {r}; {w}")
        # written again, the same text
        p = lib.fn("PG_read", PTR, CH, INT)(f.encode(), 1); lib.fn("PG_write", None, PTR, CH)(p, (f + "2").encode()); lib.fn("PG_Destructor", None, PTR)(p)
        check(sorted(l.split() for l in open(f + "2") if l.strip()) == sorted(lines), f"writing what was read gives {open(f + '2').read()}; {w}")
    else:
        l = lib.fn("LPG_read", PTR, CH, INT)(f.encode(), 1); check(not l, f"inconsistent graph ({b}) accepted; {w}")
def op_clone(lib, c, M, rng):
    Z, n = M["Z"], c["n"]; p = mkpg(lib, c, M); ids = rng.sample(range(n + rng.choice([0, 3])), n)
    ctypes.memmove(lib.get("PG_Struct", "id", p, PTR), (INT * n)(*ids), 4 * n)
    q = lib.fn("PG_clone", PTR, PTR)(p); w = f"nodes {ids}, actions {c['act']}, successors {c['nxt']}"
    got = lib.ri(lib.get("PG_Struct", "id", q, PTR), n); check(got == ids, f"the copy's nodes are {got}; {w}")
    check(pgof(lib, q, Z) == pgof(lib, p, Z) == (n, c["act"], c["nxt"]), f"the copy is {pgof(lib, q, Z)}; {w}")
    check(lib.get("PG_Struct", "next", q, PTR) != lib.get("PG_Struct", "next", p, PTR), f"the copy shares storage; {w}")
    lib.fn("PG_Destructor", None, PTR)(q); check(pgof(lib, p, Z) == (n, c["act"], c["nxt"]), f"destroying the copy changed the graph; {w}")
    lib.fn("PG_Destructor", None, PTR)(p)
def op_relinkpg(lib, c, M, rng):
    Z, n = M["Z"], c["n"]; p = mkpg(lib, c, M); m = [rng.randrange(50) for _ in range(n)]; mi = rng.randint(0, n - 1)
    mp = lib.iarr(m); lib.fn("PG_relink", None, PTR, PTR, INT)(p, mp, mi); lib.free(mp)
    exp = [[x if x < 0 else NOI if x > mi else m[x] for x in r] for r in c["nxt"]]
    g = pgof(lib, p, Z); check(g == (n, c["act"], exp), f"relinking {c['nxt']} by {m} (largest index {mi}) gives {g[2]}, expected {exp}")
    lib.fn("PG_Destructor", None, PTR)(p)
def rowexp(M, c, s, k):
    n = c["n"]; e = [0.0] * (n * M["S"]); e[k + s * n] += 1.0; a = c["act"][k]
    for t in range(M["S"]):
        for z in range(M["Z"]):
            x = c["nxt"][k][z]
            if x >= 0: e[x + t * n] -= M["discount"] * M["T"][a][s][t] * M["O"][a][t][z]
    return e
def rawq(M): return [[(-x if M["values"] == "cost" else x) for x in r] for r in immediate(M)]
def op_coef(lib, c, M, rng):
    p = mkpg(lib, c, M); n, S = c["n"], M["S"]; co = lib.darr([99.0] * (n * S))
    for s in range(S):
        for k in range(n):
            lib.fn("PGE_setRowCoefs", None, PTR, INT, INT, PTR)(p, s, k, co); g = lib.rd(co, n * S); e = rowexp(M, c, s, k)
            check(vclose(g, e, 1e-12), f"equation of node {k}, state {s} has coefficients {g}, expected {e}: actions {c['act']}, successors {c['nxt']}\n{text(M)}")
    lib.free(co); lib.fn("PG_Destructor", None, PTR)(p)
def solve(A, b):
    n = len(b); m = [r[:] + [x] for r, x in zip(A, b)]
    for i in range(n):
        p = max(range(i, n), key=lambda r: abs(m[r][i]))
        if abs(m[p][i]) < 1e-13: return None
        m[i], m[p] = m[p], m[i]
        for r in range(n):
            if r != i and m[r][i]: f = m[r][i] / m[i][i]; m[r] = [x - f * y for x, y in zip(m[r], m[i])]
    return [m[i][n] / m[i][i] for i in range(n)]
def op_eval(lib, c, M, rng):
    p = mkpg(lib, c, M); n, S = c["n"], M["S"]; q = rawq(M)
    x = solve([rowexp(M, c, s, k) for s in range(S) for k in range(n)], [q[c["act"][k]][s] for s in range(S) for k in range(n)])
    ctx = lib.fn("PGEC_Constructor", PTR)(); ok = lib.fn("PGE_evaluate", INT, PTR, PTR)(p, ctx)
    w = f"actions {c['act']}, successors {c['nxt']}\n{text(M)}"
    if ok and x is not None:
        so = [lib.rd(r, n) for r in lib.rp(lib.get("PgEvalContextStruct", "soln", ctx, PTR), S)]
        sc = max(1.0, max(abs(v) for v in x))
        for s in range(S):
            for k in range(n): check(abs(so[s][k] - x[k + s * n]) <= 1e-3 * sc, f"value of node {k} in state {s} is {so[s][k]}, the graph's equations give {x[k + s * n]}; {w}")
        for b in beliefs(rng, S, 2):
            bp = lib.darr(b); best = lib.iarr([-9]); v = lib.fn("PGEC_val", D, PTR, PTR, PTR)(ctx, bp, best); k = lib.ri(best, 1)[0]; lib.free(bp); lib.free(best)
            vs = [math.fsum(so[s][j] * b[s] for s in range(S)) for j in range(n)]
            check(close(v, max(vs), 1e-9) and 0 <= k < n and close(vs[k], v, 1e-9), f"value {v} at node {k} for belief {b}, nodes give {vs}; {w}")
        # the context adapts to another graph
        c2 = dict(c, n=1, act=[c["act"][0]], nxt=[[0] * M["Z"]]); p2 = mkpg(lib, c2, M)
        y = solve([rowexp(M, c2, s, 0) for s in range(S)], [q[c2["act"][0]][s] for s in range(S)])
        if lib.fn("PGE_evaluate", INT, PTR, PTR)(p2, ctx) and y:
            so = [lib.rd(r, 1)[0] for r in lib.rp(lib.get("PgEvalContextStruct", "soln", ctx, PTR), S)]
            for s in range(S): check(abs(so[s] - y[s]) <= 1e-3 * max(1, max(map(abs, y))), f"second graph in the same context: {so}, expected {y}; {w}")
        lib.fn("PG_Destructor", None, PTR)(p2)
    lib.fn("PGEC_Destructor", None, PTR)(ctx); lib.fn("PG_Destructor", None, PTR)(p)
def op_best(lib, c, M, rng):
    """largest node value, given the values"""
    S, n = M["S"], c["n"]; ctx = lib.fn("PGEC_Constructor", PTR)(); p = mkpg(lib, c, M); lib.fn("PGEC_update", None, PTR, PTR)(ctx, p)
    so = [[rng.choice([-2.0, 0.0, 1.0, 3.5, -7.0]) for _ in range(n)] for _ in range(S)]
    if rng.random() < .3: so = [[x - 5000.0 for x in r] for r in so]
    for q, r in zip(lib.rp(lib.get("PgEvalContextStruct", "soln", ctx, PTR), S), so): ctypes.memmove(q, (D * n)(*r), 8 * n)
    for b in beliefs(rng, S, 3):
        bp = lib.darr(b); best = lib.iarr([-9]); v = lib.fn("PGEC_val", D, PTR, PTR, PTR)(ctx, bp, best); k = lib.ri(best, 1)[0]; lib.free(bp); lib.free(best)
        vs = [math.fsum(so[s][j] * b[s] for s in range(S)) for j in range(n)]
        check(close(v, max(vs), 1e-12) and 0 <= k < n and close(vs[k], v, 1e-12), f"value {v} at node {k} for belief {b}, nodes give {vs}")
    lib.fn("PGEC_Destructor", None, PTR)(ctx); lib.fn("PG_Destructor", None, PTR)(p)
