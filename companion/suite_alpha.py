"""vector sets: lookup, set operations, pruning marks, sorting, reading and writing"""
from .base import *
import math, os

OPS = {"P03": ["best"], "P05": ["dom", "marksimplex", "markrandom"], "P06": ["setops", "copy", "history", "extract", "dvlist", "illist"], "P22": ["sort", "compare"], "P20": ["save", "readbad", "readtok"]}
def rvec(rng, n, mode):
    if mode == 0: return [float(rng.randint(-3, 3)) for _ in range(n)]
    if mode == 1: return [rng.randint(-8, 8) / 4.0 for _ in range(n)]
    if mode == 2: return [rng.uniform(-10, 10) for _ in range(n)]
    return [float(rng.choice([0, 0, 1, -1])) for _ in range(n)]
def rbel(rng, n):
    m = rng.randint(0, 2)
    if m == 0:
        i = rng.randrange(n); return [1.0 if k == i else 0.0 for k in range(n)]
    w = [rng.choice([0, 1, 2, 3, 5]) for _ in range(n)]
    if sum(w) == 0: w[0] = 1
    return [x / sum(w) for x in w]
def rvecs(rng, n, k, mode):
    vs = [rvec(rng, n, mode) for _ in range(k)]
    for i in range(1, k):
        if rng.random() < 0.2: vs[i] = list(rng.choice(vs[:i]))
        elif rng.random() < 0.15: vs[i] = [x + rng.choice([-1, 1, 0.5]) for x in rng.choice(vs[:i])]
    return vs
def gen(rng, i, prop):
    op = rng.choice(OPS.get(prop) or sum(OPS.values(), []))
    n = rng.choice([1, 2, 2, 3, 3, 4, 5, 7]); mode = rng.randint(0, 3)
    k = rng.choice([0, 1, 1, 2, 3, 4, 5, 8, 12])
    c = dict(op=op, n=n, eps=rng.choice([1e-9, 1e-9, 1e-6, 0.3]), vecs=rvecs(rng, n, k, mode), acts=[rng.randint(0, 3) for _ in range(k)], seed=rng.randint(0, 10**9), b=rbel(rng, n))
    if op in ("setops", "copy", "extract"):
        k2 = rng.choice([0, 1, 2, 3, 5]); c["vecs2"] = rvecs(rng, n, k2, mode); c["acts2"] = [rng.randint(0, 3) for _ in range(k2)]
        if k and rng.random() < .5:
            for j in range(k2):
                if rng.random() < .5: c["vecs2"][j] = list(rng.choice(c["vecs"]))
        c["marks"] = [rng.randint(0, 1) for _ in range(k)]; c["probe"] = rng.choice(c["vecs"]) if c["vecs"] and rng.random() < .6 else rvec(rng, n, mode)
        c["nz"] = rng.choice([1, 2, 3, 4])
    if op == "history":
        c["ops"] = [[rng.choice(["app", "pre", "enq", "deq", "ext", "uni", "remdom", "remmark", "uniq", "dup", "sort"]), rng.randint(0, 20), rvec(rng, n, mode)] for _ in range(rng.randint(1, 14))]
    if op in ("dvlist", "illist"):
        c["ops"] = [[rng.choice(["app", "app", "remove", "contains", "removeall"]), rvec(rng, n, 3), rng.randint(0, 4)] for _ in range(rng.randint(1, 12))]
    if op in ("dom", "marksimplex", "markrandom"):
        c["save_w"] = rng.randint(0, 1)
    if op == "compare":
        m = rng.choice([0, 1, 3]); a = rvec(rng, n, m); b = list(a)
        e = c["eps"]
        for j in range(n):
            if rng.random() < .4: b[j] += rng.choice([e * 0.5, -e * 0.5, e * 2, -e * 2, 1, -1, 0])
        c["x"], c["y"] = a, b
        c["z"] = [rng.choice([0, 0, e * .5, -e * .5, e * 2]) for _ in range(n)]
    if op in ("save", "readbad", "readtok"):
        c["max"] = rng.choice([0, 0, -1, 1, 2, 3, k, k + 2]); c["cut"] = rng.randint(1, 60); c["junk"] = rng.choice(["x", "#", "y1", "abc", "-"])
    return c

def dot(a, b): return sum(x * y for x, y in zip(a, b))
def setn(lib, n, z=2):
    lib.si("gNumStates", n); lib.si("gNumActions", 5); lib.si("gNumObservations", z)
    try: INT.in_dll(lib.c, "gMinimumImmediateReward")
    except Exception: pass

def lexbetter(a, b, e):
    for x, y in zip(a, b):
        if abs(x - y) < e: continue
        return x > y + e or x >= y + e
    return False

def snapshot(lib, L, n, z=0):
    """contents of a list, member by member"""
    out = []
    for p in lib.nodes(L):
        o = lib.af(p, "obs_source")
        w = lib.af(p, "witness")
        out.append(dict(p=p, v=lib.av(p, n), a=lib.af(p, "action"), id=lib.af(p, "id"), obs=lib.af(p, "obs"), prev=lib.af(p, "prev_source"), f=lib.af(p, "first_source"), s=lib.af(p, "second_source"), mark=lib.af(p, "mark"), hook=lib.af(p, "hook"),
                        src=lib.rp(o, z) if o and z else None, w=lib.rd(w, n) if w else None))
    return out
KEYS = ("v", "a", "id", "obs", "prev", "f", "s", "mark", "hook")
def same_content(x, y, keys, what):
    for k in keys: check(x[k] == y[k], f"{what}: field {k} differs: {x[k]} vs {y[k]}")

def run(lib, c):
    setn(lib, c["n"], c.get("nz", 2))
    globals()["op_" + c["op"]](lib, c)

# ----------------------------------------------------------------- P03
def op_best(lib, c):
    n, e, b, V = c["n"], c["eps"], c["b"], c["vecs"]
    L = lib.mklist(V, c["acts"]); before = snapshot(lib, L, n)
    bp = lib.darr(b)
    out = lib.malloc(8)
    for fname, prim in (("bestVector", 0), ("bestVectorPrimed", 1), ("bestVectorValue", 0), ("bestVectorValuePrimed", 1)):
        for init in ([0.0, 5.0, -100.0] if prim else [0.0]):
            ctypes.memmove(out, (D * 1)(0), 8)
            if fname == "bestVectorPrimed": r = lib.fn(fname, PTR, PTR, PTR, PTR, D, D)(L, bp, out, init, e)
            elif fname == "bestVector": r = lib.fn(fname, PTR, PTR, PTR, PTR, D)(L, bp, out, e)
            else:
                v = lib.fn(fname, D, PTR, PTR, PTR, D, D)(L, bp, out, init, e) if prim else lib.fn(fname, D, PTR, PTR, PTR, D)(L, bp, out, e)
                r = lib.rp(out, 1)[0]; ctypes.memmove(out, (D * 1)(v), 8)
            val = lib.rd(out, 1)[0]
            vals = [dot(v, b) for v in V]
            if prim:
                if r is None:
                    check(close(val, init) and all(x <= init + e + 1e-9 for x in vals), f"{fname}: no vector returned although one beats the initial value {init}: {vals}")
                    continue
            else:
                if not V:
                    check(r is None, "bestVector on the empty set returned a vector"); check(val < -1e300, f"bestVector on the empty set gave value {val}"); continue
                check(r is not None, "bestVector on a non-empty set returned nothing")
            idx = [i for i, s in enumerate(before) if s["p"] == r]
            check(len(idx) == 1, f"{fname}: returned vector is no member")
            i = idx[0]
            check(abs(val - vals[i]) <= e + 1e-9 and any(close(val, x, 1e-9) for x in vals), f"{fname}: value {val} is not the dot product {vals[i]} of the returned vector")
            m = max(vals)
            check(val >= m - e - 1e-9, f"{fname}: value {val} below the maximum {m}")
            # among members within the tolerance the lexicographically larger one is preferred
            if e <= 1e-6:
                top = [j for j in range(len(V)) if abs(vals[j] - m) < e * .5]
                gap = [j for j in range(len(V)) if j not in top and m - vals[j] < 3 * e]
                if not gap and i in top:
                    for j in top:
                        check(not all(x == y for x, y in zip(V[j], V[i])) or True, "")
                        if lexbetter(V[j], V[i], max(e, 1e-9)) and all(abs(x - y) > 10 * e or x == y for x, y in zip(V[j], V[i])):
                            raise Violation(f"{fname}: vector {V[i]} preferred over lexicographically larger {V[j]} of equal value")
    check(snapshot(lib, L, n) == before, "lookup changed the set")
    check(lib.rd(bp, n) == b, "lookup changed the belief")
    r = lib.fn("findAlphaVector", PTR, PTR, PTR, D)(L, bp, e)
    first = [s["p"] for s in before if all(abs(x - y) < e for x, y in zip(s["v"], b))]
    check(r == (first[0] if first else None), "findAlphaVector does not return the first matching member")

# ----------------------------------------------------------------- P05
def dominates(x, y): return all(a > b for a, b in zip(x, y))
def op_dom(lib, c):
    n, V, e = c["n"], c["vecs"], c["eps"]
    L = lib.mklist(V, c["acts"]); before = snapshot(lib, L, n)
    if V:
        x = lib.darr(V[len(V) // 2]); q = lib.darr([t - 0.25 for t in V[0]])
        r = lib.fn("dominatedAlphaList", INT, PTR, PTR)(q, L)
        check(bool(r) == any(dominates(v, [t - 0.25 for t in V[0]]) for v in V), "dominatedAlphaList wrong")
        lib.fn("clearMarkAlphaList", None, PTR)(L)
        lib.fn("markDominatedAlphaList", INT, PTR, PTR)(x, L)
        for s in snapshot(lib, L, n): check(bool(s["mark"]) == dominates(V[len(V) // 2], s["v"]), f"marking of dominated vector {s['v']} by {V[len(V)//2]} wrong: {s['mark']}")
        lib.fn("clearMarkAlphaList", None, PTR)(L)
    num = lib.fn("dominationCheck", INT, PTR)(L)
    after = snapshot(lib, L, n); surv = {s["p"] for s in after}
    check(num == len(V) - len(after), f"dominationCheck reports {num} removed, {len(V) - len(after)} were")
    pos = [s["p"] for s in before]
    check([p for p in pos if p in surv] == [s["p"] for s in after], "dominationCheck reordered the survivors")
    for s in before:
        if s["p"] in surv:
            t = [x for x in after if x["p"] == s["p"]][0]
            check(t["v"] == s["v"] and t["a"] == s["a"], "dominationCheck changed a surviving vector")
        else:
            check(any(all(x >= y - 1e-9 for x, y in zip(t["v"], s["v"])) for t in after), f"dominationCheck removed {s['v']} which no remaining vector covers: {[t['v'] for t in after]}")
    for s in after:
        for t in after:
            if s is not t: check(not dominates(t["v"], [y + 1e-7 for y in s["v"]]), "dominated vector kept")

def op_marksimplex(lib, c):
    n, V, e = c["n"], c["vecs"], 1e-9
    if not V: return
    L = lib.mklist(V, c["acts"]); before = snapshot(lib, L, n)
    lib.fn("clearMarkAlphaList", None, PTR)(L)
    lib.fn("initGlobal", None)()
    lib.fn("markBestAtSimplexVertices", None, PTR, INT, D)(L, c["save_w"], e)
    after = snapshot(lib, L, n)
    check([s["p"] for s in before] == [s["p"] for s in after] and [s["v"] for s in before] == [s["v"] for s in after], "marking changed the set")
    mk = [s for s in after if s["mark"]]
    for i in range(n):
        m = max(s["v"][i] for s in after)
        check(any(s["v"][i] >= m - 1e-8 for s in mk), f"no best vector marked at simplex vertex {i}")
    for s in mk: check(any(s["v"][i] >= max(t["v"][i] for t in after) - 1e-8 for i in range(n)), f"vector {s['v']} marked though best at no vertex")
    if c["save_w"]:
        for s in mk:
            check(s["w"] is not None, "marked vector has no witness"); check(close(dot(s["w"], s["v"]), max(dot(s["w"], t["v"]) for t in after), 1e-7), "recorded witness is not a point where the vector is best")
    lib.fn("cleanUpGlobal", None)()
def op_markrandom(lib, c):
    n, V, e = c["n"], c["vecs"], 1e-9
    if not V: return
    L = lib.mklist(V, c["acts"]); before = snapshot(lib, L, n)
    lib.fn("clearMarkAlphaList", None, PTR)(L)
    lib.fn("initGlobal", None)()
    lib.fn("markBestAtRandomPoints", None, PTR, INT, INT, D)(L, 6, 1, e)
    after = snapshot(lib, L, n)
    check([s["p"] for s in before] == [s["p"] for s in after] and [s["v"] for s in before] == [s["v"] for s in after], "marking changed the set")
    for s in after:
        if s["mark"]:
            check(s["w"] is not None, "marked vector has no witness")
            check(abs(sum(s["w"]) - 1) < 1e-6 and min(s["w"]) >= -1e-12, f"witness is no belief: {s['w']}")
            check(dot(s["w"], s["v"]) >= max(dot(s["w"], t["v"]) for t in after) - 1e-7, "recorded witness is not a point where the marked vector is best")
    check(any(s["mark"] for s in after), "no vector marked")
    lib.fn("cleanUpGlobal", None)()

# ----------------------------------------------------------------- P06
def decorate(lib, L, c, z):
    """give the members provenance so that copies can be compared"""
    ps = lib.nodes(L)
    for j, p in enumerate(ps):
        if j % 2 == 0:
            o = lib.fn("newObsSourceArray", PTR)(); lib.afs(p, "obs_source", o)
            (PTR * z).from_address(o)[:] = [ps[(j + q) % len(ps)] for q in range(z)]
        lib.afs(p, "obs", j % 3); lib.afs(p, "prev_source", ps[0]); lib.afs(p, "first_source", ps[-1]); lib.afs(p, "second_source", ps[j // 2]); lib.afs(p, "mark", j % 2)
def op_copy(lib, c):
    n, z, V = c["n"], c["nz"], c["vecs"]
    L = lib.mklist(V, c["acts"], ids=[3 * i + 1 for i in range(len(V))]); decorate(lib, L, c, z) if V else None
    lib.afs(L, "action", 2); lib.afs(L, "obs", 1)
    before = snapshot(lib, L, n, z)
    def cmp(M, what, src=True):
        got = snapshot(lib, M, n, z)
        check(len(got) == len(before), f"{what}: {len(got)} members instead of {len(before)}")
        for x, y in zip(before, got):
            same_content(x, y, KEYS, what)
            check(y["src"] is None and y["w"] is None, f"{what}: choices/witness of the copy should be blank")
            check(y["p"] != x["p"] and lib.af(y["p"], "alpha") != lib.af(x["p"], "alpha"), f"{what}: shares storage")
        check(snapshot(lib, L, n, z) == before, f"{what}: source changed")
    M = lib.fn("duplicateAlphaList", PTR, PTR)(L); cmp(M, "duplicateAlphaList")
    check(lib.af(M, "action") == 2 and lib.af(M, "obs") == 1, "duplicateAlphaList: header action/observation not copied")
    D2 = lib.mklist(c["vecs2"], c["acts2"])
    lib.fn("copyAlphaList", None, PTR, PTR)(D2, L); cmp(D2, "copyAlphaList")
    # independence: changing the copy leaves the original alone
    lib.fn("clearAlphaList", None, PTR)(M); check(lib.nodes(M) == [] and lib.af(M, "length") == 0, "clearAlphaList leaves members")
    check(snapshot(lib, L, n, z) == before, "clearing the copy changed the original")
    lib.fn("destroyAlphaList", None, PTR)(D2)
    check(snapshot(lib, L, n, z) == before, "destroying the copy changed the original")
    for p in before:
        q = lib.fn("duplicateAlphaNode", PTR, PTR)(p["p"])
        check(lib.av(q, n) == p["v"] and lib.af(q, "action") == p["a"], "duplicateAlphaNode contents")
        lib.fn("destroyAlphaNode", None, PTR)(q)
    lib.fn("clearObsSourceAlphaList", None, PTR)(L)
    for x, y in zip(before, snapshot(lib, L, n, z)): check(y["src"] is None and y["v"] == x["v"], "clearObsSource")

def op_setops(lib, c):
    n, z, V, W = c["n"], c["nz"], c["vecs"], c["vecs2"]; e = 1e-9
    def mk(): return lib.mklist(V, c["acts"]), lib.mklist(W, c["acts2"])
    L, M = mk(); a, b = snapshot(lib, L, n), snapshot(lib, M, n)
    check(lib.fn("sizeAlphaList", INT, PTR)(L) == len(V), "sizeAlphaList")
    lib.fn("unionTwoAlphaLists", None, PTR, PTR)(L, M)
    r = snapshot(lib, L, n)
    check([x["p"] for x in r] == [x["p"] for x in a + b] and [x["v"] for x in r] == V + W and [x["a"] for x in r] == c["acts"] + c["acts2"], "union is not first set followed by second")
    # append / prepend (copies of vector data)
    L, _ = mk(); q = lib.darr(c["probe"])
    nd = lib.fn("appendAlphaList", PTR, PTR, PTR, INT)(L, q, 3); r = snapshot(lib, L, n)
    check([x["v"] for x in r] == V + [c["probe"]] and r[-1]["p"] == nd and r[-1]["a"] == 3, "appendAlphaList")
    L, _ = mk(); q = lib.darr(c["probe"])
    nd = lib.fn("prependAlphaList", PTR, PTR, PTR, INT)(L, q, 3); r = snapshot(lib, L, n)
    check([x["v"] for x in r] == [c["probe"]] + V and r[0]["p"] == nd and r[0]["a"] == 3, "prependAlphaList")
    L, _ = mk(); q = lib.darr(c["probe"])
    present = any(all(abs(x - y) < e for x, y in zip(v, c["probe"])) for v in V)
    nd = lib.fn("appendUniqueAlphaList", PTR, PTR, PTR, INT, D)(L, q, 3, e); r = snapshot(lib, L, n)
    if present: check(nd is None and [x["v"] for x in r] == V, "appendUnique added a present vector")
    else: check(nd == r[-1]["p"] and [x["v"] for x in r] == V + [c["probe"]], "appendUnique did not append a new vector")
    L, M = mk()
    s = lib.fn("sameAlphaList", INT, PTR, PTR, D)(L, M, e)
    check(bool(s) == (len(V) == len(W) and all(vclose(x, y, 1e-9) for x, y in zip(V, W))), "sameAlphaList wrong")
    s = lib.fn("similarAlphaList", INT, PTR, PTR, D)(L, M, e)
    near = lambda x, S: any(all(abs(p - q) < e for p, q in zip(x, y)) for y in S)
    check(bool(s) == (len(V) == len(W) and all(near(x, W) for x in V) and (True)), "similarAlphaList wrong") if all(near(x, W) for x in V) == all(near(y, V) for y in W) else None
    lib.fn("renumberAlphaList", None, PTR)(L); check([x["id"] for x in snapshot(lib, L, n)] == list(range(len(V))), "renumberAlphaList")
    # prepend/enqueue/dequeue of nodes
    nd = lib.fn("newAlphaNode", PTR, PTR, INT)(lib.darr(c["probe"]), 1)
    lib.fn("enqueueAlphaNode", None, PTR, PTR)(L, nd); check([x["v"] for x in snapshot(lib, L, n)] == V + [c["probe"]], "enqueue")
    d = lib.fn("dequeueAlphaNode", PTR, PTR)(L); exp = (V + [c["probe"]])
    check(lib.av(d, n) == exp[0] and [x["v"] for x in snapshot(lib, L, n)] == exp[1:] and lib.af(d, "next") is None, "dequeue")
    lib.fn("prependNodeToAlphaList", None, PTR, PTR)(L, d); check([x["v"] for x in snapshot(lib, L, n)] == exp, "prepend node")
def op_extract(lib, c):
    n, V = c["n"], c["vecs"]; e = 1e-9
    def mk(marks=True):
        L = lib.mklist(V, c["acts"])
        for p, m in zip(lib.nodes(L), c["marks"]): lib.afs(p, "mark", m if marks else 0)
        return L
    L = mk(); a = snapshot(lib, L, n)
    check(lib.fn("sizeUnmarkedAlphaList", INT, PTR)(L) == c["marks"].count(0), "sizeUnmarked")
    check(bool(lib.fn("allMarkedAlphaList", INT, PTR)(L)) == all(c["marks"]), "allMarked")
    f = lib.fn("findUnmarkedVector", PTR, PTR)(L); un = [x["p"] for x in a if not x["mark"]]
    check(f == (un[0] if un else None), "findUnmarkedVector")
    X = lib.fn("extractMarkedAlphaList", PTR, PTR)(L)
    r, x = snapshot(lib, L, n), snapshot(lib, X, n)
    check([s["p"] for s in r] == un, f"extractMarked leaves {[s['v'] for s in r]}")
    check([s["p"] for s in x] == [s["p"] for s in a if s["mark"]], "extractMarked extracted the wrong members or order")
    check([s["v"] for s in x] == [s["v"] for s in a if s["mark"]] and all(s["mark"] == 0 for s in x), "extractMarked changed vectors or left marks")
    L = mk(); k = lib.fn("removeMarkedAlphaList", INT, PTR)(L); check(k == c["marks"].count(1) and len(lib.nodes(L)) == c["marks"].count(0), "removeMarked")
    L = mk(); u = lib.fn("extractUnmarkedVector", PTR, PTR)(L); r = snapshot(lib, L, n)
    check(u == ([p for p, m in zip([1] * 0, [])] or u), "")
    if 0 in c["marks"]:
        k = c["marks"].index(0); check(u and lib.av(u, n) == V[k] and [s["v"] for s in r] == V[:k] + V[k + 1:], "extractUnmarkedVector")
    else: check(u is None and [s["v"] for s in r] == V, "extractUnmarkedVector")
    # extraction by pointer / value
    for k in range(len(V)):
        L = mk(False); ps = lib.nodes(L); g = lib.fn("extractAlphaNode", PTR, PTR, PTR)(L, ps[k])
        check(g == ps[k] and [s["v"] for s in snapshot(lib, L, n)] == V[:k] + V[k + 1:] and lib.af(g, "next") is None, f"extractAlphaNode {k}")
    L = mk(False); q = lib.darr(c["probe"]); idx = [i for i, v in enumerate(V) if all(abs(x - y) < e for x, y in zip(v, c["probe"]))]
    g = lib.fn("extractFromAlphaList", PTR, PTR, PTR, D)(L, q, e)
    if idx: check(g and [s["v"] for s in snapshot(lib, L, n)] == V[:idx[0]] + V[idx[0] + 1:], "extractFromAlphaList")
    else: check(g is None and [s["v"] for s in snapshot(lib, L, n)] == V, "extractFromAlphaList")
    L = mk(False); g = lib.fn("removeFromAlphaList", INT, PTR, PTR, D)(L, q, e)
    check(bool(g) == bool(idx) and len(lib.nodes(L)) == len(V) - bool(idx), "removeFromAlphaList")
    L = mk(False); nrem = lib.fn("removeDominatedAlphaList", INT, PTR, PTR)(q, L)
    keep = [v for v in V if not dominates(c["probe"], v)]
    check([s["v"] for s in snapshot(lib, L, n)] == keep and nrem == len(V) - len(keep), "removeDominatedAlphaList")
    if V:
        L = mk(False); bp = lib.darr(c["b"]); g = lib.fn("removebestVectorNode", PTR, PTR, PTR, D)(L, bp, e)
        check(g and close(dot(lib.av(g, n), c["b"]), max(dot(v, c["b"]) for v in V), 1e-8) and len(lib.nodes(L)) == len(V) - 1, "removebestVectorNode")
def op_history(lib, c):
    n = c["n"]; L = lib.mklist(c["vecs"], c["acts"]); model = [tuple(v) for v in c["vecs"]]
    for o, k, v in c["ops"]:
        t = tuple(v)
        if o == "app": lib.fn("appendAlphaList", PTR, PTR, PTR, INT)(L, lib.darr(v), 1); model.append(t)
        elif o == "pre": lib.fn("prependAlphaList", PTR, PTR, PTR, INT)(L, lib.darr(v), 1); model.insert(0, t)
        elif o == "enq": lib.fn("enqueueAlphaNode", None, PTR, PTR)(L, lib.fn("newAlphaNode", PTR, PTR, INT)(lib.darr(v), 1)); model.append(t)
        elif o == "deq":
            d = lib.fn("dequeueAlphaNode", PTR, PTR)(L)
            check((d is None) == (not model), "dequeue of an empty set")
            if model:
                check(tuple(lib.av(d, n)) == model.pop(0), "dequeue gives the wrong vector"); lib.fn("destroyAlphaNode", None, PTR)(d)
        elif o == "ext":
            ps = lib.nodes(L)
            if ps:
                d = lib.fn("extractAlphaNode", PTR, PTR, PTR)(L, ps[k % len(ps)]); check(d == ps[k % len(ps)], "extract"); model.pop(k % len(ps)); lib.fn("destroyAlphaNode", None, PTR)(d)
        elif o == "uni":
            M = lib.mklist([v, v]); empty = False
            lib.fn("unionTwoAlphaLists", None, PTR, PTR)(L, M); model += [t, t]
        elif o == "remdom":
            lib.fn("removeDominatedAlphaList", INT, PTR, PTR)(lib.darr(v), L); model = [x for x in model if not dominates(v, x)]
        elif o == "remmark":
            ps = lib.nodes(L)
            for i, p in enumerate(ps): lib.afs(p, "mark", (k >> (i % 4)) & 1)
            model = [x for i, x in enumerate(model) if not (k >> (i % 4)) & 1]
            lib.fn("removeMarkedAlphaList", INT, PTR)(L)
        elif o == "uniq":
            if not any(all(abs(x - y) < 1e-9 for x, y in zip(m, t)) for m in model):
                model.append(t)
                lib.fn("appendUniqueAlphaList", PTR, PTR, PTR, INT, D)(L, lib.darr(v), 1, 1e-9)
            else: check(lib.fn("appendUniqueAlphaList", PTR, PTR, PTR, INT, D)(L, lib.darr(v), 1, 1e-9) is None, "appendUnique of a present vector")
        elif o == "dup": L = lib.fn("duplicateAlphaList", PTR, PTR)(L)
        elif o == "sort":
            lib.fn("sortAlphaList", None, PTR)(L); model.sort()
        got = [tuple(s["v"]) for s in snapshot(lib, L, n)]
        check(got == model, f"after {o}: set is {got}, expected {model}")

def op_dvlist(lib, c): pass
def op_illist(lib, c): pass

# ----------------------------------------------------------------- P22
def op_sort(lib, c):
    n, V = c["n"], c["vecs"]
    L = lib.mklist(V, c["acts"], ids=[7] * len(V)); before = snapshot(lib, L, n)
    lib.fn("sortAlphaList", None, PTR)(L); after = snapshot(lib, L, n)
    check(sorted(s["p"] for s in before) == sorted(s["p"] for s in after), "sorting lost or duplicated a member")
    byp = {s["p"]: s for s in before}
    for s in after: check(s["v"] == byp[s["p"]]["v"] and s["a"] == byp[s["p"]]["a"], "sorting changed a vector")
    check([s["id"] for s in after] == list(range(len(after))), f"numbering after sorting: {[s['id'] for s in after]}")
    for x, y in zip(after, after[1:]): check(x["v"] <= y["v"], f"not in lexicographic order: {x['v']} before {y['v']}")
def op_compare(lib, c):
    n, e, x, y, z = c["n"], c["eps"], c["x"], c["y"], c["z"]
    X, Y, Z = lib.darr(x), lib.darr(y), lib.darr(z)
    edge = lambda p, q: abs(abs(p - q) - e) < e * 1e-3
    if not any(edge(p, q) for p, q in zip(x, y)):
        check(bool(lib.fn("sameAlpha", INT, PTR, PTR, D)(X, Y, e)) == all(abs(p - q) < e for p, q in zip(x, y)), "sameAlpha")
        check(bool(lib.fn("isLexicographicallyBetterAlpha", INT, PTR, PTR, D)(X, Y, e)) == lexbetter(x, y, e), "isLexicographicallyBetterAlpha")
    check(bool(lib.fn("isZeroAlpha", INT, PTR, D)(Z, e)) == all(abs(p) < e for p in z), "isZeroAlpha")
    check(bool(lib.fn("isDominatedVector", INT, PTR, PTR)(X, Y)) == all(p > q for p, q in zip(x, y)), "isDominatedVector")
    q = lib.fn("duplicateAlpha", PTR, PTR)(X); check(q != X and lib.rd(q, n) == x, "duplicateAlpha")
    lib.fn("copyAlpha", None, PTR, PTR)(q, Y); check(lib.rd(q, n) == y, "copyAlpha")

# ----------------------------------------------------------------- P20
def op_save(lib, c):
    n, V = c["n"], c["vecs"]
    L = lib.mklist(V, c["acts"]); before = snapshot(lib, L, n)
    fn = b"v.alpha"
    lib.fn("saveAlphaList", None, PTR, CH)(L, fn)
    check(snapshot(lib, L, n) == before, "saving changed the set")
    mx = c["max"]
    R_ = lib.fn("readAlphaList", PTR, CH, INT)(fn, mx)
    exp = V if mx <= 0 else V[:mx]; ea = c["acts"] if mx <= 0 else c["acts"][:mx]
    got = snapshot(lib, R_, n)
    check(len(got) == len(exp), f"read {len(got)} vectors, expected {len(exp)} (max {mx})")
    check([s["a"] for s in got] == ea, "actions differ after reading")
    for s, v in zip(got, exp): check(vclose(s["v"], v, 1e-9), f"read {s['v']} for {v}")
    check([s["id"] for s in got] == list(range(len(got))), "numbers of the vectors read are not their positions")
def op_readbad(lib, c):
    """truncated file: either an error exit or a set of complete leading vectors, never an invented vector, never a hang"""
    n, V = c["n"], c["vecs"]
    if not V: return
    L = lib.mklist(V, c["acts"]); lib.fn("saveAlphaList", None, PTR, CH)(L, b"v.alpha")
    txt = open("v.alpha").read(); toks = txt.split()
    k = len(toks) - 1 - c["cut"] % (n + 1) if len(toks) > 1 else 0
    bad = toks[:k]
    if c["cut"] % 3 == 0 and bad: bad[-1] = c["junk"]
    if len(bad) % (n + 1) == 0 and c["junk"] not in bad: return
    open("bad.alpha", "w").write(" ".join(bad) + "\n")
    r = in_fork(lambda: lib.fn("readAlphaList", PTR, CH, INT)(b"bad.alpha", 0), lambda R_: len(lib.nodes(R_)) if R_ else None)
    check(r[0] != "hang", "reading a malformed value function never ends"); check(r[0] != "ok" or r[1] is None, f"malformed value function accepted ({r[1] if r[0] == 'ok' else ''} vectors)")
    check(r[0] in ("exit", "ok"), f"reading a malformed value function crashed: {r}")
def op_readtok(lib, c): op_save(lib, c)

def in_fork(f, g, limit=5):
    """run f in a forked process; ('ok', value) | ('exit', code) | ('hang',) | ('signal', n)"""
    rp, wp = os.pipe(); pid = os.fork()
    if pid == 0:
        os.close(rp)
        dn = os.open(os.devnull, os.O_WRONLY); os.dup2(dn, 2)
        import resource
        try: resource.setrlimit(resource.RLIMIT_CPU, (limit, limit + 1))
        except Exception: pass
        try: v = g(f()); os.write(wp, json.dumps(v).encode())
        except Violation as x: os.write(wp, json.dumps("violation: " + str(x)).encode())
        os._exit(99)
    os.close(wp); t0 = time.time(); st = None
    while time.time() - t0 < limit + 3:
        p, st = os.waitpid(pid, os.WNOHANG)
        if p: break
        time.sleep(0.002)
    else:
        os.kill(pid, 9); os.waitpid(pid, 0); os.close(rp); return ("hang",)
    d = os.read(rp, 1 << 20); os.close(rp)
    if os.WIFSIGNALED(st): return ("hang",) if os.WTERMSIG(st) in (24, 9) else ("signal", os.WTERMSIG(st))
    if os.WEXITSTATUS(st) == 99: return ("ok", json.loads(d) if d else None)
    if os.WEXITSTATUS(st) == 77: return ("asan", 77)
    return ("exit", os.WEXITSTATUS(st))
