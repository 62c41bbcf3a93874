"""Random POMDP models, their text form, and the independent reference semantics used as oracle."""
import random, itertools, math
def dist(rng, n, sparse=0.35):
    m = rng.randint(0, 4)
    if m == 0:
        i = rng.randrange(n); return [1.0 if k == i else 0.0 for k in range(n)]
    w = [0 if rng.random() < sparse else rng.choice([1, 1, 2, 3, 4, 7]) for _ in range(n)]
    if sum(w) == 0: w[rng.randrange(n)] = 1
    s = sum(w); q = [round(x / s, 3) for x in w]
    i = max(range(n), key=lambda k: q[k]); q[i] = round(1.0 - sum(q[k] for k in range(n) if k != i), 3)
    return q
def model(rng, smax=3, amax=3, zmax=3, small=False):
    S, A, Z = rng.randint(1, smax), rng.randint(1, amax), rng.randint(1, zmax)
    M = dict(S=S, A=A, Z=Z, discount=rng.choice([0.5, 0.9, 0.95, 0.75, 1.0, 0.1]), values=rng.choice(["reward", "reward", "cost"]))
    M["T"] = [[dist(rng, S) for _ in range(S)] for _ in range(A)]
    M["O"] = [[dist(rng, Z) for _ in range(S)] for _ in range(A)]
    if Z > 1 and rng.random() < .25:           # an observation that cannot occur after some action
        a, z = rng.randrange(A), rng.randrange(Z)
        for s in range(S):
            r = M["O"][a][s]; w = r[z]; r[z] = 0.0; o = (z + 1) % Z; r[o] = round(r[o] + w, 3)
    R = []
    for _ in range(rng.randint(1, 6)):
        e = [rng.choice([None, None, rng.randrange(A)]), rng.choice([None, rng.randrange(S)]), rng.choice([None, None, rng.randrange(S)]), rng.choice([None, None, rng.randrange(Z)])]
        v = rng.choice([0, 1, -1, 2, -3, 5, 10, -10, 0.5, 2.25, 100])
        k = rng.random()
        if k < .1: R.append(dict(k="mat", a=e[0], s=e[1], v=[[rng.choice([0, 0, 1, -2, 3.5]) for _ in range(Z)] for _ in range(S)]))
        elif k < .2: R.append(dict(k="row", a=e[0], s=e[1], t=e[2], v=[rng.choice([0, 0, 1, -2, 3.5]) for _ in range(Z)]))
        else: R.append(dict(k="one", a=e[0], s=e[1], t=e[2], z=e[3], v=v))
    if not any(r["k"] == "one" for r in R): R.insert(0, dict(k="one", a=None, s=None, t=None, z=None, v=1))
    M["R"] = R
    return M
def reward(M, a, s, t, z):
    v = 0.0
    for r in M["R"]:
        if r["a"] not in (None, a) or r["s"] not in (None, s): continue
        if r["k"] == "mat": v = r["v"][t][z]
        elif r["k"] == "row":
            if r["t"] in (None, t): v = r["v"][z]
        elif r["t"] in (None, t) and r["z"] in (None, z): v = r["v"]
    return v
def immediate(M):
    """expected immediate reward per action and state, costs negated"""
    sg = -1.0 if M["values"] == "cost" else 1.0
    return [[sg * math.fsum(M["T"][a][s][t] * M["O"][a][t][z] * reward(M, a, s, t, z) for t in range(M["S"]) for z in range(M["Z"])) for s in range(M["S"])] for a in range(M["A"])]
def text(M):
    st = lambda x: "*" if x is None else str(x)
    o = [f"discount: {M['discount']}", f"values: {M['values']}", f"states: {M['S']}", f"actions: {M['A']}", f"observations: {M['Z']}"]
    if M.get("start"): o.append("start: " + " ".join(map(str, M["start"])))
    for a in range(M["A"]):
        o.append(f"T: {a}"); o += [" ".join(map(repr, r)) for r in M["T"][a]]
    for a in range(M["A"]):
        o.append(f"O: {a}"); o += [" ".join(map(repr, r)) for r in M["O"][a]]
    for r in M["R"]:
        if r["k"] == "mat": o.append(f"R: {st(r['a'])} : {st(r['s'])}"); o += [" ".join(map(str, x)) for x in r["v"]]
        elif r["k"] == "row": o.append(f"R: {st(r['a'])} : {st(r['s'])} : {st(r['t'])}"); o.append(" ".join(map(str, r["v"])))
        else: o.append(f"R: {st(r['a'])} : {st(r['s'])} : {st(r['t'])} : {st(r['z'])} {r['v']}")
    return "\n".join(o) + "\n"
def update(M, b, a, z):
    """unnormalised successor belief"""
    return [M["O"][a][t][z] * math.fsum(b[s] * M["T"][a][s][t] for s in range(M["S"])) for t in range(M["S"])]
def dotp(x, y): return math.fsum(p * q for p, q in zip(x, y))
def value(M, RI, b, h, term=None):
    """value of the unnormalised belief b with h steps to go, straight from the definition"""
    if h == 0: return max((dotp(v, b) for v in term), default=0.0) if term else 0.0
    best = -math.inf
    for a in range(M["A"]):
        v = dotp(RI[a], b)
        for z in range(M["Z"]):
            u = update(M, b, a, z)
            if sum(u) > 0: v += M["discount"] * value(M, RI, u, h - 1, term)
        best = max(best, v)
    return best
def beliefs(rng, S, n=6):
    out = [[1.0 if k == i else 0.0 for k in range(S)] for i in range(S)] + [[1.0 / S] * S]
    for _ in range(n):
        w = [rng.expovariate(1) for _ in range(S)]; s = sum(w); out.append([x / s for x in w])
    return out
def read_alpha(path):
    """[(action, vector)] from a saved value function"""
    L = [l.split() for l in open(path).read().splitlines() if l.strip()]
    return [(int(L[i][0]), [float(x) for x in L[i + 1]]) for i in range(0, len(L), 2)]
def read_pg(path):
    return [l.split() for l in open(path).read().splitlines() if l.strip()]
def write_alpha(path, vs):
    open(path, "w").write("".join(f"{a}\n{' '.join('%.17g' % x for x in v)}\n\n" for a, v in vs))
