"""Whole runs of the solver on random models against the defining recursion."""
from .base import *
from .modelgen import *
METHODS = ["enum", "twopass", "witness", "incprune"]
def gen(rng, i, prop):
    small = rng.random() < .5
    M = model(rng, 3 if small else 4, 3, 3)
    m = rng.choice(METHODS + ["incprune"]); wide = prop == "P07" and rng.random() < .2
    if wide: M = model(rng, 2, 2, 1); Z = rng.choice([4, 5]); M = widen(rng, M, Z)
    c = dict(op=m, M=M, h=rng.choice([1, 1, 2, 2, 3]), seed=rng.randint(0, 10**9), term=None, opts=[], mode="value")
    if M["A"] * M["Z"] >= 6 or M["S"] > 3: c["h"] = min(c["h"], 2)
    if m == "enum" and (M["A"] ** M["Z"] > 9): c["h"] = min(c["h"], 2)
    if rng.random() < .35:
        k = rng.choice([1, 2, 3, 4])
        c["term"] = [[rng.randrange(M["A"]), [rng.choice([-3, 0, 1, 2, 5, 2.5, -1.5, 10]) for _ in range(M["S"])]] for _ in range(k)]
        if k >= 3: c["h"] = min(c["h"], 2)
    if wide: c["h"] = 1; c["term"] = [[0, [rng.choice([-3, 0, 1, 2, 5]) for _ in range(M["S"])]] for _ in range(2)]
    o = c["opts"]
    if m == "incprune" and rng.random() < .6: o += ["-inc_prune", rng.choice(["normal", "restricted_region", "generalized"])]
    if rng.random() < .3: o += ["-proj_purge", rng.choice(["none", "domonly", "normal_prune"])]
    if rng.random() < .3: o += ["-q_purge", rng.choice(["none", "domonly", "normal_prune"])]
    if m == "enum" and rng.random() < .4: o += ["-enum_purge", rng.choice(["domonly", "normal_prune"] + (["none"] if c["h"] == 1 else []))]
    if rng.random() < .25: o += ["-witness_points", "true"]
    if rng.random() < .25: o += ["-dom_check", "true"]
    if rng.random() < .25: o += ["-alg_rand", str(rng.choice([1, 5, 20]))]
    if rng.random() < .25: o += ["-prune_rand", str(rng.choice([1, 5, 20]))]
    if prop == "P14" or (prop is None and rng.random() < .15):
        c["mode"] = "stop"; c["M"]["discount"] = rng.choice([0.1, 0.3, 0.5]); c["crit"] = rng.choice(["bellman", "bellman", "weak", "exact"]); c["delta"] = rng.choice([0.1, 0.01, 0.5]); c["h"] = rng.choice([0, 0, 0, 2, 3]); c["op"] = rng.choice(["incprune", "enum", "twopass"]); c["opts"] = []; c["term"] = None
        c["M"]["A"] = min(2, M["A"]); c["M"]["Z"] = min(2, M["Z"])
        c["M"] = shrink(rng, c["M"])
    return c
def widen(rng, M, Z):
    """the same model with Z observations"""
    M["Z"] = Z; M["O"] = [[dist(rng, Z, 0.15) for _ in range(M["S"])] for _ in range(M["A"])]; M["R"] = [r for r in M["R"] if r["k"] == "one"] or [dict(k="one", a=None, s=None, t=None, z=None, v=1)]
    return M
def shrink(rng, M):
    N = model(rng, 2, 2, 2); N["discount"] = M["discount"]; return N
def call(lib, d, args, t=50):
    env = dict(os.environ); env.pop("LD_PRELOAD", None)
    p = subprocess.run([lib.exe] + args, cwd=d, stdin=subprocess.DEVNULL, capture_output=True, timeout=t, env=env)
    return p
def scratch(lib, c):
    d = os.path.join(lib.scratch, f"r{os.getpid()}"); shutil.rmtree(d, ignore_errors=True); os.makedirs(d); return d
def run(lib, c):
    d = scratch(lib, c); M = c["M"]; rng = random.Random(c["seed"])
    open(d + "/m.POMDP", "w").write(text(M))
    args = ["-pomdp", "m.POMDP", "-o", "o", "-method", c["op"], "-save_all", "true"] + (["-horizon", str(c["h"])] if c["h"] else []) + c["opts"]
    if c["term"] is not None:
        write_alpha(d + "/t.alpha", [(a, v) for a, v in c["term"]]); args += ["-terminal_values", "t.alpha"]
    if c["mode"] == "stop": args += ["-stop_criteria", c["crit"], "-stop_delta", str(c["delta"])]
    try: p = call(lib, d, args)
    except subprocess.TimeoutExpired: raise Violation(f"solver did not finish: {' '.join(args)}\n{text(M)}")
    out = p.stdout.decode(errors="replace"); err = p.stderr.decode(errors="replace")
    what = f"{' '.join(args)}\n{text(M)}"
    if c["mode"] == "stop" and c["crit"] == "exact" and p.returncode == 0 and not c["h"]: pass
    check(p.returncode == 0 and "Solution found" in out, f"solver failed (status {p.returncode}): {what}\n" + err[-1500:] + out[-300:])
    stages = []
    h = 1
    while os.path.exists(f"{d}/o.alpha{h}"): stages.append((read_alpha(f"{d}/o.alpha{h}"), read_pg(f"{d}/o.pg{h}"))); h += 1
    check(len(stages) >= 1, "no stage was saved")
    RI = immediate(M); g = M["discount"]; S, A, Z = M["S"], M["A"], M["Z"]
    term = [v for _, v in c["term"]] if c["term"] else None
    if c["h"]: check(len(stages) <= c["h"], f"{len(stages)} stages run with horizon {c['h']}: {what}")
    fin = (read_alpha(d + "/o.alpha"), read_pg(d + "/o.pg"))
    key = lambda st: sorted((a, [round(x, 6) for x in v]) for a, v in st[0])
    check(key(fin) == key(stages[-1]), f"saved solution differs from the last stage: {what}")
    epurge = 1e-6
    prev = [(0, v) for v in term] if term else [(0, [0.0] * S)]
    Bs = beliefs(rng, S, 5)
    last = len(stages) - 1
    for n, st in list(enumerate(stages)) + [(last, fin)]:
        vs, pg = st
        if st is fin: prev = before
        pv = [v for _, v in prev]
        check(len(vs) >= 1, f"stage {n + 1} is empty: {what}")
        tol = lambda x: epurge * max(1.0, abs(x))
        for b in Bs:
            got = max(dotp(v, b) for _, v in vs); want = value(M, RI, b, 1, pv)
            check(abs(got - want) <= tol(want), f"stage {n + 1} value {got} at belief {b}, Bellman backup of stage {n} is {want}: {what}")
        if n + 1 <= 3 and c["mode"] == "value":
            b = Bs[-1]; got = max(dotp(v, b) for _, v in vs); want = value(M, RI, b, n + 1, term)
            check(abs(got - want) <= 1e-5 * max(1.0, abs(want)), f"stage {n + 1} value {got} at belief {b}, expectimax value is {want}: {what}")
        # order and numbering
        for (_, x), (_, y) in zip(vs, vs[1:]):
            check(x <= y or any(lex_le(x, y, e) for e in (1e-15, 3e-15, 1e-12, 1e-9)), f"saved vectors are not in lexicographic order: {what}")
        # policy graph
        check(len(pg) == len(vs), f"policy graph has {len(pg)} lines for {len(vs)} vectors: {what}")
        for i, ((a, v), l) in enumerate(zip(vs, pg)):
            check(len(l) == 2 + Z and l[0] == str(i) and l[1] == str(a), f"policy graph line {l} of vector {i} with action {a}: {what}")
            exp = list(RI[a])
            for z in range(Z):
                imp = all(sum(M["T"][a][s][t] * M["O"][a][t][z] for t in range(S)) < 1e-8 for s in range(S))
                if imp: check(l[2 + z] in ("-", "X"), f"successor {l[2 + z]} for the impossible observation {z}: {what}"); continue
                check(l[2 + z].isdigit() and int(l[2 + z]) < len(prev), f"bad successor {l[2 + z]} in line {l}: {what}")
                w = pv[int(l[2 + z])]
                for s in range(S): exp[s] += g * math.fsum(M["T"][a][s][t] * M["O"][a][t][z] * w[t] for t in range(S))
            for s in range(S): check(abs(exp[s] - v[s]) <= 1e-7 * max(1, abs(v[s])), f"stage {n + 1} vector {i} {v} is not the value {exp} of its action and successors {l}: {what}")
        before = prev; prev = vs
    if c["mode"] == "stop": stop(c, M, RI, stages, Bs, rng, what)
def lex_le(x, y, e):
    for p, q in zip(x, y):
        if abs(p - q) < e: continue
        return p < q
    return True
def gap(U, V, S):
    """largest difference between two piecewise-linear functions over the simplex (small S: dense sample plus vertices plus breakpoints)"""
    bs = []
    if S == 1: bs = [[1.0]]
    else:
        vs = U + V; pts = {0.0, 1.0}
        for i in range(len(vs)):
            for j in range(i):
                d0 = vs[i][0] - vs[j][0]; d1 = vs[i][1] - vs[j][1]
                if abs(d0 - d1) > 1e-15:
                    p = d1 / (d1 - d0)
                    if 0 < p < 1: pts.add(p)
        bs = [[p, 1 - p] for p in pts]
    f = lambda W, b: max(dotp(w, b) for w in W)
    return max(abs(f(U, b) - f(V, b)) for b in bs)
def stop(c, M, RI, stages, Bs, rng, what):
    S, g = M["S"], M["discount"]
    vs = [[[0.0] * S]] + [[v for _, v in st] for st, _ in stages]
    thr = c["delta"] * (1 - g) / (2 * g)
    stopped = not c["h"] or len(stages) < c["h"]
    if c["crit"] == "bellman":
        e = [gap(vs[i], vs[i + 1], S) for i in range(len(stages))]
        for i, x in enumerate(e[:-1]): check(x > thr * (1 - 1e-6) - 1e-9, f"bellman error {x} of stage {i + 1} met the threshold {thr}, but the run went on: {what}")
        if stopped: check(e[-1] <= thr * (1 + 1e-6) + 1e-9, f"run stopped with bellman error {e[-1]} above {thr}: {what}")
    elif c["crit"] == "weak":
        def wb(cur, prev): return max(min(max(abs(x - y) for x, y in zip(u, v)) for v in prev) for u in cur)
        e = [wb(vs[i + 1], vs[i]) for i in range(len(stages))]
        for i, x in enumerate(e[:-1]): check(x > min(thr, c["delta"]) * (1 - 1e-6) - 1e-9, f"weak error {x} of stage {i + 1} met the threshold {thr}, but the run went on: {what}")
        if stopped: check(e[-1] <= thr * (1 + 1e-6) + 1e-9, f"run stopped with weak error {e[-1]} above {thr}: {what}")
    else:
        same = lambda X, Y: len(X) == len(Y) and all(max(abs(p - q) for p, q in zip(x, y)) < 2e-9 for x, y in zip(X, Y))
        if stopped: check(same(vs[-1], vs[-2]), f"exact criterion stopped with different consecutive sets {vs[-2]} {vs[-1]}: {what}")
