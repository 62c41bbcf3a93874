"""Companion runs: the executable form of the contracts, on the real code.

Builds every /repo source into one shared object (address sanitizer) and drives the real
functions through ctypes.  A companion run never decides that a property holds: it looks
for a failing input when a proof obligation fails, and stands in - labelled bounded - for
code outside the verifier's reach.
"""
import os, sys, json, ctypes, random, subprocess, tempfile, shutil, hashlib, time, glob, traceback, signal
REPO = os.environ.get("VERIF_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))
PARSER_Y = "f"  # see parser_source
EXCLUDE = {"extra.c", "pg-isomorphism.c"}

class Violation(Exception): pass

def flags(): return ["-DHAVE_CONFIG_H", f"-I{REPO}/src", f"-I{REPO}", f"-I{REPO}/src/mdp", f"-I{REPO}/src/lp-solve", f"-I{REPO}/src/laspack"]

BASE = {}
def baseline_hashes():
    if not BASE:
        for l in open(os.path.join(HERE, "generated.sha256")):
            h, n = l.split(); BASE[n] = h
    return BASE
def sha(p): return hashlib.sha256(open(p, "rb").read()).hexdigest()
def generated(out):
    """the committed generated C is what runs, unless only its grammar was edited: then, as the build does, bison/flex"""
    res = {}
    b = baseline_hashes()
    for src, gen, tool in (("src/mdp/parser.y", ["src/mdp/parser.c", "src/mdp/parser.h"], "bison"), ("src/mdp/scanner.l", ["src/mdp/scanner.c"], "flex"),
                           ("src/lp-solve/lp.y", ["src/lp-solve/lp.c", "src/lp-solve/lp.h"], "bison"), ("src/lp-solve/lex.l", ["src/lp-solve/lex.c"], "flex")):
        ch = lambda f: os.path.exists(f"{REPO}/{f}") and sha(f"{REPO}/{f}") != b.get(f)
        if ch(src) and not any(ch(g) for g in gen) or not os.path.exists(f"{REPO}/{gen[0]}"):
            o = os.path.join(out, os.path.basename(gen[0]))
            if tool == "bison": subprocess.run(["bison", "-y", "-d", "-o", o, f"{REPO}/{src}"], check=True, capture_output=True)
            else: subprocess.run(["flex", "-o", o, f"{REPO}/{src}"], check=True, capture_output=True)
            res[os.path.basename(os.path.dirname(gen[0])) + "/" + os.path.basename(gen[0])] = o
    return res

class BuildError(Exception): pass

def build(out, opt="-O1", san=("-fsanitize=address", "-fno-omit-frame-pointer")):
    """-> dict(so=, exe=) built from /repo's current working tree into the scratch directory `out`"""
    os.makedirs(out, exist_ok=True)
    gen = generated(out)
    src = []
    for f in sorted(glob.glob(f"{REPO}/src/*.c")):
        if os.path.basename(f) in EXCLUDE or f.endswith("main.c"): continue
        src.append(("top", f))
    for f in sorted(glob.glob(f"{REPO}/src/mdp/*.c")): src.append(("mdp", f))
    for f in sorted(glob.glob(f"{REPO}/src/lp-solve/*.c")):
        if os.path.basename(f) in ("demo.c", "lp_solve.c", "readmps.c"): continue
        src.append(("lp-solve", f))
    for f in sorted(glob.glob(f"{REPO}/src/laspack/*.c")): src.append(("laspack", f))
    for k, o in gen.items():
        if not any(f.endswith("/" + k) for _, f in src): src.append((k.split("/")[0], f"{REPO}/src/{k}"))
    src.append(("shim", os.path.join(HERE, "shim.c")))
    src.append(("exe", f"{REPO}/src/main.c"))
    jobs, objs = [], {}
    for lib, f in src:
        o = os.path.join(out, lib + "_" + os.path.basename(f) + ".o")
        key = "/".join(f.split("/")[-2:])
        real = gen.get(key, f)
        inc = [f"-I{out}"] if gen else []
        objs.setdefault(lib, []).append(o)
        jobs.append(["gcc", "-c", "-g", opt, "-w", "-fPIC", *san] + inc + flags() + [f"-I{HERE}", real, "-o", o])
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(8) as ex:
        rs = list(ex.map(lambda j: subprocess.run(j, capture_output=True), jobs))
    for j, r in zip(jobs, rs):
        if r.returncode and not j[-3].endswith("mcgs.c"): raise BuildError(j[-3] + ": " + r.stderr.decode()[:800])
    libs = []
    for l in ("mdp", "lp-solve", "laspack"):
        a = os.path.join(out, f"lib{l}.a"); subprocess.run(["ar", "rc", a] + objs[l], check=True, capture_output=True); libs.append(a)
    so = os.path.join(out, "libpomdp.so"); exe = os.path.join(out, "pomdp-solve")
    tail = ["-Wl,--start-group"] + libs + ["-Wl,--end-group", "-lm"]
    top = [o for o in objs["top"]]
    r = subprocess.run(["gcc", "-shared", *san, "-o", so] + top + objs["shim"] + tail, capture_output=True)
    if r.returncode: raise BuildError("link: " + r.stderr.decode()[-800:])
    drop = ("pomdp-tools-options", "pomdp-fg", "fg-params", "utils.c", "pg-eval", "laspack-util")
    r = subprocess.run(["gcc", *san, "-o", exe] + [o for o in top if not any(d in o for d in drop)] + objs["exe"] + tail, capture_output=True)
    if r.returncode: raise BuildError("link exe: " + r.stderr.decode()[-800:])
    return dict(so=so, exe=exe)

# ------------------------------------------------------------------ library wrapper
D, INT, PTR, CH = ctypes.c_double, ctypes.c_int, ctypes.c_void_p, ctypes.c_char_p
class Lib:
    def __init__(self, so, exe=None):
        self.c = ctypes.CDLL(so); self.exe = exe; self._f = {}
        self.keep = []
        self.c.vf_init_stderr()
    def fn(self, name, ret=None, *args):
        k = (name, ret, args)
        f = self._f.get(k)
        if f is None:
            p = ctypes.CFUNCTYPE(ret, *args) if False else None
            f = getattr(self.c, name); f = ctypes.cast(f, ctypes.c_void_p).value
            f = ctypes.CFUNCTYPE(ret, *args)(f); self._f[k] = f
        return f
    def get(self, st, fl, p, t=INT): return self.fn(f"vf_{st}_{fl}", t, PTR)(p)
    def set(self, st, fl, p, v, t=INT): self.fn(f"vfs_{st}_{fl}", None, PTR, t)(p, v)
    def gi(self, n): return INT.in_dll(self.c, n).value
    def si(self, n, v): INT.in_dll(self.c, n).value = v
    def gd(self, n): return D.in_dll(self.c, n).value
    def sd(self, n, v): D.in_dll(self.c, n).value = v
    def gp(self, n): return PTR.in_dll(self.c, n).value
    def sp(self, n, v): PTR.in_dll(self.c, n).value = v
    # C heap blocks (freed by the code under test where it owns them)
    def malloc(self, n): return self.fn("malloc", PTR, ctypes.c_size_t)(n)
    def free(self, p): self.fn("free", None, PTR)(p)
    def darr(self, xs):
        p = self.malloc(8 * max(1, len(xs)))
        ctypes.memmove(p, (D * len(xs))(*xs), 8 * len(xs)); return p
    def iarr(self, xs):
        p = self.malloc(4 * max(1, len(xs)))
        ctypes.memmove(p, (INT * len(xs))(*xs), 4 * len(xs)); return p
    def parr(self, xs):
        p = self.malloc(8 * max(1, len(xs)))
        ctypes.memmove(p, (PTR * len(xs))(*xs), 8 * len(xs)); return p
    def rd(self, p, n): return list((D * n).from_address(p)) if n else []
    def ri(self, p, n): return list((INT * n).from_address(p)) if n else []
    def rp(self, p, n): return list((PTR * n).from_address(p)) if n else []
    # ---- alpha lists
    def av(self, nd, n): return self.rd(self.get("AlphaListType", "alpha", nd, PTR), n)
    def af(self, nd, f):
        return self.get("AlphaListType", f, nd, PTR if f in ("alpha", "next", "witness", "prev_source", "first_source", "second_source", "obs_source", "hook", "head", "tail") else INT)
    def afs(self, nd, f, v):
        self.set("AlphaListType", f, nd, v, PTR if f in ("alpha", "next", "witness", "prev_source", "first_source", "second_source", "obs_source", "hook", "head", "tail") else INT)
    def nodes(self, L):
        """members of a list, checking the representation invariant"""
        out = []; p = self.af(L, "head"); n = self.af(L, "length")
        while p:
            out.append(p)
            if len(out) > n + 3 or len(out) > 100000: raise Violation(f"list longer than its recorded length {n} (or cyclic)")
            p = self.af(p, "next")
        if len(out) != n: raise Violation(f"recorded length {n} but {len(out)} members")
        if n and self.af(L, "tail") != out[-1]: raise Violation("tail is not the last member")
        if len(set(out)) != len(out): raise Violation("member twice in list")
        return out
    def mklist(self, vecs, actions=None, ids=None):
        L = self.fn("newAlphaList", PTR)()
        for i, v in enumerate(vecs):
            nd = self.fn("newAlphaNode", PTR, PTR, INT)(self.darr(v), (actions or [0] * len(vecs))[i])
            self.fn("appendNodeToAlphaList", None, PTR, PTR)(L, nd)
            if ids: self.afs(nd, "id", ids[i])
        return L

def check(cond, msg):
    if not cond: raise Violation(msg)
def close(a, b, e=1e-9):
    return abs(a - b) <= e * max(1.0, abs(a), abs(b))
def vclose(a, b, e=1e-9): return len(a) == len(b) and all(close(x, y, e) for x, y in zip(a, b))

# ------------------------------------------------------------------ running suites
def child(suite, so, exe, seed, budget, state, scratch, replay=None):
    """runs inside a process with the sanitizer runtime loaded"""
    import importlib
    mod = importlib.import_module("companion.suite_" + suite)
    # the library's own chatter goes nowhere
    dn = os.open(os.devnull, os.O_WRONLY); os.dup2(dn, 1)
    lib = Lib(so, exe); lib.scratch = scratch
    os.chdir(scratch)
    props = os.environ.get("COMPANION_PROP")
    t0 = time.time()
    if replay is not None:
        try: mod.run(lib, replay); return
        except Violation as v:
            open(state, "w").write(json.dumps({"fail": str(v)})); return
    done = 0
    i = int(os.environ.get("COMPANION_START", "0"))
    sf = open(state, "a")
    kinds = {}
    while time.time() - t0 < budget:
        rng = random.Random(f"{seed}/{suite}/{i}")
        case = mod.gen(rng, i, props)
        if case is None: break
        case["_i"] = i
        sf.write(json.dumps({"start": i, "case": case}) + "\n"); sf.flush()
        try:
            mod.run(lib, case)
            kinds[case.get("op", "?")] = kinds.get(case.get("op", "?"), 0) + 1
        except Violation as v:
            sf.write(json.dumps({"fail": str(v)[:2000], "case": case}) + "\n"); sf.flush()
            break
        except AttributeError as e:
            if "undefined symbol" not in str(e): raise
            kinds["skipped: " + str(e).split("undefined symbol:")[-1].strip()] = kinds.get("skipped: " + str(e).split("undefined symbol:")[-1].strip(), 0) + 1
        except (ValueError, IndexError, OverflowError) as e:
            tb = traceback.extract_tb(e.__traceback__)[-1]
            sf.write(json.dumps({"fail": f"the result has no readable form: {type(e).__name__} {e} ({os.path.basename(tb.filename)}:{tb.lineno})", "case": case}) + "\n"); sf.flush()
            break
        i += int(os.environ.get("COMPANION_STRIDE", "1")); done += 1
    sf.write(json.dumps({"done": done, "kinds": kinds, "next": i}) + "\n"); sf.flush()

def asan_env():
    e = dict(os.environ)
    lib = subprocess.run(["gcc", "-print-file-name=libasan.so"], capture_output=True, text=True).stdout.strip()
    e["LD_PRELOAD"] = lib
    e["ASAN_OPTIONS"] = "detect_leaks=0:allocator_may_return_null=1:abort_on_error=0:exitcode=77:handle_segv=1:detect_odr_violation=0:max_allocation_size_mb=4000:malloc_context_size=12"
    e["PYTHONPATH"] = os.path.dirname(HERE)
    e["PYTHONMALLOC"] = "malloc"
    return e

def run_suite(suite, built, seed, budget, scratch, prop=None, case_timeout=60, workers=None):
    """-> dict(cases=, failures=[...], kinds=...); case i belongs to worker i mod workers"""
    from concurrent.futures import ThreadPoolExecutor
    W = workers or int(os.environ.get("COMPANION_WORKERS", "4"))
    with ThreadPoolExecutor(W) as ex:
        fs = [ex.submit(run_worker, suite, built, seed, budget, scratch, prop, case_timeout, w, W) for w in range(W)]
        rs, errs = [], []
        for f in fs:
            try: rs.append(f.result())
            except Exception as e: errs.append(e)
    if errs and not any(r["failures"] for r in rs): raise errs[0]
    kinds = {}
    for r in rs:
        for k, v in r["kinds"].items(): kinds[k] = kinds.get(k, 0) + v
    return dict(suite=suite, cases=sum(r["cases"] for r in rs), failures=sorted([f for r in rs for f in r["failures"]], key=lambda f: f["case"].get("_i", 0)), kinds=kinds, samples=rs[0]["samples"], wall=max(r["wall"] for r in rs))
def run_worker(suite, built, seed, budget, scratch, prop, case_timeout, start, stride):
    state = os.path.join(scratch, f"state_{suite}_{start}.jsonl")
    if os.path.exists(state): os.unlink(state)
    env = asan_env(); env["COMPANION_STRIDE"] = str(stride); fails = []; cases = 0; kinds = {}; samples = []
    if prop: env["COMPANION_PROP"] = prop
    t0 = time.time()
    while True:
        env["COMPANION_START"] = str(start)
        left = max(1.0, budget - (time.time() - t0))
        work = os.path.join(scratch, f"w_{suite}_{start}"); os.makedirs(work, exist_ok=True)
        p = subprocess.Popen([sys.executable, "-m", "companion.run", "child", suite, built["so"], built["exe"], str(seed), str(left), state, work],
                             env=env, cwd=os.path.dirname(HERE), stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, start_new_session=True)
        import threading
        err = []
        th = threading.Thread(target=lambda: err.append(p.stderr.read())); th.start()
        hung = False
        while p.poll() is None:
            time.sleep(0.05)
            if time.time() - t0 > 2:
                try: age = time.time() - os.path.getmtime(state)
                except OSError: age = 0
                if age > case_timeout and time.time() - t0 > left * 0 + case_timeout:
                    hung = True
                    try: os.killpg(p.pid, signal.SIGKILL)
                    except ProcessLookupError: pass
        th.join(); e = (err[0] if err else b"").decode(errors="replace")
        last, end = None, None
        for l in open(state) if os.path.exists(state) else []:
            try: d = json.loads(l)
            except ValueError: continue
            if "start" in d:
                last = d
                if len(samples) < 3 and not any(s.get("op") == d["case"].get("op") for s in samples): samples.append(d["case"])
            elif "fail" in d: fails.append(dict(msg=d["fail"], case=d["case"])); end = d
            elif "done" in d:
                cases += d["done"]; end = d
                for k, v in d["kinds"].items(): kinds[k] = kinds.get(k, 0) + v
        if p.returncode == 0 and end is not None and not hung:
            break
        # died inside a case
        if last is None: raise BuildError("companion could not start: " + e[-1500:])
        if "Traceback" in e and "companion" in e and p.returncode == 1:
            raise BuildError("companion error: " + e[-1500:])
        why = "did not return within %ds" % case_timeout if hung else f"process died (status {p.returncode})"
        tail = [l for l in e.splitlines() if "ERROR" in l or l.strip().startswith("#") or "ABORT" in l][:12]
        fails.append(dict(msg=why + "; " + " | ".join(tail), case=last["case"]))
        break
    return dict(suite=suite, cases=cases + len(fails), failures=fails, kinds=kinds, samples=samples, wall=time.time() - t0)

def main():
    a = sys.argv[1:]
    if a[0] == "child": child(a[1], a[2], a[3], int(a[4]), float(a[5]), a[6], a[7])
    elif a[0] == "replaychild":
        child(a[1], a[2], a[3], 0, 0, a[4], a[5], replay=json.load(open(a[6]))["case"])
    elif a[0] == "dev":
        out = tempfile.mkdtemp(prefix="vfc_")
        try:
            b = build(out)
            for s in a[1].split(","):
                r = run_suite(s, b, int(os.environ.get("VERIF_SEED", "1")), float(a[2]) if len(a) > 2 else 5, out, prop=a[3] if len(a) > 3 else None)
                print(s, r["cases"], "cases", r["kinds"], "%.1fs" % r["wall"])
                for f in r["failures"]: print("  FAIL", f["msg"][:1500], "\n      ", json.dumps(f["case"])[:1200])
        finally: shutil.rmtree(out, ignore_errors=True)
    elif a[0] == "replay":
        d = json.load(open(a[1])); out = tempfile.mkdtemp(prefix="vfc_")
        try:
            b = build(out); st = os.path.join(out, "st"); w = os.path.join(out, "w"); os.makedirs(w)
            p = subprocess.run([sys.executable, "-m", "companion.run", "replaychild", d["suite"], b["so"], b["exe"], st, w, a[1]], env=asan_env(), cwd=os.path.dirname(HERE), stderr=subprocess.PIPE)
            if os.path.exists(st): print("reproduced:", json.load(open(st))["fail"]); sys.exit(1)
            if p.returncode: print("reproduced: process died", p.returncode, p.stderr.decode()[-3000:]); sys.exit(1)
            print("not reproduced"); sys.exit(0)
        finally: shutil.rmtree(out, ignore_errors=True)
if __name__ == "__main__": main()
