#!/usr/bin/env python3
"""seed.py make FILE.py [id..]: confirm planted bugs in a scratch copy bound over /repo (private mount namespace) and store them under seeded/.
   seed.py run [id..]: run the owning property's check against each stored bug."""
import sys, os, json, subprocess, shutil, tempfile, runpy, textwrap
from concurrent.futures import ThreadPoolExecutor
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
cd "$T" && PYTHONDONTWRITEBYTECODE=1 timeout 280 python3 "$D/demo.py" "$T"
'''
PRE = '''import sys, os; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from base import *
T = sys.argv[1]
built = build(T + "/b", "-O1", ())
os.chdir(T)
lib = Lib(built["so"], built["exe"])
def bad(msg): print("WRONG:", msg); sys.exit(1)
'''
def inns(copy, cmd, timeout=900):
    p = subprocess.run(["unshare", "-Urm", "bash", "-c", f"mount --bind {copy} /repo && cd /repo && {cmd}"], capture_output=True, text=True, timeout=timeout)
    return p.returncode, p.stdout + p.stderr
def newcopy():
    d = tempfile.mkdtemp(prefix="seed_"); subprocess.run(["cp", "-a", "/repo", d + "/r"], check=True); return d
def make(s):
    sid = s["id"]; d = newcopy(); r = d + "/r"
    try:
        sd = os.path.join(d, "demo"); os.makedirs(sd)
        for f in ("base.py", "shim.c", "shim2.inc", "generated.sha256"): shutil.copy(os.path.join(H, "companion", f), sd)
        open(sd + "/demo.sh", "w").write(s.get("sh") or DEMO)
        open(sd + "/demo.py", "w").write(PRE + textwrap.dedent(s["demo"]))
        rc, o = inns(r, f"bash {sd}/demo.sh")
        if rc: return sid, "demo fails on the unchanged tree: " + o[-600:]
        for f, old, new in s["edits"]:
            p = os.path.join(r, f); t = open(p, encoding="latin-1").read()
            if t.count(old) != 1: return sid, f"edit text occurs {t.count(old)} times in {f}"
            open(p, "w", encoding="latin-1").write(t.replace(old, new))
        diff = subprocess.run(["git", "-C", r, "diff"], capture_output=True).stdout
        rc, o = inns(r, f"bash /opt/vp/build.sh >/dev/null 2>&1 && bash /opt/vp/test.sh {d}/o.json >/dev/null 2>&1; cat {d}/o.json")
        try: t = json.loads(o[o.index("{"):])
        except Exception: return sid, "build/test broke: " + o[-400:]
        if len(t["passed"]) != 4 or t["failed"]: return sid, f"tests: {t}"
        rc, o = inns(r, f"bash {sd}/demo.sh")
        if rc == 0: return sid, "demo passes with the bug"
        out = os.path.join(H, "seeded", sid); shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
        for f in os.listdir(sd):
            if os.path.isfile(os.path.join(sd, f)): shutil.copy(os.path.join(sd, f), out)
        open(out + "/patch.diff", "wb").write(diff)
        json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), open(out + "/meta.json", "w"), indent=1)
        return sid, "kept; demo: " + o.strip().splitlines()[-1][:150] if o.strip() else "kept"
    finally: shutil.rmtree(d, ignore_errors=True)
def run(sid, prop=None):
    d = newcopy(); r = d + "/r"; sd = os.path.join(H, "seeded", sid)
    try:
        p = subprocess.run(["git", "-C", r, "apply", sd + "/patch.diff"], capture_output=True, text=True)
        if p.returncode: return sid, "patch does not apply " + p.stderr[:200]
        prop = prop or json.load(open(sd + "/meta.json"))["property"]
        v = d + "/v"; subprocess.run(["rsync", "-a", "--exclude=.git", "--exclude=seeded", "--exclude=evidence", H + "/", v], check=True)
        p = subprocess.run(["unshare", "-Urm", "bash", "-c", f"mount --bind {r} /repo && cd {v} && VERIF_SEED=1 VERIF_TIER=quick python3 check.py {prop}"], capture_output=True, text=True)
        return sid, f"{prop} exit {p.returncode}: " + " | ".join(p.stdout.strip().splitlines()[-6:])[:700] + (p.stderr[-300:] if p.returncode not in (0, 1) else "")
    finally: shutil.rmtree(d, ignore_errors=True)
if __name__ == "__main__":
    if sys.argv[1] == "make":
        S = runpy.run_path(sys.argv[2])["SEEDS"]; S = [s for s in S if not sys.argv[3:] or s["id"] in sys.argv[3:]]
        with ThreadPoolExecutor(4) as ex:
            for a, b in ex.map(make, S): print(a, "->", b, flush=True)
    else:
        ids = sys.argv[2:] or sorted(os.listdir(os.path.join(H, "seeded")))
        with ThreadPoolExecutor(2) as ex:
            for a, b in ex.map(run, ids): print(a, "->", b, flush=True)
