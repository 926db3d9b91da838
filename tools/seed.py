#!/usr/bin/env python3
"""Makes and validates planted bugs, in a scratch copy of /repo (a development aid; no check uses it).
usage: seed.py make DEFS.py [ID...] | seed.py check ID...   (check: validate /verif/seeded/ID as it is)
DEFS.py: SEEDS = [dict(id=, prop=, edits=[(file, old, new)...], needs=, breaks=, main=rust source)]"""
import sys, os, subprocess, json, shutil, runpy
S = "/tmp/seed"; R = S + "/repo"; OUT = "/verif/seeded"
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def reset(): sh("git checkout -q -- .", cwd=R)
def tests():
    t = open("/opt/vp/test.sh").read().replace("cd /repo ", f"cd {R} ")
    open(S + "/test.sh", "w").write(t)
    r = sh(f"timeout 880 bash {S}/test.sh {S}/o.json")
    try: o = json.load(open(S + "/o.json"))
    except Exception: return ["build or run failed: " + r.stdout[-500:] + r.stderr[-500:]]
    b = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    return [x for x in b if x not in o["passed"]]
def demo(d):
    r = sh(f"timeout 300 bash {d}/demo.sh", cwd=R, env=dict(os.environ, DEMO_TARGET=S + "/dt"))
    return r.returncode, (r.stdout + r.stderr)[-400:]
def setup_v():
    v = S + "/v"
    os.makedirs(v, exist_ok=True)
    sh(f"rm -rf {v}/harness; mkdir -p {v}/replays {v}/evidence; cp -r /verif/harness {v}/harness; cp /verif/known_findings.json {v}/; cp /verif/run.sh {v}/; sed -i 's#\"/repo#\"{R}#' {v}/harness/Cargo.toml; sed -i 's/ --locked//' {v}/run.sh")
def check(p, seed="1"):
    r = sh(f"bash {S}/v/run.sh {p}", env=dict(os.environ, VERIF_SEED=seed, VERIF_TIER="quick"))
    l = [x for x in r.stdout.split("\n") if x.startswith("VIOLATION") or "build failed" in x]
    return r.returncode, (l or [r.stdout[-300:] + r.stderr[-300:]])[0]
def validate(i, do_tests=True):
    d = f"{OUT}/{i}"; m = json.load(open(d + "/meta.json"))
    reset()
    c0, o0 = demo(d)
    if c0 != 0: return f"{i}: demo fails on the unchanged tree: {o0}"
    a = sh(f"git apply {d}/patch.diff", cwd=R)
    if a.returncode: return f"{i}: patch does not apply {a.stderr}"
    c1, o1 = demo(d)
    res = ""
    if c1 == 0: res += " DEMO-PASSES-WITH-PATCH"
    if "error: could not compile" in o1 or "error[" in o1: res += " DOES-NOT-COMPILE " + o1
    f = tests() if do_tests and not res else []
    if f: res += f" TESTS-FAIL {len(f)} {f[:4]}"
    k = check(m["property"]) if not res else ("", "")
    reset()
    return f"{i} [{m['property']}]: {'ok' if not res else res} | check rc={k[0]} {k[1]} | demo: {o1.strip().splitlines()[-3:] if c1 else ''}"
if __name__ == "__main__":
    setup_v()
    if sys.argv[1] == "make":
        for s in runpy.run_path(sys.argv[2])["SEEDS"]:
            if sys.argv[3:] and s["id"] not in sys.argv[3:]: continue
            reset(); d = f"{OUT}/{s['id']}"; shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
            ok = True
            for f, old, new, *nth in s["edits"]:
                t = open(f"{R}/{f}").read()
                if nth:  # (the n-th of several)
                    x = t.split(old); n = nth[0] + 1
                    open(f"{R}/{f}", "w").write(old.join(x[:n]) + new + old.join(x[n:])); continue
                if t.count(old) != 1: print(s["id"], "edit matches", t.count(old), "times:", old[:60]); ok = False; break
                open(f"{R}/{f}", "w").write(t.replace(old, new))
            if not ok: reset(); shutil.rmtree(d); continue
            open(d + "/patch.diff", "w").write(sh("git diff", cwd=R).stdout)
            shutil.copy(S + "/demo.sh", d + "/demo.sh"); os.chmod(d + "/demo.sh", 0o755)
            open(d + "/main.rs", "w").write(s["main"])
            json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
            reset()
            res = validate(s["id"]); print(res, flush=True)
            # one which does not count is kept out of /verif
            if "]: ok |" not in res: shutil.rmtree(f"{S}/bad/{s['id']}", ignore_errors=True); shutil.move(d, f"{S}/bad/{s['id']}")
    else:
        for i in sys.argv[2:] or sorted(os.listdir(OUT)): print(validate(i, os.environ.get("NOTEST") is None), flush=True)
