#!/usr/bin/env python3
"""Systematic mutation of /repo's sources, to find what the checks miss (a development aid; no check uses it).
usage: mutate.py list | mutate.py run OUT.jsonl [workers] [file-substring] | mutate.py one N"""
import re, sys, os, subprocess, json, shutil, threading, queue, time
SRC = """jmt/src/tree.rs jmt/src/tree/ics23_impl.rs jmt/src/node_type.rs jmt/src/restore.rs jmt/src/tree_cache.rs jmt/src/iterator.rs
jmt/src/types/nibble.rs jmt/src/types/nibble/nibble_path.rs jmt/src/types/proof.rs jmt/src/types/proof/definition.rs jmt/src/mock.rs
jmt/src/db.rs jmt/src/writer.rs jmt/src/reader.rs jmt/src/lib.rs jmt/src/trie.rs jmt/src/bytes32ext.rs
pmt/src/inner.rs pmt/src/nibbles.rs pmt/src/node.rs pmt/src/trie_iterator.rs pmt/src/db.rs serde_hash/src/lib.rs""".split()
SUBS = [(r" == ", [" != "]), (r" != ", [" == "]), (r" < ", [" <= ", " > "]), (r" <= ", [" < "]), (r" > ", [" >= ", " < "]), (r" >= ", [" > "]),
        (r" && ", [" || "]), (r" \|\| ", [" && "]), (r" \+ 1\b", ["", " + 2"]), (r" - 1\b", ["", " - 2"]), (r" \+ (?!1\b)", [" - "]), (r" - (?!1\b)", [" + "]),
        (r" \* ", [" + "]), (r" / ", [" % "]), (r" % ", [" / "]), (r" \+= ", [" -= "]), (r" -= ", [" += "]), (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]),
        (r"if !", ["if "]), (r"if (?!let\b|!)([^{]+) \{", ["if true || \\1 {", "if false && \\1 {"]), (r"while (?!let\b)([^{]+) \{", ["while false && \\1 {"]),
        (r"\.rev\(\)", [""]), (r"\bmin\(", ["max("]), (r"\bmax\(", ["min("]), (r"is_some\(\)", ["is_none()"]), (r"is_none\(\)", ["is_some()"]),
        (r"(?<=[\w)])\.is_empty\(\)", [".is_empty() == false"]), (r"\.\.=", [".."]), (r"\.\.(?=[\w(])", ["..="]), (r" << ", [" >> "]), (r" >> ", [" << "]), (r" & (?!mut)", [" | "]), (r" \| (?=[\w(])", [" & "]),
        (r"\bcontinue\b", ["break"]), (r"\bbreak\b", ["continue"]), (r"\bfirst\b", ["last"]), (r"\blast\(", ["first("]), (r"\bSome\((?!_)([\w.&*]+)\)$", ["None"]),
        (r"\bleft\b", ["right"]), (r"\bright\b", ["left"]), (r"\.skip\((\w+)\)", ["", ".skip(\\1 + 1)"]), (r"\.take\((\w+)\)", ["", ".take(\\1 + 1)"]), (r"\.filter\(.*\)$", [""]),
        (r"Ordering::Less", ["Ordering::Greater"]), (r"Ordering::Greater", ["Ordering::Less"]), (r"\bany\(", ["all("]), (r"\ball\(", ["any("]), (r"\bzip\(", ["zip("]),
        (r"\?;$", [".ok();"]), (r"checked_sub|saturating_sub", ["wrapping_sub"]), (r"\bversion\b(?=[,)])", ["version + 1"]), (r"(?<![\w.\[x\"])(\d+)(?![\w.\"x])", ["(\\1 + 1)", "(\\1 - 1)"]), (r"common_prefix_bits_len|common_prefix", ["len"])]
BASE = os.environ.get("MUT_BASE", "/repo")
def skip(l):
    t = l.strip()
    return (not t or t.startswith(("//", "#", "use ", "pub use", "mod ", "pub mod", "debug_assert", "assume!", "precondition!", "checked_precondition!", "write!", "bail!", "tracing", "panic!", "assert", "///", "\"")) or "with_capacity" in t or re.search(r"\[u8; ?32\]>", t) or "Arbitrary" in t or "0..=ROOT_NIBBLE_HEIGHT/2" in t or t.startswith("pub ") and t.endswith(",") or "where" == t or re.match(r"[A-Z]\w*: .*,$", t) or "format!" in t or "format_err!" in t or "expect(\"" in t and "=" not in t)
def mutants():
    out = []
    for f in SRC:
        lines = open(os.path.join(BASE, f)).read().split("\n")
        for i, l in enumerate(lines):
            if re.match(r"#\[cfg\(test\)\]", l):
                break
            if skip(l):
                continue
            code = l.split(" //")[0]
            seen = {l}
            for pat, reps in SUBS:
                if l.strip().startswith(("fn ", "pub fn", "pub(crate) fn", "impl", "pub struct", "pub trait", "const ", "pub const")) and not pat.startswith((r"\btrue", "(?<!")):
                    continue
                for m in re.finditer(pat, code):
                    for r in reps:
                        n = code[:m.start()] + m.expand(r) + code[m.end():]
                        if n not in seen:
                            seen.add(n)
                            out.append((f, i, l, n))
            t = code.strip()
            if t.endswith(";") and not t.startswith(("let ", "return", "}", ")", "type ", "pub ", ".", "struct", "const", "static")) and t.count("(") == t.count(")") and t.count("{") == t.count("}"):
                out.append((f, i, l, ""))
            m = re.match(r"^(\s*)return .*;$", code)
            if m:
                out.append((f, i, l, ""))
    return out
def order(f, chk):
    j = [f"C{i:02}" for i in range(1, 19)] + ["C27", "C28", "C29", "C30"]
    p = [f"C{i}" for i in range(19, 28)] + ["C28", "C30"]
    if f.startswith("serde_hash"): return p
    if f.startswith("pmt"): return p
    first = {"restore": ["C09", "C10", "C11"], "iterator": ["C07"], "ics23": ["C06", "C05"], "proof": ["C03", "C04", "C08"], "mock": ["C27", "C12"], "node_type": ["C16", "C02"], "nibble": ["C01", "C07", "C16"], "db.rs": ["C27", "C14"]}
    for k, v in first.items():
        if k in f: return v + [x for x in j if x not in v]
    return j
def work(w, q, out, lock):
    d = f"/tmp/mut/w{w}"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    subprocess.run(["rsync", "-a", "--exclude", "target", "--exclude", ".git", BASE + "/", d + "/repo/"], check=False) if shutil.which("rsync") else subprocess.run(f"mkdir -p {d}/repo && cd {BASE} && tar c --exclude=./target --exclude=./.git . | tar x -C {d}/repo", shell=True, check=True)
    shutil.copytree("/verif/harness", d + "/v/harness", ignore=shutil.ignore_patterns("target"))
    shutil.copy("/verif/known_findings.json", d + "/v/")
    os.makedirs(d + "/v/replays"); os.makedirs(d + "/v/evidence")
    ct = open(d + "/v/harness/Cargo.toml").read().replace('"/repo', f'"{d}/repo')
    open(d + "/v/harness/Cargo.toml", "w").write(ct)
    env = dict(os.environ, CARGO_TARGET_DIR=d + "/target", RUSTFLAGS="--cfg verif_hooks", CARGO_NET_OFFLINE="true", VH_DIR=d + "/v", VH_THREADS="1", VH_HANG_S="25", VERIF_SEED="1", CARGO_BUILD_JOBS="2")
    def build():
        return subprocess.run(["cargo", "build", "--release", "--offline"], cwd=d + "/v/harness", env=env, capture_output=True, text=True).returncode
    r = build()
    if r != 0:
        print("worker", w, "baseline build failed"); return
    while True:
        try: n, (f, i, old, new) = q.get_nowait()
        except queue.Empty: return
        p = os.path.join(d, "repo", f)
        src = open(os.path.join(BASE, f)).read()
        L = src.split("\n"); assert L[i] == old; L[i] = new
        open(p, "w").write("\n".join(L))
        t0 = time.time(); res = None
        try:
            if build() != 0:
                res = "nocompile"
            else:
                for scale in ("0.1",):
                    for c in order(f, None):
                        e = dict(env, VH_SCALE=scale)
                        try:
                            o = subprocess.run(f"ulimit -v 6000000; exec {d}/target/release/vh check {c}", shell=True, env=e, capture_output=True, text=True, timeout=300)
                        except subprocess.TimeoutExpired:
                            res = f"timeout {c}"; break
                        if o.returncode == 1 and f"VIOLATION property={c}" in o.stdout:
                            res = f"killed {c} {scale}"; break
                        if o.returncode != 0:
                            res = f"error {c} rc={o.returncode} {o.stderr[-200:]}"; break
                    if res: break
                res = res or "SURVIVED"
        except Exception as ex:
            res = f"exception {ex}"
        open(p, "w").write(src)
        with lock:
            out.write(json.dumps({"n": n, "file": f, "line": i + 1, "old": old.strip(), "new": new.strip(), "res": res, "s": round(time.time() - t0, 1)}) + "\n"); out.flush()
if __name__ == "__main__":
    M = mutants()
    if sys.argv[1] == "list":
        from collections import Counter
        print(len(M), Counter(m[0] for m in M))
    elif sys.argv[1] == "run":
        W = int(sys.argv[3]) if len(sys.argv) > 3 else 8
        sub = sys.argv[4] if len(sys.argv) > 4 else ""
        done = set()
        if os.path.exists(sys.argv[2]):
            done = {(x["file"], x["line"], x["new"]) for x in map(json.loads, open(sys.argv[2]))}
        q = queue.Queue()
        for n, m in enumerate(M):
            if sub in m[0] and (m[0], m[1] + 1, m[3].strip()) not in done: q.put((n, m))
        import random; L = list(q.queue); random.Random(7).shuffle(L); q = queue.Queue(); [q.put(x) for x in L]
        print(q.qsize(), "to do")
        out = open(sys.argv[2], "a"); lock = threading.Lock()
        T = [threading.Thread(target=work, args=(w, q, out, lock)) for w in range(W)]
        [t.start() for t in T]; [t.join() for t in T]
