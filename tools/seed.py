#!/usr/bin/env python3
"""seed.py make SPEC.py...   : a spec defines id, prop, edits [(file, old, new)], demo (rust main), needs, breaks, flags
   seed.py verify ID...      : builds, tests and demonstrates a planted bug in a scratch copy of /repo
   seed.py check ID... [-- CHECK...] : runs the (property's) checks against it
Works on a scratch copy of /repo under /tmp/seedw."""
import json, os, shutil, subprocess, sys, runpy
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, "seeded"); W = "/tmp/seedw"
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="1",
           CARGO_PROFILE_DEV_DEBUG="line-tables-only", CARGO_PROFILE_DEV_OPT_LEVEL="1", RUSTC_WRAPPER="")

def sh(c, cwd=W, env=ENV, t=900):
    return subprocess.run(c, shell=True, cwd=cwd, env=env, capture_output=True, text=True, timeout=t)

def fresh():
    if not os.path.exists(W):
        subprocess.run(["cp", "-a", "/repo", W], check=True)
    sh("git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD && git clean -qfd")

def make(spec):
    m = runpy.run_path(spec)
    for s in m["SEEDS"]:
        fresh()
        d = os.path.join(S, s["id"]); shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        for f, old, new in s["edits"]:
            p = os.path.join(W, f); t = open(p).read()
            n = t.count(old)
            assert n == 1, (s["id"], f, n, old)
            open(p, "w").write(t.replace(old, new))
        open(os.path.join(d, "patch.diff"), "w").write(sh("git diff").stdout)
        open(os.path.join(d, "demo.rs"), "w").write(s["demo"].lstrip())
        for x in ("demo.sh", "common.rs"):
            shutil.copy(os.path.join(V, "tools/seedlib", x), d)
        for x in s.get("flags", []):
            open(os.path.join(d, x), "w").write("")
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        verify(s["id"])

def verify(i):
    d = os.path.join(S, i); fresh()
    base = json.load(open("/opt/vp/BASELINE.json"))
    r = sh("bash %s/demo.sh" % d)
    if r.returncode:
        print(i, "DEMO FAILS ON CLEAN TREE", r.returncode, r.stdout[-3000:], r.stderr[-1500:]); return
    a = sh("git apply %s/patch.diff" % d)
    if a.returncode: print(i, "does not apply", a.stderr); return
    r = sh("bash %s/demo.sh" % d); dem = r
    b = sh("cargo test --workspace --no-run --offline && cargo check --workspace --benches --features relations/bench_prover --offline && cargo check --workspace --benches --no-default-features --offline")
    if b.returncode: print(i, "DOES NOT BUILD", b.stderr[-3000:]); fresh(); return
    t = sh("cargo test --workspace --no-fail-fast --offline -- --test-threads 8 > /tmp/seed.log 2>&1; python3 /opt/vp/results.py /tmp/seed.json cargo:/tmp/seed.log")
    res = json.load(open("/tmp/seed.json"))
    want = base.get("stable") or base.get("passed") or base
    got = set(res.get("passed", res.get("pass", [])))
    missing = [x for x in want if x not in got]
    print(i, "demo on bug:", dem.returncode, dem.stdout.strip()[-300:], dem.stderr.strip()[-300:], "| tests broken:", missing[:5], "| OK" if dem.returncode and dem.returncode != 98 and not missing else "| BAD")
    fresh()

def check(ids, checks):
    for i in ids:
        d = os.path.join(S, i); fresh()
        a = sh("git apply %s/patch.diff" % d); assert a.returncode == 0, a.stderr
        cs = checks or [json.load(open(d + "/meta.json"))["property"]]
        dump = "/tmp/seedd"; shutil.rmtree(dump, ignore_errors=True)
        for c in cs:
            r = subprocess.run([V + "/bin/check", c], env=dict(os.environ, VERIF_REPO=W), capture_output=True, text=True)
            v = [l for l in r.stdout.splitlines() if "VIOLATION" in l or "violated" in l or "undecided" in l]
            print("%-28s %s exit %d  %s" % (i, c, r.returncode, " || ".join(x[:260] for x in v[:4])), r.stderr[-300:])
        fresh()

if __name__ == "__main__":
    a = sys.argv[2:]
    if sys.argv[1] == "make":
        for x in a: make(x)
    elif sys.argv[1] == "verify":
        for x in a or sorted(os.listdir(S)): verify(x)
    else:
        k = a.index("--") if "--" in a else len(a)
        check(a[:k] or sorted(os.listdir(S)), a[k + 1:])
