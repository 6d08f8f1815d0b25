"""Builds the typed program dumps of /repo's working tree, runs one property's rules, writes evidence."""
import fcntl
import hashlib
import importlib
import json
import os
import pickle
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(ROOT, "build")
sys.path.insert(0, os.path.join(ROOT, "engine"))
CONFIGS = {"parallel": [], "serial": ["--no-default-features"]}


def sh(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def driver():
    d = os.path.join(BUILD, "driver", "debug", "thirdump")
    srcs = [os.path.join(ROOT, "driver", "src", x) for x in os.listdir(os.path.join(ROOT, "driver", "src"))]
    if not os.path.exists(d) or any(os.path.getmtime(s) > os.path.getmtime(d) for s in srcs):
        os.makedirs(BUILD, exist_ok=True)
        r = sh(["cargo", "+nightly", "build", "--offline", "-q"], cwd=os.path.join(ROOT, "driver"),
               env=dict(os.environ, CARGO_TARGET_DIR=os.path.join(BUILD, "driver")))
        if r.returncode:
            raise SystemExit("driver build failed\n" + r.stdout)
    return d


def dump(out):
    """type-checks the workspace's libraries in both configurations and dumps their typed trees"""
    os.makedirs(BUILD, exist_ok=True)
    tgt = os.path.join(BUILD, "target")
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        drv = driver()
        sysroot = sh(["rustc", "+nightly", "--print", "sysroot"]).stdout.strip()
        for cfg, flags in CONFIGS.items():
            o = os.path.join(out, cfg)
            os.makedirs(o)
            # cargo's freshness cache would skip the wrapper
            for p in ("bulletproofs", "relations"):
                shutil.rmtree(os.path.join(tgt, "debug", "build", p), ignore_errors=True)
                for base in (os.path.join(tgt, "debug", ".fingerprint"), os.path.join(tgt, "debug", "deps")):
                    if os.path.isdir(base):
                        for x in os.listdir(base):
                            if x.startswith((p + "-", "lib" + p + "-")):
                                q = os.path.join(base, x)
                                shutil.rmtree(q) if os.path.isdir(q) else os.unlink(q)
            env = dict(os.environ, LD_LIBRARY_PATH=os.path.join(sysroot, "lib"), CARGO_TARGET_DIR=tgt, THIRDUMP_OUT=o,
                       RUSTC_WORKSPACE_WRAPPER=drv, CARGO_PROFILE_DEV_DEBUG_ASSERTIONS="false", CARGO_INCREMENTAL="0")
            env.pop("RUSTFLAGS", None)
            r = sh(["cargo", "+nightly", "check", "--offline", "-p", "relations", "--lib"] + flags, cwd=REPO, env=env)
            if r.returncode or not all(os.path.exists(os.path.join(o, c + ".json")) for c in ("bulletproofs", "relations")):
                raise RuntimeError("type-checking the %s configuration failed:\n%s" % (cfg, r.stdout[-3000:]))


class Timeout(Exception):
    pass


class Ctx:
    def __init__(self, prop, tier, progs):
        self.prop = prop
        self.tier = tier
        self.progs = progs
        self.obs = {}      # key -> dict
        self.units = {}
        self.notes = []
        self.assumptions = []

    # status: True discharged, False violated, None undecided
    def ob(self, key, status, detail="", where=""):
        o = self.obs.get(key)
        d = {"status": status, "detail": str(detail)[:1500], "where": str(where)}
        if o is not None:
            if o["status"] is False or (o["status"] is None and status is not False):
                return status
        self.obs[key] = d
        return status

    def unit(self, kind, name):
        self.units.setdefault(kind, set()).add(name)

    def guard(self, key):
        return Guard(self, key)

    def configs(self):
        return self.progs.items()


class Guard:
    def __init__(self, ctx, key):
        self.ctx, self.key = ctx, key

    def __enter__(self):
        return self

    def __exit__(self, t, v, tb):
        from thir import Anchor
        if t is None:
            return False
        if issubclass(t, Anchor):
            self.ctx.ob(self.key + ":anchor", None, "missing anchor: %s" % v)
            return True
        if issubclass(t, (Timeout, KeyboardInterrupt, SystemExit)):
            self.ctx.ob(self.key + ":time", None, "time limit reached")
            return issubclass(t, Timeout)
        self.ctx.ob(self.key + ":analysis", None, "analysis gave up: %s: %s" % (t.__name__, v))
        if os.environ.get("VERIF_DEBUG"):
            traceback.print_exception(t, v, tb)
        return True


def known():
    p = os.path.join(ROOT, "known_findings.txt")
    r = {}
    if os.path.exists(p):
        for l in open(p):
            if l.startswith("known:"):
                d = l.split()
                prop = d[1].split("=", 1)[1]
                key = d[2].split("=", 1)[1]
                r[(prop, key)] = " ".join(d[3:])
    return r


def evidence(ctx, wall, viol, floor, err=None):
    n = len(ctx.obs)
    dis = sum(1 for o in ctx.obs.values() if o["status"] is True)
    und = sorted(k for k, o in ctx.obs.items() if o["status"] is None)
    mod = ctx.mod
    e = {
        "property": ctx.prop, "tier": ctx.tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": "other",
        "coverage": {
            "explanation": (mod.__doc__ or "").strip(),
            "rule": getattr(mod, "RULE", ""),
            "configurations": sorted(ctx.progs),
            "obligations": n, "discharged": dis, "undecided": und, "violated": len(viol),
            "obligation_floor": floor,
            "units_analysed": {k: len(v) for k, v in ctx.units.items()},
            "units": {k: sorted(v)[:60] for k, v in ctx.units.items()},
            "samples": [{"obligation": k, "result": {True: "discharged", False: "violated", None: "undecided"}[o["status"]],
                         "fact": o["detail"][:300]} for k, o in list(sorted(ctx.obs.items()))[:12]],
            "notes": ctx.notes,
        },
        "assumptions": ctx.assumptions + getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(wall, 2), "violations": len(viol),
    }
    if err:
        e["coverage"]["error"] = err
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", ctx.prop + ".json"), "w") as f:
        json.dump(e, f, indent=1)


def analyse(mod, ctx, limit):
    def onalarm(*_):
        raise Timeout()
    signal.signal(signal.SIGALRM, onalarm)
    signal.alarm(limit)
    try:
        with ctx.guard("check"):
            mod.run(ctx)
    except Timeout:
        ctx.ob("check:time", None, "time limit reached")
    signal.alarm(0)


def forked(mod, ctx, limit):
    """the configurations are analysed by one process each"""
    sys.stdout.flush()
    kids = []
    for cfg in ctx.progs:
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 3
            try:
                os.close(r)
                import numeric
                numeric.set_variants(ctx.progs[cfg])
                c = Ctx(ctx.prop, ctx.tier, {cfg: ctx.progs[cfg]})
                analyse(mod, c, limit)
                d = pickle.dumps((c.obs, c.units, c.notes, c.assumptions))
                with os.fdopen(w, "wb") as f:
                    f.write(d)
                code = 0
            except BaseException:
                traceback.print_exc()
            finally:
                sys.stdout.flush()
                sys.stderr.flush()
                os._exit(code)
        os.close(w)
        kids.append((cfg, pid, r))
    for cfg, pid, r in kids:
        with os.fdopen(r, "rb") as f:
            d = f.read()
        os.waitpid(pid, 0)
        try:
            obs, units, notes, ass = pickle.loads(d)
        except Exception:
            ctx.ob(cfg + ".process", None, "the analysis process ended without a result")
            continue
        for k, o in obs.items():
            ctx.ob(k, o["status"], o["detail"], o["where"])
        for k, v in units.items():
            ctx.units.setdefault(k, set()).update(v)
        for n in notes:
            if n not in ctx.notes:
                ctx.notes.append(n)
        for n in ass:
            if n not in ctx.assumptions:
                ctx.assumptions.append(n)


def main():
    args = sys.argv[1:]
    if args and args[0] == "--warm":
        t = tempfile.mkdtemp(prefix="verifwarm")
        try:
            dump(t)
        finally:
            shutil.rmtree(t, ignore_errors=True)
        print("setup done")
        return 0
    prop = args[0]
    tier = "thorough" if "--thorough" in args else "quick"
    t0 = time.time()
    mod = importlib.import_module("checks." + prop.lower())
    floor = getattr(mod, "FLOOR", 1)
    from thir import Prog
    ctx = Ctx(prop, tier, {})
    ctx.mod = mod
    tmp = None
    err = None
    pre = os.environ.get("VERIF_DUMP")
    try:
        if pre is None:
            tmp = tempfile.mkdtemp(prefix="verif" + prop)
            dump(tmp)
        base = pre or tmp
        for cfg in CONFIGS:
            ctx.progs[cfg] = Prog(os.path.join(base, cfg))
            import numeric
            numeric.set_variants(ctx.progs[cfg])
    except RuntimeError as e:
        err = str(e)
        ctx.ob("build", False, err)
    if err is None:
        limit = int(os.environ.get("VERIF_LIMIT", "780"))
        if getattr(mod, "JOINT", False) or len(ctx.progs) < 2 or os.environ.get("VERIF_NOFORK"):
            analyse(mod, ctx, limit)
        else:
            forked(mod, ctx, limit)
    if tmp:
        shutil.rmtree(tmp, ignore_errors=True)
    if err is None and len(ctx.obs) < floor and not any(o["status"] is None for o in ctx.obs.values()):
        ctx.ob("floor", False, "only %d obligations were generated, the confirmed floor is %d" % (len(ctx.obs), floor))
    kn = known()
    viol = []
    for k, o in sorted(ctx.obs.items()):
        if o["status"] is False:
            if (prop, k) in kn:
                print("KNOWN-FINDING: property=%s %s" % (prop, kn[(prop, k)]))
            else:
                viol.append((k, o))
    wall = time.time() - t0
    evidence(ctx, wall, viol, floor, err)
    n = len(ctx.obs)
    dis = sum(1 for o in ctx.obs.values() if o["status"] is True)
    print("property %s: %d obligations, %d discharged, %d undecided, %d violated (%.1f s, configurations %s)" % (
        prop, n, dis, sum(1 for o in ctx.obs.values() if o["status"] is None), len(viol), wall, "+".join(ctx.progs)))
    for k, v in sorted(ctx.units.items()):
        print("  analysed %s: %d" % (k, len(v)))
    for k, o in sorted(ctx.obs.items()):
        if o["status"] is None:
            print("  undecided %s: %s" % (k, o["detail"][:200]))
    if viol:
        rp = os.path.join(ROOT, "evidence", prop + ".violations.txt")
        with open(rp, "w") as f:
            for k, o in viol:
                f.write("violated obligation: %s\n  where: %s\n  fact: %s\n\n" % (k, o["where"], o["detail"]))
        for k, o in viol:
            print("  violated %s [%s]: %s" % (k, o["where"], o["detail"][:400]))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    return 0


def entry():
    r = []

    def go():
        try:
            r.append(main())
        except SystemExit as e:
            r.append(e.code)
        except BaseException:
            traceback.print_exc()
            r.append(3)
    sys.setrecursionlimit(1000000)
    if "SIGALRM" and threading.current_thread() is threading.main_thread():
        # signals are delivered to the main thread only: run there, on a large stack
        import resource
        try:
            resource.setrlimit(resource.RLIMIT_STACK, (resource.RLIM_INFINITY, resource.RLIM_INFINITY))
        except Exception:
            pass
    if os.environ.get("VERIF_STACK") != "1":
        os.environ["VERIF_STACK"] = "1"
        os.execv(sys.executable, [sys.executable] + sys.argv)
    go()
    sys.stdout.flush()
    sys.exit(r[0] if r else 3)


if __name__ == "__main__":
    entry()
