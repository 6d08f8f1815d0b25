"""Which values are secret is computed from the prover: the fields of its witness container, and the scalars it draws. Every
container type that holds them is checked for a destructor that overwrites it: the body of each Drop implementation (derived or
handwritten) is interpreted and every secret field must be overwritten at its end; a type without Drop must consist of such
types. In the prover's functions every owned local variable is inspected: local types that hold secrets must be wiped types,
every drawn mask or blinding vector must live in a wiped container, no plain vector may hold a bare copy of one (argument
buffers assembled for one multi-exponentiation and values moved on are not containers of the prover), and no secret is taken
out of its container or leaked. A construct that takes secrets out without wiping them is reported with its location."""
from prover import *
from checks.c11 import exprs

RULE = "every container of secrets has a destructor overwriting all of its secret fields; masks only in such containers"
FLOOR = 20
ASSUMPTIONS = ["zeroize::Zeroize::zeroize overwrites the value it is called on; zeroize::Zeroizing wipes its content on drop",
               "copies made by the compiler, in registers or by reallocation are out of scope"]
EXEMPT = ("LinearCombination", "Variable", "PedersenGens", "BulletproofGens", "R1CSProof", "InnerProductProof")


def run(ctx):
    for cfg, prog in ctx.configs():
        W = Wipe(prog)
        with ctx.guard(cfg + ".prover"):
            prover_fields(ctx, prog, cfg, W)
        with ctx.guard(cfg + ".prove"):
            proving(ctx, prog, cfg, W)
        with ctx.guard(cfg + ".methods"):
            methods(ctx, prog, cfg, W)


def last(p):
    return (p or "").split("::")[-1]


class Wipe:
    """which types hold scalars, and which of those overwrite them when dropped"""

    def __init__(self, prog):
        self.prog = prog
        self.memo = {}
        self.why = {}

    def sub(self, crate, t, env):
        """environment of the generic parameters of a local type at this use"""
        d = self.prog.adts[t["p"]]
        args = [a for a in t.get("a", []) if not (isinstance(a, dict) and "lt" in a)]
        r = {}
        for n, a in zip(d.get("g", []), args):
            r[n] = isinstance(a, int) and self.bears(crate, a, env)
        return r

    def bears(self, crate, tid, env, depth=0):
        """the type holds field elements by value"""
        t = self.prog.types[crate][tid]
        k = t["k"]
        if depth > 8:
            return False
        if k == "param":
            return bool(env.get(t["p"]))
        if k == "alias":
            return last(t.get("p")) in ("ScalarField", "BaseField", "BasePrimeField")
        if k in ("tuple",):
            return any(self.bears(crate, a, env, depth + 1) for a in t["a"])
        if k in ("slice", "array"):
            return self.bears(crate, t["t"], env, depth + 1)
        if k == "adt":
            if last(t["p"]) in EXEMPT or last(t["p"]) == "PhantomData":
                return False
            d = self.prog.adts.get(t["p"])
            if d is not None and d.get("local"):
                e2 = self.sub(crate, t, env)
                return any(self.bears(d["crate"], f[1], e2, depth + 1) for v in d["v"] for f in v[1])
            return any(isinstance(a, int) and self.bears(crate, a, env, depth + 1) for a in t.get("a", []))
        return False

    def wiped(self, crate, tid, env):
        """None when every field element in a value of this type is overwritten on drop, otherwise a description"""
        t = self.prog.types[crate][tid]
        if not self.bears(crate, tid, env):
            return None
        k = t["k"]
        if k in ("param", "alias"):
            return "a bare scalar"
        if k == "tuple":
            return first(self.wiped(crate, a, env) for a in t["a"])
        if k in ("slice", "array"):
            return self.wiped(crate, t["t"], env)
        if k == "adt":
            if last(t["p"]) == "Zeroizing":
                return None
            d = self.prog.adts.get(t["p"])
            if d is not None and d.get("local"):
                return self.adt(d, self.sub(crate, t, env))
            return first(self.wiped(crate, a, env) for a in t.get("a", []) if isinstance(a, int))
        return "not known to be wiped: %s" % t["s"]

    def drop(self, d):
        for im in self.prog.impls:
            if last(im.get("trait")) == "Drop":
                t = self.prog.types[im["crate"]][im["self"]]
                if t.get("p") == d["p"]:
                    for it in im["items"]:
                        if it[0] == "drop":
                            return self.prog.fns.get(it[2])
        return None

    def adt(self, d, env):
        key = (d["p"], tuple(sorted(env.items())))
        if key not in self.memo:
            self.memo[key] = None
            self.memo[key] = self.adt_(d, env)
        return self.memo[key]

    def adt_(self, d, env):
        dr = self.drop(d)
        fin = {}
        if dr is not None:
            fin = self.rundrop(dr, d)
        for v in d["v"]:
            for f in v[1]:
                if not self.bears(d["crate"], f[1], env):
                    continue
                w = self.wiped(d["crate"], f[1], env)
                if w is None:
                    continue
                if d["k"] == "struct" and fin.get(f[0]) is True:
                    continue
                return "field %s of %s is %s%s" % (f[0], d["p"], w, " and its destructor leaves it unwiped" if dr is not None else " and the type has no destructor")
        return None

    def rundrop(self, f, d):
        old = []

        def z(I, c, args, st, fr, e):
            if (c.get("r") or c["p"]) in self.prog.fns:
                return None
            s = I.prog.types[fr.crate][c["self"]] if "self" in c else {"k": "?"}
            dd = self.prog.adts.get(s.get("p")) if s["k"] == "adt" else None
            if dd is not None and dd.get("local") and last(c["name"]) != "zeroize":
                return UNIT       # left to that type's own destructor
            old.append(I.pure(I.load(args[0], st), st))
            I.store(args[0], app("zeroized"), st)
            return UNIT
        r = Run(self.prog, f, models={"Zeroize::zeroize": z, "AssertZeroize::zeroize_or_on_drop": z})
        new = r.out(0)
        res = {}
        if r.st.pc is not TRUE:
            return res
        env = {g: True for g in d.get("g", [])}
        for n, ft, _ in d["v"][0][1]:
            v = field(new, n)
            o = field(r.argsym[0], n)
            res[n] = self.gone(v, d["crate"], ft, env) or v is EMPTY and o in old
        return res

    def gone(self, v, crate, tid, env):
        """no field element of the original is left in the value"""
        t = self.prog.types[crate][tid] if tid is not None else None
        if t is not None and not self.bears(crate, tid, env):
            return True
        if v.op == "app" and v.args[0] == "zeroized" or v is ZERO:
            return True
        if v.op == "app" and v.args[0] == "setfield" and t is not None and t["k"] == "tuple":
            got = {}
            while v.op == "app" and v.args[0] == "setfield":
                got.setdefault(v.args[2].args[0], v.args[3])
                v = v.args[1]
            return all(str(i) in got and self.gone(got[str(i)], crate, a, env) for i, a in enumerate(t["a"]) if self.bears(crate, a, env))
        if v.op == "tup":
            ts = t["a"] if t is not None and t["k"] == "tuple" else [None] * len(v.args[0])
            return all(self.gone(x, crate, a, env) for x, a in zip(v.args[0], ts))
        el = None
        if t is not None:
            el = t["t"] if t["k"] in ("slice", "array") else next((a for a in t.get("a", []) if isinstance(a, int)), None) if t["k"] == "adt" and last(t["p"]) in ("Vec", "Box", "Option") else None
        if v.op in ("lst", "cat"):
            return bool(v.args[0]) and all(self.gone(x, crate, el if v.op == "lst" else tid, env) for x in v.args[0])
        if v.op == "map":
            k = fresh("k")
            return self.gone(open_(v.args[1], (k,)), crate, el, env)
        if v.op == "ite":
            return all(self.gone(x, crate, tid, env) for x in leaves(v))
        return False


def first(it):
    for x in it:
        if x is not None:
            return x
    return None


def prover_fields(ctx, prog, cfg, W):
    d = next((a for a in prog.adts.values() if a.get("local") and last(a["p"]) == "Prover"), None)
    if d is None:
        raise Anchor("struct Prover")
    seen = set()
    env = {}
    for f in d["v"][0][1]:
        t = prog.types[d["crate"]][f[1]]
        if not W.bears(d["crate"], f[1], env):
            continue
        seen.add(f[0])
        w = W.wiped(d["crate"], f[1], env)
        ctx.ob("%s.Prover.%s" % (cfg, f[0]), w is None, w or "every field element in %s is overwritten on drop" % t["s"], d.get("sp"))
        fd = prog.adts.get(t.get("p"))
        if fd is not None and fd.get("local"):
            fenv = W.sub(d["crate"], t, env)
            for g in fd["v"][0][1]:
                if W.bears(fd["crate"], g[1], fenv):
                    ctx.unit("secret field", "%s.%s" % (fd["p"], g[0]))
                    ctx.ob("%s.Prover.%s.%s" % (cfg, f[0], g[0]), w is None or (" %s " % g[0]) not in w, w or "overwritten", fd.get("sp"))
    ctx.ob(cfg + ".Prover.secrets", True if seen else None, "witness containers of the prover: %s" % ", ".join(sorted(seen)))


def secretive(me):
    def t(v):
        """the value depends on a witness value or a random draw other than through commitments and challenges"""
        seen = set()
        st = [v]
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            if x.op == "rng" or x.op == "app" and x.args[0] == "rng":
                return True
            if x.op == "fld" and x.args[0] is me and x.args[2] == "secrets":
                return True
            if x.op == "app" and x.args[0] in ("cs", "msm"):
                continue
            st += children(x)
        return False
    return t


def draws(v):
    """ids of the random vectors occurring in the value, not counting those inside commitments"""
    r = set()
    seen = set()
    st = [v]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "app" and x.args[0] in ("cs", "msm"):
            continue
        if x.op == "rng":
            r.add(x.args[0])
        st += children(x)
    return r


def bare(v):
    """the value is nothing but drawn scalars"""
    if v.op == "map":
        k = fresh("k")
        return bare1(open_(v.args[1], (k,)))
    if v.op == "cat":
        return all(bare(x) for x in v.args[0])
    return False


def bare1(x):
    return x.op == "rng" or x.op == "map" and bare(x)


def inspect(ctx, prog, key, W, r, binds, taken, holders, me):
    """rules over the owned locals of everything that was executed"""
    sec = secretive(me)
    out = []
    final = []
    for f, pat, v, st, loc in binds:
        if loc in (r.st.mem or {}) and W.wiped(f["crate"], pat["t"], {g: True for g in f.get("g", []) if g == "F"}) is None:
            try:
                final.append(r.I.pure(r.st.mem[loc], r.st))
            except Exception:
                pass
    fin = [(f, pat, r.st.mem[loc], r.st) for f, pat, v, st, loc in binds if loc in (r.st.mem or {}) and r.st.mem[loc] is not v]
    for f, pat, v, st in [b[:4] for b in binds] + fin:
        t = prog.types[f["crate"]][pat["t"]]
        if t["k"] in ("ref", "ptr", "prim", "param", "alias", "closure", "fndef"):
            continue
        env = {}
        if not W.bears(f["crate"], pat["t"], env):
            env = {g: True for g in f.get("g", []) if g == "F"}
            if not W.bears(f["crate"], pat["t"], env):
                continue
        try:
            pv = r.I.pure(v, st)
        except Exception:
            continue
        w = W.wiped(f["crate"], pat["t"], env)
        k = "%s.%s.%s" % (key, f["name"], pat["name"])
        if w is None:
            holders.append(pv)
            if sec(pv):
                ctx.ob(k, True, "%s is overwritten on drop" % t["s"], f["sp"])
            continue
        d = prog.adts.get(t.get("p")) if t["k"] == "adt" else None
        if not sec(pv):
            continue
        if d is not None and d.get("local"):
            ctx.ob(k, False, "the local %s: %s holds secrets, but %s" % (pat["name"], t["s"], w), f["sp"])
            continue
        out.append((f, pat, pv, w, k, t))
    for f, pat, pv, w, k, t in out:
        exact = bare(pv) or pv.op == "fld" and pv.args[0].op == "fld" and pv.args[0].args[0] is me
        if exact and t["k"] == "adt" and last(t["p"]) in ("Vec", "Box") and not moved(f, pat["v"]):
            ctx.ob(k, False, "the local %s: %s holds a copy of a secret vector and is not wiped" % (pat["name"], t["s"]), f["sp"])
    for val, sp in taken:
        if sec(val):
            held = any(h is val for h in holders) or not sp.startswith("!") and (kept(r, val) or any(x is val for h in final for x in subterms(h)))
            sp = sp.lstrip("!")
            ctx.ob("%s.taken@%s" % (key, sp), True if held else False, "secrets are moved out of their container at %s%s" % (sp, " into a wiped one" if held else ""), sp)


def kept(r, val):
    """the value ends up in the prover again"""
    outs = [r.pval] + [r.out(i) for i, l in enumerate(r.locs) if l is not None]
    return any(x is val for o in outs for x in subterms(o))


def moved(f, var):
    """the variable is used by value somewhere"""
    byval = []

    def go(e, place):
        if isinstance(e, list):
            for x in e:
                go(x, False)
            return
        if not isinstance(e, dict):
            return
        k = e.get("k")
        if k in ("var", "upvar"):
            if e["v"] == var and not place:
                byval.append(e)
            return
        for n, x in e.items():
            if isinstance(x, (dict, list)):
                p = k in ("borrow", "deref", "field", "index") and n == "e" or k == "closure" and isinstance(x, list)
                if p and isinstance(x, dict) and x.get("k") in ("var", "upvar"):
                    continue
                if k == "index" and isinstance(x, dict) and x.get("k") == "var" and n != "i":
                    continue
                go(x, False)
    go(f["b"], False)
    return bool(byval)


def takers(taken):
    def m(n):
        def h(I, f, args, st, fr, e):
            try:
                taken.append((I.pure(I.load(args[0], st), st), ("" if n in ("mem::take", "mem::replace", "mem::swap") else "!") + (e.get("sp") or "?")))
            except Exception:
                pass
            return None
        return h
    return {k: m(k) for k in ("mem::take", "mem::replace", "mem::forget", "manually_drop::new", "ManuallyDrop::new", "vec::leak", "boxed::leak", "Box::leak", "Vec::leak", "mem::swap")}


def proving(ctx, prog, cfg, W):
    for phase in (1, 2):
        binds, taken, holders = [], [], []
        t = "%s.phase%d" % (cfg, phase)
        r = run_prove(prog, phase, None, ("eval", "inner_product", "create"), binds=binds, extra=takers(taken))
        ctx.unit("root", r.f["p"])
        for f in r.I.analysed:
            ctx.unit("function", f)
        inspect(ctx, prog, t, W, r, binds, taken, holders, r.argsym[0])
        held = set()
        for h in holders:
            held |= draws(h)
        n = 0
        for e, cl in events(r.trace):
            if e.kind == "rng" and cl:
                n += 1
                d = e.data[0]
                ok = d.args[0] in held
                ctx.ob("%s.draw@%s.%d" % (t, e.sp.split("/")[-1], n), ok, "the vector of scalars drawn here is held by a container that is wiped" if ok
                       else "the vector of scalars drawn here is in no container that is wiped on drop", e.sp)
        if phase == 1:
            ctx.ob(t + ".draws", True if n >= 2 else None, "%d drawn vectors" % n)


def methods(ctx, prog, cfg, W):
    n = 0
    for f in prog.fns.values():
        if f["kind"] == "Closure" or prog.is_test(f) or last(prog.self_adt(f)) not in ("Prover", "RandomizingProver") or f["name"].startswith("prove"):
            continue
        with ctx.guard("%s.%s" % (cfg, f["name"])):
            binds, taken, holders = [], [], []
            r = Run(prog, f, models=dict(cs_summary(prog), **takers(taken)), binds=binds, over=gens_over(f, prog), cbhook=callbacks(prog), rawmsm=True)
            me = r.argsym[0] if r.argsym else None
            ctx.unit("function", f["p"])
            inspect(ctx, prog, "%s.%s.%s" % (cfg, last(prog.self_adt(f)), f["name"]), W, r, binds, taken, holders, me)
            ctx.ob("%s.%s.%s" % (cfg, last(prog.self_adt(f)), f["name"]), True, "locals inspected", f["sp"])
            n += 1
