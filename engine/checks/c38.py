"""Three rules, all on the typed source of both build configurations. (1) From arbitrary prover states, with and without a
half-filled multiplier, in the first phase and through the wrapper of the second: a call that asks for a wire without giving its
value must return an error on every path and leave every field of the prover as it was; with a value it must succeed. (2) prove,
prove_and_return_transcript, verify and verification_scalars_and_points are analysed with one, two and three opaque deferred
callbacks: the condition under which a proof or verdict is returned must imply that every callback was run, once, and returned
Ok. (3) Every expression of either crate whose Result value is thrown away (an expression statement, or a binding to a pattern
that ignores it) is looked at: the called function must be one that cannot return an error."""
from prover import *
from session import *
from r1cs import *
from interp import Interp
import checks.c12 as c12
from checks.c11 import exprs

RULE = "allocation without a value: Err and unchanged state; Ok of prove/verify implies every callback ran once and returned Ok; no discarded fallible Result"
FLOOR = 60
ASSUMPTIONS = ["a deferred callback acts only through the API"]
NONEV = adt("core::option::Option", "None", ())


def run(ctx):
    for cfg, prog in ctx.configs():
        for kind in ("Prover", "RandomizingProver"):
            for name in ("allocate", "allocate_multiplier"):
                for pend in (False, True):
                    with ctx.guard("%s.%s.%s.%s" % (cfg, kind, name, pend)):
                        missing(ctx, prog, cfg, kind, name, pend)
        for n in (1, 2, 3):
            for kind, name in (("Prover", "prove"), ("Prover", "prove_and_return_transcript"), ("Verifier", "verify"), ("Verifier", "verification_scalars_and_points")):
                with ctx.guard("%s.%s.%d" % (cfg, name, n)):
                    failing(ctx, prog, cfg, kind, name, n)
        with ctx.guard(cfg + ".discards"):
            discards(ctx, prog, cfg)


def missing(ctx, prog, cfg, kind, name, pend):
    f = method(prog, name, kind)
    for what in ("none", "some"):
        v, _ = c12.base(prog)
        s = Session(prog, kind)
        if pend:
            v = put(v, ("pending_multiplier",), some(sym("pend")))
            s.st.pc = b_and(i_le(ZERO, sym("pend")), i_lt(sym("pend"), slen(sym("wires"))))
        if kind != "Prover":
            p = paths(prog)[kind]
            v = adt(p, prog.adts[p]["v"][0][0], ((prog.adts[p]["v"][0][1][0][0], v),))
        s.store(v)
        base = s.st.pc
        key = "%s.%s.%s.%s.%s" % (cfg, kind, name, "pending" if pend else "idle", what)
        ctx.unit("call", key)
        arg = NONEV if what == "none" else some(sym("l")) if name == "allocate" else some(tup(sym("l"), sym("r")))
        try:
            res = s.pure(s.call(name, arg))
        except Dead:
            ctx.ob(key, False, "the call never returns", f["sp"])
            continue
        c = restrict(b_and(s.st.pc, isv(res, "Ok")), base)
        if what == "some":
            okc = implied_by(base, s.st.pc) and c is TRUE
            ctx.ob(key, True if okc else judge_cond(c, TRUE), "succeeds when %s" % show(c)[:200], f["sp"])
            continue
        ctx.ob(key, True if c is FALSE else judge_cond(c, FALSE), "a wire without a value is handed out when %s" % show(c)[:200] if c is not FALSE else "refused", f["sp"])
        after = s.pure(s.load())
        for path in leaves_of(v):
            a, b = get(v, path), get(after, path)
            if a is b:
                ctx.ob(key + "." + ".".join(path), True, "unchanged", f["sp"])
                continue
            r, why = judge(None, (), [(a, b)])
            ctx.ob(key + "." + ".".join(path), r, "field %s after the refused call: %s" % (".".join(path), why), f["sp"])


def implied_by(base, pc):
    return restrict(pc, base) is TRUE


def judge_cond(c, want):
    """c is not syntactically the wanted constant: is it ever otherwise?"""
    import numeric
    bad = b_not(c) if want is TRUE else c
    v = numeric.reach(opened(bad))
    return False if v[0] == "reached" else True if v[0] == "none" else None


def absorbed_error(c, cbs, i):
    """a result is returned on paths where callback i failed: whatever else those paths ask for, is it asked for without the failure too?"""
    at = lambda k: isv(app("cbres", cbs[k]), "Ok")
    good = replace_atoms(c, {at(k): True for k in range(len(cbs))})
    others = {at(k): True for k in range(len(cbs)) if k != i}
    failed = replace_atoms(c, {**others, at(i): False})
    if failed is good and good is not FALSE:
        return False
    return judge_cond(failed if failed is not FALSE else b_and(c, b_not(at(i))), FALSE)


def leaves_of(v, path=()):
    if v.op == "adt" and len(path) < 3 and len(v.args[2]) and v.args[0].split("::")[-1] in ("Prover", "Secrets", "RandomizingProver"):
        for n, x in v.args[2]:
            yield from leaves_of(x, path + (n,))
    else:
        yield path


def failing(ctx, prog, cfg, kind, name, n):
    save, Interp.PARTIAL = Interp.PARTIAL, 5
    try:
        failing1(ctx, prog, cfg, kind, name, n)
    finally:
        Interp.PARTIAL = save


def failing1(ctx, prog, cfg, kind, name, n):
    cbs = [sym("F%d" % (i + 1)) for i in range(n)]
    f = prog.fn1(name, self_adt=kind)
    hook = callbacks(prog)
    if kind == "Verifier":
        r = Run(prog, f, models=cs_summary(prog), over=gens_over(f, prog), rawmsm=True, cbhook=hook, setup=set_deferred(cbs))
    else:
        # what happens to the witness after the callbacks is of no concern here
        opq = {g["p"] for g in prog.fns.values() if g["crate"] == "bulletproofs" and g["kind"] != "Closure" and g["name"] in ("create", "inner_product", "flattened_constraints")}

        def setup(run, st):
            v = run.args[0]
            v = put(v, ("deferred_constraints",), lst(cbs))
            v = put(v, vec_path(v), lst([]))
            run.args[0] = v
        r = Run(prog, f, models=cs_summary(prog), over=gens_over(f, prog), rawmsm=True, cbhook=hook, setup=setup, opaque=opq)
    ctx.unit("root", f["p"])
    c = r.ok()
    key = "%s.%s.%d" % (cfg, name, n)
    if c is FALSE:
        ctx.ob(key + ".ok", None, "never returns a result", f["sp"])
        return
    evs = [e for e, loops in events(r.trace) if e.kind == "callback"]
    inloop = [e for e, loops in events(r.trace) if e.kind == "callback" and loops]
    for i, cb in enumerate(cbs):
        good = isv(app("cbres", cb), "Ok")
        bad = restrict(b_and(c, b_not(good)), TRUE)
        ctx.ob("%s.result%d" % (key, i), True if bad is FALSE else absorbed_error(c, cbs, i),
               "returned only when callback %d of %d returned Ok" % (i + 1, n) if bad is FALSE else
               "a result is returned although callback %d of %d failed: %s" % (i + 1, n, show(bad)[:300]), f["sp"])
        mine = [e for e in evs if e.data[0] is cb]
        if inloop:
            ctx.ob("%s.once%d" % (key, i), None, "callback run inside a loop", f["sp"])
            continue
        none = c
        twice = FALSE
        for j, e in enumerate(mine):
            none = b_and(none, b_not(e.guard))
            for e2 in mine[:j]:
                twice = b_or(twice, b_and(c, b_and(e.guard, e2.guard)))
        bad = b_or(none, twice)
        ctx.ob("%s.once%d" % (key, i), True if bad is FALSE else judge_cond(bad, FALSE), "callback %d of %d is run %s" % (i + 1, n, "exactly once" if bad is FALSE else "not once: %s" % show(bad)[:200]), f["sp"])


# ---------------------------------------------------------------- thrown-away results
def discards(ctx, prog, cfg):
    n = 0
    for f in prog.fns.values():
        if prog.is_test(f):
            continue
        ctx.unit("function", f["p"])
        for e in exprs(f["b"]):
            for s in (e["st"] if e["k"] == "block" else ()):
                x = thrown(prog, f, s)
                if x is None:
                    continue
                n += 1
                key = "%s.discard.%s.%d" % (cfg, f["p"], n)
                ctx.ob(key, harmless(prog, f, x), "the result of %s is thrown away" % callee_name(x), x.get("sp") or f["sp"])
    ctx.ob("%s.discards" % cfg, True, "%d results thrown away" % n)


def thrown(prog, f, s):
    """the expression with a Result value whose value the statement drops"""
    x = s.get("e") if s["k"] != "let" else s.get("init") if s["pat"]["k"] == "wild" else None
    while x is not None and x["k"] in ("scope", "use", "paren"):
        x = x.get("e")
    if x is None:
        return None
    if is_result(prog, f, x):
        return x
    if x["k"] == "call" and (x.get("f") or {}).get("name") in ("drop", "ok", "err", "forget"):
        for a in x.get("a") or ():
            if is_result(prog, f, a):
                return a
    return None


def is_result(prog, f, x):
    if "t" not in x:
        return False
    t = prog.ty(f["crate"], x["t"])
    return t.get("k") == "adt" and str(t.get("p", t.get("s"))).split("<")[0].split("::")[-1] == "Result"


def callee_name(x):
    c = x.get("f") or {}
    return c.get("r") or c.get("p") or x["k"]


def harmless(prog, f, x):
    """True when the value can never be an error, None when the callee is another crate's"""
    c = x.get("f") or {}
    g = prog.fns.get(c.get("r") or c.get("p"))
    if x["k"] != "call" or c.get("p") is None:
        return False if x["k"] != "call" else None
    if g is None:
        return None if not trait_method(prog, c) else any_local(prog, c)
    return never_fails(prog, g)


def trait_method(prog, c):
    return any(g["name"] == c.get("name") and g.get("itrait") for g in prog.fns.values())


def any_local(prog, c):
    gs = [g for g in prog.fns.values() if g["name"] == c.get("name") and g.get("itrait") and not prog.is_test(g)]
    rs = [never_fails(prog, g) for g in gs]
    return True if rs and all(r is True for r in rs) else False if any(r is False for r in rs) else None


def never_fails(prog, g):
    r = Run(prog, g, models=cs_summary(prog), over=gens_over(g, prog), rawmsm=True, cbhook=callbacks(prog))
    bad = b_and(r.st.pc, b_not(isv(r.pval, "Ok")))
    return True if bad is FALSE else judge_cond(bad, FALSE)
