"""Induction over the sequence of constraint-system calls. State relation R between a prover and a verifier: equal counts
(multipliers = length of each assignment vector, scalar commitments, blindings, vector commitments with their dimensions), the
same pending half-allocated multiplier, the same constraint list and the same number of deferred callbacks. R holds for fresh
objects; from arbitrary (symbolic) states related by R, every call - commit, commit_vec, allocate with and without a pending
multiplier, allocate_multiplier, multiply, constrain, specify_randomized_constraints, directly and through the randomizing
wrappers - returns the same variables on both sides and re-establishes R. multiply additionally appends exactly the two
constraints left = l and right = r, and the prover's new assignments are the values of its arguments and their product. The
flattened weight vectors of both sides are computed for arbitrary constraint lists and compared entry by entry for a generic
index. Finally every scenario of C02 is replayed comparing returned variables and metrics."""
from protocol import *
from checks.c03 import lam1
import numeric

RULE = "R(prover, verifier) and equal results, inductive for every call; equal flattened vectors at a generic index"
FLOOR = 120
ASSUMPTIONS = []


def base(prog):
    """symbolic prover and verifier states related by R, without a pending multiplier"""
    ps, vs = paths(prog)["Prover"], paths(prog)["Verifier"]
    P, V = expand_adt(prog, ps, sym("prover")), expand_adt(prog, vs, sym("verifier"))
    sec = [(n, t) for n, t in ((f[0], f[1]) for f in prog.adts[ps]["v"][0][1])]
    P = put(P, ("pc_gens",), pedersen(prog))
    sp = paths(prog)["Secrets"]
    S = expand_adt(prog, sp, sym("secrets"))
    n, m, k = sym("n"), sym("m"), sym("k")
    n, m, k = slen(sym("wires")), slen(sym("committed")), slen(sym("vectors"))
    for w in ("a_L", "a_R", "a_O"):
        S = put(S, (w,), mapk(n, lambda i, w=w: app(w, i)))
    S = put(S, ("v",), mapk(m, lambda i: app("v", i)))
    S = put(S, ("v_blinding",), mapk(m, lambda i: app("vb", i)))
    dim = lambda j: slen(at(sym("vectors"), j))
    S = put(S, ("vec_open",), mapk(k, lambda j: tup(app("wb", j), at(sym("vectors"), j))))
    P = put(P, ("secrets",), S)
    V = put(V, ("num_vars",), n)
    V = put(V, ("V",), mapk(m, lambda i: app("V", i)))
    V = put(V, ("vec_comms",), mapk(k, lambda j: tup(app("VC", j), dim(j))))
    cons = sym("cons")
    P, V = put(P, ("constraints",), cons), put(V, ("constraints",), cons)
    P, V = put(P, ("deferred_constraints",), lst([])), put(V, ("deferred_constraints",), lst([]))
    P, V = put(P, ("transcript",), sym("transcript")), put(V, ("transcript",), sym("transcript"))
    P, V = put(P, ("pending_multiplier",), NONE), put(V, ("pending_multiplier",), NONE)
    return P, V


def relation(P, V):
    """the pairs that must be equal"""
    f = lambda x, *n: get(x, n)
    nv = f(V, "num_vars")
    out = [("multipliers", slen(f(P, "secrets", "a_L")), nv), ("right assignments", slen(f(P, "secrets", "a_R")), nv),
           ("output assignments", slen(f(P, "secrets", "a_O")), nv),
           ("pending", f(P, "pending_multiplier"), f(V, "pending_multiplier")),
           ("committed", slen(f(P, "secrets", "v")), slen(f(V, "V"))),
           ("blindings", slen(f(P, "secrets", "v_blinding")), slen(f(V, "V"))),
           ("vectors", slen(f(P, "secrets", "vec_open")), slen(f(V, "vec_comms"))),
           ("deferred", slen(f(P, "deferred_constraints")), slen(f(V, "deferred_constraints"))),
           ("constraints", f(P, "constraints"), f(V, "constraints"))]
    j = fresh("j")
    po, vc = f(P, "secrets", "vec_open"), f(V, "vec_comms")
    out.append(("dimensions", slen(field(at(po, j), "1")), field(at(vc, j), "1")))
    lastv = psub(slen(vc), ONE)
    out.append(("last dimension", slen(field(at(po, lastv), "1")), field(at(vc, lastv), "1")))
    return out


def compare(ctx, tag, pairs, where, facts=()):
    for name, a, b in pairs:
        v, why = judge(None, facts, [(a, b)])
        ctx.ob("%s.%s" % (tag, name), v, "%s: prover %s, verifier %s" % (name, show(a)[:200], show(b)[:200]), where)


CALLS = ["commit", "commit_vec", "allocate", "allocate_multiplier", "multiply", "constrain", "specify_randomized_constraints"]


def run(ctx):
    for cfg, prog in ctx.configs():
        with ctx.guard(cfg + ".new"):
            fresh_objects(ctx, prog, cfg)
        for kinds in (("Prover", "Verifier"), ("RandomizingProver", "RandomizingVerifier")):
            for name in CALLS:
                if kinds[0] != "Prover" and name in ("commit", "commit_vec", "specify_randomized_constraints"):
                    continue
                for pend in (False, True):
                    with ctx.guard("%s.%s.%s.%s" % (cfg, kinds[0], name, pend)):
                        step(ctx, prog, cfg, kinds, name, pend)
        with ctx.guard(cfg + ".flatten"):
            flatten(ctx, prog, cfg)
        for sc in scenarios(ctx.tier):
            with ctx.guard("%s.%s" % (cfg, sc.name)):
                replay(ctx, prog, cfg, sc)


def fresh_objects(ctx, prog, cfg):
    P, V = Session(prog, "Prover"), Session(prog, "Verifier")
    P.st.mem[("o", "pc")] = pedersen(prog)
    P.new(ref(("o", "pc")), sym("transcript"))
    V.new(sym("transcript"))
    compare(ctx, cfg + ".new", [x for x in relation(P.load(), V.load()) if "imension" not in x[0]], method(prog, "new", "Prover")["sp"])


def step(ctx, prog, cfg, kinds, name, pend):
    bp, bv = base(prog)
    if pend:
        i = sym("pend")
        bp = put(bp, ("pending_multiplier",), some(i))
        bv = put(bv, ("pending_multiplier",), some(i))
    P, V = Session(prog, kinds[0]), Session(prog, kinds[1])
    n = slen(sym("wires"))
    if kinds[0] != "Prover":
        wrap = lambda kind, v: (lambda p: adt(p, prog.adts[p]["v"][0][0], ((prog.adts[p]["v"][0][1][0][0], v),)))(paths(prog)[kind])
        P.store(wrap(kinds[0], bp))
        V.store(wrap(kinds[1], bv))
        inner = lambda s: s.load().args[2][0][1]
    else:
        P.store(bp)
        V.store(bv)
        inner = lambda s: s.load()
    facts = ()
    if pend:
        facts = (pneg(sym("pend")), padd(psub(sym("pend"), n), ONE))
        for s in (P, V):
            s.st.pc = b_and(i_le(ZERO, sym("pend")), i_lt(sym("pend"), n))
    tag = "%s.%s.%s.%s" % (cfg, kinds[0], name, "pending" if pend else "idle")
    f = method(prog, name, kinds[0])
    g = method(prog, name, kinds[1])
    ctx.unit("call", tag)
    where = f["sp"]
    l, r = sym("l"), sym("r")
    lq = lc(prog, [(var(prog, "Committed", sym("i1")), sym("c1")), (var(prog, "MultiplierLeft", sym("i2")), sym("c2")), (var(prog, "One"), sym("c3"))])
    rq = lc(prog, [(var(prog, "VectorCommit", sym("i4"), sym("i5")), sym("c4")), (var(prog, "MultiplierOutput", sym("i6")), sym("c5"))])
    cell = lambda s, v, t: (s.st.mem.__setitem__(("o", t), v), ref(("o", t)))[1]
    if name == "commit":
        a = P.pure(P.call(name, sym("val"), sym("blind")))
        b = V.pure(V.call(name, field(a, "0")))
        a = field(a, "1")
    elif name == "commit_vec":
        w = sym("newvec")
        gg = cell(P, gens_sym(sym("bp_gens")), "g")
        a = P.pure(P.call(name, cell(P, w, "w"), sym("blind"), gg))
        b = V.pure(V.call(name, slen(w), field(a, "0")))
        a = field(a, "1")
        j = fresh("j")
        compare(ctx, tag, [("result length", slen(a), slen(b)), ("variables", at(a, j), at(b, j))], where, facts + tuple(bounds(j, slen(w))))
        a = b = UNIT
    elif name == "allocate":
        a = P.pure(P.call(name, some(l)))
        b = V.pure(V.call(name, NONE))
    elif name == "allocate_multiplier":
        a = P.pure(P.call(name, some(tup(l, r))))
        b = V.pure(V.call(name, NONE))
    elif name == "multiply":
        a = P.pure(P.call(name, lq, rq))
        b = V.pure(V.call(name, lq, rq))
    elif name == "constrain":
        a = P.pure(P.call(name, lq))
        b = V.pure(V.call(name, lq))
    else:
        a = P.pure(P.call(name, F1))
        b = V.pure(V.call(name, F1))
    for x in P.I.analysed | V.I.analysed:
        ctx.unit("function", x)
    compare(ctx, tag, [("result", a, b)], where, facts)
    pv, vv = P.I.pure(inner(P), P.st), V.I.pure(inner(V), V.st)
    compare(ctx, tag, relation(pv, vv), where, facts)
    # growth: what was there before stays
    i = fresh("i")
    bf = facts + tuple(bounds(i, n))
    grown = psub(slen(get(pv, ("secrets", "a_L"))), n)
    ctx.ob(tag + ".grows", None if numval(grown) is None else numval(grown) >= 0, "%s new multipliers" % show(grown), where)
    for w in ("a_L", "a_R", "a_O"):
        old = app(w, i)
        new = at(get(pv, ("secrets", w)), i)
        if pend and name == "allocate":
            fs = bf + (padd(psub(i, sym("pend")), ONE),)
            v, why = judge(psub(new, old), fs)
        else:
            v, why = judge(psub(new, old), bf)
        ctx.ob("%s.kept.%s" % (tag, w), v, "earlier assignments of %s are kept: %s" % (w, why), where)
    # new multipliers are consistent: a_O = a_L * a_R
    for k in range(int(numval(grown) or 0)):
        x = [at(get(pv, ("secrets", w)), padd(n, num(k))) for w in ("a_L", "a_R", "a_O")]
        v, why = judge(psub(pmul(x[0], x[1]), x[2]), facts)
        ctx.ob("%s.product%d" % (tag, k), v, "output assignment = left * right: %s" % why, where)
    if pend and name == "allocate":
        x = [at(get(pv, ("secrets", w)), sym("pend")) for w in ("a_L", "a_R", "a_O")]
        v, why = judge(psub(pmul(x[0], x[1]), x[2]), facts)
        ctx.ob(tag + ".product", v, "output assignment of the completed multiplier: %s" % why, where)
        v, why = judge(psub(x[1], l), facts)
        ctx.ob(tag + ".value", v, "right assignment is the given value: %s" % why, where)
    if name == "multiply":
        binds(ctx, tag, prog, vv, a, lq, rq, where)
    if name == "constrain":
        c = get(vv, ("constraints",))
        v, why = judge(None, (), [(slen(c), padd(slen(sym("cons")), ONE)), (at(c, slen(sym("cons"))), lq)])
        ctx.ob(tag + ".recorded", v, "the constraint is recorded: %s" % why, where)


def den(prog, q, value):
    """the value of a linear combination with concrete terms"""
    r = ZERO
    for i in range(int(numval(slen(field(q, "terms"))))):
        t = at(field(q, "terms"), num(i))
        r = padd(r, pmul(field(t, "1"), value(field(t, "0"))))
    return r


def binds(ctx, tag, prog, vv, res, lq, rq, where):
    value = lambda v: ONE if v.args[1] == "One" else app("val", v)
    c = get(vv, ("constraints",))
    k0 = slen(sym("cons"))
    new = numval(psub(slen(c), k0))
    want = [psub(den(prog, lq, value), value(field(res, "0"))), psub(den(prog, rq, value), value(field(res, "1")))]
    if new is None:
        return ctx.ob(tag + ".binds", None, "constraints %s" % show(c)[:200], where)
    got = [den(prog, at(c, padd(k0, num(i))), value) for i in range(int(new))]
    for nm, w in zip(("left", "right"), want):
        ok_ = any(g is w or padd(g, w) is ZERO for g in got)
        ctx.ob("%s.binds.%s" % (tag, nm), True if ok_ else False, "constraints added by multiply: %s" % "; ".join(show(g)[:200] for g in got), where)
    ctx.ob(tag + ".binds.only", int(new) == 2, "%s constraints added" % new, where)


def flatten(ctx, prog, cfg):
    bp, bv = base(prog)
    P, V = Session(prog, "Prover"), Session(prog, "Verifier")
    P.store(bp)
    V.store(bv)
    f = method(prog, "flattened_constraints", "Prover")
    z = sym("z")
    out = []
    for s in (P, V):
        s.st.mem[("o", "z")] = z
        out.append(s.pure(s.call("flattened_constraints", ref(("o", "z")))))
        for x in s.I.analysed:
            ctx.unit("function", x)
    a, b = out
    tag = cfg + ".flatten"
    n, m, k = slen(sym("wires")), slen(sym("committed")), slen(sym("vectors"))
    i, j = fresh("i"), fresh("j")
    for idx, (nm, cnt) in enumerate((("left", n), ("right", n), ("output", n), ("committed", m))):
        x, y = field(a, str(idx)), field(b, str(idx))
        v, why = judge(None, (), [(slen(x), slen(y)), (slen(x), cnt)])
        ctx.ob("%s.%s.length" % (tag, nm), v, "%s / %s" % (show(slen(x))[:100], show(slen(y))[:100]), f["sp"])
        v, why = judge(psub(at(x, i), at(y, i)), tuple(bounds(i, cnt)))
        ctx.ob("%s.%s" % (tag, nm), v, "weights at a generic index: %s" % why, f["sp"])
    x, y = field(a, "4"), field(b, "4")
    ctx.ob(tag + ".vectors.length", judge(None, (), [(slen(x), slen(y)), (slen(x), k)])[0], "%s / %s" % (show(slen(x))[:100], show(slen(y))[:100]), f["sp"])
    dim = slen(at(sym("vectors"), j))
    v, why = judge(psub(at(at(x, j), i), at(at(y, j), i)), tuple(bounds(j, k)) + tuple(bounds(i, dim)))
    ctx.ob(tag + ".vectors", v, "weights at a generic commitment and coordinate: %s" % why, f["sp"])
    # both are the prescribed weights: the sum over all occurrences of the variable of z^(q+1) * coefficient
    cons = sym("cons")

    def weight(variant, match, sign):
        def term(q, t):
            e = at(field(at(cons, q), "terms"), t)
            v = field(e, "0")
            hit = isv(v, variant)
            for k, x in enumerate(match):
                hit = b_and(hit, eq0(psub(vfield(v, variant, str(k)), x)))
            c = pmul(ppow(z, padd(q, ONE)), field(e, "1"))
            return ite(hit, pneg(c) if sign else c, ZERO)
        return psum(slen(cons), lam1(lambda q: psum(slen(field(at(cons, q), "terms")), lam1(lambda t: term(q, t)))))
    for idx, (nm, var_, cnt) in enumerate((("left", "MultiplierLeft", n), ("right", "MultiplierRight", n), ("output", "MultiplierOutput", n), ("committed", "Committed", m))):
        v, why = judge(psub(at(field(b, str(idx)), i), weight(var_, (i,), nm == "committed")), tuple(bounds(i, cnt)))
        ctx.ob("%s.%s.spec" % (tag, nm), v, "prescribed weights: %s" % why, f["sp"])
    v, why = judge(psub(at(at(y, j), i), weight("VectorCommit", (j, i), False)), tuple(bounds(j, k)) + tuple(bounds(i, dim)))
    ctx.ob(tag + ".vectors.spec", v, "prescribed weights: %s" % why, f["sp"])
    # constants only on the verifier, with the opposite sign
    w = psum(slen(cons), lam1(lambda q: psum(slen(field(at(cons, q), "terms")), lam1(
        lambda t: ite(isv(field(at(field(at(cons, q), "terms"), t), "0"), "One"),
                      pneg(pmul(ppow(z, padd(q, ONE)), field(at(field(at(cons, q), "terms"), t), "1"))), ZERO)))))
    v, why = judge(psub(field(b, "5"), w))
    ctx.ob(tag + ".constant", v, "constant contribution: %s" % why, f["sp"])


def replay(ctx, prog, cfg, sc):
    tag = "%s.%s" % (cfg, sc.name)
    p = Pair(prog, sc)
    for i, (name, a, b, x, y) in enumerate(p.steps):
        if a is None:
            continue
        if name in ("commit", "commit_vec"):
            a = field(a, "1")
        v, why = judge(None, (), [(a, b)])
        ctx.ob("%s.step%d.%s" % (tag, i, name), v, "%s / %s" % (show(a)[:150], show(b)[:150]), method(prog, name, "Prover")["sp"])
    if not sc.deferred:
        a, b = p.P.pure(p.P.call("metrics")), p.V.pure(p.V.call("metrics"))
        v, why = judge(None, (), [(a, b)])
        ctx.ob(tag + ".metrics", v, "%s / %s" % (show(a)[:150], show(b)[:150]), method(prog, "metrics", "Prover")["sp"])
    else:
        p.prove().verify()
        for i, (name, a, b) in enumerate(p.cb):
            if name == "challenge_scalar":
                continue
            v, why = judge(None, (), [(a, p.inst(b))])
            ctx.ob("%s.deferred%d.%s" % (tag, i, name), v, "%s / %s" % (show(a)[:150], show(b)[:150]), method(prog, name, "RandomizingProver")["sp"])
