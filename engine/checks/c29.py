"""The condition under which proving, verifying and batch verification succeed is computed from the typed source; it has to
imply that the supplied generators are at least as many as the padded circuit needs. Truncation is modelled: iterators
over generator lists are shortened to the capacity, and a multi-exponentiation pairs as many entries as its shorter list
has. For every multi-exponentiation reached before and after the checks the two lists are shown to be equally long under
the path condition, so no point or scalar is dropped. Functions that commit to vectors (commit_vec, the parameters'
commit) have to fail unless the generator list covers the whole vector."""
from prover import *
from checks.c05 import vt
import numeric

RULE = "success implies needed generators <= capacity; point and scalar lists of a multi-exponentiation have equal lengths"
FLOOR = 60
ASSUMPTIONS = ["the left, right and output wire vectors have equal lengths (C12)", "a deferred callback acts only through the API"]


def run(ctx):
    for cfg, prog in ctx.configs():
        for ph, nc in ((1, 0), (1, 1), (1, 2), (1, 3), (1, None), (2, 0), (2, 1)) if ctx.tier == "quick" else \
                [(1, None), (2, None)] + [(p, n) for p in (1, 2) for n in range(0, 7)]:
            t = "%s.prove.phase%d.vec%s" % (cfg, ph, "N" if nc is None else nc)
            with ctx.guard(t):
                prove(ctx, prog, t, ph, nc)
        for ph in (1, 2):
            t = "%s.verify.phase%d" % (cfg, ph)
            with ctx.guard(t):
                verify(ctx, prog, t, ph)
        for K in (1, 2, 3):
            t = "%s.batch%d" % (cfg, K)
            with ctx.guard(t):
                batch(ctx, prog, t, K)
        with ctx.guard(cfg + ".commit_vec"):
            commit_vec(ctx, prog, cfg + ".commit_vec")
        with ctx.guard(cfg + ".parameters"):
            parameters(ctx, prog, cfg + ".parameters")


def note(ctx, r):
    ctx.unit("root", r.f["p"])
    for x in r.I.analysed:
        ctx.unit("function", x)


def lists(ctx, tag, r, same=None, cond=None, facts=()):
    """equal lengths of the points and scalars of every multi-exponentiation outside loops"""
    for j, (e, cl) in enumerate(events(r.trace)):
        if e.kind != "msm" or cl:
            continue
        P, S, _ = e.data
        a, b = slen(P), slen(S)
        g = e.guard
        key = "%s.msm@%s" % (tag, e.sp.split("/")[-1])
        if same:
            a, b, g = (subst_term(x, same) for x in (a, b, g))
        ctx.unit("multi-exponentiation", "%s %s" % (tag, e.sp.split("/")[-1]))
        if a is b:
            ctx.ob(key, True, "points and scalars have the same length", e.sp)
            continue
        fs = list(facts) + list(facts_from(g))
        d = psub(a, b)
        if numval(d) is not None:
            v = numeric.reach(opened(g), fs)
            ctx.ob(key, False if v[0] == "reached" else None, "%s points, %s scalars" % (show(a), show(b)), e.sp)
            continue
        try:
            if zero(d, tuple(fs)) is None:
                ctx.ob(key, True, "points and scalars have the same length under the path condition", e.sp)
                continue
        except Steps:
            pass
        v = implied(g, eq0(d), fs)
        ctx.ob(key, v[0], "length of points %s, of scalars %s: %s" % (show(a)[:200], show(b)[:200], v[1]), e.sp)


def prove(ctx, prog, tag, ph, nc):
    r = run_prove(prog, ph, ncomm=nc, opaque=() if (ph, nc) == (1, 0) else ("create", "inner_product"))
    note(ctx, r)
    me = r.argsym[0]
    cap = field(r.argsym[1], "gens_capacity")
    aL = slen(get(me, ("secrets", "a_L")))
    same = {slen(get(me, ("secrets", x))): aL for x in ("a_R", "a_O")}
    rw = lambda x: subst_term(x, same)
    n = aL
    if nc is None:
        vo = get(me, vec_path(me))
        n = smax(n, maxk(slen(vo), lam1(lambda k: slen(field(at(vo, k), "1")))))
    else:
        for j in range(nc):
            n = smax(n, slen(sym("vv%d" % j)))
    if ph == 2:
        n = padd(n, sym("ncb", F1))
    okc = rw(r.ok())
    if okc is FALSE:
        return ctx.ob(tag + ".success", None, "no successful path was found", r.f["sp"])
    v, why = implied(okc, rw(i_le(npo2(n), cap)))
    ctx.ob(tag + ".capacity", v, "a proof is returned only if %s <= capacity: %s" % (show(npo2(n)), why), r.f["sp"])
    if nc is not None:
        lists(ctx, tag, r, same)


def lam1(fn):
    k = fresh("k")
    return lam((k,), fn(k))


def verify(ctx, prog, tag, ph):
    r = run_verify(prog, ph)
    note(ctx, r)
    me = r.argsym[0]
    bp = r.argsym[3]
    okc = r.ok()
    if okc is FALSE:
        return ctx.ob(tag + ".accepts", None, "no accepting path was found", r.f["sp"])
    vec = field(me, "vec_comms")
    n = smax(field(me, "num_vars"), maxk(slen(vec), lam1(lambda k: field(at(vec, k), "1"))))
    if ph == 2:
        n = padd(n, sym("ncb", F1))
    p = i_le(npo2(n), field(bp, "gens_capacity"))
    v, why = implied(okc, p)
    eqm = equalities(okc)
    if v is not True and eqm:
        v2, why2 = implied(subst_term(okc, eqm), subst_term(p, eqm))
        if v2 is True:
            v, why = v2, why2
    ctx.ob(tag + ".capacity", v, "acceptance only if %s <= capacity: %s" % (show(npo2(n)), why), r.f["sp"])
    E = Equation(okc)
    for m in E.msms:
        P, S = m.args[1:3]
        rw = lambda x: subst_term(x, eqm)
        d = rw(psub(slen(P), slen(S)))
        fs = list(facts_from(rw(okc)))
        vv = (True, "equal") if d is ZERO else implied(rw(okc), eq0(d), fs)
        ctx.ob(tag + ".lengths", vv[0], "points %s scalars %s: %s" % (show(rw(slen(P)))[:200], show(rw(slen(S)))[:200], vv[1]), r.f["sp"])


def batch(ctx, prog, tag, K):
    f = prog.fn1("batch_verify")
    over = gens_over(f, prog)
    over[0] = lst([vt(prog, j) for j in range(K)])
    ns = [sym("n", j) for j in range(K)]
    ms = [sym("m", j) for j in range(K)]
    base = [pneg(x) for x in ns + ms]
    assume = TRUE
    for x in ns + ms:
        assume = b_and(assume, i_le(ZERO, x))
    r = Run(prog, f, models=cs_summary(prog), over=over, rawmsm=True, assume=assume)
    note(ctx, r)
    okc = r.ok()
    need = ZERO
    for n in ns:
        need = smax(need, n)
    cap = field(r.argsym[2], "gens_capacity")
    v, why = implied(okc, i_le(need, cap), base)
    ctx.ob(tag + ".capacity", v, "acceptance only if every circuit's size is <= capacity: %s" % why, f["sp"])
    E = Equation(okc)
    for m in E.msms:
        P, S = m.args[1:3]
        d = psub(slen(P), slen(S))
        vv = (True, "equal") if d is ZERO else implied(okc, eq0(d), base)
        ctx.ob(tag + ".lengths", vv[0], "points %s scalars %s: %s" % (show(slen(P))[:200], show(slen(S))[:200], vv[1]), f["sp"])


def commit_vec(ctx, prog, tag):
    f = prog.fn1("commit_vec", self_adt="Prover")
    r = Run(prog, f, models=cs_summary(prog), over=gens_over(f, prog), rawmsm=True)
    note(ctx, r)
    vi = [i for i, p in enumerate(f["params"]) if slice_of_field(prog, f, p)]
    gi = list(gens_over(f, prog))
    if len(vi) != 1 or len(gi) != 1:
        return ctx.ob(tag, None, "parameters not recognised", f["sp"])
    v, why = implied(r.st.pc, i_le(slen(r.argsym[vi[0]]), field(r.argsym[gi[0]], "gens_capacity")))
    ctx.ob(tag, v, "returns only if the vector is no longer than the generator list: %s" % why, f["sp"])
    lists(ctx, tag, r, cond=r.st.pc)


def slice_of_field(prog, f, p):
    t = prog.types[f["crate"]][p["t"]]
    while t["k"] == "ref":
        t = prog.types[f["crate"]][t["t"]]
    return t["k"] == "slice"


def parameters(ctx, prog, tag):
    f = prog.fn1("commit", self_adt="SingleLayerParameters")

    def setup(run, st):
        me = run.argsym[0]
        v = run.args[0]
        if v.op == "ref":
            v = run.I.load(v, st)
        run.args[0] = put(v, ("bp_gens",), gens_sym(field(me, "bp_gens")))
    r = Run(prog, f, setup=setup, rawmsm=True)
    note(ctx, r)
    vi = [i for i, p in enumerate(f["params"]) if slice_of_field(prog, f, p)]
    idx = [s for i, s in enumerate(r.argsym) if i > vi[0]][-1]
    n = slen(r.argsym[vi[0]])
    cap = field(field(r.argsym[0], "bp_gens"), "gens_capacity")
    need = pmul(n, padd(idx, ONE))
    # an empty vector needs no generators
    v, why = implied(r.st.pc, b_or(i_le(n, ZERO), i_le(need, cap)), [pneg(idx)])
    ctx.ob(tag, v, "returns only if the generators asked for exist: %s" % why, f["sp"])
