"""batch_verify is analysed from its typed source on batches of 0, 1, 2 and 3 verification tuples whose sizes are symbolic
(every combination of different circuit sizes). The final multi-exponentiation it requires to vanish is taken apart: every
proof-specific point of every proof occurs once with its own scalar times the proof's weight; the weight of a proof is one
fresh draw from an unpredictable generator and differs between proofs; the coefficient of every generator is the sum of the
weighted coefficients of exactly those proofs whose circuit reaches it. For a batch of symbolic length the weights are drawn
inside the loop. The tuple layout assumed is the one the single verifier uses. Panics and missing capacity checks are violations."""
from r1cs import *
import numeric

RULE = "coefficient(point) = weight(proof) * scalar(proof, point), summed over proofs for shared generators"
FLOOR = 30
ASSUMPTIONS = ["thread_rng is unpredictable"]


def tuple_path(prog):
    for p, a in prog.adts.items():
        if a.get("local") and p.endswith("::VerificationTuple"):
            return p, [f[0] for f in a["v"][0][1]]
    raise Anchor("struct VerificationTuple")


def vt(prog, j):
    p, fields = tuple_path(prog)
    s = sym("t%d" % j)
    m, n = sym("m", j), sym("n", j)
    fs = {"proof_dependent_points": mapk(m, lambda i: app("P", num(j), i)),
          "proof_dependent_scalars": mapk(m, lambda i: app("S", num(j), i)),
          "proof_independent_scalars": cat([lst([app("b", num(j)), app("bb", num(j))]), mapk(n, lambda i: app("g", num(j), i)), mapk(n, lambda i: app("h", num(j), i))])}
    if set(fields) != set(fs):
        raise Exception("the verification tuple has other fields: %s" % fields)
    return adt(p, p.split("::")[-1], tuple((x, fs[x]) for x in fields))


def run(ctx):
    for cfg, prog in ctx.configs():
        for K in (0, 1, 2, 3):
            with ctx.guard("%s.batch%d" % (cfg, K)):
                one(ctx, prog, "%s.batch%d" % (cfg, K), K)
        with ctx.guard(cfg + ".layout"):
            layout(ctx, prog, cfg)


def layout(ctx, prog, cfg):
    v = run_verify(prog, 1)
    t = run_verify(prog, 1, name="verification_scalars_and_points")
    ctx.unit("root", v.f["p"])
    ctx.unit("root", t.f["p"])
    E = Equation(v.ok())
    if len(E.msms) != 1:
        return ctx.ob(cfg + ".layout", None, "single verification is not one multi-exponentiation")
    P, S = E.msms[0].args[1:3]
    tv = t.okval()
    eqm = equalities(t.ok())
    rw = lambda x: subst_term(x, eqm)
    pc = v.argsym[2]
    dp, ds, di = (field(tv, x) for x in ("proof_dependent_points", "proof_dependent_scalars", "proof_independent_scalars"))
    S2 = rw(cat([ds, di]))
    S = rw(S)
    N = rw(pscale(psub(slen(di), num(2)), Fraction(1, 2)))
    P2 = rw(cat([dp, lst([field(pc, "B"), field(pc, "B_blinding")]), mapk(N, lambda i: app("G", ZERO, i)), mapk(N, lambda i: app("H", ZERO, i))]))
    ctx.ob(cfg + ".layout", True if rw(P) is P2 and S is S2 else None, "verify pairs the tuple's scalars with its points, B, B_blinding, G and H", t.f["sp"])


def one(ctx, prog, tag, K):
    f = prog.fn1("batch_verify")
    over = gens_over(f, prog)
    over[0] = lst([vt(prog, j) for j in range(K)])
    cap = None
    ns = [sym("n", j) for j in range(K)]
    ms = [sym("m", j) for j in range(K)]
    base = [pneg(x) for x in ns + ms]
    assume = TRUE
    for x in ns + ms:
        assume = b_and(assume, i_le(ZERO, x))
    r = Run(prog, f, models=cs_summary(prog), over=over, rawmsm=True, assume=assume)
    ctx.unit("root", f["p"])
    for x in r.I.analysed:
        ctx.unit("function", x)
    where = f["sp"]
    okc = r.ok()
    pc, bp = r.argsym[1], r.argsym[2]
    for e, cl in events(r.trace):
        if e.kind not in ("idx", "panic"):
            continue
        facts = list(base)
        for k, n in cl:
            facts += bounds(k, n)
        bad = e.guard
        if e.kind == "idx":
            s, i, n = e.data
            bad = b_and(bad, b_not(b_and(i_le(ZERO, i), i_lt(i, n))))
        if given(bad, facts) is FALSE:
            continue
        if any(x.op == "fld" and x.args[2] == "party_capacity" for x in subterms(bad)):
            continue       # generators for no party at all
        v = numeric.reach(bad, facts)
        ctx.ob("%s.panic@%s" % (tag, e.sp.split("/")[-1]), False if v[0] == "reached" else (True if v[0] == "none" else None),
               "%s: %s" % (e.kind, v[1]), e.sp)
    E = Equation(okc)
    if K == 0:
        # accepted: the sum is empty or has zero coefficients
        z = okc is not FALSE
        for m in E.msms:
            z = z and judge(None, (), [(m.args[2], mapk(slen(m.args[2]), lambda i: ZERO))])[0]
        acc = all(any(x in E.eqs for x in [a]) or b_and(okc, atom_cond(a)) is not FALSE for a in bdd_atoms(okc))
        return ctx.ob(tag + ".accepts", True if z and acc else (False if okc is FALSE else None), "condition %s" % show(okc)[:300], where)
    need = [a for a in E.eqs if b_and(okc, b_not(atom_cond(a))) is FALSE]
    if not need:
        return ctx.ob(tag + ".required", False, "acceptance does not require the combined equation", where)
    if len(need) != 1 or need[0].args[0].op != "app":
        return ctx.ob(tag + ".required", None, "not a single equation", where)
    ctx.ob(tag + ".required", True, show(need[0])[:200], where)
    capc = ZERO
    for n in ns:
        capc = smax(capc, n)
    v, why = implied(okc, i_le(capc, field(bp, "gens_capacity")), base)
    ctx.ob(tag + ".capacity", v, why, where)
    P, S = need[0].args[0].args[1:3]
    facts = list(base) + list(facts_from(okc))
    ctx.ob(tag + ".lengths", judge(psub(slen(P), slen(S)), facts)[0], "points %s scalars %s" % (show(slen(P)), show(slen(S))), where)
    segs = []
    o = ZERO
    for sg in E.segs(P):
        n = slen(sg)
        if sg.op == "lst":
            for j, p in enumerate(sg.args[0]):
                segs.append((p, None, ONE, at(S, padd(o, num(j)))))
        else:
            i = fresh("i")
            fs = [pneg(i), padd(psub(i, n), ONE)] + facts
            save, FACTS[0] = FACTS[0], tuple(fs)
            try:
                segs.append((given(at(sg, i), fs), i, n, given(at(S, padd(o, i)), fs)))
            finally:
                FACTS[0] = save
        o = padd(o, n)
    weights = {}
    other = []
    seen = {}
    for p, i, n, s in segs:
        if p.op == "app" and p.args[0] == "P":
            j = numval(p.args[1])
            seen.setdefault(j, []).append((p.args[2], i, n, s))
        elif p.op == "app" and p.args[0] in ("G", "H") and p.args[1] is ZERO:
            other.append((p.args[0], p.args[2], i, n, s))
        elif p is field(pc, "B"):
            other.append(("B", None, None, ONE, s))
        elif p is field(pc, "B_blinding"):
            other.append(("bb", None, None, ONE, s))
        else:
            other.append(("?", p, i, n, s))
    for j in range(K):
        key = "%s.proof%d" % (tag, j)
        got = seen.get(j, [])
        if len(got) != 1 or got[0][1] is None or psub(got[0][0], got[0][1]) is not ZERO:
            ctx.ob(key, False if not got else None, "its points occur in %d segments" % len(got), where)
            continue
        idx, i, n, s = got[0]
        cov = judge(psub(n, ms[j]), facts)
        w = pdiv(s, app("S", num(j), i))
        if i in syms(w):
            v, why = judge(psub(s, pmul(w, app("S", num(j), i))), facts)
            ctx.ob(key, None if not wrong_scalar(s, j) else False, "scalars are not a weight times the proof's scalars: %s" % show(s)[:300], where)
            continue
        weights[j] = w
        ctx.ob(key, cov[0], "all %s points, weight %s" % (show(ms[j]), show(w)[:200]), where)
        rn = [t for t in subterms(w) if t.op == "rng"]
        ctx.ob(key + ".weight", True if len(rn) >= 1 or K == 1 else (False if not syms(w) else None), "weight %s" % show(w)[:200], where)
        for t in rn:
            check_rng(ctx, key + ".source", r.trace, t)
    for a in weights:
        for b in weights:
            if a < b:
                ctx.ob("%s.weights.%d.%d" % (tag, a, b), weights[a] is not weights[b], "weights %s and %s" % (show(weights[a])[:100], show(weights[b])[:100]), where)
    if len(weights) < K:
        return
    # shared generators
    for kind, fn in (("B", "b"), ("bb", "bb"), ("G", "g"), ("H", "h")):
        got = [x for x in other if x[0] == kind]
        key = "%s.%s" % (tag, kind)
        if fn in ("b", "bb"):
            want = ZERO
            for j in range(K):
                want = padd(want, pmul(weights[j], app(fn, num(j))))
            tot = ZERO
            for x in got:
                tot = padd(tot, x[4])
            v, why = judge(psub(tot, want), facts)
            ctx.ob(key, v, "%s: %s" % (why, show(tot)[:300]), where)
            continue
        q = fresh("q")
        fs = [pneg(q), padd(psub(q, capc), ONE)] + facts
        want = ZERO
        for j in range(K):
            want = padd(want, ite(i_lt(q, ns[j]), pmul(weights[j], app(fn, num(j), q)), ZERO))
        tot = ZERO
        for _, idx, i, n, s in got:
            if i is None or i in syms(psub(idx, i)):
                tot = None
                break
            jx = psub(q, psub(idx, i))
            tot = padd(tot, ite(b_and(i_le(ZERO, jx), i_lt(jx, n)), subst(s, {i: jx}), ZERO))
        if tot is None:
            ctx.ob(key, None, "unrecognised segment", where)
            continue
        v, why = judge(psub(tot, want), fs)
        ctx.ob(key, v, "coefficient of %s[q]: %s: %s" % (kind, why, show(tot)[:300]), where)
    for x in other:
        if x[0] == "?":
            ctx.ob(tag + ".other", None, "unrecognised point %s" % show(x[1])[:100], where)


def wrong_scalar(s, j):
    """the scalars used belong to another proof, or to none"""
    own = [t for t in subterms(s) if t.op == "app" and t.args[0] == "S"]
    return bool(own) and all(numval(t.args[1]) != j for t in own)
