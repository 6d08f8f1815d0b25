"""The condition under which verification returns Ok (and under which a verification tuple for batching is produced) is
computed from the typed source of the release configuration for a symbolic statement and a symbolic proof. Each degenerate
shape of a proof is shown to be excluded by that condition: wrong number of polynomial commitments, a non-trivial unused
slot, the identity as mandatory first-phase commitment or as any inner-product point, unequal or wrong numbers of
inner-product points, too few generators. Every operation that can panic (indexing, slicing, unwrap, explicit panic) and
whose panic condition depends on proof data is shown unreachable under the conditions established before it."""
from r1cs import *
import numeric

RULE = "Ok condition implies every well-formedness condition; panic conditions depending on the proof are unsatisfiable"
FLOOR = 20
ASSUMPTIONS = ["constraints refer to variables of their own constraint system", "a challenge is zero with negligible probability"]


def run(ctx):
    for cfg, prog in ctx.configs():
        for root in ("verify", "verification_scalars_and_points"):
            for phase in (1, 2):
                t = "%s.%s.phase%d" % (cfg, root, phase)
                with ctx.guard(t):
                    one(ctx, prog, t, root, phase)
        with ctx.guard(cfg + ".ipp"):
            ipp(ctx, prog, cfg + ".ipp")


def one(ctx, prog, tag, root, phase):
    r = run_verify(prog, phase, name=root)
    ctx.unit("root", r.f["p"])
    for f in r.I.analysed:
        ctx.unit("function", f)
    okc = r.ok()
    where = r.f["sp"]
    me, pf = r.argsym[:2]
    f = lambda x, *n: get(x, n)
    vec = f(me, "vec_comms")
    nc = slen(vec)
    op = padd(num(2), pscale(idiv(nc, num(2)), 2))
    n = smax(f(me, "num_vars"), maxk(nc, lam1(lambda k: field(at(vec, k), "1"))))
    if phase == 2:
        n = padd(n, sym("ncb", F1))
    N = npo2(n)
    L, R = f(pf, "ipp_proof", "L_vec"), f(pf, "ipp_proof", "R_vec")
    T = f(pf, "T")
    want = {
        "T.length": eq0(psub(slen(T), padd(pscale(op, 2), num(3)))),
        "T.unused": eq0(at(T, op)),
        "L.length": eq0(psub(ppow(num(2), slen(L)), N)),
        "R.length": eq0(psub(ppow(num(2), slen(R)), N)),
        "L.identity": b_not(exists(slen(L), lam1(lambda k: eq0(at(L, k))))),
        "R.identity": b_not(exists(slen(R), lam1(lambda k: eq0(at(R, k))))),
    }
    for p in ("A_I1", "A_O1", "S1"):
        want[p + ".identity"] = b_not(eq0(f(pf, p)))
    if root == "verify":
        want["generators"] = i_le(N, f(r.argsym[3], "gens_capacity"))
    if okc is FALSE:
        return ctx.ob(tag + ".accepts", None, "no accepting path was found", where)
    eqm = equalities(okc)
    for k, p in want.items():
        v, why = implied(okc, p)
        if v is not True and eqm:
            v2, why2 = implied(subst_term(okc, eqm), subst_term(p, eqm))
            if v2 is True:
                v, why = v2, why2
        ctx.ob("%s.%s" % (tag, k), v, "acceptance requires %s: %s" % (show(p)[:200], why), where)
    crashes(ctx, tag, r, okc, pf)


def crashes(ctx, tag, r, okc, pf):
    """operations that panic, and how it depends on the proof"""
    given_ = set()
    for a in bdd_atoms(okc):
        for val in (True, False):
            c = atom_cond(a)
            if b_and(okc, b_not(c) if val else c) is FALSE:
                given_.add((a, val))
    seen = 0
    for e, ctxl in events(r.trace):
        if e.kind not in ("idx", "panic"):
            continue
        seen += 1
        facts = []
        for k, n in ctxl:
            facts += bounds(k, n)
        bad = e.guard
        if e.kind == "idx":
            s, i, n = e.data
            bad = b_and(bad, b_not(b_and(i_le(ZERO, i), i_lt(i, n))))
        rel = []
        for a in bdd_atoms(bad):
            if not from_proof(a, pf):
                continue
            for val in (True, False):
                c = atom_cond(a)
                if b_and(bad, b_not(c) if val else c) is FALSE and (a, val) in given_:
                    break
            else:
                rel.append(a)
        key = "%s.panic@%s" % (tag, e.sp.split("/")[-1])
        if not rel:
            continue
        fs = list(facts) + list(facts_from(bad))
        g = given(bad, fs)
        if g is FALSE:
            ctx.ob(key, True, "the operation cannot panic", e.sp)
            continue
        v = numeric.reach(opened(bad), facts)
        if v[0] == "reached":
            ctx.ob(key, False, "%s panics for some proofs: %s (e.g. at %s)" % ("index" if e.kind == "idx" else "call", "; ".join(show(a)[:150] for a in rel[:3]), v[1]), e.sp)
        else:
            ctx.ob(key, True if v[0] == "none" else None, "no panicking assignment: %s" % (v[1],), e.sp)
    ctx.unit("operations that can panic", "%s: %d" % (tag, seen))


def from_proof(a, pf):
    """the atom depends on proof data other than through a challenge"""
    seen = set()
    stack = [a]
    while stack:
        t = stack.pop()
        if t in seen:
            continue
        seen.add(t)
        if t is pf:
            return True
        if t.op == "app" and t.args[0] in ("cs", "msm"):
            continue
        stack += children(t)
    return False


def ipp(ctx, prog, tag):
    """the verification scalars of an inner-product proof, for any vector length"""
    f = prog.fn1("verification_scalars", self_adt="InnerProductProof")
    r = Run(prog, f, models=cs_summary(prog))
    ctx.unit("root", f["p"])
    okc = r.ok()
    me, n = r.argsym[0], r.argsym[1]
    L, R = field(me, "L_vec"), field(me, "R_vec")
    for k, p in {"L.length": eq0(psub(ppow(num(2), slen(L)), n)), "R.length": eq0(psub(slen(R), slen(L))),
                 "L.identity": b_not(exists(slen(L), lam1(lambda k: eq0(at(L, k))))),
                 "R.identity": b_not(exists(slen(L), lam1(lambda k: eq0(at(R, k)))))}.items():
        v, why = implied(okc, p)
        ctx.ob("%s.%s" % (tag, k), v, "acceptance requires %s: %s" % (show(p)[:200], why), f["sp"])
    crashes(ctx, tag, r, okc, me)


def lam1(fn):
    k = fresh("k")
    return lam((k,), fn(k))
