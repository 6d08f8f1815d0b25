"""InnerProductProof::create is analysed for vectors of n symbols, n each power of two up to 128 (256 thorough), giving the
left and right points and the final scalars as polynomials in the inputs and the round challenges. They are compared with the
folding the protocol prescribes; and InnerProductProof::verify, analysed with a symbolic proof, must have a residual that
vanishes identically when the produced points and scalars are put in and the commitment is the prescribed combination of the
inputs, and that does not vanish when the claimed inner product is shifted."""
from r1cs import *
from session import method, sym_proof, match_proof
from checks.c02 import ipp_pair
import numeric

RULE = "L_k, R_k, a, b (normal forms) = protocol folding; residual of verify over the produced proof = 0"
FLOOR = 40
ASSUMPTIONS = ["unrolled for the listed vector lengths"]


def chals():
    """challenges by draw number (their agreement is C02)"""
    n = [0]

    def m(I, f, args, st, fr, e):
        n[0] += 1
        c = sym("u", n[0] - 1)
        s = I.load(args[0], st)
        I.ev("chal", (I.pure(args[1], st), c, s if s.op != "ref" else I.load(s, st)), st, e.get("sp"), fr)
        return c
    return m, n


def run(ctx):
    for cfg, prog in ctx.configs():
        n = 1
        while n <= (256 if ctx.tier == "thorough" else 128):
            with ctx.guard("%s.%d" % (cfg, n)):
                one(ctx, prog, cfg, n)
            n *= 2


def same(got, want):
    if got is want or padd_small(got, want):
        return True, "normal forms equal"
    v = numeric.test([(got, want)], want=4)
    return {"equal": True, "differs": False}.get(v[0]), "identity testing: %s" % (v,)


def padd_small(a, b):
    return len(monos(a)) + len(monos(b)) < 3000 and psub(a, b) is ZERO


def one(ctx, prog, cfg, n):
    tag = "%s.%d" % (cfg, n)
    key = [k for k in cs_summary(prog)]
    if not key:
        raise Anchor("challenge_scalar")
    P, V, sub, vec = ipp_pair(prog, n, lambda: {key[0]: chals()[0]})
    where = P.f["sp"]
    ctx.unit("length", tag)
    for f in P.I.analysed | V.I.analysed:
        ctx.unit("function", f)
    pr = P.pval
    g = lambda s, i: vec[s].args[0][i]
    lg = n.bit_length() - 1
    u = [sym("u", i) for i in range(lg)]
    a = [g("a", i) for i in range(n)]
    b = [g("b", i) for i in range(n)]
    G = [pmul(g("gf", i), g("G", i)) for i in range(n)]
    H = [pmul(g("hf", i), g("H", i)) for i in range(n)]
    Q = sym("Q")
    com = ZERO
    for i in range(n):
        com = padd(com, padd(pmul(a[i], G[i]), pmul(b[i], H[i])))
    ip = ZERO
    for i in range(n):
        ip = padd(ip, pmul(a[i], b[i]))
    L, R = field(pr, "L_vec"), field(pr, "R_vec")
    ctx.ob(tag + ".rounds", judge(None, (), [(slen(L), num(lg)), (slen(R), num(lg))])[0], "%s left and %s right points for %d rounds" % (show(slen(L)), show(slen(R)), lg), where)
    for k in range(lg):
        h = len(a) // 2
        l = r = ZERO
        for i in range(h):
            l = padd(l, padd(pmul(a[i], G[h + i]), padd(pmul(b[h + i], H[i]), pmul(pmul(a[i], b[h + i]), Q))))
            r = padd(r, padd(pmul(a[h + i], G[i]), padd(pmul(b[i], H[h + i]), pmul(pmul(a[h + i], b[i]), Q))))
        for nm, want, got in (("L", l, at(L, num(k))), ("R", r, at(R, num(k)))):
            v, why = same(got, want)
            ctx.ob("%s.%s%d" % (tag, nm, k), v, "round %d: %s" % (k, why), where)
        ui = pinv(u[k])
        a = [padd(pmul(a[i], u[k]), pmul(a[h + i], ui)) for i in range(h)]
        b = [padd(pmul(b[i], ui), pmul(b[h + i], u[k])) for i in range(h)]
        G = [padd(pmul(G[i], ui), pmul(G[h + i], u[k])) for i in range(h)]
        H = [padd(pmul(H[i], u[k]), pmul(H[h + i], ui)) for i in range(h)]
    for nm, want in (("a", a[0]), ("b", b[0])):
        v, why = same(field(pr, nm), want)
        ctx.ob("%s.%s" % (tag, nm), v, "final scalar %s: %s" % (nm, why), where)
    # the verifier's equation
    wv = V.f["sp"]
    okc = V.ok()
    pt = sym("Pcom")
    eqs = [x for x in bdd_atoms(okc) if x.op == "eq0" and pt in syms(x)]
    if len(eqs) != 1:
        return ctx.ob(tag + ".equation", None if eqs else False, "acceptance has %d equations on the commitment" % len(eqs), wv)
    ctx.ob(tag + ".required", b_and(okc, b_not(atom_cond(eqs[0]))) is FALSE, "acceptance requires the equation", wv)
    res = subst_term(eqs[0].args[0], sub)
    t = numeric.test(res, want=4, let={pt: padd(com, pmul(ip, Q))})
    ctx.ob(tag + ".accepts", {"differs": False, "equal": True}.get(t[0]), "residual of the produced proof: %s" % (t,), wv)
    t = numeric.test(res, want=4, let={pt: padd(com, pmul(padd(ip, sym("shift")), Q))})
    ctx.ob(tag + ".rejects", {"differs": True, "equal": False}.get(t[0]), "a shifted claim leaves a residual: %s" % t[0], wv)
