"""Verifier::verify is analysed from its typed source, for a symbolic statement (any number of scalar and vector
commitments, constraints and multipliers) and a symbolic proof, in the one-phase protocol and in the two-phase protocol
with an opaque randomized callback. The condition under which it returns Ok must require one multi-exponentiation to be
zero. Every point of that multi-exponentiation (each position of each segment, lengths symbolic) is identified as a
statement commitment, proof point or generator, and the coefficient the code gives it is compared, as a polynomial in the
challenges, the opened scalars and the constraint coefficients, with the coefficient the protocol prescribes. The set of
points is required to be complete and free of repetitions. batch verification uses the same tuple (see C05)."""
from r1cs import *

RULE = "normal form of coefficient(point) = protocol coefficient, for every position of every segment, under case analysis on the segment thresholds"
FLOOR = 40
ASSUMPTIONS = ["field, group and multi-exponentiation operations of arkworks compute what their names say",
               "randomized callbacks act on the verifier only through the methods of RandomizingVerifier (its inner verifier is private)"]


def run(ctx):
    for cfg, prog in ctx.configs():
        for phase in (1, 2):
            with ctx.guard("%s.phase%d" % (cfg, phase)):
                one(ctx, prog, "%s.phase%d" % (cfg, phase), phase)


def one(ctx, prog, tag, phase):
    r = run_verify(prog, phase)
    ctx.unit("root", r.f["p"])
    for f in r.I.analysed:
        ctx.unit("function", f)
    spec = Spec(r, phase)
    E = Equation(spec.okc)
    where = r.f["sp"]
    need = [a for a in E.eqs if b_and(spec.okc, b_not(atom_cond(a))) is FALSE]
    if not need:
        return ctx.ob(tag + ".required", False, "acceptance does not require the multi-exponentiation to vanish", where)
    ctx.ob(tag + ".required", True, "Ok implies " + str(need[0])[:200], where)
    if len(need) != 1 or need[0].args[0].op != "app" or need[0].args[0].args[0] != "msm":
        return ctx.ob(tag + ".form", None, "the final equation is not a single multi-exponentiation", where)
    m = need[0].args[0]
    P, S = spec.rw(m.args[1]), spec.rw(m.args[2])
    pl, sl = spec.rw(slen(P)), spec.rw(slen(S))
    ctx.ob(tag + ".lengths", judge(psub(pl, sl), spec.facts)[0], "points %s scalars %s" % (pl, sl), where)
    segs = segments(spec)
    spec.roles(segs, ctx, tag)
    check_rng(ctx, tag + ".weight", r.trace, spec.r)
    seen = {}
    for p, i, n, s in segs:
        k = spec.classify(p, i)
        if k is None:
            ctx.ob(tag + ".point." + str(p)[:60], None, "unrecognised point %s" % p, where)
            spec.incomplete = True
            continue
        kind, idx = k
        seen.setdefault(kind, []).append((idx, i, n, s))
    for kind, want in spec.points.items():
        n, coef = want
        got = seen.pop(kind, [])
        key = "%s.%s" % (tag, kind)
        if not got:
            ctx.ob(key, None if spec.incomplete else False, "%s does not occur in the verification equation" % kind, where)
            continue
        cover(ctx, key, kind, spec, got, n, coef, where)
    for kind in seen:
        ctx.ob("%s.%s" % (tag, kind), False, "%s has no place in the verification equation" % kind, where)


def segments(spec):
    """(point, index, range, scalar) for every segment of the final multi-exponentiation"""
    E = Equation(spec.okc)
    m = E.msms[0]
    P, S = spec.rw(m.args[1]), spec.rw(m.args[2])
    eqf = list(spec.facts)
    segs = []
    o = ZERO
    for sg in E.segs(P):
        n = spec.rw(slen(sg))
        if sg.op == "lst":
            for j, p in enumerate(sg.args[0]):
                segs.append((p, None, ONE, at(S, padd(o, num(j)))))
        else:
            i = fresh("i")
            fs = [pneg(i), padd(psub(i, n), ONE)] + eqf
            save, FACTS[0] = FACTS[0], tuple(fs)
            try:
                p = given(at(sg, i), fs)
                s = given(at(S, padd(o, i)), fs)
            finally:
                FACTS[0] = save
            segs.append((p, i, n, s))
        o = padd(o, n)
    return segs


def cover(ctx, key, kind, spec, got, n, coef, where):
    """the segments of one kind of point: together they give every index its prescribed coefficient"""
    if n is None:
        tot = ZERO
        for idx, i, cnt, s in got:
            tot = padd(tot, s)
        v, why = judge(psub(tot, coef), spec.facts)
        return ctx.ob(key, v, "%s: coefficient %s" % (why, show(tot, 0, 6)[:300]) if v else
                      "coefficient of %s, code minus protocol: %s" % (kind, why), where)
    # generic index g of the kind: sum of the coefficients of all places holding it
    g = fresh("g")
    gf = [pneg(g), padd(psub(g, n), ONE)] + list(spec.facts)
    tot = ZERO
    for idx, i, cnt, s in got:
        if i is None:
            c = ite(eq0(psub(g, idx)), s, ZERO)
        else:
            # idx = i + off
            off = psub(idx, i)
            if i in syms(off):
                return ctx.ob(key, None, "index %s of %s is not a shift" % (idx, kind), where)
            j = psub(g, off)
            c = subst(s, {i: j})
            c = ite(b_and(i_le(ZERO, j), i_lt(j, cnt)), c, ZERO)
            # places outside the range of the statement
            lo, why = judge(ite(b_or(i_lt(idx, ZERO), i_le(n, idx)), s, ZERO), [pneg(i), padd(psub(i, cnt), ONE)] + list(spec.facts))
            if lo is not True:
                ctx.ob(key + ".range", lo, "place %s of %s lies outside the statement's %s: %s" % (idx, kind, n, why), where)
        tot = padd(tot, c)
    want = coef(g)
    v, why = judge(psub(tot, want), gf)
    ctx.ob(key, v, "%s: coefficient of %s[g], g<%s: %s" % (why, kind, show(n), show(tot, 0, 6)[:300]) if v else
           "coefficient of %s[g], g<%s, code minus protocol: %s" % (kind, show(n), why), where)


class Spec:
    """what the protocol prescribes, in terms of the statement, the proof and the challenges"""

    def __init__(self, r, phase):
        self.r = r
        self.incomplete = False
        okc = r.ok()
        self.eqm = equalities(okc)
        self.okc = self.rw(okc)
        me, pf, pc, bp = r.argsym[:4]
        self.me, self.pf, self.pc = me, pf, pc
        self.facts = tuple(facts_from(self.okc))
        f = lambda x, *n: get(x, n)
        self.vec = f(me, "vec_comms")
        self.V = f(me, "V")
        nc = slen(self.vec)
        self.nc = nc
        self.h = idiv(nc, num(2))
        self.op = padd(num(2), pscale(self.h, 2))
        self.cons = f(me, "constraints")
        size1 = smax(f(me, "num_vars"), maxk(nc, lam1(lambda k: field(at(self.vec, k), "1"))))
        self.n1 = size1
        n = size1
        if phase == 2:
            self.cons = cat([self.cons, sym("cbcons", F1)])
            n = padd(n, sym("ncb", F1))
        self.nv = n        # after padding, multipliers >= every dimension
        self.N = npo2(n)
        self.lg = self.rw(slen(f(pf, "ipp_proof", "L_vec")))
        self.facts += (psub(size1, n), psub(n, self.N))

    def rw(self, t):
        return subst_term(t, self.eqm) if self.eqm else t

    def roles(self, segs, ctx, tag):
        """challenges are identified by what they multiply"""
        pf = self.pf
        co = {}
        for p, i, n, s in segs:
            if p.op == "fld" or i is None:
                co.setdefault(p, s)
        A, A2 = co.get(field(pf, "A_O1")), co.get(field(pf, "A_O2"))
        chals = []
        for p, i, n, s in segs:
            for t in subterms(s):
                if t.op == "app" and t.args[0] == "cs" and t not in chals and not has_bound(t):
                    chals.append(t)
        chals = [c for c in chals if not any(x.op == "sym" and x.args and x.args[0] in ("i", "g") for x in syms(c))]
        rngs = [t for p, i, n, s in segs for t in subterms(s) if t.op == "rng"]
        self.x = self.u = self.w = self.y = self.z = None
        if A is not None:
            for c in chals:
                if A is ppow(c, self.op):
                    self.x = c
        if A2 is not None and self.x is not None:
            q = pdiv(A2, A)
            if q in chals:
                self.u = q
        by = {}
        for c in chals:
            lab = c.args[2]
            by.setdefault(labtext(lab), []).append(c)
        pick1 = lambda l: by[l][0] if len(by.get(l, [])) == 1 else None
        self.x = self.x or pick1("x")
        self.u = self.u or ([c for c in by.get("u", []) if c is not self.x] or [None])[0]
        B = co.get(field(self.pc, "B"))
        rest = [c for c in chals if c not in (self.x, self.u)]
        if B is not None:
            ab = pmul(get(pf, ("ipp_proof", "a")), get(pf, ("ipp_proof", "b")))
            for c in rest:
                if mentions(B, c) and coef_at(B, pmul(ab, c)):
                    self.w = c
        self.w = self.w or pick1("w")
        rest = [c for c in rest if c is not self.w]
        for p, i, n, s in segs:
            if p.op == "at" and p.args[0] is self.V:
                zs = [c for c in rest if mentions(s, c)]
                if len(zs) == 1:
                    self.z = zs[0]
        self.z = self.z or pick1("z")
        rest = [c for c in rest if c is not self.z]
        self.y = rest[0] if len(rest) == 1 else pick1("y")
        self.r = None
        rs = {t for t in rngs}
        if len(rs) == 1:
            self.r = rs.pop()
        if None in (self.x, self.u, self.w, self.y, self.z, self.r):
            raise Exception("roles of the challenges not identified: %s / %s" % ([show(c) for c in chals], len(rs)))
        L = get(pf, ("ipp_proof", "L_vec"))
        self.uk = None
        for p, i, n, s in segs:
            if p.op == "at" and p.args[0] is L and i is not None:
                if s.op == "poly" and len(s.args[0]) == 1 and len(s.args[0][0][0]) == 1 and s.args[0][0][0][0][1] == 2:
                    a = s.args[0][0][0][0][0]
                    off = psub(p.args[1], i)
                    if a.op == "app" and a.args[0] == "cs":
                        self.uk = lambda k, a=a, i=i, off=off: subst(a, {i: psub(k, off)})
        if self.uk is None:
            raise Exception("round challenges not identified")
        self.build()

    def build(self):
        pf, x, y, z, u, w, r = self.pf, self.x, self.y, self.z, self.u, self.w, self.r
        f = lambda *n: get(pf, n)
        op, h, nc = self.op, self.h, self.nc
        mid = pscale(op, Fraction(1, 2))
        ab = pmul(f("ipp_proof", "a"), f("ipp_proof", "b"))

        def leftdeg(j):
            i = ite(i_lt(j, h), j, padd(j, ONE))
            return psub(psub(op, ONE), i)

        def rightdeg(j):
            i = ite(i_lt(j, h), j, padd(j, ONE))
            return padd(i, ONE)

        def weight(variant, sel, sign=1):
            """sum over all constraints and terms of z^(q+1) * coefficient, for terms matching the variable"""
            return psum(slen(self.cons), lam1(lambda q: psum(slen(field(at(self.cons, q), "terms")), lam1(lambda t: pscale(self.term(q, t, variant, sel), sign)))))
        wL = lambda i: weight("MultiplierLeft", lambda v: eq0(psub(vfield(v, "MultiplierLeft", "0"), i)))
        wR = lambda i: weight("MultiplierRight", lambda v: eq0(psub(vfield(v, "MultiplierRight", "0"), i)))
        wO = lambda i: weight("MultiplierOutput", lambda v: eq0(psub(vfield(v, "MultiplierOutput", "0"), i)))
        wV = lambda i: weight("Committed", lambda v: eq0(psub(vfield(v, "Committed", "0"), i)), -1)
        wVC = lambda j, i: weight("VectorCommit", lambda v: b_and(eq0(psub(vfield(v, "VectorCommit", "0"), j)), eq0(psub(vfield(v, "VectorCommit", "1"), i))))
        wc = weight("One", lambda v: TRUE, -1)
        # inner-product scalars: s_0 = prod u_k^-1, s_i = s_(i - 2^lg i) * u^2_(lg - 1 - lg i)
        lg = self.lg
        lN = lg
        s0 = pprod(lN, lam1(lambda k: pinv(self.uk(k))))
        k, hh = fresh("k"), fresh("h")
        i1 = padd(k, ONE)
        li = ilog2(i1)
        step = push(hh, pmul(at(hh, psub(i1, ppow(num(2), li))), ppow(self.uk(psub(psub(lg, ONE), li)), num(2))))
        sv = rec(psub(self.N, ONE), lam((k, hh), mk("tup", (step,))), mk("tup", (lst([s0]),)))
        ui = lambda i: ite(i_lt(i, self.n1), ONE, u)
        yinv = lambda i: ppow(pinv(y), i)
        yneg = lambda i: ite(i_lt(i, self.nv), pmul(yinv(i), wR(i)), ZERO)
        ifn = lambda i, t: ite(i_lt(i, self.nv), t, ZERO)
        delta = psum(self.nv, lam1(lambda i: pmul(pmul(yinv(i), wR(i)), wL(i))))

        def H(i):
            vc = psum(nc, lam1(lambda j: pmul(ppow(x, rightdeg(j)), ite(i_lt(i, field(at(self.vec, j), "1")), wVC(j, i), ZERO))))
            comb = padd(padd(pmul(ppow(x, mid), ifn(i, wL(i))), ifn(i, wO(i))), vc)
            return pmul(ui(i), psub(pmul(yinv(i), psub(comb, pmul(f("ipp_proof", "b"), at(sv, psub(psub(self.N, ONE), i))))), ONE))

        def G(i):
            return pmul(ui(i), psub(pmul(ppow(x, mid), yneg(i)), pmul(f("ipp_proof", "a"), at(sv, i))))
        rx = lambda d: pmul(r, ppow(x, d))
        tn = padd(pscale(op, 2), num(3))
        self.points = {
            "vector commitment": (nc, lambda j: ppow(x, leftdeg(j))),
            "A_I1": (None, ppow(x, mid)), "A_O1": (None, ppow(x, op)), "S1": (None, ppow(x, padd(op, ONE))),
            "A_I2": (None, pmul(u, ppow(x, mid))), "A_O2": (None, pmul(u, ppow(x, op))), "S2": (None, pmul(u, ppow(x, padd(op, ONE)))),
            "V": (slen(self.V), lambda i: pmul(rx(op), wV(i))),
            # the slot at op is checked to be the identity, its coefficient is free
            "T": (tn, lambda d: ite(eq0(psub(d, op)), ZERO, rx(d))),
            "L": (lg, lambda k: ppow(self.uk(k), num(2))), "R": (lg, lambda k: ppow(self.uk(k), num(-2))),
            "B": (None, padd(pmul(w, psub(f("t_x"), ab)), pmul(r, psub(pmul(ppow(x, op), padd(wc, delta)), f("t_x"))))),
            "B_blinding": (None, psub(pneg(f("e_blinding")), pmul(r, f("t_x_blinding")))),
            "G": (self.N, G), "H": (self.N, H),
        }

    def term(self, q, t, variant, sel):
        vt = at(field(at(self.cons, q), "terms"), t)
        v = field(vt, "0")
        c = field(vt, "1")
        return ite(b_and(isv(v, variant), sel(v)), pmul(ppow(self.z, padd(q, ONE)), c), ZERO)

    def classify(self, p, i):
        pf = self.pf
        for n in ("A_I1", "A_O1", "S1", "A_I2", "A_O2", "S2"):
            if p is field(pf, n):
                return n, None
        if p is field(self.pc, "B"):
            return "B", None
        if p is field(self.pc, "B_blinding"):
            return "B_blinding", None
        if p.op == "app" and p.args[0] in ("G", "H") and p.args[1] is ZERO:
            return p.args[0], p.args[2]
        if p.op == "fld" and p.args[0].op == "at" and p.args[0].args[0] is self.vec and p.args[2] == "0":
            return "vector commitment", p.args[0].args[1]
        for kind, seq in (("V", self.V), ("T", field(pf, "T")), ("L", get(pf, ("ipp_proof", "L_vec"))), ("R", get(pf, ("ipp_proof", "R_vec")))):
            if p.op == "at" and p.args[0] is seq:
                return kind, p.args[1]
        return None


def lam1(fn):
    k = fresh("k")
    return lam((k,), fn(k))


def labtext(l):
    return show(l).strip("'\"")


def coef_at(p, mono):
    """p has a monomial divisible by the monomial mono"""
    (m, c), = monos(mono)
    return any(all(any(a is b and (e == f) for b, f in mm) for a, e in m) for mm, cc in monos(p))
