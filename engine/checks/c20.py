"""The single-level gadgets (single, and batched for one to three selections) are analysed on a recording constraint system. The circuit is
solved with the children at generic abscissas, some on the curve and some not, and the coordinates of the public commitment (shifted by
delta once per selection) left unknown: the points allowed have to be exactly the sums of one point per group of children, with either
sign of the ordinate, plus one entry of every window table. The transcript must have absorbed the public commitment. The parameters'
constructor is analysed: the tables are built from the blinding base and the coefficients are those of the curve."""
import itertools
import random
from circuit import *
from checks.c17 import table
from checks.c19 import E_sum, WIDTH, total

RULE = ("shifted public points allowed = {+-P_1 +- .. +- P_M + T_1[d_1] + .. : x(P_k) among the children of group k}; the shift is M * delta; "
        "the public point is absorbed by the transcript; parameters use the curve's coefficients and tables of the blinding base")
FLOOR = 20
ASSUMPTIONS = ["linear combinations behave as linear polynomials (C13)", "the proof system enforces every gate and constraint (C03, C12)",
               "polynomial identities are decided at random points of a 127-bit field", "the rerandomization gadget for all widths: C19"]
SINGLE, BATCHED = "single_level_select_and_rerandomize", "single_level_batched_select_and_rerandomize"


def run(ctx):
    for cfg, prog in ctx.configs():
        numeric.set_variants(prog)
        shapes = [(SINGLE, 1, n) for n in (1, 2, 4)] + [(BATCHED, 1, 2), (BATCHED, 2, 1), (BATCHED, 2, 2), (BATCHED, 3, 2)]
        if ctx.tier == "thorough":
            shapes += [(SINGLE, 1, n) for n in (3, 5, 8, 16)] + [(BATCHED, 1, 5), (BATCHED, 2, 4), (BATCHED, 3, 3), (BATCHED, 4, 2)]
        for nm, M, n in shapes:
            key = "%s.%s%d_%d" % (cfg, "batched" if nm == BATCHED else "single", M, n)
            with ctx.guard(key):
                level(ctx, prog, key, nm, M, n)
        with ctx.guard(cfg + ".parameters"):
            parameters(ctx, prog, cfg + ".parameters")


D, RC = sym("D"), sym("RC")


def params(prog, m, cell):
    p = paths(prog)["SingleLayerParameters"]
    fs = [x[0] for x in prog.adts[p]["v"][0][1]]
    known = {"delta": D, "coeff_a": pub("a"), "coeff_b": pub("b"), "tables": lst([table(prog, (lambda i: lambda c, j: cell(i, c, j))(i), 2) for i in range(m)])}
    if not set(known) <= set(fs):
        raise Anchor("fields of SingleLayerParameters")
    return adt(p, p.split("::")[-1], tuple((x, known.get(x, sym("par_" + x))) for x in fs))


def cell(i, c, j):
    return pub("T", i, c, j)


def extract(prog, nm, M, n, lam, child=NONE_, rand=NONE_, models=None):
    f = find(prog, nm)
    ro = roles(prog, f)
    m = lam // 3 + 1
    kids = [pub("x", k) for k in range(M * n)]
    over = {ro["SingleLayerParameters"][0]: params(prog, m, cell), ro["Affine"][0]: RC, ro["Vec"][0]: lst(kids), ro["Option"][0]: child, ro["Option"][1]: rand}
    r = gadget(prog, nm, over=over, models=dict(WIDTH(lam), **(models or {})), consts={"M": num(M)}, path=f["p"])
    return f, r, kids, m


def level(ctx, prog, key, nm, M, n):
    lam = 6
    f, r, kids, m = extract(prog, nm, M, n, lam)
    units(ctx, r, key)
    ctx.ob(key + ".returns", True if r.st.pc is TRUE else None, "the gadget completes: %s" % show(r.st.pc)[:100], f["sp"])
    # transcript
    cs = r.out(r.cs)
    h = field(cs, "tr")
    items = set(subterms(h))
    full = any(x.op == "ser" and x.args[0] is RC for x in items)
    ctx.ob(key + ".transcript", True if full else False if RC not in items and h.op in ("tr", "sym") else None,
           "the transcript absorbs %s" % show(h)[:160], f["sp"])
    # shift
    c = Circ(r)
    at_ = {x for k, d, g, sp in c.order for y in d if hasattr(y, "op") for x in subterms(y) if x.op == "fld" and (RC in set(subterms(x)) or D in set(subterms(x)))}
    at_ |= {x for k, d, g, sp in c.order for y in d if hasattr(y, "op") for x in subterms(y) if x.op == "app" and x.args[0] in ("xcoord", "ycoord")}
    pts = {x.args[0] if x.op == "fld" else x.args[1] for x in at_}
    shift = padd(RC, pmul(num(M), D))
    ctx.ob(key + ".shift", pts == {shift} if len(pts) >= 1 else None, "the point constrained is %s, expected the public point plus %d times delta" % (", ".join(sorted(show(x)[:60] for x in pts)), M), f["sp"])
    if len(pts) != 1:
        return
    pt = next(iter(pts))
    fx = [x for x in at_ if (x.args[-1] if x.op == "fld" else x.args[0]) in ("x", "xcoord")]
    fy = [x for x in at_ if (x.args[-1] if x.op == "fld" else x.args[0]) in ("y", "ycoord")]
    if len(fx) + len(fy) == 1:
        hid = [y for k, d, g, sp in c.order for y in d if hasattr(y, "op") and RC in set(subterms(subst_term(y, {x: ZERO for x in at_})))]
        ctx.ob(key + ".bound", None if hid else False, "the %s of the public point is in no constraint" % ("ordinate" if fx else "abscissa"), f["sp"])
        return
    if len(fx) != 1 or len(fy) != 1:
        raise Gap("coordinates of the public point: " + ", ".join(show(x) for x in at_))
    outs = (fx[0], fy[0])
    rnd = random.Random(M * 10 + n)
    for case, vary in (("children", None), ("windows", "all" if M == 1 and n == 1 else rnd.randrange(m))):
        E = Curve(rnd)
        P_, xs = [], []
        for k in range(M * n):
            if n > 2 and k % n == 1:
                x = next(z for z in iter(lambda: rnd.randrange(P), None) if sqrt(E.rhs(z)) is None)
                P_.append(None)
            else:
                q = E.point()
                x = q[0]
                P_.append(q)
            xs.append(x)
        if n > 3:
            xs[3], P_[3] = xs[2], P_[2]       # a repeated child
        T = [[E.point() for j in range(8)] if vary == "all" or vary == i else [E.point()] * 8 for i in range(m)]
        fxd = {pub("a"): E.a, pub("b"): E.b}
        fxd.update(zip(kids, xs))
        for i in range(m):
            for j in range(8):
                fxd[cell(i, 0, j)], fxd[cell(i, 1, j)] = T[i][j]
        groups = [[s for q in P_[g * n:(g + 1) * n] if q is not None for s in (q, E.neg(q))] for g in range(M)]
        exp = {total(E, E_sum(E, ps), T, d) for ps in itertools.product(*groups) for d in itertools.product(*[range(8) if len(set(t)) > 1 else (0,) for t in T])}
        s = System(c, Vals(rnd, fxd), lambda a: a in outs, rnd)
        ctx.unit("circuits", "%s: %d gates, %d constraints" % (key, len(s.gates), len(s.cons)))
        ok, why = verdict(s, outs, exp, "the shifted public point, %d selections among %d children each" % (M, n), relevant=True)
        ctx.ob("%s.%s" % (key, case), ok, why, f["sp"])
    # selected children with one abscissa cannot be added
    if M >= 2:
        q = E.point()
        for sgn in (q, E.neg(q)):
            fxd.update({k: q[0] for k in kids})
            s = System(c, Vals(rnd, fxd), lambda a: a in outs, rnd)
            res, fr, full = s.solve(outs, limit=1, guess=8, relevant=True)
            ctx.ob(key + ".same", False if res else True if full else None, "the same child selected twice: %s" % ("accepted, the sum is not forced" if res else "refused"), f["sp"])
            break


def parameters(ctx, prog, key):
    fs = [f for f in prog.byname["new"] if f["p"].startswith(paths(prog)["SingleLayerParameters"].rsplit("::", 1)[0]) and not prog.is_test(f)]
    if len(fs) != 1:
        raise Anchor("SingleLayerParameters::new")
    f = fs[0]
    B = sym("tablesof")
    bt = find(prog, "build_tables")
    r = Run(prog, f, models={bt["p"]: lambda I, g, args, st, fr, e: app("tables", I.pure(I.load(args[0], st), st))}, lcnum=True)
    v = r.okval() if r.pval.op == "adt" and r.pval.args[0].endswith("Result") else r.pval
    for p in r.I.analysed:
        ctx.unit("functions", p)
    pc = field(v, "pc_gens")
    t = field(v, "tables")
    base = field(pc, "B_blinding")
    want = app("tables", base)
    d = restrict(t, r.st.pc) is restrict(want, r.st.pc)
    ctx.ob(key + ".tables", True if d else False if t.op == "app" and t.args[0] == "tables" else None,
           "window tables built from %s" % show(t)[:100], f["sp"])
    for nm, cn in (("coeff_a", "COEFF_A"), ("coeff_b", "COEFF_B")):
        x = field(v, nm)
        isc = x.op == "app" and x.args[0].startswith("const:")
        ctx.ob("%s.%s" % (key, nm), (x.args[0].endswith("::" + cn)) if isc else None, "%s is %s" % (nm, show(x)[:80]), f["sp"])
    dl = field(v, "delta")
    free = [x for x in subterms(dl) if x.op == "sym"]
    ctx.ob(key + ".delta", not free, "delta is a fixed point, derived by hashing: %s" % show(dl)[:80], f["sp"])
