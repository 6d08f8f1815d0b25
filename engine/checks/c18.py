"""The curve gadgets are analysed on a recording constraint system into the gates and constraints they issue, and the circuits are solved
as algebraic systems. Membership: for abscissas at generic values, and zero, the ordinates allowed have to be exactly the square roots of
x^3 + ax + b, with both curve coefficients generic or zero. Addition: for two points with distinct abscissas the output has to be
determined, and to be the chord sum; for equal abscissas and different ordinates there must be no solution, and the checked addition
must have none for equal abscissas whatever the ordinates. The helpers that allocate the output are solved in the same way."""
import random
from circuit import *

RULE = "constraints(x, y) <=> y^2 = x^3 + ax + b; constraints(l, r, o) <=> o = l + r (chord), and checked: no solution if x_l = x_r"
FLOOR = 40
ASSUMPTIONS = ["linear combinations behave as linear polynomials (C13)", "the proof system enforces every gate and constraint (C03, C12)",
               "polynomial identities are decided at random points of a 127-bit field"]


def run(ctx):
    for cfg, prog in ctx.configs():
        numeric.set_variants(prog)
        with ctx.guard(cfg + ".curve_check"):
            member(ctx, prog, cfg + ".curve_check")
        for name, checked in (("incomplete_curve_addition", False), ("checked_curve_addition", True)):
            with ctx.guard("%s.%s" % (cfg, name)):
                addition(ctx, prog, "%s.%s" % (cfg, name), name, checked)
            with ctx.guard("%s.%s_helper" % (cfg, name)):
                helper(ctx, prog, "%s.%s_helper" % (cfg, name), name + "_helper", checked)


def member(ctx, prog, key):
    f = find(prog, "curve_check")
    ro = roles(prog, f)
    xi, yi = ro["LinearCombination"]
    X, Y = pub("x"), sym("Y")
    ab = [i for i in range(len(f["params"])) if i not in (xi, yi) and i not in ro["cs"]]
    A, B = pub("a"), pub("b")
    r = gadget(prog, "curve_check", over={xi: X, yi: Y, ab[0]: A, ab[1]: B})
    units(ctx, r, key)
    normal(ctx, key, r, f["sp"])
    c = Circ(r)
    rnd = random.Random(1)
    n = 24 if ctx.tier == "thorough" else 8
    base = Vals(rnd)
    cases = [("generic%d" % i, {}) for i in range(n)] + [("a0", {A: 0}), ("b0", {B: 0}), ("x0", {X: 0}), ("a0b0", {A: 0, B: 0}), ("x1", {X: 1}), ("xneg", {X: P - 1})]
    cases += [("case%d" % i, fx) for i, (t, fx) in enumerate(specials(c, base))]
    for nm, fx in cases:
        if fx is None:
            ctx.ob("%s.%s" % (key, nm), None, "a case on public values not analysed", f["sp"])
            continue
        v = Vals(rnd, fx)
        x, a, b = v(X), v(A), v(B)
        q = sqrt((x * x * x + a * x + b) % P)
        exp = set() if q is None else {(q,), (-q % P,)}
        s = System(c, v, lambda t: t is Y, rnd)
        ok, why = verdict(s, [Y], exp, "ordinates for a given abscissa")
        ctx.ob("%s.%s" % (key, nm), ok, why, f["sp"])
    ctx.unit("circuits", key)


def fields(prog, nm):
    p = paths(prog)[nm]
    return p, [x[0] for x in prog.adts[p]["v"][0][1]]


def sums(ctx, key, f, c, ins, outs, unknown, checked):
    xl, yl, xr, yr = ins
    rnd = random.Random(5)
    n = 6 if ctx.tier == "thorough" else 2
    cases = [("distinct%d" % i, {}) for i in range(n)]
    z = rnd.randrange(P)
    w = rnd.randrange(P)
    cases += [("sameordinate", {yl: z, yr: z}), ("opposite", {xl: z, xr: z, yl: w, yr: P - w}), ("sameabscissa", {xl: z, xr: z}),
              ("zero_x", {xl: 0}), ("zero_y", {yl: 0}), ("zero_xr", {xr: 0}), ("zero_yr", {yr: 0}), ("negx", {xl: z, xr: P - z})]
    if checked:
        cases.append(("same", {xl: z, xr: z, yl: w, yr: w}))
    cases += [("case%d" % i, fx) for i, (t, fx) in enumerate(specials(c, Vals(rnd)))]
    for nm, fx in cases:
        if fx is None:
            ctx.ob("%s.%s" % (key, nm), None, "a case on public values not analysed", f["sp"])
            continue
        v = Vals(rnd, fx)
        l, r = (v(xl), v(yl)), (v(xr), v(yr))
        exp = set() if l[0] == r[0] else {chord(l, r)}
        s = System(c, v, unknown, rnd)
        ok, why = verdict(s, outs, exp, "the sum of two points" if exp else "two points with one abscissa")
        ctx.ob("%s.%s" % (key, nm), ok, why, f["sp"])
    ctx.unit("circuits", key)


def addition(ctx, prog, key, name, checked):
    f = find(prog, name)
    ro = roles(prog, f)
    p, fs = fields(prog, "CurveAddition")
    syms_ = {n: (NONE_ if n == "delta" else pub(n)) for n in fs}
    for n in ("x_o", "y_o"):
        syms_[n] = sym(n)
    over = {ro["CurveAddition"][0]: adt(p, "CurveAddition", tuple((n, syms_[n]) for n in fs))}
    for i in ro.get("Option", []):
        over[i] = NONE_
    r = gadget(prog, name, over=over)
    units(ctx, r, key)
    normal(ctx, key, r, f["sp"])
    outs = [syms_["x_o"], syms_["y_o"]]
    sums(ctx, key, f, Circ(r), [syms_[n] for n in ("x_l", "y_l", "x_r", "y_r")], outs, lambda t: t in outs, checked)


def helper(ctx, prog, key, name, checked):
    f = find(prog, name)
    p, fs = fields(prog, "PointRepresentation")
    ro = roles(prog, f)["PointRepresentation"]
    over, ins = {}, []
    for i, s in zip(ro, "lr"):
        d = {"x": pub("x_" + s), "y": pub("y_" + s), "witness": NONE_}
        over[i] = adt(p, "PointRepresentation", tuple((n, d[n]) for n in fs))
        ins += [d["x"], d["y"]]
    r = gadget(prog, name, over=over)
    units(ctx, r, key)
    normal(ctx, key, r, f["sp"])
    sums(ctx, key, f, Circ(r), ins, [field(r.pval, "x"), field(r.pval, "y")], lambda t: False, checked)
