"""Every gadget is analysed on a recording constraint system as the prover runs it. The assignments it gives to its wires are evaluated
for concrete witnesses (over a 127-bit field and a random curve) and every constraint issued is evaluated on them: all have to vanish. For
the rerandomization the public output is the input plus the table entries selected by the digits of the scalar, in window order, so a
wrong digit, table or slope shows; the conditions for a normal return have to hold as well (the prover does not panic)."""
import random
from circuit import *
from checks.c17 import table
from checks.c19 import E_sum, WIDTH
from checks import c20
from checks.c14 import addition, bits_of, rep

RULE = "for every honest witness: the gadget returns, and every gate and constraint holds for the assignments it makes"
FLOOR = 30
ASSUMPTIONS = ["identities hold for all witnesses if they hold at the random and special witnesses evaluated (points of general position on a random curve)",
               "sizes are those of the list of cases"]


def run(ctx):
    for cfg, prog in ctx.configs():
        numeric.set_variants(prog)
        for fn in (ranges, lookups, additions, rerandomize, levels):
            with ctx.guard("%s.%s" % (cfg, fn.__name__)):
                fn(ctx, prog, cfg)


def check(ctx, key, r, v, where, out=None):
    units(ctx, r, key)
    c = Circ(r)
    ctx.unit("circuits", "%s: %d events" % (key, len(c.order)))
    pc = r.ok() if r.pval.op in ("adt", "ite") and any(l.op == "adt" and l.args[0].endswith("Result") for l in leaves(r.pval)) else r.st.pc
    ok, why = satisfied(c, v, where)
    ctx.ob(key + ".satisfied", ok, why, where)
    try:
        ret = v.F.cond(pc)
    except Gap as x:
        ctx.ob(key + ".returns", None, str(x), where)
        return None
    ctx.ob(key + ".returns", ret, "the prover's run %s" % ("completes" if ret else "panics or fails when " + show(b_not(pc))[:120]), where)
    return c


def ranges(ctx, prog, cfg):
    f = find(prog, "range_proof")
    R = roles(prog, f)
    rnd = random.Random(3)
    for n in range(0, 65) if ctx.tier == "thorough" else (0, 1, 2, 7, 32, 64):
        for q in sorted({0, 2 ** n - 1, 2 ** max(n - 1, 0) % 2 ** n, rnd.randrange(2 ** n)}):
            r = gadget(prog, f["name"], over={R["LinearCombination"][0]: pub("v"), R["usize"][0]: num(n), R["Option"][0]: some(num(q))}, path=f["p"])
            check(ctx, "%s.range%d_%x" % (cfg, n, q), r, Vals(rnd, {pub("v"): q}), f["sp"])


def lookups(ctx, prog, cfg):
    f = find(prog, "lookup")
    R = roles(prog, f)
    rnd = random.Random(4)
    for n in (1, 2, 3):
        for i in range(8):
            r = gadget(prog, f["name"], over={R["Lookup3Bit"][0]: table(prog, lambda c, j: pub("T", c, j), n), R["Option"][0]: some(num(i))}, path=f["p"], consts={"N": num(n)})
            v = Vals(rnd)
            key = "%s.lookup%d_%d" % (cfg, n, i)
            c = check(ctx, key, r, v, f["sp"])
            if c is None:
                continue
            res = restrict(vfield(r.pval, "Ok", "0"), r.ok())
            got = [v.F.of(at(res, num(k))).get(None, 0) for k in range(n)]
            ctx.ob(key + ".value", got == [v(pub("T", k, i)) for k in range(n)], "row %d is looked up for index %d" % (i, i), f["sp"])


def additions(ctx, prog, cfg):
    rnd = random.Random(5)
    E = Curve(rnd)
    l, r_ = E.point(), E.point()
    for nm in ("incomplete_curve_addition_helper", "checked_curve_addition_helper"):
        f = find(prog, nm)
        a, b = roles(prog, f)["PointRepresentation"]
        L, Q = sym("WL"), sym("WR")
        r = gadget(prog, nm, over={a: rep(prog, pub("xl"), pub("yl"), some(L)), b: rep(prog, pub("xr"), pub("yr"), some(Q))}, path=f["p"])
        v = Points(rnd, E, {pub("xl"): l[0], pub("yl"): l[1], pub("xr"): r_[0], pub("yr"): r_[1]}, {L: l, Q: r_})
        key = "%s.%s" % (cfg, nm)
        if check(ctx, key, r, v, f["sp"]) is None:
            continue
        out = restrict(r.pval, r.st.pc)
        w = restrict(field(out, "witness"), r.st.pc)
        want = E.add(l, r_)
        got = tuple(v.value(field(out, k)) for k in "xy")
        ok = got == want and w.op == "adt" and w.args[1] == "Some" and v.point(vfield(w, "Some", "0")) == want
        ctx.ob(key + ".value", ok, "the returned coordinates and witness are the sum of the two points", f["sp"])


def digits(bits, m):
    return [sum(1 << k for k in range(3) if 3 * i + k < len(bits) and bits[3 * i + k]) for i in range(m)]


def scalar_bits(rnd, lam, n):
    out = [[rnd.random() < .5 for k in range(lam)] for i in range(n)]
    out += [[True] * lam, [k == lam - 1 for k in range(lam)], [k == 0 for k in range(lam)], [k % 3 == 1 for k in range(lam)]]
    return out


def pad(bits):
    return [TRUE if b else FALSE for b in bits] + [FALSE] * (-len(bits) % 64)


def rerandomize(ctx, prog, cfg):
    f = find(prog, "re_randomize")
    R = roles(prog, f)
    t = [i for i in range(len(f["params"])) if i not in R["cs"] + R["PointRepresentation"] + R["LinearCombination"] + R["Option"]][0]
    rnd = random.Random(6)
    for lam in (6, 7, 8, 64, 255) if ctx.tier != "thorough" else (6, 7, 8, 9, 10, 11, 64, 128, 254, 255, 256, 381):
        m = lam // 3 + 1
        for n, bits in enumerate(scalar_bits(rnd, lam, 2 if lam < 100 else 1)):
            if lam > 100 and n > (4 if ctx.tier == "thorough" else 1):
                break
            C = sym("WC")
            over = {t: lst([table(prog, (lambda i: lambda c, j: pub("T", i, c, j))(i), 2) for i in range(m)]), R["LinearCombination"][0]: pub("xt"), R["LinearCombination"][1]: pub("yt"),
                    R["PointRepresentation"][0]: rep(prog, pub("cx"), pub("cy"), some(C)), R["Option"][0]: some(sym("Wr"))}
            r = gadget(prog, f["name"], over=over, path=f["p"], models=dict(WIDTH(lam), **{"BigInteger::to_bits_le": bits_of(pad(bits))}))
            E = Curve(rnd)
            T = [[E.point() for j in range(8)] for i in range(m)]
            c = E.point()
            o = E.add(c, E_sum(E, [T[i][d] for i, d in enumerate(digits(bits, m))]))
            fx = {pub("cx"): c[0], pub("cy"): c[1], pub("xt"): o[0], pub("yt"): o[1]}
            for i in range(m):
                for j in range(8):
                    fx[pub("T", i, 0, j)], fx[pub("T", i, 1, j)] = T[i][j]
            check(ctx, "%s.re_randomize%d_%d" % (cfg, lam, n), r, Points(rnd, E, fx, {C: c}), f["sp"])


def levels(ctx, prog, cfg):
    rnd = random.Random(7)
    for nm, M, n in ((c20.SINGLE, 1, 1), (c20.SINGLE, 1, 3), (c20.BATCHED, 1, 2), (c20.BATCHED, 2, 2), (c20.BATCHED, 3, 1)):
        for sel in range(n):
            lam = 8
            bits = [rnd.random() < .5 for k in range(lam)]
            ws = [sym("WC%d" % i) for i in range(M)]
            f, r, kids, m = c20.extract(prog, nm, M, n, lam, child=some(ws[0] if nm == c20.SINGLE else lst(ws)), rand=some(sym("Wr")), models={"BigInteger::to_bits_le": bits_of(pad(bits))})
            E = Curve(rnd)
            T = [[E.point() for j in range(8)] for i in range(m)]
            P_ = [E.point() for k in kids]
            D = E.point()
            chosen = [P_[g * n + (sel + g) % n] for g in range(M)]
            o = E.add(E_sum(E, chosen), E_sum(E, [T[i][d] for i, d in enumerate(digits(bits, m))]))
            rc = E.add(o, E.mul(-M, D))
            fx = {pub("a"): E.a, pub("b"): E.b}
            fx.update({k: p[0] for k, p in zip(kids, P_)})
            for i in range(m):
                for j in range(8):
                    fx[pub("T", i, 0, j)], fx[pub("T", i, 1, j)] = T[i][j]
            pts = dict(zip(ws, chosen))
            pts.update({c20.D: D, c20.RC: rc})
            check(ctx, "%s.%s%d_%d_%d" % (cfg, "batched" if nm == c20.BATCHED else "single", M, n, sel), r, Points(rnd, E, fx, pts), f["sp"])
