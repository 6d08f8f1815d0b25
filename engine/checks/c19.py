"""The rerandomization gadget is analysed on a recording constraint system for concrete widths of the scalar field, with the window tables
filled with independent points of a curve. The circuit is solved as an algebraic system with the output coordinates left unknown: the
points allowed have to be exactly the input plus one entry of every table. For few windows all combinations are enumerated; for widths of
real fields each window (and runs of adjacent windows) is varied with the others held constant. For each addition the case of equal
inputs is solved too: where the circuit admits it, the scalars of the tables built (extracted from build_tables) must rule it out."""
import itertools
import random
from circuit import *
from checks.c17 import table

RULE = ("outputs allowed = {C + T_1[d_1] + .. + T_m[d_m]}; T_i[j] = (j * 8^(i-1) + o_i) * H with the offsets o_i adding up to zero; additions not protected against "
        "equal inputs never meet them: no digits make the accumulated scalar congruent to an entry's scalar modulo a group order of that width")
FLOOR = 30
ASSUMPTIONS = ["linear combinations behave as linear polynomials (C13)", "the proof system enforces every gate and constraint (C03, C12)",
               "polynomial identities are decided at random points of a 127-bit field; entries of different tables are in general position"]


def run(ctx):
    for cfg, prog in ctx.configs():
        numeric.set_variants(prog)
        for lam in (6, 8):
            with ctx.guard("%s.width%d" % (cfg, lam)):
                small(ctx, prog, "%s.width%d" % (cfg, lam), lam)
        for lam in (254, 255, 256, 381) if ctx.tier == "thorough" else (255, 256):
            with ctx.guard("%s.width%d" % (cfg, lam)):
                large(ctx, prog, "%s.width%d" % (cfg, lam), lam)


WIDTH = lambda lam: {"PrimeField::MODULUS_BIT_SIZE": lambda *a: num(lam)}


def built(prog, lam):
    """the scalars of the tables build_tables makes: [[s_i0, .., s_i7], ..], or None where an entry is something else"""
    f = find(prog, "build_tables")
    h = sym("h")
    r = Run(prog, f, models=WIDTH(lam), over={0: h}, lcnum=True, setup=lambda run, st: setattr(run.I, "PEEL", 600), budget=4000000)
    v = r.pval
    if v.op != "lst":
        raise Gap("build_tables returns " + show(v)[:120])
    el = fields(prog, "Lookup3Bit")
    out = []
    for t in v.args[0]:
        e = field(t, el)
        row = []
        for j in range(8):
            x, y = (at(at(e, num(c)), num(j)) for c in (0, 1))
            s = None
            sign = 1
            if y.op == "poly" and len(y.args[0]) == 1 and y.args[0][0][1] == -1 and len(y.args[0][0][0]) == 1:
                y, sign = y.args[0][0][0][0][0], -1
            if x.op == "app" and x.args[0] == "xcoord" and y.op == "app" and y.args[0] == "ycoord":
                s, q = div(x.args[1], h), div(y.args[1], h)
                if s is not None and q is not None:
                    s = sign * q if abs(s) == abs(q) else "mixed"
            row.append(s)
        out.append(row)
    return f, out, r


def div(t, h):
    """k with t = k * h, an integer"""
    t = pcast(t)
    if t is None or len(t) > 1:
        return None
    if not t:
        return 0
    (m, c), = t
    return int(c) if m == ((h, 1),) and getattr(c, "denominator", 1) == 1 else None


def pcast(t):
    if t.op == "poly":
        return t.args[0]
    return (((t, 1),), 1),


def fields(prog, nm):
    return prog.adts[paths(prog)[nm]]["v"][0][1][0][0]


class Circuit:
    def __init__(self, prog, lam, m, models=None):
        self.f = f = find(prog, "re_randomize")
        ro = roles(prog, f)
        pr = paths(prog)["PointRepresentation"]
        fs = [x[0] for x in prog.adts[pr]["v"][0][1]]
        self.m = m
        self.C = (pub("Cx"), pub("Cy"))
        self.R = (sym("RX"), sym("RY"))
        tabs = lst([table(prog, (lambda i: lambda c, j: self.cell(i, c, j))(i), 2) for i in range(m)])
        k = [i for i, p in enumerate(f["params"]) if i not in ro["cs"] + ro["PointRepresentation"] + ro["LinearCombination"] + ro["Option"]]
        over = {k[0]: tabs, ro["PointRepresentation"][0]: adt(pr, pr.split("::")[-1], tuple(zip(fs, (self.C[0], self.C[1], NONE_)))),
                ro["LinearCombination"][0]: self.R[0], ro["LinearCombination"][1]: self.R[1], ro["Option"][0]: NONE_}
        self.r = gadget(prog, f["name"], over=over, models=WIDTH(lam), path=f["p"])
        self.c = Circ(self.r)

    def cell(self, i, c, j):
        return pub("T", i, c, j)

    def fill(self, rnd, T, C):
        fx = {self.C[0]: C[0], self.C[1]: C[1]}
        for i in range(self.m):
            for j in range(8):
                fx[self.cell(i, 0, j)], fx[self.cell(i, 1, j)] = T[i][j]
        return Vals(rnd, fx)

    def system(self, rnd, T, C):
        return System(self.c, self.fill(rnd, T, C), lambda a: a in self.R, rnd)


def total(E, C, T, d):
    for t, j in zip(T, d):
        C = E.add(C, t[j])
    return C


def circuit(ctx, prog, key, lam):
    f, S, r = built(prog, lam)
    for p in r.I.analysed:
        ctx.unit("functions", p)
    c = Circuit(prog, lam, len(S))
    units(ctx, c.r, key)
    ctx.unit("circuits", "%s: %d events" % (key, len(c.c.order)))
    normal(ctx, key, c.r, c.f["sp"])
    return f, S, c


def small(ctx, prog, key, lam):
    f, S, c = circuit(ctx, prog, key, lam)
    m = c.m
    if m > 3:
        return
    rnd = random.Random(lam)
    for n in range(2 if m < 3 else 1):
        E = Curve(rnd)
        T = [[E.point() for j in range(8)] for i in range(m)]
        C = E.point()
        exp = {total(E, C, T, d) for d in itertools.product(range(8), repeat=m)}
        ok, why = verdict(c.system(rnd, T, C), c.R, exp, "the output point, %d windows" % m)
        ctx.ob("%s.outputs%d" % (key, n), ok, why, c.f["sp"])
    if m >= 2:
        scalars(ctx, key, f, S)


def scalars(ctx, key, f, S):
    m = len(S)
    bad = [(i, j) for i, row in enumerate(S) for j, s in enumerate(row) if s is None]
    if bad:
        ctx.ob(key + ".entries", None, "entry %d of table %d is not a known multiple of the blinding base" % (bad[0][1], bad[0][0] + 1), f["sp"])
        return False
    bad = [(i, j) for i, row in enumerate(S) for j, s in enumerate(row) if s == "mixed"]
    if bad:
        ctx.ob(key + ".entries", False, "the coordinates of entry %d of table %d belong to different points" % (bad[0][1], bad[0][0] + 1), f["sp"])
        return False
    bad = [(i, j) for i, row in enumerate(S) for j, s in enumerate(row) if s - row[0] != j * 8 ** i]
    ctx.ob(key + ".entries", not bad, "entries of one table differ by multiples of the window's weight: %d tables" % m if not bad
           else "entry %d of table %d stands for %d, expected %d more than entry 0" % (bad[0][1], bad[0][0] + 1, S[bad[0][0]][bad[0][1]], bad[0][1] * 8 ** bad[0][0]), f["sp"])
    o = sum(r[0] for r in S)
    ctx.ob(key + ".offsets", o == 0, "the offsets of the tables cancel" if o == 0 else "the offsets of the tables add up to %d" % o, f["sp"])
    return True


def large(ctx, prog, key, lam):
    f, S, c = circuit(ctx, prog, key, lam)
    m = c.m
    ok = scalars(ctx, key, f, S)
    ctx.ob(key + ".cover", 3 * m >= lam, "%d windows of 3 bits for scalars of %d bits" % (m, lam), f["sp"])
    rnd = random.Random(lam)
    E = Curve(rnd)
    C = E.point()
    base = [E.point() for i in range(m)]
    some = sorted({0, 1, 2, m // 2, m - 4, m - 3, m - 2, m - 1})
    full = ctx.tier == "thorough" or lam % 3 == 0       # in the quick tier every window for one width, some for the others
    runs = [(i,) for i in (range(m) if full else some)] + [(i, i + 1) for i in ((0, m - 2) if ctx.tier != "thorough" else range(m - 1))]
    for w in runs:
        T = [[E.point() for j in range(8)] if i in w else [base[i]] * 8 for i in range(m)]
        exp = {total(E, C, T, d) for d in itertools.product(*[range(8) if i in w else (0,) for i in range(m)])}
        ok1, why = outputs(c.system(rnd, T, C), c.R, exp, "the output point, windows %s varied" % ",".join(str(i + 1) for i in w))
        ctx.ob("%s.window%s" % (key, "_".join(str(i + 1) for i in w)), ok1, why, c.f["sp"])
    # additions whose inputs can be equal or opposite
    def accepts(i, q):
        T = [[base[k]] * 8 if k != i else [q] * 8 for k in range(m)]
        res, fr, full_ = c.system(rnd, T, C if i < m else q).solve(c.R, limit=1, guess=12, relevant=True)
        return True if res else False if full_ else None
    meet = {m: None}
    for i in range(1, m) if ok else ():
        lo, hi = sum(min(r) for r in S[:i]), sum(max(r) for r in S[:i])
        for j, s in enumerate(S[i]):
            a, b = s - hi, s - lo
            # a multiple of a group order q, 2^(lam-1) < q < 2^lam, between a and b
            if a <= 0 <= b or b > 2 ** (lam - 1) or a < -2 ** (lam - 1):
                meet.setdefault(i, j)
    for i in sorted(meet):
        eq_ = accepts(i, E_sum(E, base[:i]))
        ctx.ob("%s.equal%d" % (key, i + 1), None if eq_ is None else not eq_, "addition %d refuses equal points" % (i + 1) if not eq_ else
               "addition %d accepts equal points, leaving its output free, and %s" % (i + 1, "the prover chooses one of them" if i == m else
               "digits exist for which the accumulated scalar is congruent to that of entry %d of table %d" % (meet[i], i + 1)), c.f["sp"])
    for i in some[1:] + [m]:
        op = accepts(i, E.neg(E_sum(E, base[:i])))
        ctx.ob("%s.opposite%d" % (key, i + 1), None if op is None else not op, "addition %d %s opposite points" % (i + 1, "accepts" if op else "refuses"), c.f["sp"])
    ctx.ob(key + ".collision", True if ok else None, "accumulated scalar and table entry are never congruent in the other %d additions" % (m - 1 - len(meet) + 1), f["sp"])


def E_sum(E, ps):
    r = None
    for p in ps:
        r = E.add(r, p)
    return r


def outputs(s, outs, exp, what):
    return verdict(s, outs, exp, what, relevant=True)
