"""The range-proof gadget is analysed on a recording constraint system, for each bit length, into the multiplication gates and linear
constraints it issues. The circuit is then solved as an algebraic system with the value left unknown: every linear constraint is
eliminated, every remaining gate has to restrict a single unknown to the roots of a quadratic, and the value has to be an affine
combination of those unknowns. The set of sums such a combination takes is compared with the interval 0 to 2^n - 1: the weights,
sorted, must form a complete sequence with total 2^n - 1."""
import random
from circuit import *

RULE = "the values v for which the constraints are satisfiable are exactly 0 .. 2^n - 1"
FLOOR = 20
ASSUMPTIONS = ["linear combinations behave as linear polynomials (C13)", "the proof system enforces every gate and constraint (C03, C12)"]
NONE_ = adt("core::option::Option", "None", ())


def run(ctx):
    from rules import Anchor
    for cfg, prog in ctx.configs():
        numeric.set_variants(prog)
        sizes = list(range(0, 65)) if ctx.tier == "thorough" else [0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 48, 63, 64]
        for n in sizes:
            with ctx.guard("%s.bits%d" % (cfg, n)):
                one(ctx, prog, "%s.bits%d" % (cfg, n), n)


def params(f):
    return [p["pat"]["name"] if "pat" in p and p["pat"]["k"] == "bind" else "" for p in f["params"]]


def one(ctx, prog, key, n):
    v = sym("V")
    f = [g for g in prog.byname["range_proof"] if not prog.is_test(g) and g["kind"] != "Closure"][0]
    over = {}
    for i, p in enumerate(f["params"]):
        t = prog.types[f["crate"]][p["t"]]
        if t["k"] == "adt" and t["p"].endswith("LinearCombination"):
            over[i] = v
        elif t["k"] == "adt" and t["p"].endswith("Option"):
            over[i] = NONE_
        elif t["s"] == "usize":
            over[i] = num(n)
    r = gadget(prog, "range_proof", over=over)
    for p in r.I.analysed:
        ctx.unit("functions", p)
    where = f["sp"]
    if r.pval is not BOT:
        ctx.ob(key + ".ok", True if r.ok() is TRUE else (None if r.I.unknown else False), "the gadget succeeds: %s" % show(r.ok())[:80], where)
    rnd = random.Random(n)
    c = Circ(r)
    val = {}

    def value(a):
        return val.setdefault(a, rnd.randrange(P)) if a.op == "sym" else None
    s = System(c, value, lambda a: a is v, rnd)
    ctx.unit("circuits", "%s: %d gates, %d constraints" % (key, len(s.gates), len(s.cons)))
    ok, why = interval(s, v, n)
    if ok is None:
        for t in (2 ** n, P - 1, rnd.randrange(2 ** n, P)):
            if reaches(s, v, t):
                ok, why = False, "the constraints are satisfiable for the value %s, outside 0 .. 2^%d - 1" % (t if t < P // 2 else t - P, n)
                break
    ctx.ob(key + ".range", ok, why, where)


def interval(sy, v, n):
    s = Solver(sy.gates, sy.cons, sy.rnd)
    for f in s.cons:
        if not s.linear(f):
            return False, "the constraints contradict each other"
    gates = list(s.gates)
    while True:
        rest, moved = [], False
        for l, r, o in gates:
            l, r, o = s.red(l), s.red(r), s.red(o)
            if not (set(l) - {None}) or not (set(r) - {None}):
                c, x = (l.get(None, 0), r) if not (set(l) - {None}) else (r.get(None, 0), l)
                f = dict(o)
                for k, z in x.items():
                    f[k] = (f.get(k, 0) - c * z) % P
                if not s.linear({k: z for k, z in f.items() if z}):
                    return False, "the constraints contradict each other"
                moved = True
            else:
                rest.append((l, r, o))
        gates = rest
        if not moved:
            break
    dom = {}
    for l, r, o in gates:
        ks = {k for f in (l, r, o) for k in f if k is not None}
        if len(ks) != 1:
            if not (len(ks) > 1):
                return None, "an unexpected gate"
            free = [k for k in ks if not any(k in g for G in gates if G != (l, r, o) for g in G)]
            return (None, "a gate relates %d unknowns" % len(ks))
        k = next(iter(ks))
        a = l[k] * r[k] % P
        b = (l[k] * r.get(None, 0) + r[k] * l.get(None, 0) - o.get(k, 0)) % P
        c = (l.get(None, 0) * r.get(None, 0) - o.get(None, 0)) % P
        q = sqrt((b * b - 4 * a * c) % P)
        if q is None:
            return False, "a gate has no solution"
        roots = {(-b + q) * inv(2 * a) % P, (-b - q) * inv(2 * a) % P}
        dom[k] = dom[k] & roots if k in dom else roots
    form = s.red({v: 1})
    base = form.get(None, 0)
    ws = []
    for k, w in form.items():
        if k is None:
            continue
        if k not in dom:
            return False, "the value is not confined: one of its %d unknowns is unrestricted" % (len(form))
        d = sorted(dom[k])
        if not d:
            return False, "a gate has no solution"
        base = (base + w * d[0]) % P
        if len(d) == 2:
            ws.append(w * (d[1] - d[0]) % P)
    # orient every weight to be small and positive
    out = []
    for w in ws:
        if w > P // 2:
            base = (base + w) % P
            w = P - w
        out.append(w)
    out.sort()
    tot = 0
    for w in out:
        if w > tot + 1:
            return False, "not every value of the interval is reached: weights %s" % out[:6]
        tot += w
    if base != 0 or tot != 2 ** n - 1:
        return False, "the constraints allow %d .. %d, stated 0 .. %d" % (base if base < P // 2 else base - P, tot + (base if base < P // 2 else base - P), 2 ** n - 1)
    return True, "the constraints allow exactly 0 .. 2^%d - 1: %d two-valued unknowns" % (n, len(out))
