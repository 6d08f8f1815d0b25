"""The select gadget is analysed on a recording constraint system, for each number of candidates, into the gates and constraints it
issues. The circuit is then solved as an algebraic system with the selected value left unknown and the candidates at generic values:
constraints are eliminated, and a gate whose output is zero splits into the cases of its two inputs. The values the system allows
have to be exactly the candidates. Cases in which the gadget branches on public values are solved separately."""
import random
import models as MM
from circuit import *

RULE = "the values x for which the constraints are satisfiable are exactly the candidates x_0 .. x_{n-1}"
FLOOR = 20
ASSUMPTIONS = ["linear combinations behave as linear polynomials (C13)", "the proof system enforces every gate and constraint (C03, C12)",
               "polynomial identities are decided at random points of a 127-bit field"]


def run(ctx):
    for cfg, prog in ctx.configs():
        numeric.set_variants(prog)
        sizes = list(range(1, 41)) + [48, 63, 64, 65, 100, 128, 256] if ctx.tier == "thorough" else [1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 31, 32, 33, 64, 256]
        for n in sizes:
            with ctx.guard("%s.children%d" % (cfg, n)):
                one(ctx, prog, "%s.children%d" % (cfg, n), n)
        with ctx.guard("%s.children0" % cfg):
            f = find(prog, "select")
            r = go(prog, f, 0)
            ctx.ob("%s.children0.refused" % cfg, True if r.st.dead or r.st.pc is FALSE else (None if r.I.unknown else False),
                   "an empty list of candidates is refused", f["sp"])


def go(prog, f, n):
    ro = roles(prog, f)
    over = {ro["LinearCombination"][0]: sym("X")}
    xs = [i for i in range(len(f["params"])) if i not in ro["cs"] and i not in over]
    seq = lst([pub("child", i) for i in range(n)])
    k = next(k for k, v in ro.items() if xs[0] in v)
    over[xs[0]] = seq if k in ("Vec",) or k.startswith("[") else MM.toit(None, seq, None, None, None)
    return gadget(prog, "select", over=over)


def one(ctx, prog, key, n):
    f = find(prog, "select")
    r = go(prog, f, n)
    units(ctx, r, key)
    normal(ctx, key, r, f["sp"])
    c = Circ(r)
    rnd = random.Random(n)
    v = Vals(rnd)
    case(ctx, key + ".member", c, v, n, rnd, f)
    for i, (txt, fixed) in enumerate(specials(c, v)):
        if fixed is None:
            ctx.ob("%s.case%d" % (key, i), None, "a case on public values not analysed: " + txt, f["sp"])
        else:
            case(ctx, "%s.case%d" % (key, i), c, Vals(rnd, dict(v.memo, **{}) | fixed), n, rnd, f)


def case(ctx, key, c, v, n, rnd, f):
    s = System(c, v, lambda a: a is X, rnd)
    ctx.unit("circuits", "%s: %d gates, %d constraints" % (key, len(s.gates), len(s.cons)))
    exp = {(v(pub("child", i)),) for i in range(n)}
    ok, why = verdict(s, [X], exp, "the selected value, %d candidates" % n)
    ctx.ob(key, ok, why, f["sp"])


X = sym("X")
