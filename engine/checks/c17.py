"""The table lookup is analysed on a recording constraint system into the gates and constraints it issues, for tables of one, two and
three columns. The circuit is solved as an algebraic system with nothing fixed but the table (at generic values): the tuples of column
values the constraints allow have to be exactly the eight rows of the table, all columns taken from the same row. Cases in which the
gadget branches on table values are solved separately."""
import random
from circuit import *

RULE = "the tuples (value of column 0, value of column 1, ..) for which the constraints are satisfiable are exactly the rows of the table"
FLOOR = 6
ASSUMPTIONS = ["linear combinations behave as linear polynomials (C13)", "the proof system enforces every gate and constraint (C03, C12)",
               "polynomial identities are decided at random points of a 127-bit field"]


def run(ctx):
    for cfg, prog in ctx.configs():
        numeric.set_variants(prog)
        for n in (1, 2, 3, 5) if ctx.tier == "thorough" else (1, 2, 3):
            with ctx.guard("%s.columns%d" % (cfg, n)):
                one(ctx, prog, "%s.columns%d" % (cfg, n), n)
        with ctx.guard("%s.is_bit" % cfg):
            bits(ctx, prog, cfg + ".is_bit")


def table(prog, cell, cols, rows=8):
    p = paths(prog)["Lookup3Bit"]
    fs = prog.adts[p]["v"][0]
    return adt(p, fs[0], ((fs[1][0][0], lst([lst([cell(c, j) for j in range(rows)]) for c in range(cols)])),))


def one(ctx, prog, key, n):
    f = find(prog, "lookup")
    ro = roles(prog, f)
    cell = lambda c, j: pub("T", c, j)
    over = {ro["Option"][0]: NONE_, ro["Lookup3Bit"][0]: table(prog, cell, n)}
    r = gadget(prog, f["name"], over=over, consts={"N": num(n)}, path=f["p"])
    units(ctx, r, key)
    normal(ctx, key, r, f["sp"])
    out = restrict(vfield(r.pval, "Ok", "0"), r.ok())
    c = Circ(r)
    rnd = random.Random(n)
    v = Vals(rnd)
    outs = [at(out, num(i)) for i in range(n)]
    rows = lambda v: {tuple(v(cell(c_, j)) for c_ in range(n)) for j in range(8)}
    s = System(c, v, lambda a: False, rnd)
    ctx.unit("circuits", "%s: %d gates, %d constraints" % (key, len(s.gates), len(s.cons)))
    ok, why = verdict(s, outs, rows(v), "the looked-up row, %d columns" % n)
    ctx.ob(key + ".row", ok, why, f["sp"])
    for i, (txt, fixed) in enumerate(specials(c, v)):
        k = "%s.case%d" % (key, i)
        if fixed is None:
            ctx.ob(k, None, "a case on public values not analysed: " + txt, f["sp"])
            continue
        w = Vals(rnd, v.memo | fixed)
        ok, why = verdict(System(c, w, lambda a: False, rnd), outs, rows(w), "the looked-up row when " + txt)
        ctx.ob(k, ok, why, f["sp"])


def bits(ctx, prog, key):
    f = find(prog, "is_bit")
    r = gadget(prog, "is_bit", over={roles(prog, f)["LinearCombination"][0]: sym("B")})
    units(ctx, r, key)
    c = Circ(r)
    rnd = random.Random(7)
    s = System(c, Vals(rnd), lambda a: a is sym("B"), rnd)
    ok, why = verdict(s, [sym("B")], {(0,), (1,)}, "a bit")
    ctx.ob(key + ".bit", ok, why, f["sp"])
