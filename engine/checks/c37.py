"""The commitments a prover publishes outside of the proofs - the rerandomized nodes of a path, the rerandomized leaves, minted coins - are
taken apart: each is a polynomial over generators, and the coefficient of its curve's blinding base must contain scalars drawn at random.
The matrix of the coefficients of all the random scalars in all commitments published together must have full row rank, so that the blinding
scalars of the commitments are jointly uniform, no random scalar may occur in a published value anywhere else, and every draw must come from
the caller's generator or the operating system's. The key of a minted coin must be randomized by a scalar of its own."""
from fractions import Fraction
from coins import *
from checks.c23 import Honest

RULE = "rank(coefficients of the random scalars in the blinding parts of the published commitments) = number of commitments; sources unpredictable; no reuse"
FLOOR = 30
ASSUMPTIONS = ["rand() is uniform", "trees and paths of the sizes listed"]


def cases(tier):
    th = tier == "thorough"
    out = [("path.L%d_M%d_h%d" % (L, M, h), L, M, h, idx, b) for L, M, h, idx, b in
           ((2, 1, 1, (1,), False), (2, 1, 2, (1,), False), (2, 1, 3, (6,), False), (2, 1, 4, (9,), False), (2, 1, 6, (37,), False), (2, 1, 7, (37,), False),
            (2, 1, 2, (3,), True), (2, 2, 1, (0, 1), True), (2, 2, 2, (0, 3), True), (2, 3, 3, (0, 3, 6), True), (3, 2, 4, (7, 80), True), (2, 2, 6, (5, 60), True))]
    if th:
        out += [("path.L2_M1_h%d" % h, 2, 1, h, (0,), False) for h in (5, 8, 9)] + [("path.L2_M%d_h%d" % (M, h), 2, M, h, tuple(range(M)), True) for M in (4, 5) for h in (3, 5)]
    return out


def run(ctx):
    for cfg, prog in ctx.configs():
        numeric.set_variants(prog)
        for key, L, M, h, idx, b in cases(ctx.tier):
            key = "%s.%s%s" % (cfg, key, "b" if b else "")
            with ctx.guard(key):
                H = Honest(prog, L, M, h, idx, batched=b)
                if H.pc is not TRUE:
                    raise Gap("completes when " + show(H.pc)[:100])
                pub = []
                for n, v in H.path.args[2]:
                    for x in (v.args[0] if v.op == "lst" else [v]):
                        pub.append((n, (H.sides[1] if n.startswith("odd") else H.sides[0]), x))
                hidden(ctx, key, H.r, pub, H.f["sp"], prog)
        for L, h, idx in ((2, 1, (0, 1)), (2, 2, (0, 3)), (2, 3, (1, 6)), (2, 4, (3, 12))) + (((2, 5, (0, 31)),) if ctx.tier == "thorough" else ()):
            key = "%s.payment.L%d_h%d" % (cfg, L, h)
            with ctx.guard(key):
                P = Payment(prog, L, h, idx)
                pub = []
                for i in (0, 1):
                    pub.append(("minted_coin_commitment_%d" % i, P.sides[0], field(P.pour, "minted_coin_commitment_%d" % i)))
                    for n, v in field(P.pour, "randomized_path_%d" % i).args[2]:
                        for x in (v.args[0] if v.op == "lst" else [v]):
                            pub.append(("%s of path %d" % (n, i), (P.sides[1] if n.startswith("odd") else P.sides[0]), x))
                hidden(ctx, key, P.r, pub, P.f["sp"], prog)
        with ctx.guard(cfg + ".mint"):
            mint(ctx, prog, cfg + ".mint")


def rngs(t):
    return {x for x in subterms(t) if x.op == "rng"}


def coefficient(p, b):
    """coefficient of b in p and the rest"""
    c, rest = ZERO, ZERO
    for m, k in monos(p):
        if any(x is b for x, e in m):
            if sum(e for x, e in m if x is b) != 1:
                return None, None
            t = num(k)
            for x, e in m:
                if x is not b:
                    t = pmul(t, ppow(x, e))
            c = padd(c, t)
        else:
            rest = padd(rest, mkp({m: k}))
    return c, rest


def hidden(ctx, key, r, pub, where, prog):
    units(ctx, r, key)
    rows, seen = [], {}
    sources = {}
    for e, _ in events(r.trace):
        if e.kind == "rng":
            sources[e.data[0].args[0]] = (e.data[1], e.sp)
    for name, side, c in pub:
        ctx.unit("commitments", key + "." + name)
        if c.op != "poly" and c.op != "sym":
            ctx.ob(key, None, "%s is %s" % (name, show(c)[:100]), where)
            return
        co, rest = coefficient(c, B_of(side))
        if co is None:
            ctx.ob(key, None, "%s: %s" % (name, show(c)[:100]), where)
            return
        row = {}
        nonlinear = False
        for m, k in monos(co):
            rs = [(x, e) for x, e in m if x.op == "rng"]
            if len(m) == 1 and len(rs) == 1 and rs[0][1] == 1:
                row[rs[0][0]] = row.get(rs[0][0], 0) + Fraction(k)
            elif any(rngs(x) for x, e in m):
                nonlinear = True
        if not row:
            ctx.ob(key, None if nonlinear else False, "%s is blinded by %s, which is not drawn at random" % (name, show(co)[:80]), where)
            return
        if nonlinear:
            ctx.ob(key, None, "%s is blinded by %s" % (name, show(co)[:80]), where)
            return
        rows.append((name, row))
    rank = 0
    basis = []
    for name, row in rows:
        v = dict(row)
        for piv, b in basis:
            if v.get(piv):
                f = v[piv] / b[piv]
                for x, y in b.items():
                    v[x] = v.get(x, 0) - f * y
        v = {x: y for x, y in v.items() if y}
        if not v:
            same_ = [n for n, w in rows if n is not name and set(w) & set(row)]
            ctx.ob(key, False, "%s is blinded by the same random scalars as %s: %s" % (name, ", ".join(same_)[:100], ", ".join(show(x)[:60] for x in row)), where)
            return
        basis.append((min(v, key=lambda x: x.args[0]), v))
        rank += 1
    ctx.ob(key, True, "%d published commitments, blinding coefficients of rank %d in %d random scalars" % (len(rows), rank, len({x for n, w in rows for x in w})), where)
    bad = None
    for x in sorted({x for n, w in rows for x in w}, key=lambda x: x.args[0]):
        src = sources.get(x.args[0])
        v = rng_source(src[0]) if src else None
        if v is not True:
            bad = bad or (v, "the scalar drawn at %s comes from %s" % (src[1] if src else "?", show(src[0])[:100] if src else "?"))
    ctx.ob(key + ".source", bad[0] if bad else True, bad[1] if bad else "the scalars come from the caller's or the system's generator", where)


def mint(ctx, prog, key):
    par, sides = parameters(prog)
    f = method(prog, "mint", "Coin")
    R = roles(prog, f)
    r = walk(prog, f, {R["SingleLayerParameters"][0]: sides[0]}, 2, 1, sides, models=coin_models(prog))
    v = restrict(r.pval, r.st.pc)
    if v.op != "tup" or r.I.unknown:
        raise Gap("returns " + show(v)[:80])
    coin, c = v.args[0][:2]
    hidden(ctx, key, r, [("coin", sides[0], c)], f["sp"], prog)
    k = field(coin, "pk_randomness")
    co, rest = coefficient(c, B_of(sides[0]))
    if k.op != "rng":
        ctx.ob(key + ".key", None if rngs(k) else False, "the key is randomized by %s" % show(k)[:80], f["sp"])
        return
    ctx.ob(key + ".key", k not in rngs(co), "the key is randomized by %s, the commitment blinded by %s" % (show(k)[:60], show(co)[:60]), f["sp"])
    tag = field(coin, "tag")
    ctx.ob(key + ".tag", True if k in rngs(tag) else False, "the tag is %s" % show(tag)[:120], f["sp"])
    for e, _ in events(r.trace):
        if e.kind == "rng" and e.data[0] is k:
            ctx.ob(key + ".key_source", rng_source(e.data[1]), "drawn from %s" % show(e.data[1])[:80], f["sp"])
