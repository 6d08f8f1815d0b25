"""The prover's path gadgets are analysed over explicit trees whose nodes all have different symbolic commitments. For every leaf index the
witness selected at each level has to be the commitment of the node on the way to that leaf (the digits of the index in base L, the most
significant first), among the children of the node selected one level above; the analysed child_index must equal (index mod L^h) div
L^(h-1) for numbers of every size."""
import random
from paths import *
from checks.c23 import Honest, same, values

RULE = "selected child at height i = digit i of the index in base L, for every leaf index; child_index = (index mod L^h) div L^(h-1)"
FLOOR = 30
ASSUMPTIONS = ["trees are of the sizes listed; indices are within the tree", "explicit trees as from_set builds them: C24"]


def cases(tier):
    out = []
    th = tier == "thorough"
    for L, h in ((2, 1), (2, 2), (2, 3), (2, 4), (3, 1), (3, 2), (5, 1)) + (((2, 5), (3, 3), (4, 2), (4, 3), (10, 2)) if th else ()):
        n = L ** h
        for i in range(n):
            out.append(("L%d_h%d_i%d" % (L, h, i), L, 1, h, (i,), False, n))
        # a tree whose last leaves are missing
        m = n - n // 3
        for i in sorted({0, m // 2, m - 1}) if m < n else ():
            out.append(("L%d_h%d_of%d_i%d" % (L, h, m, i), L, 1, h, (i,), False, m))
    for h in (5, 6, 7) if not th else (5, 6, 7, 8, 9):
        for i in (0, 2 ** h - 1, 0x155 % 2 ** h):
            out.append(("L2_h%d_i%d" % (h, i), 2, 1, h, (i,), False, 2 ** h))
    for L, M, h in ((2, 2, 1), (2, 2, 2), (2, 2, 3), (2, 2, 6), (2, 3, 2), (3, 2, 2)) + (((2, 2, 4), (3, 3, 2), (2, 4, 3)) if th else ()):
        n = L ** h
        for k in range(4):
            out.append(("L%d_M%d_h%d_k%d" % (L, M, h, k), L, M, h, tuple((k + (2 * k + 1) * t * (L + 1)) % n for t in range(M)), True, n))
    return out


def run(ctx):
    for cfg, prog in ctx.configs():
        numeric.set_variants(prog)
        for key, L, M, h, idx, b, n in cases(ctx.tier):
            with ctx.guard("%s.%s" % (cfg, key)):
                shape = (lambda k, at: first(at, k, L) < n)
                one(ctx, "%s.%s" % (cfg, key), Honest(prog, L, M, h, idx, batched=b, shape=shape))
        with ctx.guard(cfg + ".child_index"):
            child_index(ctx, prog, cfg + ".child_index")


def first(at, k, L):
    """index of the first leaf below the node"""
    r = 0
    for d in at:
        r = r * L + d
    return r * L ** k


def one(ctx, key, H):
    units(ctx, H.r, key)
    where = H.f["sp"]
    if H.pc is not TRUE:
        return ctx.ob(key + ".proves", False if H.pc is FALSE else None, "the prover completes for leaf %s only when %s" % (H.idx, show(H.pc)[:120]), where)
    at = {p: [x for x in H.lg if x[0] in ("level", "blevel") and x[1][0] is mk("str", p)] for p in ("even", "odd")}
    bad = None
    for i in range(H.h, 0, -1):
        p = ("even", "odd")[i % 2]
        want = [(t, H.digits(H.idx[t])[:H.h - i + 1]) for t in range(H.M)]
        d = field(H.sides[(i - 1) % 2], "delta")
        if H.batched and i == 1:
            evs = at[p][:H.M]
            at[p] = at[p][H.M:]
            got = [x[1][4] for x in evs]
            got = [vfield(w, "Some", "0") for w in got if w.op == "adt" and w.args[1] == "Some"]
        else:
            evs = at[p][:1]
            at[p] = at[p][1:]
            w = evs[0][1][4] if evs else None
            w = vfield(w, "Some", "0") if w is not None and w.op == "adt" and w.args[1] == "Some" else None
            got = None if w is None else list(w.args[0]) if H.batched and w.op == "lst" else [w]
        odd = next((x for x in H.lg if x[2] is not TRUE), None)
        if odd is not None:
            bad = bad or (None, "%s only when %s" % (odd[0], show(odd[2])[:100]), odd[3])
            continue
        if not got or len(got) != H.M:
            bad = bad or (None, "level %d: witnesses not recognised" % i, where)
            continue
        for (t, pre), w in zip(want, got):
            r = same(w, padd(H.T.commitment(pre, t), d))
            if r is not True:
                who = next((a for a in H.T.nodes if len(a) == len(pre) and same(w, padd(H.T.commitment(a, t), d)) is True), None)
                bad = bad or (r, "leaf %d: at height %d the prover selects %s instead of child %s of the node above" % (
                    H.idx[t], i, "child %s" % (who,) if who is not None else show(w)[:80], pre), evs[0][3])
        # the candidates are the children of the node above
        xs = [x for t, pre in want for x in H.T.xs(pre[:-1], t)]
        vals = [x for e in evs for x in (values(H, e[1][3]) or [])]
        r = same(lst(vals), lst(xs))
        if r is not True:
            bad = bad or (r, "leaf %s: the candidates at height %d are not the children of the node above" % (H.idx, i), evs[0][3])
    ctx.ob(key, bad[0] if bad else True, bad[1] if bad else "the selected nodes are those on the way to the leaf", bad[2] if bad else where)


def child_index(ctx, prog, key):
    f = method(prog, "child_index", "CurveTreeNode")
    rnd = random.Random(5)
    n = 0
    for L in (1, 2, 3, 5, 16, 32, 41, 256, 1000, 65537):
        for h in (1, 2, 3, 4, 6):
            if L ** h > 1 << 62:
                continue
            for i in sorted({L ** h - 1, L ** (h - 1), L - 1, L, 0, 1, rnd.randrange(L ** h), rnd.randrange(L ** h)}):
                if i >= L ** h:
                    continue
                T = Tree(prog, 1, 1, h, params=parameters(prog)[1])
                r = Run(prog, f, over={0: T.root, 1: num(i)}, setup=lambda run, st: setattr(run.I, "consts", {"L": num(L), "M": num(1)}))
                got = concrete(r.pval)
                want = i % L ** h // L ** (h - 1)
                n += 1
                if got != want or r.st.pc is not TRUE:
                    if r.st.pc is FALSE and not r.I.unknown:
                        return ctx.ob(key, False, "child_index(%d) at height %d with branching factor %d never returns" % (i, h, L), f["sp"])
                    return ctx.ob(key, False if got is not None else None, "child_index(%d) at height %d with branching factor %d is %s instead of %d" % (i, h, L, show(r.pval)[:60], want), f["sp"])
    ctx.ob(key, True, "%d values agree" % n, f["sp"])
