"""The prover's path gadgets are analysed on recorders of the two constraint systems, over explicit trees whose node commitments are the
vector commitments to their children, for every leaf of trees of the heights listed. The path they return is then given to the analysed
verifier gadget with the same tree. On each constraint system the two sides must record the same vector commitments (dimension and point,
the prover's point being what it commits to) and the same level gadgets (parameters, rerandomized child, children) in the same order. The
witness of every level gadget must be one of the children, shifted by delta, and the rerandomized child must be that child (or the sum of
the selected children) plus the blinding base times the scalar given; the scalars returned must open the returned leaves."""
from paths import *
from checks.c21 import path_value, differs

RULE = "log(prover, tree, index) = log(verifier, tree, returned path) on each curve; witness of each level opens its rerandomized child"
FLOOR = 30
ASSUMPTIONS = ["the level gadget on honest witnesses: C36; transcripts of commit_vec on both sides: C02", "provers are created with the Pedersen generators of the parameters, trees are committed under generator set 0 (M sets for batches)",
               "rerandomization scalars are not zero", "trees are of the sizes listed"]


class Honest:
    """the prover's run for the given leaves, and the verifier's run on the path it returns"""

    def __init__(self, prog, L, M, h, idx, shape=None, batched=False, sets=None):
        self.prog, self.L, self.M, self.h, self.idx = prog, L, M, h, idx
        self.par, self.sides = parameters(prog)
        self.T = Tree(prog, L, sets or M, h, params=self.sides, coms=True, shape=shape)
        self.batched = batched
        name = "batched_select_and_rerandomize_%s_gadget" if batched else "select_and_rerandomize_%s_gadget"
        f = self.f = method(prog, name % "prover", "CurveTree")
        R = roles(prog, f)
        over = {R["CurveTree"][0]: self.T.value, R["SelRerandParameters"][0]: self.par}
        if batched:
            over[next(v[0] for k, v in R.items() if k.startswith("[usize"))] = lst([num(i) for i in idx])
        else:
            over[R["usize"][0]], over[R["usize"][1]] = num(idx[0]), ZERO
        self.r = walk(prog, f, over, L, M, self.sides)
        self.lg = log(self.r)
        self.pc = self.r.st.pc
        v = restrict(self.r.pval, self.pc)
        if v.op != "tup":
            raise Gap("the prover returns " + show(v)[:80])
        self.path, self.scalars = v.args[0]
        sel = [x for k, x in self.path.args[2] if k.startswith("selected")][0]
        self.leaves = list(sel.args[0]) if sel.op == "lst" else [sel]
        self.scalars = list(self.scalars.args[0]) if self.scalars.op == "lst" else [self.scalars]

    def verify(self):
        prog = self.prog
        g = method(prog, ("batched_select_and_rerandomize_%s_gadget" if self.batched else "select_and_rerandomize_%s_gadget") % "verifier", "CurveTree")
        R = roles(prog, g)
        pn = "SelectAndRerandomizeMultiPath" if self.batched else "SelectAndRerandomizePath"
        self.g = g
        self.v = walk(prog, g, {R["CurveTree"][0]: self.T.value, R[pn][0]: self.path, R["SelRerandParameters"][0]: self.par}, self.L, self.M, self.sides)
        self.vlg = log(self.v)

    def digits(self, i):
        out = []
        for k in range(self.h):
            out.append(i % self.L)
            i //= self.L
        return tuple(reversed(out))


def cases(tier):
    """[(key, L, M, h, indices, batched)]"""
    out = []
    th = tier == "thorough"
    for L, h in ((2, 1), (2, 2), (2, 3), (2, 4), (3, 1), (3, 2)) + (((2, 5), (3, 3), (4, 2), (4, 3), (1, 3)) if th else ()):
        n = L ** h
        for i in range(n) if th or n <= 8 else sorted({0, 1, L, n // 2, n - 2, n - 1, n // 3}):
            out.append(("L%d_h%d_i%d" % (L, h, i), L, 1, h, (i,), False))
    for h in (5, 6, 7, 8):
        for i in (0, 0x155 % 2 ** h):
            out.append(("L2_h%d_i%d" % (h, i), 2, 1, h, (i,), False))
    for L, M, h in ((2, 1, 2), (2, 2, 5), (2, 2, 6), (2, 1, 7), (2, 2, 1), (2, 2, 2), (2, 2, 3), (2, 3, 2), (3, 2, 2)) + (((2, 2, 4), (2, 3, 3), (3, 3, 2), (2, 4, 2), (2, 5, 1)) if th else ()):
        n = L ** h
        for k in range(3 if not th else 6):
            out.append(("L%d_M%d_h%d_k%d" % (L, M, h, k), L, M, h, tuple((k + (2 * k + 1) * t * (L + 1)) % n for t in range(M)), True))
    return out


def run(ctx):
    for cfg, prog in ctx.configs():
        numeric.set_variants(prog)
        for key, L, M, h, idx, b in cases(ctx.tier):
            with ctx.guard("%s.%s" % (cfg, key)):
                one(ctx, "%s.%s" % (cfg, key), Honest(prog, L, M, h, idx, batched=b))


def same(a, b):
    """True, False or None: equal terms"""
    if a is b:
        return True
    if not hasattr(a, "op") or not hasattr(b, "op"):
        return a == b
    if a.op == b.op == "lst":
        if len(a.args[0]) != len(b.args[0]):
            return False
        rs = [same(x, y) for x, y in zip(a.args[0], b.args[0])]
        return False if False in rs else None if None in rs else True
    r = apart(a, b)
    return None if r is None else not r


def one(ctx, key, H):
    units(ctx, H.r, key)
    where = H.f["sp"]
    if H.pc is not TRUE:
        return ctx.ob(key + ".proves", False if H.pc is FALSE else None, "the prover completes only when " + show(H.pc)[:120], where)
    ctx.ob(key + ".proves", True, "the prover completes", where)
    H.verify()
    units(ctx, H.v, key)
    if H.v.st.pc is not TRUE:
        ctx.ob(key + ".verifies", False if H.v.st.pc is FALSE else None, "the verifier completes on the path only when " + show(H.v.st.pc)[:120], H.g["sp"])
        return
    ctx.ob(key + ".verifies", True, "the verifier completes on the path returned", H.g["sp"])
    for p in ("even", "odd"):
        mirror(ctx, "%s.%s" % (key, p), H, mk("str", p))
    witnesses(ctx, key, H)


def mirror(ctx, key, H, cid):
    a = [x for x in H.lg if x[0] in ("commitp", "level", "blevel", "con", "range") and x[1][0] is cid]
    b = [x for x in H.vlg if x[0] in ("commitv", "level", "blevel", "con", "range") and x[1][0] is cid]
    bad = next((x for x in a + b if x[2] is not TRUE), None)
    if bad:
        return ctx.ob(key, None, "%s only when %s" % (bad[0], show(bad[2])[:100]), bad[3])
    names = lambda l: ["commit" if x[0] in ("commitp", "commitv") else x[0] for x in l]
    if names(a) != names(b):
        return ctx.ob(key, False, "the prover records %s, the verifier %s" % (names(a), names(b)), a[0][3] if a else H.f["sp"])
    for n, (x, y) in enumerate(zip(a, b)):
        if x[0] == "commitp":
            pairs = [("dimension", x[1][1], y[1][1]), ("commitment", x[1][5], y[1][2])]
        else:
            pairs = list(zip(("parameters", "rerandomized child", "children"), x[1][1:4], y[1][1:4]))
        for what, s, t in pairs:
            r = same(s, t)
            if r is not True:
                return ctx.ob(key, r, "%s of step %d (%s): the prover has %s, the verifier %s" % (what, n, names(a)[n], show(s)[:100] if hasattr(s, "op") else s, show(t)[:100] if hasattr(t, "op") else t), x[3])
    ctx.ob(key, True, "%d steps agree" % len(a), H.f["sp"])


def values(H, x):
    """the values of the children of a level gadget: constants, or what the prover committed to"""
    env, n = {}, {}
    for k, d, g, sp in H.lg:
        if k == "commitp":
            c = n.get(d[0], 0)
            for j, v in enumerate(d[2].args[0]):
                env[var(d[0], num(c + j))] = v
            n[d[0]] = c + d[1]
    return [env.get(v, v) for v in x.args[0]] if x.op == "lst" else None


def witnesses(ctx, key, H):
    bad = None
    n = 0
    used = []
    for k, d, g, sp in H.lg:
        if k not in ("level", "blevel"):
            continue
        par, child, kids, w, s = d[1:6]
        n += 1
        if not (w.op == s.op == "adt" and w.args[1] == s.args[1] == "Some"):
            bad = bad or (None if w.op != "adt" or s.op != "adt" else False, "a level gadget of the prover has no witness", sp)
            continue
        w, s = vfield(w, "Some", "0"), vfield(s, "Some", "0")
        ws = list(w.args[0]) if k == "blevel" and w.op == "lst" else [w]
        vals = values(H, kids)
        if vals is None or len(vals) % len(ws):
            bad = bad or (None, "children " + show(kids)[:80], sp)
            continue
        q = len(vals) // len(ws)
        for t, x in enumerate(ws):
            if not any(same(field(x, "x"), v) is True for v in vals[t * q:(t + 1) * q]):
                r = [same(field(x, "x"), v) for v in vals[t * q:(t + 1) * q]]
                bad = bad or (None if None in r else False, "the witness %s is not among the children of its node" % show(x)[:100], sp)
        lhs = padd(child, pmul(field(par, "delta"), num(len(ws))))
        rhs = pmul(s, B_of(par))
        for x in ws:
            rhs = padd(rhs, x)
        r = same(lhs, rhs)
        if r is not True:
            bad = bad or (r, "the rerandomized child is %s, the witness gives %s" % (show(lhs)[:120], show(rhs)[:120]), sp)
    ctx.ob(key + ".witness", bad[0] if bad else True, bad[1] if bad else "%d witnesses open their rerandomized children" % n, bad[2] if bad else H.f["sp"])
    bad = None
    for t, (c, s) in enumerate(zip(H.leaves, H.scalars)):
        leaf = H.T.com(0, H.digits(H.idx[t]), 0)
        r = same(c, padd(leaf, pmul(s, B_of(H.sides[0]))))
        if r is not True:
            bad = bad or (r, "returned leaf %d is %s and the scalar %s" % (t, show(c)[:100], show(s)[:60]))
    if len(H.leaves) != H.M or len(H.scalars) != H.M:
        bad = bad or (None, "%d leaves and %d scalars returned" % (len(H.leaves), len(H.scalars)))
    ctx.ob(key + ".opening", bad[0] if bad else True, bad[1] if bad else "the returned scalars open the returned leaves", H.f["sp"])
