"""The builder of trees is analysed on sets of the sizes listed, whose leaves are all different symbolic points, with parameters whose
generators are all different symbols. The tree it returns must be the one of the smallest sufficient height (or the height asked for, when
that is larger) in which leaf i is below the child given by each digit of i in base L, every place without a leaf below it is empty, and
every inner node carries, for each of the M generator sets, the unblinded vector commitment to the abscissas (shifted by the delta of the
children's curve, zero for an empty place) of all of its children in order, under its own window of the generators of its own curve. The
functions reading a node's commitment, height and number of leaves are analysed on the nodes found; the vector commitment of the parameters
is analysed for each number of values and each window."""
from paths import *

RULE = "from_set(leaves, height) = the explicit tree: place, children, commitments, heights and leaf counts of every node"
FLOOR = 60
ASSUMPTIONS = ["sets of the sizes listed", "generators of one set are distinct and those of different sets disjoint: C08"]


def explicit(prog, side, name, cap):
    """the parameters with every generator named"""
    p = paths(prog)["BulletproofGens"]
    g = sym(name + "_bp_gens")
    known = {"gens_capacity": num(cap), "party_capacity": ONE, "G_vec": lst([lst([app("G", g, num(i)) for i in range(cap)])]),
             "H_vec": lst([lst([app("H", g, num(i)) for i in range(cap)])])}
    v = adt(p, prog.adts[p]["v"][0][0], tuple((x[0], known[x[0]] if x[0] in known else sym(name + x[0])) for x in prog.adts[p]["v"][0][1]))
    return adt(side.args[0], side.args[1], tuple((n, v if n == "bp_gens" else x) for n, x in side.args[2]))


def cases(tier):
    th = tier == "thorough"
    out = []
    for L, M, ns in ((2, 1, range(1, 10)), (3, 1, range(1, 11)), (4, 1, (1, 3, 4, 5, 15, 16, 17)), (2, 2, (1, 2, 3, 5, 8)), (3, 3, (2, 4, 7)), (7, 1, (1, 6, 7, 8, 50))):
        out += [(L, M, n, None) for n in ns]
    out += [(2, 1, 1, 1), (2, 1, 1, 4), (2, 1, 3, 1), (2, 1, 3, 2), (2, 1, 3, 3), (2, 1, 4, 5), (3, 2, 5, 4), (3, 1, 1, 2), (2, 1, 5, 0)]
    if th:
        out += [(2, 1, n, None) for n in (16, 17, 31, 32, 33, 63, 65)] + [(3, 1, n, None) for n in (26, 27, 28, 80, 82)] + [(5, 2, n, None) for n in (4, 24, 26)]
        out += [(2, 4, n, h) for n in (1, 5) for h in (None, 3, 6)] + [(16, 1, n, None) for n in (15, 17, 255, 257)] + [(2, 1, n, 8) for n in (1, 9)]
    return out


def natural(L, n):
    h = 0
    while L ** h < n:
        h += 1
    return h


def run(ctx):
    for cfg, prog in ctx.configs():
        numeric.set_variants(prog)
        for L, M, n, H in cases(ctx.tier):
            key = "%s.L%d_M%d_n%d%s" % (cfg, L, M, n, "" if H is None else "_h%d" % H)
            with ctx.guard(key):
                one(ctx, prog, key, L, M, n, H)
        with ctx.guard(cfg + ".empty"):
            r, f = build(prog, 2, 1, 0, None)
            ctx.ob(cfg + ".empty", True if r.st.pc is FALSE else None, "an empty set is refused", f["sp"])
        for k in (1, 2, 3, 8):
            for i in (0, 1, 2):
                with ctx.guard("%s.commit_%d_%d" % (cfg, k, i)):
                    commit(ctx, prog, "%s.commit_%d_%d" % (cfg, k, i), k, i)


def commit(ctx, prog, key, k, i):
    par, sides = parameters(prog)
    f = method(prog, "commit", "SingleLayerParameters")
    vs = [sym("v%d" % j) for j in range(k)]
    r = Run(prog, f, over={0: explicit(prog, sides[0], "even", (i + 2) * k), 1: lst(vs), 2: sym("b"), 3: num(i)}, lcnum=True,
            setup=lambda run, st: setattr(run.I, "PEEL", 600))
    units(ctx, r, key)
    same(ctx, key, r.st.pc, r.pval, padd(com(sym("even_bp_gens"), i * k, vs), pmul(sym("b"), B_of(sides[0]))), f["sp"],
         "the commitment to %d values under generator set %d" % (k, i))


def build(prog, L, M, n, H):
    par, sides = parameters(prog)
    f = method(prog, "from_set", "CurveTree")
    R = roles(prog, f)
    leaf = next(v[0] for k, v in R.items() if k.startswith("["))
    ex = [explicit(prog, sides[k], ("even", "odd")[k], L * M + 1) for k in (0, 1)]
    p2 = adt(par.args[0], par.args[1], tuple((nm, ex[0] if x is sides[0] else ex[1]) for nm, x in par.args[2]))
    r = walk(prog, f, {leaf: lst([sym("l%d" % i) for i in range(n)]), R["SelRerandParameters"][0]: p2,
                       R["Option"][0]: NONE_ if H is None else some(num(H))}, L, M, sides)
    return r, f


class Expected(Tree):
    def com(self, k, at, t):
        if k == 0:
            i = 0
            for d in at:
                i = i * self.L + d
            return sym("l%d" % i)
        return Tree.com(self, k, at, t)


def one(ctx, prog, key, L, M, n, H):
    par, sides = parameters(prog)
    h = max(natural(L, n), H or 0)

    def shape(k, at):
        i = 0
        for d in at:
            i = i * L + d
        return i * L ** k < n
    T = Expected(prog, L, M, h, shape=shape, coms=True, params=sides)
    r, f = build(prog, L, M, n, H)
    units(ctx, r, key)
    where = f["sp"]
    if r.I.unknown:
        raise Gap("not modelled: " + ", ".join(sorted(r.I.unknown))[:200])
    if r.st.pc is not TRUE:
        return ctx.ob(key, False if r.st.pc is FALSE else None, "the tree is built only when " + show(r.st.pc)[:120], where)
    v = r.pval
    if v.op != "adt" or len(v.args[2]) != 1:
        return ctx.ob(key, None, "tree not recognised: " + show(v)[:120], where)
    want = "Odd" if h % 2 else "Even"
    root = v.args[2][0][1]
    leaves = []
    bad = walk_(T, root, (), leaves)
    if v.args[1] != want:
        bad = (False, "the tree is " + v.args[1] + ", its height asks for " + want)
    ctx.ob(key, bad[0] if bad else True, bad[1] if bad else "%d nodes, %d leaves in order, height %d, %d commitments" % (len(T.nodes), len(leaves), h, M * (len(T.nodes) - len(leaves))), where)
    read(ctx, prog, key, T, v, L, M, sides)


def walk_(T, v, at, leaves):
    """the first difference between the node found and the one expected: (verdict, text)"""
    k = T.h - len(at)
    e = T.nodes.get(at)
    here = "node %s" % (list(at),)
    if v.op != "adt" or v.args[0] != T.np:
        return None, here + " not recognised: " + show(v)[:100]
    if e is None:
        return False, here + " should be empty"
    if v.args[1] == "Leaf":
        leaves.append(at)
        if e.args[1] != "Leaf":
            return False, here + " is a leaf at height %d" % k
        x = v.args[2][0][1]
        a = apart(x, e.args[2][0][1])
        return None if a is False else (False if a else None, "%s holds %s instead of leaf %s" % (here, show(x)[:40], show(e.args[2][0][1])))
    if e.args[1] != "Branch":
        return False, here + " is not a leaf"
    kids = field(v, "children")
    if kids.op != "lst" or len(kids.args[0]) != T.L:
        return None, here + ": children not recognised"
    for i, c in enumerate(kids.args[0]):
        x = T.nodes.get(at + (i,))
        if c.op != "adt" or c.args[1] not in ("Some", "None"):
            return None, here + ": child %d not recognised" % i
        if c.args[1] == "None":
            if x is not None:
                return False, "%s: child %d is missing" % (here, i)
            continue
        if x is None:
            return False, "%s: child %d should be empty" % (here, i)
        b = walk_(T, c.args[2][0][1], at + (i,), leaves)
        if b:
            return b
    cs = field(v, "parent_commitment")
    if cs.op != "lst" or len(cs.args[0]) != T.M:
        return None, here + ": commitments not recognised: " + show(cs)[:80]
    for t, c in enumerate(cs.args[0]):
        a = apart(c, T.commitment(at, t))
        if a is not False:
            return (False if a else None), "%s: commitment %d is %s instead of %s" % (here, t, show(c)[:120], show(T.commitment(at, t))[:120])
    for nm in ("height", "elements"):
        a = apart(field(v, nm), field(e, nm))
        if a is not False:
            return (False if a else None), "%s: %s is %s instead of %s" % (here, nm, show(field(v, nm))[:60], show(field(e, nm)))
    return None


def read(ctx, prog, key, T, v, L, M, sides):
    """the accessors on a few nodes"""
    fs = {nm: method(prog, nm, "CurveTreeNode") for nm in ("commitment", "height", "elements")}
    for at in sorted(T.nodes, key=lambda a: (len(a), a))[:3]:
        node = T.nodes[at]
        for nm, f in fs.items():
            for t in range(M) if nm == "commitment" else (0,):
                over = {0: node}
                if nm == "commitment":
                    over[1] = num(t)
                r = walk(prog, f, over, L, M, sides)
                if node.args[1] == "Leaf":
                    want = {"commitment": node.args[2][0][1], "height": ZERO, "elements": ONE}[nm]
                else:
                    want = T.commitment(at, t) if nm == "commitment" else field(node, nm)
                same(ctx, "%s.%s_%s_%d" % (key, nm, "_".join(map(str, at)), t), r.st.pc, r.pval, want, f["sp"], "%s of node %s" % (nm, list(at)))
    f = method(prog, "height", "CurveTree")
    r = walk(prog, f, {0: v}, L, M, sides)
    same(ctx, key + ".height", r.st.pc, r.pval, num(T.h), f["sp"], "height of the tree")


def same(ctx, key, pc, got, want, where, what):
    if pc is not TRUE:
        return ctx.ob(key, False if pc is FALSE else None, "%s: returned only when %s" % (what, show(pc)[:100]), where)
    a = apart(got, want)
    ctx.ob(key, True if a is False else False if a else None, "%s is %s%s" % (what, show(want)[:100], "" if a is False else ", found " + show(got)[:120]), where)
