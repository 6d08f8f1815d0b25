"""The verifier gadget of a path is analysed on recorders of its two constraint systems, for trees of every height listed and for path
objects with every number of odd and even commitments around it. A path of the right shape must produce, at every level, the level gadget
on the right constraint system with: the parameters of the child's curve, the commitment of the level below (the returned leaf at the
bottom) as rerandomized child, and as children the variables of the vector commitment to the very same parent that was the child of the
level above, or for the root the shifted abscissas of the children of the verifier's own root as constants. Any other shape must never
reach a normal return."""
from paths import *

RULE = "levels(verifier) = {(parity(i), parent C_i, child C_(i-1), parameters of parity(i-1)) : i = h..1}, C_h = own root, C_0 = returned leaf; other shapes refused"
FLOOR = 30
ASSUMPTIONS = ["the level gadget proves its relation (C20), the proof system binds vector commitments (C03, C12)", "heights and branching factors are those listed"]


def path_value(prog, name, sel, no, ne):
    p = paths(prog)[name]
    vals = {"odd_commitments": lst([sym("o%d" % i) for i in range(no)]), "even_commitments": lst([sym("e%d" % i) for i in range(ne)])}
    fs = [x[0] for x in prog.adts[p]["v"][0][1]]
    rest = [x for x in fs if x not in vals]
    if len(rest) != 1:
        raise Anchor("fields of " + name)
    vals[rest[0]] = sel
    return adt(p, prog.adts[p]["v"][0][0], tuple((x, vals[x]) for x in fs))


def chain(h, sel):
    """[C_0 .. C_(h-1)] for the path of height h; the root is the verifier's"""
    odd = [i for i in range(h - 1, 0, -1) if i % 2 == 1]
    even = [i for i in range(h - 1, 0, -1) if i % 2 == 0]
    c = {0: sel}
    c.update({i: sym("o%d" % k) for k, i in enumerate(odd)})
    c.update({i: sym("e%d" % k) for k, i in enumerate(even)})
    return c, len(odd), len(even)


def run(ctx):
    heights = range(1, 10) if ctx.tier != "thorough" else range(1, 17)
    for cfg, prog in ctx.configs():
        numeric.set_variants(prog)
        for L in (2, 3) if ctx.tier != "thorough" else (1, 2, 3, 5):
            for h in heights:
                key = "%s.L%d_h%d" % (cfg, L, h)
                with ctx.guard(key):
                    single(ctx, prog, key, L, h)
            with ctx.guard("%s.L%d_h0" % (cfg, L)):
                refusals(ctx, prog, "%s.L%d_h0" % (cfg, L), "select_and_rerandomize_verifier_gadget", "SelectAndRerandomizePath", sym("S"), L, 1, 0, None)


def sparse(h, L):
    """trees in which the last child of the root is missing (when it has another one)"""
    return lambda k, at: not (len(at) == 1 and at[0] == L - 1 and L > 1)


def top(h, L, M):
    """only the levels next to the root matter to the verifier"""
    return lambda k, at: len(at) == 0 or (len(at) == 1 and sparse(h, L)(k, at)) or all(x == 0 for x in at)


def analyse(prog, name, pname, sel, L, M, h, no, ne):
    par, sides = parameters(prog)
    T = Tree(prog, L, M, h, params=sides, shape=top(h, L, M))
    f = find(prog, name)
    R = roles(prog, f)
    over = {R["CurveTree"][0]: T.value, R[pname][0]: path_value(prog, pname, sel, no, ne), R["SelRerandParameters"][0]: par}
    return f, T, sides, walk(prog, f, over, L, M, sides)


def refusals(ctx, prog, key, name, pname, sel, L, M, h, good):
    n = 0
    for no in range(0, h // 2 + 3):
        for ne in range(0, h // 2 + 3):
            if (no, ne) == good:
                continue
            f, T, sides, r = analyse(prog, name, pname, sel, L, M, h, no, ne)
            if r.I.unknown and r.st.pc is not FALSE:
                raise Gap("not modelled: " + ", ".join(sorted(r.I.unknown)))
            n += 1
            if r.st.pc is not FALSE:
                return ctx.ob(key + ".refused", False if r.st.pc is TRUE else None, "a path with %d odd and %d even commitments for a tree of height %d is accepted when %s" % (
                    no, ne, h, show(r.st.pc)[:100]), f["sp"])
    ctx.ob(key + ".refused", True, "%d other shapes are refused" % n)


def single(ctx, prog, key, L, h):
    name, pname, S = "select_and_rerandomize_verifier_gadget", "SelectAndRerandomizePath", sym("S")
    C, no, ne = chain(h, S)
    f, T, sides, r = analyse(prog, name, pname, S, L, 1, h, no, ne)
    units(ctx, r, key)
    where = f["sp"]
    if r.st.pc is not TRUE:
        return ctx.ob(key + ".accepted", False if r.st.pc is FALSE else None, "a path of the right shape is %s" % ("refused" if r.st.pc is FALSE else "accepted when " + show(r.st.pc)[:100]), where)
    ctx.ob(key + ".accepted", True, "a path of the right shape completes", where)
    ctx.ob(key + ".leaf", True if r.pval is S else differs(r.pval, S), "returns %s" % show(r.pval)[:80], where)
    lg = log(r)
    levels(ctx, key, lg, L, 1, h, C, T, sides, where)
    refusals(ctx, prog, key, name, pname, S, L, 1, h, (no, ne))


def differs(a, b):
    r = apart(a, b)
    return None if r is None else not r


def sources(lg, cid):
    """variable -> (commitment, dimension, position, event) of the vector commitments on the constraint system"""
    out, n = {}, 0
    for k, d, g, sp in lg:
        if k in ("commitv", "commitp") and d[0] is cid:
            for j in range(d[1]):
                out[var(cid, num(n + j))] = (d, j, g)
            n += d[1]
    return out


def levels(ctx, key, lg, L, M, h, C, T, sides, where, leaves=None):
    """every level of the chain is present"""
    ids = {p: mk("str", ("even", "odd")[p]) for p in (0, 1)}
    src = {p: sources(lg, ids[p]) for p in (0, 1)}
    for i in range(h, 0, -1):
        cid = ids[i % 2]
        if leaves is not None and i == 1:
            want = [("level", leaves[t], (t,)) for t in range(M)]
        else:
            want = [("blevel" if leaves is not None else "level", C[i - 1], tuple(range(M)))]
        for kind, child, groups in want:
            k2 = "%s.level%d%s" % (key, i, "" if len(want) == 1 else "_%d" % groups[0])
            cand = [(d, g, sp) for k, d, g, sp in lg if k == kind and d[0] is cid and d[2] is child]
            if not cand:
                alt = [(d, sp) for k, d, g, sp in lg if k == kind and d[0] is cid]
                ctx.ob(k2, False, "no gadget on the %s curve has %s as its rerandomized child; the children there are: %s" % (
                    ("even", "odd")[i % 2], show(child)[:60], ", ".join(show(d[2])[:40] for d, sp in alt)[:200] or "none"), alt[0][1] if alt else where)
                continue
            res = []
            for d, g, sp in cand:
                ok, why = one_level(d, g, i, groups, L, M, h, C, T, sides, src[i % 2])
                res.append((ok, why, sp))
            best = next((x for x in res if x[0] is True), next((x for x in res if x[0] is None), res[0]))
            ctx.ob(k2, best[0], best[1], best[2])


def one_level(d, g, i, groups, L, M, h, C, T, sides, src):
    cid, par, child, kids, w1, w2 = d[:6]
    if g is not TRUE:
        return (None, "the level gadget runs only when " + show(g)[:100])
    want = sides[(i - 1) % 2]
    if par is not want:
        for x in ("delta", "coeff_a", "coeff_b", "tables"):
            if field(par, x) is not field(want, x):
                return False, "the gadget gets %s of %s where the children are on the %s curve" % (x, show(field(par, x))[:60], ("even", "odd")[(i - 1) % 2])
    if kids.op != "lst" or len(kids.args[0]) != L * len(groups):
        return (False if kids.op == "lst" else None), "the gadget selects among %s children, the node has %d" % (len(kids.args[0]) if kids.op == "lst" else "?", L * len(groups))
    if i == h:
        exp = [x for t in groups for x in T.xs((), t)]
        for j, (a, b) in enumerate(zip(kids.args[0], exp)):
            if a is not b:
                r = apart(a, b)
                if r is not False:
                    return False if r else None, "child %d of the root is %s instead of %s" % (j, show(a)[:80], show(b)[:80])
        return True, "root: %d shifted abscissas of the verifier's own tree" % len(exp)
    for j, a in enumerate(kids.args[0]):
        s = src.get(a)
        if s is None:
            return (None if a.op == "ite" else False), "child %d is %s, which is no variable of a commitment to the parent" % (j, show(a)[:80])
        e, pos, g2 = s
        if e[2] is not C[i]:
            return False, "child %d is committed to by %s, the parent is %s" % (j, show(e[2])[:60], show(C[i])[:60])
        if e[1] != L * M:
            return False, "the parent %s is opened to %d children instead of %d" % (show(C[i])[:60], e[1], L * M)
        if pos != groups[0] * L + j:
            return False, "child %d is position %d of the parent's commitment, not %d" % (j, pos, groups[0] * L + j)
        if g2 is not TRUE:
            return None, "the commitment happens only when " + show(g2)[:80]
    return True, "parent %s, child %s, %d children" % (show(C[i])[:40], show(child)[:40], len(kids.args[0]))
