"""For every number K of vector commitments that the transcript's labels admit (0 to 17), the verifier's equation over a
symbolic proof is computed; the power of the evaluation point at which every object enters is read off its coefficient: the
left degrees from the coefficients of the commitments, the right degrees from the powers that multiply each variable's
constraint weight on the second generator vector, the target degree from the scalar commitments. Rule: left and right degree of
each object sum to the target degree, and no two objects that do not belong together have degrees summing to it (pairwise, all
objects). The polynomial's coefficient commitments cover every other degree up to the maximal product degree. For the prover,
the proof of the same scenario must satisfy that equation identically, which includes that its target coefficient is the sum of
the claims and that products and evaluations of its vector polynomials are exact at those degrees."""
from protocol import *
import numeric

RULE = "deg_left(a) + deg_right(b) = target iff a = b, over all pairs; T covers every product degree except the target"
FLOOR = 200
ASSUMPTIONS = ["more than 17 vector commitments exceed the fixed table of coefficient labels and abort (documented limitation)"]


def run(ctx):
    ks = range(18) if ctx.tier == "thorough" else (0, 1, 2, 3, 4, 5, 6, 7, 8, 11, 14, 17)
    for cfg, prog in ctx.configs():
        for k in ks:
            with ctx.guard("%s.%d" % (cfg, k)):
                one(ctx, prog, cfg, k)


def exps(c, x, sel=None):
    """exponents of x over the monomials of c (containing the symbol sel)"""
    out = set()
    for m, q in monos(c):
        if sel is not None and not any(a is sel for a, e in m):
            continue
        es = [e for a, e in m if a is x]
        if any(mentions(a, x) for a, e in m if a is not x):
            raise Exception("coefficient not expanded: %s" % show(c)[:200])
        e = es[0] if es else 0
        out.add(int(numval(e)) if isinstance(e, T) else int(e))
    return out


def one(ctx, prog, cfg, K):
    tag = "%s.%d" % (cfg, K)
    where = method(prog, "verify", "Verifier")["sp"]
    p = Pair(prog, Scenario("K%d" % K, O(*(["vec1"] * K + ["commit", "mul", "constrain"])))).prove().verify()
    ctx.unit("count", tag)
    for f in p.P.I.analysed | p.V.I.analysed:
        ctx.unit("function", f)
    for what, c in (("prover", p.pok), ("verifier", p.okc)):
        if c is FALSE:
            return ctx.ob("%s.%s never succeeds" % (tag, what), False, "with %d vector commitments the %s never succeeds: both sides disagree on the degrees" % (K, what), where)
    X, rest = p.equation()
    v = numeric.test(p.satisfy(X))
    ctx.ob(tag + ".prover", {"equal": True, "differs": False}.get(v[0]), "the produced proof satisfies the equation identically: %s" % (v,), method(prog, "prove_and_return_transcript", "Prover")["sp"])
    # the verifier's equation over a symbolic proof
    a, = [a for a in bdd_atoms(p.okc) if a.op == "eq0" and a.args[0].op == "app" and a.args[0].args[0] == "msm"]
    eq = subst_term(a.args[0], {d[1]: sym("ch", i) for i, d in enumerate(p.vch)})
    n = int(numval(slen(eq.args[1])))
    co = {}
    for i in range(n):
        q = at(eq.args[1], num(i))
        co[q] = padd(co.get(q, ZERO), at(eq.args[2], num(i)))
    sp = p.symproof
    T_ = list(field(sp, "T").args[0])
    xs = [c for c in (pdiv(co[T_[1]], co[T_[0]]),) if c.op == "sym"] if len(T_) > 1 and T_[0] in co and T_[1] in co else []
    if not xs:
        raise Exception("the evaluation point is not identified")
    x = xs[0]
    deg = lambda q, s=None: sole(exps(co[q], x, s)) if q in co else None
    # objects with left and right degrees
    cs = {}
    tail = [s for s in syms(co.get(app("H", ZERO, ZERO), ZERO)) | syms(co.get(app("G", ZERO, ZERO), ZERO)) if s.args[0] == "c"]
    for s in tail:
        cs[s.args[2]] = s
    vals = [v for v in p.vals if len(v) == 2]
    names = {}
    left, right = {}, {}
    for j, st in enumerate([s for s in p.steps if s[0] == "commit_vec"]):
        left["vector %d" % j] = deg(field(st[1], "0"))
    left["inputs"] = deg(field(sp, "A_I1"))
    left["outputs"] = deg(field(sp, "A_O1"))
    left["masks"] = deg(field(sp, "S1"))
    H, G = co[app("H", ZERO, ZERO)], co[app("G", ZERO, ZERO)]
    j = 0
    for i, (vv, w) in enumerate(vals):
        k = vv.args[1]
        if i not in cs:
            continue
        eh, eg = exps(H, x, cs[i]), exps(G, x, cs[i])
        if k == "VectorCommit":
            right["vector %d" % j] = sole(eh)
            j += 1
        elif k == "MultiplierLeft":
            right["inputs"] = sole(eh)
        elif k == "MultiplierOutput":
            right["outputs"] = sole(eh)
        elif k == "MultiplierRight":
            left["right weights"] = sole(eg)
    right["right inputs"] = left["inputs"]      # the same commitment carries both input vectors
    right["masks"] = left["masks"]
    Vp, = [field(s[1], "0") for s in p.steps if s[0] == "commit"]
    op = deg(Vp)
    # T_d enters with r * x^d
    t0 = deg(T_[0])
    if op is None or None in left.values() or None in right.values() or t0 is None:
        return ctx.ob(tag + ".degrees", None, "degrees not read off: %s %s %s" % (left, right, op), where)
    ctx.ob(tag + ".base", t0 == 0, "coefficient 0 enters at degree %d, target degree %d" % (t0, op), where)
    match = {("inputs", "inputs"), ("right weights", "right inputs"), ("outputs", "outputs"), ("inputs", "right inputs"), ("right weights", "inputs")}
    for q in left:
        if q.startswith("vector"):
            match.add((q, q))
    for l in left:
        for r in right:
            s = left[l] + right[r]
            if (l, r) in match:
                ctx.ob("%s.match.%s.%s" % (tag, l, r), s == op, "left %s at %d, right %s at %d, target %d" % (l, left[l], r, right[r], op), where)
            else:
                ctx.ob("%s.apart.%s.%s" % (tag, l, r), s != op, "left %s at %d, right %s at %d, target %d" % (l, left[l], r, right[r], op), where)
    top = max(left.values()) + max(right.values())
    for d in range(top + 1):
        if d == op:
            continue
        if d >= len(T_):
            ctx.ob("%s.T%d" % (tag, d), False, "no coefficient commitment for degree %d" % d, where)
            continue
        ctx.ob("%s.T%d" % (tag, d), deg(T_[d]) == d if T_[d] in co else False, "coefficient commitment %d enters at degree %s" % (d, deg(T_[d])), where)


def sole(s):
    return next(iter(s)) if len(s) == 1 else None
