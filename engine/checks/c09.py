"""The proof returned by the prover is computed in closed form from the typed source for a symbolic witness (any number of
multipliers and constraints, several numbers of vector commitments, both phases). Every commitment in it is taken apart:
the coefficient of the blinding base has to be one random draw, drawn from an unpredictable generator, and the draws of
different commitments have to be different draws. Commitments without witness data are the masks: each of their
coefficients has to be its own random draw at every position. The opened blinding sums have to contain a draw with a
non-zero challenge coefficient, and every position of the two opened vectors (the arguments of the inner-product proof)
has to contain its own mask draw with a non-zero challenge coefficient."""
from prover import *
import numeric

RULE = "blinding coefficient = one fresh draw per commitment; masks = one fresh draw per position; openings contain a mask draw"
FLOOR = 80
ASSUMPTIONS = ["UniformRand::rand is uniform given an unpredictable generator", "challenges are non-zero", "a deferred callback acts only through the API"]


def run(ctx):
    runs = ((1, 0), (1, 1), (1, 2), (2, 0)) if ctx.tier == "quick" else [(1, n) for n in range(0, 7)] + [(2, 0), (2, 1)]
    for cfg, prog in ctx.configs():
        for ph, nc in runs:
            t = "%s.phase%d.vec%d" % (cfg, ph, nc)
            with ctx.guard(t):
                one(ctx, prog, t, ph, nc)


def cases(t, pc):
    t = restrict(t, pc)
    if t.op == "ite":
        c = atom_cond(t.args[0])
        for v, p in ((t.args[1], b_and(pc, c)), (t.args[2], b_and(pc, b_not(c)))):
            if p is not FALSE:
                yield from cases(v, p)
    else:
        yield t, pc


def segs(L):
    out, o = [], ZERO
    for s in (L.args[0] if L.op == "cat" else [L]):
        if s.op == "lst":
            for j, x in enumerate(s.args[0]):
                out.append((padd(o, num(j)), ONE, x, None))
        else:
            i = fresh("i")
            out.append((o, slen(s), at(s, i), i))
        o = padd(o, slen(s))
    return out


def simp(t, facts, pc):
    save, FACTS[0] = FACTS[0], tuple(facts)
    try:
        t = given(t, list(facts))
    finally:
        FACTS[0] = save
    return restrict(t, pc)


LENS = {}


def draws(t):
    return sorted({x for x in subterms(t) if x.op == "rng"}, key=lambda x: x.id)


def is_draw(t, tag=None):
    return t.op == "rng"


def secret(t, roots):
    """does a value of the witness occur (its lengths and the challenges are public)?"""
    t = subst_term(t, LENS)
    st, seen = [t], set()
    while st:
        x = st.pop()
        if x in seen or x.op == "app" and x.args[0] == "cs":
            continue
        seen.add(x)
        if x in roots or x.op == "app" and isinstance(x.args[0], str) and x.args[0].startswith("cb_a_"):
            return True
        st.extend(children(x))
    return False


def hide(t):
    """challenges are opaque non-zero scalars; what they are computed from is public"""
    tops, st, seen = set(), [t], set()
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "app" and x.args[0] == "cs":
            tops.add(x)
            CS.setdefault(x, fresh("challenge"))
        else:
            st.extend(children(x))
    return subst_term(t, {x: CS[x] for x in tops})


CS = {}


def injective(idx, i):
    for d in idx:
        cf = coef_of(d, i) if i is not None else None
        if cf is not None and numval(cf[0]) in (1, -1) and i not in syms(cf[1]):
            return True
    return False


def one(ctx, prog, tag, ph, nc):
    r = run_prove(prog, ph, ncomm=nc, opaque=("create",))
    ctx.unit("root", r.f["p"])
    for x in r.I.analysed:
        ctx.unit("function", x)
    where = r.f["sp"]
    okc = r.ok()
    if okc is FALSE:
        return ctx.ob(tag + ".success", None, "no successful path", where)
    v = r.okval()
    proof = field(v, "0") if v.op == "tup" else v
    if proof.op != "adt":
        return ctx.ob(tag + ".proof", None, "proof is not in closed form: %s" % show(proof)[:200], where)
    me = r.argsym[0]
    sec = get(me, ("secrets",))
    roots = {sec, get(me, ("secrets", "a_L")), get(me, ("secrets", "a_R")), get(me, ("secrets", "a_O")), get(me, ("secrets", "v")),
             get(me, ("secrets", "v_blinding"))} | {sym("vb%d" % j) for j in range(nc)} | {sym("vv%d" % j) for j in range(nc)}
    bb = field(field(me, "pc_gens"), "B_blinding")
    same = {slen(get(me, ("secrets", x))): slen(get(me, ("secrets", "a_L"))) for x in ("a_R", "a_O")}
    LENS.clear()
    for x in sorted(roots, key=lambda x: x.id):
        LENS[slen(x)] = fresh("n")
    base = list(facts_from(okc))
    # ---------------- commitments
    pts = []
    for n, x in proof.args[2]:
        items = [(n, x)]
        if x.op in ("lst", "cat", "map", "upd"):
            ln = numval(slen(x))
            if ln is None:
                ctx.ob("%s.%s" % (tag, n), None, "list of unknown length", where)
                continue
            items = [("%s%d" % (n, j), at(x, num(j))) for j in range(int(ln))]
        for nm, y in items:
            for leaf, pc in cases(y, okc):
                if leaf.op == "app" and leaf.args[0] == "msm":
                    pts.append((nm, leaf, pc))
    ctx.ob(tag + ".count", True if len(pts) >= 3 else None, "%d commitments found" % len(pts), where)
    used = {}
    blind = []
    masks = []
    for nm, m, pc in pts:
        key = "%s.%s" % (tag, nm)
        ctx.unit("commitment", key)
        P, S = m.args[1:3]
        fs = base + list(facts_from(pc))
        P, S = (simp(subst_term(x, same), fs, pc) for x in (P, S))
        b = ZERO
        rest = []
        for o, ln, p, i in segs(P):
            if p is bb:
                b = padd(b, simp(at(S, o), fs, pc))
            else:
                f2 = fs + ([pneg(i), padd(psub(i, ln), ONE)] if i is not None else [])
                rest.append((p, i, ln, simp(at(S, padd(o, i) if i is not None else o), f2, pc), f2))
        if not is_draw(b):
            d = draws(b)
            st = None
            if not d and known_term(b):
                st = False
            ctx.ob(key + ".blinding", st, "coefficient of the blinding base: %s" % show(b)[:300], where)
        else:
            ctx.ob(key + ".blinding", True, "coefficient of the blinding base is the draw %s" % show(b), where)
            check_rng(ctx, key + ".source", r.trace, b)
        for d in draws(b):
            k = (d.args[0], d.args[1])
            prev = used.get(k)
            ctx.ob(key + ".own", prev is None if prev is None or is_draw(b) else None, "draw %s %s" % (show(d), "not used by another commitment" if prev is None else "also blinds %s" % prev), where)
            used.setdefault(k, nm)
        blind.append((nm, b, pc))
        if not any(secret(s, roots) for p, i, ln, s, f2 in rest) and any(i is not None for p, i, ln, s, f2 in rest):
            masks.append((nm, rest, pc, b))
    # ---------------- masks
    need = 1 if ph == 1 else 2
    ctx.ob(tag + ".masks", True if len(masks) >= need else None, "mask commitments: %s" % ", ".join(x[0] for x in masks), where)
    maskdraws = {}
    for nm, rest, pc, b in masks:
        seen = {}
        for p, i, ln, s, f2 in rest:
            if i is None:
                continue
            role = p.args[0] if p.op == "app" else show(p)[:20]
            key = "%s.%s.%s" % (tag, nm, role)
            for leaf, lf in positions(s, f2, pc):
                if not is_draw(leaf):
                    # a position that only exists outside the range is not reached
                    st = False if not draws(leaf) and known_term(leaf) and numeric.reach(TRUE, lf)[0] == "reached" else None
                    ctx.ob(key, st, "coefficient of %s: %s" % (show(p)[:80], show(leaf)[:200]), where)
                    continue
                inj = injective(leaf.args[1], i)
                ctx.ob(key, True if inj else False, "coefficient of %s is the draw %s" % (show(p)[:80], show(leaf)), where)
                check_rng(ctx, key + ".source", r.trace, leaf)
                if p.op != "app":
                    continue
                o = seen.get(leaf.args[0])
                if o is not None and o[0] != role:
                    ctx.ob(key + ".own", False if psub(o[1].args[1][-1], o[2]) is psub(leaf.args[1][-1], i) else None,
                           "the draws %s and %s mask two vectors" % (show(o[1]), show(leaf)), where)
                else:
                    ctx.ob(key + ".own", True, "draws at %s are used for this vector only" % leaf.args[2], where)
                seen.setdefault(leaf.args[0], (role, leaf, i))
                ctx.ob(key + ".apart", (leaf.args[0], leaf.args[1]) not in used, "mask draws differ from the blinding draws", where)
                maskdraws.setdefault(role, {})[leaf.args[0]] = nm
    # ---------------- openings
    mb = [b for nm, rest, pc, b in masks]
    for n, x in proof.args[2]:
        if not any(l.op in ("adt", "app", "lst", "cat", "map", "upd") for l in leaves(restrict(x, okc))):
            x = hide(restrict(x, okc))
        ds = set(draws(x)) if x.op not in ("lst", "cat", "map", "upd") else set()
        if x.op == "app" or not any(secret_scalar(l, roots) for l in leaves(x)) and not ds:
            continue
        if any(l.op == "app" and l.args[0] == "msm" for l in leaves(x)) or x.op in ("lst", "cat", "map", "upd", "adt"):
            continue
        key = "%s.open.%s" % (tag, n)
        hit = []
        for d in sorted(ds, key=lambda y: y.id):
            cf = coef_of(x, d)
            if cf is None or cf[0] is not ZERO:
                hit.append(d)
        direct = {b for _, b, _ in blind if is_draw(b)} & set(ds)
        if direct:
            # a sum of blindings: one of them has to belong to a commitment that carries no witness, or to t(x)
            good = [d for d in mb if d in direct] or [d for nm, d, _ in blind if d in direct and nm.startswith("T")]
            ctx.ob(key, True if good else (False if known_sum(x) else None), "opened sum of blindings contains %s" % (show(good[0]) if good else "no mask"), where)
        else:
            ctx.ob(key, True if hit else (False if known_term(x) else None), "opened value contains %d mask draws" % len(hit), where)
    # ---------------- opened vectors
    vecs = []
    for e, cl in events(r.trace):
        if e.kind == "call":
            for a in e.data[1:]:
                if isinstance(a, T) and a.op in ("map", "cat", "smap", "upd", "slice") and secret(a, roots):
                    vecs.append((e, a))
    if not vecs:
        return ctx.ob(tag + ".vectors", None, "the inner-product arguments were not found", where)
    seen = {}
    for j, (e, a) in enumerate(vecs):
        a = subst_term(a, same)
        off = ZERO
        for sidx, s in enumerate(a.args[0] if a.op == "cat" else [a]):
            ln = slen(s)
            i = fresh("i")
            f2 = base + [pneg(i), padd(psub(i, ln), ONE)]
            x = simp(at(s, i), f2, okc)
            key = "%s.vector%d.%d" % (tag, j, sidx)
            if not secret(x, roots):
                continue
            for leaf, lf in positions(x, f2, okc):
                if not secret(leaf, roots):
                    continue
                leaf = hide(leaf)
                good = []
                for d in draws(leaf):
                    if not injective(d.args[1], i):
                        continue
                    cf = coef_of(leaf, d)
                    if cf is not None and cf[0] is not ZERO and not draws(cf[0]) and not secret(cf[0], roots) and any(d.args[0] in m for m in maskdraws.values()):
                        good.append(d)
                if good:
                    ctx.ob(key, True, "position i contains its own mask draw %s with coefficient %s" % (show(good[0]), show(coef_of(leaf, good[0])[0])[:120]), where)
                    for d in good:
                        ctx.ob(key + ".own", seen.get(d.args[0], j) == j, "mask draws of the two vectors differ", where)
                        seen[d.args[0]] = j
                else:
                    ctx.ob(key, False if not draws(leaf) and known_term(leaf) and numeric.reach(TRUE, lf)[0] == "reached" else None, "no mask at a position: %s" % show(leaf)[:300], where)


def positions(x, fs, pc):
    """the value at a position, one case per range the position can lie in"""
    c = None
    for m, _ in (monos(x) if x.op == "poly" else ((((x, 1),), 1),)):
        for a, e in m:
            if a.op == "ite":
                c = atom_cond(a.args[0])
                break
        if c is not None:
            break
    if c is None:
        yield x, fs
        return
    for b in (c, b_not(c)):
        f2 = list(fs) + list(facts_from(b))
        if infeasible(f2):
            continue
        yield from positions(simp(x, f2, b), f2, pc)


def infeasible(fs):
    """facts of the form p <= 0 that contradict each other pairwise"""
    for f in fs:
        if isinstance(f, T) and numval(pneg(f)) is not None and numval(f) > 0:
            return True
        save, FACTS[0] = FACTS[0], tuple(g for g in fs if g is not f)
        try:
            if isinstance(f, T) and le0(f) is FALSE:
                return True
        finally:
            FACTS[0] = save
    return False


def known_sum(x):
    return known_term(x)


def secret_scalar(t, roots):
    return secret(t, roots)


def known_term(t):
    """no uninterpreted function occurs (apart from challenges, generators and commitments)"""
    for x in subterms(t):
        if x.op == "app" and x.args[0] not in ("cs", "msm", "G", "H", "pow", "cb_a_L", "cb_a_R", "cb_a_O"):
            return False
    return True
