"""Shared analysis of the R1CS verifier: its runs, the roles of its challenges and the segments of its equation."""
from rules import *
from interp import St

INC = "bulletproofs"


def gens_sym(s):
    """a symbolic generator table: entry i of party p is G(p,i) / H(p,i)"""
    cap, pc = field(s, "gens_capacity"), field(s, "party_capacity")
    return adt("bulletproofs::generators::BulletproofGens", "BulletproofGens", (
        ("gens_capacity", cap), ("party_capacity", pc),
        ("G_vec", mapk(pc, lambda p: mapk(cap, lambda i: app("G", p, i)))),
        ("H_vec", mapk(pc, lambda p: mapk(cap, lambda i: app("H", p, i))))))


def gens_over(f, prog):
    """parameter overrides: every BulletproofGens parameter becomes the symbolic table"""
    over = {}
    for i, p in enumerate(f["params"]):
        t = prog.types[f["crate"]][p["t"]]
        while t["k"] == "ref":
            t = prog.types[f["crate"]][t["t"]]
        if t["k"] == "adt" and t["p"].endswith("::BulletproofGens"):
            over[i] = gens_sym
    return over


def verifier_fields(prog):
    for p, a in prog.adts.items():
        if a.get("local") and p.endswith("::Verifier"):
            return [f[0] for f in a["v"][0][1]]
    raise Anchor("struct Verifier")


def run_verify(prog, phase=1, rawmsm=True, name="verify", **k):
    f = prog.fn1(name, self_adt="Verifier")
    hook = None
    if phase == 1:
        assume = lambda r: eq0(slen(field(r.args[0], "deferred_constraints")))
    else:
        hook = callbacks(prog)
        assume = None
        k["setup"] = set_deferred([F1])
    return Run(prog, f, assume=assume, models=cs_summary(prog), over=gens_over(f, prog), rawmsm=rawmsm, cbhook=hook, **k)


# ---------------------------------------------------------------- proving identities under integer facts
def contradictory(facts):
    for f in facts:
        if le0(f) is FALSE:
            return True
    from terms import _le_by1
    for i, f in enumerate(facts):
        # f <= 0 contradicts the others when 1 <= f follows from them
        rest = [g for j, g in enumerate(facts) if j != i]
        save, FACTS[0] = FACTS[0], ()
        try:
            if _le_by1(psub(ONE, f), rest):
                return True
        finally:
            FACTS[0] = save
    return False


def has_bound(t):
    return bool(freebv(t))


def pick(d):
    """the smallest decision occurring in d that mentions no bound variable"""
    best = None
    for t in subterms(d):
        if t.op == "ite":
            a = t.args[0]
            if not freebv(a) and (best is None or size(a) < size(best)):
                best = a
    return best


def size(t):
    s = t._sz
    if s is None:
        s = 1
        for c in children(t):
            s += size(c)
        t._sz = s
    return s


def replace_atoms(d, m):
    """decisions on the atoms of m taken as given"""
    memo = {}

    def go(x):
        if not children(x):
            return x
        r = memo.get(x)
        if r is not None:
            return r
        if x.op == "ite" and x.args[0] in m:
            r = go(x.args[1] if m[x.args[0]] else x.args[2])
        elif x.op == "lam":
            vs = bsyms(x, av)
            b = open_(x, vs)
            b2 = go(b)
            r = x if b2 is b else lam(vs, b2)
        else:
            r = rebuild(x, go)
        memo[x] = r
        return r
    av = frozenset().union(*[syms(a) for a in m])
    return go(d)


class Steps(Exception):
    pass


def zero(d, facts, depth=0, steps=None, neqs=()):
    """None when d = 0 under the facts in every case, otherwise (residual, facts).
    facts: integer polynomials known to be <= 0"""
    if steps is None:
        steps = [2000]
    steps[0] -= 1
    if steps[0] < 0:
        raise Steps("case analysis too large")
    d = given(d, facts)
    if d is ZERO:
        return None
    if any(decide_atom(a, list(facts)) is TRUE for a in neqs):
        return None
    a = pick(d) if depth < 30 else None
    if a is not None:
        for val in (True, False):
            m = {a: val}
            if a.op == "isv" and val:
                for t in subterms(d):
                    if t.op == "isv" and t is not a and t.args[0] is a.args[0]:
                        m[t] = False
            dd = replace_atoms(d, m)
            fs = tuple(fact_of(a, val)) if a.op in ("le0", "eq0") else ()
            nf = fs + tuple(facts)
            if a.op == "eq0" and val:
                sv = solve_for(a.args[0])
                if sv is not None:
                    x, v = sv
                    dd = subst(dd, {x: v})
                    nf = tuple(subst(f, {x: v}) for f in nf)
            if fs and contradictory(nf):
                continue
            nq = neqs + ((a,) if a.op == "eq0" and not val else ())
            r = zero(dd, nf, depth + 1, steps, nq)
            if r is not None:
                return r
        return None
    # equations that follow from the inequalities
    if depth < 40:
        sy = syms(d)
        for f in facts:
            sv = solve_for(f)
            if sv is not None and sv[0] in sy and sv[0].args[0] != "self" and decide_atom_le(pneg(f), facts):
                x, v = sv
                return zero(subst(d, {x: v}), tuple(subst(g, {x: v}) for g in facts), depth + 1, steps, neqs)
    # sums over the same range are compared term by term
    groups, rest = {}, ZERO
    for m, c in monos(d):
        ss = [(x, e) for x, e in m if x.op == "sum" and e == 1]
        if len(ss) != 1:
            rest = padd(rest, mkp({m: c}))
            continue
        x = ss[0][0]
        co = mkp({tuple(y for y in m if y[0] is not x): c})
        groups.setdefault(x.args[0], []).append((co, x.args[1]))
    if not groups:
        return d, facts
    if rest is not ZERO:
        r = zero(rest, facts, depth + 1, steps, neqs) if rest is not d else (d, facts)
        if r is not None:
            return d, facts
    for n, l in groups.items():
        k = fresh("j")
        body = ZERO
        for co, b in l:
            body = padd(body, pmul(co, open_(b, (k,))))
        r = zero(body, tuple(bounds(k, n)) + tuple(facts), depth + 1, steps, neqs)
        if r is not None:
            return (d, facts)
    return None


def decide_atom_le(p, facts):
    from terms import _le_by
    return _le_by(p, list(facts))


def solve_for(p):
    """(symbol, value) when p = 0 determines a symbol with an integer polynomial"""
    for m, c in monos(p):
        if len(m) == 1 and m[0][1] == 1 and m[0][0].op == "sym":
            x = m[0][0]
            rest = pscale(psub(p, pscale(x, c)), Fraction(-1) / c)
            if x not in syms(rest) and all(isinstance(cc, int) or cc.denominator == 1 for mm, cc in monos(rest)):
                return x, rest
    return None


def judge(d, facts=(), pairs=None):
    """(True | False | None, text): is d = 0 (or are the pairs equal) under the facts?
    Equal normal forms discharge; different normal forms are compared by identity testing of the two closed forms."""
    import numeric
    why = None
    if pairs is None:
        try:
            r = zero(d, tuple(facts))
            if r is None:
                return True, "normal forms equal"
            d2, f2 = r
        except Steps as e:
            d2, f2 = d, tuple(facts)
        v = numeric.test(d2, f2)
        if v[0] != "differs" and d2 is not d:
            # the residual case may be an unreachable one
            v = numeric.test(d, tuple(facts))
            d2 = d
        if v[0] == "differs":
            return False, "difference %s (e.g. at %s)" % (show(d2)[:700], v[2])
    else:
        if all(a is b for a, b in pairs):
            return True, "normal forms equal"
        v = numeric.test(list(pairs), tuple(facts))
        if v[0] == "differs":
            bad = [(a, b) for a, b in pairs if a is not b]
            return False, "difference %s (e.g. at %s)" % ("; ".join("%s / %s" % (show(a)[:300], show(b)[:300]) for a, b in bad[:3]), v[2])
    if v[0] == "equal":
        return True, "equal by identity testing of the closed forms at %d points" % v[1]
    return None, "not compared: %s" % (v[1:],)


def opened(c):
    """c with multi-exponentiation equations (which no sampling satisfies) taken as satisfied"""
    m = {}
    for a in bdd_atoms(c):
        if a.op == "eq0" and sums_points(a):
            m[a] = True
    return replace_atoms(c, m) if m else c


def sums_points(a):
    """does a multi-exponentiation occur, other than in what a challenge was derived from?"""
    st, seen = [a], set()
    while st:
        x = st.pop()
        if x in seen or x.op == "app" and x.args[0] == "cs":
            continue
        seen.add(x)
        if x.op == "app" and x.args[0] == "msm":
            return True
        st.extend(children(x))
    return False


def implied(okc, p, facts=()):
    """(True | False | None, text): does the condition okc imply p?"""
    import numeric
    bad = b_and(okc, b_not(p))
    if bad is FALSE:
        return True, "implied by the path condition"
    fs = tuple(facts) + tuple(facts_from(okc))
    g = given(bad, list(fs))
    if g is FALSE:
        return True, "implied by the path condition"
    eqm = equalities(okc)
    good, bad = opened(okc), opened(bad)
    if eqm:
        good, bad = subst_term(good, eqm), subst_term(bad, eqm)
    v = numeric.reach(bad, facts)
    if v[0] == "reached":
        return False, "accepted although not %s (e.g. at %s)" % (show(p)[:200], v[1])
    w = numeric.reach(good, facts)
    if w[0] == "reached" and v[0] == "none":
        return True, "no counterexample among %d assignments, acceptance reachable" % v[1]
    return None, "not compared: %s %s" % (v[1:], w[1:])


# ---------------------------------------------------------------- the equation
class Equation:
    """points and scalars of the multi-exponentiation whose vanishing acceptance requires"""

    def __init__(self, ok):
        self.eqs = [a for a in bdd_atoms(ok) if a.op == "eq0" and any(x.op == "app" and x.args[0] == "msm" for x in subterms(a))]
        self.msms = []
        for a in self.eqs:
            for x in subterms(a):
                if x.op == "app" and x.args[0] == "msm" and x not in self.msms:
                    self.msms.append(x)

    def segs(self, L):
        return list(L.args[0]) if L.op == "cat" else [L]


def len_facts(*ns):
    return [pneg(n) for n in ns]


def ctx_facts(c):
    return list(facts_from(c))


def equalities(cond):
    """length equations that hold under cond, as rewriting to the simpler side"""
    m = {}
    for a in bdd_atoms(cond):
        if a.op != "eq0" or b_and(cond, b_not(atom_cond(a))) is not FALSE:
            continue
        for mon, c in monos(a.args[0]):
            if len(mon) == 1 and mon[0][0].op in ("len", "sym") and mon[0][1] == 1 and mon[0][0] not in m:
                if mon[0][0].op == "sym" and not any(x.op == "len" for x in subterms(a)):
                    continue
                x = mon[0][0]
                rest = pscale(psub(a.args[0], pscale(x, c)), Fraction(-1) / c)
                if x not in set(subterms(rest)) and not any(k in set(subterms(rest)) for k in m):
                    m[x] = rest
                    break
    return m


# ---------------------------------------------------------------- deferred callbacks
def frame_fields(prog, kind):
    """fields of the wrapped prover/verifier that a deferred callback can change: those changed by
    any method the randomizing wrapper offers (the wrapped value itself is private)"""
    changed = set()
    names = set()
    for f in prog.fns.values():
        if f["kind"] == "Closure" or prog.is_test(f) or (prog.self_adt(f) or "").split("::")[-1] != kind:
            continue
        r = Run(prog, f, models=cs_summary(prog))
        names.add(f["name"])
        if not r.locs or r.locs[0] is None:
            continue
        old = expand_type(prog, f["crate"], f["params"][0]["t"], r.argsym[0])
        new = r.out(0)
        diff(old, new, (), changed)
    return changed, names


def diff(a, b, path, out):
    if a is b:
        return
    if a.op == "adt":
        for n, x in a.args[2]:
            diff(x, field(b, n), path + (n,), out)
        return
    out.add(path)


NCB = sym("ncb")


class callbacks:
    """effect of an opaque deferred callback: it can only act through the wrapper's methods, so it
    appends constraints, allocates ncb multipliers and extends the transcript"""

    def __init__(self, prog):
        self.prog = prog
        self.calls = []
        self.frames = {}

    def __call__(self, I, c, args, st, fr, e):
        if len(args) != 1 or args[0].op != "ref":
            return None
        w = I.load(args[0], st)
        if w.op != "adt" or not w.args[0].split("::")[-1].startswith("Randomizing"):
            return None
        kind = w.args[0].split("::")[-1]
        if kind not in self.frames:
            save = TT_facts()
            self.frames[kind] = frame_fields(self.prog, kind)[0]
            set_facts(save)
        c = I.pure(c, st)
        new = w
        for path in sorted(self.frames[kind]):
            new = put(new, path, self.effect(path, get(w, path), c, st, I))
        self.calls.append((c, st.pc))
        I.ev("callback", (c,), st, e.get("sp"), fr)
        I.store(args[0], new, st)
        return app("cbres", c)

    def effect(self, path, old, c, st, I):
        n = path[-1]
        n0 = sym("ncb", c)
        if n == "num_vars":
            return padd(old, n0)
        if n in ("a_L", "a_R", "a_O"):
            return cat([old, mapk(n0, lambda i: app("cb_" + n, c, i))])
        if n == "constraints":
            return cat([old, sym("cbcons", c)])
        if n == "transcript":
            return app("cbT", old, c)
        return app("cb_" + n, c, old)


def get(v, path):
    for p in path:
        v = field(v, p)
    return v


def put(v, path, x):
    if not path:
        return x
    return mk("adt", v.args[0], v.args[1], tuple((n, put(y, path[1:], x) if n == path[0] else y) for n, y in v.args[2]))


def TT_facts():
    s = FACTS[0]
    FACTS[0] = ()
    return s


def set_facts(s):
    FACTS[0] = s


F1 = sym("F1")


def set_deferred(cbs):
    """setup hook: the deferred list of the first argument is the given list of callbacks"""
    def setup(run, st):
        v = run.args[0]
        if v.op == "ref":
            st.mem[run.locs[0]] = put(st.mem[run.locs[0]], ("deferred_constraints",), lst(cbs))
        else:
            run.args[0] = put(v, ("deferred_constraints",), lst(cbs))
    return setup
