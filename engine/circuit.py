"""Circuits as the gadgets build them: the constraint-system interface is replaced by a recorder, and the gadget is analysed to the
list of allocations, multiplication gates and constraints it issues. Linear combinations are polynomials of degree one over wires."""
from prover import *
from session import *
from models import ld, var_num
import numeric

CSP = "cs"


def cs_value(tr=None):
    return adt(CSP, CSP, (("n", ZERO), ("tr", tr if tr is not None else sym("tr0"))))


def _cs(I, a, st):
    r = I.through(a, st) if a.op == "ref" else None
    if r is None:
        return None, None
    v = I.load(r, st)
    return (r, v) if v.op == "adt" and v.args[0] == CSP else (None, None)


def wire(n):
    return app("w", n)


def bump(r, v, k):
    return adt(CSP, CSP, (("n", padd(field(v, "n"), num(k))), ("tr", field(v, "tr"))))


def m_allocate(I, f, args, st, fr, e):
    r, v = _cs(I, args[0], st)
    if r is None:
        return None
    n = field(v, "n")
    I.store(r, bump(r, v, 1), st)
    I.ev("alloc", (wire(n), I.pure(ld(I, args[1], st), st)), st, e.get("sp"), fr)
    return ok(wire(n))


def m_allocmul(I, f, args, st, fr, e):
    r, v = _cs(I, args[0], st)
    if r is None:
        return None
    n = field(v, "n")
    a, b, o = wire(n), wire(padd(n, ONE)), wire(padd(n, num(2)))
    I.store(r, bump(r, v, 3), st)
    I.ev("allocmul", (a, b, o, I.pure(ld(I, args[1], st), st)), st, e.get("sp"), fr)
    return ok(mk("tup", (a, b, o)))


def m_multiply(I, f, args, st, fr, e):
    r, v = _cs(I, args[0], st)
    if r is None:
        return None
    l, rr = (var_num(I.pure(ld(I, a, st), st)) for a in args[1:3])
    n = field(v, "n")
    o = wire(n)
    I.store(r, bump(r, v, 1), st)
    I.ev("mul", (l, rr, o), st, e.get("sp"), fr)
    return mk("tup", (l, rr, o))


def m_constrain(I, f, args, st, fr, e):
    r, v = _cs(I, args[0], st)
    if r is None:
        return None
    I.ev("con", (var_num(I.pure(ld(I, args[1], st), st)),), st, e.get("sp"), fr)
    return UNIT


def m_transcript(I, f, args, st, fr, e):
    r, v = _cs(I, args[0], st)
    if r is None:
        return None
    return ref(r.args[0], tuple(r.args[1]) + (("f", "tr"),))


def m_scalar_mul(I, f, args, st, fr, e):
    return pmul(var_num(I.pure(ld(I, args[0], st), st)), I.pure(ld(I, args[1], st), st))


CSM = {"local::ConstraintSystem::allocate": m_allocate, "local::ConstraintSystem::allocate_multiplier": m_allocmul, "local::ConstraintSystem::multiply": m_multiply,
       "local::ConstraintSystem::constrain": m_constrain, "local::ConstraintSystem::transcript": m_transcript,
       "local::linear_combination::scalar_mul": m_scalar_mul,
       "affine::new": lambda I, f, args, st, fr, e: app("affine::new", *[I.pure(ld(I, a, st), st) for a in args[:2]])}


def gadget(prog, name, over=None, models=None, path=None, budget=4000000, consts=None):
    """analyse gadget `name` on a recording constraint system"""
    fs = [f for f in prog.byname.get(name, []) if not prog.is_test(f) and f["kind"] != "Closure" and (path is None or path in f["p"])]
    if len(fs) != 1:
        raise Anchor("gadget %s (%d)" % (name, len(fs)))
    f = fs[0]

    def setup(run, st):
        run.I.PEEL = 600
        run.I.consts = consts or {}
        for i, p in enumerate(f["params"]):
            t = prog.types[f["crate"]][p["t"]]
            if t["k"] == "ref" and t.get("m") and prog.types[f["crate"]][t["t"]]["k"] == "param":
                st.mem[run.locs[i]] = cs_value()
                run.cs = i
    ov = {}
    names = [p["pat"]["name"] if "pat" in p and p["pat"]["k"] == "bind" else "" for p in f["params"]]
    for k, v in (over or {}).items():
        ov[names.index(k) if isinstance(k, str) else k] = v
    return Run(prog, f, models=dict(CSM, **(models or {})), lcnum=True, over=ov, setup=setup, budget=budget)


# ---------------------------------------------------------------- the circuit issued, and its solutions
P = (1 << 127) - 1


class Gap(Exception):
    """something in the circuit the analysis does not understand"""


class Circ:
    """gates (l, r, o) and constraints (form = 0), in order; forms are polynomials over wires and public values"""

    def __init__(self, run):
        self.run = run
        self.gates, self.cons, self.atoms, self.order = [], [], set(), []
        self.guarded = []
        pc = run.st.pc
        for e, loops in events(run.trace):
            if e.kind not in ("alloc", "allocmul", "mul", "con"):
                continue
            if loops:
                raise Gap("%s in a loop of unknown length" % e.kind)
            g = TRUE
            if e.guard is not TRUE and implied_by(pc, e.guard) is not True:
                g = restrict(e.guard, pc) if pc is not FALSE else e.guard
            it = (e.kind, e.data, g, e.sp)
            self.order.append(it)
        if run.I.unknown:
            raise Gap("not modelled: " + ", ".join(sorted(run.I.unknown)))


def implied_by(pc, g):
    if pc is g:
        return True
    return b_and(pc, b_not(g)) is FALSE


def inv(a):
    return pow(a, P - 2, P)


def sqrt(a):
    a %= P
    r = pow(a, (P + 1) // 4, P)
    return r if r * r % P == a else None


class Curve:
    """a short Weierstrass curve over the test field, for valuing point terms"""

    def __init__(self, rnd, a=None, b=None):
        self.a = rnd.randrange(1, P) if a is None else a
        self.b = rnd.randrange(1, P) if b is None else b
        self.rnd = rnd

    def rhs(self, x):
        return (x * x * x + self.a * x + self.b) % P

    def point(self):
        while True:
            x = self.rnd.randrange(P)
            y = sqrt(self.rhs(x))
            if y is not None:
                return (x, y if self.rnd.random() < .5 else P - y)

    def add(self, p, q):
        if p is None:
            return q
        if q is None:
            return p
        if p[0] == q[0]:
            if (p[1] + q[1]) % P == 0:
                return None
            s = (3 * p[0] * p[0] + self.a) * inv(2 * p[1]) % P
        else:
            s = (q[1] - p[1]) * inv(q[0] - p[0]) % P
        x = (s * s - p[0] - q[0]) % P
        return (x, (s * (p[0] - x) - p[1]) % P)

    def neg(self, p):
        return None if p is None else (p[0], -p[1] % P)

    def mul(self, k, p):
        if k < 0:
            return self.mul(-k, self.neg(p))
        r = None
        while k:
            if k & 1:
                r = self.add(r, p)
            p = self.add(p, p)
            k >>= 1
        return r


def chord(p, q):
    s = (q[1] - p[1]) * inv(q[0] - p[0]) % P
    x = (s * s - p[0] - q[0]) % P
    return (x, (s * (p[0] - x) - p[1]) % P)


class Forms:
    """affine forms over unknowns: {unknown: coefficient}, constant under key None"""

    def __init__(self, value, unknown):
        self.value, self.unknown = value, unknown      # value(atom) -> int or None; unknown(atom) -> bool
        self.memo = {}

    def of(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self.memo[t] = self._of(t)
        return r

    def _of(self, t):
        if t.op == "ite":
            c = self.cond(t.args[0])
            return self.of(t.args[1] if c else t.args[2])
        if t.op != "poly":
            if self.unknown(t):
                return {t: 1}
            v = self.atom(t) % P
            return {None: v} if v else {}
        out = {}
        for m, c in t.args[0]:
            v = c.numerator * inv(c.denominator) % P if hasattr(c, "denominator") and c.denominator != 1 else int(c) % P
            lin = None
            for a, e in m:
                if self.unknown(a):
                    if lin is not None or e != 1:
                        raise Gap("a combination that is not linear: " + show(t)[:120])
                    lin = a
                    continue
                if a.op == "ite":
                    f = self.of(a)
                    if set(f) - {None}:
                        if lin is not None or e != 1 or len(f) != 1:
                            raise Gap("a combination that is not linear: " + show(t)[:120])
                        lin, k = next(iter(f.items()))
                        v = v * k % P
                        continue
                    x = f.get(None, 0)
                else:
                    x = self.atom(a)
                if not isinstance(e, int):
                    raise Gap("exponent " + show(e))
                v = v * (pow(x, e, P) if e >= 0 else pow(inv(x), -e, P)) % P
            out[lin] = (out.get(lin, 0) + v) % P
        return {k: v for k, v in out.items() if v}

    def atom(self, a):
        if a.op == "poly":
            f = self.of(a)
            if set(f) - {None}:
                raise Gap("divides by an unknown: " + show(a)[:100])
            return f.get(None, 0)
        v = self.value(a)
        if v is None:
            raise Gap("no value for " + show(a)[:120])
        return v

    def cond(self, c):
        c = atom_cond(c) if c.op not in ("ite", "true", "false") else c
        while c.op == "ite":
            a = c.args[0]
            c = c.args[1] if self.test(a) else c.args[2]
        return c is TRUE

    def test(self, a):
        if a.op == "eq0":
            f = self.of(a.args[0])
            if set(f) - {None}:
                raise Gap("branches on an unknown: " + show(a)[:120])
            return f.get(None, 0) == 0
        raise Gap("branches on " + show(a)[:120])


def ratio(f, g):
    """q such that f - q g is constant, if there is one (None otherwise)"""
    ks = [k for k in f if k is not None]
    if not ks:
        return 0
    if len(ks) != len(g) - (None in g) or any(k not in g for k in ks):
        return None
    q = f[ks[0]] * inv(g[ks[0]]) % P
    return q if all((f[k] - q * g[k]) % P == 0 for k in ks[1:]) else None


def put(u, c):
    return dict(u) if not c else {**u, None: c}


class Solver:
    """all assignments of the unknowns satisfying gates and constraints"""

    def __init__(self, gates, cons, rnd, limit=20000, guess=0):
        self.gates, self.cons, self.rnd, self.limit = gates, cons, rnd, limit
        self.sub = {}
        self.exhaustive = True
        self.left = limit
        self.guess = guess
        self.occ = {}
        for g in gates:
            for k in {k for f in g for k in f}:
                self.occ[k] = self.occ.get(k, 0) + 1

    # sub: unknown -> affine form; kept lazily reduced
    def red(self, f):
        if not any(k in self.sub for k in f):
            return f
        out = {}
        for k, v in f.items():
            if k in self.sub:
                g = self.red(self.sub[k])
                self.sub[k] = g
                for kk, vv in g.items():
                    out[kk] = (out.get(kk, 0) + v * vv) % P
            else:
                out[k] = (out.get(k, 0) + v) % P
        return {k: v for k, v in out.items() if v}

    def linear(self, f):
        """add f = 0; False when contradictory"""
        f = self.red(f)
        ks = [k for k in f if k is not None]
        if not ks:
            return not f
        k = min(ks, key=lambda x: self.occ.get(x, 0))
        c = inv(P - f[k])
        self.sub[k] = {kk: vv * c % P for kk, vv in f.items() if kk is not k}
        return True

    def start(self):
        for f in self.cons:
            if not self.linear(f):
                return
        yield from self.go(list(self.gates))

    def go(self, gates):
        self.nodes -= 1
        if self.left <= 0 or self.nodes <= 0:
            self.exhaustive = False
            return
        while True:
            rest, moved = [], False
            for l, r, o in gates:
                l, r, o = self.red(l), self.red(r), self.red(o)
                lc, rc = not (set(l) - {None}), not (set(r) - {None})
                if lc or rc:
                    c, x = (l.get(None, 0), r) if lc else (r.get(None, 0), l)
                    f = dict(o)
                    for k, v in x.items():
                        f[k] = (f.get(k, 0) - c * v) % P
                    if not self.linear({k: v for k, v in f.items() if v}):
                        return
                    moved = True
                else:
                    rest.append((l, r, o))
            gates = rest
            if not moved:
                break
        if not gates:
            self.left -= 1
            yield dict(self.sub)
            return
        if self.outs is not None:
            near, far = self.split(gates)
            if far:
                for part in far:
                    t = Solver(part, [], self.rnd, 1)
                    if next(t.start(), None) is None:
                        if not t.exhaustive:
                            self.exhaustive = False
                        return
                gates = near
                if not gates:
                    self.left -= 1
                    yield dict(self.sub)
                    return
        # quadratic equation in a single unknown, or a single combination u of unknowns: l = u + .., r = q u + .., o = t u + ..
        for i, (l, r, o) in enumerate(gates):
            q = ratio(r, l)
            t = ratio(o, l)
            if q is not None and t is not None:
                a = q
                b = (r.get(None, 0) + q * l.get(None, 0) - t) % P
                c = (l.get(None, 0) * r.get(None, 0) - o.get(None, 0)) % P
                s = sqrt((b * b - 4 * a * c) % P)
                if s is None:
                    return
                ia = inv(2 * a)
                u = {k: v for k, v in l.items() if k is not None}
                yield from self.branch([put(u, -z % P) for z in {(-b + s) * ia % P, (-b - s) * ia % P}], gates[:i] + gates[i + 1:], True)
                return
        for i, (l, r, o) in enumerate(gates):
            if not o:
                yield from self.branch([l, r], gates[:i] + gates[i + 1:], False)
                return
        self.exhaustive = False
        if self.guess <= 0:
            self.stuck = gates
            return
        ks = [k for l, r, o in gates for k in l if k is not None] + [k for l, r, o in gates for k in r if k is not None]
        k = ks[0]
        for z in (self.rnd.randrange(P), 0, 1):
            self.guess -= 1
            yield from self.branch([{k: 1, None: -z % P} if z else {k: 1}], gates, False)

    def split(self, gates):
        """(gates that share unknowns with the outputs, directly or not; the other groups of gates)"""
        up = {}

        def root(x):
            while up.setdefault(x, x) != x:
                up[x] = up[up[x]]
                x = up[x]
            return x
        OUT = ("out",)
        for f in self.outs:
            for k in self.red(f):
                if k is not None:
                    up[root(k)] = root(OUT)
        ks = []
        for g in gates:
            k = [x for f in g for x in f if x is not None]
            for x in k[1:]:
                up[root(x)] = root(k[0])
            ks.append(k[0])
        near, far, o = [], {}, root(OUT)
        for g, k in zip(gates, ks):
            r = root(k)
            if r == o:
                near.append(g)
            else:
                far.setdefault(r, []).append(g)
        return near, list(far.values())

    outs = None
    nodes = 100000
    policy = None
    stuck = None

    def branch(self, eqs, gates, roots):
        if roots and self.policy is not None:
            eqs = [self.policy(eqs)]
        for f in eqs:
            saved = dict(self.sub)
            if self.linear(f):
                yield from self.go(gates)
            self.sub = saved


def at_solution(sub, f, solver):
    """value of a form in a solution: int, or None when it is not determined"""
    s = solver.sub
    solver.sub = sub
    r = solver.red(f)
    solver.sub = s
    return r.get(None, 0) if not (set(r) - {None}) else None


class System:
    """a circuit with public values filled in"""

    def __init__(self, circ, value, unknown, rnd):
        self.F = Forms(value, lambda a: a.op == "app" and a.args[0] == "w" or unknown(a))
        self.gates, self.cons = [], []
        for kind, d, g, sp in circ.order:
            if g is not TRUE and not self.F.cond(g):
                continue
            if kind == "con":
                self.cons.append(self.F.of(d[0]))
            elif kind in ("mul", "allocmul"):
                self.gates.append((self.F.of(d[0]), self.F.of(d[1]), self.F.of(d[2])))
        self.rnd = rnd

    def solve(self, outs, extra=(), limit=20000, guess=0, policy=None, relevant=False):
        """(set of output tuples, some outputs undetermined?, exhaustive?)"""
        s = Solver(self.gates, self.cons + list(extra), self.rnd, limit, guess)
        s.policy = policy
        fo = [self.F.of(o) if not isinstance(o, dict) else o for o in outs]
        s.outs = fo if relevant else None
        res, free = {}, False
        for sub in s.start():
            v = tuple(at_solution(sub, f, s) for f in fo)
            if None in v:
                free = True
            res[v] = sub
        return res, free, s.exhaustive


def reaches(sys_, form, target, nodes=400):
    """an assignment satisfying the circuit in which the form takes the target value is found"""
    f = dict(sys_.F.of(form))
    f[None] = (f.get(None, 0) - target) % P
    s = Solver(sys_.gates, sys_.cons + [{k: v for k, v in f.items() if v}], sys_.rnd, 1, 8)
    s.nodes = nodes
    for sub in s.start():
        return True
    return False


def verdict(sys_, outs, expected, what, limit=20000, relevant=False):
    """the outputs the constraints allow are exactly the expected ones"""
    res, free, full = sys_.solve(outs, limit=limit, relevant=relevant)
    if free:
        return False, "%s: not determined by the constraints" % what
    bad = [v for v in res if v not in expected]
    if bad:
        return False, "%s: the constraints allow %s, expected one of %d values" % (what, bad[0], len(expected))
    if not full:
        r2, free2, _ = sys_.solve(outs, guess=6, limit=64, relevant=relevant)
        if free2 or any(v not in expected for v in r2):
            return False, "%s: the constraints allow a value other than the %d expected" % (what, len(expected))
        return None, "%s: solutions not enumerated" % what
    miss = [v for v in expected if v not in res]
    if miss:
        return False, "%s: %d of %d expected values are refused" % (what, len(miss), len(expected))
    return True, "%s: exactly the %d expected values" % (what, len(expected))


# ---------------------------------------------------------------- arguments by type
NONE_ = adt("core::option::Option", "None", ())


def find(prog, name, path=None):
    fs = [f for f in prog.byname.get(name, []) if not prog.is_test(f) and f["kind"] != "Closure" and "itrait" not in f and (path is None or path in f["p"])]
    if len(fs) != 1:
        raise Anchor("gadget %s (%d)" % (name, len(fs)))
    return fs[0]


def roles(prog, f):
    """positions of the parameters by kind of type, in order: {'lc': [..], 'option': [..], 'usize': [..], 'cs': [..], 'point': .., ...}"""
    out = {}
    T = prog.types[f["crate"]]
    for i, p in enumerate(f["params"]):
        t = T[p["t"]]
        m = False
        while t["k"] == "ref":
            m = m or t.get("m")
            t = T[t["t"]]
        k = t["p"].split("::")[-1] if t["k"] == "adt" else t["s"]
        if m and t["k"] == "param":
            k = "cs"
        out.setdefault(k, []).append(i)
    return out


class Vals:
    """random values for public symbols, fixed values for some terms"""

    def __init__(self, rnd, fixed=None):
        self.rnd, self.fixed, self.memo = rnd, dict(fixed or {}), {}

    def __call__(self, a):
        if a in self.fixed:
            return self.fixed[a]
        if a.op == "sym" or (a.op == "app" and a.args[0] == "in"):
            return self.memo.setdefault(a, self.rnd.randrange(P))
        return None


def pub(*k):
    """a public input of the gadget"""
    return app("in", *[num(x) if isinstance(x, int) else mk("str", x) for x in k])


def specials(circ, vals):
    """valuations that make the conditions on public values some event depends on true: [(text, fixed)]"""
    out, seen = [], set()
    for kind, d, g, sp in circ.order:
        for x in set(subterms(g)) | {y for z in d if hasattr(z, "op") for y in subterms(z) if y.op == "eq0"}:
            if x.op != "eq0" or x in seen:
                continue
            seen.add(x)
            t = x.args[0]
            ins = [a for a in set(subterms(t)) if a.op == "sym" or (a.op == "app" and a.args[0] == "in")]
            done = False
            for a in sorted(ins, key=repr):
                F = Forms(vals, lambda b: b is a)
                try:
                    f = F.of(t)
                except Gap:
                    continue
                if set(f) - {None} == {a}:
                    out.append((show(x)[:80], {a: -f.get(None, 0) * inv(f[a]) % P}))
                    done = True
                    break
            if not done:
                out.append((show(x)[:80], None))
    return out


def units(ctx, r, key, s=None):
    for p in r.I.analysed:
        ctx.unit("functions", p)
    if s is not None:
        ctx.unit("circuits", "%s: %d gates, %d constraints" % (key, len(s.gates), len(s.cons)))


def normal(ctx, key, r, where, allowed=None):
    """the gadget does not fail or panic on public inputs"""
    c = r.st.pc
    if r.pval is not BOT and r.pval.op in ("adt", "ite") and any(l.op == "adt" and l.args[0].endswith("Result") for l in leaves(r.pval)):
        c = r.ok()
    ctx.ob(key + ".returns", True if c is TRUE else None, "the gadget completes: %s" % show(c)[:100], where)


class PointForms(Forms):
    def __init__(self, points, value):
        super().__init__(value, lambda a: False)
        self.points = points

    def test(self, a):
        if a.op == "eq0" and self.points.is_point(a.args[0]):
            return self.points.point(a.args[0]) is None
        return super().test(a)


class Points(Vals):
    """values of field terms in which coordinates of curve points occur: sums of point symbols and explicit points, with scalars"""

    def __init__(self, rnd, curve, fixed=None, points=None, scalars=None):
        super().__init__(rnd, fixed)
        self.curve, self.points, self.pm = curve, dict(points or {}), {}
        self.scalars = scalars or (lambda a: None)
        self.F = self.forms(self)

    def forms(self, value):
        return PointForms(self, value)

    def is_point(self, a):
        return a in self.points or a.op == "app" and a.args[0] == "affine::new" or a.op == "poly" and any(self.is_point(x) for m, c in a.args[0] for x, e in m) \
            or a.op == "ite" and (self.is_point(a.args[1]) or self.is_point(a.args[2]))

    def __call__(self, a):
        v = super().__call__(a) if a not in self.points else None
        if v is not None:
            return v
        if a.op == "app" and a.args[0] in ("xcoord", "ycoord"):
            q = self.point(a.args[1])
            return None if q is None else q[0 if a.args[0] == "xcoord" else 1]
        if a.op == "fld" and a.args[2] in ("x", "y"):
            q = self.point(a.args[0])
            return None if q is None else q["xy".index(a.args[2])]
        return None

    def point(self, t):
        r = self.pm.get(t)
        if r is None:
            r = self.pm[t] = self._point(t)
        return r

    def _point(self, t):
        if t in self.points:
            return self.points[t]
        if t.op == "ite":
            return self.point(t.args[1] if self.F.cond(t.args[0]) else t.args[2])
        if t.op == "app" and t.args[0] == "affine::new":
            q = (self.value(t.args[1]), self.value(t.args[2]))
            if (q[1] * q[1] - self.curve.rhs(q[0])) % P:
                raise Gap("a point off the curve: " + show(t)[:100])
            return q
        if t.op != "poly":
            raise Gap("no value for the point " + show(t)[:100])
        out = None
        for m, c in t.args[0]:
            k, q = c, None
            for a, e in m:
                if e == 1 and q is None and (a in self.points or a.op == "app" and a.args[0] == "affine::new" or a.op == "ite"):
                    q = self.point(a)
                    continue
                x = self.scalars(a)
                if x is None or not isinstance(e, int) or e < 0:
                    raise Gap("no scalar value for " + show(a)[:100])
                k = k * x ** e
            if getattr(k, "denominator", 1) != 1:
                raise Gap("a fraction of a point")
            out = self.curve.add(out, self.curve.mul(int(k), q))
        return out

    def value(self, t):
        f = self.F.of(t)
        return f.get(None, 0)


def satisfied(circ, vals, where):
    """(ok, text): the assignments the gadget gives to its wires satisfy every gate and constraint"""
    env = {}

    class V:
        def __call__(self, a):
            if a in env:
                return env[a]
            return vals(a)
    F = vals.F = vals.forms(V()) if hasattr(vals, "forms") else Forms(V(), lambda a: False)
    n = 0
    for kind, d, g, sp in circ.order:
        if g is not TRUE and not F.cond(g):
            continue
        if kind in ("alloc", "allocmul"):
            w, a = d[0], d[-1]
            while a.op == "ite":
                a = a.args[1] if F.cond(a.args[0]) else a.args[2]
            if a.op != "adt" or a.args[1] != "Some":
                return False, "%s gets no assignment from the prover (%s)" % (show(w), show(a)[:80])
            v = vfield(a, "Some", "0")
            if kind == "alloc":
                env[w] = F.of(v).get(None, 0)
            else:
                l, r = (F.of(field(v, k)).get(None, 0) for k in "01")
                env[d[0]], env[d[1]], env[d[2]] = l, r, l * r % P
        elif kind == "mul":
            env[d[2]] = F.of(d[0]).get(None, 0) * F.of(d[1]).get(None, 0) % P
        elif kind == "con":
            n += 1
            if F.of(d[0]):
                return False, "constraint %d (%s) is not satisfied by the honest assignment: %s" % (n, sp, show(d[0])[:120])
    return True, "%d constraints satisfied by the honest assignment" % n
