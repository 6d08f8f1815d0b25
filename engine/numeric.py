"""Identity testing of closed-form terms: integer sizes get small values, field elements and points random residues,
opaque data random but consistent values. Used only to separate terms that differ in shape from terms that differ in
meaning; nothing of the analysed program is executed."""
import hashlib
import os
from fractions import Fraction
import terms as TT
from terms import *

P = (1 << 127) - 1
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)


class Undef(Exception):
    pass


class Fe:
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v % P

    def __eq__(self, o):
        return isinstance(o, Fe) and self.v == o.v

    def __hash__(self):
        return hash(("Fe", self.v))

    def __repr__(self):
        return "Fe(%d)" % self.v


def fe(x):
    if isinstance(x, Fe):
        return x
    if isinstance(x, Fraction):
        return Fe(x.numerator * pow(x.denominator, -1, P))
    return Fe(x)


class Opq:
    __slots__ = ("key",)

    def __init__(self, key):
        self.key = key

    def __repr__(self):
        return "Opq%r" % (self.key,)


INTCTX = {"idiv", "rem", "npo2", "ilog2", "max", "min", "cdiv", "trunc8", "trunc16", "trunc32", "trunc64"}
VARIANTS = {"Some": ("None", "Some"), "None": ("None", "Some"), "Ok": ("Ok", "Err"), "Err": ("Ok", "Err"),
            "Break": ("Continue", "Break"), "Continue": ("Continue", "Break")}


def shape(t):
    if t.op == "fld":
        return ("fld", shape(t.args[0]), t.args[1], t.args[2])
    if t.op == "at":
        return ("at", shape(t.args[0]))
    if t.op == "sym":
        return t.args
    if t.op == "app":
        return ("app", t.args[0])
    return (t.op,)


def int_shapes(ts, ineqs=()):
    """shapes of the opaque values used as integers (ineqs: integer terms known to be <= 0)"""
    out = set()

    def mark(p):
        if p.op == "poly":
            for m, c in p.args[0]:
                for a, e in m:
                    mark(a)
        elif p.op == "ite":
            mark(p.args[1])
            mark(p.args[2])
        elif p.op == "app" and p.args[0] in INTCTX:
            for x in p.args[1:]:
                mark(x)
        elif p.op in ("maxk", "sum", "prod"):
            mark(p.args[1].args[2])
        elif p.op in ("sym", "fld", "at", "app"):
            out.add(shape(p))
    seen = set()
    eqs = []
    for t in ineqs:
        mark(t)
    for t in ts:
        for x in subterms(t):
            if x in seen:
                continue
            seen.add(x)
            if x.op == "le0":
                mark(x.args[0])
            elif x.op in ("sum", "prod", "map", "exists", "rec", "maxk", "cmap"):
                mark(x.args[0])
                if x.op == "maxk":
                    mark(x.args[1].args[2])
            elif x.op == "at":
                mark(x.args[1])
            elif x.op == "slice":
                mark(x.args[1])
                mark(x.args[2])
            elif x.op == "app" and x.args[0] in INTCTX:
                for y in x.args[1:]:
                    mark(y)
            elif x.op == "poly":
                for m, c in x.args[0]:
                    for a, e in m:
                        if isinstance(e, T):
                            mark(e)
            elif x.op == "eq0":
                eqs.append(x.args[0])
    def isint(a):
        return a.op in ("bv", "len") or (a.op in ("sym", "fld", "at", "app") and shape(a) in out) or (a.op == "app" and a.args[0] in INTCTX)
    n = -1
    while n != len(out):
        n = len(out)
        for p in eqs:
            at_ = [a for m, c in monos(p) for a, e in m] if p.op == "poly" else [p]
            if any(isint(a) for a in at_):
                mark(p)
    return out


class Ev:
    def __init__(self, seed, ints, span=4, zeros=0, pool=()):
        self.pool = pool
        self.zeros = zeros
        self.seed = seed
        self.ints = ints
        self.span = span
        self.memo = {}
        self.few = ()
        self.dense = False
        self.let = {}
        self.steps = 0
        self.limit = 3000000

    def h(self, key):
        return int.from_bytes(hashlib.blake2b(repr((self.seed, key)).encode(), digest_size=16).digest(), "big")

    def ky(self, v):
        if isinstance(v, Opq):
            return v.key
        if isinstance(v, Fe):
            return ("f", v.v)
        if isinstance(v, (bool, int, str, Fraction)):
            return v
        if isinstance(v, list):
            return ("l",) + tuple(self.ky(x) for x in v)
        if isinstance(v, dict):
            return ("d",) + tuple((k, self.ky(x)) for k, x in v.items())
        if isinstance(v, tuple):
            return tuple(self.ky(x) for x in v)
        raise Undef(repr(v))

    def toint(self, v):
        if isinstance(v, Opq):
            return self.size(("int", v.key))
        if isinstance(v, Fraction):
            if v.denominator == 1:
                return v.numerator
        if isinstance(v, int):
            return v
        raise Undef("int %r" % (v,))

    def tonum(self, v, t):
        if isinstance(v, (int, Fe, Fraction)):
            return v
        if isinstance(v, Opq):
            if shape(t) in self.ints:
                return self.toint(v)
            if self.zeros and self.h(("zero", v.key)) % self.zeros == 0:
                return Fe(0)
            return Fe(self.h(("fe", v.key)))
        raise Undef("num %r" % (v,))

    def size(self, key):
        x = self.h(key)
        if self.pool and x % 3:
            return self.pool[x // 3 % len(self.pool)]
        if self.dense:
            if key[0] == "int" and "at" in repr(key[1]):
                return x // 3 % 2       # an index stored in a collection: small, so that indices meet
            return 1 + x // 3 % (self.span - 1)
        return x // 3 % self.span

    def length(self, v):
        if isinstance(v, list):
            return len(v)
        if isinstance(v, Opq):
            return self.size(("len", v.key))
        raise Undef("len %r" % (v,))

    def seq(self, v):
        if isinstance(v, list):
            return v
        if isinstance(v, Opq):
            return [Opq(("at", v.key, i)) for i in range(self.length(v))]
        raise Undef("seq %r" % (v,))

    def get(self, v, i):
        if isinstance(v, list):
            if 0 <= i < len(v):
                return v[i]
            raise Undef("index")
        if isinstance(v, Opq):
            return Opq(("at", v.key, i))
        raise Undef("at")

    def int(self, t, env):
        return self.toint(self.ev(t, env))

    def ev(self, t, env):
        if not freebv(t):
            r = self.memo.get(t)
            if r is None:
                r = self.ev1(t, {})
                self.memo[t] = r
            return r
        return self.ev1(t, env)

    def lam(self, l, env, *vals):
        n, h, body = l.args
        e = dict(env)
        for i, v in enumerate(vals):
            e[h + i] = v
        return self.ev(body, e)

    def ev1(self, t, env):
        self.steps += 1
        if self.steps > self.limit:
            raise Undef("budget")
        op = t.op
        a = t.args
        if op == "bv":
            return env[a[0]]
        if op == "poly":
            tot, isf = 0, False
            for m, c in a[0]:
                x = c
                for b, e in m:
                    if b.op == "base":
                        y = b.args[0]
                    else:
                        y = self.tonum(self.ev(b, env), b)
                    k = e if isinstance(e, int) else self.int(e, env)
                    if isinstance(y, Fe):
                        if k < 0 and y.v == 0:
                            raise Undef("inverse")
                        y = Fe(pow(y.v, k, P))
                    else:
                        if k < 0 and y == 0:
                            raise Undef("inverse")
                        y = Fraction(y) ** k if k < 0 else y ** k
                    if isinstance(x, Fe) or isinstance(y, Fe):
                        x = Fe(fe(x).v * fe(y).v)
                    else:
                        x = x * y
                if isinstance(x, Fe) or isinstance(tot, Fe):
                    tot = Fe(fe(tot).v + fe(x).v)
                else:
                    tot = tot + x
            if isinstance(tot, Fraction) and tot.denominator == 1:
                tot = tot.numerator
            return tot
        if op == "ite":
            return self.ev(a[1] if self.cond(a[0], env) else a[2], env)
        if op == "true":
            return True
        if op == "false":
            return False
        if op in ("le0", "eq0", "isv", "exists", "eq", "bopq"):
            return self.cond(t, env)
        if op == "sym":
            if t in self.let:
                return self.ev(self.let[t], env)
            return Opq(("sym",) + a)
        if op == "str":
            return ("str",) + tuple(x if not isinstance(x, T) else x.id for x in a)
        if op == "lst":
            return [self.ev(x, env) for x in a[0]]
        if op == "tup":
            return {str(i): self.ev(x, env) for i, x in enumerate(a[0])}
        if op == "adt":
            d = {"#": a[1]}
            for n, x in a[2]:
                d[n] = self.ev(x, env)
            return d
        if op == "fld":
            x = self.ev(a[0], env)
            if isinstance(x, dict):
                if a[2] in x:
                    return x[a[2]]
                raise Undef("field")
            if isinstance(x, Opq):
                return Opq(("fld", x.key, a[1], a[2]))
            raise Undef("fld")
        if op == "at":
            return self.get(self.ev(a[0], env), self.int(a[1], env))
        if op == "len":
            return self.length(self.ev(a[0], env))
        if op == "cat":
            r = []
            for x in a[0]:
                r = r + self.seq(self.ev(x, env))
            return r
        if op == "slice":
            s = self.seq(self.ev(a[0], env))
            lo, hi = self.int(a[1], env), self.int(a[2], env)
            if not 0 <= lo <= hi <= len(s):
                raise Undef("slice")
            return s[lo:hi]
        if op == "upd":
            s = list(self.seq(self.ev(a[0], env)))
            i = self.int(a[1], env)
            if not 0 <= i < len(s):
                raise Undef("upd")
            s[i] = self.ev(a[2], env)
            return s
        if op in ("map", "cmap", "sum", "prod", "maxk", "rec"):
            n = self.int(a[0], env)
            if n > 200 or n < 0:
                raise Undef("range")
            if op == "map":
                return [self.lam(a[1], env, i) for i in range(n)]
            if op == "cmap":
                r = []
                for i in range(n):
                    x = self.lam(a[1], env, i)
                    c = x["0"]
                    if c:
                        r.append(x["1"])
                return r
            if op == "maxk":
                return max([0] + [self.toint(self.lam(a[1], env, i)) for i in range(n)])
            if op in ("sum", "prod"):
                r = 0 if op == "sum" else 1
                for i in range(n):
                    x = self.tonum(self.lam(a[1], env, i), a[1].args[2])
                    if isinstance(x, Fe) or isinstance(r, Fe):
                        r = Fe(fe(r).v + fe(x).v) if op == "sum" else Fe(fe(r).v * fe(x).v)
                    else:
                        r = r + x if op == "sum" else r * x
                return r
            cur = [self.ev(x, env) for x in a[2].args[0]]
            for i in range(n):
                d = self.lam(a[1], env, i, *cur)
                cur = [d[str(j)] for j in range(len(cur))]
            return cur[0]
        if op == "trip":
            for i in range(80):
                if self.lam(a[0], env, i):
                    return i
            raise Undef("trip")
        if op == "app":
            n = a[0]
            if n in INTCTX:
                xs = [self.int(x, env) for x in a[1:]]
                if n == "idiv":
                    if xs[1] == 0:
                        raise Undef("div")
                    return xs[0] // xs[1]
                if n == "rem":
                    if xs[1] == 0:
                        raise Undef("div")
                    return xs[0] % xs[1]
                if n == "cdiv":
                    return -((-xs[0]) // xs[1])
                if n == "npo2":
                    r = 1
                    while r < xs[0]:
                        r *= 2
                    return r
                if n == "ilog2":
                    if xs[0] <= 0:
                        raise Undef("log")
                    return xs[0].bit_length() - 1
                if n == "max":
                    return max(xs)
                if n == "min":
                    return min(xs)
                return xs[0] % (1 << int(n[5:]))
            if n == "setfield":
                x = self.ev(a[1], env)
                if isinstance(x, Opq):
                    raise Undef("setfield")
                return dict(x, **{a[2].args[0]: self.ev(a[3], env)})
            if n == "mul":
                x, y = (self.tonum(self.ev(z, env), z) for z in a[1:])
                if isinstance(x, Fe) or isinstance(y, Fe):
                    return Fe(fe(x).v * fe(y).v)
                return x * y
            if n == "msm":
                ps, ss = self.seq(self.ev(a[1], env)), self.seq(self.ev(a[2], env))
                r = 0
                for p, s in zip(ps, ss):
                    p = self.tonum(p, a[1]) if isinstance(p, Opq) else p
                    s = self.tonum(s, a[2]) if isinstance(s, Opq) else s
                    r += fe(p).v * fe(s).v
                return Fe(r)
            return Opq(("app", n) + tuple(self.arg(x, env) for x in a[1:]))
        return Opq((op,) + tuple(self.arg(x, env) for x in a))

    def arg(self, x, env):
        if isinstance(x, T):
            if x.op == "lam":
                if freebv(x):
                    raise Undef("lam")
                return ("lam", x.id)
            v = self.ev(x, env)
            if isinstance(v, Opq) and shape(x) in self.ints:
                return self.toint(v)
            return self.ky(v)
        if isinstance(x, tuple):
            return tuple(self.arg(y, env) for y in x)
        return x

    def cond(self, c, env):
        op, a = c.op, c.args
        if op == "le0":
            return self.int(a[0], env) <= 0
        if op == "eq0":
            v = self.tonum(self.ev(a[0], env), a[0])
            return (v.v if isinstance(v, Fe) else v) == 0
        if op == "isv":
            x = self.ev(a[0], env)
            if isinstance(x, dict):
                return x.get("#") == a[1]
            if isinstance(x, Opq):
                vs = VARIANTS.get(a[1]) or (a[1], "?")
                if len(vs) > 3 and self.few:
                    # two of the variants asked for only, so that conditions on several values meet
                    ws = [y for y in self.few if y in vs] or vs
                    i = self.h(("few", vs)) % len(ws)
                    j = self.h(("few2", vs)) % len(ws)
                    return ws[(i, j)[self.h(("var", x.key, vs)) % 2]] == a[1]
                return vs[self.h(("var", x.key, vs)) % len(vs)] == a[1]
            raise Undef("isv")
        if op == "exists":
            n = self.int(a[0], env)
            return any(self.truth(self.lam(a[1], env, i)) for i in range(max(n, 0)))
        if op == "eq":
            return self.arg(a[0], env) == self.arg(a[1], env)
        if op in ("ite", "true", "false"):
            return self.truth(self.ev(c, env))
        return self.h(("bool", self.arg(c.args, env))) % 2 == 0

    def truth(self, v):
        if isinstance(v, bool):
            return v
        if isinstance(v, Opq):
            return self.h(("bool", v.key)) % 2 == 0
        raise Undef("bool")


def set_variants(prog):
    names = {}
    for a in prog.adts.values():
        if a["k"] == "enum":
            for v in a["v"]:
                names.setdefault(v[0], []).append(a)
    for a in prog.adts.values():
        if a["k"] == "enum":
            for v in a["v"]:
                if len(names[v[0]]) == 1 and v[0] not in VARIANTS:
                    VARIANTS[v[0]] = tuple(x[0] for x in a["v"])


def bounds_in(ts):
    """the integer constants the terms compare sizes with, and their neighbours"""
    out = set()
    for t in ts:
        for x in subterms(t):
            if x.op == "le0" and x.args[0].op == "poly":
                for m, c in x.args[0].args[0]:
                    if not m and 8 <= abs(c) <= 130 and abs(c) == int(abs(c)):
                        out.add(int(abs(c)))
            elif x.op == "app" and x.args[0] in ("rem", "idiv", "min", "max"):
                for y in x.args[1:]:
                    v = numval(y)
                    if v is not None and 8 <= v <= 130:
                        out.add(int(v))
    return tuple(sorted({y for v in sorted(out)[:4] for y in (v - 1, v, v + 1)}))


CASES = {"ite", "le0", "eq0", "isv", "eq", "bopq", "exists", "cmap", "trip", "len", "slice", "sum", "prod", "rec", "map", "maxk"}


def test(d, facts=(), cond=TRUE, want=36, tries=3000, zeros=0, spans=(3, 4, 2, 5), let=None):
    """('differs', seed, text) / ('equal', n) / ('unknown', n): is the term d zero under the assumptions?
    d may also be a list of pairs to be compared as data; let gives the values of symbols"""
    ds = [d] if isinstance(d, T) else [x for p in d for x in p]
    ints = int_shapes(ds + list(facts) + [cond], facts)
    if cond is TRUE and not any(x.op in CASES for t in ds + list((let or {}).values()) for x in subterms(t)):
        want = min(want, 4)     # a rational function: a non-zero one vanishes at a random point with negligible probability
    few = tuple(sorted({x.args[1] for t in ds for x in subterms(t) if x.op == "isv"}))
    dense = len(few) > 2
    rare = {}
    if dense:
        want *= 4
        tries *= 4
        for t in ds:
            for m, c in monos(t) if t.op == "poly" else ():
                for a, e in m:
                    if a.op == "sum" and not freebv(a):
                        rare[a] = 0     # a factor that is zero nearly everywhere hides its coefficient
    n = 0
    why = {}
    pool = bounds_in(ds)    # sizes the terms compare with constants: also tested around those constants
    large = 12 if pool else 0
    for s in range(tries):
        e = Ev((SEED, s), ints, spans[s % len(spans)], zeros and (zeros if s % 2 else 0), pool if large and s % 4 == 3 else ())
        e.let = let or {}
        if e.pool:
            large -= 1
            e.limit = 400000
        if s % 3:
            e.few = few
            e.dense = dense and s % 3 == 2
        try:
            if not all(e.int(f, {}) <= 0 for f in facts):
                continue
            if cond is not TRUE and not e.truth(e.ev(cond, {})):
                continue
            if isinstance(d, T):
                v = e.tonum(e.ev(d, {}), d)
                v = v.v if isinstance(v, Fe) else v
                bad = v != 0
            else:
                bad = any(e.norm(e.ev(x, {}), x) != e.norm(e.ev(y, {}), y) for x, y in d)
        except Undef as u:
            why[str(u)[:30]] = why.get(str(u)[:30], 0) + 1
            if sum(why.values()) > 400 and n == 0:
                break
            continue
        if bad:
            u = unmodelled(d) if isinstance(d, T) else unmodelled(*[z for x, y in d if x is not y for z in (x, y)])
            if u:
                return "unknown", n, "depends on %s, whose meaning is not modelled" % u
            return "differs", s, assignment(e)
        n += 1
        for a in rare if e.dense else ():
            try:
                x = e.ev(a, {})
                rare[a] += (x.v if isinstance(x, Fe) else x) != 0
            except (Undef, TypeError):
                pass
        if n >= want and all(x >= 8 for x in rare.values()):
            return "equal", n
    return ("equal" if n >= want else "unknown"), n, why


def assignment(e):
    out = []
    for t, v in e.memo.items():
        if isinstance(v, int) and not isinstance(v, bool) and t.op in ("len", "sym"):
            out.append("%s=%d" % (show(t), v))
    return ", ".join(sorted(out)[:10])


def _norm(self, v, t):
    if isinstance(v, Opq) and isinstance(t, T) and (t.op == "poly" or isinstance(v.key, tuple)):
        return v.key
    return self.ky(v)


Ev.norm = _norm


def reach(cond, facts=(), want=1, tries=4000, zeros=3, spans=(2, 3, 4, 6, 9)):
    """('reached', text) when some assignment satisfies cond and the facts, ('none', number of assignments tried), or ('unknown', why)"""
    ints = int_shapes([cond] + list(facts), facts)
    n = 0
    why = {}
    pool = bounds_in([cond])
    for s in range(tries):
        e = Ev((SEED, "r", s), ints, spans[s % len(spans)], zeros if s % 3 else 0, pool if s % 4 == 3 else ())
        try:
            if not all(e.int(f, {}) <= 0 for f in facts):
                continue
            ok = e.truth(e.ev(cond, {}))
        except Undef as u:
            why[str(u)[:30]] = why.get(str(u)[:30], 0) + 1
            if sum(why.values()) > 800 and n == 0:
                break
            continue
        n += 1
        if ok:
            u = unmodelled(cond)
            if u:
                return "unknown", "depends on %s, whose meaning is not modelled" % u
            return "reached", assignment(e)
    if n >= 50:
        return "none", n
    return "unknown", why
