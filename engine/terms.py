"""Hash-consed abstract values.

Everything the interpreter computes is a `T`: integers, field elements and group
elements share one polynomial normal form, conditions are (multi-terminal) binary
decision diagrams, sequences are literal / comprehension / concatenation / update
terms, and loops that have no closed form are `rec` terms.  Two terms with the same
normal form are the same Python object.
"""
from fractions import Fraction
import sys

sys.setrecursionlimit(200000)

_tab = {}
_cnt = [0]


class T:
    __slots__ = ("op", "args", "id", "_h", "_sy", "_ch", "_sz")

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.id < o.id


def mk(op, *args):
    key = (op, args)
    t = _tab.get(key)
    if t is None:
        t = T()
        t.op = op
        t.args = args
        t.id = _cnt[0]
        _cnt[0] += 1
        t._h = None
        t._sy = None
        t._ch = None
        t._sz = None
        _tab[key] = t
    return t


def _flat(args, out):
    for a in args:
        if isinstance(a, T):
            out.append(a)
        elif isinstance(a, tuple):
            _flat(a, out)


def children(t):
    c = t._ch
    if c is None:
        out = []
        _flat(t.args, out)
        c = t._ch = tuple(out)
    return c


def height(t):
    """greatest binder/bound-variable index used inside t"""
    h = t._h
    if h is None:
        if t.op == "bv":
            h = t.args[0]
        else:
            h = 0
            for c in children(t):
                x = height(c)
                if x > h:
                    h = x
            if t.op == "lam":
                x = t.args[1] + t.args[0] - 1
                if x > h:
                    h = x
        t._h = h
    return h


_E = frozenset()


def syms(t):
    """free symbols of t"""
    s = t._sy
    if s is None:
        if t.op == "sym":
            s = frozenset((t,))
        else:
            s = _E
            for c in children(t):
                x = syms(c)
                if x:
                    s = s | x if s else x
        t._sy = s
    return s


_fbm = {}


def freebv(t):
    """indices of bound variables free in t"""
    if height(t) == 0:
        return _E
    r = _fbm.get(t)
    if r is None:
        if t.op == "bv":
            r = frozenset((t.args[0],))
        else:
            r = _E
            for c in children(t):
                x = freebv(c)
                if x:
                    r = r | x if r else x
            if t.op == "lam":
                r = r - frozenset(range(t.args[1], t.args[1] + t.args[0]))
        _fbm[t] = r
    return r


TRUE = mk("true")
FALSE = mk("false")
INF = mk("inf")
BOT = mk("bot")


def sym(*name):
    return mk("sym", *name)


# ------------------------------------------------------------------ polynomials
def num(n):
    if isinstance(n, Fraction) and n.denominator == 1:
        n = n.numerator
    if n == 0:
        return ZERO
    return mk("poly", (((), n),))


ZERO = mk("poly", ())
ONE = mk("poly", (((), 1),))


def isnum(t):
    return t.op == "poly" and (not t.args[0] or (len(t.args[0]) == 1 and t.args[0][0][0] == ()))


def numval(t):
    if t.op == "poly":
        if not t.args[0]:
            return 0
        if len(t.args[0]) == 1 and t.args[0][0][0] == ():
            return t.args[0][0][1]
    return None


def pd(t):
    if t.op == "poly":
        return dict(t.args[0])
    return {((t, 1),): 1}


def monos(t):
    if t.op == "poly":
        return t.args[0]
    return ((((t, 1),), 1),)


_mkm = {}


def _mkey(m):
    r = _mkm.get(m)
    if r is None:
        r = _mkm[m] = tuple((a.id, e if isinstance(e, int) else 1000000 + e.id) for a, e in m)
    return r


def _item(x):
    return _mkey(x[0])


def mkp(d):
    items = []
    for m, c in d.items():
        if type(c) is not int and c.denominator == 1:
            c = c.numerator
        if c != 0:
            items.append((m, c))
    if not items:
        return ZERO
    if len(items) == 1:
        m, c = items[0]
        if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].op != "poly":
            return m[0][0]
    if len(items) > 1:
        items.sort(key=_item)
    return mk("poly", tuple(items))


def padd(a, b):
    if a is ZERO:
        return b
    if b is ZERO:
        return a
    if a is INF or b is INF:
        return INF
    key = (a, b)
    r = _paddm.get(key)
    if r is None:
        d = pd(a)
        for m, c in monos(b):
            d[m] = d.get(m, 0) + c
        r = _paddm[key] = mkp(d)
    return r


_paddm = {}
_pscm = {}


def pscale(a, c):
    if c == 1:
        return a
    key = (a, c)
    r = _pscm.get(key)
    if r is None:
        r = _pscm[key] = mkp({m: x * c for m, x in monos(a)})
    return r


def pneg(a):
    return pscale(a, -1)


def psub(a, b):
    if a is b:
        return ZERO
    if a is INF:
        return INF
    return padd(a, pneg(b))


def _eadd(e, f):
    if isinstance(e, int) and isinstance(f, int):
        return e + f
    r = padd(num(e) if isinstance(e, int) else e, num(f) if isinstance(f, int) else f)
    v = numval(r)
    if v is not None and isinstance(v, int):
        return v
    return r


def _mmul(m1, m2):
    if not m1:
        return m2, 1
    if not m2:
        return m1, 1
    d = {}
    for a, e in m1:
        d[a] = e
    for a, e in m2:
        if a in d:
            d[a] = _eadd(d[a], e)
        else:
            d[a] = e
    c = 1
    out = []
    for a, e in d.items():
        if isinstance(e, int) and e == 0:
            continue
        if a.op == "base" and isinstance(e, int):
            c = c * (Fraction(a.args[0]) ** e)
            continue
        out.append((a, e))
    out.sort(key=lambda x: x[0].id)
    return tuple(out), c


_mulmemo = {}


def pmul(a, b):
    if a is ZERO or b is ZERO:
        return ZERO
    if a is ONE:
        return b
    if b is ONE:
        return a
    if a is INF or b is INF:
        return INF
    if a.id > b.id:
        a, b = b, a
    k = (a, b)
    r = _mulmemo.get(k)
    if r is not None:
        return r
    ma, mb = monos(a), monos(b)
    if len(ma) * len(mb) > 4000:
        r = mkp({((mk("app", "mul", a, b), 1),): 1})
    else:
        d = {}
        for m1, c1 in ma:
            for m2, c2 in mb:
                m, c = _mmul(m1, m2)
                d[m] = d.get(m, 0) + c1 * c2 * c
        r = mkp(d)
    _mulmemo[k] = r
    return r


def pinv(a):
    v = numval(a)
    if v is not None:
        if v == 0:
            return mk("app", "inv0")
        return num(Fraction(1) / v)
    ms = monos(a)
    if len(ms) == 1:
        m, c = ms[0]
        nm = tuple((x, -e if isinstance(e, int) else pneg(e)) for x, e in m)
        return mkp({nm: Fraction(1) / c})
    return mkp({((a, -1),): 1})


def pdiv(a, b):
    return pmul(a, pinv(b))


def ppow(a, e):
    """a^e, e a term (integer valued)"""
    n = numval(e) if isinstance(e, T) else e
    if n is not None and isinstance(n, int):
        if 0 <= n <= 8:
            r = ONE
            for _ in range(n):
                r = pmul(r, a)
            return r
        v = numval(a)
        if v is not None and n >= 0 and n < 4096:
            return num(v ** n)
        e = n
    v = numval(a)
    if v is not None:
        if v == 1:
            return ONE
        if v == 0:
            return ite(eq0(e if isinstance(e, T) else num(e)), ONE, ZERO)
        if isinstance(e, int):
            return num(Fraction(v) ** e)
        # split constant part of the exponent
        d = pd(e)
        c = d.pop((), 0)
        rest = mkp(d)
        base = mk("base", v)
        r = mkp({((base, rest),): 1})
        if c:
            r = pmul(r, num(Fraction(v) ** c) if isinstance(c, int) else mk("app", "pow", a, num(c)))
        return r
    ms = monos(a)
    if len(ms) == 1:
        m, c = ms[0]
        out = ONE
        for x, f in m:
            if isinstance(f, int) and isinstance(e, int):
                g = f * e
            else:
                g = pmul(num(f) if isinstance(f, int) else f, num(e) if isinstance(e, int) else e)
                gv = numval(g)
                if gv is not None:
                    g = gv
            out = pmul(out, mkp({((x, g),): 1}))
        if c != 1:
            out = pmul(out, ppow(num(c), e if isinstance(e, T) else num(e)))
        return out
    return mkp({((a, e),): 1})


def coef_of(p, atom):
    """(A, B) with p = A*atom + B, or None when p is not linear in atom"""
    A, B = {}, {}
    for m, c in monos(p):
        hit = False
        rest = []
        for a, e in m:
            if a is atom:
                if e != 1:
                    return None
                hit = True
            else:
                if mentions(a, atom) or (isinstance(e, T) and mentions(e, atom)):
                    return None
                rest.append((a, e))
        if hit:
            A[tuple(rest)] = A.get(tuple(rest), 0) + c
        else:
            B[m] = B.get(m, 0) + c
    return mkp(A), mkp(B)


def mentions(t, atom):
    if t is atom:
        return True
    if atom.op == "sym":
        return atom in syms(t)
    return atom in subterms(t)


_stm = {}


def subterms(t):
    s = _stm.get(t)
    if s is None:
        out = set()
        st = [t]
        while st:
            x = st.pop()
            if x in out:
                continue
            out.add(x)
            st.extend(children(x))
        s = _stm[t] = frozenset(out)
    return s


# ------------------------------------------------------------------ decisions
_BOOLOPS = {"true", "false"}


def isbool(t):
    return t.op in ("true", "false", "le0", "eq0", "eq", "isv", "bopq", "exists")


def _top(t):
    return t.args[0].id if t.op == "ite" else 1 << 60


def _pushable(a, b):
    if a.op == "adt" and b.op == "adt" and a.args[0] == b.args[0] and a.args[1] == b.args[1] and len(a.args[2]) == len(b.args[2]):
        return True
    if a.op == "tup" and b.op == "tup" and len(a.args[0]) == len(b.args[0]):
        return True
    return False


def _drop_variants(t, x, v):
    """t when x is known to be of variant v"""
    if t.op == "ite" and t.args[0].op == "isv" and t.args[0].args[0] is x:
        return _drop_variants(t.args[1] if t.args[0].args[1] == v else t.args[2], x, v)
    return t


_VAL = {"poly", "sym", "app", "at", "fld", "len", "sum", "prod", "rec", "maxk", "rng"}


def _node(atom, hi, lo):
    if hi is lo:
        return hi
    if hi is BOT:
        return lo
    if lo is BOT:
        return hi
    if atom.op == "isv" and lo.op == "ite" and hi.op in _VAL and _drop_variants(lo, atom.args[0], atom.args[1]) is hi:
        return lo
    if hi.op in _VAL and lo.op in _VAL:
        if atom.op == "le0":
            p = atom.args[0]
            d = psub(lo, hi)
            if p is d or p is padd(d, ONE):
                return smax(hi, lo)
            d = pneg(d)
            if p is d or p is padd(d, ONE):
                return smin(hi, lo)
        elif atom.op == "eq0":
            x = _solve_sym(atom.args[0])
            if x is not None and mentions(lo, x[0]) and subst_term(lo, {x[0]: x[1]}) is hi:
                return lo
    if _pushable(hi, lo):
        if hi.op == "adt":
            return mk("adt", hi.args[0], hi.args[1],
                      tuple((n, ite(atom_cond(atom), x, y)) for (n, x), (_, y) in zip(hi.args[2], lo.args[2])))
        return mk("tup", tuple(ite(atom_cond(atom), x, y) for x, y in zip(hi.args[0], lo.args[0])))
    return mk("ite", atom, hi, lo)


def atom_cond(atom):
    return mk("ite", atom, TRUE, FALSE)


_ssm = {}


def _solve_sym(p):
    """(x, v) when p == 0 means x == v for a bound symbol x"""
    if p in _ssm:
        return _ssm[p]
    r = None
    for m, c in monos(p):
        if len(m) == 1 and m[0][1] == 1 and (c in (1, -1) or len(p.args[0]) <= 2):
            x = m[0][0]
            rest = psub(p, pscale(x, c))
            if c not in (1, -1):
                rest = pscale(rest, Fraction(1) / abs(c))
                c = 1 if c > 0 else -1
            if not mentions(rest, x):
                r = (x, pneg(rest) if c == 1 else rest)
                break
    _ssm[p] = r
    return r


_itememo = {}


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a is TRUE and b is FALSE:
        return c
    if c.op != "ite":
        return mk("ite", c, a, b) if False else ite(atom_cond(c), a, b)
    k = (c, a, b)
    r = _itememo.get(k)
    if r is not None:
        return r
    v = min(_top(c), _top(a), _top(b))
    at = None
    for x in (c, a, b):
        if x.op == "ite" and x.args[0].id == v:
            at = x.args[0]
            break

    def cof(x):
        if x.op == "ite" and x.args[0] is at:
            return x.args[1], x.args[2]
        return x, x
    c1, c0 = cof(c)
    a1, a0 = cof(a)
    b1, b0 = cof(b)
    r = _node(at, ite(c1, a1, b1), ite(c0, a0, b0))
    _itememo[k] = r
    return r


def b_not(a):
    return ite(a, FALSE, TRUE)


def b_and(a, b):
    return ite(a, b, FALSE)


def b_or(a, b):
    return ite(a, TRUE, b)


def implies(a, b):
    """propositional entailment"""
    return b_and(a, b_not(b)) is FALSE


_resmemo = {}


def restrict(t, pc):
    """simplify decision diagram t under assumption pc (top level of t only)"""
    if t.op != "ite" or pc is TRUE:
        return t
    k = (t, pc)
    r = _resmemo.get(k)
    if r is not None:
        return r
    at, hi, lo = t.args
    ac = atom_cond(at)
    p1 = b_and(pc, ac)
    if p1 is FALSE:
        r = restrict(lo, pc)
    else:
        p0 = b_and(pc, b_not(ac))
        if p0 is FALSE:
            r = restrict(hi, pc)
        else:
            r = _node(at, restrict(hi, p1), restrict(lo, p0))
    _resmemo[k] = r
    return r


def leaves(t):
    """distinct leaves of a decision diagram"""
    out = []
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "ite":
            st.append(x.args[2])
            st.append(x.args[1])
        else:
            out.append(x)
    return out


_mapm = {}


def mapleaves(t, f, memo=None):
    if t.op != "ite":
        return f(t)
    if memo is None:
        memo = {}
    r = memo.get(t)
    if r is None:
        r = ite(atom_cond(t.args[0]), mapleaves(t.args[1], f, memo), mapleaves(t.args[2], f, memo))
        memo[t] = r
    return r


def guards_of(t, pred):
    """condition under which a leaf satisfying pred is selected"""
    return mapleaves(t, lambda l: TRUE if pred(l) else FALSE)


def bdd_atoms(t):
    out = []
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "ite":
            out.append(x.args[0])
            st.append(x.args[1])
            st.append(x.args[2])
    return sorted(set(out), key=lambda a: a.id)


def _lift(p):
    """an ite atom occurring linearly inside polynomial p (lift into decision) or None"""
    if p.op == "ite":
        return p
    if p.op != "poly":
        return None
    f = None
    n = 0
    for m, c in p.args[0]:
        for a, e in m:
            if a.op == "ite":
                n += 1
                if f is None:
                    f = a
    if n <= 3:
        return f
    return None


def lift_ite(p, fn):
    f = _lift(p)
    if f is None:
        return fn(p)
    ls = leaves(f)
    if len(ls) > 16:
        return fn(p)
    return mapleaves(f, lambda l: lift_ite(subst_atom(p, f, l), fn))


def subst_atom(p, a, v):
    """replace atom a by v in polynomial p (top-level monomials only)"""
    if p is a:
        return v
    if p.op != "poly":
        return p
    r = ZERO
    for m, c in p.args[0]:
        t = num(c)
        for x, e in m:
            if x is a and isinstance(e, int) and e > 0:
                t = pmul(t, ppow(v, e))
            else:
                t = pmul(t, mkp({((x, e),): 1}))
        r = padd(r, t)
    return r


def _nonneg_atom(a):
    return a.op not in ("app",) or a.args[0] not in ("signed",)


FACTS = [()]       # integer polynomials known to be <= 0 at the current program point
_factmemo = {}


def facts_from(pc):
    """linear integer facts that hold whenever the condition pc holds"""
    r = _factmemo.get(pc)
    if r is None:
        out = []
        save, FACTS[0] = FACTS[0], ()
        try:
            if pc.op == "ite":
                for a in bdd_atoms(pc):
                    if a.op not in ("le0", "eq0"):
                        continue
                    p = a.args[0]
                    if a.op == "eq0" and not any(x.op == "len" or (x.op == "app" and x.args[0] in ("npo2", "idiv")) for m, c in monos(p) for x, e in m):
                        continue
                    if len(monos(p)) > 5:
                        continue
                    c = atom_cond(a)
                    if b_and(pc, b_not(c)) is FALSE:
                        fs = fact_of(a, True)
                    elif b_and(pc, c) is FALSE:
                        fs = fact_of(a, False)
                    else:
                        continue
                    for f in fs:
                        den = 1
                        for m, c in monos(f):
                            if isinstance(c, Fraction):
                                den = den * c.denominator // _gcd(den, c.denominator)
                        out.append(pscale(f, den))
        finally:
            FACTS[0] = save
        r = _factmemo[pc] = tuple(out[-10:])
    return r


_bfm = {}
_posm = {}


def _byfacts(p):
    fs = FACTS[0]
    k = (p, fs)
    if k in _bfm:
        return _bfm[k]
    pos = _posm.get(fs)
    if pos is None:
        pos = _posm[fs] = {m for f in fs for m, c in monos(f) if c > 0}
    ms = monos(p)
    r = None
    FACTS[0] = ()
    try:
        if all(c < 0 or m == () or m in pos for m, c in ms) and _le_by(p, fs):
            r = TRUE
        elif all(c > 0 or m == () or m in pos for m, c in ms) and _le_by(psub(ONE, p), fs):
            r = FALSE
    finally:
        FACTS[0] = fs
    _bfm[k] = r
    return r


_lem = {}


def le0(p):
    k = (p, FACTS[0])
    r = _lem.get(k)
    if r is None:
        r = _lem[k] = _le0(p)
    return r


def _le0(p):
    """p <= 0 over the integers; every atom denotes a non-negative integer"""
    v = numval(p)
    if v is not None:
        return TRUE if v <= 0 else FALSE
    if p is INF:
        return FALSE

    def fn(p):
        v = numval(p)
        if v is not None:
            return TRUE if v <= 0 else FALSE
        if p is INF:
            return FALSE
        ms = monos(p)
        c0 = 0
        pos = neg = False
        for m, c in ms:
            if m == ():
                c0 = c
            elif c > 0:
                pos = True
            else:
                neg = True
        if not neg and c0 >= 1:
            return FALSE
        if not pos and c0 <= 0:
            return TRUE
        for m, c in ms:
            if len(m) == 1 and m[0][1] == 1 and m[0][0].op == "app":
                a = m[0][0]
                if a.args[0] in ("max", "min"):
                    cs = [le0(subst_atom(p, a, x)) for x in a.args[1:]]
                    conj = (a.args[0] == "max") == (c > 0)
                    r = cs[0]
                    for x in cs[1:]:
                        r = b_and(r, x) if conj else b_or(r, x)
                    return r
                if a.args[0] == "idiv" and isinstance(numval(a.args[2]), int):
                    d = numval(a.args[2])
                    q = a.args[1] if c > 0 else psub(a.args[1], num(d - 1))
                    if le0(subst_atom(p, a, pscale(q, Fraction(1, d)))) is TRUE:
                        return TRUE
                if a.args[0] == "npo2" and c < 0 and (le0(subst_atom(p, a, a.args[1])) is TRUE or le0(subst_atom(p, a, ONE)) is TRUE):
                    return TRUE
        if FACTS[0]:
            r = _byfacts(p)
            if r is not None:
                return r
        if c0 == 0 and len(ms) == 1 and ms[0][1] > 0:
            return eq0(p)
        lead = [c for m, c in ms if m != ()][0]
        if lead < 0:
            q = psub(ONE, p)
            qm = monos(q)
            if len(qm) == 1 and qm[0][1] > 0 and qm[0][0] != ():
                return b_not(eq0(q))
            return b_not(atom_cond(mk("le0", q)))
        return atom_cond(mk("le0", p))
    return lift_ite(p, fn)


def i_le(a, b):
    if b is INF:
        return TRUE
    if a is INF:
        return FALSE
    return le0(psub(a, b))


def i_lt(a, b):
    if b is INF:
        return TRUE
    if a is INF:
        return FALSE
    return le0(padd(psub(a, b), ONE))


def eq0(p):
    def fn(p):
        v = numval(p)
        if v is not None:
            return TRUE if v == 0 else FALSE
        ms = monos(p)
        lead = [c for m, c in ms if m != ()][0]
        if lead < 0:
            p = pneg(p)
        if lead not in (1, -1):
            p = pscale(p, Fraction(1) / abs(lead))
        a = mk("eq0", p)
        if FACTS[0] and len(ms) <= 6:
            d = _eqfacts(a)
            if d is not None:
                return d
        return atom_cond(a)
    return lift_ite(p, fn)


_allm = {}


def _eqfacts(a):
    fs = FACTS[0]
    al = _allm.get(fs)
    if al is None:
        al = _allm[fs] = {m for f in fs for m, c in monos(f)}
    if not any(m in al for m, c in monos(a.args[0]) if m != ()):
        return None
    FACTS[0] = ()
    try:
        return decide_atom(a, fs)
    finally:
        FACTS[0] = fs


NONNUM = {"adt", "tup", "lst", "cat", "map", "upd", "slice", "str", "true", "false", "le0", "eq0", "isv", "bopq", "clo", "cmap"}


def eq(a, b):
    """a == b"""
    if a is b:
        return TRUE
    if a.op in ("ite",):
        return mapleaves(a, lambda l: eq(l, b))
    if b.op in ("ite",):
        return mapleaves(b, lambda l: eq(a, l))
    if a.op == "true" or a.op == "false":
        if b.op in ("true", "false"):
            return FALSE
    if a.op == "tup" and b.op == "tup" and len(a.args[0]) == len(b.args[0]):
        r = TRUE
        for x, y in zip(a.args[0], b.args[0]):
            r = b_and(r, eq(x, y))
        return r
    if a.op == "adt" and b.op == "adt":
        if a.args[1] != b.args[1]:
            return FALSE
        r = TRUE
        for (_, x), (_, y) in zip(a.args[2], b.args[2]):
            r = b_and(r, eq(x, y))
        return r
    if a.op == "adt" or b.op == "adt":
        if b.op == "adt":
            a, b = b, a
        r = isv(b, a.args[1])
        for n, x in a.args[2]:
            r = b_and(r, eq(x, vfield(b, a.args[1], n)))
        return r
    if a.op == "lst" and b.op == "lst":
        if len(a.args[0]) != len(b.args[0]):
            return FALSE
        r = TRUE
        for x, y in zip(a.args[0], b.args[0]):
            r = b_and(r, eq(x, y))
        return r
    if a.op in NONNUM or b.op in NONNUM:
        if a.id > b.id:
            a, b = b, a
        return atom_cond(mk("eq", a, b))
    return eq0(psub(a, b))


OTHER = {"None": "Some", "Err": "Ok", "Break": "Continue"}


LASTV = {}     # last variant of a local enum -> the others


def isv(x, variant):
    if x.op == "ite":
        return mapleaves(x, lambda l: isv(l, variant))
    if x.op == "adt":
        return TRUE if x.args[1] == variant else FALSE
    if x is BOT:
        return FALSE
    if variant in OTHER:
        return b_not(isv(x, OTHER[variant]))
    if variant in LASTV:
        r = TRUE
        for v in LASTV[variant]:
            r = b_and(r, b_not(isv(x, v)))
        return r
    return atom_cond(mk("isv", x, variant))


def vfield(x, variant, name):
    if x.op == "ite":
        return mapleaves(x, lambda l: vfield(l, variant, name))
    if x.op == "adt":
        if variant is not None and x.args[1] != variant:
            return BOT
        for n, v in x.args[2]:
            if n == name:
                return v
        return BOT
    if x is BOT:
        return BOT
    return mk("fld", x, variant, name)


def field(x, name):
    if x.op == "ite":
        return mapleaves(x, lambda l: field(l, name))
    if x.op == "adt":
        for n, v in x.args[2]:
            if n == name:
                return v
        return BOT
    if x.op == "tup":
        try:
            return x.args[0][int(name)]
        except (ValueError, IndexError):
            return BOT
    if x is BOT:
        return BOT
    if x.op == "app" and x.args[0] == "setfield":
        return x.args[3] if x.args[2].args[0] == name else field(x.args[1], name)
    return mk("fld", x, None, name)


def adt(path, variant, fields):
    return mk("adt", path, variant, tuple(fields))


def tup(*xs):
    return mk("tup", tuple(xs))


UNIT = mk("tup", ())


def some(x):
    return adt("core::option::Option", "Some", (("0", x),))


NONE = adt("core::option::Option", "None", ())


def ok(x):
    return adt("core::result::Result", "Ok", (("0", x),))


def err(x):
    return adt("core::result::Result", "Err", (("0", x),))


def app(name, *args):
    return mk("app", name, *args)


# ------------------------------------------------------------------ binders
_fresh = [0]


def fresh(tag="k"):
    _fresh[0] += 1
    return sym(tag, "#", _fresh[0])


_bsy = {}


def bsyms(l, *avoid):
    """symbols to open the binder l with: canonical, and free neither in l nor in the terms of avoid"""
    n, h, body = l.args
    out = []
    i = 0
    while len(out) < n:
        x = _bsy.get((h, i))
        if x is None:
            x = _bsy[(h, i)] = sym("b", "#", "%d.%d" % (h, i))
        i += 1
        if x in syms(body) or any(x in (a if isinstance(a, (set, frozenset)) else syms(a)) for a in avoid):
            continue
        out.append(x)
    return tuple(out)


_lamm = {}


def lam(vars_, body):
    """close body over the symbols vars_ (tuple of sym)"""
    key = (vars_, body, FACTS[0])
    r = _lamm.get(key)
    if r is None:
        h = height(body) + 1
        b = subst(body, {v: mk("bv", h + i) for i, v in enumerate(vars_)})
        r = _lamm[key] = mk("lam", len(vars_), h, b)
    return r


_openmemo = {}


def open_(l, vals):
    n, h, body = l.args
    k = (l, tuple(vals), FACTS[0])
    r = _openmemo.get(k)
    if r is None:
        r = subst_bv(body, {mk("bv", h + i): v for i, v in enumerate(vals)})
        _openmemo[k] = r
    return r


def subst_bv(t, m):
    memo = {}
    lo = min(k.args[0] for k in m)
    av = frozenset().union(*[syms(v) for v in m.values()])

    def go(x):
        if height(x) < lo:
            return x
        r = memo.get(x)
        if r is not None:
            return r
        if x in m:
            r = m[x]
        elif x.op == "lam":
            n, h, body = x.args
            # inner binders have smaller indices than the one being opened
            if height(body) < lo:
                r = x
            else:
                vs = bsyms(x, av)
                b = open_(x, vs)
                b = go2(b)
                r = lam(vs, b)
        else:
            r = rebuild(x, go)
        memo[x] = r
        return r

    def go2(b):
        return subst_bv(b, m) if height(b) >= lo else b
    return go(t)


def subst(t, m):
    """capture-avoiding substitution of free symbols"""
    if not m:
        return t
    keys = frozenset(m)
    av = keys.union(*[syms(v) for v in m.values()])
    memo = {}

    def go(x):
        if not (syms(x) & keys):
            return x
        r = memo.get(x)
        if r is not None:
            return r
        if x in m:
            r = m[x]
        elif x.op == "lam":
            vs = bsyms(x, av)
            b = open_(x, vs)
            r = lam(vs, subst(b, m))
        else:
            r = rebuild(x, go)
        memo[x] = r
        return r
    return go(t)


def _rargs(a, f):
    if isinstance(a, T):
        return f(a)
    if isinstance(a, tuple):
        return tuple(_rargs(x, f) for x in a)
    return a


def rebuild(t, f):
    op = t.op
    if op == "poly":
        r = ZERO
        for m, c in t.args[0]:
            x = num(c)
            for a, e in m:
                na = f(a)
                ne = e if isinstance(e, int) else f(e)
                if isinstance(ne, T):
                    v = numval(ne)
                    if v is not None:
                        ne = v
                if a.op == "base":
                    y = ppow(num(a.args[0]), ne if isinstance(ne, T) else num(ne))
                elif isinstance(ne, int) and ne < 0:
                    y = ppow(pinv(na), -ne)
                else:
                    y = ppow(na, ne)
                x = pmul(x, y)
            r = padd(r, x)
        return r
    if op == "ite":
        c = f(t.args[0])
        return ite(c if c.op in ("ite", "true", "false") else atom_cond(c), f(t.args[1]), f(t.args[2]))
    args = tuple(_rargs(a, f) for a in t.args)
    return build(op, args)


def build(op, args):
    c = CTORS.get(op)
    if c is not None:
        return c(*args)
    return mk(op, *args)


def subst_term(t, m):
    """replace subterms (not only symbols)"""
    av = frozenset().union(*[syms(k) | syms(v) for k, v in m.items()])
    memo = {}

    def go(x):
        r = memo.get(x)
        if r is not None:
            return r
        if x in m:
            r = m[x]
        elif x.op == "lam":
            n, hh, body = x.args
            vs = tuple(fresh("b") for _ in range(n))
            b = open_(x, vs)
            b2 = subst_term(b, m)
            r = x if b2 is b else lam(vs, b2)
        elif not children(x):
            r = x
        else:
            r = rebuild(x, go)
        memo[x] = r
        return r
    return go(t)


# ------------------------------------------------------------------ linear facts
def fact_of(atom, val):
    """polynomials known to be <= 0 when the atom has the given truth value"""
    if atom.op == "le0":
        p = atom.args[0]
        return [p] if val else [psub(ONE, p)]
    if atom.op == "eq0" and val:
        p = atom.args[0]
        # scale back to integers where the leading normalisation introduced fractions
        return [p, pneg(p)]
    if atom.op == "eq0" and not val:
        p = atom.args[0]
        ms = monos(p)
        if len(ms) == 1 and ms[0][0] != ():
            return [psub(ONE, pscale(p, Fraction(1) / ms[0][1]))]
    return []


_lbm = {}


def _le_by(q, facts):
    k = (q, tuple(facts))
    r = _lbm.get(k)
    if r is None:
        save, FACTS[0] = FACTS[0], ()
        try:
            r = _lbm[k] = _le_by1(q, facts)
        finally:
            FACTS[0] = save
    return r


def _special(x):
    return x.op == "app" and x.args[0] in ("max", "min", "npo2", "idiv")


def _le_by1(q, facts):
    qp = {m for m, c in monos(q) if c > 0 and m != () and not any(_special(a) for a, e in m)}
    rel = []
    hard = any(_special(a) for m, c in monos(q) for a, e in m)
    for f in facts:
        fp = {m for m, c in monos(f) if c > 0 and m != ()}
        if qp <= fp:
            if le0(psub(q, f)) is TRUE:
                return True
        elif hard and le0(psub(q, f)) is TRUE:
            return True
        if not qp or qp & fp or hard:
            rel.append((f, fp))
    if len(rel) > 8:
        rel = rel[-8:]
    for f, fp in rel:
        qf = psub(q, f)
        q2 = {m for m, c in monos(qf) if c > 0 and m != () and not any(_special(a) for a, e in m)}
        for g in facts:
            if g is f:
                continue
            if q2 <= {m for m, c in monos(g) if c > 0}:
                if le0(psub(qf, g)) is TRUE:
                    return True
    return False


_dam = {}


def decide_atom(a, facts):
    k = (a, tuple(facts), FACTS[0])
    if k not in _dam:
        _dam[k] = _decide_atom(a, facts)
    return _dam[k]


def _decide_atom(a, facts):
    if a.op == "le0":
        p = a.args[0]
        if _le_by(p, facts):
            return TRUE
        if _le_by(psub(ONE, p), facts):
            return FALSE
    elif a.op == "eq0":
        p = a.args[0]
        den = 1
        for m, c in monos(p):
            if isinstance(c, Fraction):
                den = den * c.denominator // _gcd(den, c.denominator)
        if den != 1:
            p = pscale(p, den)
        if _le_by(padd(p, ONE), facts) or _le_by(psub(ONE, p), facts):
            return FALSE
        if _le_by(p, facts) and _le_by(pneg(p), facts):
            return TRUE
    return None


def _gcd(a, b):
    while b:
        a, b = b, a % b
    return a


_undermemo = {}


def under(t, facts):
    """simplify the decision nodes of t (top level, and through tuples and structs) under
    linear integer facts (each polynomial <= 0)"""
    if not facts:
        return t
    key = (t, tuple(facts))
    r = _undermemo.get(key)
    if r is not None:
        return r
    if t.op == "ite":
        a, hi, lo = t.args
        d = decide_atom(a, facts)
        if d is TRUE:
            r = under(hi, facts)
        elif d is FALSE:
            r = under(lo, facts)
        else:
            h2 = under(hi, facts + fact_of(a, True)) if len(facts) < 8 else hi
            l2 = under(lo, facts + fact_of(a, False)) if len(facts) < 8 else lo
            r = t if (h2 is hi and l2 is lo) else ite(atom_cond(a), h2, l2)
    elif t.op == "tup" and t.args[0]:
        xs = tuple(under(x, facts) for x in t.args[0])
        r = t if all(x is y for x, y in zip(xs, t.args[0])) else mk("tup", xs)
    elif t.op == "adt" and t.args[2]:
        xs = tuple((n, under(x, facts)) for n, x in t.args[2])
        r = t if all(x[1] is y[1] for x, y in zip(xs, t.args[2])) else mk("adt", t.args[0], t.args[1], xs)
    elif t.op in ("tr", "trc") and t.args[0].op == "ite":
        x = under(t.args[0], facts)
        r = t if x is t.args[0] else mk(t.op, x, *t.args[1:])
    else:
        r = t
    _undermemo[key] = r
    return r


def bounds(k, n):
    if n is INF or n.op == "ite":
        return [pneg(k)]
    return [padd(psub(k, n), ONE), pneg(k)]


def _bbody(n, l):
    """body of a binder simplified under its range"""
    vs = bsyms(l, n)
    b = open_(l, vs)
    b2 = under(b, bounds(vs[0], n))
    return l if b2 is b else lam(vs, b2)


# ------------------------------------------------------------------ sequences
UNROLL = [4]    # loops with at most this many known iterations are unrolled


def lst(xs):
    return mk("lst", tuple(xs))


EMPTY = mk("lst", ())


def given(t, facts):
    """t with every decision inside it taken under additional integer facts"""
    save = FACTS[0]
    FACTS[0] = tuple(facts) + save[:6]
    avoid = frozenset().union(*[syms(f) for f in FACTS[0]])
    try:
        memo = {}

        def go(x):
            if not children(x):
                return x
            r = memo.get(x)
            if r is None:
                if x.op == "lam":
                    n, h, body = x.args
                    vs = bsyms(x, avoid)
                    b = open_(x, vs)
                    b2 = go(b)
                    r = x if b2 is b else lam(vs, b2)
                else:
                    r = rebuild(x, go)
                memo[x] = r
            return r
        return go(t)
    finally:
        FACTS[0] = save


def _threshold(b, k, n):
    """c when b branches on k < c with 0 <= c <= n"""
    cand = []

    def ites(x, d=0):
        if x.op == "ite":
            a = x.args[0]
            if a.op == "le0" and k in syms(a):
                cand.append(a.args[0])
            if d < 3:
                ites(x.args[1], d + 1)
                ites(x.args[2], d + 1)
        elif x.op == "poly":
            for m, c in x.args[0]:
                for y, e in m:
                    if y.op == "ite":
                        ites(y, d)
                    if isinstance(e, T):
                        ites(e, d)
                        if e.op == "poly":
                            for m2, c2 in e.args[0]:
                                for y2, e2 in m2:
                                    if y2.op == "ite":
                                        ites(y2, d)
    ites(b)
    for p in cand:
        r = coef_of(p, k)
        if r is None:
            continue
        a = numval(r[0])
        if a == -1:
            c = r[1]                      # true from c on
        elif a == 1:
            c = psub(ONE, r[1])           # true below c
        else:
            continue
        if k in syms(c) or n is INF:
            continue
        if i_le(ZERO, c) is TRUE and i_le(c, n) is TRUE and c is not ZERO and c is not n:
            return c
    return None


def _split(b, k, n, c):
    b1 = given(b, (padd(psub(k, c), ONE),))
    b2 = given(subst(b, {k: padd(k, c)}), (psub(k, psub(psub(n, c), ONE)),))
    return b1, b2


def smap(n, l):
    """sequence of length n with elements l(k)"""
    if n.op == "ite":
        return mapleaves(n, lambda m: smap(m, l))
    v = numval(n)
    if v == 0:
        return EMPTY
    if v is not None and 0 < v <= 16:
        return lst([open_(l, (num(i),)) for i in range(v)])
    # eta
    l = _bbody(n, l)
    k, = bsyms(l, n)
    b = open_(l, (k,))
    if b.op == "at" and b.args[1] is k and k not in syms(b.args[0]) and slen(b.args[0]) is n:
        return b.args[0]
    c = _threshold(b, k, n)
    if c is not None:
        b1, b2 = _split(b, k, n, c)
        return cat([smap(c, lam((k,), b1)), smap(psub(n, c), lam((k,), b2))])
    return mk("map", n, l)


def mapk(n, fn):
    k = fresh()
    return smap(n, lam((k,), fn(k)))


def _ispow(x):
    return isinstance(x, T)


def slen(s):
    op = s.op
    if op == "lst":
        return num(len(s.args[0]))
    if op in ("map",):
        return s.args[0]
    if op == "cmap":
        k, = bsyms(s.args[1], s.args[0])
        b = open_(s.args[1], (k,))
        return psum(s.args[0], lam((k,), ite(b.args[0][0], ONE, ZERO)))
    if op == "cat":
        r = ZERO
        for x in s.args[0]:
            r = padd(r, slen(x))
        return r
    if op == "upd":
        return slen(s.args[0])
    if op == "slice":
        return psub(s.args[2], s.args[1])
    if op == "ite":
        return mapleaves(s, slen)
    if op == "rec":
        l = rec_len(s)
        if l is not None:
            return l
    if op == "app" and s.args[0] == "sorted":
        return slen(s.args[1])
    if op == "bot":
        return BOT
    if op == "str" and len(s.args) == 1 and isinstance(s.args[0], str):
        return num(len(s.args[0]))
    return mk("len", s)


def decide(c):
    """TRUE / FALSE / None"""
    return True if c is TRUE else False if c is FALSE else None


def at(s, i):
    op = s.op
    if op == "ite":
        return mapleaves(s, lambda l: at(l, i))
    if i.op == "ite" and op in ("lst", "upd"):
        return mapleaves(i, lambda l: at(s, l))
    if op == "lst":
        v = numval(i)
        if v is not None:
            if isinstance(v, int) and 0 <= v < len(s.args[0]):
                return s.args[0][v]
            return BOT
        if len(s.args[0]) == 1:
            return s.args[0][0]
        if s.args[0] and all(x is s.args[0][0] for x in s.args[0]):
            return s.args[0][0]
        return mk("at", s, i)
    if op == "map":
        return open_(s.args[1], (i,))
    if op == "cat":
        segs = s.args[0]
        x = segs[0]
        n = slen(x)
        rest = segs[1] if len(segs) == 2 else mk("cat", segs[1:])
        c = i_lt(i, n)
        if c is TRUE:
            return at(x, i)
        if c is FALSE:
            return at(rest, psub(i, n))
        return ite(c, at(x, i), at(rest, psub(i, n)))
    if op == "upd":
        b, j, v = s.args
        c = eq0(psub(i, j))
        if c is TRUE:
            return v
        if c is FALSE:
            return at(b, i)
        # strict order also refutes equality
        if i_lt(i, j) is TRUE or i_lt(j, i) is TRUE:
            return at(b, i)
        return ite(c, v, at(b, i))
    if op == "slice":
        return at(s.args[0], padd(s.args[1], i))
    if op == "bot":
        return BOT
    return mk("at", s, i)


def slice_(s, lo, hi):
    if s.op == "ite":
        return mapleaves(s, lambda l: slice_(l, lo, hi))
    n = slen(s)
    if lo is ZERO and hi is n:
        return s
    if psub(hi, lo) is ZERO:
        return EMPTY
    if s.op == "slice":
        return slice_(s.args[0], padd(s.args[1], lo), padd(s.args[1], hi))
    if s.op == "map":
        k, = bsyms(s.args[1], hi, lo)
        return smap(psub(hi, lo), lam((k,), open_(s.args[1], (padd(k, lo),))))
    if s.op == "lst":
        a, b = numval(lo), numval(hi)
        if a is not None and b is not None and isinstance(a, int) and isinstance(b, int):
            return lst(s.args[0][max(a, 0):max(b, 0)])
    if s.op == "cat":
        segs = list(s.args[0])
        # drop whole prefix segments
        while segs:
            n0 = slen(segs[0])
            c = i_le(n0, lo)
            if c is TRUE:
                segs.pop(0)
                lo = psub(lo, n0)
                hi = psub(hi, n0) if hi is not INF else INF
            else:
                break
        if not segs:
            return EMPTY
        out = []
        n0 = slen(segs[0])
        if lo is not ZERO:
            if i_lt(lo, n0) is TRUE or i_le(lo, n0) is TRUE:
                if i_le(hi, n0) is TRUE:
                    return slice_(segs[0], lo, hi)
                if i_le(n0, hi) is TRUE:
                    h = slice_(segs[0], lo, n0)
                    r = slice_(cat(segs[1:]), ZERO, psub(hi, n0))
                    return cat([h, r])
            return mk("slice", cat(segs), lo, hi)
        while segs:
            n0 = slen(segs[0])
            if hi is n0:
                out.append(segs[0])
                return cat(out)
            c = i_le(n0, hi)
            if c is TRUE:
                out.append(segs.pop(0))
                hi = psub(hi, n0)
                if hi is ZERO:
                    return cat(out)
            elif i_le(hi, n0) is TRUE:
                out.append(slice_(segs[0], ZERO, hi))
                return cat(out)
            else:
                out.append(mk("slice", cat(segs), ZERO, hi))
                return cat(out)
        return cat(out)
    return mk("slice", s, lo, hi)


def cat(segs):
    out = []
    for s in segs:
        if s.op == "cat":
            ss = s.args[0]
        else:
            ss = (s,)
        for x in ss:
            if x is EMPTY:
                continue
            if x.op == "map" and numval(x.args[0]) == 0:
                continue
            if out and out[-1].op == "lst" and x.op == "lst":
                out[-1] = lst(out[-1].args[0] + x.args[0])
            else:
                out.append(x)
    if not out:
        return EMPTY
    if len(out) == 1:
        return out[0]
    return mk("cat", tuple(out))


def push(s, x):
    if s.op == "ite":
        return mapleaves(s, lambda l: push(l, x))
    return cat([s, lst([x])])


def upd(s, i, v):
    if s.op == "ite":
        return mapleaves(s, lambda l: upd(l, i, v))
    if at_same(s, i) is v:
        return s
    if s.op == "lst":
        n = numval(i)
        if n is not None and isinstance(n, int) and 0 <= n < len(s.args[0]):
            xs = list(s.args[0])
            xs[n] = v
            return lst(xs)
    if s.op == "upd" and s.args[1] is i:
        return upd(s.args[0], i, v)
    if s.op == "cat":
        segs = list(s.args[0])
        off = i
        for j, x in enumerate(segs):
            n = slen(x)
            c = i_lt(off, n)
            if c is TRUE:
                segs[j] = upd(x, off, v)
                return cat(segs)
            if c is FALSE:
                off = psub(off, n)
                continue
            break
    return mk("upd", s, i, v)


def at_same(s, i):
    if s.op in ("upd",) and s.args[1] is i:
        return s.args[2]
    return None


def cmap(n, l):
    """elements v(k) for those k<n with cond(k); l(k) = (cond, v)"""
    l = _bbody(n, l)
    k, = bsyms(l, n)
    b = open_(l, (k,))
    c = b.args[0][0]
    if c is TRUE:
        return smap(n, lam((k,), b.args[0][1]))
    if c is FALSE:
        return EMPTY
    v = numval(n)
    if v is not None and isinstance(v, int) and 0 < v <= 16:
        out, okk = [], True
        for i in range(v):
            x = open_(l, (num(i),))
            if x.args[0][0] is TRUE:
                out.append(x.args[0][1])
            elif x.args[0][0] is not FALSE:
                okk = False
                break
        if okk:
            return lst(out)
    if c.op == "ite" and c.args[0].op == "eq0" and c.args[1] is FALSE and c.args[2] is TRUE:
        # all but one place
        r = coef_of(c.args[0].args[0], k)
        if r is not None and numval(r[0]):
            x = pscale(r[1], Fraction(-1) / numval(r[0]))
            if k not in syms(x) and all(isinstance(cc, int) for m, cc in monos(x)) and i_le(ZERO, x) is TRUE and i_lt(x, n) is TRUE:
                v = b.args[0][1]
                return cat([smap(x, lam((k,), v)), smap(psub(psub(n, x), ONE), lam((k,), subst(v, {k: padd(padd(k, ONE), x)})))])
    return mk("cmap", n, l)


def _ext(name, xs):
    flat = []
    for x in xs:
        if x.op == "app" and x.args[0] == name:
            flat.extend(x.args[1:])
        else:
            flat.append(x)
    out = []
    for x in flat:
        keep = True
        for y in list(out):
            if name == "max":
                le, ge = i_le(x, y) is TRUE, i_le(y, x) is TRUE
            else:
                le, ge = i_le(y, x) is TRUE, i_le(x, y) is TRUE
            if le and not (ge and x.id < y.id):
                keep = False
                break
            if ge:
                out.remove(y)
        if keep:
            out.append(x)
    if len(out) == 1:
        return out[0]
    # common additive part, and max(-a,-b) = -min(a,b)
    ds = [pd(x) if x.op == "poly" else {((x, 1),): 1} for x in out]
    com = {m: c for m, c in ds[0].items() if m != () and all(d.get(m) == c for d in ds[1:])}
    c0 = min(d.get((), 0) for d in ds)
    if c0:
        com[()] = c0
    if com:
        cp = mkp(com)
        return padd(cp, _ext(name, [psub(x, cp) for x in out]))
    if all(c < 0 for d in ds for c in d.values()):
        return pneg(_ext("min" if name == "max" else "max", [pneg(x) for x in out]))
    out.sort(key=lambda x: x.id)
    return mk("app", name, *out)


def smin(a, b):
    if a is b:
        return a
    if a is INF:
        return b
    if b is INF:
        return a
    return _ext("min", (a, b))


def smax(a, b):
    if a is b:
        return a
    return _ext("max", (a, b))


def maxk(n, l):
    """greatest of the naturals l(k), k < n (0 for n = 0)"""
    if n is ZERO:
        return ZERO
    if n.op == "ite":
        return mapleaves(n, lambda m: maxk(m, l))
    k, = bsyms(l, n)
    b = open_(l, (k,))
    if k not in syms(b) and i_lt(ZERO, n) is TRUE:
        return b
    v = numval(n)
    if v is not None and 0 < v <= 16:
        r = ZERO
        for i in range(v):
            r = smax(r, subst(b, {k: num(i)}))
        return r
    return mk("maxk", n, l)


# ------------------------------------------------------------------ sums
def psum(n, l):
    k, = bsyms(l, n)
    b = open_(l, (k,))
    return sumk(n, k, b)


def sumk(n, k, b):
    if b is ZERO or n is ZERO:
        return ZERO
    if n.op == "ite":
        return mapleaves(n, lambda m: sumk(m, k, given1(b, k, m)))
    b = under(b, bounds(k, n))
    v = numval(n)
    if v is not None and 0 < v <= 16:
        r = ZERO
        for i in range(v):
            r = padd(r, subst(b, {k: num(i)}))
        return r
    if b.op == "ite" and k not in syms(b.args[0]):
        return ite(atom_cond(b.args[0]), sumk(n, k, b.args[1]), sumk(n, k, b.args[2]))
    c = _threshold(b, k, n)
    if c is not None:
        b1, b2 = _split(b, k, n, c)
        return padd(sumk(c, k, b1), sumk(psub(n, c), k, b2))
    if b.op == "ite" and b.args[0].op == "eq0" and b.args[2] is ZERO:
        # one index at most contributes
        k0 = _kron(b.args[0].args[0], k)
        if k0 is not None:
            return ite(b_and(i_le(ZERO, k0), i_lt(k0, n)), subst(b.args[1], {k: k0}), ZERO)
    r = ZERO
    for m, c in monos(b):
        ind, dep = [], []
        for a, e in m:
            if k in syms(a) or (isinstance(e, T) and k in syms(e)):
                # split k-independent part of a symbolic exponent
                if isinstance(e, T) and k not in syms(a):
                    ed, ei = {}, {}
                    for mm, cc in monos(e):
                        if any(k in syms(x) or (isinstance(y, T) and k in syms(y)) for x, y in mm):
                            ed[mm] = cc
                        else:
                            ei[mm] = cc
                    if ei:
                        ev = mkp(ei)
                        if a.op == "base":
                            r_ = ppow(num(a.args[0]), ev)
                            ind.append(("p", r_))
                        else:
                            x = numval(ev)
                            ind.append((a, x if x is not None else ev))
                        ev2 = mkp(ed)
                        x2 = numval(ev2)
                        dep.append((a, x2 if x2 is not None else ev2))
                        continue
                dep.append((a, e))
            else:
                ind.append((a, e))
        coef = num(c)
        for a, e in ind:
            if a == "p":
                coef = pmul(coef, e)
            else:
                coef = pmul(coef, mkp({((a, e),): 1}))
        body = ONE
        for a, e in dep:
            body = pmul(body, mkp({((a, e),): 1}))
        if body is ONE:
            r = padd(r, pmul(coef, n) if n is not INF else INF)
        elif body is k:
            # sum_{j<n} j = n(n-1)/2
            r = padd(r, pmul(coef, pscale(pmul(n, psub(n, ONE)), Fraction(1, 2))))
        else:
            r = padd(r, pmul(coef, mk("sum", n, lam((k,), body))))
    return r


def _kron(p, k):
    """the integer k0 with p = 0 iff k = k0"""
    cf = coef_of(p, k)
    if cf is None:
        return None
    c = numval(cf[0])
    if not c:
        return None
    k0 = pscale(cf[1], Fraction(-1) / c)
    if all(isinstance(x, int) for m, x in monos(k0)) and all(isinstance(e, int) and e > 0 or a.op == "base" for m, x in monos(k0) for a, e in m):
        return k0
    return None


def given1(b, k, m):
    return under(b, bounds(k, m))


def prodk(n, k, b):
    if b is ONE or n is ZERO:
        return ONE
    if n.op == "ite":
        return mapleaves(n, lambda m: prodk(m, k, b))
    v = numval(n)
    if v is not None and 0 < v <= 8:
        r = ONE
        for i in range(v):
            r = pmul(r, subst(b, {k: num(i)}))
        return r
    if k not in syms(b):
        return ppow(b, n)
    return mk("prod", n, lam((k,), b))


def pprod(n, l):
    k, = bsyms(l, n)
    return prodk(n, k, open_(l, (k,)))


def exists(n, l):
    if n.op == "ite":
        return mapleaves(n, lambda m: exists(m, l))
    l = _bbody(n, l)
    k, = bsyms(l, n)
    b = open_(l, (k,))
    if b is FALSE:
        return FALSE
    if k not in syms(b):
        return b_and(b, b_not(le0(n)) if n is not INF else TRUE)
    # split disjunctive k-independent parts is left to the caller
    v = numval(n)
    if v is not None and 0 <= v <= 16:
        r = FALSE
        for i in range(v):
            r = b_or(r, subst(b, {k: num(i)}))
        return r
    return atom_cond(mk("exists", n, l))


def rec(n, l, inits):
    """component 0 after n steps of inits -> l(k, h...)"""
    if n is ZERO:
        return inits.args[0][0]
    l = _bbody(n, l)
    v = numval(n)
    if v is not None and isinstance(v, int) and 0 < v <= UNROLL[0]:
        cur = list(inits.args[0])
        for i in range(v):
            cur = list(open_(l, (num(i),) + tuple(cur)).args[0])
        return cur[0]
    return mk("rec", n, l, inits)


_rl = {}


def rec_len(s):
    if s in _rl:
        return _rl[s]
    n, l, inits = s.args
    m = l.args[0] - 1
    hs = tuple(fresh("h") for _ in range(m))
    k = fresh()
    body = open_(l, (k,) + hs)
    st = slen(body.args[0][0])
    r = None
    if st is mk("len", hs[0]):
        r = slen(inits.args[0][0])
    else:
        # constant growth
        d = psub(st, mk("len", hs[0])) if st.op in ("poly", "len") else None
        if d is not None and not (syms(d) & (set(hs) | {k})):
            r = padd(slen(inits.args[0][0]), pmul(d, n))
    _rl[s] = r
    return r


UNMODELLED = set()   # names of applications standing for functions whose meaning the analyser does not know


def unmodelled(*ts):
    """an application of unknown meaning in the terms: a difference resting on it proves nothing"""
    seen = set()
    for t in ts:
        for x in subterms(t):
            if x in seen:
                continue
            seen.add(x)
            if x.op == "app" and x.args[0].split("'")[0] in UNMODELLED:
                return x.args[0]
    return None


def bopq(*a):
    return atom_cond(mk("bopq", *a))


def _le0c(p):
    return le0(p)


def _isvc(x, v):
    return isv(x, v)


CTORS = {
    "le0": le0, "eq0": eq0, "eq": eq, "isv": isv,
    "fld": lambda x, v, n: vfield(x, v, n) if v is not None else field(x, n),
    "at": at, "len": slen, "slice": slice_, "cat": lambda s: cat(list(s)),
    "upd": upd, "map": smap, "sum": psum, "prod": pprod, "exists": exists, "rec": rec,
    "cmap": cmap, "ite": ite, "maxk": maxk,
    "bopq": lambda *a: bopq(*a),
}


def idiv(l, r):
    """floor(l / r) over the naturals"""
    a, b = numval(l), numval(r)
    if a is not None and b:
        return num(a // b)
    if b == 1:
        return l
    if b and isinstance(b, int):
        ds = list(monos(l))
        rest = {m: c for m, c in ds if not (isinstance(c, int) and c % b == 0)}
        if len(rest) < len(ds):
            whole = mkp({m: c // b for m, c in ds if m not in rest})
            return padd(whole, idiv(mkp(rest), r))
        if all(isinstance(c, int) for m, c in ds) and any(c >= b or c < 0 for m, c in ds):
            whole = mkp({m: c // b for m, c in ds})
            return padd(whole, idiv(mkp({m: c % b for m, c in ds}), r))
    if l.op == "app" and l.args[0] == "idiv":
        return idiv(l.args[1], pmul(l.args[2], r))
    if r is ONE:
        return l
    return mk("app", "idiv", l, r)


def irem(l, r):
    a, b = numval(l), numval(r)
    if a is not None and b:
        return num(a % b)
    if b == 1:
        return ZERO
    if b and isinstance(b, int):
        ds = list(monos(l))
        if all(isinstance(c, int) for m, c in ds) and any(c >= b or c < 0 for m, c in ds):
            return irem(mkp({m: c % b for m, c in ds}), r)
    return mk("app", "rem", l, r)


def npo2(x):
    v = numval(x)
    if v is not None and isinstance(v, int):
        r = 1
        while r < v:
            r *= 2
        return num(r)
    return mk("app", "npo2", x)


def ilog2(x):
    v = numval(x)
    if v is not None and isinstance(v, int) and v > 0:
        return num(v.bit_length() - 1)
    return mk("app", "ilog2", x)


def trunc(w, x):
    v = numval(x)
    if v is not None and isinstance(v, int):
        return num(v % (1 << w))
    return mk("app", "trunc%d" % w, x)


def natpart(n):
    """max(n, 0) for an integer polynomial n"""
    if n is INF or n.op != "poly":
        return n
    P = mkp({m: c for m, c in n.args[0] if c > 0})
    M = mkp({m: -c for m, c in n.args[0] if c < 0})
    if M is ZERO or i_le(M, P) is TRUE:
        return n
    return psub(smax(P, M), M)


def trip_count(exitc, k):
    """first natural number k at which the monotone condition exitc holds, or None"""
    if exitc is FALSE:
        return INF

    def bound(a):
        # atom le0(p) with p = N - k  (true when k >= N)
        if a.op == "le0":
            r = coef_of(a.args[0], k)
            if r is not None:
                A, B = r
                av = numval(A)
                if av is not None and av < 0 and k not in syms(B):
                    if av == -1:
                        return B
                    return app("cdiv", B, num(-av))
        return None

    def nbound(a):
        # negated atom: not le0(p) with p = k - N + ... : exit when p > 0, i.e. k >= ...
        if a.op == "le0":
            r = coef_of(a.args[0], k)
            if r is not None:
                A, B = r
                av = numval(A)
                if av == 1 and k not in syms(B):
                    return psub(ONE, B)
        if a.op == "eq0":
            return None
        return None

    def go(t):
        # first k at which the (monotone) condition holds
        if t is FALSE:
            return INF
        if t is TRUE:
            return ZERO
        if t.op != "ite":
            return None
        a, hi, lo = t.args
        b = bound(a)
        if b is None:
            b = nbound(a)
            if b is not None:
                hi, lo = lo, hi
        if b is None and a.op == "eq0" and hi is TRUE:
            r = coef_of(a.args[0], k)
            if r is not None and numval(r[0]) in (1, -1) and k not in syms(r[1]):
                b = pneg(r[1]) if numval(r[0]) == 1 else r[1]
        if b is None or not implies(lo, hi):
            return None
        x, y = go(hi), go(lo)
        if x is None or y is None:
            return None
        return smin(smax(natpart(b), x), y)
    n = go(exitc)
    if n is not None:
        return natpart(n)
    return None

def trip_(l):
    """first k with cond(k)"""
    k, = bsyms(l)
    n = trip_count(open_(l, (k,)), k)
    if n is not None:
        return n
    for i in range(UNROLL[0] * 8):
        c = open_(l, (num(i),))
        if c is TRUE:
            return num(i)
        if c is not FALSE:
            break
    return mk("trip", l)


_NUMF = {"idiv": idiv, "rem": irem, "npo2": npo2, "ilog2": ilog2}
for _w in (8, 16, 32, 64):
    _NUMF["trunc%d" % _w] = (lambda w: lambda x: trunc(w, x))(_w)


def _appc(name, *args):
    f = _NUMF.get(name)
    if f is not None:
        return f(*args)
    if name in ("min", "max") and len(args) >= 2:
        r = args[0]
        for x in args[1:]:
            r = smin(r, x) if name == "min" else smax(r, x)
        return r
    return mk("app", name, *args)


CTORS["app"] = _appc
CTORS["trip"] = trip_


# ------------------------------------------------------------------ printing
def show(t, d=0, lim=14):
    if d > lim:
        return "…"
    op = t.op
    s = lambda x: show(x, d + 1, lim)
    if op == "poly":
        if not t.args[0]:
            return "0"
        out = []
        for m, c in t.args[0]:
            f = []
            for a, e in m:
                x = s(a)
                if a.op == "poly":
                    x = "(" + x + ")"
                if not (isinstance(e, int) and e == 1):
                    x += "^" + (str(e) if isinstance(e, int) else "(" + s(e) + ")")
                f.append(x)
            if not f:
                out.append(str(c))
            elif c == 1:
                out.append("·".join(f))
            elif c == -1:
                out.append("-" + "·".join(f))
            else:
                out.append(str(c) + "·" + "·".join(f))
        return " + ".join(out)
    if op == "sym":
        return "".join(str(x) for x in t.args)
    if op == "bv":
        return "_%d" % t.args[0]
    if op == "base":
        return str(t.args[0])
    if op in ("true", "false", "inf", "bot"):
        return op.upper()
    if op == "ite":
        if t.args[1] is TRUE and t.args[2] is FALSE:
            return s(t.args[0])
        if t.args[1] is FALSE and t.args[2] is TRUE:
            return "!" + s(t.args[0])
        return "if{%s ? %s : %s}" % (s(t.args[0]), s(t.args[1]), s(t.args[2]))
    if op == "le0":
        return "[%s<=0]" % s(t.args[0])
    if op == "eq0":
        return "[%s==0]" % s(t.args[0])
    if op == "isv":
        return "[%s is %s]" % (s(t.args[0]), t.args[1])
    if op == "adt":
        return "%s%s" % (t.args[1] or t.args[0].split("::")[-1],
                         "{" + ", ".join("%s:%s" % (n, s(v)) for n, v in t.args[2]) + "}" if t.args[2] else "")
    if op == "tup":
        return "(" + ", ".join(s(x) for x in t.args[0]) + ")"
    if op == "lst":
        return "[" + ", ".join(s(x) for x in t.args[0]) + "]"
    if op == "cat":
        return " ++ ".join(s(x) for x in t.args[0])
    if op == "at":
        return "%s[%s]" % (s(t.args[0]), s(t.args[1]))
    if op == "fld":
        return "%s.%s%s" % (s(t.args[0]), (t.args[1] + "#") if t.args[1] else "", t.args[2])
    if op == "lam":
        n, h, b = t.args
        return "\\%s.%s" % (" ".join("_%d" % (h + i) for i in range(n)), s(b))
    if op == "map":
        return "<%s | %s>" % (s(t.args[1]), s(t.args[0]))
    if op == "len":
        return "|%s|" % s(t.args[0])
    if op == "app" and t.args[0] == "cs":
        return "cs<%s>" % s(t.args[2])
    if op == "app":
        return "%s(%s)" % (t.args[0], ", ".join(s(x) if isinstance(x, T) else str(x) for x in t.args[1:]))
    if op == "str":
        return repr(t.args[0])

    def sa(a):
        if isinstance(a, T):
            return s(a)
        if isinstance(a, tuple):
            return "(" + ",".join(sa(x) for x in a) + ")"
        return str(a)
    return "%s(%s)" % (op, ", ".join(sa(a) for a in t.args))
