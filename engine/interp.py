"""Abstract interpreter over the typed tree.

One abstract state per program point (joins at merges, no path enumeration); local
functions are inlined, loops are solved by recurrence recognition or kept as `rec`
terms, external functions are modelled (models.py) or become uninterpreted.
"""
from terms import *
import terms as TT


class Ev:
    __slots__ = ("kind", "data", "guard", "sp", "fn", "stack")

    def __init__(self, kind, data, guard, sp, fn, stack=()):
        self.kind = kind
        self.data = data
        self.guard = guard
        self.sp = sp
        self.fn = fn
        self.stack = stack

    def __repr__(self):
        if self.kind == "loop":
            return "loop[%s<%s]{%s}" % (self.data[0], self.data[1], "; ".join(map(repr, self.data[2])))
        return "%s%s @%s" % (self.kind, self.data, self.sp)


def unslice(h, s, n):
    """h cut into pieces, with writes to places of the pieces, as writes to h itself"""
    if s.op != "cat":
        return s
    off, ups = ZERO, []
    for x in s.args[0]:
        mine = []
        while x.op == "upd":
            mine.append((padd(off, x.args[1]), x.args[2]))
            x = x.args[0]
        if x.op != "slice" or x.args[0] is not h or x.args[1] is not off:
            return s
        off = x.args[2]
        ups += reversed(mine)
    if off is not n and off is not mk("len", h):
        return s
    r = h
    for i, v in ups:
        r = upd(r, i, v)
    return r


def map_ev(e, f):
    if e.kind == "loop":
        k, n, sub = e.data
        return Ev("loop", (k, f(n), [map_ev(x, f) for x in sub]), f(e.guard), e.sp, e.fn, e.stack)

    def g(x):
        if isinstance(x, T):
            return f(x)
        if isinstance(x, tuple):
            return tuple(g(y) for y in x)
        return x
    return Ev(e.kind, g(e.data), f(e.guard), e.sp, e.fn, e.stack)


class St:
    __slots__ = ("mem", "pc")

    def __init__(self, mem, pc):
        self.mem = mem
        self.pc = pc

    def copy(self):
        return St(dict(self.mem), self.pc)

    @property
    def dead(self):
        return self.pc is FALSE

    def kill(self):
        self.pc = FALSE


class Frame:
    def __init__(self, fn, fid, tenv, parent=None):
        self.fn = fn
        self.crate = fn["crate"]
        self.fid = fid
        self.tenv = tenv
        self.rets = []
        self.alias = {}
        self.loops = {}
        self.scopes = {}
        self.depth = 0 if parent is None else parent.depth + 1
        self.parent = parent


def ref(loc, path=()):
    return mk("ref", loc, path)


class Abort(Exception):
    pass


# calls whose results are arbitrary as far as the properties go: differing arguments may be taken to give differing results
FREECALLS = {"Digest::update", "Digest::new", "Digest::finalize", "Field::from_random_bytes", "thread::thread_rng",
             "SeedableRng::from_seed", "SeedableRng::seed_from_u64", "SeedableRng::from_rng"}


class Interp:
    MAXDEPTH = 60

    def __init__(self, prog, models=None, opaque=(), budget=400000):
        self.prog = prog
        self.trace = []
        self.nloc = 0
        self.nfid = 0
        self.counters = {}
        self.ks = []
        self.models = models or {}
        self.opaque = set(opaque)
        self.budget = budget
        self.steps = 0
        self.analysed = set()
        self.unknown = {}
        self.stack = []
        self.escapes = []   # (pc, kind) of panics
        self.loopstack = []
        import models as M
        self.M = M

    # ---------------------------------------------------------------- util
    def newloc(self, tag="t"):
        self.nloc += 1
        return (tag, self.nloc)

    def count(self, key):
        n = self.counters.get(key, 0)
        self.counters[key] = n + 1
        return n

    def ev(self, kind, data, st, sp, fr):
        self.trace.append(Ev(kind, data, st.pc, sp, fr.fn["p"] if fr else "", tuple(self.stack[-6:])))

    def mark(self):
        return (len(self.trace), dict(self.counters), self.nloc, self.nfid)

    def rollback(self, m):
        del self.trace[m[0]:]
        self.counters = dict(m[1])

    # ---------------------------------------------------------------- memory
    def getp(self, v, path, st=None):
        for p in path:
            v = self.proj(v, p, st)
        return v

    def proj(self, v, p, st=None):
        if v.op == "ref" and st is not None:
            v = self.load(v, st)
        k = p[0]
        if k == "f":
            return field(v, p[1])
        if k == "vf":
            return vfield(v, p[1], p[2])
        if k == "i":
            return at(v, p[1])
        if k == "s":
            return slice_(v, p[1], p[2])
        raise Abort("proj")

    def setp(self, v, path, x):
        if not path:
            return x
        p = path[0]
        k = p[0]
        if k == "f":
            v = self.expand(v, p)
            if v.op == "ite":
                return mapleaves(v, lambda l: self.setp(l, path, x))
            inner = self.setp(field(v, p[1]), path[1:], x)
            if v.op == "adt":
                return adt(v.args[0], v.args[1], tuple((n, inner if n == p[1] else y) for n, y in v.args[2]))
            if v.op == "tup":
                return mk("tup", tuple(inner if str(i) == p[1] else y for i, y in enumerate(v.args[0])))
            return app("setfield", v, mk("str", p[1]), inner)
        if k == "vf":
            if v.op == "ite":
                return mapleaves(v, lambda l: self.setp(l, path, x))
            inner = self.setp(vfield(v, p[1], p[2]), path[1:], x)
            if v.op == "adt":
                if v.args[1] != p[1]:
                    return v
                return adt(v.args[0], v.args[1], tuple((n, inner if n == p[2] else y) for n, y in v.args[2]))
            return app("setvfield", v, mk("str", p[1] + "." + p[2]), inner)
        if k == "i":
            inner = self.setp(at(v, p[1]), path[1:], x)
            return upd(v, p[1], inner)
        if k == "s":
            old = slice_(v, p[1], p[2])
            inner = self.setp(old, path[1:], x)
            if inner is old:
                return v
            return cat([slice_(v, ZERO, p[1]), inner, slice_(v, p[2], slen(v))])
        raise Abort("setp")

    def expand(self, v, p):
        if v.op in ("adt", "tup", "ite"):
            return v
        key = p[2] if len(p) > 2 else None
        if key is None:
            return v
        if isinstance(key, tuple):
            return mk("tup", tuple(field(v, str(i)) for i in range(key[1])))
        d = self.prog.adts.get(key)
        if d is None or d["k"] != "struct":
            return v
        vn, fs = d["v"][0]
        return adt(key, vn, tuple((f[0], field(v, f[0])) for f in fs))

    def load(self, r, st):
        """value behind a reference"""
        if r.op == "ref":
            loc, path = r.args
            v = st.mem.get(loc)
            if v is None:
                return BOT
            return self.getp(v, path, st)
        if r.op == "ite":
            return mapleaves(r, lambda l: self.load(l, st))
        return r

    def store(self, r, x, st):
        if r.op == "ref":
            loc, path = r.args
            # a reference stored inside the path: follow it
            v = st.mem.get(loc, BOT)
            base = v
            for i, p in enumerate(path):
                if base.op == "ref" and i > 0 or (base.op == "ref" and i == 0):
                    return self.store(ref(base.args[0], base.args[1] + path[i:]), x, st)
                base = self.proj(base, p)
            st.mem[loc] = self.setp(v, path, x)
            return
        if r.op == "ite":
            c = atom_cond(r.args[0])
            old = {}
            s1 = st.copy()
            self.store(r.args[1], x, s1)
            s2 = st.copy()
            self.store(r.args[2], x, s2)
            self.joinmem(st, c, s1.mem, s2.mem)
            return
        # store through an untracked reference
        self.unknown["store"] = self.unknown.get("store", 0) + 1

    def joinmem(self, st, c, m1, m2):
        if m1 is m2:
            st.mem = m1
            return
        out = {}
        for k, v1 in m1.items():
            v2 = m2.get(k)
            if v2 is None or v1 is v2:
                out[k] = v1
            else:
                out[k] = ite(c, v1, v2)
        for k, v2 in m2.items():
            if k not in out:
                out[k] = v2
        st.mem = out

    def pure(self, v, st, depth=0):
        """value with references replaced by their contents"""
        if v.op == "ref":
            return self.pure(self.load(v, st), st, depth + 1) if depth < 6 else v
        if v.op == "adt" and v.args[2]:
            return adt(v.args[0], v.args[1], tuple((n, self.pure(x, st, depth)) for n, x in v.args[2]))
        if v.op == "tup" and v.args[0]:
            return mk("tup", tuple(self.pure(x, st, depth) for x in v.args[0]))
        if v.op == "lst" and v.args[0]:
            return lst([self.pure(x, st, depth) for x in v.args[0]])
        if v.op == "ite":
            return mapleaves(v, lambda l: self.pure(l, st, depth))
        if v.op == "clo":
            return app("closure", mk("str", v.args[0]), *[self.pure(x, st, depth) for _, x in v.args[2]])
        return v

    # ---------------------------------------------------------------- types
    def ty(self, fr, t):
        return self.prog.types[fr.crate][t]

    def adt_of(self, fr, t):
        x = self.ty(fr, t)
        while x["k"] == "ref":
            x = self.ty(fr, x["t"])
        if x["k"] == "adt":
            return x["p"]
        if x["k"] == "tuple":
            return ("tup", len(x["a"]))
        return None

    def strip(self, fr, t):
        x = self.ty(fr, t)
        while x["k"] == "ref":
            x = self.ty(fr, x["t"])
        return x

    # ---------------------------------------------------------------- entry
    def run(self, f, args, st=None, tenv=None):
        """analyse function f; args are terms.  Returns (value, state)."""
        if st is None:
            st = St({}, TRUE)
        v = self.call_fn(f, args, st, None, tenv or {})
        return v, st

    def call_fn(self, f, args, st, caller, tenv=None):
        self.analysed.add(f["p"])
        self.nfid += 1
        fr = Frame(f, self.nfid, tenv or {}, caller)
        if fr.depth > self.MAXDEPTH or self.stack.count(f["p"]) > self.RECUR:
            raise Abort("recursion in " + f["p"])
        self.stack.append(f["p"])
        base = st.pc
        try:
            ps = f.get("params", [])
            for p, a in zip(ps, args):
                if "pat" in p:
                    self.bind(p["pat"], a, None, st, fr)
            v = self.ev_(f["b"], st, fr)
            if not st.dead:
                fr.rets.append((st.copy(), v))
            return self.merge(fr.rets, st, base, fr)
        finally:
            self.stack.pop()

    def merge(self, rets, st, base, fr):
        rets = [r for r in rets if not r[0].dead]
        if not rets:
            st.kill()
            return BOT
        s0, v0 = rets[-1]
        mem = s0.mem
        pc = s0.pc
        val = v0
        for s, v in rets[:-1]:
            pc = b_or(pc, s.pc)
        FACTS[0] = facts_from(pc)       # what holds after the join, not what held on the last path
        pc = s0.pc
        for s, v in reversed(rets[:-1]):
            g = restrict(s.pc, base)
            pc = b_or(pc, s.pc)
            tmp = St(None, TRUE)
            self.joinmem(tmp, g, s.mem, mem)
            mem = tmp.mem
            val = ite(g, v, val)
        st.mem = dict(mem)
        st.pc = pc
        return val

    # ---------------------------------------------------------------- patterns
    def bind(self, pat, v, place, st, fr):
        """bind variables of an irrefutable (or already selected) pattern"""
        c = self.match(pat, v, place, st, fr)
        return c

    def match(self, pat, v, place, st, fr):
        """condition that v matches pat; binds variables into st"""
        k = pat["k"]
        if k == "wild":
            return TRUE
        if k == "bind":
            c = TRUE
            if "sub" in pat:
                c = self.match(pat["sub"], v, place, st, fr)
            loc = ("v", fr.fid, pat["v"])
            if pat["ref"] == 2:
                if place is None:
                    l = self.newloc()
                    st.mem[l] = v
                    place = ref(l)
                st.mem[loc] = place
            else:
                st.mem[loc] = v
                if self.binds is not None and pat["ref"] == 0:
                    self.binds.append((fr.fn, pat, v, st, loc))
            return c
        if k == "deref":
            if v.op == "ref" or (v.op == "ite" and any(l.op == "ref" for l in leaves(v))):
                return self.match(pat["sub"], self.load(v, st), v, st, fr)
            return self.match(pat["sub"], v, place, st, fr)
        if k == "variant":
            if v.op == "ref":
                place = v
                v = self.load(v, st)
            v = self.norm(v, st)
            c = isv(v, pat["vn"])
            if c is FALSE:
                # still bind, with bottom
                pass
            for n, p in pat["f"]:
                x = vfield(v, pat["vn"], n)
                pl = self.subplace(place, ("vf", pat["vn"], n))
                c = b_and(c, self.match(p, x, pl, st, fr))
            return c
        if k == "leaf":
            if v.op == "ref":
                place = v
                v = self.load(v, st)
            c = TRUE
            key = None
            if v.op == "tup":
                key = ("tup", len(v.args[0]))
            for n, p in pat["f"]:
                x = field(v, n)
                pl = self.subplace(place, ("f", n, key))
                c = b_and(c, self.match(p, x, pl, st, fr))
            return c
        if k == "const":
            if v.op == "ref":
                v = self.load(v, st)
            val = pat["val"]
            if val in (0, 1) and "t" in pat and self.ty(fr, pat["t"]).get("s") == "bool":
                return self.tobool(v) if val else b_not(self.tobool(v))
            w = self.litval(val)
            return eq(v, w)
        if k == "or":
            c = FALSE
            for p in pat["pats"]:
                m = self.match(p, v, place, st, fr)
                c = b_or(c, m)
            return c
        if k == "range":
            lo, hi = pat.get("lo"), pat.get("hi")
            c = TRUE
            if lo is not None:
                c = b_and(c, i_le(self.litval(lo), v))
            if hi is not None:
                h = self.litval(hi)
                c = b_and(c, i_le(v, h) if pat["incl"] else i_lt(v, h))
            return c
        if k == "slice":
            if v.op == "ref":
                place = v
                v = self.load(v, st)
            n = slen(v)
            pre, suf = pat["pre"], pat["suf"]
            need = num(len(pre) + len(suf))
            c = i_le(need, n) if "mid" in pat else eq(n, need)
            for i, p in enumerate(pre):
                c = b_and(c, self.match(p, at(v, num(i)), self.subplace(place, ("i", num(i))), st, fr))
            for i, p in enumerate(suf):
                ix = psub(n, num(len(suf) - i))
                c = b_and(c, self.match(p, at(v, ix), self.subplace(place, ("i", ix)), st, fr))
            if "mid" in pat:
                lo, hi = num(len(pre)), psub(n, num(len(suf)))
                c = b_and(c, self.match(pat["mid"], slice_(v, lo, hi), self.subplace(place, ("s", lo, hi)), st, fr))
            return c
        if k == "guardpat":
            c = self.match(pat["sub"], v, place, st, fr)
            g = self.ev_(pat["cond"], st, fr)
            return b_and(c, g)
        raise Abort("pattern " + k)

    def subplace(self, place, p):
        if place is None:
            return None
        if place.op == "ref":
            return ref(place.args[0], place.args[1] + (p,))
        if place.op == "ite":
            return mapleaves(place, lambda l: self.subplace(l, p))
        return None

    def litval(self, v):
        if isinstance(v, bool):
            return TRUE if v else FALSE
        if isinstance(v, int):
            return num(v)
        if isinstance(v, dict):
            if "bytes" in v:
                return mk("str", v["bytes"])
            if "str" in v:
                return mk("str", v["str"])
            return mk("str", str(sorted(v.items())))
        return mk("str", str(v))

    def norm(self, v, st):
        if v.op == "ite":
            return restrict(v, st.pc)
        return v

    # ---------------------------------------------------------------- places
    def place(self, e, st, fr):
        """('ref' term) for a place expression, or None when it is a plain value"""
        k = e["k"]
        if k == "var":
            loc = ("v", fr.fid, e["v"])
            return ref(loc)
        if k == "upvar":
            a = fr.alias.get(e["v"])
            if a is not None:
                return a
            return ref(("v", fr.fid, e["v"]))
        if k == "deref":
            v = self.ev_(e["e"], st, fr)
            if st.dead:
                return None
            if v.op == "ref":
                return v
            if v.op == "ite" and all(l.op == "ref" for l in leaves(v)):
                return v
            return self.place(e["e"], st, fr) if e["e"]["k"] in ("var", "upvar", "field", "index", "deref") else None
        if k == "field":
            b = self.place(e["e"], st, fr)
            if b is None or st.dead:
                return None
            b = self.through(b, st)
            key = self.adt_of(fr, e["e"]["t"])
            return self.subplace(b, ("f", e["n"], key))
        if k == "index":
            b = self.place(e["e"], st, fr)
            i = self.ev_(e["i"], st, fr)
            if b is None or st.dead:
                return None
            b = self.through(b, st)
            return self.subplace(b, ("i", i))
        if k in ("block",) and not e["st"] and "e" in e:
            return self.place(e["e"], st, fr)
        return None

    def through(self, r, st):
        """follow references stored at r"""
        n = 0
        while r.op == "ref" and n < 8:
            v = self.load(r, st)
            if v.op == "ref":
                r = v
                n += 1
            else:
                break
        return r

    # ---------------------------------------------------------------- expressions
    def ev_(self, e, st, fr):
        if st.dead:
            return BOT
        self.steps += 1
        if self.steps > self.budget:
            raise Abort("budget")
        m = getattr(self, "e_" + e["k"], None)
        if m is None:
            raise Abort("expr " + e["k"])
        FACTS[0] = facts_from(st.pc)
        v = m(e, st, fr)
        FACTS[0] = facts_from(st.pc)
        if st.dead:
            return BOT
        return v

    def e_lit(self, e, st, fr):
        v = e["v"]
        if isinstance(v, int) and not isinstance(v, bool):
            return num(v)
        return self.litval(v)

    def e_var(self, e, st, fr):
        v = st.mem.get(("v", fr.fid, e["v"]))
        return BOT if v is None else v

    def e_upvar(self, e, st, fr):
        a = fr.alias.get(e["v"])
        if a is not None:
            return self.load(a, st)
        v = st.mem.get(("v", fr.fid, e["v"]))
        return BOT if v is None else v

    def e_block(self, e, st, fr):
        rs = e.get("rs")
        tgt = None
        if rs is not None:
            tgt = {"breaks": [], "conts": []}
            fr.scopes.setdefault(rs, []).append(tgt)
        base = st.pc
        try:
            v = self.block_body(e, st, fr)
        finally:
            if tgt is not None:
                fr.scopes[rs].pop()
        if tgt is not None and tgt["breaks"]:
            rets = list(tgt["breaks"])
            if not st.dead:
                rets.append((st.copy(), v))
            return self.merge(rets, st, base, fr)
        return v

    def block_body(self, e, st, fr):
        for s in e["st"]:
            if st.dead:
                return BOT
            if s["k"] == "let":
                if "init" in s:
                    pl = None
                    if s["pat"]["k"] != "bind" or s["pat"]["ref"] == 2:
                        pl = self.place(s["init"], st, fr) if s["init"]["k"] in ("var", "field", "deref", "upvar", "index") else None
                    v = self.ev_(s["init"], st, fr)
                    if st.dead:
                        return BOT
                    if "else" in s:
                        c = self.match(s["pat"], v, pl, st, fr)
                        c = restrict(c, st.pc)
                        s2 = st.copy()
                        s2.pc = b_and(st.pc, b_not(c))
                        if not s2.dead:
                            self.ev_(s["else"], s2, fr)
                        st.pc = b_and(st.pc, c)
                    else:
                        self.match(s["pat"], v, pl, st, fr)
                else:
                    pass
            else:
                self.ev_(s["e"], st, fr)
        if st.dead:
            return BOT
        if "e" in e:
            return self.ev_(e["e"], st, fr)
        return UNIT

    def e_if(self, e, st, fr):
        c = self.ev_(e["c"], st, fr)
        if st.dead:
            return BOT
        return self.branch(c, st, fr,
                           lambda s: self.ev_(e["th"], s, fr),
                           lambda s: self.ev_(e["e"], s, fr) if "e" in e else UNIT)

    def branch(self, c, st, fr, f1, f2):
        c = self.tobool(c)
        c = restrict(c, st.pc)
        p1 = b_and(st.pc, c)
        p2 = b_and(st.pc, b_not(c))
        if p2 is FALSE:
            return f1(st)
        if p1 is FALSE:
            return f2(st)
        s1 = St(dict(st.mem), p1)
        s2 = St(st.mem, p2)
        FACTS[0] = facts_from(p1)
        v1 = f1(s1)
        FACTS[0] = facts_from(p2)
        v2 = f2(s2)
        FACTS[0] = facts_from(b_or(s1.pc, s2.pc))
        if s1.dead and s2.dead:
            st.kill()
            return BOT
        if s1.dead:
            st.mem, st.pc = s2.mem, s2.pc
            self.settle(st, st.pc, {})
            return restrict(v2, st.pc)
        if s2.dead:
            st.mem, st.pc = s1.mem, s1.pc
            self.settle(st, st.pc, {})
            return restrict(v1, st.pc)
        self.joinmem(st, c, s1.mem, s2.mem)
        st.pc = b_or(s1.pc, s2.pc)
        return ite(c, v1, v2)

    def settle(self, st, pc, before):
        """after one side of a branch died: drop the alternatives that belonged to it"""
        def go(v, d):
            if v.op == "ite":
                return restrict(v, pc)
            if d and v.op == "adt" and v.args[2]:
                xs = tuple((n, go(x, d - 1)) for n, x in v.args[2])
                if all(x[1] is y[1] for x, y in zip(xs, v.args[2])):
                    return v
                return adt(v.args[0], v.args[1], xs)
            return v
        for loc, v in list(st.mem.items()):
            if before.get(loc) is v and False:
                continue
            w = go(v, 2)
            if w is not v:
                st.mem[loc] = w

    def tobool(self, c):
        if c.op in ("true", "false"):
            return c
        if c.op == "ite":
            return mapleaves(c, self.tobool)
        if c.op in ("le0", "eq0", "eq", "isv", "bopq", "exists"):
            return atom_cond(c)
        if c.op == "bot":
            return FALSE
        n = numval(c)
        if n is not None:
            return TRUE if n else FALSE
        return bopq("v", c)

    def e_match(self, e, st, fr):
        sc = e["e"]
        pl = self.place(sc, st, fr) if sc["k"] in ("var", "field", "deref", "upvar", "index") else None
        v = self.ev_(sc, st, fr) if pl is None else self.load(pl, st)
        if pl is not None and st.mem is not None:
            pass
        if st.dead:
            return BOT
        return self.arms(e["arms"], 0, v, pl, st, fr)

    def arms(self, arms, i, v, pl, st, fr):
        if i >= len(arms):
            st.kill()
            return BOT
        a = arms[i]
        c = self.match(a["pat"], v, pl, st, fr)
        if "guard" in a:
            # evaluate the guard under the pattern condition
            s1 = st.copy()
            s1.pc = b_and(st.pc, c)
            if s1.dead:
                return self.arms(arms, i + 1, v, pl, st, fr)
            g = self.tobool(self.ev_(a["guard"], s1, fr))
            st.mem = s1.mem
            c = b_and(c, g)
        if i == len(arms) - 1 and "guard" not in a:
            c = TRUE
        return self.branch(c, st, fr,
                           lambda s: self.ev_(a["b"], s, fr),
                           lambda s: self.arms(arms, i + 1, v, pl, s, fr))

    def e_let(self, e, st, fr):
        sc = e["e"]
        pl = self.place(sc, st, fr) if sc["k"] in ("var", "field", "deref", "upvar", "index") else None
        v = self.ev_(sc, st, fr) if pl is None else self.load(pl, st)
        if st.dead:
            return BOT
        return self.match(e["pat"], v, pl, st, fr)

    def e_logic(self, e, st, fr):
        l = self.tobool(self.ev_(e["l"], st, fr))
        if st.dead:
            return BOT
        if e["op"] == "And":
            return self.branch(l, st, fr, lambda s: self.tobool(self.ev_(e["r"], s, fr)), lambda s: FALSE)
        return self.branch(l, st, fr, lambda s: TRUE, lambda s: self.tobool(self.ev_(e["r"], s, fr)))

    def e_call(self, e, st, fr):
        if "fe" in e:
            c = self.ev_(e["fe"], st, fr)
            args = [self.ev_(a, st, fr) for a in e["args"]]
            if st.dead:
                return BOT
            return self.apply(c, args, st, fr, e)
        f = e["f"]
        args = []
        for a in e["args"]:
            args.append(self.ev_(a, st, fr))
            if st.dead:
                return BOT
        if f.get("ctor"):
            return self.ctor(f, args, st)
        return self.callee(f, args, st, fr, e)

    def ctor(self, f, args, st):
        return adt(f["adt"], f["variant"], tuple((str(i), a) for i, a in enumerate(args)))

    def callee(self, f, args, st, fr, e):
        key = self.M.key(f)
        for k in (f.get("r"), f["p"]):
            if k in self.models:
                r = self.models[k](self, f, args, st, fr, e)
                if r is not None:
                    return r
        if key in self.models:
            r = self.models[key](self, f, args, st, fr, e)
            if r is not None:
                return r
        h = self.M.MODELS.get(key)
        if h is not None:
            r = h(self, f, args, st, fr, e)
            if r is not None:
                return r
        tgt = self.resolve(f, fr, args, st)
        if tgt is not None and tgt["p"] not in self.opaque:
            return self.call_fn(tgt, args, st, fr, self.tenv_of(tgt, f, fr))
        return self.opq(key, args, st, fr, e, f)

    def tenv_of(self, tgt, f, fr):
        """the generic parameters of the function called: name -> (crate, type, frame the type is to be read in)"""
        g = tgt.get("g", [])
        a = f.get("ra") if f.get("r") == tgt["p"] else f.get("a") if f["p"] == tgt["p"] else None
        if a is None or len(a) != len(g):
            return {}
        return {n: (fr.crate, t, fr) for n, t in zip(g, a) if isinstance(t, (int, dict))}

    def bound(self, fr, x):
        """the type a generic parameter stands for in this call, as (type, frame to read it in)"""
        while x["k"] == "param" and fr is not None and isinstance(fr.tenv.get(x["s"], (0, None))[1], int):
            c, t, fr2 = fr.tenv[x["s"]]
            x, fr = self.prog.types[c][t], fr2
            while x["k"] == "ref":
                x = self.prog.types[c][x["t"]]
        return x, fr

    def resolve(self, f, fr, args, st):
        p = f.get("r") or f["p"]
        fn = self.prog.fns.get(p)
        if fn is not None and "b" in fn:
            if fn.get("trait") and "r" not in f:
                # trait method with a default body: prefer an impl when unique
                pass
            return fn
        # unresolved trait method on a type we know from the value
        if "trait" in f and "self" in f:
            s = self.bound(fr, self.strip(fr, f["self"]))[0]
            cands = []
            for im in self.prog.impls:
                if im.get("trait") != f["trait"]:
                    continue
                t = self.prog.types[im["crate"]][im["self"]]
                if s["k"] == "adt" and t["k"] == "adt" and t["p"] == s["p"]:
                    for it in im["items"]:
                        if it[0] == f["name"] and it[1] == "fn":
                            cands.append(it[2])
            if len(cands) == 1:
                return self.prog.fns.get(cands[0])
            v = args[0] if args else None
            if v is not None:
                v = self.load(v, st) if v.op == "ref" else v
                if v.op == "adt":
                    cands = []
                    for im in self.prog.impls:
                        if im.get("trait") != f["trait"]:
                            continue
                        t = self.prog.types[im["crate"]][im["self"]]
                        if t["k"] == "adt" and t["p"] == v.args[0]:
                            for it in im["items"]:
                                if it[0] == f["name"] and it[1] == "fn":
                                    cands.append(it[2])
                    if len(cands) == 1:
                        return self.prog.fns.get(cands[0])
        return None

    def opq(self, key, args, st, fr, e, f=None):
        """uninterpreted call; mutable arguments are havocked"""
        pargs = [self.pure(a, st) for a in args]
        self.unknown[key] = self.unknown.get(key, 0) + 1
        if key not in FREECALLS:
            TT.UNMODELLED.add(key)
        val = app(key, *pargs)
        self.ev("call", (key,) + tuple(pargs), st, e.get("sp"), fr)
        for i, a in enumerate(args):
            if a.op == "ref":
                self.store(a, app(key + "'" + str(i), *pargs), st)
        return val

    def apply(self, c, args, st, fr, e):
        """call a closure / function value"""
        if c.op == "ref":
            c = self.load(c, st)
        if c.op == "ite":
            return self.branch(atom_cond(c.args[0]), st, fr,
                               lambda s: self.apply(c.args[1], args, s, fr, e),
                               lambda s: self.apply(c.args[2], args, s, fr, e))
        if c.op == "clo":
            f = self.prog.fns.get(c.args[0])
            if f is None:
                raise Abort("closure body")
            self.analysed.add(f["p"])
            self.nfid += 1
            nf = Frame(f, self.nfid, {}, fr)
            own = fr
            while own is not None and not c.args[0].startswith(own.fn["p"] + "::"):
                own = own.parent
            if own is not None:
                nf.tenv = own.tenv
            if nf.depth > self.MAXDEPTH:
                raise Abort("depth")
            for v, x, byref in c.args[1]:
                if byref:
                    nf.alias[v] = x
                else:
                    st.mem[("v", nf.fid, v)] = x
            self.stack.append(f["p"])
            base = st.pc
            try:
                ps = f["params"][1:]
                for p, a in zip(ps, args):
                    if "pat" in p:
                        self.bind(p["pat"], a, None, st, nf)
                v = self.ev_(f["b"], st, nf)
                if not st.dead:
                    nf.rets.append((st.copy(), v))
                return self.merge(nf.rets, st, base, nf)
            finally:
                self.stack.pop()
        if c.op == "fn":
            f = self.fnvals[c]
            if f.get("ctor"):
                return self.ctor(f, args, st)
            return self.callee(f, args, st, fr, e)
        if self.cbhook is not None:
            r = self.cbhook(self, c, args, st, fr, e)
            if r is not None:
                return r
        pargs = [self.pure(a, st) for a in args]
        self.ev("call", ("?", self.pure(c, st)) + tuple(pargs), st, e.get("sp"), fr)
        for i, a in enumerate(args):
            if a.op == "ref":
                self.store(a, app("apply'" + str(i), self.pure(c, st), *pargs), st)
        return app("apply", self.pure(c, st), *pargs)

    fnvals = {}
    binds = None
    cbhook = None
    rawmsm = False

    def e_zst(self, e, st, fr):
        f = e.get("f")
        if f is None:
            return UNIT
        t = mk("fn", f.get("r") or f["p"], f.get("variant"))
        self.fnvals[t] = f
        return t

    def e_const(self, e, st, fr):
        f = e["f"]
        p = f.get("r") or f["p"]
        k = self.M.key(f)
        if p in self.models:
            return self.models[p](self, f, [], st, fr, e)
        if k in self.models:
            return self.models[k](self, f, [], st, fr, e)
        h = self.M.CONSTS.get(k)
        if h is not None:
            return h
        fn = self.prog.fns.get(p)
        if fn is not None and "b" in fn and p not in self.opaque:
            return self.call_fn(fn, [], st, fr)
        return app("const:" + k, *self.tyargs(f, fr))

    def tyargs(self, f, fr):
        out = []
        for a in ([f["self"]] if "self" in f else []):
            out.append(mk("str", self.prog.tys(fr.crate, a)))
        return out

    def e_cparam(self, e, st, fr):
        return self.cvalue(e["p"], fr)

    def cvalue(self, name, fr):
        """value of a constant generic parameter"""
        b = fr.tenv.get(name)
        if b is not None and isinstance(b[1], dict):
            if "c" in b[1]:
                return num(b[1]["c"])
            if "cp" in b[1]:
                return self.cvalue(b[1]["cp"], b[2])
        while fr.parent is not None:
            fr = fr.parent
        return self.consts.get(name, sym("const ", name))

    consts = {}
    RECUR = 2

    def e_static(self, e, st, fr):
        return app("static", mk("str", e["p"]))

    def e_constblock(self, e, st, fr):
        return app("constblock")

    def e_closure(self, e, st, fr):
        caps = []
        seen = {}
        for u in e["up"]:
            byref = False
            x = u
            if x["k"] == "borrow":
                byref = x["m"]
                x = x["e"]
            root = x
            wentderef = False
            while root["k"] in ("field", "deref", "index"):
                if root["k"] == "deref":
                    wentderef = True
                root = root["e"]
            if root["k"] not in ("var", "upvar"):
                continue
            v = root["v"]
            if byref:
                seen[v] = True
            else:
                seen.setdefault(v, False)
            if v not in [c[0] for c in caps]:
                caps.append((v, root))
        out = []
        for v, root in caps:
            if seen[v]:
                out.append((v, self.place(root, st, fr), True))
            else:
                out.append((v, self.ev_(root, st, fr), False))
        return mk("clo", e["p"], tuple(out), tuple(("", x) for _, x, _ in out))

    def e_deref(self, e, st, fr):
        v = self.ev_(e["e"], st, fr)
        return self.load(v, st)

    def e_field(self, e, st, fr):
        b = self.ev_(e["e"], st, fr)
        if b.op == "ref" or b.op == "ite" and any(l.op == "ref" for l in leaves(b)):
            b = self.load(b, st)
        return field(b, e["n"])

    def e_index(self, e, st, fr):
        b = self.ev_(e["e"], st, fr)
        b = self.load(b, st)
        i = self.ev_(e["i"], st, fr)
        if st.dead:
            return BOT
        self.oob(b, i, st, fr, e)
        return at(b, i)

    def oob(self, b, i, st, fr, e):
        n = slen(b)
        c = i_lt(i, n)
        if c is TRUE:
            return
        if b_and(st.pc, b_not(c)) is FALSE:
            return
        self.ev("idx", (self.pure(b, st), i, n), st, e.get("sp"), fr)

    def e_borrow(self, e, st, fr):
        if e["m"]:
            p = self.place(e["e"], st, fr)
            if st.dead:
                return BOT
            if p is not None:
                return self.through(p, st)
            v = self.ev_(e["e"], st, fr)
            if v.op == "ref":
                return v
            l = self.newloc()
            st.mem[l] = v
            return ref(l)
        return self.ev_(e["e"], st, fr)

    def e_assign(self, e, st, fr):
        r = self.ev_(e["r"], st, fr)
        if st.dead:
            return BOT
        p = self.place(e["l"], st, fr)
        if st.dead:
            return BOT
        if p is None:
            self.unknown["assign"] = self.unknown.get("assign", 0) + 1
            return UNIT
        self.store(p, r, st)
        return UNIT

    def e_assignop(self, e, st, fr):
        r = self.ev_(e["r"], st, fr)
        p = self.place(e["l"], st, fr)
        if st.dead:
            return BOT
        if p is None:
            return UNIT
        p = self.through(p, st)
        old = self.load(p, st)
        r = self.load(r, st)
        self.store(p, self.binop(e["op"].replace("Assign", ""), old, r, e, st, fr), st)
        return UNIT

    def e_bin(self, e, st, fr):
        l = self.ev_(e["l"], st, fr)
        r = self.ev_(e["r"], st, fr)
        if st.dead:
            return BOT
        return self.binop(e["op"], self.load(l, st), self.load(r, st), e, st, fr)

    def binop(self, op, l, r, e=None, st=None, fr=None):
        if l is BOT or r is BOT:
            return BOT
        if op == "Add":
            return padd(l, r)
        if op == "Sub":
            return psub(l, r)
        if op == "Mul":
            return pmul(l, r)
        if op in ("Div", "Rem") and r is ZERO and st is not None:
            return self.panic(st, fr, e.get("sp") if e else None, "division by zero")
        if op == "Div":
            return idiv(l, r)
        if op == "Rem":
            return irem(l, r)
        if op == "Eq":
            return self.beq(l, r)
        if op == "Ne":
            return b_not(self.beq(l, r))
        if op == "Lt":
            return i_lt(l, r)
        if op == "Le":
            return i_le(l, r)
        if op == "Gt":
            return i_lt(r, l)
        if op == "Ge":
            return i_le(r, l)
        if op in ("BitAnd", "BitOr", "BitXor"):
            if all(x.op in ("true", "false", "ite") and all(y.op in ("true", "false") for y in leaves(x)) for x in (l, r)):
                if op == "BitAnd":
                    return b_and(l, r)
                if op == "BitOr":
                    return b_or(l, r)
                return ite(l, b_not(r), r)
            a, b = numval(l), numval(r)
            if a is not None and b is not None:
                return num(a & b if op == "BitAnd" else a | b if op == "BitOr" else a ^ b)
            if op == "BitAnd" and 1 in (a, b):
                x = r if a == 1 else l
                return irem(x, num(2))
            x, y = (l, r) if l.id < r.id else (r, l)
            TT.UNMODELLED.add(op)
            return app(op, x, y)
        if op == "Shl":
            self.shift(e, r, st, fr)
            return pmul(l, ppow(num(2), r))
        if op == "Shr":
            a, b = numval(l), numval(r)
            if a is not None and b is not None:
                return num(a >> b)
            self.shift(e, r, st, fr)
            return idiv(l, ppow(num(2), r))
        TT.UNMODELLED.add(op)
        return app(op, l, r)

    def shift(self, e, r, st, fr):
        """shifting by the width of the type or more wraps around or panics"""
        if e is None:
            return
        w = {"8": 8, "16": 16, "32": 32, "64": 64, "size": 64, "128": 128}.get(self.strip(fr, e["l"]["t"]).get("s", "")[1:], 64)
        v = numval(r)
        if e is None or (v is not None and v < w):
            return
        c = i_le(num(w), r)
        if c is FALSE or b_and(st.pc, c) is FALSE:
            return
        s2 = st.copy()
        s2.pc = b_and(st.pc, c)
        self.ev("panic", (mk("str", "shift overflow"),), s2, e.get("sp"), fr)

    def beq(self, l, r):
        bl = all(x.op in ("true", "false") for x in leaves(l))
        br = all(x.op in ("true", "false") for x in leaves(r))
        if bl and br:
            return ite(l, r, b_not(r))
        return eq(l, r)

    def e_un(self, e, st, fr):
        v = self.ev_(e["e"], st, fr)
        v = self.load(v, st)
        if st.dead:
            return BOT
        if e["op"] == "Not":
            x = self.strip(fr, e["t"])
            if x["s"] == "bool":
                return b_not(self.tobool(v))
            TT.UNMODELLED.add("not")
            return app("not", v)
        if e["op"] == "Neg":
            return pneg(v)
        TT.UNMODELLED.add(e["op"])
        return app(e["op"], v)

    def e_cast(self, e, st, fr):
        v = self.ev_(e["e"], st, fr)
        t = self.ty(fr, e["t"])["s"]
        if v.op in ("true", "false") or (v.op == "ite" and all(l.op in ("true", "false") for l in leaves(v))):
            return mapleaves(v, lambda l: ONE if l is TRUE else ZERO)
        frm = self.ty(fr, e["from"])["s"]
        W = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "usize": 64, "u128": 128, "i128": 128, "i8": 8, "i16": 16, "i32": 32, "i64": 64, "isize": 64}
        n = numval(v) if t in W and frm in W else None
        if isinstance(n, int):
            lo = -(1 << W[t] - 1) if t[0] == "i" else 0
            return num((n - lo) % (1 << W[t]) + lo)
        if t in W and frm in W and W[t] < W[frm]:
            return mapleaves(v, lambda l: trunc(W[t], l))
        return v

    def e_coerce(self, e, st, fr):
        return self.ev_(e["e"], st, fr)

    def e_never(self, e, st, fr):
        self.ev_(e["e"], st, fr)
        return BOT if st.dead else UNIT

    def e_tuple(self, e, st, fr):
        return mk("tup", tuple(self.ev_(x, st, fr) for x in e["es"]))

    def e_array(self, e, st, fr):
        return lst([self.ev_(x, st, fr) for x in e["es"]])

    def e_repeat(self, e, st, fr):
        v = self.ev_(e["e"], st, fr)
        n = e["n"]
        if isinstance(n, int):
            n = num(n)
        elif isinstance(n, dict) and "c" in n:
            n = num(n["c"])
        elif isinstance(n, dict) and "cp" in n:
            n = self.cvalue(n["cp"], fr)
        else:
            n = app("constlen", mk("str", str(n)))
        return mapk(n, lambda k: v)

    def e_adt(self, e, st, fr):
        fs = {}
        for n, x in e["f"]:
            fs[n] = self.ev_(x, st, fr)
        base = None
        if "base" in e:
            base = self.ev_(e["base"], st, fr)
            base = self.load(base, st)
        if st.dead:
            return BOT
        d = self.prog.adts.get(e["p"])
        names = None
        if d is not None:
            for vn, vf in d["v"]:
                if vn == e["vn"]:
                    names = [x[0] for x in vf]
        if names is None:
            names = sorted(fs)
        return adt(e["p"], e["vn"], tuple((n, fs[n] if n in fs else (field(base, n) if base is not None else BOT)) for n in names))

    def e_return(self, e, st, fr):
        v = self.ev_(e["e"], st, fr) if "e" in e else UNIT
        if not st.dead:
            fr.rets.append((st.copy(), v))
            st.kill()
        return BOT

    def target(self, fr, label):
        s = fr.scopes.get(label)
        if s:
            return s[-1]
        raise Abort("label")

    def e_break(self, e, st, fr):
        v = self.ev_(e["e"], st, fr) if "e" in e else UNIT
        if not st.dead:
            self.target(fr, e["l"])["breaks"].append((st.copy(), v))
            st.kill()
        return BOT

    def e_continue(self, e, st, fr):
        self.target(fr, e["l"])["conts"].append((st.copy(), UNIT))
        st.kill()
        return BOT

    def panic(self, st, fr, sp, why="panic"):
        if not st.dead:
            self.ev("panic", (mk("str", why),), st, sp, fr)
            st.kill()
        return BOT

    def require(self, c, st, fr, sp, why):
        """continue only where c holds; elsewhere panic"""
        c = restrict(c, st.pc)
        bad = b_and(st.pc, b_not(c))
        if bad is FALSE:
            return
        s2 = St(st.mem, bad)
        self.ev("panic", (mk("str", why),), s2, sp, fr)
        st.pc = b_and(st.pc, c)

    # ---------------------------------------------------------------- loops
    def e_loop(self, e, st, fr):
        rs = e.get("rs")

        def body(s):
            self.ev_(e["b"], s, fr)
        return self.loop(body, st, fr, rs, e.get("sp"))

    PEEL = 34
    PARTIAL = 0         # loops running callbacks are unrolled up to this number of conditional exits

    def loop(self, body, st, fr, rs, sp):
        r = self.try_unroll(body, st, fr, rs, sp)
        if r is not None:
            return r
        return self.general_loop(body, st, fr, rs, sp)

    def once(self, body, st, fr, rs):
        """one iteration; returns (continuing state or None, breaks)"""
        tgt = {"breaks": [], "conts": []}
        if rs is not None:
            fr.scopes.setdefault(rs, []).append(tgt)
        self.loopstack.append(tgt)
        base = st.pc
        try:
            body(st) if rs is not None else body(st, tgt)
        finally:
            self.loopstack.pop()
            if rs is not None:
                fr.scopes[rs].pop()
        conts = [c for c in tgt["conts"] if not c[0].dead]
        if not st.dead:
            conts.append((st.copy(), UNIT))
        if conts:
            self.merge(conts, st, base, fr)
        else:
            st.kill()
        return st, [b for b in tgt["breaks"] if not b[0].dead]

    def frames(self, fr):
        """return lists of all enclosing frames (for rollback)"""
        out = []
        f = fr
        while f is not None:
            out.append(f)
            f = f.parent
        return out

    def snap(self, fr):
        return [(f, len(f.rets), {k: [(t, len(t["breaks"]), len(t["conts"])) for t in v] for k, v in f.scopes.items()}) for f in self.frames(fr)]

    def unsnap(self, sn):
        for f, n, sc in sn:
            del f.rets[n:]
            for k, v in sc.items():
                for t, b, c in v:
                    del t["breaks"][b:]
                    del t["conts"][c:]

    def try_unroll(self, body, st, fr, rs, sp):
        m = self.mark()
        sn = self.snap(fr)
        cur = st.copy()
        broke = []
        first = st.pc
        for i in range(self.PEEL + 1):
            base = cur.pc
            s, brs = self.once(body, cur, fr, rs)
            if brs:
                if s.dead and broke:
                    st.mem = cur.mem
                    return self.merge(broke + brs, st, first, fr)
                if not s.dead and len(broke) < self.PARTIAL and any(e.kind == "callback" for e in self.trace[m[0]:]):
                    broke += brs
                    cur = s
                    continue
                if s.dead:
                    # definite exit
                    st.mem = cur.mem
                    v = self.merge(brs, st, base, fr)
                    return v
                self.rollback(m)
                self.unsnap(sn)
                return None
            if s.dead:
                if broke:
                    st.mem = cur.mem
                    return self.merge(broke, st, first, fr)
                st.kill()
                return BOT
            if i == 0 and self.steps > self.budget * 0.9:
                break
            cur = s
        self.rollback(m)
        self.unsnap(sn)
        return None

    def unfold_loop(self, body, st, fr, acc):
        """sequence accumulated in acc by the (possibly endless) loop"""
        self.want = acc
        self.got = None
        m = self.mark()
        sn = self.snap(fr)
        self.general_loop(body, st, fr, None, None)
        self.rollback(m)
        self.unsnap(sn)
        r = self.got
        self.want = None
        return r

    want = None
    got = None

    def diff(self, a, b, path, out):
        if a is b:
            return
        if a.op == "adt" and b.op == "adt" and a.args[0] == b.args[0] and a.args[1] == b.args[1] and len(a.args[2]) == len(b.args[2]):
            for (n, x), (_, y) in zip(a.args[2], b.args[2]):
                self.diff(x, y, path + (("f", n),), out)
            return
        if a.op == "tup" and b.op == "tup" and len(a.args[0]) == len(b.args[0]):
            for i, (x, y) in enumerate(zip(a.args[0], b.args[0])):
                self.diff(x, y, path + (("f", str(i)),), out)
            return
        if a.op == "lst" and b.op == "lst" and len(a.args[0]) == len(b.args[0]) and any(x is y for x, y in zip(a.args[0], b.args[0])) \
                or a.op == "lst" and b.op == "lst" and len(a.args[0]) == len(b.args[0]) <= 8:
            for i, (x, y) in enumerate(zip(a.args[0], b.args[0])):
                self.diff(x, y, path + (("i", num(i)),), out)
            return
        out.append(path)

    def general_loop(self, body, st, fr, rs, sp):
        uid = self.count("loop")
        k = fresh("k")
        init = st.mem
        leafs = []          # (loc, path)
        hs = {}
        m = self.mark()
        sn = self.snap(fr)
        base = st.pc
        nstr = self.count("hs")
        rounds = 0
        while True:
            rounds += 1
            if rounds > 9:
                raise Abort("loop does not stabilise")
            self.rollback(m)
            self.unsnap(sn)
            mem = dict(init)
            for lf in leafs:
                mem[lf[0]] = self.setp(mem[lf[0]], tuple((p[0], p[1], None) for p in lf[1]), hs[lf])
            s = St(mem, base)
            self.ks.append(k)
            try:
                head = dict(mem)
                cont, breaks = self.once(body, s, fr, rs)
            finally:
                self.ks.pop()
            new = []
            if not cont.dead:
                for loc, v0 in head.items():
                    v1 = cont.mem.get(loc)
                    if v1 is None or v1 is v0:
                        continue
                    out = []
                    self.diff(v0, v1, (), out)
                    for p in out:
                        if (loc, p) not in hs:
                            # a whole-value change subsumes deeper leaves
                            new.append((loc, p))
            grown = [n for n in new]
            if not grown:
                break
            for n in grown:
                # drop deeper leaves covered by n
                leafs = [l for l in leafs if not (l[0] == n[0] and l[1][:len(n[1])] == n[1])]
                leafs.append(n)
                if n not in hs:
                    hs[n] = fresh("h")
        FACTS[0] = facts_from(base)
        events = self.trace[m[0]:]
        del self.trace[m[0]:]
        if cont.dead and not breaks:
            # first iteration always leaves the function
            self.trace.extend(events)
            self.unsnap_keep(sn)
            st.kill()
            return BOT
        if cont.dead:
            # the body runs at most once
            self.trace.extend(events)
            st.mem = dict(init)
            return self.merge(breaks, st, base, fr)
        steps = {lf: self.getp(cont.mem[lf[0]], lf[1]) for lf in leafs}
        inits = {lf: self.getp(init[lf[0]], lf[1]) for lf in leafs}
        sol = self.solve(leafs, hs, steps, inits, k)
        f = lambda t: subst(t, sol) if isinstance(t, T) else t
        wanted = None
        if self.want is not None and (self.want, ()) in hs:
            wanted = sol.get(hs[(self.want, ())])
        # exit condition
        exitc = FALSE
        for b, _ in breaks:
            exitc = b_or(exitc, restrict(b.pc, base))
        exitc = f(exitc)
        N, clean = self.trip(exitc, k)
        if wanted is not None:
            self.got = subst(wanted, {k: N})
        # everything that happens inside happens for k < N (exit not taken)
        live = b_not(exitc)
        # early returns
        rets = []
        for fobj, n, sc in sn:
            for rr in fobj.rets[n:]:
                rets.append((fobj, rr))
            del fobj.rets[n:]
        esc = []
        for fobj, n, sc in sn:
            for kk, v in sc.items():
                for t, bn, cn in v:
                    for rr in t["breaks"][bn:]:
                        esc.append((t["breaks"], rr))
                    for rr in t["conts"][cn:]:
                        esc.append((t["conts"], rr))
                    del t["breaks"][bn:]
                    del t["conts"][cn:]
        cont_pc = st.pc
        for dest, (rs_, rv) in [(x[0].rets, x[1]) for x in rets] + [(x[0], x[1]) for x in esc]:
            c = restrict(f(restrict(rs_.pc, base)), live)
            ex = self.mk_exists(N, k, c)
            first = mk("first", N, lam((k,), c))
            g = lambda t: subst(f(t), {k: first})
            s2 = St({kk: (g(v) if v is not init.get(kk) else v) for kk, v in rs_.mem.items()}, b_and(st.pc, ex))
            if not s2.dead:
                dest.append((s2, g(rv)))
            cont_pc = b_and(cont_pc, b_not(ex))
        # panics inside the loop also end execution
        pk = FALSE
        for e in events:
            pass
        evs = [map_ev(e, f) for e in events]
        # guards relative to being alive in the loop
        for e in evs:
            e.guard = restrict(restrict(e.guard, base), live)
        if evs:
            self.trace.append(Ev("loop", (k, N, evs), st.pc, sp, fr.fn["p"], tuple(self.stack[-6:])))
        st.pc = cont_pc
        if st.dead or not breaks:
            st.kill()
            return BOT
        atN = {k: N}
        if N is INF:
            st.kill()
            return BOT
        out = []
        for b, v in breaks:
            g = lambda t: subst(f(t), atN)
            mem = {}
            for loc, x in b.mem.items():
                if loc in init and x is init[loc]:
                    mem[loc] = x
                elif loc not in init and not self.keepable(loc):
                    mem[loc] = g(x) if syms(x) & (set(hs.values()) | {k}) else x
                else:
                    mem[loc] = g(x)
            pc = restrict(g(restrict(b.pc, base)), TRUE)
            out.append((mem, pc, g(v)))
        mem, pc, val = out[-1]
        for m2, p2, v2 in reversed(out[:-1]):
            tmp = St(None, TRUE)
            self.joinmem(tmp, p2, m2, mem)
            mem = tmp.mem
            val = ite(p2, v2, val)
        st.mem = dict(mem)
        return val

    def unsnap_keep(self, sn):
        pass

    def keepable(self, loc):
        return True

    def mk_exists(self, N, k, c):
        if c is FALSE:
            return FALSE
        # split off k-independent conjuncts/disjuncts by leaf paths is not needed: keep whole
        return exists(N, lam((k,), c))

    def trip(self, exitc, k):
        n = trip_count(exitc, k)
        if n is not None:
            return n, True
        return mk("trip", lam((k,), exitc)), False

    # ---------------------------------------------------------------- recurrences
    def solve(self, leafs, hs, steps, inits, k):
        sol = {}
        todo = list(leafs)
        cur = dict(steps)
        H = set(hs.values())
        while todo:
            changed = True
            while changed and todo:
                changed = False
                for lf in list(todo):
                    h = hs[lf]
                    c = self.closed(h, cur[lf], inits[lf], k, H)
                    if c is not None:
                        sol[h] = c
                        todo.remove(lf)
                        H.discard(h)
                        for o in todo:
                            if h in syms(cur[o]):
                                cur[o] = subst(cur[o], {h: c})
                        changed = True
            if not todo:
                break
            # smallest group of mutually dependent variables that needs no other open one
            order = {hs[lf]: lf for lf in todo}
            best = None
            for lf in todo:
                cone = [hs[lf]]
                i = 0
                while i < len(cone):
                    for y in sorted(syms(cur[order[cone[i]]]) & H, key=lambda x: x.id):
                        if y not in cone:
                            cone.append(y)
                    i += 1
                if best is None or len(cone) < len(best):
                    best = cone
            new = {}
            for h in best:
                cone = [h] + [y for y in best if y is not h]
                l = lam((k,) + tuple(cone), mk("tup", tuple(cur[order[y]] for y in cone)))
                new[h] = rec(k, l, mk("tup", tuple(inits[order[y]] for y in cone)))
            for h in best:
                sol[h] = new[h]
                todo.remove(order[h])
                H.discard(h)
            for o in todo:
                if syms(cur[o]) & set(new):
                    cur[o] = subst(cur[o], new)
        return sol

    def closed(self, h, s, init, k, H):
        """closed form at iteration k of h' = s, h(0) = init; None when not recognised"""
        free = lambda t: not (syms(t) & H)
        if s.op in ("cat", "ite") and any(l.op == "cat" and l.args[0][0].op in ("slice", "upd") for l in leaves(s)):
            # writes to pieces of h are followed only where they add to what is there
            u = mapleaves(s, lambda l: unslice(h, l, slen(init)))
            return None if u is s else self.scatter(h, u, init, k, H)
        if s is h:
            return init
        if free(s):
            # overwritten every iteration: value of the previous iteration
            if k in syms(s):
                prev = subst(s, {k: psub(k, ONE)})
                return ite(eq0(k), init, prev)
            return ite(eq0(k), init, s)
        if init.op in ("adt",) and s.op == "adt":
            return None
        # transcript-like and sequence growth
        if s.op == "cat" and s.args[0][0] is h:
            rest = cat(s.args[0][1:])
            if free(rest):
                if rest.op == "lst" and len(rest.args[0]) == 1:
                    return cat([init, smap(k, lam((k,), rest.args[0][0]))])
                n = slen(rest)
                if rest.op == "lst" and len(rest.args[0]) > 1 and all(not (k in syms(x)) for x in rest.args[0]) and False:
                    return None
                return cat([init, mk("flat", k, lam((k,), rest))])
        if s.op == "ite" and all(l is h or (l.op == "cat" and l.args[0][0] is h) for l in leaves(s)):
            ls = leaves(s)
            conds = []
            okk = True
            grow = [l for l in ls if l is not h]
            if len(grow) == 1 and all(free(x) for x in grow[0].args[0][1:]):
                rest = cat(grow[0].args[0][1:])
                cond = guards_of(s, lambda l: l is not h)
                if rest.op == "lst" and len(rest.args[0]) == 1 and free(cond):
                    return cat([init, cmap(k, lam((k,), tup(cond, rest.args[0][0])))])
            rest = mapleaves(s, lambda l: EMPTY if l is h else cat(l.args[0][1:]))
            if free(rest):
                vals = [l for l in leaves(rest)]
                if all(v.op == "lst" and len(v.args[0]) == 1 for v in vals):
                    return cat([init, smap(k, lam((k,), mapleaves(rest, lambda l: l.args[0][0])))])
                return cat([init, mk("flat", k, lam((k,), rest))])
        if s.op == "upd" or (s.op == "ite" and any(l.op == "upd" for l in leaves(s))):
            r = self.closed_upd(h, s, init, k, H)
            if r is not None:
                return r
        if s.op == "map":
            # element-wise recurrence
            n0 = slen(init)
            if s.args[0] is mk("len", h) or s.args[0] is n0:
                i = fresh("i")
                sv = fresh("s")
                b = subst_term(open_(s.args[1], (i,)), {mk("at", h, i): sv})
                if h not in syms(b) and not (syms(b) & (H - {sv})):
                    c = self.closed(sv, b, at(init, i), k, (H - {h}) | {sv})
                    if c is not None:
                        return smap(n0, lam((i,), c))
            return None
        if s.op in ("lst", "cat", "upd", "slice", "clo", "str", "tup", "adt", "ref", "cmap"):
            return None
        if s.op == "app" and s.args[0] == "max" and h in s.args[1:]:
            rest = [x for x in s.args[1:] if x is not h]
            if all(free(x) for x in rest):
                r = init
                for x in rest:
                    j = fresh("j")
                    r = smax(r, maxk(k, lam((j,), subst(x, {k: j}))))
                return r
        # numeric
        if s.op == "ite":
            ds = mapleaves(s, lambda l: psub(l, h))
            if free(ds) and all(x.op not in NONNUM for x in leaves(s)):
                return padd(init, sumk(k, k2(k), subst(ds, {k: k2(k)})))
            return None
        r = coef_of(s, h)
        if r is None:
            return None
        A, B = r
        if not free(A) or not free(B):
            return None
        if A is ONE:
            if k not in syms(B):
                return padd(init, pmul(B, k))
            j = fresh("j")
            return padd(init, sumk(k, j, subst(B, {k: j})))
        if B is ZERO:
            if k not in syms(A):
                return pmul(init, ppow(A, k))
            j = fresh("j")
            return pmul(init, prodk(k, j, subst(A, {k: j})))
        return None

    def scatter(self, h, s, init, k, H):
        """h' = h with additive updates at computed places: every element is its initial value
        plus the sum of what is added to it"""
        free = lambda t: not (syms(t) & H)

        def contrib(base, l, idx):
            # what is added to base at the places idx (one or two levels); None when not additive
            if l is base:
                return ZERO
            if l.op != "upd" or l.args[0] is not base or not free(l.args[1]):
                return None
            cur = at(base, l.args[1])
            c = eq0(psub(idx[0], l.args[1]))
            v = l.args[2]
            if len(idx) == 1:
                d = mapleaves(v, lambda x: psub(x, cur) if x.op not in NONNUM else BOT)
                if BOT in leaves(d) or not free(d):
                    return None
                return ite(c, d, ZERO)
            inner = None
            bad = []

            def one(x):
                r = contrib(cur, x, idx[1:])
                if r is None:
                    bad.append(1)
                    return ZERO
                return r
            inner = mapleaves(v, one)
            return None if bad else ite(c, inner, ZERO)
        for depth in (1, 2):
            i, i2 = fresh("i"), fresh("i")
            idx = (i, i2)[:depth]
            bad = []

            def leaf(l):
                r = contrib(h, l, idx)
                if r is None:
                    bad.append(1)
                    return ZERO
                return r
            d = mapleaves(s, leaf)
            if bad or not free(d) or d is ZERO:
                continue
            j = fresh("j")
            e = at(init, i) if depth == 1 else at(at(init, i), i2)
            tot = padd(e, sumk(k, j, subst(d, {k: j})))
            if depth == 1:
                return smap(slen(init), lam((i,), tot))
            return smap(slen(init), lam((i,), smap(slen(at(init, i)), lam((i2,), tot))))
        return None

    def closed_upd(self, h, s, init, k, H):
        r = self.closed_upd1(h, s, init, k, H)
        return r if r is not None else self.scatter(h, s, init, k, H)

    def closed_upd1(self, h, s, init, k, H):
        free = lambda t: not (syms(t) & H)
        if s.op == "ite":
            # conditional in-place update of one index
            us = [l for l in leaves(s) if l.op == "upd"]
            if len(us) != 1 or any(l is not h and l.op != "upd" for l in leaves(s)):
                idx = {l.args[1] for l in us}
                if len(idx) != 1 or any(l is not h and not (l.op == "upd" and l.args[0] is h) for l in leaves(s)):
                    return None
            i = us[0].args[1]
            if us[0].args[0] is not h:
                return None
            v = mapleaves(s, lambda l: at(h, i) if l is h else l.args[2])
        else:
            if s.args[0] is not h:
                return None
            i, v = s.args[1], s.args[2]
        if free(i) and k not in syms(i):
            # always the same element: its own recurrence
            sv = fresh("s")
            vs = subst_term(v, {mk("at", h, i): sv})
            if h in syms(vs) or syms(vs) & (H - {sv}):
                return None
            cf = self.closed(sv, vs, at(init, i), k, {sv})
            return None if cf is None else upd(init, i, cf)
        r = coef_of(i, k)
        if r is None or r[0] is not ONE or not free(r[1]) or k in syms(r[1]):
            return None
        c = r[1]
        # value may read h at the index being written (or later ones): initial contents
        e0 = mk("at", h, i)
        vs = subst_term(v, {e0: at(init, i)})
        n = slen(init)
        if free(vs):
            j = fresh("j")
            body = subst(vs, {k: j})
            return cat([slice_(init, ZERO, c), smap(k, lam((j,), body)), slice_(init, padd(c, k), n)])
        # previous element recurrence
        im = psub(i, ONE)
        e1 = mk("at", h, im)
        sv = fresh("s")
        vs = subst_term(v, {e1: sv, e0: at(init, i)})
        if h in syms(vs) or (syms(vs) & (H - {sv})):
            return None
        s0 = at(init, psub(c, ONE))
        cf = self.closed(sv, vs, s0, k, {sv})
        if cf is None:
            return None
        j = fresh("j")
        body = subst(cf, {k: padd(j, ONE)})
        return cat([slice_(init, ZERO, c), smap(k, lam((j,), body)), slice_(init, padd(c, k), n)])


_k2 = {}


def k2(k):
    r = _k2.get(k)
    if r is None:
        r = _k2[k] = fresh("j")
    return r
