"""Shared query layer over the abstract interpreter: roots, transcript histories, MSM terms."""
import sys
sys.setrecursionlimit(200000)
from terms import *
from thir import Prog, Anchor
from interp import Interp, St, Ev, ref, map_ev


# ---------------------------------------------------------------- roots
def expand_type(prog, crate, tid, v, depth=3, over=None):
    """v as an aggregate of its fields when its type is a struct of the analysed crates"""
    t = prog.types[crate][tid]
    while t["k"] == "ref":
        t = prog.types[crate][t["t"]]
    if t["k"] == "tuple":
        return mk("tup", tuple(field(v, str(i)) for i in range(len(t["a"]))))
    if t["k"] == "adt" and depth > 0:
        d = prog.adts.get(t["p"])
        if d is not None and d["k"] == "struct" and d.get("local"):
            vn, fs = d["v"][0]
            c = d["crate"]
            return adt(t["p"], vn, tuple((f[0], expand_type(prog, c, f[1], field(v, f[0]), depth - 1)) for f in fs))
    return v


class Run:
    """one analysis of a root function"""

    def __init__(self, prog, f, assume=None, models=None, names=None, over=None, lcnum=False, opaque=(), budget=400000, setup=None, rawmsm=False, cbhook=None, binds=None):
        self.prog = prog
        self.f = f
        self.I = Interp(prog, models or {}, opaque, budget)
        self.I.rawmsm = rawmsm
        self.I.cbhook = cbhook
        self.I.binds = binds
        if lcnum:
            self.I.lcnum = True
        st = St({}, TRUE)
        self.args = []
        self.argsym = []
        self.locs = []
        over = over or {}
        for i, p in enumerate(f.get("params", [])):
            nm = None
            if "pat" in p and p["pat"]["k"] == "bind":
                nm = p["pat"]["name"]
            nm = nm or "arg%d" % i
            s = sym(nm)
            self.argsym.append(s)
            if i in over:
                v = over[i](s) if callable(over[i]) else over[i]
            else:
                v = expand_type(prog, f["crate"], p["t"], s)
            t = prog.types[f["crate"]][p["t"]]
            if t["k"] == "ref" and t.get("m"):
                loc = ("arg", i)
                st.mem[loc] = v
                self.locs.append(loc)
                self.args.append(ref(loc))
            else:
                self.args.append(v)
                self.locs.append(None)
        if setup:
            setup(self, st)
        if assume is not None:
            st.pc = assume(self) if callable(assume) else assume
        self.base = st.pc
        self.val = self.I.call_fn(f, self.args, st, None, {})
        FACTS[0] = ()
        self.st = st
        self.trace = self.I.trace
        self.pval = self.I.pure(self.val, st) if not st.dead else BOT

    def out(self, i):
        """final value of the i-th (mutable reference) parameter"""
        return self.I.pure(self.st.mem[self.locs[i]], self.st)

    # condition (given normal return) that the result is Ok
    def ok(self):
        c = b_and(self.st.pc, isv(self.pval, "Ok"))
        return c

    def okval(self):
        c = self.ok()
        return restrict(vfield(restrict(self.pval, c), "Ok", "0"), c)


def events(trace, ctx=()):
    """all events with the loops they sit in: (event, ((k,N),...))"""
    for e in trace:
        if e.kind == "loop":
            k, n, sub = e.data
            yield from events(sub, ctx + ((k, n),))
        else:
            yield e, ctx


# ---------------------------------------------------------------- transcripts
def history(s, cond=TRUE):
    """absorbed items of a transcript state, oldest first.
    items: ('base',t) ('tr',label,val) ('chal',label,n) ('loop',N,[items],k) ('ite',atom,h1,h2) ('?',t)"""
    out = []
    while True:
        s = restrict(s, cond) if s.op == "ite" else s
        if s.op == "tr":
            out.append(("tr", s.args[1], s.args[2]))
            s = s.args[0]
        elif s.op == "trc":
            out.append(("chal", s.args[1], s.args[2]))
            s = s.args[0]
        elif s.op == "rec":
            n, l, inits = s.args
            nb = l.args[0]
            k = fresh()
            hs = [fresh("h") for _ in range(nb - 1)]
            body = open_(l, tuple([k] + hs))
            step = body.args[0][0]
            h = history_until(step, hs[0])
            if h is None:
                out.append(("?", s))
                break
            out.append(("loop", n, h, k))
            s = inits.args[0][0]
        elif s.op == "ite":
            out.append(("ite", s.args[0], history(s.args[1]), history(s.args[2])))
            break
        else:
            out.append(("base", s))
            break
    out.reverse()
    return out


def history_until(s, h):
    if s.op == "ite":
        # same growth on every leaf is required, otherwise keep as alternatives
        parts = [history_until(l, h) for l in leaves(s)]
        if any(p is None for p in parts):
            return None
        return [("alt", s)] if len({repr(p) for p in parts}) > 1 else parts[0]
    out = []
    while s is not h:
        if s.op == "tr":
            out.append(("tr", s.args[1], s.args[2]))
            s = s.args[0]
        elif s.op == "trc":
            out.append(("chal", s.args[1], s.args[2]))
            s = s.args[0]
        elif s.op == "rec":
            n, l, inits = s.args
            k = fresh()
            hs = [fresh("h") for _ in range(l.args[0] - 1)]
            body = open_(l, tuple([k] + hs))
            x = history_until(body.args[0][0], hs[0])
            if x is None:
                return None
            out.append(("loop", n, x, k))
            s = inits.args[0][0]
        elif s.op == "ite":
            x = history_until(s, h)
            if x is None:
                return None
            return x + out[::-1]
        else:
            return None
    out.reverse()
    return out


def showh(h, ind=0):
    r = []
    for x in h:
        if x[0] == "loop":
            r.append("  " * ind + "loop %s<%s" % (x[3], x[1]))
            r.append(showh(x[2], ind + 1))
        elif x[0] == "ite":
            r.append("  " * ind + "ite %s" % x[1])
            r.append(showh(x[2], ind + 1))
            r.append("  " * ind + "else")
            r.append(showh(x[3], ind + 1))
        else:
            r.append("  " * ind + " ".join(str(y) for y in x))
    return "\n".join(r)


# ---------------------------------------------------------------- summaries
def cs_summary(prog):
    """TranscriptProtocol::challenge_scalar as a function of the transcript state"""
    fs = [f for f in prog.fns.values() if f["name"] == "challenge_scalar" and (f.get("itrait") or "").endswith("TranscriptProtocol")]
    if len(fs) != 1:
        return {}

    def m(I, f, args, st, fr, e):
        s = I.load(args[0], st)
        if s.op == "ref":
            s = I.load(s, st)
        lab = I.pure(args[1], st)
        c = app("cs", s, lab)
        I.ev("chal", (lab, c, s), st, e.get("sp"), fr)
        I.store(args[0], mk("trc", s, lab, num(64)), st)
        return c
    return {fs[0]["p"]: m}


# ---------------------------------------------------------------- randomness
GOOD_RNG = ("thread_rng", "OsRng", "from_entropy", "from_os_rng", "getrandom", "rand::rng")
FIXED_RNG = ("seed_from_u64", "from_seed", "StepRng", "test_rng", "from_state", "from_bytes")


def rng_source(t):
    """True: an unpredictable generator, False: one seeded with values an adversary knows, None: unknown"""
    names = [x.args[0] for x in subterms(t) if x.op == "app" and isinstance(x.args[0], str)]
    names += [x.args[0] for x in subterms(t) if x.op == "adt"]
    if any(g in n for n in names for g in GOOD_RNG):
        return True
    if any(g in n for n in names for g in FIXED_RNG):
        return False
    if syms(t) and not names:
        return True      # the caller's generator
    return None


def check_rng(ctx, key, trace, rng):
    """the generator behind the random value rng"""
    for e, _ in events(trace):
        if e.kind == "rng" and e.data[0].args[:1] == rng.args[:1]:
            v = rng_source(e.data[1])
            return ctx.ob(key, v, "drawn at %s from %s" % (e.sp, show(e.data[1])[:200]), e.sp)
    return ctx.ob(key, None, "draw not found")


# ---------------------------------------------------------------- what a transcript has absorbed
def unwrap_state(s):
    """(state before, marker) for a state produced by an opaque callback"""
    if s.op == "app" and s.args[0] == "cbT":
        return s.args[1], s
    return None


def full_history(s, cond=TRUE):
    h = history(s, cond)
    while h and h[0][0] == "base":
        u = unwrap_state(h[0][1])
        if u is None:
            break
        h = history(u[0], cond) + [("callback", u[1])] + h[1:]
    return h


def payload(v):
    """the value an absorbed message determines uniquely"""
    if v.op == "ser":
        return v.args[0]
    if v.op == "app" and v.args[0] in ("u64", "u32", "le_bytes", "be_bytes"):
        return v.args[1]
    return v


def absorbed(h, want, facts=(), neqs=(), labels=None, same=None):
    """does the history contain a message determining the value `want` (which may be at(seq, i) for symbolic i)?
    facts: polynomials <= 0; neqs: polynomials != 0.  True / None (not found)"""
    same = same or (lambda a, b: a is b)
    for it in h:
        if it[0] == "tr":
            if same(payload(it[2]), want):
                return True
        elif it[0] == "loop":
            if loop_absorbs(it, want, facts, neqs, same):
                return True
        elif it[0] == "ite":
            a, val = it[1], decide_atom(it[1], list(facts))
            if val is TRUE or val is FALSE:
                if absorbed(it[2] if val is TRUE else it[3], want, facts, neqs, labels, same):
                    return True
            elif absorbed(it[2], want, facts, neqs, labels, same) and absorbed(it[3], want, facts, neqs, labels, same):
                return True
    return None


def loop_absorbs(it, want, facts, neqs, same):
    _, n, body, k = it
    cands = []
    if want.op == "at":
        for x in walk_items(body):
            v = payload(x[2])
            for l in leaves(v):
                if l.op == "at" and l.args[0] is want.args[0]:
                    # index of the body as a function of k: solve e(k) = i
                    e = l.args[1]
                    cf = coef_of(e, k)
                    d = cf[0] if cf is not None else None
                    if d is not None and numval(d) in (1, -1):
                        rest = psub(e, pmul(d, k))
                        cands.append(pmul(d, psub(want.args[1], rest)))
    for c in cands:
        if decide_le(psub(ZERO, c), facts) and decide_le(padd(psub(c, n), ONE), facts):
            b2 = resolve(subst_items(body, {k: c}), facts, neqs)
            if absorbed(b2, want, facts, neqs, None, same):
                return True
    return False


def decide_le(p, facts):
    from terms import _le_by
    if le0(p) is TRUE:
        return True
    if _le_by(p, list(facts)):
        return True
    return given(le0(p), list(facts)) is TRUE


def walk_items(items):
    for x in items:
        if x[0] == "tr":
            yield x
        elif x[0] == "loop":
            yield from walk_items(x[2])
        elif x[0] == "ite":
            yield from walk_items(x[2])
            yield from walk_items(x[3])
        elif x[0] == "alt":
            for l in leaves(x[1]):
                h = history(l)
                yield from walk_items(h)


def subst_items(items, m):
    out = []
    for x in items:
        if x[0] == "loop":
            out.append(("loop", subst(x[1], m), subst_items(x[2], m), x[3]))
        elif x[0] == "ite":
            out.append(("ite", subst(x[1], m), subst_items(x[2], m), subst_items(x[3], m)))
        else:
            out.append(tuple(subst(y, m) if isinstance(y, T) else y for y in x))
    return out


def resolve(items, facts, neqs):
    """alternatives decided by the facts"""
    out = []
    for x in items:
        if x[0] == "alt":
            s = given(x[1], list(facts))
            m = {}
            for a in bdd_atoms(guard_of(s)):
                if a.op == "eq0" and any(psub(a.args[0], q) is ZERO or padd(a.args[0], q) is ZERO or proportional(a.args[0], q) for q in neqs):
                    m[a] = False
            if m:
                s = replace_bool(s, m)
            out += history(s)
        elif x[0] == "loop":
            out.append(("loop", x[1], resolve(x[2], facts, neqs), x[3]))
        else:
            out.append(x)
    return out


def guard_of(s):
    """a term with the decisions of s"""
    return s if s.op == "ite" else TRUE


def replace_bool(s, m):
    if s.op != "ite":
        return s
    if s.args[0] in m:
        return replace_bool(s.args[1] if m[s.args[0]] else s.args[2], m)
    return ite(atom_cond(s.args[0]), replace_bool(s.args[1], m), replace_bool(s.args[2], m))


def proportional(p, q):
    a, b = dict(monos(p)), dict(monos(q))
    if set(a) != set(b) or not a:
        return False
    r = {Fraction(a[m]) / Fraction(b[m]) for m in a}
    return len(r) == 1


def concrete(state, e):
    """messages of a transcript state under an assignment: [(kind, label, value)]"""
    out = []
    v = e.ev(state, {})
    k = v.key if hasattr(v, "key") else None
    while k is not None:
        if k[0] == "tr":
            out.append(("tr", k[2], k[3]))
            k = k[1]
        elif k[0] == "trc":
            out.append(("chal", k[2], k[3]))
            k = k[1]
        elif k[0] == "app" and k[1] == "cbT":
            out.append(("cb", k[3]))
            k = k[2]
        else:
            out.append(("base", k))
            break
    out.reverse()
    return out
