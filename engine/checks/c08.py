"""The generator constructors are summarised in closed form from the typed source, for any capacity, party count and position.
Element k of party i of each vector has to be one and the same function of (vector, i, k) whatever the capacity and the party
count; enlarging a table holding those elements to any larger capacity has to produce the table the constructor would have
produced, and enlarging to a smaller one has to leave it alone. The seed of each element is read off the closed form: which
extendable-output stream, keyed by which bytes, and which window of it. Streams of the two vectors have to be keyed by
different bytes, streams of different parties too, windows of different positions of a stream have to be disjoint and read
completely, and the Pedersen bases have to be derived from something else. The views handed out (share, aggregate) have to
return the elements asked for."""
from prover import *
from session import *
from models import iterate, toit
import numeric

RULE = "element (vector, party, position) = hash-to-curve(window position of the stream keyed by (vector, party)); enlargement = construction"
FLOOR = 24
ASSUMPTIONS = ["SHAKE256 / SHA3-256 and from_random_bytes behave as documented", "party indices fit in 32 bits"]
K, J = sym("k"), sym("i")


def run(ctx):
    for cfg, prog in ctx.configs():
        with ctx.guard(cfg + ".construct"):
            construct(ctx, prog, cfg)
        with ctx.guard(cfg + ".pedersen"):
            pedersen_bases(ctx, prog, cfg)
        with ctx.guard(cfg + ".share"):
            share(ctx, prog, cfg)
        with ctx.guard(cfg + ".aggregate"):
            aggregate(ctx, prog, cfg)


def note(ctx, r):
    ctx.unit("root", r.f["p"])
    for f in r.I.analysed:
        ctx.unit("function", f)


def tables(v):
    """the two lists of lists of a generator table"""
    return [(n, x) for n, x in v.args[2] if n not in ("gens_capacity", "party_capacity")]


def simp(t, facts):
    save, FACTS[0] = FACTS[0], tuple(facts)
    try:
        return given(t, list(facts))
    finally:
        FACTS[0] = save


def element(tab, i, k, facts):
    """element k of party i"""
    row = simp(at(tab, i), facts)
    return simp(at(row, k), facts), simp(slen(row), facts)


def construct(ctx, prog, cfg):
    f = method(prog, "new", "BulletproofGens")
    r = Run(prog, f)
    note(ctx, r)
    g, where = r.pval, f["sp"]
    if g.op != "adt" or len(f["params"]) != 2 or len(tables(g)) != 2:
        return ctx.ob(cfg + ".construct", None, "generator table not recognised", where)
    cap, par = r.argsym
    inr = [psub(padd(K, ONE), cap), psub(padd(J, ONE), par), pneg(K), pneg(J)]
    for n, want in (("gens_capacity", cap), ("party_capacity", par)):
        v, why = judge(psub(field(g, n), want), [pneg(cap), pneg(par)])
        ctx.ob("%s.construct.%s" % (cfg, n), v, "%s of the new table = %s: %s" % (n, show(want), why), where)
    el = {}
    for n, t in tables(g):
        key = "%s.construct.%s" % (cfg, n)
        x, ln = element(t, J, K, inr)
        v, why = judge(psub(slen(t), par), [pneg(cap), pneg(par)])
        ctx.ob(key + ".parties", v, "one list per party: %s" % why, where)
        v, why = judge(psub(ln, cap), inr)
        ctx.ob(key + ".length", v, "lists as long as the capacity: %s" % why, where)
        dep = [s for s in (cap, par) if s in syms(x)]
        ctx.ob(key + ".prefix", True if not dep else judge_dep(x, dep, inr), "element (i, k) = %s%s" % (show(x)[:400], ", depends on %s" % ", ".join(map(show, dep)) if dep else ""), where)
        el[n] = x
    seeds(ctx, cfg, el, where)
    enlarge(ctx, prog, cfg, g, cap, par)


def judge_dep(x, dep, facts):
    """does the value really vary with the capacity / party count?"""
    a = sym("larger")
    for s in dep:
        y = subst(x, {s: padd(s, a)})
        v, why = same(x, y, list(facts) + [pneg(a)])
        if v is not True:
            return v
    return True


# ---------------------------------------------------------------- seeds
def stream(x):
    """(function, key bytes, position of the window in the stream, its length) of the bytes an element is derived from"""
    w = [y for y in subterms(x) if y.op == "app" and y.args[0] == "xof"]
    if len({(y.args[1], y.args[2]) for y in w}) != 1:
        return None
    fn, key = w[0].args[1:3]
    isx = lambda t: t.op == "app" and t.args[0] == "xof"
    out = set()
    for y in subterms(x):
        if y.op == "map" and isx(at(y, K)):
            z = fresh("z")
            cf = coef_of(at(y, z).args[3], z)
            if cf is None or cf[0] is not ONE:
                return None
            out.add((cf[1], slen(y)))
        elif y.op == "lst" and any(map(isx, y.args[0])):
            ps = [t.args[3] for t in y.args[0] if isx(t)]
            if any(psub(q, ps[0]) is not num(n) for n, q in enumerate(ps)):
                return None
            out.add((ps[0], num(len(ps))))
    if len(out) != 1:
        return None
    return (fn, key) + out.pop()


def bytelist(key):
    """literal bytes / terms of a key of fixed length"""
    n = numval(slen(key))
    if n is None:
        return None
    out = []
    for j in range(int(n)):
        b = at(key, num(j))
        if b.op == "app" and b.args[0] == "at" and b.args[1].op == "str":
            b = num(b.args[1].args[0].encode()[j])
        out.append(b)
    return out


def flatkey(key):
    out = []
    for s in key.args[0] if key.op == "cat" else [key]:
        if s.op == "str":
            out += [num(c) for c in s.args[0].encode("latin1")]
        elif s.op == "lst":
            out += list(s.args[0])
        else:
            n = numval(slen(s))
            if n is None:
                return None
            out += [at(s, num(j)) for j in range(int(n))]
    return out


def seeds(ctx, cfg, el, where):
    st = {n: stream(x) for n, x in el.items()}
    for n, s in st.items():
        key = "%s.seed.%s" % (cfg, n)
        if s is None:
            return ctx.ob(key, None, "the stream an element is read from was not recognised: %s" % show(el[n])[:300], where)
        fn, data, pos, w = s
        ctx.unit("stream", key)
        # positions
        cf = coef_of(pos, K)
        a, wl = (numval(cf[0]) if cf else None), numval(w)
        v = None
        if a is not None and wl is not None:
            v = True if abs(a) >= wl else (False if a == 0 else None)
        ctx.ob(key + ".windows", v, "element k reads %s bytes from position %s" % (show(w), show(pos)), where)
        ctx.ob(key + ".width", None if wl is None else wl >= 32 or (False if wl < 16 else None), "an element depends on %s bytes of its stream" % show(w), where)
        # parties
        b = flatkey(data)
        if b is None:
            ctx.ob(key + ".parties", None, "key bytes not recognised: %s" % show(data)[:200], where)
            continue
        v, why = party_bytes(b)
        ctx.ob(key + ".parties", v, "key of party i: %s: %s" % (show(data)[:200], why), where)
    (n1, s1), (n2, s2) = st.items()
    a, b = flatkey(s1[1]), flatkey(s2[1])
    if a is None or b is None:
        v, why = None, "key bytes not recognised"
    elif s1[0] is not s2[0]:
        v, why = True, "different functions"
    else:
        v, why = roles(a, b)
    ctx.ob(cfg + ".seed.roles", v, "keys of %s and %s: %s" % (n1, n2, why), where)


def party_bytes(b):
    # the little-/big-endian 32-bit encoding of the party index
    for w in (4, 8):
        got = {x.args[2] for x in b if x.op == "app" and x.args[0] == "byte" and x.args[1] is trunc(8 * w, J)}
        if {numval(x) for x in got} >= set(range(w)):
            return True, "contains all bytes of the %d-bit party index" % (8 * w)
    if any(syms(x) - {J} for x in b):
        return None, "not a function of the party index alone"
    if not any(J in syms(x) for x in b):
        return False, "does not contain the party index"

    seen = {}
    try:
        for i in PARTIES:
            v = evkey(b, i)
            if v in seen and seen[v] != i:
                return False, "parties %d and %d have the same key" % (seen[v], i)
            seen[v] = i
    except Exception as x:
        return None, "not evaluated: %r" % x
    return True, "different for the %d party indices tried" % len(seen)


PARTIES = list(range(600)) + [1 << s for s in range(10, 32)] + [(1 << s) + 1 for s in range(10, 32)] + [65535 + 256 * k for k in range(5)]


def evkey(b, i):
    """the key bytes of party i"""
    e = numeric.Ev((numeric.SEED, "p"), {})
    e.let = {J: num(i)}
    return tuple(e.norm(e.ev(concrete(x, i), {}), x) for x in b)


def concrete(x, i):
    x = subst(x, {J: num(i)})

    def go(t):
        if t.op == "app" and t.args[0] == "byte":
            v, k = numval(go(t.args[1])), numval(t.args[2])
            if isinstance(v, int) and isinstance(k, int):
                return num(v >> (8 * k) & 255)
        return rebuild(t, go) if t.args and t.op in ("app", "poly") else t
    return go(x)


def roles(a, b):
    """can the keys of the two vectors coincide for any two parties?"""
    if len(a) != len(b):
        # a shorter key may be a prefix, never equal
        return True, "keys of different length"
    for j, (x, y) in enumerate(zip(a, b)):
        u, v = numval(x), numval(y)
        if u is not None and v is not None and u != v:
            return True, "byte %d is %s in one and %s in the other" % (j, show(x), show(y))
    if all(x is y for x, y in zip(a, b)):
        return False, "the same key for the same party"
    if any(syms(x) - {J} for x in a + b):
        return None, "not a function of the party index alone"
    try:
        seen = {}
        for i in PARTIES:
            seen.setdefault(evkey(a, i), i)
        for i in PARTIES:
            if evkey(b, i) in seen:
                return False, "the key of party %d in one is that of party %d in the other" % (seen[evkey(b, i)], i)
    except Exception as x:
        return None, "not evaluated: %r" % x
    return None, "not compared"


def same(a, b, facts):
    """equality of two elements, by what they are derived from"""
    if a is b:
        return True, "identical"
    s, t = stream(a), stream(b)
    if s is None or t is None:
        return judge(None, facts, [(a, b)])
    if s[0] is not t[0]:
        return None, "different functions: %s, %s" % (show(s[0]), show(t[0]))
    x, y = flatkey(s[1]), flatkey(t[1])
    if s[1] is not t[1] and (x is None or y is None or len(x) != len(y)):
        return None, "keys not compared"
    for what, p in [("position in the stream", (s[2], t[2])), ("bytes read", (s[3], t[3]))] + [("key byte %d" % n, q) for n, q in enumerate(zip(x or (), y or ()))]:
        v, why = judge(None, facts, [p]) if p[0] is not p[1] else (True, "")
        if v is not True:
            return v, "%s: %s instead of %s: %s" % (what, show(p[0]), show(p[1]), why)
    return judge(None, facts, [(a, b)])


# ---------------------------------------------------------------- enlarging
def enlarge(ctx, prog, cfg, g, cap, par):
    f = method(prog, "increase_capacity", "BulletproofGens")
    old, where = sym("old_capacity"), f["sp"]
    make = lambda c, p: subst(g, {cap: c, par: p})
    # old > 0 and old = 0 separately: the constructor's summary distinguishes them
    for tag, c0, facts in (("empty", ZERO, []), ("filled", old, [psub(ONE, old)])):
        def setup(run, st):
            st.mem[run.locs[0]] = simp(make(c0, par), facts)
        assume = TRUE
        for p in facts:
            assume = b_and(assume, le0(p))
        r = Run(prog, f, setup=setup, assume=assume)
        note(ctx, r)
        new = r.argsym[1]
        for case, fs, cap2 in (("larger", facts + [psub(padd(c0, ONE), new)], new), ("smaller", facts + [psub(new, c0)], c0)):
            key = "%s.enlarge.%s.%s" % (cfg, tag, case)
            got, want = simp(r.out(0), fs), simp(make(cap2, par), fs)
            if r.st.pc is FALSE:
                ctx.ob(key, None, "never returns", where)
                continue
            for n in ("gens_capacity", "party_capacity"):
                v, why = judge(psub(field(got, n), field(want, n)), fs)
                ctx.ob("%s.%s" % (key, n), v, "%s after enlarging: %s" % (n, why), where)
            for (n, t), (_, t2) in zip(tables(got), tables(want)):
                inr = list(fs) + [psub(padd(J, ONE), par), pneg(J)]
                v, why = judge(psub(slen(t), par), fs + [pneg(par)])
                ctx.ob("%s.%s.parties" % (key, n), v, "one list per party: %s" % why, where)
                row = simp(at(t, J), inr)
                v, why = judge(psub(simp(slen(row), inr), cap2), inr)
                ctx.ob("%s.%s.length" % (key, n), v, "list length = new capacity: %s" % why, where)
                # below and above the old length
                for side, more in (("kept", [psub(padd(K, ONE), c0)]), ("added", [psub(c0, K), psub(padd(K, ONE), new)])):
                    f2 = inr + more + [pneg(K), psub(padd(K, ONE), cap2)]
                    if (side == "kept" and c0 is ZERO) or (side == "added" and case == "smaller"):
                        continue
                    a, b = simp(at(row, K), f2), element(t2, J, K, f2)[0]
                    v, why = same(a, b, f2)
                    ctx.ob("%s.%s.%s" % (key, n, side), v, "element %s = %s: %s" % (side, show(a)[:300], why), where)


# ---------------------------------------------------------------- the Pedersen bases
def pedersen_bases(ctx, prog, cfg):
    f = method(prog, "default", "PedersenGens")
    r = Run(prog, f)
    note(ctx, r)
    where = f["sp"]
    B, H = field(r.pval, "B"), field(r.pval, "B_blinding")
    ctx.ob(cfg + ".pedersen.constant", True if not syms(B) | syms(H) else None, "bases are constants: %s, %s" % (show(B)[:100], show(H)[:300]), where)
    ctx.ob(cfg + ".pedersen.different", False if B is H else True if H.op != "poly" or B not in subterms_top(H) else None,
           "the two bases are derived differently", where)
    hashed = [y for y in subterms(H) if y.op == "app" and y.args[0] == "digest"]
    ctx.ob(cfg + ".pedersen.hash", True if hashed else (False if not unmodelled(H) else None),
           "blinding base is hashed to the curve from %s" % (show(hashed[0])[:200] if hashed else show(H)[:200]), where)
    xof = [y for y in subterms(H) if y.op == "app" and y.args[0] == "xof"]
    ctx.ob(cfg + ".pedersen.apart", True if hashed and not xof else None, "not read from a stream of the generator vectors", where)
    f = method(prog, "commit", "PedersenGens")
    r = Run(prog, f)
    note(ctx, r)
    me, v, b = r.argsym
    want = padd(pmul(field(me, "B"), v), pmul(field(me, "B_blinding"), b))
    v, why = judge(psub(r.pval, want))
    ctx.ob(cfg + ".pedersen.commit", v, "commit(v, r) = v B + r B_blinding: %s" % why, f["sp"])


def subterms_top(t):
    return {a for m, c in monos(t) for a, e in m}


# ---------------------------------------------------------------- views
def share(ctx, prog, cfg):
    for n in ("G", "H"):
        f = method(prog, n, "BulletproofGensShare")
        s = Session(prog, "BulletproofGens")
        base = sym("bp_gens")
        g = expand_adt(prog, paths(prog)["BulletproofGens"], base)
        s.store(g)
        j, cnt = sym("j"), sym("n")
        # constrain the party index to an existing party
        role = [x for x, _ in g.args[2] if n in x.split("_")[0] and x not in ("gens_capacity", "party_capacity")]
        if len(role) != 1:
            ctx.ob("%s.share.%s" % (cfg, n), None, "vector not recognised", f["sp"])
            continue
        rows = field(base, role[0])
        s.st.pc = i_lt(j, slen(rows))
        sh = s.call("share", j)
        v = s.call(n, cnt, kind="BulletproofGensShare", on=cell(s, sh))
        got = lst_of(s, v)
        if got is None:
            ctx.ob("%s.share.%s" % (cfg, n), None, "iterator not read", f["sp"])
            continue
        for x in s.I.analysed:
            ctx.unit("function", x)
        row = at(rows, j)
        fs = [psub(padd(j, ONE), slen(rows))]
        v, why = judge(psub(slen(got), smin(cnt, slen(row))), fs)
        ctx.ob("%s.share.%s.length" % (cfg, n), v, "min(n, available) elements: %s" % why, f["sp"])
        f2 = fs + [psub(padd(K, ONE), cnt), psub(padd(K, ONE), slen(row))]
        v, why = judge(None, f2, [(simp(at(got, K), f2), at(row, K))])
        ctx.ob("%s.share.%s.elements" % (cfg, n), v, "element k of the share of party j is element k of party j: %s" % why, f["sp"])


def cell(s, v):
    s.st.mem[("o", "cell")] = v
    return ref(("o", "cell"))


def lst_of(s, v):
    I, st = s.I, s.st
    acc = I.newloc("acc")
    st.mem[acc] = EMPTY
    e = {"sp": ""}
    from models import whole
    itv = toit(I, v, st, None, e)
    w = whole(I, itv)
    if w is not None:
        return I.pure(w, st)
    iterate(I, itv, st, None, e, lambda x, s2, t: I.store(ref(acc), push(I.load(ref(acc), s2), I.pure(x, s2)), s2))
    return None if st.dead else I.pure(st.mem[acc], st)


def aggregate(ctx, prog, cfg):
    big = (4, 3) if ctx.tier == "quick" else (9, 5)
    for n in ("G", "H"):
        f = method(prog, n, "BulletproofGens")
        for per in range(0, big[0] + 1):
            for m in range(0, big[1] + 1):
                key = "%s.aggregate.%s.%d.%d" % (cfg, n, per, m)
                with ctx.guard(key):
                    s = Session(prog, "BulletproofGens")
                    p = paths(prog)["BulletproofGens"]
                    cells = lambda r: lst([lst([sym(r, i, k) for k in range(big[0] + 1)]) for i in range(big[1] + 1)])
                    g = expand_adt(prog, p, sym("bp_gens"))
                    g = adt(p, g.args[1], tuple((a, num(big[0] + 1) if a == "gens_capacity" else num(big[1] + 1) if a == "party_capacity"
                                                 else cells("G" if "G" in a.split("_")[0] else "H")) for a, _ in g.args[2]))
                    s.store(g)
                    got = drained(s, s.call(n, num(per), num(m)), per * m + 2)
                    want = [sym(n, i, k) for i in range(m) for k in range(per)]
                    ctx.ob(key, None if got is None else got == want, "%s(%d, %d) yields %s" % (n, per, m, "?" if got is None else [show(x) for x in got][:12]), f["sp"])


def drained(s, v, limit):
    from models import _nextv
    I, st = s.I, s.st
    loc = ("o", "iter")
    st.mem[loc] = v if local(s, v) else toit(I, v, st, None, {"sp": ""})
    out = []
    for _ in range(limit):
        o = _nextv(I, st.mem[loc], ref(loc), st, None, {"sp": ""})
        if o is None or st.dead:
            return None
        o = I.pure(o, st)
        c = restrict(isv(o, "Some"), st.pc)
        if c is FALSE:
            return out
        if c is not TRUE:
            return None
        out.append(I.pure(vfield(o, "Some", "0"), st))
    return out


def local(s, v):
    from models import local_iter
    return local_iter(s.I, v) is not None
