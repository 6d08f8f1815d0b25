"""Every type of the two crates with a hand-written encoder is found in the type-checked program. Its encoder is analysed with a
symbolic value and an output that records, in order, every component written: the component, its type and the compression mode it
was given; branches of the encoder give one such record for each case. The decoder is then analysed reading that very record, in
each case: it has to accept, to consume the record exactly, to read each component with the type and mode it was written with, and
to return the value that was encoded, field by field. The size reported is analysed the same way and has to equal the sum of the
sizes of the components in the record. The proof's byte-level helpers are analysed over the same record, with arbitrary bytes after
it: leftover input has to be refused."""
from prover import *
from session import *
from models import ld
import numeric
import re
from numeric import reach as _reach

RULE = "decode(record of encode(x)) = x, consuming all of it; size(x) = sum of the sizes recorded"
FLOOR = 40
ASSUMPTIONS = ["the encodings of the components themselves (group elements, scalars, vectors, bytes: ark-serialize) decode to what was encoded"]
SER, DE, VALID = "ark_serialize::CanonicalSerialize", "ark_serialize::CanonicalDeserialize", "ark_serialize::Valid"
W, R_ = ("w",), ("r",)
MODE, VALIDATE = "ark_serialize::Compress", "ark_serialize::Validate"


def impls(prog):
    """{type: {trait: {method: fn}}} of all local implementations"""
    out = {}
    for im in prog.impls:
        t = prog.types[im["crate"]][im["self"]]
        if im.get("trait") in (SER, DE, VALID) and t["k"] == "adt":
            d = out.setdefault(t["p"], {})
            d[im["trait"].split("::")[-1]] = {it[0]: prog.fns[it[2]] for it in im["items"] if it[1] == "fn" and it[2] in prog.fns}
    return out


def tyname(I, fr, t):
    """canonical name of a component type; None when generic inside a helper"""
    x = I.ty(fr, t)
    while x["k"] == "ref":
        x = I.ty(fr, x["t"])
    return canon(I.prog, fr.crate, x, Env(I, fr))


class Env:
    """what generic parameters stand for where a type is mentioned"""
    def __init__(self, I, fr):
        self.I, self.fr = I, fr

    def get(self, name):
        fr = self.fr
        if isinstance(fr.tenv.get(name, (0, None))[1], int):
            c, t, fr2 = fr.tenv[name]
            return canon(self.I.prog, c, self.I.prog.types[c][t], Env(self.I, fr2))
        while fr.parent is not None and "iself" not in fr.fn:
            fr = fr.parent
        return positional(self.I.prog, fr.fn["crate"], fr.fn.get("iself")).get(name)

    def text(self, s):
        return instantiate(s, self.get)


def instantiate(t, get):
    """a type with its generic parameters replaced"""
    if isinstance(t, tuple):
        return t[:1] + tuple(instantiate(x, get) for x in t[1:])
    v = get(t)
    if v is not None:
        return v
    return re.sub(r"(?<![\w:])[A-Z]\w*\b(?!::|<)", lambda m: m.group(0) if get(m.group(0)) is None else render(get(m.group(0))), t)


def render(t):
    return t if isinstance(t, str) else t[0] + "<" + ",".join(render(x) for x in t[1:]) + ">"


def positional(prog, crate, self_ty):
    """generic parameters of an implementation, named after their place in the type implemented for"""
    if self_ty is None:
        return {}
    x = prog.types[crate][self_ty]
    ad = prog.adts.get(x.get("p"), {})
    out = {}
    for n, a in zip(ad.get("g", []), [a for a in x.get("a", []) if isinstance(a, int)]):
        if prog.types[crate][a]["k"] == "param":
            out[prog.types[crate][a]["s"]] = n
    return out


def canon(prog, crate, x, env=None):
    T = prog.types[crate]
    if x["k"] == "param" and env is not None:
        v = env.get(x["s"])
        return x["s"] if v is None else v
    while x["k"] == "ref":
        x = T[x["t"]]
    if x["k"] == "adt":
        p = x["p"]
        a = [canon(prog, crate, T[i], env) for i in x.get("a", []) if isinstance(i, int) and T[i]["k"] not in ("const", "lifetime", "region")]
        if p.endswith("vec::Vec"):
            return ("seq", a[0])
        return (p.split("::")[-1],) + tuple(a)
    if x["k"] in ("slice",):
        return ("seq", canon(prog, crate, T[x["t"]], env))
    return env.text(x["s"]) if env is not None else x["s"]


def token(v, ty, mode):
    return mk("enc", v, ty, mode)


def mode_of(I, f, args, st, i):
    if f["name"].endswith("_with_mode"):
        return I.pure(ld(I, args[i], st), st)
    return adt(MODE, "No" if "uncompressed" in f["name"] else "Yes", ())


def m_write(I, f, args, st, fr, e):
    v = I.pure(ld(I, args[0], st), st)
    w = I.through(args[1], st) if args[1].op == "ref" else None
    if w is None:
        return None
    m = mode_of(I, f, args, st, 2)
    t = token(v, tyname(I, fr, f["self"]), m)
    I.store(w, cat([I.load(w, st), lst([t])]), st)
    return ok(UNIT)


def m_size(I, f, args, st, fr, e):
    m = adt(MODE, "No" if "uncompressed" in f["name"] else "Yes", ())
    if f["name"] == "serialized_size":
        if (f.get("r") or "") in I.prog.fns:
            return None
        m = I.pure(ld(I, args[1], st), st)
    return size_of(I.prog, I.pure(ld(I, args[0], st), st), tyname(I, fr, f["self"]), m)


FIXED = {"u8": 1, "bool": 1, "u16": 2, "u32": 4, "u64": 8, "usize": 8}


def size_of(prog, v, ty, m):
    if ty in FIXED:
        return num(FIXED[ty])
    if isinstance(ty, tuple):
        if ty[0] == "seq":
            el = ty[1]
            if fixed(prog, el):
                return padd(num(8), pmul(slen(v), size_of(prog, None, el, m)))
            return app("size", v, m)
        if not fixed(prog, ty):
            for p, d in impls(prog).items():
                if p.split("::")[-1] == ty[0] and v is not None and "serialized_size" in d.get("CanonicalSerialize", {}):
                    r = Run(prog, d["CanonicalSerialize"]["serialized_size"], models=SERM, over={0: v, 1: m}).pval
                    env = dict(zip(prog.adts[p].get("g", []), ty[1:]))
                    return subst_term(r, {x: mk("ty", instantiate(x.args[0], env.get)) for x in set(subterms(r)) if x.op == "ty"})
            return app("size", v, m)
    return app("fixedsize", mk("ty", ty), m)


def fixed(prog, ty):
    """component types whose encodings all have the same length: numbers, field elements, group elements"""
    if isinstance(ty, tuple):
        return ty[0] != "seq" and not any(p.split("::")[-1] == ty[0] for p, a in prog.adts.items() if a.get("local"))
    return True


def m_read(I, f, args, st, fr, e):
    """pop the next component off the record"""
    r = args[0]
    while r.op == "ref" and I.load(r, st).op == "ref":
        r = I.load(r, st)
    if r.op != "ref":
        return None
    cur = I.pure(I.load(r, st), st)
    ty = tyname(I, fr, f["self"])
    m = mode_of(I, f, args, st, 1)
    if f["name"].endswith("_with_mode"):
        val = I.pure(ld(I, args[2], st), st)
    else:
        val = adt(VALIDATE, "No" if "unchecked" in f["name"] else "Yes", ())
    if getattr(I, "feed", None) is not None:
        return I.feed(I, r, cur, ty, m, val, st, fr, e)
    items = record(cur)
    if items is None:
        I.ev("read", ("?", show(cur)), st, e.get("sp"), fr)
        return None
    if not items:
        I.ev("read", ("underrun", ty), st, e.get("sp"), fr)
        return adt("core::result::Result", "Err", (("0", app("underrun")),))
    t = items[0]
    I.store(r, cat([lst(items[1:])] + rest_of(cur)), st)
    if t.op != "enc":
        I.ev("read", ("?", show(t)), st, e.get("sp"), fr)
        return None
    I.ev("read", ("read", t, ty, m, val), st, e.get("sp"), fr)
    v = t.args[0]
    return ok(v)


def record(cur):
    """leading components of a record"""
    if cur.op == "lst":
        return list(cur.args[0])
    if cur.op == "cat" and cur.args[0][0].op == "lst":
        return list(cur.args[0][0].args[0])
    return None


def rest_of(cur):
    return list(cur.args[0][1:]) if cur.op == "cat" else []


def m_check(I, f, args, st, fr, e):
    v = I.pure(ld(I, args[0], st), st)
    I.ev("check", (v,), st, e.get("sp"), fr)
    return app("check", v)


def m_batch(I, f, args, st, fr, e):
    return None


SERM = {"CanonicalSerialize::" + n: m_write for n in ("serialize_with_mode", "serialize_compressed", "serialize_uncompressed")}
SERM.update({"CanonicalSerialize::" + n: m_size for n in ("serialized_size", "compressed_size", "uncompressed_size")})
SERM.update({"CanonicalDeserialize::deserialize_" + n: m_read for n in ("with_mode", "compressed", "uncompressed", "compressed_unchecked", "uncompressed_unchecked")})
SERM["Valid::check"] = m_check


def cases(content, cond):
    """[(condition, list of components or None)]"""
    parts = content.args[0] if content.op == "cat" else [content]
    for p in parts:
        if p.op == "ite":
            c = atom_cond(p.args[0])
            out = []
            for q in (c, b_not(c)):
                d = b_and(cond, q)
                if d is not FALSE:
                    out += cases(resplit(content, d), d)
            return out
    if all(p.op == "lst" for p in parts):
        return [(cond, [x for p in parts for x in p.args[0]])]
    return [(cond, None)]


def resplit(content, cond):
    if content.op == "cat":
        return cat([restrict(p, cond) for p in content.args[0]])
    return restrict(content, cond)


def encode(prog, f, value=None, cond=TRUE):
    """(run, condition of success, [(condition, components)])"""
    over = {1: ref(W)}
    if value is not None:
        over[0] = value

    def setup(run, st):
        st.mem[W] = EMPTY
    r = Run(prog, f, models=SERM, over=over, setup=setup, assume=cond)
    okc = r.ok()
    return r, okc, cases(resplit(r.I.pure(r.st.mem[W], r.st), okc), okc)


def selfval(r):
    v = r.args[0]
    return r.I.pure(r.I.load(v, r.st) if v.op == "ref" else v, r.st)


def decode(prog, f, items, cond=TRUE, compress=None, feed=None, validate=None):
    def setup(run, st):
        st.mem[R_] = lst(items) if not feed else items
        run.I.feed = feed
    over = {0: ref(R_)}
    if compress is not None:
        over[1] = compress
    if validate is not None:
        over[2] = validate
    return Run(prog, f, models=SERM, over=over, setup=setup, assume=cond)


def run(ctx):
    for cfg, prog in ctx.configs():
        t = impls(prog)
        ctx.ob(cfg + ".types", True if len(t) >= 5 else None, "types with encoders: %s" % ", ".join(sorted(x.split("::")[-1] for x in t)), "")
        for p, d in sorted(t.items()):
            n = p.split("::")[-1]
            ctx.unit("type", p)
            with ctx.guard("%s.%s" % (cfg, n)):
                one(ctx, prog, cfg, n, d)
        with ctx.guard(cfg + ".bytes"):
            helpers(ctx, prog, cfg)


def note(ctx, r):
    ctx.unit("root", r.f["p"])
    for f in r.I.analysed:
        ctx.unit("function", f)


def one(ctx, prog, cfg, n, d):
    base = "%s.%s" % (cfg, n)
    if SER.split("::")[-1] not in d or "serialize_with_mode" not in d["CanonicalSerialize"]:
        return
    f = d["CanonicalSerialize"]["serialize_with_mode"]
    r, okc, cs = encode(prog, f)
    note(ctx, r)
    me, comp = selfval(r), r.argsym[2]
    v = True if b_and(r.st.pc, b_not(okc)) is FALSE and r.st.pc is TRUE else None
    ctx.ob(base + ".encodes", v, "encoding into memory succeeds", f["sp"])
    sz = None
    if "serialized_size" in d["CanonicalSerialize"]:
        g = d["CanonicalSerialize"]["serialized_size"]
        sz = Run(prog, g, models=SERM, over={1: comp})
        note(ctx, sz)
    dec = d.get("CanonicalDeserialize", {}).get("deserialize_with_mode")
    for i, (cond, items) in enumerate(cs):
        key = base if len(cs) == 1 else "%s.case%d" % (base, i)
        if items is None or any(x.op != "enc" for x in items):
            ctx.ob(key, None, "what is written was not recognised", f["sp"])
            continue
        # size
        if sz is not None:
            ren = subst(sz.pval, {sz.argsym[0]: r.argsym[0]})
            want = ZERO
            for x in items:
                want = padd(want, size_of(prog, *x.args))
            got = deep(ren, cond)
            v, why = same_size(got, want)
            ctx.ob(key + ".size", v, "reported size %s, %d components of size %s: %s" % (show(got), len(items), show(want), why), g["sp"])
        if dec is None:
            continue
        q = decode(prog, dec, items, cond, comp)
        note(ctx, q)
        bad = b_and(cond, b_not(q.ok()))
        reads = [e.data for e, _ in events(q.trace) if e.kind == "read"]
        if any(x[0] == "?" for x in reads) or q.I.unknown:
            ctx.ob(key + ".accepts", None, "decoder not followed: %s" % [x for x in reads if x[0] == "?"][:2], dec["sp"])
            continue
        ctx.ob(key + ".accepts", bad is FALSE or (False if reach(bad, [])[0] == "reached" else None),
               "the decoder accepts what the encoder wrote%s" % ("" if bad is FALSE else ": refuses %s" % show(bad)[:200]), dec["sp"])
        mism = [(x[1].args[1], x[2]) for x in reads if x[0] == "read" and differ(x[1].args[1], x[2])]
        ctx.ob(key + ".types", True if not mism else mismatch(mism), "components read as the types written: %s" % (mism or "%d reads" % len(reads)), dec["sp"])
        mm = [(show(x[1].args[2]), show(x[3])) for x in reads if x[0] == "read" and x[1].args[2] is not x[3]]
        ctx.ob(key + ".modes", not mm, "compression modes written / read: %s" % (mm or "equal"), dec["sp"])
        left = q.I.pure(q.st.mem[R_], q.st)
        left = restrict(left, q.ok())
        ctx.ob(key + ".consumes", True if left is EMPTY else (False if left.op == "lst" else None), "left unread: %s" % show(left)[:200], dec["sp"])
        res = q.okval()
        facts = [cond]
        for nm, want in me.args[2]:
            if phantom(prog, me, nm):
                continue
            got = deep(field(res, nm), cond)
            v, why = equal(got, want, cond)
            ctx.ob("%s.field.%s" % (key, nm), v, "field %s after decoding: %s%s" % (nm, show(got)[:200], why and ": " + why), dec["sp"])


def reach(cond, facts=()):
    """satisfiability: exact when the atoms are independent (outcomes of components, components being zero)"""
    if cond is FALSE:
        return "none", 0
    seen = set()
    for a in bdd_atoms(cond):
        if a.op == "eq0":
            t = monos(a.args[0])
            x = t[0][0][0][0] if len(t) == 1 and len(t[0][0]) == 1 else None
        else:
            x = a
        if x is None or x in seen or (a.op == "eq0" and x.op not in ("fld", "sym", "vfld", "app")) or (a.op != "eq0" and not outcome(a)):
            return _reach(cond, facts)
        seen.add(x)
    return "reached", show(cond)[:200]


def outcome(a):
    return any(x.op == "app" and x.args[0] in ("rd", "check") for x in subterms(a)) and a.op not in ("le0", "eq")


def phantom(prog, me, nm):
    for v, fs in prog.adts[me.args[0]]["v"]:
        for fd in fs:
            if fd[0] == nm:
                for crate, ts in prog.types.items():
                    if me.args[0].startswith(crate) or me.args[0].split("::")[0] == crate:
                        return "PhantomData" in str(ts[fd[1]].get("s"))
    return False


def deep(t, cond):
    """decisions anywhere inside t, under a condition"""
    if cond is TRUE:
        return t

    def go(x):
        x = restrict(x, cond) if x.op == "ite" else x
        return rebuild(x, go) if x.args and x.op in ("app", "poly", "adt", "cat", "lst", "tup") else x
    return go(t)


def equal(a, b, cond):
    a, b = restrict(a, cond), restrict(b, cond)
    if a is b:
        return True, ""
    for p in equalities(cond):
        if p in (psub(a, b), psub(b, a)):
            return True, "by the condition of the case"
    m = {}
    for x in bdd_atoms(cond):
        if x.op == "eq0" and b_and(cond, b_not(atom_cond(x))) is FALSE:
            y = x.args[0]
            t = monos(y)
            if len(t) == 1 and len(t[0][0]) == 1 and t[0][0][0][1] == 1:
                m[t[0][0][0][0]] = ZERO
    a, b = subst_term(a, m), subst_term(b, m)
    if a is b:
        return True, "in this case"
    return judge(None, [], [(a, b)])


def differ(a, b):
    return a is not None and b is not None and a != b


def mismatch(ms):
    soft = all({a, b} <= {"u8", "bool"} or (isinstance(a, tuple) and a[0] == "seq") != (isinstance(b, tuple) and b[0] == "seq") for a, b in ms)
    return None if soft else False


def same_size(got, want):
    if got is want:
        return True, "equal"
    return judge(psub(got, want), [])


def helpers(ctx, prog, cfg):
    """whole-value helpers over byte slices"""
    n = 0
    for p in sorted(impls(prog)):
        kind = p.split("::")[-1]
        pair = {}
        for nm in ("to_bytes", "from_bytes"):
            fs = [f for f in prog.byname.get(nm, []) if not prog.is_test(f) and "iself" in f and (prog.self_adt(f) or "") == p]
            if len(fs) == 1:
                pair[nm] = fs[0]
        if len(pair) != 2:
            continue
        n += 1
        base = "%s.%s" % (cfg, kind)
        t, fb = pair["to_bytes"], pair["from_bytes"]
        r = Run(prog, t, models=SERM)
        note(ctx, r)
        items = record(r.pval)
        me = selfval(r)
        good = items is not None and len(items) == 1 and not rest_of(r.pval) and items[0].op == "enc"
        ctx.ob(base + ".to_bytes", True if good and items[0].args[0] is me else (False if good else None),
               "bytes are the encoding of the value: %s" % show(r.pval)[:200], t["sp"])
        if not good:
            continue
        for tag, tail in (("exact", []), ("trailing", [app("more", num(i)) for i in range(1)])):
            def setup(run, st):
                st.mem[R_] = lst(items + tail)
            q = Run(prog, fb, models=SERM, over={0: ref(R_)}, setup=setup)
            note(ctx, q)
            reads = [e.data for e, _ in events(q.trace) if e.kind == "read"]
            if any(x[0] == "?" for x in reads):
                ctx.ob("%s.from_bytes.%s" % (base, tag), None, "decoder not followed", fb["sp"])
                continue
            if tag == "trailing":
                ctx.ob("%s.from_bytes.trailing" % base, q.ok() is FALSE or (False if reach(q.ok(), [])[0] == "reached" else None),
                       "leftover bytes are refused", fb["sp"])
                continue
            okc = q.ok()
            v = True if okc is TRUE and q.okval() is me else (False if okc is FALSE else None)
            ctx.ob("%s.from_bytes.exact" % base, v, "decodes to %s if %s" % (show(q.okval())[:100], show(okc)[:100]), fb["sp"])
            mm = [(show(x[1].args[2]), show(x[3])) for x in reads if x[0] == "read" and x[1].args[2] is not x[3]]
            ctx.ob("%s.from_bytes.modes" % base, not mm, "compression modes: %s" % (mm or "equal"), fb["sp"])
            un = [show(x[4]) for x in reads if x[0] == "read" and not (x[4].op == "adt" and x[4].args[1] == "Yes")]
            ctx.ob("%s.from_bytes.validates" % base, not un, "reads with validation: %s" % (un or "all"), fb["sp"])
    ctx.ob(cfg + ".bytes.found", True if n else None, "%d types with byte helpers" % n, "")
