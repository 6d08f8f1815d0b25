"""Every hand-written decoder is analysed on an arbitrary input: each component read is a fresh symbol, each single byte read takes
all 256 values in turn. In every accepting case each component has to be read with the caller's compression and validation modes
unchanged, its failure has to make the decoder fail, and encoding the decoded value again has to give exactly the components read
(so an unknown discriminant, or a non-canonical one, cannot be accepted). Every hand-written validity check is analysed on a symbolic
value: it may succeed only if the checks of all components succeed."""
from checks.c06 import *

RULE = "decoder: modes handed down unchanged, failures propagated, encode(decode(bytes)) = bytes; validity check: implies that of every component"
FLOOR = 40
ASSUMPTIONS = ["the decoders of the components themselves (ark-serialize) validate and are canonical"]


def run(ctx):
    for cfg, prog in ctx.configs():
        for p, d in sorted(impls(prog).items()):
            n = p.split("::")[-1]
            base = "%s.%s" % (cfg, n)
            if "CanonicalDeserialize" in d:
                ctx.unit("decoder", p)
                with ctx.guard(base + ".decode"):
                    decoder(ctx, prog, base, d)
            if "Valid" in d or "CanonicalDeserialize" in d:
                with ctx.guard(base + ".check"):
                    checks(ctx, prog, base, d, p)


def rd(n):
    return app("rd", num(n))


class Feed:
    def __init__(self, choose):
        self.choose = choose            # value of the byte read at a position
        self.bytes = set()

    def __call__(self, I, r, cur, ty, m, val, st, fr, e):
        if not (cur.op == "app" and cur.args[0] == "stream"):
            I.ev("read", ("?", show(cur)), st, e.get("sp"), fr)
            return None
        n = numval(cur.args[1])
        I.store(r, app("stream", num(n + 1)), st)
        v = vfield(rd(n), "Ok", "0")
        if ty in ("u8", "bool"):
            self.bytes.add(n)
            c = self.choose(n)
            if ty == "bool":
                if c > 1:
                    I.ev("read", ("bool", n), st, e.get("sp"), fr)
                    return adt("core::result::Result", "Err", (("0", app("baddata")),))
                v = TRUE if c else FALSE
            else:
                v = num(c)
        I.ev("read", ("read", n, ty, m, val, v), st, e.get("sp"), fr)
        return ite(isv(rd(n), "Ok"), ok(v), err(vfield(rd(n), "Err", "0")))


def decoder(ctx, prog, base, d):
    f = d["CanonicalDeserialize"].get("deserialize_with_mode")
    if f is None:
        return ctx.ob(base + ".decode", None, "no decoder function", "")
    other = set(d["CanonicalDeserialize"]) - {"deserialize_with_mode"}
    if other:
        ctx.ob(base + ".decode.others", None, "further decoding functions: %s" % sorted(other), f["sp"])
    enc = d.get("CanonicalSerialize", {}).get("serialize_with_mode")
    seen = {}
    first = Feed(lambda n: 0)
    decode(prog, f, app("stream", ZERO), feed=first)
    todo = [{}]
    known = set(first.bytes)
    done = set()
    values = {}
    while todo:
        fix = todo.pop()
        fd = Feed(lambda n: fix.get(n, 0))
        q = decode(prog, f, app("stream", ZERO), feed=fd)
        for n in fd.bytes:
            if (n, tuple(sorted((a, b) for a, b in fix.items() if a < n))) not in done and len(done) < 6:
                done.add((n, tuple(sorted((a, b) for a, b in fix.items() if a < n))))
                todo += [dict([(a, b) for a, b in fix.items() if a < n] + [(n, v)]) for v in range(256)]
        k = tuple(sorted((n, fix.get(n, 0)) for n in fd.bytes))
        if k not in values:
            values[k] = q
    for x in values.values():
        for g in x.I.analysed:
            ctx.unit("function", g)
    accepted = refused = 0
    for k, q in sorted(values.items()):
        okc = q.ok()
        reads = [(e.data, e.guard) for e, _ in events(q.trace) if e.kind == "read"]
        key = base + ".decode" + "".join(".%d=%d" % x for x in k)
        if any(x[0] == "?" for x, _ in reads) or q.I.unknown:
            ctx.ob(key, None, "decoder not followed: %s %s" % ([x for x, _ in reads if x[0] == "?"][:2], sorted(map(str, q.I.unknown))[:3]), f["sp"])
            continue
        if okc is FALSE:
            refused += 1
            continue
        accepted += 1
        ctx.unit("case", key)
        comp, val = q.argsym[1:3]
        rs = [x for x, g in reads if x[0] == "read"]
        for _, n, ty, m, w, v in rs:
            ctx.ob("%s.read%d.mode" % (key, n), m is comp, "component %d (%s) is read in mode %s" % (n, ty, show(m)), f["sp"])
            if ty in FIXED:
                continue
            checked = any(e.kind == "check" for e, _ in events(q.trace))
            good = w is val or (w.op == "adt" and w.args[1] == "Yes")
            ctx.ob("%s.read%d.validate" % (key, n), True if good else None if checked or isv(w, "Yes") is not FALSE else False,
                   "component %d (%s) is read with validation %s" % (n, ty, show(w)), f["sp"])
            bad = b_and(okc, b_not(isv(rd(n), "Ok")))
            ctx.ob("%s.read%d.error" % (key, n), bad is FALSE or (False if reach(bad, [])[0] == "reached" else None),
                   "a malformed component %d is not accepted" % n, f["sp"])
        if enc is None:
            continue
        r, ok2, cs = encode(prog, enc, value=q.okval(), cond=okc)
        for i, (cond, items) in enumerate(cs):
            if reach(cond, [])[0] == "none":
                continue
            ckey = "%s.again%d" % (key, i)
            if items is None or any(x.op != "enc" for x in items):
                ctx.ob(ckey, None, "what is written was not recognised", enc["sp"])
                continue
            live = [x for x in rs]
            if len(items) != len(live):
                ctx.ob(ckey, False if reach(cond, [])[0] == "reached" else None, "%d components read, %d written again if %s" % (len(live), len(items), show(cond)[:200]), f["sp"])
                continue
            v, why = True, "%d components" % len(items)
            for x, (_, n, ty, m, w, rv) in zip(items, live):
                a = deep(x.args[0], cond)
                if a is rv and x.args[1] == ty:
                    continue
                v1, w1 = equal(a, rv, cond)
                if v1 is not True or differ(x.args[1], ty):
                    v, why = (v1 if v1 is not True else False), "component %d: read %s (%s), written again %s (%s) %s" % (n, show(rv), ty, show(a)[:100], x.args[1], w1)
                    break
            ctx.ob(ckey, v, "encoding the decoded value gives the bytes read: %s" % why, f["sp"])
    ctx.ob(base + ".decode.some", True if accepted else (None if not values else False), "%d cases accepted, %d refused" % (accepted, refused), f["sp"])


def checks(ctx, prog, base, d, p):
    f = d.get("Valid", {}).get("check")
    if f is None:
        return ctx.ob(base + ".check", None, "no validity check found", "")
    r = Run(prog, f, models=SERM)
    note(ctx, r)
    okc = r.ok()
    me = selfval(r)
    vn, fs = prog.adts[p]["v"][0]
    crate = f["crate"]
    if okc is FALSE:
        return ctx.ob(base + ".check", False, "never succeeds", f["sp"])
    for (nm, tid, *_), (_, v) in zip(fs, me.args[2]):
        ty = canon(prog, crate_of(prog, p), prog.types[crate_of(prog, p)][tid])
        if ty in FIXED or "PhantomData" in str(ty) or ty in (("seq", "u8"), "()"):
            continue
        bad = b_and(okc, b_not(isv(app("check", v), "Ok")))
        if bad is FALSE:
            ctx.ob("%s.check.%s" % (base, nm), True, "succeeds only if the check of %s (%s) does" % (nm, ty), f["sp"])
            continue
        seen = v in set(subterms(okc)) | {x for e, _ in events(r.trace) for x in subterms(mk("tup", tuple(y for y in e.data if hasattr(y, "op"))))}
        und = r.I.unknown or (seen and app("check", v) not in set(subterms(okc)) and any(e.kind not in ("check",) for e, _ in events(r.trace)))
        ctx.ob("%s.check.%s" % (base, nm), None if und else False, "succeeds although the check of %s (%s) fails" % (nm, ty), f["sp"])


def crate_of(prog, p):
    return p.split("::")[0]
