"""For every challenge of the verifier (identified by the role it plays in the verification equation) the transcript state
it is drawn from is computed symbolically, for statements and proofs of any size; its history must contain a message that
determines every statement and proof component sent earlier. Vector components are handled for a generic index: the loop
that absorbs them is inverted. Also: commitments enter the transcript and the commitment list in one call, challenge
derivation uses the complete challenge bytes of the current state, roles are played by pairwise different challenges, and
nothing absorbed depends on a challenge."""
import sys
from r1cs import *
from checks.c03 import Spec, Equation, judge
import checks.c03 as c03
import numeric

RULE = "history(challenge state) contains a message determining each earlier component, for a generic index of each vector"
FLOOR = 60
ASSUMPTIONS = ["merlin frames labels and messages injectively", "compressed encodings of points and scalars are injective"]


def run(ctx):
    for cfg, prog in ctx.configs():
        with ctx.guard(cfg + ".derivation"):
            derivation(ctx, prog, cfg)
        with ctx.guard(cfg + ".commitments"):
            commitments(ctx, prog, cfg)
        for phase in (1, 2):
            t = "%s.phase%d" % (cfg, phase)
            with ctx.guard(t):
                one(ctx, prog, t, phase)


def derivation(ctx, prog, cfg):
    fs = [f for f in prog.fns.values() if f["name"] == "challenge_scalar" and (f.get("itrait") or "").endswith("TranscriptProtocol")]
    if len(fs) != 1:
        raise Anchor("challenge_scalar")
    f = fs[0]
    r = Run(prog, f)
    me, lab = r.argsym[0], r.argsym[1]
    ctx.unit("root", f["p"])
    v = r.pval
    ch = [t for t in subterms(v) if t.op == "app" and t.args[0] == "chal"]
    key = cfg + ".derivation"
    if not ch:
        return ctx.ob(key, False, "the challenge does not depend on transcript bytes: %s" % show(v)[:300], f["sp"])
    good = [t for t in ch if t.args[1] is me and t.args[2] is lab]
    n = max([numval(t.args[3]) or 0 for t in good] or [0])
    ctx.ob(key, bool(good), "challenge bytes are drawn from the current state under the caller's label: %s" % show(ch[0])[:200], f["sp"])
    short = False
    for t in subterms(v):
        if t.op == "slice" and t.args[0] in ch:
            l = numval(psub(t.args[2], t.args[1]))
            whole = any(c in (x for x in subterms(v)) for c in ch)
            if l is not None and l < 16:
                short = True
    # only parts of the bytes are used
    parts = uses(v, set(ch))
    if parts == "whole":
        ctx.ob(key + ".entropy", n >= 32, "%d challenge bytes enter the scalar" % n, f["sp"])
    else:
        ctx.ob(key + ".entropy", False if short or n < 16 else None, "only parts of %d challenge bytes enter the scalar: %s" % (n, show(v)[:300]), f["sp"])
    st = r.out(0)
    adv = any(t.op == "trc" and t.args[0] is me for t in subterms(st))
    ctx.ob(key + ".advance", True if adv else False, "state after the draw: %s" % show(st)[:200], f["sp"])


def uses(v, ch):
    """'whole' when some challenge term is used other than by indexing or slicing it"""
    found = []
    seen = set()

    def go(t, parent):
        if t in ch:
            if parent is None or parent.op not in ("slice", "at", "len"):
                found.append(t)
            return
        if (t, ) in seen:
            return
        seen.add((t,))
        for c in children(t):
            go(c, t)
    go(v, None)
    return "whole" if found else "part"


def commitments(ctx, prog, cfg):
    for name in ("commit", "commit_vec"):
        for kind in ("Verifier", "Prover"):
            f = prog.fn1(name, self_adt=kind)
            r = Run(prog, f, models=cs_summary(prog), over=gens_over(f, prog))
            ctx.unit("root", f["p"])
            key = "%s.%s.%s" % (cfg, kind, name)
            me = r.argsym[0]
            h = history(field(r.out(0), "transcript"))
            msgs = [payload(x[2]) for x in walk_items(h)]
            if kind == "Verifier":
                com = [a for a, p in zip(r.argsym[1:], f["params"][1:]) if prog.types[f["crate"]][p["t"]]["k"] != "prim"]
                if len(com) != 1:
                    raise Exception("the committed point is not identified")
                com = com[0]
            else:
                com = field(r.pval, "0")
            base = [x for x in h if x[0] == "base"]
            c = [m for m in msgs if m is com]
            if not c and kind == "Prover":
                c = [m for m in msgs if judge(psub(m, com))[0] is True]
            ctx.ob(key, True if c else (None if any(x[0] in ("?", "alt") for x in h) or len(msgs) == 0 and len(h) > 1 else False),
                   "absorbs %s" % "; ".join(show(m)[:150] for m in msgs), f["sp"])
            if kind == "Verifier":
                fld = "V" if name == "commit" else "vec_comms"
                new, old = field(r.out(0), fld), field(me, fld)
                lastv = at(new, slen(old))
                got = lastv if name == "commit" else field(lastv, "0")
                ctx.ob(key + ".list", judge(None, (), [(got, com), (slen(new), padd(slen(old), ONE))])[0], "%s becomes %s" % (fld, show(new)[:200]), f["sp"])


def one(ctx, prog, tag, phase):
    r = run_verify(prog, phase)
    ctx.unit("root", r.f["p"])
    for f in r.I.analysed:
        ctx.unit("function", f)
    spec = Spec(r, phase)
    where = r.f["sp"]
    fake = Quiet()
    segs = c03.segments(spec)
    spec.roles(segs, fake, tag)
    pf = spec.pf
    okc = spec.okc
    facts = spec.facts
    f = lambda *n: get(pf, n)
    L, R, T = f("ipp_proof", "L_vec"), f("ipp_proof", "R_vec"), f("T")
    N = spec.N
    first = [("A_I1", f("A_I1")), ("A_O1", f("A_O1")), ("S1", f("S1"))]
    second = [("A_I2", f("A_I2")), ("A_O2", f("A_O2")), ("S2", f("S2"))]
    opened_ = [("t_x", f("t_x")), ("t_x_blinding", f("t_x_blinding")), ("e_blinding", f("e_blinding"))]
    m = ("m", slen(spec.V))
    need = {
        "y": [m] + first + second, "z": [m] + first + second,
        "x": [m] + first + second + [("T", None)], "u": [m] + first + second + [("T", None)],
        "w": [m] + first + second + [("T", None)] + opened_,
    }
    k = fresh("k")
    kf = [pneg(k), padd(psub(k, spec.lg), ONE)]
    uk = spec.uk(k)
    need["u_k"] = [m] + first + second + [("T", None)] + opened_ + [("n", N), ("L", (L, k)), ("R", (R, k))]
    states = {"y": spec.y, "z": spec.z, "x": spec.x, "u": spec.u, "w": spec.w, "u_k": uk}
    for role, items in need.items():
        c = states[role]
        st = spec.rw(c.args[1])
        h = full_history(st, okc)
        fs = facts + tuple(kf if role == "u_k" else ())
        base = [x for x in h if x[0] == "base"]
        key = "%s.%s" % (tag, role)
        from_me = bool(base) and base[0][1] is field(spec.me, "transcript")
        ctx.ob(key + ".continues", True if from_me else (None if any(x[0] == "?" for x in h) else False),
               "%s is drawn from a continuation of the verifier's transcript" % role, where)
        for name, it in items:
            if name == "T":
                d = fresh("d")
                res = absorbed(h, at(T, d), fs + tuple(bounds(d, padd(pscale(spec.op, 2), num(3)))), (psub(d, spec.op),))
            elif name in ("L", "R"):
                seq, kk = it
                j = fresh("j")
                # all earlier rounds and the round itself
                r1 = absorbed(h, at(seq, kk), fs)
                r2 = absorbed(h, at(seq, j), fs + (pneg(j), padd(psub(j, kk), ONE)))
                res = True if r1 and r2 else None
            else:
                res = absorbed(h, it, fs)
            bad = collision(h, it) if name == "m" and res is not True else None
            if bad:
                res, why = False, bad
            elif res is not True:
                res, why = concretely(st, name, it, spec, fs, k if role == "u_k" else None)
            else:
                why = "absorbed before the draw"
            ctx.ob("%s.%s" % (key, name), res, "%s %s: %s" % (role, name, why), where)
        # the phase marker
        labs = [x[2] for x in h if x[0] == "tr" and not syms(x[2])]
        ctx.ob(key + ".marker", True if any(has_text(x) for x in labs) else None, "domain separators %s" % ", ".join(show(x) for x in labs), where)
        for x in walk_items(h):
            bad = [t for t in subterms(x[2]) if t.op == "app" and t.args[0] == "cs"]
            if bad:
                ctx.ob(key + ".order", None, "absorbed value %s depends on a challenge" % show(x[2])[:200], where)
    marks = {}
    # two phases must not share their markers
    ctx.unit("marker", "%s %s" % (phase, "/".join(show(x[2]) for x in full_history(spec.rw(spec.y.args[1]), okc) if x[0] == "tr" and not syms(x[2]))))
    roles = list(states.items())
    for i, (a, c) in enumerate(roles):
        for b, d in roles[i + 1:]:
            ctx.ob("%s.distinct.%s.%s" % (tag, a, b), c is not d, "%s and %s are different draws" % (a, b), where)
    if phase == 2:
        h1 = None
        for e, cl in events(r.trace):
            if e.kind == "callback":
                cb = e
        h = full_history(spec.y.args[1], okc)
        i = [j for j, x in enumerate(h) if x[0] == "callback"]
        pre = h[:i[0]] if i else h
        for name, it in [m] + first:
            res = absorbed(pre, it, facts) if i else None
            why = "%s is absorbed before any challenge of a randomized constraint" % name
            if i and res is not True:
                bad = collision(pre, it) if name == "m" else None
                plain = all(x[0] in ("base", "tr", "chal") for x in pre)
                if bad:
                    res, why = False, bad
                elif plain and not any(it in set(subterms(x[2])) for x in pre if x[0] == "tr"):
                    res, why = False, "%s is not in the transcript when the callbacks of the second phase run" % name
            ctx.ob("%s.callback.%s" % (tag, name), res, why, where)
        # order inside pre: everything absorbed before the callback


def has_text(t):
    return t.op == "str" or (t.op == "lst" and len(t.args[0]) > 0)


def concretely(st, name, it, spec, facts, k):
    """messages under concrete sizes: False with a witness when the item is missing, True when present in all"""
    n = 0
    pfs = [st, spec.op, spec.lg] + ([it] if isinstance(it, T) else [])
    ints = numeric.int_shapes(pfs + list(facts))
    for f in facts:
        for mm, c in monos(f):
            for a, e in mm:
                if a.op in ("sym", "fld", "at", "app"):
                    ints.add(numeric.shape(a))
    for s in range(2000):
        e = numeric.Ev((numeric.SEED, "c", s), ints, 2 + s % 5)
        try:
            if not all(e.int(f, {}) <= 0 for f in facts):
                continue
            msgs = concrete(st, e)
            vals = {key_payload(x[2]) for x in msgs if x[0] == "tr"}
            if name == "T":
                op = e.int(spec.op, {})
                T_ = field(spec.pf, "T")
                want = [(d, e.ky(e.ev(at(T_, num(d)), {}))) for d in range(2 * op + 3) if d != op]
            elif name in ("L", "R"):
                seq, kk = it
                want = [(d, e.ky(e.ev(at(seq, num(d)), {}))) for d in range(e.int(kk, {}) + 1)]
            else:
                want = [(0, e.ky(e.ev(it, {})))]
        except numeric.Undef:
            continue
        for d, w in want:
            if w not in vals:
                return False, "not absorbed before the draw (index %s, e.g. at %s)" % (d, numeric.assignment(e))
        n += 1
        if n >= 12:
            return True, "absorbed in %d concrete sizes" % n
    return None, "not decided"


def collision(h, it):
    """two sizes that every message mentioning the size encodes alike"""
    ms = [payload(x[2]) for x in walk_items(h) if x[0] == "tr" and it in set(subterms(x[2]))]
    if not ms or any(m is it for m in ms):
        return None
    for a, b in ((1, 2), (1, 1 + 2 ** 8), (1, 1 + 2 ** 16), (1, 1 + 2 ** 32), (2, 3), (0, 1)):
        va = [encoded(m, it, a) for m in ms]
        if None not in va and va == [encoded(m, it, b) for m in ms]:
            return "%s is absorbed as %s, the same for %d and %d" % (show(it), "; ".join(show(m)[:100] for m in ms), a, b)
    return None


def encoded(m, it, v):
    e = numeric.Ev((numeric.SEED, "enc"), numeric.int_shapes([m]), 4)
    e.memo[it] = v
    try:
        return e.ky(e.ev(m, {}))
    except numeric.Undef:
        return None


def key_payload(v):
    if isinstance(v, tuple) and len(v) > 1 and v[0] == "ser":
        return v[1]
    if isinstance(v, tuple) and len(v) > 2 and v[0] == "app" and v[1] in ("u64", "u32", "le_bytes", "be_bytes"):
        return v[2]
    return v


class Quiet:
    def ob(self, *a, **k):
        return None
