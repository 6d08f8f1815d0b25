"""Every gadget is analysed twice on a recording constraint system: without witness (the verifier) and with an arbitrary symbolic witness
(the prover). The two runs must issue the same sequence of allocations, gates and constraints with the same linear combinations, absorb
the same messages and return the same combinations; in the prover's run every event must happen whenever the gadget returns (its guard
is implied by the condition for a normal return), and no witness value may occur in a combination, so that the shape is a function of the
public inputs alone. Assignments must be present on the prover and absent on the verifier."""
from circuit import *
from checks.c17 import table
from checks.c19 import WIDTH
from checks import c20

RULE = "events(gadget, witness) = events(gadget, no witness), for an arbitrary witness; assignment = Some on the prover, None on the verifier"
FLOOR = 30
ASSUMPTIONS = ["sizes (bit lengths, table columns, windows, children, batch sizes) are those of the list of cases"]


def pair(prog, name, n, over, wit, none, **kw):
    """(f, run with witness, run without)"""
    f = find(prog, name)
    return f, gadget(prog, name, over=dict(over, **{}) | wit, path=f["p"], **kw), gadget(prog, name, over=dict(over) | none, path=f["p"], **kw)


def rep(prog, x, y, w):
    p = paths(prog)["PointRepresentation"]
    fs = [z[0] for z in prog.adts[p]["v"][0][1]]
    return adt(p, p.split("::")[-1], tuple(zip(fs, (x, y, w))))


def addition(prog, dl):
    p = paths(prog)["CurveAddition"]
    fs = [z[0] for z in prog.adts[p]["v"][0][1]]
    return adt(p, p.split("::")[-1], tuple(zip(fs, [pub(z) for z in ("xl", "yl", "xr", "yr", "xo", "yo")] + [dl])))


def bits_of(vals):
    return lambda I, f, args, st, fr, e: lst(list(vals))


def cases(prog, tier):
    """[(key, gadget, over, with witness, without, keyword arguments)]"""
    W = lambda k: sym("W" + k)
    out = []
    th = tier == "thorough"
    R = roles(prog, find(prog, "range_proof"))
    for n in (0, 1, 2, 8, 33, 64) if not th else range(65):
        out.append(("range_proof%d" % n, "range_proof", {R["LinearCombination"][0]: pub("v"), R["usize"][0]: num(n)}, {R["Option"][0]: some(W("q"))}, {R["Option"][0]: NONE_}, {}))
    R = roles(prog, find(prog, "lookup"))
    for n in (1, 2, 3):
        out.append(("lookup%d" % n, "lookup", {R["Lookup3Bit"][0]: table(prog, lambda c, j: pub("T", c, j), n)}, {R["Option"][0]: some(W("i"))}, {R["Option"][0]: NONE_}, {"consts": {"N": num(n)}}))
    for nm in ("incomplete_curve_addition_helper", "checked_curve_addition_helper"):
        R = roles(prog, find(prog, nm))
        a, b = R["PointRepresentation"]
        mk_ = lambda w: {a: rep(prog, pub("xl"), pub("yl"), some(W("l")) if w else NONE_), b: rep(prog, pub("xr"), pub("yr"), some(W("r")) if w else NONE_)}
        out.append((nm, nm, {}, mk_(True), mk_(False), {}))
    R = roles(prog, find(prog, "incomplete_curve_addition"))
    a = R["CurveAddition"][0]
    out.append(("incomplete_curve_addition", "incomplete_curve_addition", {}, {a: addition(prog, some(W("d")))}, {a: addition(prog, NONE_)}, {}))
    R = roles(prog, find(prog, "checked_curve_addition"))
    a, b = R["CurveAddition"][0], R["Option"][0]
    out.append(("checked_curve_addition", "checked_curve_addition", {}, {a: addition(prog, some(W("d"))), b: some(W("i"))}, {a: addition(prog, NONE_), b: NONE_}, {}))
    f = find(prog, "re_randomize")
    R = roles(prog, f)
    for lam in (6, 7, 8, 64) if not th else (6, 7, 8, 11, 12, 64, 255, 256):
        m = lam // 3 + 1
        t = [i for i in range(len(f["params"])) if i not in R["cs"] + R["PointRepresentation"] + R["LinearCombination"] + R["Option"]][0]
        ov = {t: lst([table(prog, (lambda i: lambda c, j: pub("T", i, c, j))(i), 2) for i in range(m)]), R["LinearCombination"][0]: pub("xt"), R["LinearCombination"][1]: pub("yt")}
        c, o = R["PointRepresentation"][0], R["Option"][0]
        for nm, bits in (("", [mk("wbit", k) for k in range(lam)]), (".digits", [TRUE if (k // 3 * 3 + 1) >> k % 3 & 1 else FALSE for k in range(lam + -lam % 64)]), (".sparse", [TRUE if k % 5 == 0 else FALSE for k in range(max(256, lam))])):
            if not nm and lam > 12:
                continue
            out.append(("re_randomize%d%s" % (lam, nm), "re_randomize", ov, {c: rep(prog, pub("cx"), pub("cy"), some(W("c"))), o: some(W("r"))},
                        {c: rep(prog, pub("cx"), pub("cy"), NONE_), o: NONE_}, {"models": dict(WIDTH(lam), **{"BigInteger::to_bits_le": bits_of(bits)})}))
    for nm, M, n in ((c20.SINGLE, 1, 1), (c20.SINGLE, 1, 3), (c20.BATCHED, 1, 2), (c20.BATCHED, 2, 2), (c20.BATCHED, 3, 1)):
        f = find(prog, nm)
        R = roles(prog, f)
        lam, m = 6, 3
        ov = {R["SingleLayerParameters"][0]: c20.params(prog, m, c20.cell), R["Affine"][0]: c20.RC, R["Vec"][0]: lst([pub("x", k) for k in range(M * n)])}
        w = W("c") if nm == c20.SINGLE else lst([W("c%d" % i) for i in range(M)])
        bits = [TRUE if k % 3 == 0 else FALSE for k in range(256)]
        out.append(("%s%d_%d" % ("batched" if nm == c20.BATCHED else "single", M, n), nm, ov, {R["Option"][0]: some(w), R["Option"][1]: some(W("r"))},
                    {R["Option"][0]: NONE_, R["Option"][1]: NONE_}, {"models": dict(WIDTH(lam), **{"BigInteger::to_bits_le": bits_of(bits)}), "consts": {"M": num(M)}}))
    return out


def run(ctx):
    for cfg, prog in ctx.configs():
        numeric.set_variants(prog)
        try:
            cs = cases(prog, ctx.tier)
        except Anchor as x:
            ctx.ob(cfg + ".gadgets", None, "gadget not found: %s" % x)
            continue
        for key, name, over, wit, none, kw in cs:
            with ctx.guard("%s.%s" % (cfg, key)):
                one(ctx, prog, "%s.%s" % (cfg, key), name, over, wit, none, kw)


def secret(t):
    return [x for x in subterms(t) if x.op == "sym" and x.args[0].startswith("W") or x.op == "wbit"]


def shape(r):
    """[(event, guard relative to the normal return)] of the constraint system and the transcript"""
    pc = r.ok() if r.pval.op in ("adt", "ite") and any(l.op == "adt" and l.args[0].endswith("Result") for l in leaves(r.pval)) else r.st.pc
    out = []
    for e, loops in events(r.trace):
        if e.kind in ("alloc", "allocmul", "mul", "con", "tr"):
            if loops:
                raise Gap("%s in a loop of unknown length" % e.kind)
            g = e.guard
            out.append((e, TRUE if g is TRUE or implied_by(pc, g) is True else restrict(g, pc)))
    if r.I.unknown:
        raise Gap("not modelled: " + ", ".join(sorted(r.I.unknown)))
    return pc, out


def differ(a, b):
    """True when the two terms are different functions, None when that is not decided"""
    if a is b:
        return False
    v = numeric.test([(a, b)]) if a.op == "poly" or b.op == "poly" or a.op == "app" else None
    if a.op == b.op == "str":
        return True
    return True if secret(a) or secret(b) else (v is not True if v is not None else None)


def one(ctx, prog, key, name, over, wit, none, kw):
    f, rw, rn = pair(prog, name, 0, over, wit, none, **kw)
    units(ctx, rw, key)
    pw, ew = shape(rw)
    pn, en = shape(rn)
    where = f["sp"]
    if pw is FALSE:
        return ctx.ob(key + ".returns", False, "with a witness the gadget never returns", where)
    ctx.ob(key + ".returns", True if pn is TRUE else None, "without a witness the gadget completes: %s" % show(pn)[:100], where)
    kinds = lambda es: [e.kind for e, g in es]
    if kinds(ew) != kinds(en):
        # is it the witness, or the mere presence of one?
        k = next((i for i, (x, y) in enumerate(zip(ew + [(None, None)], en + [(None, None)])) if x[0] is None or y[0] is None or x[0].kind != y[0].kind), 0)
        e = (ew + en)[min(k, len(ew + en) - 1)][0]
        return ctx.ob(key + ".sequence", False, "event %d differs: %d events with a witness (%s), %d without (%s)" % (
            k, len(ew), ew[k][0].kind if k < len(ew) else "none", len(en), en[k][0].kind if k < len(en) else "none"), ew[k][0].sp if k < len(ew) else where)
    ctx.ob(key + ".sequence", True, "%d events in both runs" % len(ew), where)
    bad = [(e, g) for e, g in ew if g is not TRUE]
    if bad:
        e, g = bad[0]
        ctx.ob(key + ".guards", False if secret(g) else None, "with a witness the %s happens only when %s" % (e.kind, show(g)[:160]), e.sp)
    else:
        ctx.ob(key + ".guards", True, "every event happens in every normal run of the prover", where)
    res = True
    for (e, g), (d, h) in zip(ew, en):
        x, y = (e.data[:-1], d.data[:-1]) if e.kind in ("alloc", "allocmul") else (e.data, d.data)
        for a, b in zip(x, y):
            if a is b:
                continue
            q = restrict(a, pw) if hasattr(a, "op") else a
            if q is b:
                continue
            if hasattr(a, "op") and secret(a):
                res = False
                ctx.ob(key + ".terms", False, "a witness value enters the %s: %s" % (e.kind, show(a)[:160]), e.sp)
                break
            dd = differ(a, b) if hasattr(a, "op") else True
            if dd is not False:
                res = False if dd else None
                ctx.ob(key + ".terms", res, "the %s is %s with a witness and %s without" % (e.kind, show(a)[:100], show(b)[:100]), e.sp)
                break
        if res is not True:
            break
    if res is True:
        ctx.ob(key + ".terms", True, "same linear combinations and messages in both runs", where)
    al = [(e, d) for (e, g), (d, h) in zip(ew, en) if e.kind in ("alloc", "allocmul")]
    bad = [e for e, d in al if not is_some(restrict(e.data[-1], pw))]
    ctx.ob(key + ".assigned", not bad if not bad or restrict(bad[0].data[-1], pw) is NONE_ else None, "every allocation of the prover has an assignment (%d)" % len(al) if not bad else
           "an allocation gets %s from the prover" % show(bad[0].data[-1])[:100], bad[0].sp if bad else where)
    vw, vn = (restrict(r.pval, p) for r, p in ((rw, pw), (rn, pn)))
    if vw is not BOT and vn is not BOT:
        a, b = strip(vw), strip(vn)
        ctx.ob(key + ".result", True if a is b else False if secret(a) else None, "same combinations returned" if a is b else "returns %s with a witness and %s without" % (show(a)[:100], show(b)[:100]), where)


def is_some(t):
    return t.op == "adt" and t.args[1] == "Some"


def strip(t):
    """a returned value without the witness carried along"""
    if t.op == "adt":
        return adt(t.args[0], t.args[1], tuple((k, strip(v) if not (v.op == "adt" and v.args[0].endswith("Option") or v.op == "ite") else UNIT) for k, v in t.args[2]))
    return t
