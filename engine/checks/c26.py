"""The verifier of a payment is analysed on a pour whose parts are all different symbols, for trees of the heights listed, with recorders
for the constraint systems it creates. What it records must contain: both minted commitments opened to two values with a 64-bit range proof
of the first, the whole chain of level gadgets of each input path down to its leaf (as in C21), each leaf opened to two values whose second
is constrained to the hash of the public key of that input, and the balance of the four amounts; constraints are compared as linear spans.
The two constraint systems must be checked against the proofs of the pour over transcripts with the domain given, and their results
returned. The prover is then analysed on explicit trees and the pour it makes is given to the analysed verifier: both must record the same
statements in the same order."""
from coins import *
from checks.c21 import levels, differs
from checks.c23 import same

RULE = "events(pour verifier) contain mint opening + range, path chain, leaf opening, tag = hash(pk), balance; events(prover) = events(verifier on the prover's pour)"
FLOOR = 40
ASSUMPTIONS = ["the level gadget and the range proof prove their relations: C15, C20", "the proof system binds commitments and constraints: C03, C12", "Schnorr signing and key randomization succeed"]


def cases(tier):
    th = tier == "thorough"
    out = [("L%d_h%d_%d_%d" % (L, h, a, b), L, h, (a, b)) for L, h, a, b in
           ((2, 1, 0, 1), (2, 2, 1, 2), (2, 2, 3, 0), (2, 3, 5, 6), (3, 2, 4, 8), (2, 4, 0, 15)) + (((2, 5, 31, 8), (4, 2, 3, 7), (2, 6, 1, 62), (5, 1, 0, 4)) if th else ())]
    return out


def run(ctx):
    hs = range(1, 7) if ctx.tier != "thorough" else range(1, 12)
    for cfg, prog in ctx.configs():
        numeric.set_variants(prog)
        for h in hs:
            key = "%s.h%d" % (cfg, h)
            with ctx.guard(key):
                verifier(ctx, prog, key, 2, h)
        with ctx.guard(cfg + ".coin"):
            minted(ctx, prog, cfg + ".coin")
        for key, L, h, idx in cases(ctx.tier):
            key = "%s.prover.%s" % (cfg, key)
            with ctx.guard(key):
                mirror(ctx, prog, key, Payment(prog, L, h, idx))


def verifier(ctx, prog, key, L, h):
    par, sides = parameters(prog)
    T = Tree(prog, L, 1, h, params=sides, shape=top(h, L, 1))
    pour, chains = sym_pour(prog, h)
    f, r = run_pour(prog, pour, T, par, sides, L)
    units(ctx, r, key)
    where = f["sp"]
    lg = log(r)
    pc = r.st.pc
    rest = external(pc, ("vsp",))
    if rest is not TRUE:
        return ctx.ob(key + ".accepted", False if rest is FALSE else None, "a pour of the right shape is accepted only when " + show(rest)[:160], where)
    ctx.ob(key + ".accepted", True, "a pour of the right shape is accepted when both proofs verify", where)
    names = sides_of(lg, pour)
    if sorted(names.values()) != ["even", "odd"]:
        vs = [(show(d[0]), show(d[1])[:60]) for k, d, g, sp in lg if k == "vsp"]
        return ctx.ob(key + ".proofs", False, "the proofs checked are %s, not the two of the pour" % (vs,), where)
    back = {v: k for k, v in names.items()}
    res = restrict(r.pval, pc)
    want = tup(*[vfield(app("vsp", mk("str", back[s]), sym(s + "_proof")), "Ok", "0") for s in ("even", "odd")])
    ctx.ob(key + ".proofs", True if res is want else differs(res, want) if res.op == "tup" else None, "returns %s" % show(res)[:160], where)
    for s in ("even", "odd"):
        vp = [pc is not TRUE and implies(pc, isv(app("vsp", mk("str", back[s]), sym(s + "_proof")), "Ok"))]
        ctx.ob("%s.%s_checked" % (key, s), True if all(vp) else False, "a result is returned only if the %s proof passes its structural checks" % s, where)
        n = [d for k, d, g, sp in lg if k == "new" and d[0].args[0] == back[s]]
        dom = app_domain(r, f)
        ok_ = len(n) == 1 and n[0][1].op == "trnew" and n[0][1].args[0] is dom
        ctx.ob("%s.%s_transcript" % (key, s), True if ok_ else None, "the transcript of the %s side starts from the domain given: %s" % (s, show(n[0][1])[:80] if n else "?"), where)
    lg = swap(lg, names)
    for i in (0, 1):
        levels(ctx, "%s.path%d" % (key, i), [x for x in lg if x[0] in ("commitv", "level", "blevel")], L, 1, h, chains[i], T, sides, where)
    ev = mk("str", "even")
    opens, n = {}, 0
    for k, d, g, sp in lg:
        if k == "commitv" and d[0] is ev:
            opens.setdefault(d[2], []).append((n, d[1], g, sp))
            n += d[1]
    cons = [(var_num(d[1]), g) for k, d, g, sp in lg if k == "con" and d[0] is ev]
    rows = [c for c, g in cons if g is TRUE]
    odd_ = [c for c in rows if c.op != "poly"]
    amounts = []
    for i in (0, 1):
        m = field(pour, "minted_coin_commitment_%d" % i)
        o = [x for x in opens.get(m, []) if x[1] == 2 and x[2] is TRUE]
        if not o:
            ctx.ob("%s.mint%d" % (key, i), False, "minted commitment %d is not opened to its two values on the even curve" % i, where)
            amounts.append(None)
            continue
        v = [var(ev, num(x[0])) for x in o]
        amounts.append(v[0])
        rs = [(d, g, sp) for k, d, g, sp in lg if k == "range" and d[0] is ev]
        good = [x for x in rs if any(span(psub(x[0][1], y), rows) for y in v) and x[1] is TRUE]
        w = [concrete(x[0][3]) for x in good]
        if not good:
            ctx.ob("%s.mint%d" % (key, i), None if any(x[1] is not TRUE or x[0][1].op != "poly" and x[0][1].op != "app" for x in rs) else False,
                   "the amount of minted commitment %d is not range-checked; range checks are on %s" % (i, ", ".join(show(x[0][1])[:40] for x in rs) or "nothing"), where)
        else:
            ctx.ob("%s.mint%d" % (key, i), True if 64 in w else None if None in w else (True if min(w) < 64 else False), "minted amount %d is confined to %s bits" % (i, w), good[0][2])
    spent = []
    hash_ = method(prog, "pk_to_scalar", "Coin")
    for i in (0, 1):
        o = [x for x in opens.get(chains[i][0], []) if x[1] == 2 and x[2] is TRUE]
        if not o:
            ctx.ob("%s.spend%d" % (key, i), False, "the leaf of path %d is not opened to its two values on the even curve" % i, where)
            spent.append(None)
            continue
        spent.append(var(ev, num(o[0][0])))
        tag = var(ev, num(o[0][0] + 1))
        pk = field(pour, "pk%d" % i)
        ser = mk("ser", pk, mk("str", "compressed"))
        cand = {x for c, g in cons for x in subterms(c) if x.op == "app" and x.args[0] == "from_le_bytes_mod"}
        hs = [x for x in cand if ser in set(subterms(x))]
        # the hash of the key as the payer computes it
        want = Run(prog, hash_, over={0: pk}).pval
        tagok = span(psub(tag, want), rows)
        det = "tag of input %d is constrained to %s" % (i, show(want)[:100])
        h = whole_hash(want, pk)
        if h is not True:
            ctx.ob("%s.tag%d" % (key, i), h, "the hash of a key is %s" % show(want)[:120], where)
        else:
            ctx.ob("%s.tag%d" % (key, i), True if tagok else None if odd_ else False, det if tagok else "not enforced: " + det, where)
    if None not in amounts + spent:
        bal = psub(padd(*amounts), padd(*spent))
        b = span(bal, rows)
        ctx.ob(key + ".balance", True if b else None if odd_ or len(rows) < len(cons) else False, "minted %s = spent %s%s" % (show(padd(*amounts)), show(padd(*spent)), "" if b else " is not enforced"), where)


def whole_hash(t, pk):
    """the term is a hash of the complete encoding of the key"""
    ds = [x for x in subterms(t) if x.op == "app" and x.args[0] == "digest"]
    if pk not in set(subterms(t)):
        return False
    if len(ds) != 1 or t.op != "app":
        return None
    d = ds[0].args[-1]
    parts = list(d.args[0]) if d.op == "cat" else [d]
    if any(x.op == "ser" and x.args[0] is pk for x in parts):
        return True
    if any(x.op == "slice" and x.args[0].op == "ser" and slen(x) is not slen(x.args[0]) for x in parts):
        return False
    return None


def minted(ctx, prog, key):
    """the coin handed out opens the commitment that goes into the tree"""
    par, sides = parameters(prog)
    for nm in ("mint", "new"):
        f = method(prog, nm, "Coin")
        R = roles(prog, f)
        over = {R["SingleLayerParameters"][0]: sides[0]}
        if nm == "new":
            from checks.c24 import explicit
            over[R["SingleLayerParameters"][0]] = explicit(prog, sides[0], "even", 4)
        r = walk(prog, f, over, 2, 1, sides, models=coin_models(prog))
        units(ctx, r, key)
        un = sorted(r.I.unknown)
        v = restrict(r.pval, r.st.pc)
        k2 = "%s.%s" % (key, nm)
        if v.op != "tup" or un:
            ctx.ob(k2, None, "not modelled: %s; returns %s" % (un, show(v)[:80]), f["sp"])
            continue
        coin, c = v.args[0][:2] if isinstance(v.args[0], tuple) else v.args[:2]
        want = padd(com(sym("even_bp_gens"), 0, [field(coin, "value"), field(coin, "tag")]), pmul(field(coin, "blinding"), B_of(sides[0])))
        e = same(c, want)
        ctx.ob(k2 + ".opening", e, "the coin %s the commitment made: %s" % ("opens" if e else "does not open", show(c)[:160]), f["sp"])
        e = same(field(coin, "value"), r.argsym[R["u64"][0]])
        ctx.ob(k2 + ".value", e, "the coin has the value asked for: %s" % show(field(coin, "value"))[:60], f["sp"])
        # the tag is the hash of the receiver's key randomized with the scalar kept in the coin
        pk = r.argsym[[v for k, v in R.items() if k.endswith("Affine") or k == "PublicKey"][0][0]]
        sp_ = r.argsym[R["Parameters"][0]]
        rpk = Run(prog, method(prog, "rerandomized_pk", "Coin"), over={0: pk, 1: field(coin, "pk_randomness"), 2: sp_}, models=coin_models(prog)).pval
        h = Run(prog, method(prog, "pk_to_scalar", "Coin"), over={0: rpk}).pval
        e = same(field(coin, "tag"), h)
        ctx.ob(k2 + ".tag", e, "the tag is %s" % show(field(coin, "tag"))[:160], f["sp"])


def app_domain(r, f):
    R = roles(r.I.prog, f)
    k = [v[0] for n, v in R.items() if n.startswith("[u8")]
    return r.argsym[k[0]] if k else None


def mirror(ctx, prog, key, P):
    units(ctx, P.r, key)
    where = P.f["sp"]
    rest = external(P.pc, ("prove",))
    # sufficient generators
    while rest.op == "ite" and rest.args[0].op in ("eq0", "le0") and all("bp_gens" in show(s) for s in syms(rest.args[0])):
        rest = rest.args[1] if rest.args[2] is FALSE else rest.args[2] if rest.args[1] is FALSE else FALSE
    ctx.ob(key + ".proves", True if rest is TRUE else False if rest is FALSE else None, "the payer completes when %s" % show(rest)[:160], where)
    if rest is not TRUE:
        return
    P.verify()
    units(ctx, P.v, key)
    rest = external(P.v.st.pc, ("vsp",))
    ctx.ob(key + ".verifies", True if rest is TRUE else False if rest is FALSE else None, "the verifier completes on the pour when %s" % show(rest)[:160], P.g["sp"])
    if rest is not TRUE:
        return
    if sorted(P.names.values()) != ["even", "odd"]:
        return ctx.ob(key + ".proofs", None, "proofs not recognised", where)
    for s in ("even", "odd"):
        pf = field(P.pour, s + "_proof")
        side = P.sides[0 if s == "even" else 1]
        want = vfield(app("prove", mk("str", s), field(side, "bp_gens")), "Ok", "0")
        ctx.ob("%s.%s_proof" % (key, s), True if pf is want else differs(pf, want), "the %s proof of the pour is %s" % (s, show(pf)[:80]), where)
    vlg = swap(P.vlg, P.names)
    for s in ("even", "odd"):
        cid = mk("str", s)
        kinds = ("commitp", "commitv", "level", "blevel", "con", "range")
        a = [x for x in P.lg if x[0] in kinds and x[1][0] is cid]
        b = [x for x in vlg if x[0] in kinds and x[1][0] is cid]
        k2 = "%s.%s" % (key, s)
        bad = next((x for x in a + b if x[2] is not TRUE), None)
        if bad:
            ctx.ob(k2, None, "%s only when %s" % (bad[0], show(bad[2])[:100]), bad[3])
            continue
        nm = lambda l: ["commit" if x[0].startswith("commit") else x[0] for x in l]
        if nm(a) != nm(b):
            ctx.ob(k2, False, "the payer records %s, the verifier %s" % (nm(a), nm(b)), where)
            continue
        res = (True, "%d steps agree" % len(a), where)
        for n, (x, y) in enumerate(zip(a, b)):
            if x[0] == "commitp":
                pairs = [("dimension", x[1][1], y[1][1]), ("commitment", x[1][5], y[1][2])]
            elif x[0] == "range":
                pairs = [("value", x[1][1], y[1][1]), ("bits", x[1][3], y[1][3])]
            elif x[0] == "con":
                pairs = [("constraint", var_num(x[1][1]), var_num(y[1][1]))]
            else:
                pairs = list(zip(("parameters", "rerandomized child", "children"), x[1][1:4], y[1][1:4]))
            for what, p, q in pairs:
                e = same(p, q)
                if e is not True:
                    res = (e, "%s of step %d (%s): the payer has %s, the verifier %s" % (what, n, nm(a)[n], show(p)[:100] if hasattr(p, "op") else p, show(q)[:100] if hasattr(q, "op") else q), x[3])
                    break
            if res[0] is not True:
                break
        ctx.ob(k2, *res)
    # the amounts the payer asks for are those in the minted commitments, and the ones range-checked
    cps = [x for x in P.lg if x[0] == "commitp" and x[1][0] is mk("str", "even")]
    rgs = [x for x in P.lg if x[0] == "range"]
    for i in (0, 1):
        c = field(P.pour, "minted_coin_commitment_%d" % i)
        o = [x for x in cps if x[1][5] is c]
        v = o[0][1][2].args[0][0] if o else None
        e = None if v is None else same(v, P.amounts[i])
        ctx.ob("%s.amount%d" % (key, i), e, "minted commitment %d carries %s" % (i, show(v) if v is not None else "?"), where)
        s = [x for x in rgs if vfield(x[1][2], "Some", "0") is P.amounts[i]]
        ctx.ob("%s.assign%d" % (key, i), True if s else None, "the range proof is given the amount", where)
        e = same(field(P.pour, "pk%d" % i), field(P.inputs[i], "randomized_pk"))
        ctx.ob("%s.key%d" % (key, i), e, "the pour names the key of input %d" % i, where)
