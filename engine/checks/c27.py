"""The verifier of a signed transaction is analysed with the signature scheme and the decoder as functions with an unknown outcome. Its
condition for a normal return must become false when either signature is taken to be invalid, where the call in question is the one for
the i-th key of the decoded pour, the i-th signature of the transaction and the bytes of the transaction; and when decoding those very
bytes with validation is taken to fail. What the proof part records and returns must be what the analysed verifier of a pour records and
returns for the decoded pour. On the payer's side the signatures must be made over the bytes of the transaction, under the keys of the
inputs, with the randomness of the keys in the pour."""
from coins import *
from checks.c21 import differs
from checks.c23 import same

RULE = "accept(tx) => sigvalid(params, pk_i(decoded), tx.bytes, sig_i) for i = 0, 1, and decodes(tx.bytes, validated); events = events(pour verifier on the decoded pour)"
FLOOR = 20
ASSUMPTIONS = ["the Schnorr signature of ark-crypto-primitives is unforgeable and its verify returns false for invalid signatures", "decoders validate as asked: C07"]


def run(ctx):
    for cfg, prog in ctx.configs():
        numeric.set_variants(prog)
        for h in (1, 2, 3) if ctx.tier != "thorough" else range(1, 8):
            with ctx.guard("%s.h%d" % (cfg, h)):
                accept(ctx, prog, "%s.h%d" % (cfg, h), h)
        for L, h, idx in ((2, 1, (0, 1)), (2, 2, (3, 1))) + (((3, 2, (8, 4)), (2, 3, (0, 7))) if ctx.tier == "thorough" else ()):
            key = "%s.payer.L%d_h%d" % (cfg, L, h)
            with ctx.guard(key):
                payer(ctx, prog, key, Payment(prog, L, h, idx))


def without(pc, atoms):
    return assume(pc, {a: False for a in atoms})


def accept(ctx, prog, key, h):
    L = 2
    par, sides = parameters(prog)
    T = Tree(prog, L, 1, h, params=sides, shape=top(h, L, 1))
    pour, chains = sym_pour(prog, h)
    f, tx, r = run_tx(prog, pour, T, par, sides, L)
    units(ctx, r, key)
    where = f["sp"]
    lg = log(r)
    pc = r.st.pc
    good = external(pc, ("vsp", "sigok", "sigvalid", "decodes"))
    if good is not TRUE:
        ctx.ob(key + ".accepts", False if good is FALSE else None, "an honest transaction is accepted only when " + show(good)[:160], where)
        if good is FALSE:
            return
    else:
        ctx.ob(key + ".accepts", True, "accepted when the bytes decode, the signatures and the proofs verify", where)
    atoms = bdd_atoms(pc)
    bytes_ = field(tx, "pour_bytes")
    dec = [a for a in atoms if a.op == "bopq" and a.args[0] == "decodes"]
    evs = [e for e, l in events(r.trace)]
    asked = [e for e in evs if e.kind == "decode"]
    ok_ = [a for a in dec if a.args[1] is bytes_ and _validated(a.args[3])]
    if ok_ and without(pc, ok_) is FALSE:
        ctx.ob(key + ".decoded", True, "accepting implies that the bytes transmitted decode with full validation", where)
    else:
        unrec = not asked or any(_validated(e.data[2]) is None for e in asked)
        what = ", ".join("%s (mode %s, validate %s)" % (show(e.data[0])[:40], show(e.data[1])[:20], show(e.data[2])[:20]) for e in asked)
        ctx.ob(key + ".decoded", None if unrec else False, "the bytes decoded are %s; accepting does not imply that the transmitted bytes decode with validation" % (what or "unknown"), where)
    checks = [e for e in evs if e.kind == "sigverify"]
    params = r.argsym[roles(prog, f)["Parameters"][0]]
    for i in (0, 1):
        pk = field(pour, "pk%d" % i)
        want = [params, pk, bytes_]
        sig = {"prover_response": field(tx, "signature_prover_response_%d" % i), "verifier_challenge": field(tx, "signature_verifier_challenge_%d" % i)}
        hit = [e for e in checks if len(e.data) == 4 and all(x is y for x, y in zip(e.data, want)) and all(field(e.data[3], k) is v for k, v in sig.items())]
        if hit:
            at = [mk("bopq", "sigvalid", *e.data) for e in hit]
            ctx.ob("%s.signature%d" % (key, i), True if without(pc, at) is FALSE else False, "accepting implies that signature %d is valid under key %d over the bytes%s" % (
                i, i, "" if without(pc, at) is FALSE else ": it does not, the outcome is not enforced"), where)
            continue
        mine = [e for e in checks if len(e.data) == 4 and e.data[1] is pk]
        if not checks:
            known = not set(r.I.unknown) - {"thread::thread_rng"}
            ctx.ob("%s.signature%d" % (key, i), False if known else None, "no signature is verified", where)
            continue
        why = "; ".join("key %s, message %s, signature (%s, %s)" % (show(e.data[1])[:30], show(e.data[2])[:40], show(field(e.data[3], "prover_response"))[-40:], show(field(e.data[3], "verifier_challenge"))[-40:]) for e in (mine or checks))
        apart_ = all(any(apart(x, y) is True or shorter(x, y) for x, y in list(zip(e.data, want)) + [(field(e.data[3], k), v) for k, v in sig.items()]) for e in checks)
        ctx.ob("%s.signature%d" % (key, i), False if apart_ else None, "signature %d is not verified under key %d over the bytes; verified are: %s" % (i, i, why), where)
    # the proof part
    g, q = run_pour(prog, pour, T, par, sides, L)
    m = {q.argsym[i]: None for i in range(len(q.argsym)) if q.argsym[i] is not None}
    ren = {}
    Rf, Rg = roles(prog, f), roles(prog, g)
    for k in Rg:
        if k in Rf and k.startswith("[u8"):
            ren[q.argsym[Rg[k][0]]] = r.argsym[Rf[k][0]]
    a = [(k, d, gg) for k, d, gg, sp in lg]
    b = [(k, tuple(subst_term(x, ren) if hasattr(x, "op") and ren else x for x in d), gg) for k, d, gg, sp in log(q)]
    res = None
    if [x[0] for x in a] != [x[0] for x in b]:
        res = (False, "the transaction verifier records %s where the pour's verifier records %s" % ([x[0] for x in a][:12], [x[0] for x in b][:12]))
    else:
        for x, y in zip(a, b):
            for s, t in zip(x[1], y[1]):
                e = same(s, t)
                if e is not True and res is None:
                    res = (e, "%s: %s instead of %s" % (x[0], show(s)[:80] if hasattr(s, "op") else s, show(t)[:80] if hasattr(t, "op") else t))
            if x[2] is not TRUE and res is None:
                res = (None, x[0] + " only when " + show(x[2])[:80])
    ctx.ob(key + ".checked", res[0] if res else True, res[1] if res else "the decoded pour is verified: %d steps as its verifier takes them" % len(a), where)
    v, w = restrict(r.pval, pc), restrict(q.pval, q.st.pc)
    e = same_tuple(v, w)
    ctx.ob(key + ".result", e, "returns %s" % show(v)[:120], where)
    vs = [(k, d) for k, d, gg, sp in lg if k == "vsp"]
    for k, d in vs:
        at = [x for x in atoms if x.op == "isv" and x.args[1] == "Ok" and x.args[0] is app(k, *d)]
        ctx.ob("%s.proof_%s" % (key, show(d[1])), True if at and without(pc, at) is FALSE else False, "accepting implies that %s passes its checks" % show(d[1])[:60], where)


def shorter(x, y):
    """x is a part of y whose length is not y's"""
    return x.op == "slice" and x.args[0] is y and slen(x) is not slen(y)


def same_tuple(v, w):
    if v is w:
        return True
    if v.op == w.op == "tup" and len(v.args) == len(w.args):
        rs = [same(x, y) for x, y in zip(v.args, w.args)]
        return True if all(x is True for x in rs) else False if False in rs else None
    return None


def _validated(v):
    s = v.args[1] if v.op == "adt" else v.args[0] if v.op == "str" else None
    return {"Yes": True, "No": False}.get(s)


def payer(ctx, prog, key, P):
    units(ctx, P.r, key)
    where = P.f["sp"]
    if P.tx.op != "adt":
        raise Gap("transaction " + show(P.tx)[:80])
    params = P.r.argsym[roles(prog, P.f)["Parameters"][0]]
    ctx.ob(key + ".bytes", True if P.bytes is mk("ser", P.pour, mk("str", "compressed")) else None, "the bytes are the compressed encoding of the pour", where)
    for i in (0, 1):
        coin = field(P.inputs[i], "coin_aux")
        rand = mk("ser", field(coin, "pk_randomness"), mk("str", "compressed"))
        found = []
        for part in ("prover_response", "verifier_challenge"):
            x = field(P.tx, "signature_%s_%d" % (part, i))
            found.append((part, x))
        base = {x.args[0] for part, x in found if x.op == "fld"}
        if len(base) != 1 or any(x.op != "fld" or x.args[-1] != part for part, x in found):
            ctx.ob("%s.signature%d" % (key, i), None, "signature %d is %s" % (i, ", ".join(show(x)[:60] for p, x in found)), where)
            continue
        s = base.pop()
        if not (s.op == "app" and s.args[0] == "randomize_signature" and s.args[2].op == "app" and s.args[2].args[0] == "sign"):
            ctx.ob("%s.signature%d" % (key, i), None, "signature %d is %s" % (i, show(s)[:100]), where)
            continue
        sg = s.args[2]
        for what, got, want in (("parameters", sg.args[1], params), ("key", sg.args[2], field(P.inputs[i], "sk")), ("message", sg.args[3], P.bytes),
                                ("randomization parameters", s.args[1], params), ("randomization", s.args[3], rand)):
            e = same(got, want)
            ctx.ob("%s.signature%d_%s" % (key, i, what.replace(" ", "_")), e, "%s of signature %d: %s" % (what, i, show(got)[:80]), where)
