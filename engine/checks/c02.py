"""Prover and verifier are analysed side by side. For every API call (new, commit, commit_vec, allocate, allocate_multiplier,
multiply, constrain, specify_randomized_constraints, and the calls a randomized callback can make) the transcript states after
the call are compared; then the proof computed by the prover is substituted, symbol by symbol, into the verifier, and the
transcript state every challenge is drawn from is compared with the prover's: same labels, same order, same absorbed values
in the same encoding, same number of draws, through the last round of the inner-product argument. Counts of commitments and
multipliers are fixed per scenario (one- and two-phase, zero to six vector commitments, all padding cases), all values are
symbols. Equal states are equal terms; a difference is reported with the first message that differs. The inner-product
argument is additionally compared on its own for vectors of length 1 to 64."""
from protocol import *

RULE = "transcript state (term) of the prover = transcript state of the verifier with the prover's messages, at every draw"
FLOOR = 80
ASSUMPTIONS = ["points and scalars sent in a proof decode to the values the prover computed (C06)"]


def run(ctx):
    for cfg, prog in ctx.configs():
        for sc in scenarios(ctx.tier):
            with ctx.guard("%s.%s" % (cfg, sc.name)):
                one(ctx, prog, cfg, sc)
        for n in (1, 2, 4, 8, 16, 64) if ctx.tier == "thorough" else (1, 2, 4, 8, 32):
            with ctx.guard("%s.ipp.%d" % (cfg, n)):
                ipp(ctx, prog, cfg, n)


def one(ctx, prog, cfg, sc):
    tag = "%s.%s" % (cfg, sc.name)
    p = Pair(prog, sc)
    where = method(prog, "verify", "Verifier")["sp"]
    for i, (name, a, b, x, y) in enumerate(p.steps):
        v, why = same_state(x, y)
        ctx.ob("%s.call%d.%s" % (tag, i, name), v, "after %s: %s" % (name, why), method(prog, name, "Prover")["sp"])
    p.prove().verify()
    for f in p.P.I.analysed | p.V.I.analysed:
        ctx.unit("function", f)
    ctx.unit("scenario", tag)
    ctx.ob(tag + ".draws", len(p.pch) == len(p.vch) and p.P.ran == p.V.ran, "%d and %d draws" % (len(p.pch), len(p.vch)), where)
    for i, (a, b) in enumerate(zip(p.pch, p.vch)):
        v, why = same_state(a[2], p.inst(b[2]))
        ctx.ob("%s.draw%d" % (tag, i), v, "state before draw %d (%s): %s" % (i, show(a[0]), why), where)
        c, d = a[1], p.inst(b[1])
        ctx.ob("%s.value%d" % (tag, i), True if c is d else v if v is not True else (None if c.op == d.op else False),
               "challenge %s / %s" % (show(a[0]), show(b[0])), where)
        if v is not True:
            break


def ipp(ctx, prog, cfg, n):
    """create against verify on its own"""
    P, V, m, _ = ipp_pair(prog, n)
    tag = "%s.ipp.%d" % (cfg, n)
    where = P.f["sp"]
    pc = [e.data for e, c in events(P.trace) if e.kind == "chal"]
    vc = [e.data for e, c in events(V.trace) if e.kind == "chal"]
    ctx.ob(tag + ".draws", len(pc) == len(vc), "%d and %d rounds" % (len(pc), len(vc)), where)
    for i, (a, b) in enumerate(zip(pc, vc)):
        v, why = same_state(a[2], subst_term(b[2], m))
        ctx.ob("%s.draw%d" % (tag, i), v, "state before the challenge of round %d: %s" % (i, why), where)
        if v is not True:
            break


def ipp_pair(prog, n, models=None):
    """(run of create, run of verify, substitution of the proof) for vectors of n symbols"""
    # roles by position: both functions are public interface
    f = method(prog, "create", "InnerProductProof")
    g = method(prog, "verify", "InnerProductProof")
    if len(f["params"]) != 8 or len(g["params"]) != 9:
        raise Anchor("parameters of InnerProductProof::create / verify")
    vec = {nm: lst([sym(nm, j) for j in range(n)]) for nm in ("gf", "hf", "G", "H", "a", "b")}
    tr, Q = sym("transcript"), sym("Q")
    md = lambda: dict(cs_summary(prog), **(models() if models else {}))
    P = Run(prog, f, models=md(), over={0: tr, 1: Q, 2: vec["gf"], 3: vec["hf"], 4: vec["G"], 5: vec["H"], 6: vec["a"], 7: vec["b"]})
    sp = sym_proof(prog, P.pval)
    m = {}
    match_proof(sp, P.pval, m)
    V = Run(prog, g, models=md(), over={0: sp, 1: num(n), 2: tr, 3: vec["gf"], 4: vec["hf"], 5: sym("Pcom"), 6: Q, 7: vec["G"], 8: vec["H"]})
    return P, V, m, vec


# ---------------------------------------------------------------- comparison of two states
def flat(s):
    out = []
    while True:
        if s.op == "tr":
            out.append(("append", s.args[1], s.args[2]))
            s = s.args[0]
        elif s.op == "trc":
            out.append(("draw", s.args[1], s.args[2]))
            s = s.args[0]
        elif s.op in ("sym", "fld"):
            out.append(("base", s, s))
            out.reverse()
            return out
        else:
            return None


def same_state(a, b):
    if a is b:
        return True, "same state"
    x, y = flat(a), flat(b)
    if x is None or y is None:
        v, why = judge(None, (), [(a, b)])
        return (True if v is True else None), "states not flattened: " + why
    for i, (p, q) in enumerate(zip(x, y)):
        if p[0] != q[0]:
            return False, "message %d: prover %s %s, verifier %s %s" % (i, p[0], show(p[1]), q[0], show(q[1]))
        if p[1] is not q[1]:
            v, why = judge(None, (), [(p[1], q[1])])
            if v is not True:
                return v, "message %d: prover's label %s, verifier's %s" % (i, show(p[1]), show(q[1]))
        if p[2] is not q[2]:
            v, why = judge(None, (), [(p[2], q[2])])
            if v is not True:
                return v, "message %d (%s): prover %s, verifier %s" % (i, show(p[1]), show(p[2])[:200], show(q[2])[:200])
    if len(x) != len(y):
        r = (x if len(x) > len(y) else y)[min(len(x), len(y))]
        return False, "the %s additionally has %s %s" % ("prover" if len(x) > len(y) else "verifier", r[0], show(r[1]))
    return True, "equal by identity testing of the messages"
