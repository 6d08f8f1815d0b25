"""The prover's closed-form proof for a scenario (API calls on prover and verifier, see C02) is put into the verifier's
acceptance condition. With every constraint satisfied by the assignment, the residual of the final multi-exponentiation must
vanish identically (as a polynomial in all witness values, blindings, constraint coefficients, challenges and generators) and
every other condition must hold; with one constraint's constant left free, the residual must not vanish, for each constraint
in turn. Challenges are replaced by one symbol per draw on both sides (their agreement is C02)."""
from protocol import *
import numeric

RULE = "residual(proof of a satisfying witness) = 0 identically; residual with one unsatisfied constraint != 0"
FLOOR = 50
ASSUMPTIONS = ["identity testing of the residual at 12 random points of a 255-bit field (Schwartz-Zippel)",
               "the number of commitments, multipliers and constraints is that of the scenarios"]


def run(ctx):
    for cfg, prog in ctx.configs():
        for sc in scenarios(ctx.tier):
            with ctx.guard("%s.%s" % (cfg, sc.name)):
                one(ctx, prog, cfg, sc)


def one(ctx, prog, cfg, sc):
    tag = "%s.%s" % (cfg, sc.name)
    p = Pair(prog, sc).prove().verify()
    ctx.unit("scenario", tag)
    for f in p.P.I.analysed | p.V.I.analysed:
        ctx.unit("function", f)
    where = method(prog, "prove_and_return_transcript", "Prover")["sp"]
    for what, c in (("prover", p.pok), ("verifier", p.okc)):
        if c is FALSE:
            return ctx.ob("%s.%s never succeeds" % (tag, what), False, "no assignment, challenge or blinding lets the %s succeed" % what, where)
    X, rest = p.equation()
    v = numeric.test(p.satisfy(X))
    ctx.ob(tag + ".accepts", verdict(v), "residual of the verification equation over the produced proof: %s" % (v,), where)
    v = numeric.test([(p.satisfy(rest), TRUE)])
    ctx.ob(tag + ".checks", verdict(v), "remaining acceptance conditions over the produced proof: %s" % (v,), where)
    v = numeric.test([(subst_term(p.pok, {}), TRUE)])
    ctx.ob(tag + ".proves", verdict(v), "the prover returns a proof: %s" % (v,), where)
    for k in p.ks:
        v = numeric.test(p.satisfy(X, (k,)))
        ctx.ob("%s.%s" % (tag, show(k)), {"differs": True, "equal": False}.get(v[0]),
               "an assignment violating the constraint with constant %s leaves the residual %s" % (show(k), {"differs": "non-zero", "equal": "zero: accepted"}.get(v[0], v)), where)


def verdict(v):
    return {"equal": True, "differs": False}.get(v[0])
