"""The batched verifier gadget is analysed as in C21, for every height and batch size listed: at every level above the leaves one batched
level gadget has the sum commitment of the level below as its child and all children of all parents (the positions of the vector
commitment to the sum of the parents, tree by tree, or the shifted abscissas of the verifier's own roots) as candidates; at the leaves
each returned commitment is selected by its own gadget from the positions of its own tree. Multi-paths of any other shape never lead to a
normal return."""
from paths import *
from checks import c21

RULE = "as C21, with C_i the sum of the M parents, M * L positions per parent, and one gadget for each of the M leaves on positions t*L .. t*L + L - 1"
FLOOR = 30
ASSUMPTIONS = c21.ASSUMPTIONS
NAME, PATH = "batched_select_and_rerandomize_verifier_gadget", "SelectAndRerandomizeMultiPath"


def run(ctx):
    th = ctx.tier == "thorough"
    for cfg, prog in ctx.configs():
        numeric.set_variants(prog)
        for L, M in ((2, 1), (2, 2), (3, 2), (2, 3)) if not th else ((1, 1), (1, 2), (2, 1), (2, 2), (3, 2), (2, 3), (3, 3), (2, 5)):
            for h in range(1, 9 if not th else 13):
                key = "%s.L%d_M%d_h%d" % (cfg, L, M, h)
                with ctx.guard(key):
                    batched(ctx, prog, key, L, M, h)


def batched(ctx, prog, key, L, M, h):
    S = [sym("S%d" % t) for t in range(M)]
    C, no, ne = c21.chain(h, None)
    f, T, sides, r = c21.analyse(prog, NAME, PATH, lst(S), L, M, h, no, ne)
    units(ctx, r, key)
    where = f["sp"]
    if r.st.pc is not TRUE:
        return ctx.ob(key + ".accepted", False if r.st.pc is FALSE else None, "a multi-path of the right shape is %s" % ("refused" if r.st.pc is FALSE else "accepted when " + show(r.st.pc)[:100]), where)
    ctx.ob(key + ".accepted", True, "a multi-path of the right shape completes", where)
    v = r.pval
    ctx.ob(key + ".leaves", True if v is lst(S) else False if v.op == "lst" and all(x.op == "sym" for x in v.args[0]) else None, "returns %s" % show(v)[:80], where)
    c21.levels(ctx, key, log(r), L, M, h, C, T, sides, where, leaves=S)
    c21.refusals(ctx, prog, key, NAME, PATH, lst(S), L, M, h, (no, ne))
