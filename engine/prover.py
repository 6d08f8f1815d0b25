"""Runs of the R1CS prover: phase 1 / 2, a concrete or symbolic number of vector commitments."""
from r1cs import *


def run_prove(prog, phase=1, ncomm=None, opaque=(), name="prove_and_return_transcript", extra=None, **k):
    f = prog.fn1(name, self_adt="Prover")
    cbs = [] if phase == 1 else [F1]

    def setup(run, st):
        v = run.args[0]
        v = put(v, ("deferred_constraints",), lst(cbs))
        if ncomm is not None:
            path = vec_path(v)
            base = get(v, path)
            v = put(v, path, lst([mk("tup", (sym("vb%d" % j), sym("vv%d" % j))) for j in range(ncomm)]))
        run.args[0] = v
    opq = {g["p"] for g in prog.fns.values() if g["crate"] == "bulletproofs" and g["kind"] != "Closure" and g["name"] in opaque}
    return Run(prog, f, models=dict(cs_summary(prog), **(extra or {})), over=gens_over(f, prog), rawmsm=True, cbhook=callbacks(prog), opaque=opq, setup=setup, **k)


def vec_path(v):
    return ("secrets", "vec_open")
