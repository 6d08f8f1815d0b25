"""Paths through curve trees as the prover and the verifier walk them: the two constraint systems are replaced by recorders of vector
commitments, constraints and level gadgets; trees are given as explicit nodes over symbolic commitments."""
from prover import *
from session import *
from models import ld, var_num
import models as M_
import numeric

PCS = "pcs"


from circuit import Gap, find, roles, units, NONE_


def pcs(name):
    return adt(PCS, PCS, (("id", mk("str", name)), ("n", ZERO), ("tr", sym("tr_" + name))))


def _get(I, a, st):
    r = I.through(a, st) if a.op == "ref" else None
    if r is None:
        return None, None
    v = I.load(r, st)
    return (r, v) if v.op == "adt" and v.args[0] == PCS else (None, None)


def var(cid, n):
    return app("pv", cid, n)


def vars_(cid, n0, k):
    return lst([var(cid, padd(n0, num(i))) for i in range(k)])


def upd_(r, v, I, st, **kw):
    I.store(r, adt(PCS, PCS, tuple((k, kw.get(k, x)) for k, x in v.args[2])), st)


def pure(I, a, st):
    return I.pure(ld(I, a, st), st)


def concrete(t):
    """the integer a term is, or None"""
    if t.op == "poly":
        if not t.args[0]:
            return 0
        if len(t.args[0]) == 1 and not t.args[0][0][0]:
            return int(t.args[0][0][1])
    return None


def m_commit_vec(I, f, args, st, fr, e):
    r, v = _get(I, args[0], st)
    if r is None:
        return None
    cid, n = field(v, "id"), field(v, "n")
    if len(args) == 3:                                  # verifier: dimension, commitment
        k = concrete(var_num(pure(I, args[1], st)))
        if k is None:
            raise Gap("vector commitment of unknown dimension")
        I.ev("commitv", (cid, k, pure(I, args[2], st)), st, e.get("sp"), fr)
        upd_(r, v, I, st, n=padd(n, num(k)))
        return vars_(cid, n, k)
    vals, bl, gens = (pure(I, a, st) for a in args[1:4])
    if vals.op != "lst":
        raise Gap("vector commitment to " + show(vals)[:80])
    k = len(vals.args[0])
    c = padd(com(gens, 0, vals.args[0]), pmul(bl, blind_of(field(v, "id").args[0], I)))
    I.ev("commitp", (cid, k, vals, bl, gens, c), st, e.get("sp"), fr)
    upd_(r, v, I, st, n=padd(n, num(k)))
    return mk("tup", (c, vars_(cid, n, k)))


def blind_of(cid, I):
    return I.blinds[cid]


def com(gens, off, vals):
    """the vector commitment to vals under the generators from position off on, without blinding"""
    out = ZERO
    for j, x in enumerate(vals):
        out = padd(out, pmul(x, app("G", gens, num(off + j))))
    return out


def m_constrain(I, f, args, st, fr, e):
    r, v = _get(I, args[0], st)
    if r is None:
        return None
    I.ev("con", (field(v, "id"), var_num(pure(I, args[1], st))), st, e.get("sp"), fr)
    return UNIT


def m_level(kind):
    def go(I, f, args, st, fr, e):
        r, v = _get(I, args[0], st)
        if r is None:
            return None
        a = [lcs(pure(I, x, st)) for x in args[1:]]
        I.ev(kind, (field(v, "id"), *a), st, e.get("sp"), fr)
        return UNIT
    return go


def lcs(t):
    """a list of linear combinations as polynomials over the variables"""
    return lst([var_num(x) for x in t.args[0]]) if t.op == "lst" else t


def m_range(I, f, args, st, fr, e):
    r, v = _get(I, args[0], st)
    if r is None:
        return None
    a = [pure(I, x, st) for x in args[1:]]
    I.ev("range", (field(v, "id"), var_num(a[0]), a[1], a[2]), st, e.get("sp"), fr)
    return ok(UNIT)


def m_new(kind):
    def go(I, f, args, st, fr, e):
        a = [pure(I, x, st) for x in args]
        I.ncs += 1
        cid = mk("str", "%s%d" % (kind, I.ncs))
        I.ev("new", (cid, *a), st, e.get("sp"), fr)
        return adt(PCS, PCS, (("id", cid), ("n", ZERO), ("tr", a[-1])))
    return go


def m_end(kind):
    def go(I, f, args, st, fr, e):
        v = ld(I, args[0], st)
        if v.op == "ref":
            v = I.load(v, st)
        if v.op != "adt" or v.args[0] != PCS:
            return None
        a = [pure(I, x, st) for x in args[1:]]
        I.ev(kind, (field(v, "id"), *a), st, e.get("sp"), fr)
        return app(kind, field(v, "id"), *a)
    return go


def m_is_zero(I, f, args, st, fr, e):
    v = pure(I, args[0], st)
    return FALSE if v.op == "rng" or (v.op == "poly" and len(v.args[0]) == 1 and v.args[0][0][0] and all(a.op == "rng" for a, _ in v.args[0][0][0])) else None


SINGLE, BATCHED = "single_level_select_and_rerandomize", "single_level_batched_select_and_rerandomize"


def path_models(prog):
    d = {"local::ConstraintSystem::constrain": m_constrain, "Zero::is_zero": m_is_zero}

    def put(name, fn, ok_=lambda p, f: True):
        fs = [f for f in prog.byname.get(name, []) if not prog.is_test(f) and f["kind"] != "Closure" and ok_(f["p"], f)]
        if not fs:
            raise Anchor(name)
        for f in fs:
            d[f["p"]] = fn
    bp = lambda p, f: p.startswith("bulletproofs::")
    put("commit_vec", m_commit_vec, bp)
    put("constrain", m_constrain, bp)
    put(SINGLE, m_level("level"))
    put(BATCHED, m_level("blevel"))
    put("range_proof", m_range)
    return d


# ---------------------------------------------------------------- trees
class Tree:
    """an explicit tree over symbolic commitments: node values, and the list of nodes by height"""

    def __init__(self, prog, L, M, h, shape=None, leaves=None, coms=False, params=None):
        self.prog, self.L, self.M, self.h = prog, L, M, h
        P_ = paths(prog)
        self.np, self.tp = P_["CurveTreeNode"], P_["CurveTree"]
        self.shape = shape                  # shape(height, path from the root) -> whether the node exists
        self.coms, self.params, self.memo = coms, params, {}
        self.nodes = {}
        self.root = self.node(h, ())
        self.value = adt(self.tp, "Even" if h % 2 == 0 else "Odd", (("0", self.root),))

    def node(self, k, at):
        """the node of height k at child position `at` (path from the root)"""
        if self.shape is not None and not self.shape(k, at):
            return None
        if k == 0:
            v = adt(self.np, "Leaf", (("0", self.com(k, at, 0)),))
            self.nodes[at] = v
            return v
        kids = [self.node(k - 1, at + (i,)) for i in range(self.L)]
        els = 0
        vals = [some(x) if x is not None else NONE_ for x in kids]
        known = {"parent_commitment": lst([self.com(k, at, t) for t in range(self.M)]), "children": lst(vals), "height": num(k),
                 "elements": num(sum(1 for a in self.nodes if len(a) == self.h and a[:len(at)] == at))}
        v = adt(self.np, "Branch", tuple((f[0], known[f[0]]) for f in self.variant("Branch")))
        self.nodes[at] = v
        return v

    def variant(self, nm):
        for vn, fs in self.prog.adts[self.np]["v"]:
            if vn == nm:
                return fs
        raise Anchor(nm)

    def com(self, k, at, t):
        """commitment of the node under generator set t (a leaf has one)"""
        if k == 0:
            return sym("leaf" + "_".join(map(str, at)))
        if not self.coms:
            return sym("C%d_%s_%d" % (k, "_".join(map(str, at)), t))
        r = self.memo.get((at, t))
        if r is None:
            r = self.memo[at, t] = com(field(self.side(k), "bp_gens"), t * self.L, self.xs(at, t))
        return r

    def side(self, k):
        return self.params[k % 2]

    def kid(self, at, i):
        return self.nodes.get(at + (i,))

    def commitment(self, at, t):
        k = self.h - len(at)
        return self.com(k, at, t)

    def xs(self, at, t):
        """abscissas of the children of the node, shifted by delta"""
        k = self.h - len(at)
        d = field(self.params[(k - 1) % 2], "delta")
        out = []
        for i in range(self.L):
            if self.kid(at, i) is None:
                out.append(ZERO)
            else:
                out.append(field(padd(self.commitment(at + (i,), t), d), "x"))
        return out


def parameters(prog):
    """(value of the parameters, [even layer, odd layer])"""
    P_ = paths(prog)
    p = P_["SelRerandParameters"]
    sides = []
    for s in ("even", "odd"):
        q = P_["SingleLayerParameters"]
        fs = [x[0] for x in prog.adts[q]["v"][0][1]]
        pg = P_["PedersenGens"]
        pgv = adt(pg, prog.adts[pg]["v"][0][0], tuple((x[0], sym("%s_%s" % (s, x[0]))) for x in prog.adts[pg]["v"][0][1]))
        sides.append(adt(q, prog.adts[q]["v"][0][0], tuple((x, pgv if x == "pc_gens" else sym("%s_%s" % (s, x))) for x in fs)))
    known = {"even_parameters": sides[0], "odd_parameters": sides[1]}
    return adt(p, prog.adts[p]["v"][0][0], tuple((x[0], known[x[0]]) for x in prog.adts[p]["v"][0][1])), sides


def walk(prog, f, over, L, M, sides, models=None, budget=3000000):
    """analyse f with recorders for its constraint systems"""
    def setup(run, st):
        run.I.PEEL = 600
        run.I.consts = {"L": num(L), "M": num(M)}
        run.I.RECUR = 40
        run.I.ncs = 0
        run.I.blinds = {"even": B_of(sides[0]), "odd": B_of(sides[1])}
        for i, p in enumerate(f["params"]):
            t = prog.types[f["crate"]][p["t"]]
            if t["k"] == "ref" and t.get("m"):
                a = prog.types[f["crate"]][t["t"]]
                if a["k"] == "adt" and a["p"].split("::")[-1] in ("Prover", "Verifier"):
                    nm = p["pat"]["name"] if p.get("pat", {}).get("k") == "bind" else ""
                    st.mem[run.locs[i]] = pcs(curve_of(prog, f, a, i))
    return Run(prog, f, models=dict(path_models(prog), **(models or {})), lcnum=True, over=over, setup=setup, budget=budget)


def B_of(side):
    return field(field(side, "pc_gens"), "B_blinding")


def curve_of(prog, f, t, i):
    """"even" or "odd": the curve a constraint system works over, by the generic parameter of its group"""
    s = repr(t)
    ps = [j for j, p in enumerate(f["params"]) if is_cs(prog, f, p)]
    return ("even", "odd")[ps.index(i)] if len(ps) > 1 else ("odd" if "odd" in (f["params"][i].get("pat", {}).get("name") or "") or "odd" in f["name"] else "even")


def is_cs(prog, f, p):
    t = prog.types[f["crate"]][p["t"]]
    if t["k"] == "ref":
        t = prog.types[f["crate"]][t["t"]]
    return t["k"] == "adt" and t["p"].split("::")[-1] in ("Prover", "Verifier")


def log(r, pc=None):
    """events of the run, oldest first, with guards relative to the normal return"""
    pc = r.st.pc if pc is None else pc
    un = sorted(u for u in r.I.unknown if not any(g in u for g in GOOD_RNG + FIXED_RNG))
    if un:
        raise Gap("not modelled: " + ", ".join(un)[:200])
    out = []
    for e, loops in events(r.trace):
        if e.kind in ("commitv", "commitp", "con", "level", "blevel", "range", "new", "vsp", "prove"):
            if loops:
                raise Gap(e.kind + " in a loop of unknown length")
            g = restrict(e.guard, pc)
            if g is FALSE:
                continue
            out.append((e.kind, tuple(restrict(x, pc) if hasattr(x, "op") else x for x in e.data), g, e.sp))
    return out


KNOWN = {"poly", "sym", "fld", "num", "rng", "none", "str", "lst", "adt"}


def apart(a, b):
    """True when the terms are different functions of the (generic) commitments, scalars and generators; False when equal; None otherwise"""
    if a is b:
        return False
    for t in (a, b):
        if not hasattr(t, "op"):
            return None
        for x in subterms(t):
            if x.op not in KNOWN and not (x.op == "app" and x.args[0] in ("pv", "G")):
                return {"differs": True, "equal": False}.get(numeric.test([(a, b)])[0])
    return True
