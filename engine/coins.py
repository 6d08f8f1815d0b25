"""The payment protocol over recorders: pours as explicit values, transactions, coins in explicit trees, and the third-party signature
scheme and decoder as uninterpreted functions with an explicit outcome."""
from fractions import Fraction
from paths import *
from checks.c21 import path_value, chain, top

CODEC = "CanonicalDeserialize::"


def _sig(I, args, st):
    return [pure(I, a, st) for a in args]


def m_verify(I, f, args, st, fr, e):
    a = _sig(I, args, st)
    I.ev("sigverify", tuple(a), st, e.get("sp"), fr)
    return ite(bopq("sigok", *a), ok(bopq("sigvalid", *a)), err(sym("sigerr")))


def m_sign(I, f, args, st, fr, e):
    a = _sig(I, args[:3], st)
    I.nsig = getattr(I, "nsig", 0) + 1
    I.ev("sign", tuple(a), st, e.get("sp"), fr)
    return ok(app("sign", *a, num(I.nsig)))


def m_ext(name):
    def go(I, f, args, st, fr, e):
        return ok(app(name, *_sig(I, args, st)))
    return go


def m_decode(value):
    """decoding bytes succeeds or fails; when it succeeds the value is the one given"""
    def go(I, f, args, st, fr, e):
        nm = f["name"]
        b = pure(I, args[0], st)
        if nm == "deserialize_with_mode":
            mode, val = (pure(I, x, st) for x in args[1:3])
        else:
            mode = mk("str", "Compressed" if "uncompressed" not in nm else "Uncompressed")
            val = mk("str", "No" if nm.endswith("unchecked") else "Yes")
        I.ev("decode", (b, mode, val), st, e.get("sp"), fr)
        return ite(bopq("decodes", b, mode, val), ok(value), err(sym("decodeerr")))
    return go


def coin_models(prog, pour=None):
    d = {method(prog, "new", "Verifier")["p"]: m_new("V"), method(prog, "verification_scalars_and_points", "Verifier")["p"]: m_end("vsp"),
         method(prog, "prove", "Prover")["p"]: m_end("prove"), "SignatureScheme::verify": m_verify, "SignatureScheme::sign": m_sign,
         "SignatureScheme::randomize_signature": m_ext("randomize_signature"), "SignatureScheme::randomize_public_key": m_ext("randomize_public_key")}
    if pour is not None:
        for nm in ("deserialize_compressed", "deserialize_uncompressed", "deserialize_compressed_unchecked", "deserialize_uncompressed_unchecked", "deserialize_with_mode"):
            d[CODEC + nm] = m_decode(pour)
    return d


def sym_adt(prog, name, given=None):
    """a value of the type with a symbol for each field not given"""
    p = paths(prog)[name]
    given = given or {}
    return adt(p, prog.adts[p]["v"][0][0], tuple((x[0], given.get(x[0], sym(x[0]))) for x in prog.adts[p]["v"][0][1]))


def sym_path(prog, i, h):
    """(path value with symbols of its own, chain of commitments) of a tree of height h"""
    C, no, ne = chain(h, sym("S"))
    ren = {sym("S"): sym("S_%d" % i)}
    ren.update({sym("o%d" % k): sym("P%d_o%d" % (i, k)) for k in range(no)})
    ren.update({sym("e%d" % k): sym("P%d_e%d" % (i, k)) for k in range(ne)})
    v = path_value(prog, "SelectAndRerandomizePath", sym("S"), no, ne)
    return subst(v, ren), {k: ren[x] for k, x in C.items()}


def sym_pour(prog, h):
    ps = [sym_path(prog, i, h) for i in (0, 1)]
    return sym_adt(prog, "Pour", {"randomized_path_0": ps[0][0], "randomized_path_1": ps[1][0]}), [p[1] for p in ps]


def run_pour(prog, pour, T, par, sides, L):
    """the verifier of a pour"""
    f = method(prog, "verification_gadget", "Pour")
    R = roles(prog, f)
    return f, walk(prog, f, {R["Pour"][0]: pour, R["SelRerandParameters"][0]: par, R["CurveTree"][0]: T.value}, L, 1, sides, models=coin_models(prog))


def run_tx(prog, pour, T, par, sides, L):
    """the verifier of a signed transaction; its bytes decode to the pour given"""
    f = method(prog, "verification_gadget", "SignedTx")
    R = roles(prog, f)
    tx = sym_adt(prog, "SignedTx")
    return f, tx, walk(prog, f, {R["SignedTx"][0]: tx, R["SelRerandParameters"][0]: par, R["CurveTree"][0]: T.value}, L, 1, sides, models=coin_models(prog, pour))


def swap(lg, names):
    """events with constraint systems renamed"""
    m = {mk("str", a): mk("str", b) for a, b in names.items()}
    return [(k, tuple(subst_term(x, m) if hasattr(x, "op") else x for x in d), g, sp) for k, d, g, sp in lg]


def sides_of(lg, pour):
    """{id of a constraint system: "even"/"odd"} by the proof it is checked against (or proves)"""
    out = {}
    for k, d, g, sp in lg:
        if k == "vsp":
            for s in ("even", "odd"):
                if d[1] is field(pour, s + "_proof"):
                    out.setdefault(d[0].args[0], s)
    return out


class Coins(Tree):
    """a tree some of whose leaves are coins"""
    coins = {}

    def com(self, k, at, t):
        if k == 0:
            i = 0
            for d in at:
                i = i * self.L + d
            if i in self.coins:
                return self.coins[i]
        return Tree.com(self, k, at, t)


class Payment:
    """prove_pour on an explicit tree, and the pour it makes given to the verifier"""

    def __init__(self, prog, L, h, idx):
        self.prog, self.L, self.h = prog, L, h
        self.par, self.sides = par, sides = parameters(prog)
        P_ = paths(prog)
        hash_ = method(prog, "pk_to_scalar", "Coin")
        self.inputs, coins = [], {}
        for i in (0, 1):
            pk = sym("rpk%d" % i)
            tag = Run(prog, hash_, over={0: pk}).pval
            c = sym_adt(prog, "Coin", {"value": sym("value%d" % i), "tag": tag, "blinding": sym("blinding%d" % i), "pk_randomness": sym("pkr%d" % i)})
            self.inputs.append(sym_adt(prog, "SpendingInfo", {"index": num(idx[i]), "coin_aux": c, "randomized_pk": pk, "sk": sym("sk%d" % i)}))
            coins[idx[i]] = padd(com(field(sides[0], "bp_gens"), 0, [field(c, "value"), tag]), pmul(field(c, "blinding"), B_of(sides[0])))
        T = Coins.__new__(Coins)
        T.coins = coins
        T.__init__(prog, L, 1, h, coms=True, params=sides)
        self.T = T
        f = self.f = find(prog, "prove_pour")
        R = roles(prog, f)
        a, b = R["Prover"]
        over = {a: pcs("even"), b: pcs("odd"), R["SelRerandParameters"][0]: par, R["CurveTree"][0]: T.value,
                R["SpendingInfo"][0]: self.inputs[0], R["SpendingInfo"][1]: self.inputs[1]}
        self.r = walk(prog, f, over, L, 1, sides, models=coin_models(prog))
        self.lg = log(self.r)
        self.pc = self.r.st.pc
        self.tx = restrict(self.r.pval, self.pc)
        self.amounts = [self.r.argsym[i] for i in R["u64"]]
        self.pour = None
        b = field(self.tx, "pour_bytes") if self.tx.op == "adt" else self.tx
        for x in subterms(b):
            if x.op == "ser" and x.args[0].op == "adt" and x.args[0].args[0] == P_["Pour"]:
                self.pour, self.bytes = x.args[0], b
                break
        if self.pour is None:
            raise Gap("the bytes of the transaction are " + show(b)[:100])

    def verify(self):
        self.g, self.v = run_pour(self.prog, self.pour, self.T, self.par, self.sides, self.L)
        self.vlg = log(self.v)
        self.names = sides_of(self.vlg, self.pour)


def external(pc, allowed):
    """the condition with the outcomes of third-party calls assumed to be the good ones"""
    m = {}
    for a in bdd_atoms(pc):
        if a.op == "isv" and a.args[1] == "Ok" and a.args[0].op == "app" and a.args[0].args[0] in allowed:
            m[a] = True
        if a.op == "bopq" and a.args[0] in allowed:
            m[a] = True
    return assume(pc, m)


def assume(t, m):
    """the decision diagram with some atoms decided"""
    if t.op != "ite":
        return t
    a = t.args[0]
    if a in m:
        return assume(t.args[1] if m[a] else t.args[2], m)
    hi, lo = assume(t.args[1], m), assume(t.args[2], m)
    return ite(atom_cond(a), hi, lo)


def span(target, rows):
    """whether the polynomial is a rational combination of the rows"""
    def vec(p):
        return {m: c for m, c in monos(p)}
    basis = []
    for p in list(rows) + [None]:
        v = vec(target if p is None else p)
        for piv, b in basis:
            c = v.get(piv)
            if c:
                for m, x in b.items():
                    y = v.get(m, 0) - c * x
                    if y:
                        v[m] = y
                    else:
                        v.pop(m, None)
        if p is None:
            return not v
        if v:
            piv = min(v, key=repr)
            s = v[piv]
            v = {m: Fraction(x) / s for m, x in v.items()}
            for q in basis:
                c = q[1].get(piv)
                if c:
                    for m, x in v.items():
                        y = q[1].get(m, 0) - c * x
                        if y:
                            q[1][m] = y
                        else:
                            q[1].pop(m, None)
            basis.append((piv, v))
