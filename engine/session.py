"""Chains of public API calls on one prover or verifier object: the abstract state after each call feeds the next call.
Sizes (number of commitments, multipliers, ...) are fixed per session, all values are symbols."""
from r1cs import *
from interp import Interp, St, ref

LCP = "bulletproofs::r1cs::linear_combination::LinearCombination"
VARP = "bulletproofs::r1cs::linear_combination::Variable"


def paths(prog):
    d = {}
    for p, a in prog.adts.items():
        if a.get("local"):
            d.setdefault(p.split("::")[-1], p)
    return d


def lc(prog, terms):
    """a linear combination with the given (variable, coefficient) terms"""
    p = paths(prog)["LinearCombination"]
    fs = prog.adts[p]["v"][0][1]
    return adt(p, prog.adts[p]["v"][0][0], ((fs[0][0], lst([tup(v, c) for v, c in terms])),))


def var(prog, name, *idx):
    p = paths(prog)["Variable"]
    if name == "One":
        return adt(p, "One", (("0", adt("core::marker::PhantomData", "PhantomData", ())),))
    return adt(p, name, tuple((str(i), num(x) if isinstance(x, int) else x) for i, x in enumerate(idx)))


class Dead(Exception):
    pass


def method(prog, name, kind):
    """the function playing the role `name` of a type: inherent or of a trait"""
    out = []
    for f in prog.byname.get(name, []):
        if prog.is_test(f) or f["kind"] == "Closure" or "iself" not in f:
            continue
        if (prog.self_adt(f) or "").split("::")[-1] == kind:
            out.append(f)
    if len(out) > 1:
        inh = [f for f in out if not f.get("itrait")]
        out = inh or out
    if len(out) != 1:
        raise Anchor("method %s of %s (%d)" % (name, kind, len(out)))
    return out[0]


class Session:
    def __init__(self, prog, kind, script=None, rawmsm=True, models=None, opaque=(), budget=400000):
        self.prog = prog
        self.kind = kind
        self.I = Interp(prog, dict(cs_summary(prog), **(models or {})), opaque, budget)
        self.I.rawmsm = rawmsm
        self.I.cbhook = self.hook
        self.I.PEEL = 48
        self.st = St({}, TRUE)
        self.script = script
        self.loc = ("obj", kind)
        self.ran = 0

    # -------------------------------------------------- calls
    def load(self):
        return self.st.mem[self.loc]

    def store(self, v):
        self.st.mem[self.loc] = v

    def call(self, name, *args, kind=None, st=None, on=None, me=True):
        f = method(self.prog, name, kind or self.kind)
        st = st or self.st
        a = list(args)
        if me:
            p0 = f["params"][0]["t"]
            t = self.prog.types[f["crate"]][p0]
            r = on if on is not None else ref(self.loc)
            if t["k"] == "ref":
                a = [r] + a
            else:
                a = [self.I.load(r, st)] + a
        v = self.I.call_fn(f, a, st, None, {})
        if st.dead:
            raise Dead(name)
        return v

    def pure(self, v, st=None):
        return self.I.pure(v, st or self.st)

    def new(self, *args):
        v = self.call("new", *args, me=False)
        self.st.mem[self.loc] = v

    def hook(self, I, c, args, st, fr, e):
        if len(args) == 1 and args[0].op == "ref" and self.script is not None:
            w = I.load(args[0], st)
            if w.op == "adt" and w.args[0].split("::")[-1].startswith("Randomizing"):
                self.ran += 1
                kind = w.args[0].split("::")[-1]
                self.script(lambda name, *a: self.call(name, *a, kind=kind, st=st, on=args[0]), self, c)
                return ok(mk("tup", ()))
        return None

    def field(self, *path):
        return self.I.pure(get(self.load(), path), self.st)

    def transcript(self):
        """the transcript state held by the object (found through the API)"""
        st = self.st.copy()
        r = self.call("transcript", st=st)
        v = self.I.load(r, st)
        while v.op == "ref":
            v = self.I.load(v, st)
        return self.I.pure(v, st)

    @property
    def trace(self):
        return self.I.trace


def gens(prog, cap):
    p = paths(prog)["BulletproofGens"]
    s = sym("bp_gens")
    g = expand_adt(prog, p, s)
    out = []
    for n, v in g.args[2]:
        if "G" in n:
            v = lst([lst([app("G", ZERO, num(i)) for i in range(cap)])])
        elif "H" in n:
            v = lst([lst([app("H", ZERO, num(i)) for i in range(cap)])])
        elif n == "party_capacity":
            v = ONE
        else:
            v = num(cap)
        out.append((n, v))
    return adt(p, g.args[1], tuple(out))


def expand_adt(prog, path, s):
    vn, fs = prog.adts[path]["v"][0]
    return adt(path, vn, tuple((f[0], field(s, f[0])) for f in fs))


def pedersen(prog):
    return expand_adt(prog, paths(prog)["PedersenGens"], sym("pc"))


def match_proof(a, b, m):
    """substitution sending the symbolic proof a to the proof b"""
    if a.op == "adt":
        for n, x in a.args[2]:
            match_proof(x, field(b, n), m)
    elif a.op == "lst":
        for i, x in enumerate(a.args[0]):
            match_proof(x, at(b, num(i)), m)
    else:
        m[a] = b


def sym_proof(prog, like):
    """a proof of fresh symbols with the shape of `like`"""
    n = [0]

    def go(v, path):
        if v.op == "adt":
            return adt(v.args[0], v.args[1], tuple((k, go(x, path + "." + k)) for k, x in v.args[2]))
        if v.op == "lst":
            return lst([go(x, path + str(i)) for i, x in enumerate(v.args[0])])
        l = None
        if v.op in ("cat", "map", "upd", "slice", "rec", "cmap"):
            l = numval(slen(v))
        if l is not None:
            return lst([go(at(v, num(i)), path + str(i)) for i in range(int(l))])
        n[0] += 1
        return sym("pf", path)
    return go(like, "")
