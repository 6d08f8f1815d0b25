"""Protocol scenarios: the same sequence of public API calls on a prover and on a verifier, the prover's proof handed to
the verifier. Counts are fixed per scenario; every scalar, point, coefficient and challenge is a symbol."""
from session import *

NONE = adt("core::option::Option", "None", ())


def some_(x):
    return some(x)


class Scenario:
    """deferred: None, the operations of one randomized callback, or a tuple of such lists
    ops: ("commit",) ("vec",d) ("mul",) ("alloc",) ("multiply",) ("constrain",) ("transcript",)"""

    def __init__(self, name, ops, deferred=None, cap=None):
        self.name, self.ops, self.cap = name, ops, cap
        self.groups = () if deferred is None else deferred if isinstance(deferred, tuple) else (deferred,)
        self.deferred = [op for g in self.groups for op in g]


def npow2(x):
    r = 1
    while r < x:
        r *= 2
    return r


class Pair:
    def __init__(self, prog, sc, rawmsm=True):
        self.prog, self.sc = prog, sc
        self.P, self.V = Session(prog, "Prover", rawmsm=rawmsm), Session(prog, "Verifier", rawmsm=rawmsm)
        g, pc = gens(prog, sc.cap or self.capacity()), pedersen(prog)
        for s in (self.P, self.V):
            s.g, s.pc = self.cell(s, g, "g"), self.cell(s, pc, "pc")
        self.vals = []          # (prover's variable, value)
        self.vmap = {}          # prover's variable -> verifier's variable
        self.steps = []         # (name, prover result, verifier result, prover transcript, verifier transcript)
        self.ks = {}            # constant symbol -> satisfying value
        self.n = 0
        self.one = var(prog, "One")
        self.P.new(self.P.pc, sym("transcript"))
        self.V.new(sym("transcript"))
        self.note("new", None, None)
        for op in sc.ops:
            self.op(op, self.P.call, self.V.call)
        if sc.groups:
            self.defer()

    def capacity(self):
        m, pend, d = 0, 0, [1]
        for op in list(self.sc.ops) + list(self.sc.deferred or []):
            if op[0] in ("mul", "multiply"):
                m += 1
            if op[0] == "alloc":
                pend += 1
            if op[0] == "vec":
                d.append(op[1])
        return npow2(max(d + [m + pend]))

    def cell(self, s, v, tag):
        s.st.mem[("o", tag)] = v
        return ref(("o", tag))

    def note(self, name, a, b):
        self.steps.append((name, a, b, self.P.transcript(), self.V.transcript()))

    # each op is a pair of calls; in the deferred phase prover and verifier replay the recorded requests separately
    def op(self, op, pc, vc):
        for name, pa, va, done in self.requests(op):
            a = self.P.pure(pc(name, *pa(self.P)))
            b = self.V.pure(vc(name, *va(self.V, a)))
            done(a)
            self.same(a, b)
            self.note(name, a, b)

    def same(self, a, b):
        """the verifier's variables corresponding to the prover's"""
        if a.op == "tup" and len(a.args[0]) == 2 and b.op != "tup":
            a = a.args[0][1]        # commit, commit_vec: (commitment, variables)
        if a.op == "adt" and a.args[0].endswith("Variable"):
            self.vmap[a] = b
        elif a.op == "adt":
            for n, x in a.args[2]:
                self.same(x, vfield(b, a.args[1], n))
        elif a.op == "tup":
            for i, x in enumerate(a.args[0]):
                self.same(x, field(b, str(i)))
        elif a.op in ("map", "lst", "cat"):
            for i in range(int(numval(slen(a)))):
                self.same(at(a, num(i)), at(b, num(i)))

    def vlc(self, s, ts):
        return lc(self.prog, [(self.vmap.get(v, v), c) for v, c in ts] if s is self.V else ts)

    def requests(self, op):
        """(method, prover arguments, verifier arguments given the prover's result, bookkeeping of the result)"""
        k = op[0]
        self.n += 1
        n = self.n
        if k == "commit":
            v = sym("v", n)
            yield "commit", lambda s: (v, sym("vb", n)), lambda s, a: (field(a, "0"),), lambda a: self.vals.append((field(a, "1"), v))
        elif k == "vec":
            ws = [sym("w", n, i) for i in range(op[1])]

            def done(a):
                for i, w in enumerate(ws):
                    self.vals.append((at(field(a, "1"), num(i)), w))
            yield "commit_vec", lambda s: (self.cell(s, lst(ws), "w%d" % n), sym("wb", n), s.g), lambda s, a: (num(op[1]), field(a, "0")), done
        elif k == "mul":
            l, r = sym("l", n), sym("r", n)

            def done(a):
                t = vfield(a, "Ok", "0")
                self.vals.extend([(field(t, "0"), l), (field(t, "1"), r), (field(t, "2"), pmul(l, r))])
            yield "allocate_multiplier", lambda s: (some(tup(l, r)),), lambda s, a: (NONE,), done
        elif k == "alloc":
            x = sym("x", n)
            yield "allocate", lambda s: (some(x),), lambda s, a: (NONE,), lambda a: self.vals.append((vfield(a, "Ok", "0"), x))
        elif k == "multiply":
            ls = self.combo("ml", n)
            rs = self.combo("mr", n)
            arg = lambda s, a=None: (self.vlc(s, ls[0]), self.vlc(s, rs[0]))

            def done(a):
                self.vals.extend([(field(a, "0"), ls[1]), (field(a, "1"), rs[1]), (field(a, "2"), pmul(ls[1], rs[1]))])
            yield "multiply", arg, arg, done
        elif k == "constrain":
            ts, v = self.combo("c", n, const=False)
            c = sym("k", n)
            self.ks[c] = pneg(v)
            arg = lambda s, a=None: (self.vlc(s, ts + [(self.one, c)]),)
            yield "constrain", arg, arg, lambda a: None
        elif k == "challenge":
            yield "challenge_scalar", lambda s: (sym("label", n),), lambda s, a: (sym("label", n),), lambda a: self.vals.append((self.one, a, "coef"))

    def combo(self, tag, n, const=True):
        """a generic linear combination of the newest and some older variables, with its value"""
        vs = [x for x in self.vals if len(x) == 2]
        coefs = [x[1] for x in self.vals if len(x) == 3]
        if const and len(vs) > 2:
            vs = [vs[0], vs[-1]] if tag == "ml" else [vs[len(vs) // 2]]
        ts, val = [], ZERO
        for i, (x, v) in enumerate(vs):
            c = sym(tag, n, i)
            if coefs and i % 2 == 0:
                c = pmul(c, coefs[-1])
            ts.append((x, c))
            val = padd(val, pmul(c, v))
        if const:
            ts.append((self.one, sym(tag, n, "1")))
            val = padd(val, sym(tag, n, "1"))
        return ts, val

    def defer(self):
        cbs = [F1, sym("F2"), sym("F3")][:len(self.sc.groups)]
        log = {}
        base = list(self.vals)      # a callback knows the variables of the first phase and its own

        def pscript(call, s, c):
            self.vals = list(base)
            mine = log[c] = []
            for op in self.sc.groups[cbs.index(c)]:
                for name, pa, va, done in self.requests(op):
                    a = s.pure(call(name, *pa(s)))
                    done(a)
                    mine.append((name, va, a))

        def vscript(call, s, c):
            for name, va, a in log.get(c, ()):
                b = s.pure(call(name, *va(s, a)))
                self.same(a, b)
                self.cb.append((name, a, b))
        self.cb = []
        self.P.script, self.V.script = pscript, vscript
        for c in cbs:
            a = self.P.pure(self.P.call("specify_randomized_constraints", c))
            b = self.V.pure(self.V.call("specify_randomized_constraints", c))
            self.note("specify_randomized_constraints", a, b)

    # -------------------------------------------------- proof and verdict
    def prove(self):
        r = self.P.pure(self.P.call("prove", self.P.g))
        self.pok = b_and(self.P.st.pc, isv(r, "Ok"))
        self.proof = restrict(vfield(restrict(r, self.pok), "Ok", "0"), self.pok)
        self.symproof = sym_proof(self.prog, self.proof)
        self.m = {}
        match_proof(self.symproof, self.proof, self.m)
        return self

    def verify(self):
        r = self.V.pure(self.V.call("verify", self.cell(self.V, self.symproof, "proof"), self.V.pc, self.V.g))
        self.okc = b_and(self.V.st.pc, isv(r, "Ok"))
        self.pch = [e.data for e, c in events(self.P.trace) if e.kind == "chal"]
        self.vch = [e.data for e, c in events(self.V.trace) if e.kind == "chal"]
        return self

    def inst(self, t):
        """a verifier term with the prover's proof put in"""
        return subst_term(t, self.m)

    def equation(self):
        """the final multi-exponentiation over the produced proof"""
        ms = [a for a in bdd_atoms(self.okc) if a.op == "eq0" and a.args[0].op == "app" and a.args[0].args[0] == "msm"
              and b_and(self.okc, b_not(atom_cond(a))) is FALSE]
        if len(ms) != 1:
            raise Exception("the final equation is not one multi-exponentiation (%d)" % len(ms))
        a = ms[0]
        ch = {self.inst(d[1]): sym("ch", i) for i, d in enumerate(self.vch)}
        ch.update({d[1]: sym("ch", i) for i, d in enumerate(self.pch)})
        self.ks = {k: subst_term(v, ch) for k, v in self.ks.items()}
        X = subst_term(self.inst(a.args[0]), ch)
        rest = subst_term(self.inst(replace_atoms(self.okc, {a: True})), ch)
        return X, rest

    def satisfy(self, t, but=()):
        m = {k: v for k, v in self.ks.items() if k not in but}
        for _ in range(3):
            t = subst(t, m)
        return t


def O(*names):
    out = []
    for n in names:
        if n.startswith("vec"):
            out.append(("vec", int(n[3:])))
        else:
            out.append((n,))
    return out


def scenarios(tier):
    S = [
        Scenario("scalars", O("commit", "commit", "mul", "mul", "mul", "constrain", "constrain")),
        Scenario("one-multiplier", O("commit", "mul", "constrain")),
        Scenario("single-allocations", O("commit", "alloc", "mul", "alloc", "alloc", "constrain", "multiply")),
        Scenario("one-vector", O("vec2", "mul", "constrain", "constrain")),
        Scenario("vector-longer-than-circuit", O("vec4", "commit", "mul", "constrain")),
        Scenario("vectors-of-mixed-length", O("vec1", "commit", "vec3", "mul", "multiply", "constrain")),
        Scenario("three-vectors", O("vec1", "vec2", "vec1", "commit", "mul", "constrain")),
        Scenario("no-multiplier", O("vec2", "vec1", "constrain")),
        Scenario("two-phase", O("commit", "mul", "constrain"), O("challenge", "multiply", "constrain")),
        Scenario("two-phase-allocations", O("commit", "mul", "alloc", "constrain"), O("challenge", "alloc", "mul", "alloc", "challenge", "multiply", "constrain", "constrain")),
        Scenario("two-callbacks", O("commit", "mul", "constrain"), (O("challenge", "constrain", "mul"), O("challenge", "multiply", "constrain"))),
        Scenario("two-phase-no-new-multiplier", O("vec2", "mul", "constrain"), O("challenge", "constrain")),
    ]
    if tier == "thorough":
        S += [
            Scenario("four-vectors", O("vec1", "vec2", "vec4", "vec1", "commit", "mul", "multiply", "constrain")),
            Scenario("five-vectors", O("vec1", "vec2", "vec1", "vec1", "vec2", "mul", "constrain")),
            Scenario("six-vectors", O("vec1", "vec1", "vec1", "vec1", "vec1", "vec2", "mul", "constrain", "constrain")),
            Scenario("larger", O("commit", "vec5", "mul", "mul", "mul", "alloc", "multiply", "constrain", "constrain")),
            Scenario("two-phase-larger", O("commit", "mul", "mul", "mul", "constrain"), O("challenge", "mul", "multiply", "multiply", "constrain")),
        ]
    return S
