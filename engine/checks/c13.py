"""Every operator, conversion and collection implemented for constraint variables and linear combinations is found in the type-
checked program (no list of names) and analysed with symbolic operands of every admissible type: a variable of each kind, a
linear combination with an arbitrary list of terms, a scalar. The result's denotation - the sum over its terms of coefficient
times value of the variable, the constant variable counting 1 - must equal the operator applied to the operands' denotations.
The prover's evaluation of a linear combination must be the same denotation over its assignments."""
from session import *
import numeric

RULE = "denotation(op(a, b)) = op(denotation(a), denotation(b)) for every implementation and operand type"
FLOOR = 30
ASSUMPTIONS = ["generic operands range over the types with a conversion into linear combinations: variables, linear combinations, scalars"]
OPS = {"core::ops::arith::Add": lambda a, b: padd(a, b), "core::ops::arith::Sub": lambda a, b: psub(a, b),
       "core::ops::arith::Mul": lambda a, b: pmul(a, b), "core::ops::arith::Neg": lambda a: pneg(a)}
ASSIGN = {"core::ops::arith::AddAssign": lambda a, b: padd(a, b), "core::ops::arith::SubAssign": lambda a, b: psub(a, b),
          "core::ops::arith::MulAssign": lambda a, b: pmul(a, b)}
VARIANTS = (("VectorCommit", 2), ("Committed", 1), ("MultiplierLeft", 1), ("MultiplierRight", 1), ("MultiplierOutput", 1), ("One", 0))


def val(v):
    return ite(isv(v, "One"), ONE, app("val", v))


def dterms(ts, value=val):
    return psum(slen(ts), L1(lambda k: pmul(field(at(ts, k), "1"), value(field(at(ts, k), "0")))))


def L1(f):
    k = fresh("k")
    return lam((k,), f(k))


def den(v):
    p = v.args[0].split("::")[-1] if v.op == "adt" else ""
    if p == "LinearCombination":
        return dterms(field(v, "terms"))
    if p == "Variable":
        return val(v)
    return v


def variables(prog, tag):
    for n, k in VARIANTS:
        yield n, var(prog, n, *[sym(tag, i) for i in range(k)])


def symlc(prog, tag):
    p = paths(prog)["LinearCombination"]
    return expand_adt(prog, p, sym(tag)) if False else adt(p, prog.adts[p]["v"][0][0], ((prog.adts[p]["v"][0][1][0][0], sym(tag)),))


def operands(prog, f, tid, tag, scalar):
    """(name, value) for each type a parameter can have"""
    t = prog.types[f["crate"]][tid]
    while t["k"] == "ref":
        t = prog.types[f["crate"]][t["t"]]
    short = (t.get("p") or "").split("::")[-1]
    if short == "Variable":
        return list(variables(prog, tag))
    if short == "LinearCombination":
        return [("combination", symlc(prog, tag)), ("empty", lc(prog, [])), ("one term", lc(prog, [(var(prog, "Committed", sym(tag, "v")), sym(tag, "c"))]))]
    if t["k"] in ("param", "alias", "assoc", "proj") or scalar:
        s = [("scalar", sym(tag))]
        if scalar:
            return s
        return list(variables(prog, tag))[:2] + [("combination", symlc(prog, tag))] + s
    raise Anchor("operand type %s" % t.get("s"))


def run(ctx):
    for cfg, prog in ctx.configs():
        n = 0
        for f in prog.fns.values():
            k = relevant(prog, f)
            if not k:
                continue
            n += 1
            with ctx.guard("%s.%s" % (cfg, f["p"])):
                one(ctx, prog, cfg, f, k)
        ctx.ob(cfg + ".implementations", n >= 10 or None, "%d implementations" % n, "")
        with ctx.guard(cfg + ".eval"):
            evaluation(ctx, prog, cfg)


def local(prog, crate, tid):
    t = prog.types[crate][tid]
    while t["k"] == "ref":
        t = prog.types[crate][t["t"]]
    p = t.get("p") or ""
    return p.split("::")[-1] if p in (LCP, VARP) or p.split("::")[-1] in ("LinearCombination", "Variable") else None


def relevant(prog, f):
    if prog.is_test(f) or f["kind"] == "Closure" or "linear_combination" not in f["p"]:
        return None
    tr = f.get("itrait")
    if tr in OPS:
        return "op"
    if tr in ASSIGN:
        return "assign"
    if tr == "core::convert::From":
        return "from"
    if tr == "core::iter::traits::collect::FromIterator":
        return "collect"
    if tr == "core::iter::traits::accum::Sum":
        return "sum"
    if tr == "core::default::Default":
        return "default"
    if tr is None and "ret" in f and local(prog, f["crate"], f["ret"]) == "LinearCombination":
        return {"scalar_mul": "op", "constant": "from"}.get(f["name"])
    return None


def label(prog, f, kind):
    s = prog.types[f["crate"]][f["iself"]]["s"] if "iself" in f else ""
    return "%s.%s" % (s.split("::")[-1].split("<")[0], f["name"])


def one(ctx, prog, cfg, f, kind):
    tag = "%s.%s.%s" % (cfg, label(prog, f, kind), f["p"].split("::")[-2])
    ctx.unit("implementation", tag)
    where = f["sp"]
    if kind == "default":
        r = Run(prog, f)
        return verdict(ctx, tag, den(r.pval), ZERO, where)
    if kind in ("collect", "sum"):
        s = sym("items")
        r = Run(prog, f, over={0: s})
        want = dterms(s) if kind == "collect" else psum(slen(s), L1(lambda k: dterms(field(at(s, k), "terms"))))
        return verdict(ctx, tag, den(r.pval), want, where)
    ps = f["params"]
    if kind == "from":
        c = f["name"] == "constant" or local(prog, f["crate"], ps[0]["t"]) is None
        for n, a in operands(prog, f, ps[0]["t"], "a", c):
            r = Run(prog, f, over={0: a})
            verdict(ctx, "%s.%s" % (tag, n), den(r.pval), den(a), where)
        return
    tr = f.get("itrait")
    op = OPS["core::ops::arith::Mul"] if f["name"] == "scalar_mul" else OPS.get(tr) or ASSIGN[tr]
    mul = "Mul" in (tr or "Mul")
    for n, a in operands(prog, f, ps[0]["t"], "a", False):
        if len(ps) == 1:
            r = Run(prog, f, over={0: a})
            verdict(ctx, "%s.%s" % (tag, n), den(r.pval), op(den(a)), where)
            continue
        for m, b in operands(prog, f, ps[1]["t"], "b", mul):
            r = Run(prog, f, over={0: a, 1: b})
            got = den(r.out(0)) if kind == "assign" else den(r.pval)
            verdict(ctx, "%s.%s.%s" % (tag, n, m), got, op(den(a), den(b)), where)


def verdict(ctx, tag, got, want, where):
    v, why = judge(psub(got, want))
    ctx.ob(tag, v, "%s = %s: %s" % (show(got)[:200], show(want)[:200], why), where)


def evaluation(ctx, prog, cfg):
    f = method(prog, "eval", "Prover")
    l = symlc(prog, "terms")
    P = expand_adt(prog, paths(prog)["Prover"], sym("prover"))
    S = expand_adt(prog, paths(prog)["Secrets"], sym("secrets"))
    P = put(P, ("secrets",), S)
    r = Run(prog, f, over={0: P, 1: l})
    g = lambda n: field(S, n)

    def value(v):
        x = ZERO
        for n, w in (("MultiplierLeft", "a_L"), ("MultiplierRight", "a_R"), ("MultiplierOutput", "a_O"), ("Committed", "v")):
            x = ite(isv(v, n), at(g(w), vfield(v, n, "0")), x)
        x = ite(isv(v, "VectorCommit"), at(field(at(g("vec_open"), vfield(v, "VectorCommit", "0")), "1"), vfield(v, "VectorCommit", "1")), x)
        return ite(isv(v, "One"), ONE, x)
    v, why = judge(psub(r.pval, dterms(field(l, "terms"), value)))
    ctx.ob(cfg + ".eval", v, "evaluation of a combination: %s" % why, f["sp"])
    for n, x in variables(prog, "i"):
        r = Run(prog, f, over={0: P, 1: lc(prog, [(x, sym("c")), (x, sym("d"))])})
        v, why = judge(psub(r.pval, pmul(padd(sym("c"), sym("d")), value(x))))
        ctx.ob("%s.eval.%s" % (cfg, n), v, "evaluation of a repeated %s: %s" % (n, why), f["sp"])
