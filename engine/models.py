"""Models of functions outside the two crates (std, ark, merlin, rayon …)."""
import re
from terms import *

_keyc = {}


def key(f):
    p = f["p"]
    k = _keyc.get(p)
    if k is None:
        segs = [s for s in re.split(r"::", p) if not s.startswith("{impl")]
        k = "::".join(segs[-2:])
        if p.startswith(("bulletproofs::", "relations::")):
            k = "local::" + "::".join(segs[-2:])
        _keyc[p] = k
    return k


MODELS = {}
CONSTS = {"Field::ZERO": ZERO, "Field::ONE": ONE, "AdditiveGroup::ZERO": ZERO}


def model(*names):
    def d(fn):
        for n in names:
            MODELS[n] = fn
        return fn
    return d


def ld(I, a, st):
    return I.load(a, st)


def same(I, f, args, st, fr, e):
    return args[0]


for n in ("Deref::deref", "DerefMut::deref_mut", "Borrow::borrow", "BorrowMut::borrow_mut", "AsRef::as_ref", "AsMut::as_mut",
          "vec::as_slice", "vec::as_mut_slice", "boxed::new", "option::as_mut", "zeroize::new",
          "boxed::box_assume_init_into_vec_unsafe", "slice::into_vec", "generic_array::as_slice", "vec::into_boxed_slice",
          "hint::must_use", "rc::new", "arc::new", "sync::new", "slice::as_slice", "array::as_slice", "black_box",
          "hint::black_box", "Pin::new", "Cow::into_owned", "array::as_mut_slice"):
    MODELS[n] = same


def value(I, f, args, st, fr, e):
    return ld(I, args[0], st)


for n in ("Clone::clone", "ToOwned::to_owned", "slice::to_vec", "Iterator::copied", "Iterator::cloned", "option::copied",
          "option::cloned", "option::as_ref", "CurveGroup::into_affine", "AffineRepr::into_group", "result::as_ref",
          "option::as_deref", "ops::into_inner", "Iterator::by_ref", "Iterator::fuse", "Iterator::peekable",
          "slice::concat_id", "CurveGroup::normalize_batch", "PrimeField::into_bigint_id"):
    MODELS[n] = value


@model("Iterator::by_ref")
def _byref(I, f, args, st, fr, e):
    return args[0]


# ------------------------------------------------------------------ types helpers
def tgt_adt(I, fr, t):
    x = I.strip(fr, t)
    return x.get("p") if x["k"] == "adt" else None


def tname(I, fr, t):
    return I.strip(fr, t)["s"]


LC = "bulletproofs::r1cs::linear_combination::LinearCombination"
VAR = "bulletproofs::r1cs::linear_combination::Variable"


def var_num(v):
    """a circuit variable or linear combination as a polynomial"""
    if v.op == "ite":
        return mapleaves(v, var_num)
    if v.op == "adt":
        if v.args[1] == "One":
            return ONE
        if v.args[0] == VAR:
            return app("cv:" + v.args[1], *[x for _, x in v.args[2]])
        if v.args[0] == LC:
            t = dict(v.args[2])["terms"]
            if t is EMPTY:
                return ZERO
            k = fresh()
            return sumk(slen(t), k, pmul(var_num(field(at(t, k), "0")), field(at(t, k), "1")))
    return v


def convert(I, fr, v, src, dst, st, f, e):
    """From/Into between types"""
    d = tgt_adt(I, fr, dst)
    s = tgt_adt(I, fr, src) if src is not None else None
    if d in (LC, VAR):
        if getattr(I, "lcnum", False):
            return var_num(ld(I, v, st))
    if d == "core::option::Option" and s != d:
        return some(v)
    if d is not None and d.startswith(("bulletproofs::", "relations::")) and d != s:
        src_s = I.prog.types[fr.crate][src] if src is not None else None
        cands = []
        for im in I.prog.impls:
            if im.get("trait") != "core::convert::From":
                continue
            t = I.prog.types[im["crate"]][im["self"]]
            if t.get("p") != d:
                continue
            a = im.get("ta") or []
            for it in im["items"]:
                if it[0] == "from":
                    fn = I.prog.fns.get(it[2])
                    if fn:
                        cands.append((im, fn))
        best = []
        if src_s is not None and src_s["k"] == "param":
            # the concrete type behind a generic conversion argument is that of the value
            w = ld(I, v, st)
            if w.op == "adt" and w.args[0] == d:
                return w
            ps = [(fn, I.prog.types[fn["crate"]][fn["params"][0]["t"]]) for im, fn in cands]
            if w.op == "adt":
                hit = [fn for fn, pt in ps if pt["k"] == "adt" and pt["p"] == w.args[0]]
            else:
                hit = [fn for fn, pt in ps if pt["k"] in ("param", "prim")] if len(cands) > 1 and w.op in ("sym", "poly") else []
            if len(hit) == 1:
                return I.call_fn(hit[0], [v], st, fr)
        for im, fn in cands:
            pt = I.prog.types[fn["crate"]][fn["params"][0]["t"]]
            if src_s is None:
                continue
            if pt["k"] == "adt" and src_s["k"] == "adt" and pt["p"] == src_s["p"]:
                best.append(fn)
            elif pt["k"] in ("prim",) and pt["s"] == src_s["s"]:
                best.append(fn)
            elif pt["k"] == "param" and src_s["k"] in ("param", "alias"):
                best.append(fn)
        if len(best) == 1:
            return I.call_fn(best[0], [v], st, fr)
        if len(cands) == 1:
            return I.call_fn(cands[0][1], [v], st, fr)
    v = ld(I, v, st)
    if all(l.op in ("true", "false") for l in leaves(v)) and I.strip(fr, dst)["s"] != "bool":
        return mapleaves(v, lambda l: ONE if l is TRUE else ZERO)
    return v


@model("Into::into")
def _into(I, f, args, st, fr, e):
    a = f["a"]
    return convert(I, fr, args[0], a[0], a[1], st, f, e)


@model("From::from")
def _from(I, f, args, st, fr, e):
    r = f.get("r") or ""
    if r in I.prog.fns and not (getattr(I, "lcnum", False) and tgt_adt(I, fr, f["self"]) in (LC, VAR)):
        return None
    a = f["a"]
    return convert(I, fr, args[0], a[1] if len(a) > 1 and isinstance(a[1], int) else None, f["self"], st, f, e)


@model("TryInto::try_into", "TryFrom::try_from")
def _tryinto(I, f, args, st, fr, e):
    v = ld(I, args[0], st)
    return ok(v)


@model("Default::default")
def _default(I, f, args, st, fr, e):
    r = f.get("r") or ""
    if r in I.prog.fns and not (getattr(I, "lcnum", False) and tgt_adt(I, fr, f["self"]) == LC):
        return None
    x = I.strip(fr, f["self"])
    return default_of(I, fr, x)


def default_of(I, fr, x):
    if x["k"] == "adt":
        p = x["p"]
        if p in ("alloc::vec::Vec", "alloc::string::String"):
            return EMPTY
        if p == "core::option::Option":
            return NONE
        if p.startswith(("bulletproofs", "relations")):
            if p == LC:
                return ZERO
            return None
        if p == "core::marker::PhantomData":
            return UNIT
        return ZERO
    if x["k"] == "slice":
        return EMPTY
    if x["k"] == "prim" and x["s"] == "bool":
        return FALSE
    if x["k"] == "tuple":
        return mk("tup", tuple(default_of(I, fr, I.ty(fr, t)) for t in x["a"]))
    return ZERO


# ------------------------------------------------------------------ numbers
@model("Zero::zero", "AffineRepr::zero", "Group::zero", "AdditiveGroup::zero")
def _zero(I, f, args, st, fr, e):
    if (f.get("r") or "") in I.prog.fns:
        return None
    return ZERO


@model("One::one")
def _one(I, f, args, st, fr, e):
    if (f.get("r") or "") in I.prog.fns:
        return None
    return ONE


@model("Zero::is_zero", "AffineRepr::is_zero")
def _isz(I, f, args, st, fr, e):
    return eq(ld(I, args[0], st), ZERO)


@model("One::is_one")
def _iso(I, f, args, st, fr, e):
    return eq(ld(I, args[0], st), ONE)


@model("AffineRepr::generator", "PrimeGroup::generator")
def _gen(I, f, args, st, fr, e):
    return app("generator", mk("str", tname(I, fr, f["self"])))


def arith(op):
    def m(I, f, args, st, fr, e):
        r = f.get("r") or ""
        lcn = getattr(I, "lcnum", False)
        if r in I.prog.fns and not lcn:
            return None
        if not lcn and "self" in f and tgt_adt(I, fr, f["self"]) in (LC, VAR):
            return None
        vs = [ld(I, a, st) for a in args]
        if lcn:
            vs = [var_num(v) for v in vs]
        if op == "neg":
            return pneg(vs[0])
        if op == "div":
            return pdiv(vs[0], vs[1])
        return {"add": padd, "sub": psub, "mul": pmul}[op](vs[0], vs[1])
    return m


for n in ("Add", "Sub", "Mul", "Div", "Neg"):
    MODELS["%s::%s" % (n, n.lower())] = arith(n.lower())


def arith_assign(op):
    def m(I, f, args, st, fr, e):
        r = f.get("r") or ""
        if r in I.prog.fns and not getattr(I, "lcnum", False):
            return None
        old = ld(I, args[0], st)
        v = ld(I, args[1], st)
        if getattr(I, "lcnum", False):
            old, v = var_num(old), var_num(v)
        n = {"add": padd, "sub": psub, "mul": pmul, "div": pdiv}[op](old, v)
        I.store(args[0], n, st)
        return UNIT
    return m


for n in ("Add", "Sub", "Mul", "Div"):
    MODELS["%sAssign::%s_assign" % (n, n.lower())] = arith_assign(n.lower())


@model("PartialEq::eq")
def _eq(I, f, args, st, fr, e):
    return I.beq(I.pure(args[0], st), I.pure(args[1], st))


@model("PartialEq::ne")
def _ne(I, f, args, st, fr, e):
    return b_not(I.beq(I.pure(args[0], st), I.pure(args[1], st)))


def cmpm(fn):
    def m(I, f, args, st, fr, e):
        return fn(ld(I, args[0], st), ld(I, args[1], st))
    return m


MODELS["PartialOrd::lt"] = cmpm(i_lt)
MODELS["PartialOrd::le"] = cmpm(i_le)
MODELS["PartialOrd::gt"] = cmpm(lambda a, b: i_lt(b, a))
MODELS["PartialOrd::ge"] = cmpm(lambda a, b: i_le(b, a))
MODELS["cmp::max"] = cmpm(smax)
MODELS["cmp::min"] = cmpm(smin)
MODELS["Ord::max"] = cmpm(smax)
MODELS["Ord::min"] = cmpm(smin)


@model("Field::inverse")
def _inv(I, f, args, st, fr, e):
    x = ld(I, args[0], st)
    return ite(eq(x, ZERO), NONE, some(pinv(x)))


@model("Field::square", "AdditiveGroup::double", "Field::double")
def _sq(I, f, args, st, fr, e):
    x = ld(I, args[0], st)
    if f["name"] == "double":
        return padd(x, x)
    return pmul(x, x)


@model("Field::square_in_place", "AdditiveGroup::double_in_place", "AdditiveGroup::neg_in_place")
def _sqi(I, f, args, st, fr, e):
    x = ld(I, args[0], st)
    n = f["name"]
    I.store(args[0], pmul(x, x) if n.startswith("square") else padd(x, x) if n.startswith("double") else pneg(x), st)
    return args[0]


@model("Field::pow")
def _pow(I, f, args, st, fr, e):
    x = ld(I, args[0], st)
    s = ld(I, args[1], st)
    if s.op == "lst" and len(s.args[0]) == 1:
        return ppow(x, s.args[0][0])
    UNMODELLED.add("pow")
    return app("pow", x, s)


@model("num::pow")
def _npow(I, f, args, st, fr, e):
    return ppow(ld(I, args[0], st), ld(I, args[1], st))


@model("num::next_power_of_two")
def _npo2(I, f, args, st, fr, e):
    return mapleaves(args[0], npo2)


BITS = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "usize": 64, "u128": 128, "i8": 8, "i16": 16, "i32": 32, "i64": 64, "i128": 128, "isize": 64}


def untrunc(x):
    """indices are taken to fit the narrower integer type"""
    if x.op == "app" and x.args[0].startswith("trunc"):
        return x.args[1]
    return x


@model("num::leading_zeros")
def _lz(I, f, args, st, fr, e):
    w = BITS.get(I.ty(fr, f["iself"])["s"])
    if w is None:
        UNMODELLED.add("leading_zeros")
        return app("leading_zeros", args[0])
    return mapleaves(args[0], lambda l: psub(num(w - 1), ilog2(untrunc(l))))


@model("num::wrapping_shl")
def _wshl(I, f, args, st, fr, e):
    w = BITS.get(I.ty(fr, f["iself"])["s"])
    return pmul(args[0], ppow(num(2), irem(untrunc(args[1]), num(w)))) if w and args[0] is ONE else None


@model("num::ilog2")
def _il2(I, f, args, st, fr, e):
    return mapleaves(args[0], lambda l: ilog2(untrunc(l)))


@model("num::is_power_of_two")
def _ip2(I, f, args, st, fr, e):
    v = numval(args[0])
    if v is not None:
        return TRUE if v > 0 and v & (v - 1) == 0 else FALSE
    return bopq("pow2", args[0])


def int_range(I, f, fr):
    """(least, greatest) value of the integer type a method belongs to, and its width"""
    t = I.ty(fr, f["iself"])["s"]
    if t not in BITS:
        return None
    w = BITS[t]
    return (-(1 << w - 1), (1 << w - 1) - 1, w) if t[0] == "i" else (0, (1 << w) - 1, w)


def _exact(name, a, b):
    return padd(a, b) if name.endswith("add") else psub(a, b) if name.endswith("sub") else pmul(a, b) if name.endswith("mul") else ppow(a, b)


@model("num::wrapping_sub", "num::wrapping_add", "num::wrapping_mul", "num::wrapping_pow")
def _wrap(I, f, args, st, fr, e):
    r, name = int_range(I, f, fr), f["name"]
    if r is None:
        return None
    lo, hi, w = r

    def one(a, b):
        v = _exact(name, a, b)
        n = numval(v)
        if isinstance(n, int):
            return num((n - lo) % (1 << w) + lo)
        return v if w >= 64 or lo else trunc(w, v)
    return mapleaves(args[0], lambda a: mapleaves(args[1], lambda b: one(a, b)))


@model("num::saturating_sub")
def _ss(I, f, args, st, fr, e):
    r = int_range(I, f, fr)
    a, b = args[0], args[1]
    if r is not None and r[0]:
        n = numval(psub(a, b))
        return num(min(max(n, r[0]), r[1])) if isinstance(n, int) else psub(a, b)
    return psub(smax(a, b), b)


@model("num::saturating_add", "num::saturating_mul", "num::saturating_pow")
def _sa(I, f, args, st, fr, e):
    r = int_range(I, f, fr)
    v = _exact(f["name"], args[0], args[1])
    n = numval(v)
    if r is not None and isinstance(n, int):
        return num(min(max(n, r[0]), r[1]))
    return v


@model("num::checked_add", "num::checked_sub", "num::checked_mul", "num::checked_pow")
def _chk(I, f, args, st, fr, e):
    r, name = int_range(I, f, fr), f["name"]
    if r is None:
        return None
    v = _exact(name, args[0], args[1])
    n = numval(v)
    if isinstance(n, int):
        return some(v) if r[0] <= n <= r[1] else NONE
    if r[0] == 0 and name.endswith("sub"):
        return ite(i_le(args[1], args[0]), some(v), NONE)
    return some(v) if r[2] >= 64 else None


@model("num::checked_div", "num::checked_rem")
def _chkd(I, f, args, st, fr, e):
    a, b = args[0], args[1]
    return ite(eq(b, ZERO), NONE, some(idiv(a, b) if f["name"].endswith("div") else irem(a, b)))


@model("num::div_ceil")
def _dc(I, f, args, st, fr, e):
    return idiv(padd(args[0], psub(args[1], ONE)), args[1])


@model("fields::batch_inversion")
def _binv(I, f, args, st, fr, e):
    s = ld(I, args[0], st)
    I.store(args[0], mapk(slen(s), lambda k: pinv(at(s, k))), st)
    return UNIT


def dot(I, ps, ss, pc=TRUE):
    """sum of ps[i]*ss[i], aligned segment by segment"""
    P = list(ps.args[0]) if ps.op == "cat" else [ps]
    S = list(ss.args[0]) if ss.op == "cat" else [ss]
    return dot_segs(P, S)


def split_lst(L):
    out = []
    for s in L:
        if s.op == "lst" and len(s.args[0]) > 1:
            out.extend(lst([x]) for x in s.args[0])
        elif s is EMPTY:
            continue
        else:
            out.append(s)
    return out


def dot_segs(P, S):
    P, S = split_lst(P), split_lst(S)
    r = ZERO
    i = 0
    aligned = []
    while P and S:
        a, b = P[0], S[0]
        la, lb = slen(a), slen(b)
        if la is lb:
            aligned.append((a, b))
            P.pop(0)
            S.pop(0)
            continue
        # try to extend the shorter side by whole segments
        break
    for a, b in aligned:
        if a.op == "lst" and b.op == "lst":
            r = padd(r, pmul(a.args[0][0], b.args[0][0]))
        elif a.op == "lst" or b.op == "lst":
            r = padd(r, pmul(at(a, ZERO), at(b, ZERO)))
        elif a.op == "cmap" and b.op == "cmap" and a.args[0] is b.args[0]:
            k = fresh()
            x, y = open_(a.args[1], (k,)), open_(b.args[1], (k,))
            if x.args[0][0] is y.args[0][0]:
                r = padd(r, sumk(a.args[0], k, ite(x.args[0][0], pmul(x.args[0][1], y.args[0][1]), ZERO)))
            else:
                r = padd(r, sumk(slen(a), k, pmul(at(a, k), at(b, k))))
        else:
            k = fresh()
            n = slen(a)
            r = padd(r, sumk(n, k, pmul(at(a, k), at(b, k))))
    if P or S:
        if P and S:
            a, b = cat(P), cat(S)
            n = smin(slen(a), slen(b))
            k = fresh()
            r = padd(r, pmul(ONE, sumk(n, k, pmul(at(a, k), at(b, k)))))
        # one side exhausted: zip truncates
    return r


def reduce_len(I, t, pc):
    """apply the equalities implied by the path condition to lengths"""
    m = {}
    for a in bdd_atoms(pc):
        if a.op != "eq0":
            continue
        if b_and(pc, b_not(atom_cond(a))) is not FALSE:
            continue
        p = a.args[0]
        for mm, c in sorted(monos(p), key=lambda z: -(z[0][0][0].id if z[0] else 0)):
            if len(mm) == 1 and mm[0][1] == 1 and c in (1, -1) and mm[0][0].op == "len":
                x = mm[0][0]
                rest = mkp({k: v for k, v in pd(p).items() if k != mm})
                m[x] = pscale(rest, -c)
                break
    if not m:
        return t
    return subst_term(t, m)


@model("VariableBaseMSM::msm_unchecked", "variable_base::msm_unchecked", "VariableBaseMSM::msm", "ScalarMul::msm_unchecked")
def _msm(I, f, args, st, fr, e):
    ps, ss = ld(I, args[0], st), ld(I, args[1], st)
    p2, s2 = reduce_len(I, ps, st.pc), reduce_len(I, ss, st.pc)
    r = app("msm", I.pure(p2, st), I.pure(s2, st)) if I.rawmsm else dot(I, p2, s2)
    I.ev("msm", (p2, s2, r), st, e.get("sp"), fr)
    if f["name"] == "msm":
        return ite(eq(slen(p2), slen(s2)), ok(r), err(smin(slen(p2), slen(s2))))
    return r


@model("UniformRand::rand")
def _rand(I, f, args, st, fr, e):
    n = I.count("rng")
    t = mk("rng", n, tuple(I.ks), e.get("sp"))
    I.ev("rng", (t, I.pure(args[0], st)), st, e.get("sp"), fr)
    return t


INTS = {"u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize", "bool", "char"}


@model("Rng::gen", "Rng::gen_range", "RngCore::next_u64", "RngCore::next_u32", "Rng::random", "Rng::random_range")
def _gen(I, f, args, st, fr, e):
    """a uniform value of a type other than an integer, or an integer (not a uniform field element)"""
    if f["name"] in ("gen", "random") and tname(I, fr, e.get("t", 0)) not in INTS:
        return _rand(I, f, args, st, fr, e)
    return app("drawn", num(I.count("rng")), mk("str", f["name"]), *I.ks)


# ------------------------------------------------------------------ panics, control
@model("panicking::panic_fmt", "panicking::begin_panic", "panicking::panic", "panicking::assert_failed", "panicking::unreachable",
       "panicking::panic_display", "panicking::panic_str", "panicking::panic_explicit", "panicking::assert_failed_inner",
       "panicking::unreachable_display", "panicking::panic_nounwind", "process::abort", "process::exit")
def _panic(I, f, args, st, fr, e):
    return I.panic(st, fr, e.get("sp"))


@model("Try::branch")
def _branch(I, f, args, st, fr, e):
    v = I.norm(ld(I, args[0], st), st)
    isopt = tgt_adt(I, fr, f["self"]) == "core::option::Option"
    CF = "core::ops::control_flow::ControlFlow"

    def one(l):
        if l.op == "bot":
            return l
        if isopt:
            c = isv(l, "Some")
            return ite(c, adt(CF, "Continue", (("0", vfield(l, "Some", "0")),)), adt(CF, "Break", (("0", NONE),)))
        c = isv(l, "Ok")
        return ite(c, adt(CF, "Continue", (("0", vfield(l, "Ok", "0")),)), adt(CF, "Break", (("0", err(vfield(l, "Err", "0"))),)))
    return mapleaves(v, one)


@model("FromResidual::from_residual")
def _resid(I, f, args, st, fr, e):
    return ld(I, args[0], st)


# ------------------------------------------------------------------ option / result
def optmap(I, v, variant, st, fr, fn, other):
    """apply fn to the payload where v is `variant`"""
    v = I.norm(v, st)
    c = isv(v, variant)
    return I.branch(c, st, fr, lambda s: fn(vfield(v, variant, "0"), s), lambda s: other(s))


@model("option::unwrap", "option::expect")
def _ou(I, f, args, st, fr, e):
    v = I.norm(ld(I, args[0], st), st)
    I.require(isv(v, "Some"), st, fr, e.get("sp"), "unwrap")
    if args[0].op == "ref":
        pass
    return vfield(I.norm(v, st), "Some", "0")


@model("result::unwrap", "result::expect")
def _ru(I, f, args, st, fr, e):
    v = I.norm(ld(I, args[0], st), st)
    I.require(isv(v, "Ok"), st, fr, e.get("sp"), "unwrap")
    return vfield(I.norm(v, st), "Ok", "0")


@model("option::unwrap_or")
def _ouo(I, f, args, st, fr, e):
    v = ld(I, args[0], st)
    return ite(isv(v, "Some"), vfield(v, "Some", "0"), args[1])


@model("result::unwrap_or")
def _ruo(I, f, args, st, fr, e):
    v = ld(I, args[0], st)
    return ite(isv(v, "Ok"), vfield(v, "Ok", "0"), args[1])


@model("option::unwrap_or_default")
def _ouod(I, f, args, st, fr, e):
    v = ld(I, args[0], st)
    d = default_of(I, fr, I.strip(fr, e["t"]))
    return ite(isv(v, "Some"), vfield(v, "Some", "0"), d)


@model("result::unwrap_or_default")
def _ruod(I, f, args, st, fr, e):
    v = ld(I, args[0], st)
    d = default_of(I, fr, I.strip(fr, e["t"]))
    return ite(isv(v, "Ok"), vfield(v, "Ok", "0"), d)


@model("option::unwrap_or_else")
def _ouoe(I, f, args, st, fr, e):
    return optmap(I, ld(I, args[0], st), "Some", st, fr, lambda x, s: x, lambda s: I.apply(args[1], [], s, fr, e))


@model("result::unwrap_or_else")
def _ruoe(I, f, args, st, fr, e):
    v = ld(I, args[0], st)
    return optmap(I, v, "Ok", st, fr, lambda x, s: x, lambda s: I.apply(args[1], [vfield(v, "Err", "0")], s, fr, e))


@model("option::map")
def _om(I, f, args, st, fr, e):
    return optmap(I, ld(I, args[0], st), "Some", st, fr, lambda x, s: some(I.apply(args[1], [x], s, fr, e)), lambda s: NONE)


@model("option::and_then")
def _oat(I, f, args, st, fr, e):
    return optmap(I, ld(I, args[0], st), "Some", st, fr, lambda x, s: I.apply(args[1], [x], s, fr, e), lambda s: NONE)


@model("option::map_or")
def _omo(I, f, args, st, fr, e):
    return optmap(I, ld(I, args[0], st), "Some", st, fr, lambda x, s: I.apply(args[2], [x], s, fr, e), lambda s: args[1])


@model("option::filter")
def _of(I, f, args, st, fr, e):
    return optmap(I, ld(I, args[0], st), "Some", st, fr,
                  lambda x, s: ite(I.tobool(I.apply(args[1], [x], s, fr, e)), some(x), NONE), lambda s: NONE)


@model("option::is_some_and")
def _isa(I, f, args, st, fr, e):
    return optmap(I, ld(I, args[0], st), "Some", st, fr,
                  lambda x, s: I.tobool(I.apply(args[1], [x], s, fr, e)), lambda s: FALSE)


@model("option::map_or_else")
def _omoe(I, f, args, st, fr, e):
    return optmap(I, ld(I, args[0], st), "Some", st, fr, lambda x, s: I.apply(args[2], [x], s, fr, e),
                  lambda s: I.apply(args[1], [], s, fr, e))


@model("result::map")
def _rm(I, f, args, st, fr, e):
    v = ld(I, args[0], st)
    return optmap(I, v, "Ok", st, fr, lambda x, s: ok(I.apply(args[1], [x], s, fr, e)), lambda s: err(vfield(v, "Err", "0")))


@model("result::map_err")
def _rme(I, f, args, st, fr, e):
    v = ld(I, args[0], st)
    return optmap(I, v, "Ok", st, fr, lambda x, s: ok(x), lambda s: err(I.apply(args[1], [vfield(v, "Err", "0")], s, fr, e)))


@model("result::and_then")
def _rat(I, f, args, st, fr, e):
    v = ld(I, args[0], st)
    return optmap(I, v, "Ok", st, fr, lambda x, s: I.apply(args[1], [x], s, fr, e), lambda s: err(vfield(v, "Err", "0")))


@model("result::and")
def _rand_(I, f, args, st, fr, e):
    v = ld(I, args[0], st)
    return ite(isv(v, "Ok"), ld(I, args[1], st), err(vfield(v, "Err", "0")))


@model("option::ok_or")
def _ook(I, f, args, st, fr, e):
    v = ld(I, args[0], st)
    return ite(isv(v, "Some"), ok(vfield(v, "Some", "0")), err(args[1]))


@model("option::ok_or_else")
def _ooke(I, f, args, st, fr, e):
    return optmap(I, ld(I, args[0], st), "Some", st, fr, lambda x, s: ok(x), lambda s: err(I.apply(args[1], [], s, fr, e)))


@model("result::ok")
def _rok(I, f, args, st, fr, e):
    v = ld(I, args[0], st)
    return ite(isv(v, "Ok"), some(vfield(v, "Ok", "0")), NONE)


@model("result::err")
def _rer(I, f, args, st, fr, e):
    v = ld(I, args[0], st)
    return ite(isv(v, "Err"), some(vfield(v, "Err", "0")), NONE)


@model("option::is_some")
def _oiss(I, f, args, st, fr, e):
    return isv(ld(I, args[0], st), "Some")


@model("option::is_none")
def _oisn(I, f, args, st, fr, e):
    return isv(ld(I, args[0], st), "None")


@model("result::is_ok")
def _riso(I, f, args, st, fr, e):
    return isv(ld(I, args[0], st), "Ok")


@model("result::is_err")
def _rise(I, f, args, st, fr, e):
    return isv(ld(I, args[0], st), "Err")


@model("option::take", "mem::take")
def _take(I, f, args, st, fr, e):
    v = ld(I, args[0], st)
    d = default_of(I, fr, I.strip(fr, e["t"]))
    if d is None:
        d = app("default")
    I.store(args[0], d, st)
    return v


@model("mem::replace")
def _repl(I, f, args, st, fr, e):
    v = ld(I, args[0], st)
    I.store(args[0], args[1], st)
    return v


@model("mem::swap")
def _swap(I, f, args, st, fr, e):
    a, b = ld(I, args[0], st), ld(I, args[1], st)
    I.store(args[0], b, st)
    I.store(args[1], a, st)
    return UNIT


@model("mem::drop", "mem::forget")
def _drop(I, f, args, st, fr, e):
    return UNIT


@model("bool::then", "bool::then_some")
def _then(I, f, args, st, fr, e):
    c = I.tobool(args[0])
    if f["name"] == "then_some":
        return ite(c, some(args[1]), NONE)
    return I.branch(c, st, fr, lambda s: some(I.apply(args[1], [], s, fr, e)), lambda s: NONE)


# ------------------------------------------------------------------ vectors
@model("vec::new", "vec::with_capacity", "string::new", "string::with_capacity")
def _vnew(I, f, args, st, fr, e):
    return EMPTY


@model("vec::from_elem")
def _fe(I, f, args, st, fr, e):
    v = ld(I, args[0], st)
    return mapk(args[1], lambda k: v)


@model("vec::len", "slice::len", "array::len", "ExactSizeIterator::len", "str::len")
def _len(I, f, args, st, fr, e):
    v = ld(I, args[0], st)
    if v.op == "adt" and v.args[0] == "#it":
        d = dict(v.args[2])
        n = d_len(I, d["d"], st)
        return psub(n, d["pos"])
    return slen(v)


@model("vec::is_empty", "slice::is_empty")
def _ise(I, f, args, st, fr, e):
    return eq0(slen(ld(I, args[0], st)))


@model("vec::push")
def _push(I, f, args, st, fr, e):
    I.store(args[0], push(ld(I, args[0], st), args[1]), st)
    return UNIT


@model("vec::append")
def _app(I, f, args, st, fr, e):
    a, b = ld(I, args[0], st), ld(I, args[1], st)
    I.store(args[0], cat([a, b]) if a.op != "ite" else mapleaves(a, lambda l: cat([l, b])), st)
    I.store(args[1], EMPTY, st)
    return UNIT


@model("vec::extend_from_slice")
def _efs(I, f, args, st, fr, e):
    a, b = ld(I, args[0], st), ld(I, args[1], st)
    I.store(args[0], cat([a, b]), st)
    return UNIT


@model("vec::pop")
def _pop(I, f, args, st, fr, e):
    v = ld(I, args[0], st)
    n = slen(v)
    c = eq0(n)
    I.store(args[0], ite(c, v, slice_(v, ZERO, psub(n, ONE))), st)
    return ite(c, NONE, some(at(v, psub(n, ONE))))


@model("vec::truncate")
def _trunc(I, f, args, st, fr, e):
    v = ld(I, args[0], st)
    I.store(args[0], slice_(v, ZERO, smin(slen(v), args[1])), st)
    return UNIT


@model("vec::clear")
def _clear(I, f, args, st, fr, e):
    I.store(args[0], EMPTY, st)
    return UNIT


@model("vec::resize")
def _resize(I, f, args, st, fr, e):
    v = ld(I, args[0], st)
    n = slen(v)
    x = args[2]
    grow = cat([v, mapk(psub(args[1], n), lambda k: x)])
    c = i_le(n, args[1])
    I.store(args[0], ite(c, grow, slice_(v, ZERO, args[1])), st)
    return UNIT


@model("vec::insert")
def _insert(I, f, args, st, fr, e):
    v = ld(I, args[0], st)
    I.store(args[0], cat([slice_(v, ZERO, args[1]), lst([args[2]]), slice_(v, args[1], slen(v))]), st)
    return UNIT


@model("vec::remove")
def _remove(I, f, args, st, fr, e):
    v = ld(I, args[0], st)
    I.store(args[0], cat([slice_(v, ZERO, args[1]), slice_(v, padd(args[1], ONE), slen(v))]), st)
    return at(v, args[1])


@model("vec::drain")
def _drain(I, f, args, st, fr, e):
    v = ld(I, args[0], st)
    lo, hi = rng_bounds(I, args[1], slen(v), st)
    I.store(args[0], cat([slice_(v, ZERO, lo), slice_(v, hi, slen(v))]), st)
    return mkit(dseq(slice_(v, lo, hi)))


@model("vec::split_off")
def _split_off(I, f, args, st, fr, e):
    v = ld(I, args[0], st)
    I.store(args[0], slice_(v, ZERO, args[1]), st)
    return slice_(v, args[1], slen(v))


@model("slice::swap", "vec::swap")
def _sswap(I, f, args, st, fr, e):
    v = ld(I, args[0], st)
    a, b = at(v, args[1]), at(v, args[2])
    I.store(args[0], upd(upd(v, args[1], b), args[2], a), st)
    return UNIT


@model("slice::rotate_left", "slice::rotate_right")
def _rotate(I, f, args, st, fr, e):
    v = ld(I, args[0], st)
    n = slen(v)
    k = args[1] if f["name"] == "rotate_left" else psub(n, args[1])
    I.store(args[0], cat([slice_(v, k, n), slice_(v, ZERO, k)]), st)
    return UNIT


@model("slice::reverse")
def _srev(I, f, args, st, fr, e):
    v = ld(I, args[0], st)
    I.store(args[0], seqrev(v), st)
    return UNIT


def seqrev(v):
    if v.op == "lst":
        return lst(list(reversed(v.args[0])))
    if v.op == "cat":
        return cat([seqrev(s) for s in reversed(v.args[0])])
    n = slen(v)
    return mapk(n, lambda k: at(v, psub(psub(n, ONE), k)))


@model("slice::first")
def _first(I, f, args, st, fr, e):
    v = ld(I, args[0], st)
    return ite(eq0(slen(v)), NONE, some(at(v, ZERO)))


@model("slice::last")
def _last(I, f, args, st, fr, e):
    v = ld(I, args[0], st)
    return ite(eq0(slen(v)), NONE, some(at(v, psub(slen(v), ONE))))


@model("slice::get", "vec::get")
def _get(I, f, args, st, fr, e):
    v = ld(I, args[0], st)
    i = args[1]
    if i.op == "adt":
        lo, hi = rng_bounds(I, i, slen(v), st)
        return ite(i_le(hi, slen(v)), some(slice_(v, lo, hi)), NONE)
    return ite(i_lt(i, slen(v)), some(at(v, i)), NONE)


@model("slice::get_mut")
def _getm(I, f, args, st, fr, e):
    v = ld(I, args[0], st)
    i = args[1]
    return ite(i_lt(i, slen(v)), some(I.subplace(args[0], ("i", i))), NONE)


@model("slice::split_at")
def _spl(I, f, args, st, fr, e):
    v = ld(I, args[0], st)
    return tup(slice_(v, ZERO, args[1]), slice_(v, args[1], slen(v)))


@model("slice::split_at_mut")
def _splm(I, f, args, st, fr, e):
    v = ld(I, args[0], st)
    n = slen(v)
    return tup(I.subplace(args[0], ("s", ZERO, args[1])), I.subplace(args[0], ("s", args[1], n)))


@model("slice::split_first")
def _splf(I, f, args, st, fr, e):
    v = ld(I, args[0], st)
    n = slen(v)
    return ite(eq0(n), NONE, some(tup(at(v, ZERO), slice_(v, ONE, n))))


@model("slice::split_last")
def _spll(I, f, args, st, fr, e):
    v = ld(I, args[0], st)
    n = slen(v)
    return ite(eq0(n), NONE, some(tup(at(v, psub(n, ONE)), slice_(v, ZERO, psub(n, ONE)))))


@model("slice::copy_from_slice", "slice::clone_from_slice")
def _cfs(I, f, args, st, fr, e):
    I.store(args[0], ld(I, args[1], st), st)
    return UNIT


@model("slice::fill")
def _fill(I, f, args, st, fr, e):
    v = ld(I, args[0], st)
    x = args[1]
    I.store(args[0], mapk(slen(v), lambda k: x), st)
    return UNIT


@model("slice::contains")
def _contains(I, f, args, st, fr, e):
    v = ld(I, args[0], st)
    x = ld(I, args[1], st)
    k = fresh()
    return exists(slen(v), lam((k,), eq(at(v, k), x)))


@model("slice::concat", "Concat::concat", "slice::concat")
def _concat(I, f, args, st, fr, e):
    v = ld(I, args[0], st)
    if v.op == "lst":
        return cat(list(v.args[0]))
    k = fresh()
    return mk("flat", slen(v), lam((k,), at(v, k)))


def rng_bounds(I, r, n, st):
    r = ld(I, r, st)
    if r.op == "adt":
        nm = r.args[0].split("::")[-1]
        d = dict(r.args[2])
        if nm == "Range":
            return d["start"], d["end"]
        if nm == "RangeFrom":
            return d["start"], n
        if nm == "RangeTo":
            return ZERO, d["end"]
        if nm == "RangeFull":
            return ZERO, n
        if nm == "RangeInclusive":
            return d["start"], padd(d["end"], ONE)
        if nm == "RangeToInclusive":
            return ZERO, padd(d["end"], ONE)
    return app("lo", r), app("hi", r)


def isrange(v):
    return v.op == "adt" and "ops::range::" in v.args[0]


@model("range::new", "RangeInclusive::new")
def _rinc(I, f, args, st, fr, e):
    return adt("core::ops::range::RangeInclusive", "RangeInclusive", (("start", args[0]), ("end", args[1])))


@model("Index::index")
def _index(I, f, args, st, fr, e):
    if (f.get("r") or "") in I.prog.fns:
        return None
    v = ld(I, args[0], st)
    i = ld(I, args[1], st)
    if isrange(i):
        lo, hi = rng_bounds(I, i, slen(v), st)
        c = i_le(hi, slen(v))
        if c is not TRUE and b_and(st.pc, b_not(c)) is not FALSE:
            I.ev("idx", (I.pure(v, st), psub(hi, ONE), slen(v)), st, e.get("sp"), fr)
        return slice_(v, lo, hi)
    I.oob(v, i, st, fr, e)
    return at(v, i)


@model("IndexMut::index_mut")
def _indexm(I, f, args, st, fr, e):
    if (f.get("r") or "") in I.prog.fns:
        return None
    v = ld(I, args[0], st)
    i = ld(I, args[1], st)
    if isrange(i):
        lo, hi = rng_bounds(I, i, slen(v), st)
        return I.subplace(args[0], ("s", lo, hi))
    I.oob(v, i, st, fr, e)
    r = I.subplace(args[0], ("i", i))
    return r if r is not None else at(v, i)


# ------------------------------------------------------------------ iterators
def mkit(d, pos=ZERO):
    return adt("#it", "it", (("d", d), ("pos", pos)))


def dseq(s):
    return mk("d_seq", s)


def isit(v):
    return v.op == "adt" and v.args[0] == "#it"


def local_iter(I, v):
    if v.op != "adt" or v.args[0].startswith("#"):
        return None
    for im in I.prog.impls:
        if im.get("trait", "").endswith("::Iterator"):
            t = I.prog.types[im["crate"]][im["self"]]
            if t.get("p") == v.args[0]:
                for it in im["items"]:
                    if it[0] == "next":
                        return I.prog.fns.get(it[2])
    return None


def toit(I, v, st, fr, e):
    """iterator value for anything iterable"""
    if v.op == "ref":
        x = I.load(v, st)
        if isit(x):
            return x
        if x.op == "ref":
            return toit(I, x, st, fr, e)
        if local_iter(I, x) is not None:
            return unfold(I, x, st, fr, e)
        return mkit(mk("d_mut", v, slen(x)))
    if isit(v):
        return v
    if isrange(v):
        nm = v.args[0].split("::")[-1]
        d = dict(v.args[2])
        lo = d["start"]
        if nm == "Range":
            return mkit(dseq(mapk(psub(d["end"], lo), lambda k: padd(lo, k))))
        if nm == "RangeInclusive":
            return mkit(dseq(mapk(padd(psub(d["end"], lo), ONE), lambda k: padd(lo, k))))
        if nm == "RangeFrom":
            return mkit(dseq(mapk(INF, lambda k: padd(lo, k))))
    if v.op == "adt" and v.args[0] == "core::option::Option":
        return mkit(dseq(lst([v.args[2][0][1]]) if v.args[1] == "Some" else EMPTY))
    if local_iter(I, v) is not None:
        return unfold(I, v, st, fr, e)
    if v.op == "ite" and any(isit(l) or isrange(l) for l in leaves(v)):
        its = {l: toit(I, l, st, fr, e) for l in leaves(v)}
        ds = mapleaves(v, lambda l: dict(its[l].args[2])["d"])
        return mkit(ds, mapleaves(v, lambda l: dict(its[l].args[2])["pos"]))
    return mkit(dseq(v))


def unfold(I, v, st, fr, e):
    """sequence produced by a local iterator type"""
    fn = local_iter(I, v)
    loc = I.newloc("it")
    st.mem[loc] = v
    acc = I.newloc("acc")
    st.mem[acc] = EMPTY
    from interp import ref
    # run the stepping function in a loop without exit
    sub = st.copy()

    def body(s, tgt):
        o = I.call_fn(fn, [ref(loc)], s, fr)
        if s.dead:
            return
        o = I.norm(o, s)
        c = isv(o, "Some")
        n = s.copy()
        n.pc = b_and(s.pc, b_not(restrict(c, s.pc)))
        if not n.dead:
            tgt["breaks"].append((n, UNIT))
        s.pc = b_and(s.pc, c)
        if s.dead:
            return
        I.store(ref(acc), push(I.load(ref(acc), s), vfield(o, "Some", "0")), s)
    # closed form of the accumulator at iteration k gives the elements
    seq = I.unfold_loop(body, sub, fr, acc)
    if seq is None:
        return mkit(dseq(app("iterate", I.pure(v, st))))
    return mkit(dseq(seq))


def parts(it):
    d = dict(it.args[2])
    return d["d"], d["pos"]


def base(I, it):
    """descriptor with position folded in"""
    d, p = parts(it)
    if p is ZERO:
        return d
    return d_skip(d, p)


def d_skip(d, n):
    if d.op == "d_seq":
        s = d.args[0]
        m = slen(s)
        if m is INF:
            return dseq(mapk(INF, lambda k: at(s, padd(k, n))))
        return dseq(slice_(s, smin(n, m), m))
    return mk("d_skip", d, n)


def d_len(I, d, st):
    op = d.op
    if op == "d_seq":
        return slen(d.args[0])
    if op in ("d_map", "d_enum", "d_rev", "d_filter", "d_inspect"):
        return d_len(I, d.args[0], st)
    if op == "d_zip":
        return smin(d_len(I, d.args[0], st), d_len(I, d.args[1], st))
    if op == "d_chain":
        return padd(d_len(I, d.args[0], st), d_len(I, d.args[1], st))
    if op == "d_take":
        return smin(d_len(I, d.args[0], st), d.args[1])
    if op == "d_skip":
        n = d_len(I, d.args[0], st)
        return psub(n, smin(d.args[1], n)) if n is not INF else INF
    if op == "d_mut":
        return d.args[1]
    if op == "ite":
        return mapleaves(d, lambda l: d_len(I, l, st))
    return app("len", d)


def d_at(I, d, i, st, fr, e):
    op = d.op
    if op == "d_seq":
        return at(d.args[0], i)
    if op == "d_map":
        x = d_at(I, d.args[0], i, st, fr, e)
        if st.dead:
            return BOT
        return I.apply(d.args[1], [x], st, fr, e)
    if op == "d_inspect":
        x = d_at(I, d.args[0], i, st, fr, e)
        I.apply(d.args[1], [x], st, fr, e)
        return x
    if op == "d_filter":
        x = d_at(I, d.args[0], i, st, fr, e)
        if st.dead:
            return BOT
        kind = d.args[2]
        p = I.apply(d.args[1], [x], st, fr, e)
        if kind == "map":
            c = isv(p, "Some")
            x = vfield(p, "Some", "0")
        else:
            c = I.tobool(p)
        n = st.copy()
        n.pc = b_and(st.pc, b_not(restrict(c, st.pc)))
        if not n.dead:
            I.loopstack[-1]["conts"].append((n, UNIT))
        st.pc = b_and(st.pc, c)
        return x
    if op == "d_zip":
        a = d_at(I, d.args[0], i, st, fr, e)
        b = d_at(I, d.args[1], i, st, fr, e)
        return tup(a, b)
    if op == "d_chain":
        n = d_len(I, d.args[0], st)
        return I.branch(i_lt(i, n), st, fr,
                        lambda s: d_at(I, d.args[0], i, s, fr, e),
                        lambda s: d_at(I, d.args[1], psub(i, n), s, fr, e))
    if op == "d_take":
        return d_at(I, d.args[0], i, st, fr, e)
    if op == "d_skip":
        n = d_len(I, d.args[0], st)
        return d_at(I, d.args[0], padd(i, smin(d.args[1], n)), st, fr, e)
    if op == "d_enum":
        return tup(i, d_at(I, d.args[0], i, st, fr, e))
    if op == "d_rev":
        n = d_len(I, d.args[0], st)
        return d_at(I, d.args[0], psub(psub(n, ONE), i), st, fr, e)
    if op == "d_mut":
        return I.subplace(d.args[0], ("i", i))
    if op == "ite":
        return I.branch(atom_cond(d.args[0]), st, fr, lambda s: d_at(I, d.args[1], i, s, fr, e), lambda s: d_at(I, d.args[2], i, s, fr, e))
    return app("d_at", d, i)


def pure_d(d):
    return d.op == "d_seq"


@model("IntoIterator::into_iter", "slice::iter", "vec::iter", "array::iter", "option::iter", "array::into_iter", "vec::into_iter")
def _iter(I, f, args, st, fr, e):
    v = args[0]
    if v.op == "ref":
        x = I.load(v, st)
        if isit(x) or local_iter(I, x) is not None:
            return v
        if f["name"] == "iter":
            return toit(I, x if x.op != "ref" else I.load(x, st), st, fr, e)
    if v.op == "adt" and local_iter(I, v) is not None:
        return v
    return toit(I, v, st, fr, e)


@model("slice::iter_mut", "vec::iter_mut", "option::iter_mut")
def _iterm(I, f, args, st, fr, e):
    return toit(I, args[0], st, fr, e)


def adaptor(fn):
    def m(I, f, args, st, fr, e):
        it = toit(I, args[0], st, fr, e)
        return mkit(fn(I, base(I, it), args, st, fr, e))
    return m


def _dmap(I, d, args, st, fr, e):
    return mk("d_map", d, args[1])


def _dzip(I, d, args, st, fr, e):
    o = base(I, toit(I, args[1], st, fr, e))
    if pure_d(d) and pure_d(o):
        a, b = d.args[0], o.args[0]
        n = smin(slen(a), slen(b))
        return dseq(mapk(n, lambda k: tup(at(a, k), at(b, k))))
    return mk("d_zip", d, o)


def _dchain(I, d, args, st, fr, e):
    o = base(I, toit(I, args[1], st, fr, e))
    if pure_d(d) and pure_d(o) and slen(d.args[0]) is not INF:
        return dseq(cat([d.args[0], o.args[0]]))
    return mk("d_chain", d, o)


def _dtake(I, d, args, st, fr, e):
    if pure_d(d):
        s = d.args[0]
        n = slen(s)
        if n is INF:
            return dseq(mapk(args[1], lambda k: at(s, k)))
        return dseq(slice_(s, ZERO, smin(args[1], n)))
    return mk("d_take", d, args[1])


def _dskip(I, d, args, st, fr, e):
    return d_skip(d, args[1])


def _denum(I, d, args, st, fr, e):
    if pure_d(d):
        s = d.args[0]
        if s.op == "lst":
            return dseq(lst([tup(num(i), x) for i, x in enumerate(s.args[0])]))
        return dseq(mapk(slen(s), lambda k: tup(k, at(s, k))))
    return mk("d_enum", d)


def _drev(I, d, args, st, fr, e):
    if pure_d(d):
        return dseq(seqrev(d.args[0]))
    return mk("d_rev", d)


for n, fn in (("map", _dmap), ("zip", _dzip), ("chain", _dchain), ("take", _dtake), ("skip", _dskip),
              ("enumerate", _denum), ("rev", _drev),
              ("inspect", lambda I, d, a, st, fr, e: mk("d_inspect", d, a[1])),
              ("filter", lambda I, d, a, st, fr, e: mk("d_filter", d, a[1], "f")),
              ("filter_map", lambda I, d, a, st, fr, e: mk("d_filter", d, a[1], "map"))):
    MODELS["Iterator::" + n] = adaptor(fn)


@model("Iterator::flat_map", "Iterator::flatten")
def _flatmap(I, f, args, st, fr, e):
    d = base(I, toit(I, args[0], st, fr, e))
    fn = args[1] if len(args) > 1 else None

    def inner(x, s):
        if fn is not None:
            x = I.apply(fn, [x], s, fr, e)
        return None if s.dead else base(I, toit(I, x, s, fr, e))
    n = numval(d_len(I, d, st))
    if isinstance(n, int) and n <= 64:
        r = dseq(EMPTY)
        for i in range(n):
            x = inner(d_at(I, d, num(i), st, fr, e), st)
            if x is None:
                return BOT
            r = x if r.op == "d_seq" and r.args[0] is EMPTY else _dchain(I, r, [None, mkit(x)], st, fr, e)
        return mkit(r)
    if not pure_d(d) or d_len(I, d, st) is INF:
        return None
    k, s2 = fresh(), st.copy()
    x = inner(at(d.args[0], k), s2)
    if x is None or not pure_d(x):
        return None
    return mkit(dseq(mk("flat", slen(d.args[0]), lam((k,), x.args[0]))))


@model("zip::zip", "iter::zip")
def _izip(I, f, args, st, fr, e):
    it = toit(I, args[0], st, fr, e)
    return mkit(_dzip(I, base(I, it), args, st, fr, e))


@model("Iterator::step_by")
def _step(I, f, args, st, fr, e):
    d = base(I, toit(I, args[0], st, fr, e))
    if pure_d(d):
        s = d.args[0]
        n = slen(s)
        m = INF if n is INF else I.binop("Div", padd(n, psub(args[1], ONE)), args[1])
        return mkit(dseq(mapk(m, lambda k: at(s, pmul(k, args[1])))))
    return None


@model("slice::chunks_exact", "slice::chunks")
def _chunks(I, f, args, st, fr, e):
    v = ld(I, args[0], st)
    c = args[1]
    n = slen(v)
    m = I.binop("Div", n if f["name"] == "chunks_exact" else padd(n, psub(c, ONE)), c)

    def el(k):
        lo = pmul(k, c)
        hi = padd(lo, c)
        if f["name"] == "chunks":
            hi = smin(hi, n)
        return slice_(v, lo, hi)
    return mkit(dseq(mapk(m, el)))


@model("array::map")
def _array_map(I, f, args, st, fr, e):
    d = mk("d_map", base(I, toit(I, args[0], st, fr, e)), args[1])
    return MODELS["Iterator::collect"](I, dict(f, name="collect"), [mkit(d)], st, fr, e)


@model("array::from_fn", "array::from_fn::from_fn")
def _array_from_fn(I, f, args, st, fr, e):
    n = next((num(x["c"]) if "c" in x else I.cvalue(x["cp"], fr) for x in f.get("a", []) if isinstance(x, dict) and ("c" in x or "cp" in x)), None)
    if n is None:
        return None
    d = mk("d_map", base(I, mkit(dseq(mapk(n, lambda k: k)))), args[0])
    return MODELS["Iterator::collect"](I, dict(f, name="collect"), [mkit(d)], st, fr, e)


@model("slice::windows")
def _windows(I, f, args, st, fr, e):
    v = ld(I, args[0], st)
    c = args[1]
    return mkit(dseq(mapk(padd(psub(slen(v), c), ONE), lambda k: slice_(v, k, padd(k, c)))))


@model("once::once")
def _once(I, f, args, st, fr, e):
    return mkit(dseq(lst([args[0]])))


@model("empty::empty")
def _empty(I, f, args, st, fr, e):
    return mkit(dseq(EMPTY))


@model("repeat::repeat")
def _repeat(I, f, args, st, fr, e):
    x = args[0]
    return mkit(dseq(mapk(INF, lambda k: x)))


@model("repeat_n::repeat_n")
def _repeatn(I, f, args, st, fr, e):
    x = args[0]
    return mkit(dseq(mapk(args[1], lambda k: x)))


@model("repeat_with::repeat_with")
def _repeatw(I, f, args, st, fr, e):
    c = args[0]
    return mkit(mk("d_map", dseq(mapk(INF, lambda k: k)), mk("clo0", c)))


@model("successors::successors")
def _succ(I, f, args, st, fr, e):
    return None


@model("Iterator::next")
def _next(I, f, args, st, fr, e):
    r = I.through(args[0], st) if args[0].op == "ref" else args[0]
    v = ld(I, r, st)
    if isrange(v):
        v = toit(I, v, st, fr, e)
    if v.op == "ite" and any(isit(l) for l in leaves(v)):
        return I.branch(atom_cond(v.args[0]), st, fr,
                        lambda s: _nextv(I, v.args[1], r, s, fr, e),
                        lambda s: _nextv(I, v.args[2], r, s, fr, e))
    return _nextv(I, v, r, st, fr, e, f)


def _nextv(I, v, r, st, fr, e, f=None):
    if not isit(v):
        fn = local_iter(I, v)
        if fn is not None and r.op == "ref":
            return I.call_fn(fn, [r], st, fr)
        return None
    d, p = parts(v)
    n = d_len(I, d, st)
    I.store(r, mkit(d, padd(p, ONE)), st)
    return I.branch(i_lt(p, n), st, fr,
                    lambda s: some(d_at(I, d, p, s, fr, e)),
                    lambda s: NONE)


@model("DoubleEndedIterator::next_back")
def _nextb(I, f, args, st, fr, e):
    r = I.through(args[0], st) if args[0].op == "ref" else args[0]
    v = ld(I, r, st)
    if isrange(v):
        v = toit(I, v, st, fr, e)
    if not isit(v):
        return None
    d, p = parts(v)
    if not pure_d(d):
        return None
    s = d.args[0]
    n = slen(s)
    I.store(r, mkit(dseq(slice_(s, ZERO, psub(n, ONE))), p), st)
    return ite(i_lt(p, n), some(at(s, psub(n, ONE))), NONE)


def iterate(I, itv, st, fr, e, fn):
    """run fn(item, state, tgt) over all items"""
    from interp import ref
    loc = I.newloc("it")
    st.mem[loc] = itv
    d, p = parts(itv)
    if d.op == "d_chain" and p is ZERO and d_len(I, d.args[0], st) is not INF:
        iterate(I, mkit(d.args[0]), st, fr, e, fn)
        if not st.dead:
            iterate(I, mkit(d.args[1]), st, fr, e, fn)
        return

    def body(s, tgt):
        o = _nextv(I, I.load(ref(loc), s), ref(loc), s, fr, e)
        if s.dead:
            return
        o = I.norm(o, s)
        c = restrict(isv(o, "Some"), s.pc)
        n = s.copy()
        n.pc = b_and(s.pc, b_not(c))
        if not n.dead:
            tgt["breaks"].append((n, UNIT))
        s.pc = b_and(s.pc, c)
        if s.dead:
            return
        fn(vfield(o, "Some", "0"), s, tgt)
    n = d_len(I, d, st)
    n = numval(psub(n, p)) if n is not INF else None
    if n is not None and 0 <= n <= I.PEEL:
        # a known number of items: left early or not, the body is run item by item
        base = st.pc
        left = []
        s = st.copy()
        for i in range(int(n)):
            s, brs = I.once(body, s, fr, None)
            left += brs
            if s.dead:
                break
        if not left:
            st.mem, st.pc = s.mem, s.pc
            return
        if not s.dead:
            left.append((s.copy(), UNIT))
        st.mem = s.mem
        I.merge(left, st, base, fr)
        return
    I.loop(body, st, fr, None, e.get("sp"))


def whole(I, itv):
    d, p = parts(itv)
    if pure_d(d):
        s = d.args[0]
        if p is ZERO:
            return s
        return slice_(s, p, slen(s)) if slen(s) is not INF else mapk(INF, lambda k: at(s, padd(k, p)))
    return None


@model("Iterator::collect", "FromIterator::from_iter")
def _collect(I, f, args, st, fr, e):
    from interp import ref
    itv = toit(I, args[0], st, fr, e)
    t = I.strip(fr, e["t"])
    res = None
    if t["k"] == "adt" and t["p"] in ("core::result::Result", "core::option::Option"):
        res = "Ok" if t["p"].endswith("Result") else "Some"
    s = whole(I, itv)
    if s is not None and res is None:
        return s
    acc = I.newloc("acc")
    st.mem[acc] = EMPTY
    if res is None:
        iterate(I, itv, st, fr, e, lambda x, s, t: I.store(ref(acc), push(I.load(ref(acc), s), x), s))
        if st.dead:
            return BOT
        return st.mem[acc]
    bad = I.newloc("bad")
    st.mem[bad] = NONE

    def step(x, s, tgt):
        c = restrict(isv(x, res), s.pc)
        n = s.copy()
        n.pc = b_and(s.pc, b_not(c))
        if not n.dead:
            n.mem[bad] = some(err(vfield(x, "Err", "0")) if res == "Ok" else NONE)
            tgt["breaks"].append((n, UNIT))
        s.pc = b_and(s.pc, c)
        if not s.dead:
            I.store(ref(acc), push(I.load(ref(acc), s), vfield(x, res, "0")), s)
    iterate(I, itv, st, fr, e, step)
    if st.dead:
        return BOT
    b = st.mem[bad]
    good = adt(t["p"], res, (("0", st.mem[acc]),))
    return ite(isv(b, "Some"), vfield(b, "Some", "0"), good)


@model("Iterator::unzip")
def _unzip(I, f, args, st, fr, e):
    from interp import ref
    itv = toit(I, args[0], st, fr, e)
    a, b = I.newloc("acc"), I.newloc("acc")
    st.mem[a] = EMPTY
    st.mem[b] = EMPTY

    def step(x, s, t):
        I.store(ref(a), push(I.load(ref(a), s), field(x, "0")), s)
        I.store(ref(b), push(I.load(ref(b), s), field(x, "1")), s)
    iterate(I, itv, st, fr, e, step)
    return tup(st.mem[a], st.mem[b]) if not st.dead else BOT


@model("Extend::extend", "vec::extend")
def _extend(I, f, args, st, fr, e):
    itv = toit(I, args[1], st, fr, e)
    s = whole(I, itv)
    if s is not None:
        I.store(args[0], cat([ld(I, args[0], st), s]), st)
        return UNIT
    iterate(I, itv, st, fr, e, lambda x, s, t: I.store(args[0], push(I.load(args[0], s), x), s))
    return UNIT


def accum(init, fn):
    def m(I, f, args, st, fr, e):
        from interp import ref
        itv = toit(I, args[0], st, fr, e)
        s = whole(I, itv)
        if s is not None and f["name"] == "sum":
            return seqsum(s, I)
        acc = I.newloc("acc")
        st.mem[acc] = init

        def step(x, s, t):
            x = I.load(x, s)
            if getattr(I, "lcnum", False):
                x = var_num(x)
            I.store(ref(acc), fn(I.load(ref(acc), s), x), s)
        iterate(I, itv, st, fr, e, step)
        return st.mem[acc] if not st.dead else BOT
    return m


def seqsum(s, I=None):
    if s.op == "lst":
        r = ZERO
        for x in s.args[0]:
            r = padd(r, var_num(x) if I is not None and getattr(I, "lcnum", False) else x)
        return r
    if s.op == "cat":
        r = ZERO
        for x in s.args[0]:
            r = padd(r, seqsum(x, I))
        return r
    k = fresh()
    x = at(s, k)
    return sumk(slen(s), k, var_num(x) if I is not None and getattr(I, "lcnum", False) else x)


MODELS["Iterator::sum"] = accum(ZERO, padd)
MODELS["Sum::sum"] = accum(ZERO, padd)
MODELS["Iterator::product"] = accum(ONE, pmul)


@model("Iterator::fold")
def _fold(I, f, args, st, fr, e):
    from interp import ref
    itv = toit(I, args[0], st, fr, e)
    acc = I.newloc("acc")
    st.mem[acc] = args[1]

    def step(x, s, t):
        v = I.apply(args[2], [I.load(ref(acc), s), x], s, fr, e)
        if not s.dead:
            I.store(ref(acc), v, s)
    iterate(I, itv, st, fr, e, step)
    return st.mem[acc] if not st.dead else BOT


@model("Iterator::for_each")
def _foreach(I, f, args, st, fr, e):
    itv = toit(I, args[0], st, fr, e)
    iterate(I, itv, st, fr, e, lambda x, s, t: I.apply(args[1], [x], s, fr, e))
    return UNIT


@model("Iterator::try_for_each")
def _tryforeach(I, f, args, st, fr, e):
    itv = toit(I, args[0], st, fr, e)
    bad = I.newloc("bad")
    st.mem[bad] = ok(UNIT)

    def step(x, s, tgt):
        r = I.apply(args[1], [x], s, fr, e)
        if s.dead:
            return
        c = restrict(isv(r, "Ok"), s.pc)
        n = s.copy()
        n.pc = b_and(s.pc, b_not(c))
        if not n.dead:
            n.mem[bad] = err(vfield(r, "Err", "0"))
            tgt["breaks"].append((n, UNIT))
        s.pc = b_and(s.pc, c)
    iterate(I, itv, st, fr, e, step)
    return st.mem[bad] if not st.dead else BOT


def quant(neg):
    def m(I, f, args, st, fr, e):
        itv = toit(I, args[0], st, fr, e)
        d, p = parts(itv)
        n = d_len(I, d, st)
        if p is not ZERO:
            n = psub(n, p)
        nv = numval(n)
        if nv is not None and nv <= 32:
            r = FALSE
            for i in range(nv):
                x = d_at(I, d, padd(p, num(i)), st, fr, e)
                if st.dead:
                    return BOT
                c = I.tobool(I.apply(args[1], [x], st, fr, e))
                r = b_or(r, b_not(c) if neg else c)
            return b_not(r) if neg else r
        k = fresh()
        I.ks.append(k)
        m_ = I.mark()
        try:
            s2 = st.copy()
            I.loopstack.append({"breaks": [], "conts": []})
            x = d_at(I, d, padd(p, k), s2, fr, e)
            c = I.tobool(I.apply(args[1], [x], s2, fr, e))
            skipped = I.loopstack.pop()["conts"]
            evs = I.trace[m_[0]:]
            del I.trace[m_[0]:]
        finally:
            I.ks.pop()
        if evs:
            from interp import Ev
            I.trace.append(Ev("loop", (k, n, evs), st.pc, e.get("sp"), fr.fn["p"], tuple(I.stack[-6:])))
        c = restrict(c, st.pc)
        body = b_not(c) if neg else c
        for s, _ in skipped:
            body = b_and(body, b_not(restrict(s.pc, st.pc)))
        r = exists(n, lam((k,), body))
        return b_not(r) if neg else r
    return m


MODELS["Iterator::all"] = quant(True)
MODELS["Iterator::any"] = quant(False)


@model("Iterator::count")
def _count(I, f, args, st, fr, e):
    itv = toit(I, args[0], st, fr, e)
    s = whole(I, itv)
    if s is not None:
        return slen(s)
    return None


@model("Iterator::last")
def _ilast(I, f, args, st, fr, e):
    s = whole(I, toit(I, args[0], st, fr, e))
    if s is None:
        return None
    n = slen(s)
    return ite(eq0(n), NONE, some(at(s, psub(n, ONE))))


@model("Iterator::nth")
def _nth(I, f, args, st, fr, e):
    if args[0].op != "ref":
        return None
    r = I.through(args[0], st)
    v = ld(I, r, st)
    if isrange(v):
        v = toit(I, v, st, fr, e)
    if not isit(v):
        return None
    d, p = parts(v)
    if not pure_d(d):
        return None
    s = d.args[0]
    I.store(r, mkit(d, padd(padd(p, args[1]), ONE)), st)
    i = padd(p, args[1])
    return ite(i_lt(i, slen(s)), some(at(s, i)), NONE)


@model("Iterator::max", "Iterator::min")
def _imax(I, f, args, st, fr, e):
    from interp import ref
    itv = toit(I, args[0], st, fr, e)
    s = whole(I, itv)
    if s is None:
        acc = I.newloc("acc")
        st.mem[acc] = EMPTY
        iterate(I, itv, st, fr, e, lambda x, s2, t: I.store(ref(acc), push(I.load(ref(acc), s2), I.load(x, s2)), s2))
        if st.dead:
            return BOT
        s = st.mem[acc]
    s = I.pure(s, st)
    t = I.strip(fr, e["t"])
    el = I.strip(fr, t["a"][0]) if t["k"] == "adt" and t.get("a") else t
    if el["k"] == "prim" and el["s"].startswith("u"):
        if f["name"] == "max":
            m = seqmax(s)
        else:
            m = seqmin(s)
    else:
        m = app("seq" + f["name"], s)
    return ite(eq0(slen(s)), NONE, some(m))


def seqmax(s):
    if s.op == "lst":
        r = ZERO
        for x in s.args[0]:
            r = smax(r, x)
        return r
    if s.op == "cat":
        r = ZERO
        for x in s.args[0]:
            r = smax(r, seqmax(x))
        return r
    k = fresh()
    return maxk(slen(s), lam((k,), at(s, k)))


def seqmin(s):
    if s.op == "lst" and s.args[0]:
        r = s.args[0][0]
        for x in s.args[0][1:]:
            r = smin(r, x)
        return r
    return app("seqmin", s)


# ------------------------------------------------------------------ merlin
TR = {}


@model("transcript::append_message")
def _tam(I, f, args, st, fr, e):
    s = ld(I, args[0], st)
    lab, v = I.pure(args[1], st), I.pure(args[2], st)
    I.ev("tr", (lab, v), st, e.get("sp"), fr)
    I.store(args[0], mk("tr", s, lab, v), st)
    return UNIT


@model("transcript::append_u64")
def _tau(I, f, args, st, fr, e):
    s = ld(I, args[0], st)
    lab, v = I.pure(args[1], st), app("u64", I.pure(args[2], st))
    I.ev("tr", (lab, v), st, e.get("sp"), fr)
    I.store(args[0], mk("tr", s, lab, v), st)
    return UNIT


@model("transcript::challenge_bytes")
def _tcb(I, f, args, st, fr, e):
    s = ld(I, args[0], st)
    lab = I.pure(args[1], st)
    n = slen(ld(I, args[2], st))
    c = app("chal", s, lab, n)
    I.ev("chal", (lab, c, s), st, e.get("sp"), fr)
    I.store(args[0], mk("trc", s, lab, n), st)
    I.store(args[2], c, st)
    return UNIT


@model("transcript::new")
def _tn(I, f, args, st, fr, e):
    return mk("trnew", I.pure(args[0], st))


# ------------------------------------------------------------------ ark-serialize (values)
@model("CanonicalSerialize::serialize_compressed", "CanonicalSerialize::serialize_uncompressed", "CanonicalSerialize::serialize_with_mode")
def _ser(I, f, args, st, fr, e):
    if f["name"] == "serialize_with_mode" and (f.get("r") or "") in I.prog.fns:
        return None
    v = I.pure(args[0], st)
    mode = args[2] if len(args) > 2 else mk("str", f["name"].split("_")[1])
    b = mk("ser", v, mode)
    w = args[1]
    I.ev("ser", (v, mode), st, e.get("sp"), fr)
    if w.op == "ref":
        I.store(w, cat([ld(I, w, st), b]), st)
    return ok(UNIT)


@model("CanonicalSerialize::serialized_size", "CanonicalSerialize::compressed_size", "CanonicalSerialize::uncompressed_size")
def _sersz(I, f, args, st, fr, e):
    if (f.get("r") or "") in I.prog.fns:
        return None
    return app("size", I.pure(args[0], st))


@model("PrimeField::from_le_bytes_mod_order")
def _fle(I, f, args, st, fr, e):
    return app("from_le_bytes_mod", I.pure(args[0], st))


# ------------------------------------------------------------------ rayon
@model("join::join")
def _join(I, f, args, st, fr, e):
    a = I.apply(args[0], [], st, fr, e)
    if st.dead:
        return BOT
    b = I.apply(args[1], [], st, fr, e)
    return tup(a, b)


@model("scope::scope", "scope::in_place_scope")
def _scope(I, f, args, st, fr, e):
    return I.apply(args[0], [app("scope")], st, fr, e)


@model("scope::spawn")
def _spawn(I, f, args, st, fr, e):
    I.apply(args[1], [args[0]], st, fr, e)
    return UNIT


@model("FnOnce::call_once", "Fn::call", "FnMut::call_mut")
def _callonce(I, f, args, st, fr, e):
    a = args[1]
    xs = list(a.args[0]) if a.op == "tup" else [a]
    return I.apply(args[0], xs, st, fr, e)


@model("rt::new", "fmt::write_fmt", "stdio::_print", "stdio::_eprint", "rt::new_display", "rt::new_debug", "fmt::new", "rt::from_str",
       "fmt::from_str", "fmt::format", "rt::new_v1", "rt::new_const")
def _fmt(I, f, args, st, fr, e):
    return app("fmt")


@model("alloc::Global")
def _glob(I, f, args, st, fr, e):
    return UNIT


@model("boxed::new_uninit")
def _nu(I, f, args, st, fr, e):
    return BOT


@model("intrinsics::write_box_via_move")
def _wb(I, f, args, st, fr, e):
    return args[1]


# ------------------------------------------------------------------ points
def ptcoord(n):
    def m(I, f, args, st, fr, e):
        p = ld(I, args[0], st)
        if p is ZERO:
            return NONE
        return ite(eq0(p), NONE, some(app(n, p)))
    return m


MODELS["AffineRepr::x"] = ptcoord("xcoord")
MODELS["AffineRepr::y"] = ptcoord("ycoord")


@model("AffineRepr::xy")
def _xy(I, f, args, st, fr, e):
    p = ld(I, args[0], st)
    return ite(eq0(p), NONE, some(tup(app("xcoord", p), app("ycoord", p))))


# ------------------------------------------------------------------ hashing: a state is (function, bytes absorbed), an
# extendable-output reader is (function, bytes absorbed, position)
HASH = "$hash"


def _hstate(I, a, st, f, fr):
    v = ld(I, a, st)
    if v.op == "adt" and v.args[0] == HASH:
        return v
    if v is ZERO and "self" in f:
        v = mk("str", tname(I, fr, f["self"]))
    return adt(HASH, "state", (("fn", v), ("data", EMPTY)))


def _habsorb(I, f, args, st, fr, e):
    v = _hstate(I, args[0], st, f, fr)
    d = cat([field(v, "data"), I.pure(ld(I, args[1], st), st)])
    return adt(HASH, "state", (("fn", field(v, "fn")), ("data", d)))


@model("Digest::new")
def _hnew(I, f, args, st, fr, e):
    return adt(HASH, "state", (("fn", mk("str", tname(I, fr, f["self"]))), ("data", EMPTY)))


@model("Digest::update", "Update::update", "Mac::update")
def _hupd(I, f, args, st, fr, e):
    I.store(args[0], _habsorb(I, f, args, st, fr, e), st)
    return UNIT


@model("Digest::chain_update", "Update::chain", "Mac::chain_update")
def _hchain(I, f, args, st, fr, e):
    return _habsorb(I, f, args, st, fr, e)


@model("Digest::finalize", "FixedOutput::finalize_fixed")
def _hfin(I, f, args, st, fr, e):
    v = _hstate(I, args[0], st, f, fr)
    return app("digest", field(v, "fn"), field(v, "data"))


@model("Digest::digest")
def _hdig(I, f, args, st, fr, e):
    return app("digest", mk("str", tname(I, fr, f["self"])), I.pure(ld(I, args[0], st), st))


@model("ExtendableOutputDirty::finalize_xof_dirty", "ExtendableOutput::finalize_xof", "ExtendableOutputReset::finalize_xof_reset")
def _hxof(I, f, args, st, fr, e):
    v = _hstate(I, args[0], st, f, fr)
    return adt(HASH, "reader", (("fn", field(v, "fn")), ("data", field(v, "data")), ("pos", ZERO)))


@model("XofReader::read")
def _hread(I, f, args, st, fr, e):
    v = ld(I, args[0], st)
    if not (v.op == "adt" and v.args[0] == HASH and v.args[1] == "reader"):
        if v.op != "adt" or v.args[0] != HASH:
            v = adt(HASH, "reader", (("fn", field(v, "fn")), ("data", field(v, "data")), ("pos", field(v, "pos"))))
    n = slen(ld(I, args[1], st))
    p = field(v, "pos")
    I.store(args[1], mapk(n, lambda k: app("xof", field(v, "fn"), field(v, "data"), padd(p, k))), st)
    I.store(args[0], adt(HASH, "reader", (("fn", field(v, "fn")), ("data", field(v, "data")), ("pos", padd(p, n)))), st)
    return UNIT


def byteof(w, order, x, k):
    """byte k of the w-byte encoding of x"""
    if order == "be":
        k = psub(num(w - 1), k)
    vx, vk = numval(x), numval(k)
    if isinstance(vx, int) and isinstance(vk, int):
        return num(vx >> (8 * vk) & 255)
    return app("byte", trunc(8 * w, x), k)


def _hwrite(w):
    def m(I, f, args, st, fr, e):
        s = I.strip(fr, f["self"])
        name = s.get("p", "") if s["k"] == "adt" else ""
        order = "le" if "Little" in name else "be" if "Big" in name else None
        if order is None:
            return None
        old = ld(I, args[0], st)
        x = args[1]
        new = [byteof(w, order, x, num(k)) for k in range(w)]
        for k, b in enumerate(new):
            old = upd(old, num(k), b)
        I.store(args[0], old, st)
        return UNIT
    return m


@model("num::to_le_bytes", "num::to_be_bytes")
def _tobytes(I, f, args, st, fr, e):
    w = BITS.get(I.ty(fr, f["iself"])["s"]) if f.get("iself") is not None else None
    if w is None:
        return None
    x = ld(I, args[0], st)
    return lst([byteof(w // 8, f["name"][3:5], x, num(k)) for k in range(w // 8)])


for _w in (16, 32, 64):
    MODELS["ByteOrder::write_u%d" % _w] = _hwrite(_w // 8)
