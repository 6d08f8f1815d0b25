"""Sharing between threads is decided by the compiler from the parts of a type, unless the source overrules it. Every place
where the source can overrule it is enumerated in the type-checked program: manual implementations of Send or Sync (for each
of their fields the trait solver is asked, under exactly the bounds of that implementation, whether the field's type has the
trait), reinterpretations (transmute, raw pointer casts) whose target type has an auto trait the source type lacks, pointers
rebuilt from integers, and mutable statics. Every public or internal type of both crates is one obligation per trait."""
from rules import *

RULE = "no manual Send/Sync implementation covers a component lacking the trait; no reinterpretation adds Send/Sync; no shared mutable static"
FLOOR = 120
ASSUMPTIONS = ["rustc derives Send and Sync correctly for types without a manual implementation"]
TR = ("core::marker::Send", "core::marker::Sync")


def run(ctx):
    for cfg, prog in ctx.configs():
        with ctx.guard(cfg):
            one(ctx, prog, cfg)


def one(ctx, prog, cfg):
    man = {}
    for a in prog.autos:
        t = a["trait"].replace("std::", "core::")
        man.setdefault((a["self"], t.split("::")[-1]), []).append(a)
    for a in prog.adts.values():
        if not a.get("local"):
            continue
        ctx.unit("type", a["p"])
        for t in ("Send", "Sync"):
            key = "%s.%s.%s" % (cfg, a["p"], t)
            ms = man.get((a["p"], t), [])
            if not ms:
                ctx.ob(key, True, "derived by the compiler from the parts", a.get("sp"))
            for m in ms:
                bad = [f for f in m["fields"] if not f[2]]
                ctx.ob(key, not bad, "manual implementation; parts without the trait: %s" % "; ".join("%s: %s" % (f[0], f[1]) for f in bad) if bad
                       else "manual implementation; every part has the trait under its bounds", m["sp"])
    for p in set(a["self"] for a in prog.autos):
        if not prog.adts.get(p, {}).get("local"):
            ctx.ob("%s.%s" % (cfg, p), False, "a manual auto-trait implementation for a type of another crate", p)
    n = 0
    for f in prog.fns.values():
        if prog.is_test(f):
            continue
        ctx.unit("function", f["p"])
        key = "%s.reinterpretation.%s" % (cfg, f["p"])
        if f["kind"].startswith("Static"):
            ctx.ob("%s.static.%s" % (cfg, f["p"]), "Mut" not in f["kind"].replace("Not", ""), "static item %s" % f["kind"], f["sp"])
        for e in exprs(f["b"]):
            n += 1
            for t, a, b, sa, sb in e.get("auto") or ():
                ctx.ob("%s.%s.%s" % (key, t.split("::")[-1], e.get("sp", "")), not (b and not a), "%s is reinterpreted as %s, which %s %s" % (sa, sb, "gains" if b and not a else "does not gain", t), e.get("sp") or f["sp"])
            if e["k"] == "cast" and prog.ty(f["crate"], e["t"])["k"] == "ptr" and prog.ty(f["crate"], e["from"])["k"] == "prim":
                ctx.ob("%s.frominteger" % key, False, "a pointer is rebuilt from an integer", e.get("sp") or f["sp"])
            c = e.get("f") or {}
            if e["k"] == "call" and c.get("name") in ("with_exposed_provenance", "with_exposed_provenance_mut"):
                ctx.ob("%s.frominteger" % key, False, "a pointer is rebuilt from an integer", e.get("sp") or f["sp"])
    ctx.notes.append("%s: %d expressions searched" % (cfg, n))


def exprs(e):
    st = [e]
    while st:
        x = st.pop()
        if isinstance(x, dict):
            if "k" in x:
                yield x
            st.extend(v for v in x.values() if isinstance(v, (dict, list)))
        elif isinstance(x, list):
            st.extend(v for v in x if isinstance(v, (dict, list)))
