"""Both feature configurations are type-checked and compared. A function whose typed body (types by name, variables by first appearance,
positions left out) is the same in both is equal by congruence. The functions that differ are interpreted in both configurations on the
same inputs and compared: the prover of the proof system call by call (transcript states at every draw, proof, condition of success) on
fixed sequences of calls; the provers of single and batched paths on explicit trees; the prover of a payment, the verifiers of a pour and of
a signed transaction on explicit trees: results, conditions of completion, the statements recorded on each constraint system in order, and
signatures, keys and byte strings checked or made. Parallel tasks (closures handed to rayon and what they call) may not change state through
locks, cells or atomics."""
import re
from protocol import *
from coins import *
from checks.c02 import flat, same_state
from checks.c21 import top
from checks.c23 import Honest, same
import numeric

RULE = "body(parallel) = body(serial), or driver(parallel) = driver(serial) with every differing function reached by a driver; no lock/cell/atomic update in a parallel task"
FLOOR = 300
JOINT = True
ASSUMPTIONS = ["the parallel features of the arkworks crates do not change values", "rayon runs every task to completion before join / scope return, and panics when one panics"]
TY = {"t", "iself", "self", "rs", "st"}
WORK = re.compile(r"^(rayon|rayon_core)::|^std::thread::.*spawn")
SHARED = re.compile(r"^(std|core|alloc|parking_lot|once_cell)::.*\b(sync|cell)::")
UPDATE = re.compile(r"^(lock|try_lock|write|try_write|fetch_\w+|store|swap|compare_exchange\w*|borrow_mut|try_borrow_mut|set|replace|send|get_or_init|call_once)$")


# ------------------------------------------------------------------ typed bodies
def canon(prog, cr, x):
    ren = {}

    def ty(i):
        return prog.types[cr][i]["s"] if isinstance(i, int) and not isinstance(i, bool) else i

    def go(x, key=None):
        if isinstance(x, dict):
            return tuple((k, go(v, k)) for k, v in sorted(x.items()) if k != "sp")
        if isinstance(x, list):
            if key in ("a", "ra") and any(isinstance(i, int) for i in x) and all(isinstance(i, (int, dict)) for i in x):
                return tuple(ty(i) if isinstance(i, int) else go(i) for i in x)
            return tuple(go(v) for v in x)
        if key in TY and isinstance(x, int):
            return ty(x)
        if key in ("v", "l", "hid") or (isinstance(x, str) and re.fullmatch(r"\d+\.\d+", x)):
            return ren.setdefault((key if key == "l" else "v", x), "%s%d" % (key, len(ren)))
        return x
    return go(x)


def root(p):
    return re.sub(r"(::\{closure#\d+\})+$", "", p)


def bodies(ctx, A, B):
    """the functions that differ, by root"""
    diff, by = {}, {}
    for p in sorted(set(A.fns) | set(B.fns)):
        f = A.fns.get(p) or B.fns.get(p)
        g = A.fns.get(root(p)) or B.fns.get(root(p))
        if A.is_test(f) or (g and A.is_test(g)):
            continue
        a, b = A.fns.get(p), B.fns.get(p)
        by.setdefault(root(p), f["sp"])
        if a is None or b is None or canon(A, a["crate"], [a["params"], a["b"]]) != canon(B, b["crate"], [b["params"], b["b"]]):
            diff.setdefault(root(p), []).append(p)
    for p, sp in by.items():
        ctx.unit("function", p)
        if p not in diff:
            ctx.ob("body." + p, True, "same typed body in both configurations", sp)
    return diff, by


# ------------------------------------------------------------------ drivers
class Sides:
    """what one driver did in each configuration"""

    def __init__(self, ctx, key, where):
        self.ctx, self.key, self.where = ctx, key, where

    def eq(self, what, a, b, where=None):
        r = alike(a, b)
        self.ctx.ob("%s.%s" % (self.key, what), r, "%s: serial %s, parallel %s" % (what, text(a), text(b)) if r is not True else what + " agree", where or self.where)
        return r


def text(a):
    return show(a)[:200] if hasattr(a, "op") else str(a)[:200]


def draws(t):
    """the term with the draws of randomness named by their order only"""
    m = {}
    for x in subterms(t):
        if x.op == "rng":
            m[x] = mk("rng", *x.args[:-1], "") if isinstance(x.args[-1], str) else x
    return subst_term(t, m) if m else t


def alike(a, b):
    if a is b:
        return True
    if isinstance(a, (list, tuple)):
        if len(a) != len(b):
            return False
        rs = [alike(x, y) for x, y in zip(a, b)]
        return False if False in rs else None if None in rs else True
    if not hasattr(a, "op"):
        return a == b
    if cond_(a) or cond_(b):
        return conds(a, b)
    a, b = draws(a), draws(b)
    if a is b:
        return True
    if a.op == b.op == "tup":
        return alike(a.args[0], b.args[0])
    if a.op == b.op == "lst":
        return alike(list(a.args[0]), list(b.args[0]))
    if a.op == b.op == "adt":
        if a.args[:2] != b.args[:2]:
            return False
        return alike([v for k, v in a.args[2]], [v for k, v in b.args[2]])
    return same(a, b)


def cond_(t):
    return t is TRUE or t is FALSE or t.op == "ite" and all(l is TRUE or l is FALSE for l in leaves(t))


def conds(a, b):
    """conditions: the same decision; a difference counts when it depends only on the outcomes of third-party calls"""
    if a is b or implies(a, b) and implies(b, a):
        return True
    if not cond_(a) or not cond_(b):
        return None
    ext = lambda x: x.op == "bopq" or x.op == "isv" and x.args[0].op == "app"
    return False if all(ext(x) for x in set(bdd_atoms(a)) | set(bdd_atoms(b))) else None


def protocol(ctx, A, B, sc, seen):
    key = "prove." + sc.name
    ps = []
    for prog in (A, B):
        numeric.set_variants(prog)
        p = Pair(prog, sc)
        p.prove()
        seen[prog] |= p.P.I.analysed
        p.pch = [e.data for e, c in events(p.P.trace) if e.kind == "chal"]
        ps.append(p)
    a, b = ps
    S = Sides(ctx, key, method(A, "prove", "Prover")["sp"])
    if len(a.pch) != len(b.pch):
        return ctx.ob(key + ".draws", False, "%d and %d challenges" % (len(a.pch), len(b.pch)), S.where)
    m = {}
    for i, (x, y) in enumerate(zip(a.pch, b.pch)):
        v, why = same_state(x[2], subst_term(y[2], m))
        ctx.ob("%s.draw%d" % (key, i), v, ("state before draw %d (%s): serial / parallel %s" % (i, show(x[0]), why)).replace("prover", "serial").replace("verifier", "parallel"), S.where)
        if v is not True:
            return
        if x[1] is not y[1]:
            m[y[1]] = x[1]
    S.eq("completes", a.pok, subst_term(b.pok, m))
    for i, x in enumerate(a.proof.args[2] if a.proof.op == "adt" else ()):
        S.eq("proof." + x[0], x[1], subst_term(b.proof.args[2][i][1], m))


def steps(lg, cid):
    out = []
    for k, d, g, sp in lg:
        if d and d[0] is mk("str", cid):
            out.append((k, d[1:], g, sp))
    return out


def recorded(S, what, a, b):
    """two logs of statements"""
    na, nb = [x[0] for x in a], [x[0] for x in b]
    where = next((x[3] for x in b), S.where)
    if na != nb:
        return S.ctx.ob("%s.%s" % (S.key, what), False, "serial records %s, parallel %s" % (na, nb), where)
    for n, (x, y) in enumerate(zip(a, b)):
        for u, v in list(zip(x[1], y[1])) + [(x[2], y[2])]:
            r = alike(u, v)
            if r is not True:
                return S.ctx.ob("%s.%s" % (S.key, what), r, "step %d (%s): serial %s, parallel %s" % (n, x[0], text(u), text(v)), y[3])
    S.ctx.ob("%s.%s" % (S.key, what), True, "%d steps agree" % len(a), where)


def calls(r):
    """third-party calls of the run"""
    out = []
    for e, loops in events(r.trace):
        if e.kind in ("sigverify", "sign", "decode"):
            if loops:
                raise Gap(e.kind + " in a loop")
            g = restrict(e.guard, r.st.pc)
            if g is not FALSE:
                out.append((e.kind, tuple(restrict(x, r.st.pc) for x in e.data), g, e.sp))
    return sorted(out, key=lambda x: x[0])


def paths_(ctx, A, B, key, L, M, h, idx, batched, seen):
    hs = []
    for prog in (A, B):
        numeric.set_variants(prog)
        H = Honest(prog, L, M, h, idx, batched=batched)
        seen[prog] |= set(H.r.I.analysed)
        hs.append(H)
    a, b = hs
    S = Sides(ctx, key, a.f["sp"])
    S.eq("completes", a.pc, b.pc)
    S.eq("path", a.path, b.path)
    S.eq("scalars", a.scalars, b.scalars)
    for s in ("even", "odd"):
        recorded(S, s, steps(a.lg, s), steps(b.lg, s))


def payments(ctx, A, B, key, L, h, idx, seen):
    ps = []
    for prog in (A, B):
        numeric.set_variants(prog)
        P = Payment(prog, L, h, idx)
        seen[prog] |= set(P.r.I.analysed)
        ps.append(P)
    a, b = ps
    S = Sides(ctx, key, a.f["sp"])
    S.eq("completes", a.pc, b.pc)
    S.eq("transaction", a.tx, b.tx)
    for s in ("even", "odd"):
        recorded(S, s, steps(a.lg, s), steps(b.lg, s))
    recorded(S, "signing", calls(a.r), calls(b.r))


def verifiers(ctx, A, B, key, h, tx, seen):
    rs = []
    for prog in (A, B):
        numeric.set_variants(prog)
        par, sides = parameters(prog)
        T = Tree(prog, 2, 1, h, params=sides, shape=top(h, 2, 1))
        pour, _ = sym_pour(prog, h)
        if tx:
            f, _, r = run_tx(prog, pour, T, par, sides, 2)
        else:
            f, r = run_pour(prog, pour, T, par, sides, 2)
        seen[prog] |= set(r.I.analysed)
        lg = log(r)
        names = sides_of(lg, pour)
        m = {mk("str", k): mk("str", v) for k, v in names.items()}
        rs.append((f, swap(lg, names), subst_term(r.st.pc, m), subst_term(restrict(r.pval, r.st.pc), m), sorted(names.values()), calls(r)))
    (f, la, pa, va, na, ca), (_, lb, pb, vb, nb, cb) = rs
    S = Sides(ctx, key, f["sp"])
    S.eq("proofs", na, nb)
    S.eq("completes", pa, pb)
    S.eq("result", va, vb)
    for s in ("even", "odd"):
        recorded(S, s, steps(la, s), steps(lb, s))
    recorded(S, "signatures", ca, cb)


# ------------------------------------------------------------------ parallel tasks
def nodes(x):
    if isinstance(x, dict):
        yield x
        for v in x.values():
            yield from nodes(v)
    elif isinstance(x, list):
        for v in x:
            yield from nodes(v)


def called(f):
    for d in nodes(f["b"]):
        if isinstance(d.get("p"), str) and "name" in d:
            yield d["p"], d["name"]


def tasks(ctx, B):
    """the closures of functions that start parallel work, and all they call"""
    starts = {root(p) for p, f in B.fns.items() if not B.is_test(f) and any(WORK.search(q) for q, n in called(f))}
    todo = [p for p in B.fns if root(p) in starts and p != root(p)]
    seen = set()
    while todo:
        p = todo.pop()
        if p in seen:
            continue
        seen.add(p)
        todo.extend(q for q in B.fns if q.startswith(p + "::{closure"))
        todo.extend(q for q, n in called(B.fns[p]) if q in B.fns)
    for s in sorted(starts):
        ctx.unit("function with parallel tasks", s)
    bad = 0
    for p in sorted(seen):
        ctx.unit("function run in parallel tasks", p)
        for d in nodes(B.fns[p]["b"]):
            if isinstance(d.get("p"), str) and SHARED.search(d["p"]) and UPDATE.match(d.get("name", "")):
                bad += 1
                ctx.ob("tasks.%s.%s" % (p, d["name"]), False, "%s is called in a parallel task: its effect depends on the schedule" % d["p"], B.fns[p]["sp"])
    ctx.ob("tasks", None if bad else True, "%d functions start parallel tasks; %d functions run in them; %d updates of shared state" % (len(starts), len(seen), bad), "")


def run(ctx):
    A, B = ctx.progs["serial"], ctx.progs["parallel"]
    th = ctx.tier == "thorough"
    diff, by = bodies(ctx, A, B)
    tasks(ctx, B)
    seen = {A: set(), B: set()}
    for sc in scenarios(ctx.tier):
        with ctx.guard("prove." + sc.name):
            protocol(ctx, A, B, sc, seen)
    for L, M, h, idx, b in [(2, 1, h, (i % 2 ** h,), False) for h in (1, 2, 3, 4, 5, 6) for i in (0, 0x2a, 0x3f)] + [(3, 1, 2, (7,), False), (3, 1, 3, (11,), False)] + \
            [(2, 2, h, (0, 2 ** h - 1), True) for h in (1, 2, 3, 4, 5)] + [(2, 1, h, (2 ** h - 1,), True) for h in (1, 2, 3, 4, 5)] + [(2, 3, 2, (0, 3, 1), True), (3, 2, 3, (4, 22), True)] + \
            ([(2, 3, 4, (3, 9, 14), True), (4, 2, 3, (60, 1), True), (2, 4, 3, (0, 7, 2, 5), True), (4, 1, 4, (201,), False), (2, 1, 8, (0xa5,), False)] if th else []):
        key = "path.L%d_M%d_h%d_%s%s" % (L, M, h, "_".join(map(str, idx)), "_batched" if b else "")
        with ctx.guard(key):
            paths_(ctx, A, B, key, L, M, h, idx, b, seen)
    for L, h, idx in [(2, 1, (0, 1)), (2, 2, (1, 2)), (2, 3, (5, 6)), (3, 2, (4, 8)), (2, 4, (0, 15))] + ([(2, 5, (31, 8)), (4, 2, (3, 7))] if th else []):
        key = "payment.L%d_h%d_%d_%d" % (L, h, *idx)
        with ctx.guard(key):
            payments(ctx, A, B, key, L, h, idx, seen)
    for h in range(1, 7) if not th else range(1, 12):
        for tx in (False, True):
            key = "%s.h%d" % ("tx" if tx else "pour", h)
            with ctx.guard(key):
                verifiers(ctx, A, B, key, h, tx, seen)
    for p, ps in sorted(diff.items()):
        ok_ = all(root(q) in {root(x) for x in seen[P]} for P in (A, B) for q in [p] if q in P.fns)
        ctx.unit("function that differs", p)
        ctx.ob("differs." + p, True if ok_ else None, "differs between the configurations; %s" % ("reached by the drivers in each that has it" if ok_ else "no driver reaches it"), by[p])
