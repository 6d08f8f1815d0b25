//! A rustc driver that dumps the *type-checked* program (THIR: typed expression trees with resolved
//! callees, explicit adjustments, explicit patterns) of the crate being compiled as JSON.
//! It is injected with RUSTC_WORKSPACE_WRAPPER; it never changes what is compiled.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_ast;
extern crate rustc_driver;
extern crate rustc_driver_impl;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

mod json;
use json::J;
use rustc_driver_impl::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_middle::thir::*;
use rustc_middle::ty::{self, GenericArgKind, GenericArgsRef, Ty, TyCtxt};
use rustc_span::Span;
use std::collections::HashMap;

struct Dump<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<J>,
    tymap: HashMap<Ty<'tcx>, usize>,
    adts: HashMap<DefId, ()>,
    adtq: Vec<DefId>,
}

fn s(x: impl Into<String>) -> J {
    J::S(x.into())
}
fn n(x: usize) -> J {
    J::N(x as i128)
}

impl<'tcx> Dump<'tcx> {
    fn path(&self, d: DefId) -> String {
        let dp = self.tcx.def_path(d);
        format!("{}{}", self.tcx.crate_name(dp.krate), dp.to_string_no_crate_verbose())
    }
    fn span(&self, sp: Span) -> J {
        let sm = self.tcx.sess.source_map();
        let sp = sp.source_callsite();
        let loc = sm.lookup_char_pos(sp.lo());
        let f = match &loc.file.name {
            rustc_span::FileName::Real(r) => match r.local_path() {
                Some(p) => p.to_string_lossy().to_string(),
                None => "?".into(),
            },
            _ => "?".to_string(),
        };
        s(format!("{}:{}", f, loc.line))
    }
    fn adt(&mut self, d: DefId) {
        if self.adts.insert(d, ()).is_none() {
            self.adtq.push(d);
        }
    }
    fn gargs(&mut self, a: GenericArgsRef<'tcx>) -> J {
        let mut v = vec![];
        for g in a.iter() {
            match g.kind() {
                GenericArgKind::Type(t) => v.push(n(self.ty(t))),
                GenericArgKind::Const(c) => v.push(self.cst(c)),
                GenericArgKind::Lifetime(_) => {}
                #[allow(unreachable_patterns)]
                _ => {}
            }
        }
        J::A(v)
    }
    fn cst(&mut self, c: ty::Const<'tcx>) -> J {
        if let Some(v) = c.try_to_target_usize(self.tcx) {
            return J::O(vec![("c", J::N(v as i128))]);
        }
        match c.kind() {
            ty::ConstKind::Param(p) => J::O(vec![("cp", s(p.name.as_str()))]),
            k => J::O(vec![("cx", s(format!("{:?}", k)))]),
        }
    }
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(i) = self.tymap.get(&t) {
            return *i;
        }
        let j = self.ty_(t);
        if let Some(i) = self.tymap.get(&t) {
            return *i;
        }
        let i = self.types.len();
        self.types.push(j);
        self.tymap.insert(t, i);
        i
    }
    fn ty_(&mut self, t: Ty<'tcx>) -> J {
        let disp = s(format!("{}", t));
        let mut o = vec![("s", disp)];
        match t.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) | ty::Str | ty::Never => {
                o.push(("k", s("prim")));
            }
            ty::Adt(d, a) => {
                self.adt(d.did());
                o.push(("k", s("adt")));
                o.push(("p", s(self.path(d.did()))));
                o.push(("a", self.gargs(a)));
            }
            ty::Ref(_, t, m) => {
                o.push(("k", s("ref")));
                o.push(("m", J::B(m.is_mut())));
                o.push(("t", n(self.ty(*t))));
            }
            ty::RawPtr(t, m) => {
                o.push(("k", s("ptr")));
                o.push(("m", J::B(m.is_mut())));
                o.push(("t", n(self.ty(*t))));
            }
            ty::Slice(t) => {
                o.push(("k", s("slice")));
                o.push(("t", n(self.ty(*t))));
            }
            ty::Array(t, c) => {
                o.push(("k", s("array")));
                o.push(("t", n(self.ty(*t))));
                o.push(("n", self.cst(*c)));
            }
            ty::Tuple(ts) => {
                let v = ts.iter().map(|t| n(self.ty(t))).collect();
                o.push(("k", s("tuple")));
                o.push(("a", J::A(v)));
            }
            ty::Param(p) => {
                o.push(("k", s("param")));
                o.push(("p", s(p.name.as_str())));
            }
            ty::FnDef(d, a) => {
                o.push(("k", s("fndef")));
                o.push(("p", s(self.path(*d))));
                o.push(("a", self.gargs(a.skip_binder())));
            }
            ty::Closure(d, _) => {
                o.push(("k", s("closure")));
                o.push(("p", s(self.path(*d))));
            }
            ty::Alias(_, a) => {
                o.push(("k", s("alias")));
                if let Some(d) = alias_def(a) {
                    o.push(("p", s(self.path(d))));
                    o.push(("a", self.gargs(a.args)));
                }
            }
            ty::Dynamic(preds, ..) => {
                o.push(("k", s("dyn")));
                let mut v = vec![];
                for d in preds.principal_def_id().into_iter().chain(preds.auto_traits()) {
                    v.push(s(self.path(d)));
                }
                o.push(("traits", J::A(v)));
            }
            ty::FnPtr(..) => o.push(("k", s("fnptr"))),
            _ => o.push(("k", s("other"))),
        }
        J::O(o)
    }

    /// A description of a callee: which item, with which generic arguments, and what the compiler
    /// resolves it to in this (generic) context.
    fn callee(&mut self, d: DefId, args: GenericArgsRef<'tcx>, owner: LocalDefId) -> J {
        let tcx = self.tcx;
        let mut o = vec![("p", s(self.path(d))), ("name", s(tcx.item_name_opt(d)))];
        o.push(("a", self.gargs(args)));
        if let Some(t) = tcx.trait_of_assoc_compat(d) {
            o.push(("trait", s(self.path(t))));
            let st = args.type_at(0);
            o.push(("self", n(self.ty(st))));
        } else if let Some(im) = tcx.impl_of_assoc_compat(d) {
            let st = tcx.type_of(im).instantiate(tcx, args).skip_norm_wip();
            o.push(("iself", n(self.ty(st))));
            if let Some(tr) = tcx.impl_trait_of_compat(im) {
                o.push(("itrait", s(self.path(tr))));
            }
        }
        if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
            let env = ty::TypingEnv::post_analysis(tcx, owner);
            let eargs = tcx.erase_and_anonymize_regions(args);
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                ty::Instance::try_resolve(tcx, env, d, eargs)
            }));
            if let Ok(Ok(Some(i))) = r {
                let rd = i.def_id();
                if rd != d {
                    o.push(("r", s(self.path(rd))));
                    o.push(("ra", self.gargs(i.args)));
                    if let Some(im) = tcx.impl_of_assoc_compat(rd) {
                        let st = tcx.type_of(im).instantiate(tcx, i.args).skip_norm_wip();
                        o.push(("iself", n(self.ty(st))));
                    }
                }
            }
        }
        if let DefKind::Ctor(..) = tcx.def_kind(d) {
            o.push(("ctor", J::B(true)));
            let var = tcx.parent(d);
            let (adt, vname) = if tcx.def_kind(var) == DefKind::Variant {
                (tcx.parent(var), tcx.item_name(var).to_string())
            } else {
                (var, tcx.item_name(var).to_string())
            };
            self.adt(adt);
            o.push(("adt", s(self.path(adt))));
            o.push(("variant", s(vname)));
        }
        J::O(o)
    }
}

trait Compat {
    fn item_name_opt(&self, d: DefId) -> String;
    fn trait_of_assoc_compat(&self, d: DefId) -> Option<DefId>;
    fn impl_of_assoc_compat(&self, d: DefId) -> Option<DefId>;
    fn impl_trait_of_compat(&self, d: DefId) -> Option<DefId>;
}
impl<'tcx> Compat for TyCtxt<'tcx> {
    fn item_name_opt(&self, d: DefId) -> String {
        self.opt_item_name(d).map(|x| x.to_string()).unwrap_or_default()
    }
    fn trait_of_assoc_compat(&self, d: DefId) -> Option<DefId> {
        self.trait_of_assoc(d)
    }
    fn impl_of_assoc_compat(&self, d: DefId) -> Option<DefId> {
        self.impl_of_assoc(d)
    }
    fn impl_trait_of_compat(&self, d: DefId) -> Option<DefId> {
        self.impl_opt_trait_id(d)
    }
}
fn alias_def<'tcx>(a: &ty::AliasTy<'tcx>) -> Option<DefId> {
    match a.kind {
        ty::Projection { def_id } => Some(def_id),
        ty::Inherent { def_id } => Some(def_id),
        ty::Opaque { def_id } => Some(def_id),
        ty::Free { def_id } => Some(def_id),
    }
}

struct Body<'a, 'tcx> {
    d: &'a mut Dump<'tcx>,
    th: &'a Thir<'tcx>,
    owner: LocalDefId,
}

impl<'a, 'tcx> Body<'a, 'tcx> {
    fn var(&self, v: LocalVarId) -> J {
        J::S(format!("{}.{}", v.0.owner.def_id.local_def_index.as_u32(), v.0.local_id.as_u32()))
    }
    fn fieldname(&self, t: Ty<'tcx>, vi: rustc_abi::VariantIdx, f: rustc_abi::FieldIdx) -> String {
        match t.kind() {
            ty::Adt(a, _) => a.variant(vi).fields[f].name.to_string(),
            _ => format!("{}", f.as_u32()),
        }
    }
    fn pat(&mut self, p: &Pat<'tcx>) -> J {
        let mut o: Vec<(&'static str, J)> = vec![];
        match &p.kind {
            PatKind::Wild | PatKind::Missing | PatKind::Never | PatKind::Error(_) => o.push(("k", s("wild"))),
            PatKind::Binding { name, mode, var, subpattern, ty, .. } => {
                o.push(("k", s("bind")));
                o.push(("name", s(name.as_str())));
                o.push(("v", self.var(*var)));
                let byref = match mode.0 {
                    rustc_hir::ByRef::No => 0,
                    rustc_hir::ByRef::Yes(_, m) => if m.is_mut() { 2 } else { 1 },
                };
                o.push(("ref", J::N(byref)));
                o.push(("t", n(self.d.ty(*ty))));
                if let Some(sp) = subpattern {
                    let j = self.pat(sp);
                    o.push(("sub", j));
                }
            }
            PatKind::Variant { adt_def, variant_index, subpatterns, .. } => {
                let v = adt_def.variant(*variant_index);
                o.push(("k", s("variant")));
                o.push(("adt", s(self.d.path(adt_def.did()))));
                self.d.adt(adt_def.did());
                o.push(("vn", s(v.name.as_str())));
                let mut fs = vec![];
                for fp in subpatterns {
                    let j = self.pat(&fp.pattern);
                    fs.push(J::A(vec![s(v.fields[fp.field].name.as_str()), j]));
                }
                o.push(("f", J::A(fs)));
            }
            PatKind::Leaf { subpatterns } => {
                o.push(("k", s("leaf")));
                let mut fs = vec![];
                for fp in subpatterns {
                    let nm = self.fieldname(p.ty, rustc_abi::VariantIdx::from_u32(0), fp.field);
                    let j = self.pat(&fp.pattern);
                    fs.push(J::A(vec![s(nm), j]));
                }
                o.push(("f", J::A(fs)));
            }
            PatKind::Deref { subpattern, .. } | PatKind::DerefPattern { subpattern, .. } => {
                o.push(("k", s("deref")));
                let j = self.pat(subpattern);
                o.push(("sub", j));
            }
            PatKind::Constant { value } => {
                o.push(("k", s("const")));
                let val = match value.try_to_leaf() {
                    Some(sc) => J::N(sc.to_bits(sc.size()) as i128),
                    None => s(format!("{}", value)),
                };
                o.push(("val", val));
                o.push(("t", n(self.d.ty(p.ty))));
            }
            PatKind::Range(r) => {
                o.push(("k", s("range")));
                let lo = r.lo.as_finite().and_then(|v| v.try_to_leaf()).map(|sc| J::N(sc.to_bits(sc.size()) as i128));
                let hi = r.hi.as_finite().and_then(|v| v.try_to_leaf()).map(|sc| J::N(sc.to_bits(sc.size()) as i128));
                o.push(("lo", lo.unwrap_or(J::Null)));
                o.push(("hi", hi.unwrap_or(J::Null)));
                o.push(("incl", J::B(matches!(r.end, rustc_hir::RangeEnd::Included))));
            }
            PatKind::Slice { prefix, slice, suffix } | PatKind::Array { prefix, slice, suffix } => {
                o.push(("k", s("slice")));
                let a = prefix.iter().map(|p| self.pat(p)).collect();
                let b = suffix.iter().map(|p| self.pat(p)).collect();
                o.push(("pre", J::A(a)));
                o.push(("suf", J::A(b)));
                if let Some(m) = slice {
                    let j = self.pat(m);
                    o.push(("mid", j));
                }
            }
            PatKind::Or { pats } => {
                o.push(("k", s("or")));
                let a = pats.iter().map(|p| self.pat(p)).collect();
                o.push(("pats", J::A(a)));
            }
            PatKind::Guard { subpattern, condition } => {
                o.push(("k", s("guardpat")));
                let j = self.pat(subpattern);
                o.push(("sub", j));
                let c = self.expr(*condition);
                o.push(("cond", c));
            }
        }
        J::O(o)
    }
    fn block(&mut self, b: BlockId) -> J {
        let th = self.th;
        let blk = &th.blocks[b];
        let mut st = vec![];
        for sid in blk.stmts.iter() {
            match &th.stmts[*sid].kind {
                StmtKind::Expr { expr, .. } => {
                    let e = self.expr(*expr);
                    st.push(J::O(vec![("k", s("e")), ("e", e)]));
                }
                StmtKind::Let { pattern, initializer, else_block, .. } => {
                    let mut o = vec![("k", s("let"))];
                    let p = self.pat(pattern);
                    o.push(("pat", p));
                    if let Some(i) = initializer {
                        let e = self.expr(*i);
                        o.push(("init", e));
                    }
                    if let Some(b) = else_block {
                        let e = self.block(*b);
                        o.push(("else", e));
                    }
                    st.push(J::O(o));
                }
            }
        }
        let mut o = vec![("k", s("block")), ("st", J::A(st))];
        if let Some(e) = blk.expr {
            let j = self.expr(e);
            o.push(("e", j));
        }
        if blk.targeted_by_break {
            o.push(("scope", J::S(format!("{:?}", blk.region_scope.local_id))));
        }
        if matches!(blk.safety_mode, BlockSafety::ExplicitUnsafe(_)) {
            o.push(("unsafe", J::B(true)));
        }
        J::O(o)
    }
    /// for a reinterpretation of one type as another: [trait, holds for the source, holds for the target]
    fn auto_change(&mut self, a: Ty<'tcx>, b: Ty<'tcx>) -> J {
        let tcx = self.d.tcx;
        let env = ty::TypingEnv::non_body_analysis(tcx, self.owner.to_def_id());
        let mut v = vec![];
        for t in [tcx.get_diagnostic_item(rustc_span::sym::Send), tcx.lang_items().sync_trait()].into_iter().flatten() {
            v.push(J::A(vec![s(self.d.path(t)), J::B(holds(tcx, env, a, t)), J::B(holds(tcx, env, b, t)), s(format!("{}", a)), s(format!("{}", b))]));
        }
        J::A(v)
    }
    fn exprs(&mut self, es: &[ExprId]) -> J {
        J::A(es.iter().map(|e| self.expr(*e)).collect())
    }
    fn expr(&mut self, e: ExprId) -> J {
        let th = self.th;
        let ex = &th.exprs[e];
        let mut o: Vec<(&'static str, J)> = vec![];
        let mut sp = false;
        macro_rules! k { ($x:expr) => { o.push(("k", s($x))) } }
        macro_rules! sub { ($n:expr, $e:expr) => { { let j = self.expr($e); o.push(($n, j)); } } }
        match &ex.kind {
            ExprKind::Scope { region_scope, value, .. } => {
                // keep scopes only around loops/blocks that are break targets: recorded on the inner node
                let mut j = self.expr(*value);
                if let J::O(ref mut v) = j {
                    let isloop = v.iter().any(|(a, b)| *a == "k" && matches!(b, J::S(x) if x == "loop" || x == "block"));
                    if isloop {
                        v.push(("rs", J::S(format!("{:?}", region_scope.local_id))));
                    }
                }
                return j;
            }
            ExprKind::If { cond, then, else_opt, .. } => {
                k!("if");
                sub!("c", *cond);
                sub!("th", *then);
                if let Some(x) = else_opt {
                    sub!("e", *x);
                }
                sp = true;
            }
            ExprKind::Call { ty, fun, args, .. } => {
                k!("call");
                match ty.kind() {
                    ty::FnDef(d, a) => {
                        let c = self.d.callee(*d, a.skip_binder(), self.owner);
                        o.push(("f", c));
                        let nm = self.d.tcx.item_name_opt(*d);
                        if nm.starts_with("transmute") {
                            let ts: Vec<Ty<'tcx>> = a.skip_binder().types().collect();
                            if ts.len() == 2 {
                                let j = self.auto_change(ts[0], ts[1]);
                                o.push(("auto", j));
                            }
                        }
                    }
                    _ => {
                        sub!("fe", *fun);
                    }
                }
                let a = self.exprs(args);
                o.push(("args", a));
                sp = true;
            }
            ExprKind::ByUse { expr, .. } => return self.expr(*expr),
            ExprKind::Deref { arg } => {
                k!("deref");
                sub!("e", *arg);
            }
            ExprKind::Binary { op, lhs, rhs } => {
                k!("bin");
                o.push(("op", s(format!("{:?}", op))));
                sub!("l", *lhs);
                sub!("r", *rhs);
                sp = true;
            }
            ExprKind::LogicalOp { op, lhs, rhs } => {
                k!("logic");
                o.push(("op", s(format!("{:?}", op))));
                sub!("l", *lhs);
                sub!("r", *rhs);
            }
            ExprKind::Unary { op, arg } => {
                k!("un");
                o.push(("op", s(format!("{:?}", op))));
                sub!("e", *arg);
            }
            ExprKind::Cast { source } => {
                k!("cast");
                let ft = th.exprs[*source].ty;
                if let (ty::RawPtr(a, _), ty::RawPtr(b, _)) = (ft.kind(), ex.ty.kind()) {
                    if a != b {
                        let j = self.auto_change(*a, *b);
                        o.push(("auto", j));
                    }
                }
                o.push(("from", n(self.d.ty(ft))));
                sub!("e", *source);
            }
            ExprKind::ValueExpr { source }
            | ExprKind::PlaceTypeAscription { source, .. }
            | ExprKind::ValueTypeAscription { source, .. }
            | ExprKind::PlaceUnwrapUnsafeBinder { source }
            | ExprKind::ValueUnwrapUnsafeBinder { source }
            | ExprKind::WrapUnsafeBinder { source } => return self.expr(*source),
            ExprKind::NeverToAny { source } => {
                k!("never");
                sub!("e", *source);
            }
            ExprKind::PointerCoercion { source, cast, .. } => {
                k!("coerce");
                o.push(("c", s(format!("{:?}", cast))));
                sub!("e", *source);
            }
            ExprKind::Loop { body } => {
                k!("loop");
                sub!("b", *body);
                sp = true;
            }
            ExprKind::Let { expr, pat } => {
                k!("let");
                sub!("e", *expr);
                let p = self.pat(pat);
                o.push(("pat", p));
            }
            ExprKind::Match { scrutinee, arms, .. } => {
                k!("match");
                sub!("e", *scrutinee);
                let mut v = vec![];
                for a in arms.iter() {
                    let arm = &th.arms[*a];
                    let mut ao = vec![];
                    let p = self.pat(&arm.pattern);
                    ao.push(("pat", p));
                    if let Some(g) = arm.guard {
                        let g = self.expr(g);
                        ao.push(("guard", g));
                    }
                    let b = self.expr(arm.body);
                    ao.push(("b", b));
                    v.push(J::O(ao));
                }
                o.push(("arms", J::A(v)));
                sp = true;
            }
            ExprKind::Block { block } => {
                let mut j = self.block(*block);
                if let J::O(ref mut v) = j {
                    v.push(("t", n(self.d.ty(ex.ty))));
                }
                return j;
            }
            ExprKind::Assign { lhs, rhs } => {
                k!("assign");
                sub!("l", *lhs);
                sub!("r", *rhs);
            }
            ExprKind::AssignOp { op, lhs, rhs } => {
                k!("assignop");
                o.push(("op", s(format!("{:?}", op))));
                sub!("l", *lhs);
                sub!("r", *rhs);
                sp = true;
            }
            ExprKind::Field { lhs, variant_index, name } => {
                k!("field");
                let lt = th.exprs[*lhs].ty;
                o.push(("n", s(self.fieldname(lt, *variant_index, *name))));
                sub!("e", *lhs);
            }
            ExprKind::Index { lhs, index } => {
                k!("index");
                sub!("e", *lhs);
                sub!("i", *index);
                sp = true;
            }
            ExprKind::VarRef { id } => {
                k!("var");
                o.push(("v", self.var(*id)));
            }
            ExprKind::UpvarRef { var_hir_id, .. } => {
                k!("upvar");
                o.push(("v", self.var(*var_hir_id)));
            }
            ExprKind::Borrow { borrow_kind, arg } => {
                k!("borrow");
                o.push(("m", J::B(matches!(borrow_kind, rustc_middle::mir::BorrowKind::Mut { .. }))));
                sub!("e", *arg);
            }
            ExprKind::RawBorrow { arg, .. } => {
                k!("borrow");
                o.push(("m", J::B(true)));
                o.push(("raw", J::B(true)));
                sub!("e", *arg);
            }
            ExprKind::Break { label, value } => {
                k!("break");
                o.push(("l", J::S(format!("{:?}", label.local_id))));
                if let Some(v) = value {
                    sub!("e", *v);
                }
            }
            ExprKind::Continue { label } => {
                k!("continue");
                o.push(("l", J::S(format!("{:?}", label.local_id))));
            }
            ExprKind::Return { value } => {
                k!("return");
                if let Some(v) = value {
                    sub!("e", *v);
                }
                sp = true;
            }
            ExprKind::Repeat { value, count } => {
                k!("repeat");
                sub!("e", *value);
                let c = self.d.cst(*count);
                o.push(("n", c));
            }
            ExprKind::Array { fields } => {
                k!("array");
                let a = self.exprs(fields);
                o.push(("es", a));
            }
            ExprKind::Tuple { fields } => {
                k!("tuple");
                let a = self.exprs(fields);
                o.push(("es", a));
            }
            ExprKind::Adt(a) => {
                k!("adt");
                o.push(("p", s(self.d.path(a.adt_def.did()))));
                self.d.adt(a.adt_def.did());
                let v = a.adt_def.variant(a.variant_index);
                o.push(("vn", s(v.name.as_str())));
                let mut fs = vec![];
                for f in a.fields.iter() {
                    let j = self.expr(f.expr);
                    fs.push(J::A(vec![s(v.fields[f.name].name.as_str()), j]));
                }
                o.push(("f", J::A(fs)));
                if let AdtExprBase::Base(b) = &a.base {
                    sub!("base", b.base);
                }
                sp = true;
            }
            ExprKind::Closure(c) => {
                k!("closure");
                o.push(("p", s(self.d.path(c.closure_id.to_def_id()))));
                let a = self.exprs(&c.upvars);
                o.push(("up", a));
                sp = true;
            }
            ExprKind::Literal { lit, neg } => {
                k!("lit");
                use rustc_ast::LitKind::*;
                let v = match lit.node {
                    Str(sy, _) => J::O(vec![("str", s(sy.as_str()))]),
                    ByteStr(b, _) | CStr(b, _) => {
                        let bb: &[u8] = b.as_byte_str();
                        J::O(vec![("bytes", s(String::from_utf8_lossy(bb).to_string()))])
                    }
                    Byte(b) => J::N(b as i128),
                    Char(c) => J::O(vec![("char", s(c.to_string()))]),
                    Int(i, _) => {
                        let x = i.get() as i128;
                        J::N(if *neg { -x } else { x })
                    }
                    Float(f, _) => J::O(vec![("float", s(f.as_str()))]),
                    Bool(b) => J::B(b),
                    Err(_) => J::Null,
                };
                o.push(("v", v));
            }
            ExprKind::NonHirLiteral { lit, .. } => {
                k!("lit");
                o.push(("v", J::N(lit.to_bits(lit.size()) as i128)));
            }
            ExprKind::ZstLiteral { .. } => {
                k!("zst");
                if let ty::FnDef(d, a) = ex.ty.kind() {
                    let c = self.d.callee(*d, a.skip_binder(), self.owner);
                    o.push(("f", c));
                }
            }
            ExprKind::NamedConst { def_id, args, .. } => {
                k!("const");
                let c = self.d.callee(*def_id, args, self.owner);
                o.push(("f", c));
            }
            ExprKind::ConstParam { param, .. } => {
                k!("cparam");
                o.push(("p", s(param.name.as_str())));
            }
            ExprKind::ConstBlock { did, .. } => {
                k!("constblock");
                o.push(("p", s(self.d.path(*did))));
            }
            ExprKind::StaticRef { def_id, .. } => {
                k!("static");
                o.push(("p", s(self.d.path(*def_id))));
            }
            _ => {
                k!("unsupported");
                o.push(("dbg", s(format!("{:?}", ex.kind))));
            }
        }
        o.push(("t", n(self.d.ty(ex.ty))));
        if sp {
            o.push(("sp", self.d.span(ex.span)));
        }
        J::O(o)
    }
}

struct Cb;
impl Callbacks for Cb {
    fn config(&mut self, c: &mut rustc_interface::Config) {
        c.opts.unstable_opts.no_steal_thir = true;
        c.opts.trimmed_def_paths = false;
    }
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        dump(tcx);
        Compilation::Continue
    }
}

fn dump<'tcx>(tcx: TyCtxt<'tcx>) {
    let Ok(dir) = std::env::var("THIRDUMP_OUT") else { return };
    let krate = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
    let mut d = Dump { tcx, types: vec![], tymap: HashMap::new(), adts: HashMap::new(), adtq: vec![] };
    let mut fns = vec![];
    let mut errs = vec![];
    for owner in tcx.hir_body_owners() {
        let def = owner.to_def_id();
        let Ok((steal, root)) = tcx.thir_body(owner) else {
            errs.push(s(d.path(def)));
            continue;
        };
        let th = steal.borrow();
        let mut o: Vec<(&'static str, J)> = vec![("p", s(d.path(def)))];
        let kind = tcx.def_kind(def);
        o.push(("kind", s(format!("{:?}", kind))));
        o.push(("name", s(tcx.opt_item_name(def).map(|x| x.to_string()).unwrap_or_default())));
        o.push(("sp", d.span(tcx.def_span(def))));
        let sm = tcx.sess.source_map();
        let exp = tcx.def_span(def).from_expansion();
        let _ = sm;
        o.push(("exp", J::B(exp)));
        if matches!(kind, DefKind::Fn | DefKind::AssocFn) {
            o.push(("pub", J::B(tcx.visibility(def).is_public())));
            o.push(("unsafe", J::B(tcx.fn_sig(def).skip_binder().skip_binder().safety().is_unsafe())));
            if let Some(im) = tcx.impl_of_assoc(def) {
                let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
                o.push(("iself", n(d.ty(st))));
                o.push(("impl", s(d.path(im))));
                if let Some(tr) = tcx.impl_opt_trait_id(im) {
                    o.push(("itrait", s(d.path(tr))));
                }
            }
            if let Some(tr) = tcx.trait_of_assoc(def) {
                o.push(("trait", s(d.path(tr))));
            }
        }
        // generics, parents first, in the order of GenericArgs (lifetimes dropped)
        let root_def = tcx.typeck_root_def_id(def);
        let mut gs = vec![];
        let ident = ty::GenericArgs::identity_for_item(tcx, root_def);
        for a in ident.iter() {
            match a.kind() {
                GenericArgKind::Type(t) => gs.push(s(t.to_string())),
                GenericArgKind::Const(c) => gs.push(s(c.to_string())),
                _ => {}
            }
        }
        o.push(("g", J::A(gs)));
        if !matches!(kind, DefKind::Closure) || true {
            let mut b = Body { d: &mut d, th: &th, owner };
            let mut ps = vec![];
            for p in th.params.iter() {
                let mut po = vec![];
                if let Some(pp) = &p.pat {
                    let j = b.pat(pp);
                    po.push(("pat", j));
                }
                po.push(("t", n(b.d.ty(p.ty))));
                ps.push(J::O(po));
            }
            let bj = b.expr(root);
            let rt = th.exprs[root].ty;
            o.push(("params", J::A(ps)));
            o.push(("ret", n(d.ty(rt))));
            o.push(("b", bj));
        }
        fns.push(J::O(o));
    }
    // impls of this crate
    let mut impls = vec![];
    for id in tcx.hir_crate_items(()).definitions() {
        let def = id.to_def_id();
        if let DefKind::Impl { .. } = tcx.def_kind(def) {
            let mut o: Vec<(&'static str, J)> = vec![("p", s(d.path(def)))];
            let st = tcx.type_of(def).instantiate_identity().skip_norm_wip();
            o.push(("self", n(d.ty(st))));
            o.push(("sp", d.span(tcx.def_span(def))));
            o.push(("exp", J::B(tcx.def_span(def).from_expansion())));
            if let Some(tr) = tcx.impl_opt_trait_id(def) {
                o.push(("trait", s(d.path(tr))));
                let h = tcx.impl_trait_header(def);
                let ta = h.trait_ref.instantiate_identity().skip_norm_wip();
                let j = d.gargs(ta.args);
                o.push(("ta", j));
                o.push(("unsafe", J::B(h.safety.is_unsafe())));
                o.push(("neg", J::B(h.polarity == ty::ImplPolarity::Negative)));
            }
            let mut its = vec![];
            for it in tcx.associated_items(def).in_definition_order() {
                let k = match it.kind {
                    ty::AssocKind::Fn { .. } => "fn",
                    ty::AssocKind::Const { .. } => "const",
                    ty::AssocKind::Type { .. } => "type",
                };
                let mut v = vec![s(it.name().to_string()), s(k), s(d.path(it.def_id))];
                if k == "type" {
                    let t = tcx.type_of(it.def_id).instantiate_identity().skip_norm_wip();
                    v.push(n(d.ty(t)));
                }
                its.push(J::A(v));
            }
            o.push(("items", J::A(its)));
            let mut gs = vec![];
            for a in ty::GenericArgs::identity_for_item(tcx, def).iter() {
                match a.kind() {
                    GenericArgKind::Type(t) => gs.push(s(t.to_string())),
                    GenericArgKind::Const(c) => gs.push(s(c.to_string())),
                    _ => {}
                }
            }
            o.push(("g", J::A(gs)));
            impls.push(J::O(o));
        } else if let DefKind::Trait = tcx.def_kind(def) {
            // nothing: provided methods appear among the bodies
        }
    }
    // send-soundness facts: for each `unsafe impl Send/Sync`, which fields are not Send/Sync
    // under the impl's own bounds
    let mut autos = vec![];
    for id in tcx.hir_crate_items(()).definitions() {
        let def = id.to_def_id();
        if let DefKind::Impl { of_trait: true } = tcx.def_kind(def) {
            let Some(tr) = tcx.impl_opt_trait_id(def) else { continue };
            if !tcx.trait_is_auto(tr) {
                continue;
            }
            let h = tcx.impl_trait_header(def);
            if h.polarity == ty::ImplPolarity::Negative {
                continue;
            }
            let st = tcx.type_of(def).instantiate_identity().skip_norm_wip();
            let ty::Adt(adt, args) = st.kind() else { continue };
            let env = ty::TypingEnv::non_body_analysis(tcx, def);
            let mut fs = vec![];
            for f in adt.all_fields() {
                let ft = f.ty(tcx, args).skip_norm_wip();
                let ok = holds(tcx, env, ft, tr);
                fs.push(J::A(vec![s(f.name.as_str()), s(format!("{}", ft)), J::B(ok)]));
            }
            autos.push(J::O(vec![
                ("p", s(d.path(def))),
                ("trait", s(d.path(tr))),
                ("self", s(d.path(adt.did()))),
                ("sp", d.span(tcx.def_span(def))),
                ("unsafe", J::B(h.safety.is_unsafe())),
                ("fields", J::A(fs)),
            ]));
        }
    }
    // ADTs mentioned (local ones in full)
    for id in tcx.hir_crate_items(()).definitions() {
        let def = id.to_def_id();
        if matches!(tcx.def_kind(def), DefKind::Struct | DefKind::Enum | DefKind::Union) {
            d.adt(def);
        }
    }
    let mut adts = vec![];
    let mut i = 0;
    while i < d.adtq.len() {
        let def = d.adtq[i];
        i += 1;
        let a = tcx.adt_def(def);
        let mut vs = vec![];
        let local = def.is_local() || matches!(tcx.crate_name(def.krate).as_str(), "bulletproofs");
        for v in a.variants().iter() {
            let mut fs = vec![];
            for f in v.fields.iter() {
                let mut fo = vec![s(f.name.as_str())];
                if local {
                    let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                    fo.push(n(d.ty(t)));
                    fo.push(J::B(f.vis.is_public()));
                }
                fs.push(J::A(fo));
            }
            vs.push(J::A(vec![s(v.name.as_str()), J::A(fs)]));
        }
        let k = if a.is_enum() { "enum" } else if a.is_struct() { "struct" } else { "union" };
        let mut gs = vec![];
        for ga in ty::GenericArgs::identity_for_item(tcx, def).iter() {
            match ga.kind() {
                GenericArgKind::Type(t) => gs.push(s(t.to_string())),
                GenericArgKind::Const(c) => gs.push(s(c.to_string())),
                _ => {}
            }
        }
        adts.push(J::O(vec![
            ("p", s(d.path(def))),
            ("k", s(k)),
            ("v", J::A(vs)),
            ("g", J::A(gs)),
            ("local", J::B(def.is_local())),
            ("sp", if def.is_local() { d.span(tcx.def_span(def)) } else { J::Null }),
        ]));
    }
    let feats: Vec<J> = tcx
        .sess
        .config
        .iter()
        .map(|(k, v)| s(match v { Some(v) => format!("{}={}", k, v), None => k.to_string() }))
        .collect();
    let out = J::O(vec![
        ("crate", s(krate.clone())),
        ("cfg", J::A(feats)),
        ("errs", J::A(errs)),
        ("fns", J::A(fns)),
        ("impls", J::A(impls)),
        ("autos", J::A(autos)),
        ("adts", J::A(adts)),
        ("types", J::A(std::mem::take(&mut d.types))),
    ]);
    let mut buf = String::new();
    out.write(&mut buf);
    let tmp = format!("{}/{}.json.tmp", dir, krate);
    std::fs::write(&tmp, buf).unwrap();
    std::fs::rename(&tmp, format!("{}/{}.json", dir, krate)).unwrap();
}

fn holds<'tcx>(tcx: TyCtxt<'tcx>, env: ty::TypingEnv<'tcx>, t: Ty<'tcx>, tr: DefId) -> bool {
    extern crate rustc_infer;
    extern crate rustc_trait_selection;
    use rustc_infer::infer::TyCtxtInferExt;
    use rustc_trait_selection::infer::InferCtxtExt;
    let (infcx, penv) = tcx.infer_ctxt().build_with_typing_env(env);
    infcx.type_implements_trait(tr, [t], penv).must_apply_modulo_regions()
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the path of the real rustc
    if args.len() > 1 && std::path::Path::new(&args[1]).file_stem().map(|x| x == "rustc").unwrap_or(false) {
        args.remove(1);
    }
    rustc_driver_impl::catch_with_exit_code(|| rustc_driver_impl::compiler_entrypoint(&args, &mut Cb))
}
