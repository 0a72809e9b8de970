// Dumps the typed tree (THIR) of every body of the crate being compiled as JSON.
// Used as RUSTC_WORKSPACE_WRAPPER under `cargo +nightly check`; nothing is executed, only compiled.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_ast;
extern crate rustc_driver;
extern crate rustc_driver_impl;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_ast::LitKind;
use rustc_driver_impl::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_middle::thir::*;
use rustc_middle::ty::{self, Instance, Ty, TyCtxt, TypingEnv};
use std::collections::HashMap;
use std::fmt::Write as _;

#[derive(Clone)]
enum J {
    Null,
    B(bool),
    I(i128),
    S(String),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
}

fn esc(s: &str, out: &mut String) {
    out.push('"');
    for c in s.chars() {
        match c {
            '"' => out.push_str("\\\""),
            '\\' => out.push_str("\\\\"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => {
                let _ = write!(out, "\\u{:04x}", c as u32);
            }
            c => out.push(c),
        }
    }
    out.push('"');
}

impl J {
    fn s(x: impl ToString) -> J {
        J::S(x.to_string())
    }
    fn write(&self, out: &mut String) {
        match self {
            J::Null => out.push_str("null"),
            J::B(b) => out.push_str(if *b { "true" } else { "false" }),
            J::I(i) => {
                let _ = write!(out, "{i}");
            }
            J::S(s) => esc(s, out),
            J::A(v) => {
                out.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    x.write(out);
                }
                out.push(']');
            }
            J::O(v) => {
                out.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    esc(k, out);
                    out.push(':');
                    x.write(out);
                }
                out.push('}');
            }
        }
    }
}

macro_rules! o {
    ($($k:literal : $v:expr),* $(,)?) => { J::O(vec![$(($k, $v)),*]) };
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    krate: String,
    types: Vec<J>,
    tmap: HashMap<(LocalDefId, Ty<'tcx>), usize>,
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        let here = !d.is_local() && self.tcx.crate_name(d.krate).as_str().starts_with("dandy");
        let s = if here {
            // as the crate itself calls it, not by way of a re-export
            ty::print::with_no_visible_paths!(ty::print::with_no_trimmed_paths!(
                ty::print::with_crate_prefix!(self.tcx.def_path_str(d))
            ))
        } else {
            ty::print::with_no_trimmed_paths!(ty::print::with_crate_prefix!(
                self.tcx.def_path_str(d)
            ))
        };
        s.replace("crate::", &format!("{}::", self.krate))
    }

    fn key(&self, d: DefId) -> String {
        // closures: parent key + index
        if self.tcx.is_closure_like(d) {
            let n = self.tcx.def_key(d).disambiguated_data.disambiguator;
            return format!("{}::{{closure#{n}}}", self.key(self.tcx.parent(d)));
        }
        match self.tcx.def_kind(d) {
            DefKind::AnonConst => {
                let n = self.tcx.def_key(d).disambiguated_data.disambiguator;
                return format!("{}::{{const#{n}}}", self.key(self.tcx.parent(d)));
            }
            _ => {}
        }
        let p = self.path(d);
        // nested items with equal names in different blocks
        let n = self.tcx.def_key(d).disambiguated_data.disambiguator;
        if n > 0 {
            format!("{p}#{n}")
        } else {
            p
        }
    }

    fn span(&self, sp: rustc_span::Span) -> J {
        let sp = sp.source_callsite();
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(sp.lo());
        J::S(format!("{}:{}", lo.file.name.prefer_local_unconditionally(), lo.line))
    }

    fn tys(&mut self, owner: LocalDefId, args: ty::GenericArgsRef<'tcx>) -> J {
        let v = args
            .iter()
            .filter_map(|a| a.as_type())
            .map(|t| self.ty(owner, t))
            .collect();
        J::A(v)
    }

    fn ty(&mut self, owner: LocalDefId, t: Ty<'tcx>) -> J {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(i) = self.tmap.get(&(owner, t)) {
            return J::I(*i as i128);
        }
        let i = self.types.len();
        self.types.push(J::Null);
        self.tmap.insert((owner, t), i);
        let j = match *t.kind() {
            ty::Adt(def, args) => {
                o! {"k": J::s("adt"), "p": J::S(self.path(def.did())), "a": self.tys(owner, args)}
            }
            ty::Ref(_, inner, m) => {
                o! {"k": J::s("ref"), "m": J::B(m.is_mut()), "t": self.ty(owner, inner)}
            }
            ty::RawPtr(inner, m) => {
                o! {"k": J::s("ptr"), "m": J::B(m.is_mut()), "t": self.ty(owner, inner)}
            }
            ty::Slice(x) => o! {"k": J::s("slice"), "t": self.ty(owner, x)},
            ty::Array(x, _) => o! {"k": J::s("array"), "t": self.ty(owner, x)},
            ty::Tuple(xs) => {
                let v = xs.iter().map(|x| self.ty(owner, x)).collect();
                o! {"k": J::s("tuple"), "a": J::A(v)}
            }
            ty::Param(p) => o! {"k": J::s("param"), "n": J::s(p.name)},
            ty::Closure(d, _) => o! {"k": J::s("closure"), "p": J::S(self.key(d))},
            ty::FnDef(d, args) => {
                let tcx = self.tcx;
                let args = args.skip_binder();
                let mut v = vec![
                    ("k", J::s("fndef")),
                    ("p", J::S(self.key(d))),
                    ("a", self.tys(owner, args)),
                    ("n", J::S(tcx.opt_item_name(d).map(|n| n.to_string()).unwrap_or_default())),
                    ("dk", J::S(format!("{:?}", tcx.def_kind(d)))),
                    ("local", J::B(d.is_local())),
                ];
                if let DefKind::Ctor(..) = tcx.def_kind(d) {
                    let parent = tcx.parent(d);
                    let (adt, variant) = if tcx.def_kind(parent) == DefKind::Variant {
                        (tcx.parent(parent), tcx.item_name(parent).to_string())
                    } else {
                        (parent, tcx.item_name(parent).to_string())
                    };
                    v.push(("ctor", o! {"adt": J::S(self.path(adt)), "v": J::S(variant)}));
                }
                if let Some(tr) = tcx.trait_of_assoc(d) {
                    v.push(("trait", J::S(self.path(tr))));
                }
                if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
                    let env = TypingEnv::post_analysis(tcx, owner.to_def_id());
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                        Instance::try_resolve(tcx, env, d, args)
                    }));
                    if let Ok(Ok(Some(inst))) = r {
                        let rd = inst.def_id();
                        let mut rv = vec![
                            ("p", J::S(self.key(rd))),
                            ("local", J::B(rd.is_local())),
                            ("kind", J::S(format!("{:?}", inst.def).split('(').next().unwrap().to_string())),
                            ("a", self.tys(owner, inst.args)),
                        ];
                        if let Some(imp) = tcx.impl_of_assoc(rd) {
                            let st = tcx.type_of(imp).instantiate_identity().skip_norm_wip();
                            rv.push(("self", J::S(format!("{st}"))));
                            if let Some(trr) = tcx.impl_opt_trait_ref(imp) {
                                rv.push(("trait", J::S(self.path(trr.skip_binder().def_id))));
                            }
                        }
                        v.push(("res", J::O(rv)));
                    }
                    if let Some(imp) = tcx.impl_of_assoc(d) {
                        let st = tcx.type_of(imp).instantiate_identity().skip_norm_wip();
                        v.push(("self", J::S(format!("{st}"))));
                    }
                }
                J::O(v)
            }
            _ => o! {"k": J::s("o"), "s": J::S(format!("{t}"))},
        };
        self.types[i] = j;
        J::I(i as i128)
    }
}

struct Body<'a, 'tcx> {
    cx: &'a mut Cx<'tcx>,
    thir: &'a Thir<'tcx>,
    owner: LocalDefId,
    ty_owner: LocalDefId,
}

fn var(id: LocalVarId) -> J {
    J::S(format!("{}", id.0.local_id.as_u32()))
}

impl<'a, 'tcx> Body<'a, 'tcx> {
    fn t(&mut self, t: Ty<'tcx>) -> J {
        let o = self.ty_owner;
        self.cx.ty(o, t)
    }

    fn fname(&self, t: Ty<'tcx>, variant: rustc_abi::VariantIdx, f: rustc_abi::FieldIdx) -> J {
        match t.kind() {
            ty::Adt(def, _) if def.is_enum() || def.is_struct() || def.is_union() => {
                let v = def.variant(variant);
                J::S(v.fields[f].name.to_string())
            }
            _ => J::S(format!("{}", f.as_u32())),
        }
    }

    fn opt(&mut self, e: Option<ExprId>) -> J {
        match e {
            Some(e) => self.expr(e),
            None => J::Null,
        }
    }

    fn exprs(&mut self, es: &[ExprId]) -> J {
        J::A(es.iter().map(|e| self.expr(*e)).collect())
    }

    fn value(&mut self, v: ty::Value<'tcx>) -> J {
        let tcx = self.cx.tcx;
        let t = v.ty;
        if let ty::Ref(_, inner, _) = t.kind() {
            if inner.is_str() {
                if let Some(b) = v.try_to_raw_bytes(tcx) {
                    return o! {"k": J::s("str"), "v": J::S(String::from_utf8_lossy(b).into_owned())};
                }
            }
        }
        if t.is_str() {
            let bytes: Option<Vec<u8>> = v
                .to_branch()
                .into_iter()
                .map(|ct| (*ct).try_to_value().and_then(|x| x.try_to_leaf()).map(|l| l.to_u8()))
                .collect();
            if let Some(b) = bytes {
                let b = &b[..];
                return o! {"k": J::s("str"), "v": J::S(String::from_utf8_lossy(b).into_owned())};
            }
        }
        if let Some(l) = v.try_to_leaf() {
            return match t.kind() {
                ty::Bool => o! {"k": J::s("bool"), "v": J::B(l.to_bits_unchecked() != 0)},
                ty::Char => {
                    o! {"k": J::s("char"), "v": J::S(char::from_u32(l.to_bits_unchecked() as u32).unwrap_or('?').to_string())}
                }
                ty::Int(_) => o! {"k": J::s("int"), "v": J::I(l.to_int(l.size()))},
                _ => o! {"k": J::s("int"), "v": J::I(l.to_bits_unchecked() as i128)},
            };
        }
        o! {"k": J::s("valtree"), "s": J::S(format!("{v:?}"))}
    }

    fn pats(&mut self, ps: &[Pat<'tcx>]) -> J {
        J::A(ps.iter().map(|p| self.pat(p)).collect())
    }

    fn pat(&mut self, p: &Pat<'tcx>) -> J {
        let mut v: Vec<(&'static str, J)> = Vec::new();
        match &p.kind {
            PatKind::Wild | PatKind::Missing | PatKind::Never => v.push(("p", J::s("wild"))),
            PatKind::Binding { name, mode, var: id, subpattern, ty, .. } => {
                v.push(("p", J::s("bind")));
                v.push(("name", J::s(name)));
                v.push(("var", var(*id)));
                v.push(("byref", J::B(!matches!(mode.0, rustc_ast::ByRef::No))));
                v.push(("t", self.t(*ty)));
                if let Some(s) = subpattern {
                    v.push(("sub", self.pat(s)));
                }
            }
            PatKind::Variant { adt_def, variant_index, subpatterns, .. } => {
                v.push(("p", J::s("variant")));
                v.push(("adt", J::S(self.cx.path(adt_def.did()))));
                let vd = adt_def.variant(*variant_index);
                v.push(("v", J::s(vd.name)));
                let mut subs = vec![];
                for fp in subpatterns {
                    let pj = self.pat(&fp.pattern);
                    subs.push(J::A(vec![J::S(vd.fields[fp.field].name.to_string()), pj]));
                }
                v.push(("subs", J::A(subs)));
            }
            PatKind::Leaf { subpatterns } => {
                v.push(("p", J::s("leaf")));
                v.push(("t", self.t(p.ty)));
                let mut subs = vec![];
                for fp in subpatterns {
                    let n = self.fname(p.ty, rustc_abi::FIRST_VARIANT, fp.field);
                    let pj = self.pat(&fp.pattern);
                    subs.push(J::A(vec![n, pj]));
                }
                v.push(("subs", J::A(subs)));
            }
            PatKind::Deref { subpattern, .. } | PatKind::DerefPattern { subpattern, .. } => {
                v.push(("p", J::s("deref")));
                v.push(("sub", self.pat(subpattern)));
            }
            PatKind::Constant { value } => {
                v.push(("p", J::s("const")));
                v.push(("val", self.value(*value)));
            }
            PatKind::Range(r) => {
                v.push(("p", J::s("range")));
                v.push(("s", J::S(format!("{r}"))));
            }
            PatKind::Slice { prefix, slice, suffix } | PatKind::Array { prefix, slice, suffix } => {
                v.push(("p", J::s("slice")));
                v.push(("pre", self.pats(prefix)));
                if let Some(s) = slice {
                    v.push(("mid", self.pat(s)));
                }
                v.push(("suf", self.pats(suffix)));
            }
            PatKind::Or { pats } => {
                v.push(("p", J::s("or")));
                v.push(("pats", self.pats(pats)));
            }
            PatKind::Guard { subpattern, condition } => {
                v.push(("p", J::s("guard")));
                v.push(("sub", self.pat(subpattern)));
                v.push(("cond", self.expr(*condition)));
            }
            PatKind::Error(_) => v.push(("p", J::s("error"))),
        }
        J::O(v)
    }

    fn block(&mut self, b: BlockId) -> J {
        let thir = self.thir;
        let blk = &thir.blocks[b];
        let mut st = vec![];
        for s in blk.stmts.iter() {
            match &thir.stmts[*s].kind {
                StmtKind::Expr { expr, .. } => st.push(o! {"s": J::s("expr"), "e": self.expr(*expr)}),
                StmtKind::Let { pattern, initializer, else_block, span, .. } => {
                    let mut v = vec![
                        ("s", J::s("let")),
                        ("pat", self.pat(pattern)),
                        ("init", self.opt(*initializer)),
                        ("sp", self.cx.span(*span)),
                    ];
                    if let Some(e) = else_block {
                        v.push(("els", self.block(*e)));
                    }
                    st.push(J::O(v));
                }
            }
        }
        let mut v = vec![("e", J::s("block")), ("stmts", J::A(st)), ("expr", self.opt(blk.expr))];
        if blk.targeted_by_break {
            v.push(("label", J::S(format!("{:?}", blk.region_scope.local_id.as_u32()))));
        }
        if !matches!(blk.safety_mode, BlockSafety::Safe) {
            v.push(("unsafe", J::S(format!("{:?}", blk.safety_mode).split('(').next().unwrap().to_string())));
        }
        v.push(("sp", self.cx.span(blk.span)));
        J::O(v)
    }

    fn expr(&mut self, e: ExprId) -> J {
        let thir = self.thir;
        let ex = &thir.exprs[e];
        let mut v: Vec<(&'static str, J)> = Vec::new();
        macro_rules! k { ($n:literal) => { v.push(("e", J::s($n))) } }
        match &ex.kind {
            ExprKind::Scope { value, region_scope, .. } => {
                // keep loop scopes as break targets
                let inner = &thir.exprs[*value].kind;
                if matches!(inner, ExprKind::Loop { .. }) {
                    let mut j = self.expr(*value);
                    if let J::O(ref mut f) = j {
                        f.push(("label", J::S(format!("{:?}", region_scope.local_id.as_u32()))));
                    }
                    return j;
                }
                return self.expr(*value);
            }
            ExprKind::If { cond, then, else_opt, .. } => {
                k!("if");
                v.push(("cond", self.expr(*cond)));
                v.push(("then", self.expr(*then)));
                v.push(("els", self.opt(*else_opt)));
            }
            ExprKind::Call { ty, fun, args, .. } => {
                k!("call");
                let is_fndef = matches!(ty.kind(), ty::FnDef(..));
                v.push(("fty", self.t(*ty)));
                if !is_fndef {
                    v.push(("fun", self.expr(*fun)));
                }
                v.push(("args", self.exprs(args)));
            }
            ExprKind::ByUse { expr, .. } => return self.expr(*expr),
            ExprKind::Deref { arg } => {
                k!("deref");
                v.push(("a", self.expr(*arg)));
            }
            ExprKind::Binary { op, lhs, rhs } => {
                k!("bin");
                v.push(("op", J::S(format!("{op:?}"))));
                v.push(("l", self.expr(*lhs)));
                v.push(("r", self.expr(*rhs)));
            }
            ExprKind::LogicalOp { op, lhs, rhs } => {
                k!("logic");
                v.push(("op", J::S(format!("{op:?}"))));
                v.push(("l", self.expr(*lhs)));
                v.push(("r", self.expr(*rhs)));
            }
            ExprKind::Unary { op, arg } => {
                k!("un");
                v.push(("op", J::S(format!("{op:?}"))));
                v.push(("a", self.expr(*arg)));
            }
            ExprKind::Cast { source } => {
                k!("cast");
                v.push(("a", self.expr(*source)));
            }
            ExprKind::ValueExpr { source }
            | ExprKind::NeverToAny { source }
            | ExprKind::PlaceTypeAscription { source, .. }
            | ExprKind::ValueTypeAscription { source, .. }
            | ExprKind::PlaceUnwrapUnsafeBinder { source }
            | ExprKind::ValueUnwrapUnsafeBinder { source }
            | ExprKind::WrapUnsafeBinder { source } => return self.expr(*source),
            ExprKind::Reborrow { source, .. } => return self.expr(*source),
            ExprKind::PointerCoercion { source, cast, .. } => {
                k!("coerce");
                v.push(("c", J::S(format!("{cast:?}"))));
                v.push(("a", self.expr(*source)));
            }
            ExprKind::Loop { body } => {
                k!("loop");
                v.push(("body", self.expr(*body)));
            }
            ExprKind::Let { expr, pat } => {
                k!("let");
                v.push(("a", self.expr(*expr)));
                v.push(("pat", self.pat(pat)));
            }
            ExprKind::Match { scrutinee, arms, match_source } => {
                k!("match");
                v.push(("src", J::S(format!("{match_source:?}").split('(').next().unwrap().to_string())));
                v.push(("a", self.expr(*scrutinee)));
                let mut av = vec![];
                for a in arms.iter() {
                    let arm = &thir.arms[*a];
                    let p = self.pat(&arm.pattern);
                    let g = self.opt(arm.guard);
                    let b = self.expr(arm.body);
                    av.push(o! {"pat": p, "guard": g, "body": b});
                }
                v.push(("arms", J::A(av)));
            }
            ExprKind::Block { block } => return self.block(*block),
            ExprKind::Assign { lhs, rhs } => {
                k!("assign");
                v.push(("l", self.expr(*lhs)));
                v.push(("r", self.expr(*rhs)));
            }
            ExprKind::AssignOp { op, lhs, rhs } => {
                k!("assignop");
                v.push(("op", J::S(format!("{op:?}"))));
                v.push(("l", self.expr(*lhs)));
                v.push(("r", self.expr(*rhs)));
            }
            ExprKind::Field { lhs, variant_index, name } => {
                k!("field");
                let lt = thir.exprs[*lhs].ty;
                v.push(("a", self.expr(*lhs)));
                v.push(("f", self.fname(lt, *variant_index, *name)));
            }
            ExprKind::Index { lhs, index } => {
                k!("index");
                v.push(("a", self.expr(*lhs)));
                v.push(("i", self.expr(*index)));
            }
            ExprKind::VarRef { id } => {
                k!("var");
                v.push(("id", var(*id)));
            }
            ExprKind::UpvarRef { var_hir_id, .. } => {
                k!("upvar");
                v.push(("id", var(*var_hir_id)));
            }
            ExprKind::Borrow { borrow_kind, arg } => {
                k!("borrow");
                v.push(("m", J::B(matches!(borrow_kind, rustc_middle::mir::BorrowKind::Mut { .. }))));
                v.push(("a", self.expr(*arg)));
            }
            ExprKind::RawBorrow { arg, .. } => {
                k!("borrow");
                v.push(("m", J::B(true)));
                v.push(("a", self.expr(*arg)));
            }
            ExprKind::Break { label, value } => {
                k!("break");
                v.push(("label", J::S(format!("{:?}", label.local_id.as_u32()))));
                v.push(("a", self.opt(*value)));
            }
            ExprKind::Continue { label } => {
                k!("continue");
                v.push(("label", J::S(format!("{:?}", label.local_id.as_u32()))));
            }
            ExprKind::Return { value } => {
                k!("return");
                v.push(("a", self.opt(*value)));
            }
            ExprKind::ConstBlock { did, .. } => {
                k!("constblock");
                v.push(("p", J::S(self.cx.key(*did))));
            }
            ExprKind::Repeat { value, count } => {
                k!("repeat");
                v.push(("a", self.expr(*value)));
                v.push(("n", J::S(format!("{count}"))));
            }
            ExprKind::Array { fields } => {
                k!("array");
                v.push(("a", self.exprs(fields)));
            }
            ExprKind::Tuple { fields } => {
                k!("tuple");
                v.push(("a", self.exprs(fields)));
            }
            ExprKind::Adt(a) => {
                k!("adt");
                v.push(("adt", J::S(self.cx.path(a.adt_def.did()))));
                let vd = a.adt_def.variant(a.variant_index);
                v.push(("v", J::s(vd.name)));
                let mut fs = vec![];
                for f in a.fields.iter() {
                    let x = self.expr(f.expr);
                    fs.push(J::A(vec![J::S(vd.fields[f.name].name.to_string()), x]));
                }
                v.push(("f", J::A(fs)));
                if let AdtExprBase::Base(b) = &a.base {
                    v.push(("base", self.expr(b.base)));
                }
            }
            ExprKind::Closure(c) => {
                k!("closure");
                v.push(("p", J::S(self.cx.key(c.closure_id.to_def_id()))));
                // by-value captures of the closure
                let mut caps = vec![];
                for cap in self.cx.tcx.closure_captures(c.closure_id) {
                    let id = cap.get_root_variable().local_id.as_u32();
                    let by_val = matches!(cap.info.capture_kind, ty::UpvarCapture::ByValue);
                    caps.push(J::A(vec![J::S(format!("{id}")), J::B(by_val)]));
                }
                v.push(("caps", J::A(caps)));
            }
            ExprKind::Literal { lit, neg } => {
                k!("lit");
                let j = match &lit.node {
                    LitKind::Str(s, _) => o! {"k": J::s("str"), "v": J::s(s)},
                    LitKind::ByteStr(b, _) | LitKind::CStr(b, _) => {
                        o! {"k": J::s("bytes"), "v": J::A(b.as_byte_str().iter().map(|x| J::I(*x as i128)).collect())}
                    }
                    LitKind::Byte(b) => o! {"k": J::s("int"), "v": J::I(*b as i128)},
                    LitKind::Char(c) => o! {"k": J::s("char"), "v": J::s(c)},
                    LitKind::Int(i, _) => {
                        let x = i.get() as i128;
                        o! {"k": J::s("int"), "v": J::I(if *neg { -x } else { x })}
                    }
                    LitKind::Float(s, _) => {
                        o! {"k": J::s("float"), "v": J::S(format!("{}{}", if *neg { "-" } else { "" }, s))}
                    }
                    LitKind::Bool(b) => o! {"k": J::s("bool"), "v": J::B(*b)},
                    LitKind::Err(_) => J::Null,
                };
                v.push(("lit", j));
            }
            ExprKind::NonHirLiteral { lit, .. } => {
                k!("lit");
                v.push(("lit", o! {"k": J::s("int"), "v": J::I(lit.to_bits_unchecked() as i128)}));
            }
            ExprKind::ZstLiteral { .. } => k!("zst"),
            ExprKind::NamedConst { def_id, .. } => {
                k!("const");
                v.push(("p", J::S(self.cx.key(*def_id))));
            }
            ExprKind::StaticRef { def_id, .. } => {
                k!("static");
                v.push(("p", J::S(self.cx.key(*def_id))));
            }
            ExprKind::ThreadLocalRef(d) => {
                k!("static");
                v.push(("p", J::S(self.cx.key(*d))));
            }
            other => {
                k!("other");
                v.push(("s", J::S(format!("{other:?}").chars().take(60).collect::<String>())));
            }
        }
        v.push(("t", self.t(ex.ty)));
        v.push(("sp", self.cx.span(ex.span)));
        J::O(v)
    }
}

fn dump(tcx: TyCtxt<'_>) {
    let Ok(dir) = std::env::var("VERIF_DUMP_DIR") else { return };
    let krate = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
    let mut cx = Cx { tcx, krate: krate.clone(), types: vec![], tmap: HashMap::new() };
    let mut bodies = vec![];
    for owner in tcx.hir_body_owners() {
        let Ok((steal, root)) = tcx.thir_body(owner) else { continue };
        let thir = steal.borrow();
        let key = cx.key(owner.to_def_id());
        let ty_owner = tcx.typeck_root_def_id(owner.to_def_id()).expect_local();
        let mut b = Body { cx: &mut cx, thir: &thir, owner, ty_owner };
        let mut params = vec![];
        for p in thir.params.iter() {
            let pj = match &p.pat {
                Some(x) => b.pat(x),
                None => J::Null,
            };
            let t = b.t(p.ty);
            params.push(o! {"pat": pj, "t": t});
        }
        let e = b.expr(root);
        let _ = b.owner;
        let dk = tcx.def_kind(owner);
        let mut v = vec![
            ("key", J::S(key)),
            ("kind", J::S(format!("{dk:?}"))),
            ("name", J::S(tcx.opt_item_name(owner.to_def_id()).map(|n| n.to_string()).unwrap_or_default())),
            ("sp", cx.span(tcx.def_span(owner))),
            ("params", J::A(params)),
            ("body", e),
        ];
        let vis = match dk {
            DefKind::Fn | DefKind::AssocFn => tcx.visibility(owner).is_public(),
            _ => false,
        };
        v.push(("pub", J::B(vis)));
        if matches!(dk, DefKind::Fn | DefKind::AssocFn) {
            let g = tcx.generics_of(owner);
            let mut names = vec![];
            let mut cur = Some(g);
            while let Some(gg) = cur {
                let mut own: Vec<J> = gg
                    .own_params
                    .iter()
                    .filter(|p| matches!(p.kind, ty::GenericParamDefKind::Type { .. }))
                    .map(|p| J::s(p.name))
                    .collect();
                own.extend(names);
                names = own;
                cur = gg.parent.map(|p| tcx.generics_of(p));
            }
            v.push(("generics", J::A(names)));
            let safe = tcx.fn_sig(owner).skip_binder().safety().is_safe();
            v.push(("safe", J::B(safe)));
            if let Some(imp) = tcx.impl_of_assoc(owner.to_def_id()) {
                let st = tcx.type_of(imp).instantiate_identity().skip_norm_wip();
                v.push(("self_ty", cx.ty(owner, st)));
                if let Some(trr) = tcx.impl_opt_trait_ref(imp) {
                    let trr = trr.instantiate_identity().skip_norm_wip();
                    v.push(("trait", J::S(cx.path(trr.def_id))));
                    v.push(("trait_args", cx.tys(owner, trr.args)));
                }
            }
            let sig = tcx.fn_sig(owner).instantiate_identity().skip_norm_wip().skip_binder();
            v.push(("ret", cx.ty(owner, sig.output())));
        }
        bodies.push(J::O(v));
    }
    // ADTs
    let mut adts = vec![];
    for id in tcx.hir_crate_items(()).definitions() {
        if !matches!(tcx.def_kind(id), DefKind::Struct | DefKind::Enum | DefKind::Union) {
            continue;
        }
        let def = tcx.adt_def(id);
        let mut vs = vec![];
        for vd in def.variants() {
            let mut fs = vec![];
            for f in vd.fields.iter() {
                let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                let tj = cx.ty(id, t);
                fs.push(J::A(vec![J::s(f.name), tj, J::B(tcx.visibility(f.did).is_public())]));
            }
            vs.push(o! {"v": J::s(vd.name), "f": J::A(fs)});
        }
        let kind = J::S(if def.is_enum() { "enum".into() } else { "struct".to_string() });
        adts.push(o! {"p": J::S(cx.path(id.to_def_id())), "kind": kind, "variants": J::A(vs)});
    }
    // trait impls
    let mut impls = vec![];
    for (tr, is) in tcx.all_local_trait_impls(()) {
        for i in is {
            let trr = tcx.impl_trait_ref(*i).instantiate_identity().skip_norm_wip();
            let mut items = vec![];
            for it in tcx.associated_items(*i).in_definition_order() {
                if let Some(n) = it.opt_name() {
                    items.push(J::A(vec![J::s(n), J::S(cx.key(it.def_id))]));
                }
            }
            let args = cx.tys(*i, trr.args);
            impls.push(o! {
                "trait": J::S(cx.path(*tr)), "args": args, "items": J::A(items),
                "sp": cx.span(tcx.def_span(*i)),
                "derived": J::B(tcx.is_automatically_derived(i.to_def_id())),
            });
        }
    }
    let crate_type = J::A(tcx.crate_types().iter().map(|c| J::S(format!("{c:?}"))).collect());
    let out = o! {
        "crate": J::S(krate.clone()), "crate_types": crate_type, "bodies": J::A(bodies),
        "adts": J::A(adts), "impls": J::A(impls), "types": J::A(cx.types.clone()),
    };
    let mut s = String::new();
    out.write(&mut s);
    let p = format!("{dir}/{krate}.json");
    std::fs::write(&p, s).expect("write dump");
}

struct Cb;
impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        ty::print::with_no_trimmed_paths!(dump(tcx));
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // as a RUSTC_WORKSPACE_WRAPPER: argv[1] is the path of rustc
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    args.push("-Zno-steal-thir".into());
    rustc_driver_impl::compiler_entrypoint(&args, &mut Cb);
}
