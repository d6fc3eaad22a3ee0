//! rustc driver: dumps the typed intermediate representation (THIR) that rustc itself
//! builds from /repo's current source, for every function/const/closure body of the
//! `algeo` library crate, as JSON (path in $THIRDUMP_OUT).  Nothing is interpreted
//! here: every expression node is written out with its type and, for calls, the
//! function the compiler resolved it to.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_infer;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;
extern crate rustc_trait_selection;
extern crate rustc_ast;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_infer::infer::TyCtxtInferExt;
use rustc_middle::thir::*;
use rustc_middle::ty::{self, GenericArgKind, Ty, TyCtxt, TypeVisitableExt};
use rustc_span::{sym, Span};
use rustc_trait_selection::infer::InferCtxtExt;

enum J {
    N,
    B(bool),
    I(i128),
    S(String),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
}
impl J {
    fn w(&self, o: &mut String) {
        match self {
            J::N => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::I(i) => o.push_str(&i.to_string()),
            J::S(s) => {
                o.push('"');
                for c in s.chars() {
                    match c {
                        '"' => o.push_str("\\\""),
                        '\\' => o.push_str("\\\\"),
                        c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
                        c => o.push(c),
                    }
                }
                o.push('"')
            }
            J::A(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',')
                    }
                    x.w(o)
                }
                o.push(']')
            }
            J::O(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',')
                    }
                    o.push('"');
                    o.push_str(k);
                    o.push_str("\":");
                    x.w(o)
                }
                o.push('}')
            }
        }
    }
}
fn s(x: impl ToString) -> J {
    J::S(x.to_string())
}

struct D<'tcx> {
    tcx: TyCtxt<'tcx>,
}

struct Body<'a, 'tcx> {
    d: &'a D<'tcx>,
    tcx: TyCtxt<'tcx>,
    thir: &'a Thir<'tcx>,
    owner: LocalDefId,
}

impl<'tcx> D<'tcx> {
    fn path(&self, id: DefId) -> String {
        rustc_middle::ty::print::with_no_trimmed_paths!(rustc_middle::ty::print::with_no_visible_paths!(
            self.tcx.def_path_str(id)
        ))
    }
    fn span(&self, sp: Span) -> J {
        let sp = sp.source_callsite();
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(sp.lo());
        J::A(vec![
            s(format!("{}", lo.file.name.prefer_local_unconditionally())),
            J::I(lo.line as i128),
        ])
    }
    fn penv(&self, owner: LocalDefId) -> ty::TypingEnv<'tcx> {
        let base = self.tcx.typeck_root_def_id(owner.to_def_id());
        ty::TypingEnv::non_body_analysis(self.tcx, base)
    }
    fn iter_item(&self, owner: LocalDefId, t: Ty<'tcx>) -> Option<Ty<'tcx>> {
        let tcx = self.tcx;
        if t.has_infer() || t.has_escaping_bound_vars() {
            return None;
        }
        match t.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) | ty::Ref(..) | ty::Tuple(_)
            | ty::Never | ty::Slice(_) | ty::Array(..) | ty::FnDef(..) | ty::Closure(..) | ty::Str => return None,
            _ => {}
        }
        let it = tcx.get_diagnostic_item(sym::Iterator)?;
        let t = tcx.erase_and_anonymize_regions(t);
        let env = self.penv(owner);
        let (infcx, penv) = tcx.infer_ctxt().build_with_typing_env(env);
        if !infcx.type_implements_trait(it, [t], penv).must_apply_modulo_regions() {
            return None;
        }
        let item = tcx
            .associated_items(it)
            .in_definition_order()
            .find(|a| matches!(a.kind, ty::AssocKind::Type { .. }))?
            .def_id;
        let proj = Ty::new_projection(tcx, ty::IsRigid::No, item, [t]);
        tcx.try_normalize_erasing_regions(env, ty::Unnormalized::new_wip(proj)).ok()
    }
    fn ty(&self, owner: LocalDefId, t: Ty<'tcx>) -> J {
        self.ty_d(owner, t, 0)
    }
    fn args(&self, owner: LocalDefId, a: ty::GenericArgsRef<'tcx>, depth: u32) -> J {
        J::A(
            a.iter()
                .filter_map(|g| match g.kind() {
                    GenericArgKind::Type(t) => Some(self.ty_d(owner, t, depth + 1)),
                    GenericArgKind::Const(c) => Some(J::O(vec![("t", s("const")), ("n", s(format!("{}", c)))])),
                    _ => None,
                })
                .collect(),
        )
    }
    fn ty_d(&self, owner: LocalDefId, t: Ty<'tcx>, depth: u32) -> J {
        if depth > 12 {
            return J::O(vec![("t", s("deep"))]);
        }
        let r = |x| self.ty_d(owner, x, depth + 1);
        let mut o: Vec<(&'static str, J)> = match t.kind() {
            ty::Bool => vec![("t", s("bool"))],
            ty::Char => vec![("t", s("char"))],
            ty::Str => vec![("t", s("str"))],
            ty::Int(_) | ty::Uint(_) => vec![("t", s("int")), ("n", s(format!("{}", t)))],
            ty::Float(_) => vec![("t", s("float")), ("n", s(format!("{}", t)))],
            ty::Never => vec![("t", s("never"))],
            ty::Adt(def, a) => vec![
                ("t", s("adt")),
                ("n", s(self.path(def.did()))),
                ("local", J::B(def.did().is_local())),
                ("a", self.args(owner, a, depth)),
            ],
            ty::Ref(_, i, m) => vec![("t", s("ref")), ("m", J::B(m.is_mut())), ("i", r(*i))],
            ty::Tuple(es) => vec![("t", s("tuple")), ("e", J::A(es.iter().map(r).collect()))],
            ty::Slice(i) => vec![("t", s("slice")), ("i", r(*i))],
            ty::Array(i, n) => vec![("t", s("array")), ("i", r(*i)), ("len", s(format!("{}", n)))],
            ty::Param(p) => vec![("t", s("param")), ("n", s(p.name))],
            ty::Closure(id, _) => vec![("t", s("closure")), ("id", s(self.path(*id)))],
            ty::FnDef(id, a) => vec![
                ("t", s("fndef")),
                ("callee", self.callee(owner, *id, a.no_bound_vars().unwrap_or_else(|| a.skip_binder()))),
                ("sig_in", J::A({
                    let sg = self.tcx.instantiate_bound_regions_with_erased(t.fn_sig(self.tcx));
                    sg.inputs().iter().map(|x| r(*x)).collect()
                })),
                ("sig_out", {
                    let sg = self.tcx.instantiate_bound_regions_with_erased(t.fn_sig(self.tcx));
                    r(sg.output())
                }),
            ],
            ty::Alias(_, a) => {
                if !t.has_escaping_bound_vars() {
                    let e = self.tcx.erase_and_anonymize_regions(t);
                    if let Ok(n) = self.tcx.try_normalize_erasing_regions(self.penv(owner), ty::Unnormalized::new_wip(e)) {
                        if !matches!(n.kind(), ty::Alias(..)) {
                            return r(n);
                        }
                    }
                }
                let mut v = vec![("t", s("alias")), ("n", s(format!("{}", t)))];
                v.push(("a", self.args(owner, a.args, depth)));
                v
            }
            _ => vec![("t", s("other")), ("n", s(format!("{}", t)))],
        };
        if let Some(item) = self.iter_item(owner, t) {
            o.push(("item", r(item)));
        }
        J::O(o)
    }
    fn callee(&self, owner: LocalDefId, id: DefId, args: ty::GenericArgsRef<'tcx>) -> J {
        let tcx = self.tcx;
        let mut o = vec![
            ("path", s(self.path(id))),
            ("local", J::B(id.is_local())),
            ("args", self.args(owner, args, 0)),
        ];
        if matches!(tcx.def_kind(id), DefKind::Fn | DefKind::AssocFn | DefKind::AssocConst { .. } | DefKind::Const { .. } | DefKind::Ctor(..)) {
            let tr = tcx.trait_of_assoc(id);
            if let Some(t) = tr {
                o.push(("trait", s(self.path(t))));
            }
            if let DefKind::Ctor(..) = tcx.def_kind(id) {
                o.push(("ctor", J::B(true)));
                let p = tcx.parent(id);
                o.push(("ctor_of", s(self.path(p))));
            }
            let eargs = tcx.erase_and_anonymize_regions(args);
            if !eargs.has_infer() && !eargs.has_escaping_bound_vars() {
                if let Ok(Some(inst)) = ty::Instance::try_resolve(tcx, self.penv(owner), id, eargs) {
                    let rid = inst.def_id();
                    o.push((
                        "res",
                        J::O(vec![
                            ("path", s(self.path(rid))),
                            ("local", J::B(rid.is_local())),
                            ("args", self.args(owner, inst.args, 0)),
                        ]),
                    ));
                }
            }
        }
        J::O(o)
    }
}

impl<'a, 'tcx> Body<'a, 'tcx> {
    fn ty(&self, t: Ty<'tcx>) -> J {
        self.d.ty(self.owner, t)
    }
    fn hid(&self, id: rustc_hir::HirId) -> J {
        s(format!("{}_{}", id.owner.def_id.local_def_index.as_u32(), id.local_id.as_u32()))
    }
    fn pat(&self, p: &Pat<'tcx>) -> J {
        let mut o = vec![("ty", self.ty(p.ty))];
        let sub = |v: &Vec<FieldPat<'tcx>>| {
            J::A(v.iter()
                .map(|f| J::A(vec![J::I(f.field.as_u32() as i128), self.pat(&f.pattern)]))
                .collect())
        };
        match &p.kind {
            PatKind::Wild | PatKind::Missing => o.push(("k", s("wild"))),
            PatKind::Binding { name, mode, var, ty, subpattern, .. } => {
                o.push(("k", s("bind")));
                o.push(("name", s(name)));
                o.push(("byref", s(match mode.0 {
                    rustc_ast::ByRef::No => "no",
                    rustc_ast::ByRef::Yes(_, m) => if m.is_mut() { "mut" } else { "ref" },
                })));
                o.push(("mut", J::B(mode.1.is_mut())));
                o.push(("id", self.hid(var.0)));
                o.push(("bty", self.ty(*ty)));
                o.push(("sub", subpattern.as_ref().map(|x| self.pat(x)).unwrap_or(J::N)));
            }
            PatKind::Variant { adt_def, variant_index, subpatterns, .. } => {
                o.push(("k", s("variant")));
                o.push(("adt", s(self.d.path(adt_def.did()))));
                let v = adt_def.variant(*variant_index);
                o.push(("variant", s(v.name)));
                o.push(("nfields", J::I(v.fields.len() as i128)));
                o.push(("fields", J::A(v.fields.iter().map(|f| s(f.name)).collect())));
                o.push(("ctor", s(format!("{:?}", v.ctor_kind()))));
                o.push(("subs", sub(subpatterns)));
            }
            PatKind::Leaf { subpatterns } => {
                o.push(("k", s("leaf")));
                if let ty::Adt(def, _) = p.ty.kind() {
                    let v = def.non_enum_variant();
                    o.push(("adt", s(self.d.path(def.did()))));
                    o.push(("fields", J::A(v.fields.iter().map(|f| s(f.name)).collect())));
                    o.push(("ctor", s(format!("{:?}", v.ctor_kind()))));
                }
                o.push(("subs", sub(subpatterns)));
            }
            PatKind::Deref { subpattern, .. } => {
                o.push(("k", s("deref")));
                o.push(("sub", self.pat(subpattern)));
            }
            PatKind::Constant { value } => {
                o.push(("k", s("const")));
                o.push(("v", s(format!("{}", value))));
            }
            PatKind::Or { pats } => {
                o.push(("k", s("or")));
                o.push(("subs", J::A(pats.iter().map(|x| self.pat(x)).collect())));
            }
            k => {
                o.push(("k", s("unsupported")));
                o.push(("dbg", s(format!("{:?}", k).chars().take(80).collect::<String>())));
            }
        }
        J::O(o)
    }
    fn block(&self, b: BlockId) -> J {
        let b = &self.thir[b];
        let mut st = vec![];
        for x in b.stmts.iter() {
            match &self.thir[*x].kind {
                StmtKind::Expr { expr, .. } => st.push(J::O(vec![("k", s("expr")), ("e", self.e(*expr))])),
                StmtKind::Let { pattern, initializer, else_block, .. } => st.push(J::O(vec![
                    ("k", s("let")),
                    ("pat", self.pat(pattern)),
                    ("init", initializer.map(|x| self.e(x)).unwrap_or(J::N)),
                    ("els", else_block.map(|x| self.block(x)).unwrap_or(J::N)),
                ])),
                _ => st.push(J::O(vec![("k", s("unsupported"))])),
            }
        }
        J::O(vec![
            ("stmts", J::A(st)),
            ("tail", b.expr.map(|x| self.e(x)).unwrap_or(J::N)),
            ("labelled", J::B(b.targeted_by_break)),
        ])
    }
    fn es(&self, v: &[ExprId]) -> J {
        J::A(v.iter().map(|x| self.e(*x)).collect())
    }
    fn e(&self, id: ExprId) -> J {
        let x = &self.thir[id];
        let mut o: Vec<(&'static str, J)> = vec![];
        macro_rules! k { ($k:expr $(, $n:expr => $v:expr)*) => {{ o.push(("k", s($k))); $( o.push(($n, $v)); )* }} }
        match &x.kind {
            ExprKind::Scope { value, hir_id, .. } => {
                let j = self.e(*value);
                if let J::O(mut v) = j {
                    if !v.iter().any(|(k, _)| *k == "hid") {
                        v.push(("hid", J::I(hir_id.local_id.as_u32() as i128)));
                    }
                    return J::O(v);
                }
                return j;
            }
            ExprKind::If { cond, then, else_opt, .. } => {
                k!("if", "c" => self.e(*cond), "t" => self.e(*then), "f" => else_opt.map(|x| self.e(x)).unwrap_or(J::N))
            }
            ExprKind::Call { ty, fun, args, from_hir_call, .. } => {
                match ty.kind() {
                    ty::FnDef(id, a) => {
                        let a = a.no_bound_vars().unwrap_or_else(|| a.skip_binder());
                        k!("call", "callee" => self.d.callee(self.owner, *id, a), "args" => self.es(args), "src" => J::B(*from_hir_call))
                    }
                    _ => k!("callv", "fun" => self.e(*fun), "args" => self.es(args)),
                }
            }
            ExprKind::Deref { arg } => k!("deref", "e" => self.e(*arg)),
            ExprKind::Binary { op, lhs, rhs } => k!("bin", "op" => s(format!("{:?}", op)), "l" => self.e(*lhs), "r" => self.e(*rhs)),
            ExprKind::LogicalOp { op, lhs, rhs } => k!("logic", "op" => s(format!("{:?}", op)), "l" => self.e(*lhs), "r" => self.e(*rhs)),
            ExprKind::Unary { op, arg } => k!("un", "op" => s(format!("{:?}", op)), "e" => self.e(*arg)),
            ExprKind::Cast { source } => k!("cast", "e" => self.e(*source)),
            ExprKind::ValueExpr { source } => return self.e(*source),
            ExprKind::PlaceTypeAscription { source, .. } | ExprKind::ValueTypeAscription { source, .. } => return self.e(*source),
            ExprKind::NeverToAny { source } => k!("never", "e" => self.e(*source)),
            ExprKind::PointerCoercion { cast, source, .. } => k!("coerce", "cast" => s(format!("{:?}", cast)), "e" => self.e(*source)),
            ExprKind::Loop { body } => k!("loop", "b" => self.e(*body)),
            ExprKind::Let { expr, pat } => k!("let", "e" => self.e(*expr), "pat" => self.pat(pat)),
            ExprKind::Match { scrutinee, arms, match_source } => {
                let arms = arms.iter().map(|a| {
                    let a = &self.thir[*a];
                    J::O(vec![("pat", self.pat(&a.pattern)), ("guard", a.guard.map(|x| self.e(x)).unwrap_or(J::N)), ("body", self.e(a.body))])
                }).collect();
                k!("match", "e" => self.e(*scrutinee), "arms" => J::A(arms), "src" => s(format!("{:?}", match_source).chars().take_while(|c| c.is_alphanumeric()).collect::<String>()))
            }
            ExprKind::Block { block } => k!("block", "b" => self.block(*block)),
            ExprKind::Assign { lhs, rhs } => k!("assign", "l" => self.e(*lhs), "r" => self.e(*rhs)),
            ExprKind::AssignOp { op, lhs, rhs } => k!("assignop", "op" => s(format!("{:?}", op)), "l" => self.e(*lhs), "r" => self.e(*rhs)),
            ExprKind::Field { lhs, variant_index, name } => {
                let n = match self.thir[*lhs].ty.kind() {
                    ty::Adt(def, _) => def.variant(*variant_index).fields[*name].name.to_string(),
                    _ => name.as_u32().to_string(),
                };
                k!("field", "e" => self.e(*lhs), "n" => s(n))
            }
            ExprKind::Index { lhs, index } => k!("index", "e" => self.e(*lhs), "i" => self.e(*index)),
            ExprKind::VarRef { id } => k!("var", "id" => self.hid(id.0), "n" => s(self.tcx.hir_name(id.0))),
            ExprKind::UpvarRef { var_hir_id, .. } => k!("var", "id" => self.hid(var_hir_id.0), "n" => s(self.tcx.hir_name(var_hir_id.0)), "up" => J::B(true)),
            ExprKind::Borrow { borrow_kind, arg } => k!("borrow", "m" => J::B(!matches!(borrow_kind, rustc_middle::mir::BorrowKind::Shared | rustc_middle::mir::BorrowKind::Fake(_))), "e" => self.e(*arg)),
            ExprKind::Break { label, value } => k!("break", "l" => J::I(label.local_id.as_u32() as i128), "v" => value.map(|x| self.e(x)).unwrap_or(J::N)),
            ExprKind::Continue { label } => k!("continue", "l" => J::I(label.local_id.as_u32() as i128)),
            ExprKind::Return { value } => k!("return", "v" => value.map(|x| self.e(x)).unwrap_or(J::N)),
            ExprKind::Array { fields } => k!("array", "es" => self.es(fields)),
            ExprKind::Repeat { value, count } => k!("repeat", "e" => self.e(*value), "n" => s(format!("{}", count))),
            ExprKind::Tuple { fields } => k!("tuple", "es" => self.es(fields)),
            ExprKind::Adt(a) => {
                let v = a.adt_def.variant(a.variant_index);
                let fs = a.fields.iter().map(|f| J::A(vec![s(v.fields[f.name].name), self.e(f.expr)])).collect();
                let base = match &a.base { AdtExprBase::None => J::N, _ => s("base") };
                k!("adt", "adt" => s(self.d.path(a.adt_def.did())), "enum" => J::B(a.adt_def.is_enum()), "variant" => s(v.name), "ctor" => s(format!("{:?}", v.ctor_kind())), "fs" => J::A(fs), "base" => base)
            }
            ExprKind::Closure(c) => {
                let did = c.closure_id;
                k!("closure", "id" => s(self.d.path(did.to_def_id())), "body" => dump_body(self.d, did))
            }
            ExprKind::Literal { lit, neg } => {
                let v = match lit.node {
                    rustc_ast::LitKind::Int(n, _) => J::S(format!("{}{}", if *neg { "-" } else { "" }, n.get())),
                    rustc_ast::LitKind::Bool(b) => J::S(b.to_string()),
                    _ => J::N,
                };
                k!("lit", "v" => v, "dbg" => s(format!("{:?}", lit.node)))
            }
            ExprKind::NonHirLiteral { lit, .. } => k!("lit", "v" => s(format!("{:?}", lit))),
            ExprKind::ZstLiteral { .. } => k!("zst"),
            ExprKind::NamedConst { def_id, args, .. } => k!("const", "callee" => self.d.callee(self.owner, *def_id, args)),
            ExprKind::ConstParam { param, .. } => k!("constparam", "n" => s(param.name)),
            other => k!("unsupported", "dbg" => s(format!("{:?}", other).chars().take(60).collect::<String>())),
        }
        o.push(("ty", self.ty(x.ty)));
        o.push(("sp", self.d.span(x.span)));
        J::O(o)
    }
}

fn dump_body<'tcx>(d: &D<'tcx>, id: LocalDefId) -> J {
    let tcx = d.tcx;
    let Ok((thir, root)) = tcx.thir_body(id) else { return J::N };
    let thir = thir.borrow();
    let b = Body { d, tcx, thir: &thir, owner: id };
    let params = thir
        .params
        .iter()
        .map(|p| J::O(vec![("ty", b.ty(p.ty)), ("pat", p.pat.as_ref().map(|x| b.pat(x)).unwrap_or(J::N)), ("selfk", J::B(p.self_kind.is_some()))]))
        .collect();
    let kind = match tcx.def_kind(id) {
        DefKind::Fn | DefKind::AssocFn => "fn",
        DefKind::Closure => "closure",
        _ => "const",
    };
    let mut o = vec![
        ("path", s(d.path(id.to_def_id()))),
        ("kind", s(kind)),
        ("params", J::A(params)),
        ("ret", b.ty(thir.exprs[root].ty)),
        ("sp", d.span(tcx.def_span(id.to_def_id()))),
        ("endline", {
            let sm = tcx.sess.source_map();
            J::I(sm.lookup_char_pos(tcx.hir_span_with_body(tcx.local_def_id_to_hir_id(id)).hi()).line as i128)
        }),
    ];
    if kind == "fn" {
        let sig = tcx.instantiate_bound_regions_with_erased(tcx.fn_sig(id.to_def_id()).instantiate_identity().skip_norm_wip());
        o.push(("sig_in", J::A(sig.inputs().iter().map(|t| b.ty(*t)).collect())));
        o.push(("sig_out", b.ty(sig.output())));
        if let Some(im) = tcx.impl_of_assoc(id.to_def_id()) {
            o.push(("impl_self", b.ty(tcx.type_of(im).instantiate_identity().skip_norm_wip())));
            if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                let tr = tr.instantiate_identity().skip_norm_wip();
                o.push(("impl_trait", s(d.path(tr.def_id))));
                o.push(("impl_trait_args", d.args(id, tr.args, 0)));
            }
        }
        o.push(("vis", J::B(tcx.visibility(id.to_def_id()).is_public())));
    }
    o.push(("expr", b.e(root)));
    J::O(o)
}

struct Cb;
impl Callbacks for Cb {
    fn after_expansion<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        if tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).as_str() != "algeo" {
            return Compilation::Continue;
        }
        let d = D { tcx };
        let mut bodies = vec![];
        for id in tcx.hir_body_owners() {
            if tcx.is_closure_like(id.to_def_id()) {
                continue;
            }
            bodies.push(dump_body(&d, id));
        }
        let mut adts = vec![];
        for id in tcx.hir_crate_items(()).definitions() {
            if matches!(tcx.def_kind(id), DefKind::Struct | DefKind::Enum) {
                let def = tcx.adt_def(id.to_def_id());
                let vs = def.variants().iter().map(|v| {
                    let fs = v.fields.iter().map(|f| {
                        J::A(vec![s(f.name), d.ty(id, tcx.type_of(f.did).instantiate_identity().skip_norm_wip())])
                    }).collect();
                    J::O(vec![("name", s(v.name)), ("ctor", s(format!("{:?}", v.ctor_kind()))), ("fields", J::A(fs))])
                }).collect();
                let g = tcx.generics_of(id.to_def_id());
                let gs = g.own_params.iter().map(|p| J::A(vec![s(p.name), s(match p.kind { ty::GenericParamDefKind::Lifetime => "lt", ty::GenericParamDefKind::Type { .. } => "ty", _ => "const" })])).collect();
                adts.push(J::O(vec![("path", s(d.path(id.to_def_id()))), ("enum", J::B(def.is_enum())), ("generics", J::A(gs)), ("variants", J::A(vs))]));
            }
        }
        let mut o = String::new();
        J::O(vec![("bodies", J::A(bodies)), ("adts", J::A(adts))]).w(&mut o);
        let out = std::env::var("THIRDUMP_OUT").expect("THIRDUMP_OUT");
        std::fs::write(out, o).unwrap();
        Compilation::Stop
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    rustc_driver::compiler_entrypoint(&args, &mut Cb);
}
