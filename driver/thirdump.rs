// rustc driver that dumps the type-checked THIR of a crate as JSON.
//
//   THIR_OUT=<dir>  where <crate>-<kind>.json is written
//
// Used as RUSTC_WORKSPACE_WRAPPER (argv[1] is the real rustc), or called directly with rustc's
// own arguments.
#![feature(rustc_private)]
#![allow(rustc::internal)]
extern crate rustc_abi;
extern crate rustc_ast;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;
extern crate rustc_structures;

use rustc_driver::Compilation;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_middle::thir::*;
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, Ty, TyCtxt, TypeVisitableExt};
use std::collections::{BTreeMap, HashMap};
use std::fmt::Write;

#[derive(Clone)]
enum J {
    N,
    B(bool),
    I(i128),
    S(String),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
    M(Vec<(String, J)>),
}
fn esc(s: &str, o: &mut String) {
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f || (c as u32) > 0x7e => {
                let mut b = [0u16; 2];
                for u in c.encode_utf16(&mut b) {
                    write!(o, "\\u{:04x}", u).unwrap();
                }
            }
            c => o.push(c),
        }
    }
    o.push('"');
}
impl J {
    fn w(&self, o: &mut String) {
        match self {
            J::N => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::I(i) => write!(o, "{}", i).unwrap(),
            J::S(s) => esc(s, o),
            J::A(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    x.w(o);
                }
                o.push(']');
            }
            J::O(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    esc(k, o);
                    o.push(':');
                    x.w(o);
                }
                o.push('}');
            }
            J::M(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    esc(k, o);
                    o.push(':');
                    x.w(o);
                }
                o.push('}');
            }
        }
    }
}
fn s<T: ToString>(x: T) -> J {
    J::S(x.to_string())
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<J>,
    tyidx: HashMap<Ty<'tcx>, usize>,
    adts: BTreeMap<String, Option<J>>,
    env: ty::TypingEnv<'tcx>,
}

impl<'tcx> Cx<'tcx> {
    fn id(&self, d: DefId) -> String {
        let c = self.tcx.crate_name(d.krate);
        format!("{}{}", c, self.tcx.def_path(d).to_string_no_crate_verbose())
    }
    fn path(&self, d: DefId) -> String {
        with_no_trimmed_paths!(self.tcx.def_path_str(d))
    }
    fn args(&mut self, a: ty::GenericArgsRef<'tcx>) -> J {
        let mut v = vec![];
        for x in a.iter() {
            if let Some(t) = x.as_type() {
                v.push(J::I(self.ty(t) as i128));
            } else if let Some(c) = x.as_const() {
                v.push(self.konst(c));
            }
        }
        J::A(v)
    }
    fn konst(&mut self, c: ty::Const<'tcx>) -> J {
        if let Some(n) = c.try_to_target_usize(self.tcx) {
            return J::O(vec![("const", J::I(n as i128))]);
        }
        J::O(vec![("const", s(format!("{:?}", c)))])
    }
    fn defref(&mut self, d: DefId, a: ty::GenericArgsRef<'tcx>) -> J {
        let tcx = self.tcx;
        let mut o = vec![("id", s(self.id(d))), ("path", s(self.path(d)))];
        o.push(("args", self.args(a)));
        if let Some(t) = tcx.trait_of_assoc(d) {
            o.push(("trait", s(self.path(t))));
            o.push(("name", s(tcx.item_name(d))));
        } else if let Some(n) = tcx.opt_item_name(d) {
            o.push(("name", s(n)));
        }
        J::O(o)
    }
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let tcx = self.tcx;
        let t = if t.has_erasable_regions() { tcx.erase_and_anonymize_regions(t) } else { t };
        if let Some(i) = self.tyidx.get(&t) {
            return *i;
        }
        let i = self.types.len();
        self.types.push(J::N);
        self.tyidx.insert(t, i);
        let mut o: Vec<(&'static str, J)> = vec![];
        let k = match *t.kind() {
            ty::Bool => "bool",
            ty::Char => "char",
            ty::Int(x) => {
                o.push(("n", s(x.name_str())));
                "int"
            }
            ty::Uint(x) => {
                o.push(("n", s(x.name_str())));
                "int"
            }
            ty::Float(x) => {
                o.push(("n", s(x.name_str())));
                "float"
            }
            ty::Str => "str",
            ty::Never => "never",
            ty::Adt(d, a) => {
                o.push(("id", s(self.id(d.did()))));
                o.push(("path", s(self.path(d.did()))));
                o.push(("args", self.args(a)));
                self.adt(d);
                "adt"
            }
            ty::Array(e, n) => {
                o.push(("t", J::I(self.ty(e) as i128)));
                o.push(("n", self.konst(n)));
                "array"
            }
            ty::Slice(e) => {
                o.push(("t", J::I(self.ty(e) as i128)));
                "slice"
            }
            ty::RawPtr(e, m) => {
                o.push(("t", J::I(self.ty(e) as i128)));
                o.push(("mut", J::B(m.is_mut())));
                "ptr"
            }
            ty::Ref(_, e, m) => {
                o.push(("t", J::I(self.ty(e) as i128)));
                o.push(("mut", J::B(m.is_mut())));
                "ref"
            }
            ty::Tuple(ts) => {
                let v = ts.iter().map(|x| J::I(self.ty(x) as i128)).collect();
                o.push(("ts", J::A(v)));
                "tuple"
            }
            ty::Param(p) => {
                o.push(("n", s(p.name)));
                o.push(("i", J::I(p.index as i128)));
                "param"
            }
            ty::FnDef(d, a) => {
                let a = a.skip_binder();
                let d: DefId = d.into();
                o.push(("def", self.defref(d, a)));
                // resolve
                if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
                    let ea = tcx.erase_and_anonymize_regions(a);
                    if let Ok(Some(inst)) = ty::Instance::try_resolve(tcx, self.env, d, ea) {
                        let rd = inst.def_id();
                        if rd != d {
                            let r = self.defref(rd, inst.args);
                            o.push(("res", r));
                        }
                    }
                } else if let DefKind::Ctor(..) = tcx.def_kind(d) {
                    let out = tcx
                        .fn_sig(d)
                        .instantiate(tcx, a)
                        .skip_norm_wip()
                        .skip_binder()
                        .output();
                    let adt = out.ty_adt_def().unwrap();
                    let vi = adt.variant_index_with_ctor_id(d);
                    o.push(("ctor", J::A(vec![J::I(self.ty(out) as i128), J::I(vi.as_u32() as i128)])));
                }
                "fndef"
            }
            ty::FnPtr(..) => "fnptr",
            ty::Closure(d, _a) => {
                o.push(("id", s(self.id(d.into()))));
                "closure"
            }
            ty::Alias(_, at) => {
                let d: DefId = match at.kind {
                    ty::AliasTyKind::Projection { def_id } => def_id.into(),
                    ty::AliasTyKind::Inherent { def_id } => def_id.into(),
                    ty::AliasTyKind::Opaque { def_id } => def_id.into(),
                    ty::AliasTyKind::Free { def_id } => def_id.into(),
                };
                o.push(("path", s(self.path(d))));
                o.push(("args", self.args(at.args)));
                "alias"
            }
            ty::Dynamic(p, ..) => {
                if let Some(d) = p.principal_def_id() {
                    o.push(("path", s(self.path(d))));
                }
                "dyn"
            }
            _ => {
                o.push(("dbg", s(format!("{:?}", t))));
                "other"
            }
        };
        o.insert(0, ("k", s(k)));
        self.types[i] = J::O(o);
        i
    }
    fn adt(&mut self, d: ty::AdtDef<'tcx>) {
        let id = self.id(d.did());
        if self.adts.contains_key(&id) {
            return;
        }
        self.adts.insert(id.clone(), None);
        let tcx = self.tcx;
        // keep foreign private field types out unless few
        let mut vs = vec![];
        let local = d.did().is_local();
        for (vi, v) in d.variants().iter_enumerated() {
            let discr = if d.is_enum() {
                J::I(d.discriminant_for_variant(tcx, vi).val as i128)
            } else {
                J::N
            };
            let mut fs = vec![];
            for f in v.fields.iter() {
                let t = if local || d.is_enum() {
                    let ft = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                    J::I(self.ty(ft) as i128)
                } else {
                    J::N
                };
                fs.push(J::O(vec![("name", s(f.name)), ("ty", t), ("pub", J::B(f.vis.is_public()))]));
            }
            vs.push(J::O(vec![
                ("name", s(v.name)),
                ("discr", discr),
                ("ctor", match v.ctor_kind() { None => J::N, Some(k) => s(format!("{:?}", k)) }),
                ("fields", J::A(fs)),
            ]));
        }
        let gens = tcx
            .generics_of(d.did())
            .own_params
            .iter()
            .filter(|p| !matches!(p.kind, ty::GenericParamDefKind::Lifetime))
            .map(|p| s(p.name))
            .collect();
        let j = J::O(vec![
            ("id", s(&id)),
            ("path", s(self.path(d.did()))),
            ("kind", s(if d.is_enum() { "enum" } else if d.is_union() { "union" } else { "struct" })),
            ("local", J::B(local)),
            ("pub", J::B(tcx.visibility(d.did()).is_public())),
            ("generics", J::A(gens)),
            ("variants", J::A(vs)),
        ]);
        self.adts.insert(id, Some(j));
    }
    fn line(&self, sp: rustc_span::Span) -> J {
        let sp = sp.source_callsite();
        let lo = self.tcx.sess.source_map().lookup_char_pos(sp.lo());
        J::I(lo.line as i128)
    }
    fn file(&self, sp: rustc_span::Span) -> String {
        let sp = sp.source_callsite();
        let lo = self.tcx.sess.source_map().lookup_char_pos(sp.lo());
        format!("{}", lo.file.name.prefer_local_unconditionally())
    }
}

struct Body<'a, 'tcx> {
    cx: &'a mut Cx<'tcx>,
    th: &'a Thir<'tcx>,
    vars: HashMap<LocalVarId, usize>,
}
fn hv(v: LocalVarId) -> String {
    format!("{}_{}", v.0.owner.def_id.local_def_index.as_u32(), v.0.local_id.as_u32())
}

impl<'a, 'tcx> Body<'a, 'tcx> {
    fn e(&mut self, id: ExprId) -> J {
        let th = self.th;
        let ex = &th.exprs[id];
        let tcx = self.cx.tcx;
        if let ExprKind::Scope { value, region_scope, .. } = &ex.kind {
            // keep loop/block labels: attach the scope id to the inner expression
            let inner = self.e(*value);
            let _ = region_scope;
            return match inner {
                J::O(mut o) => {
                    if let Some(p) = o.iter_mut().find(|(k, _)| *k == "sc") {
                        if let J::A(v) = &mut p.1 {
                            v.push(s(format!("{:?}", region_scope.local_id.as_u32())));
                        }
                    } else {
                        o.push(("sc", J::A(vec![s(format!("{:?}", region_scope.local_id.as_u32()))])));
                    }
                    J::O(o)
                }
                x => x,
            };
        }
        let mut o: Vec<(&'static str, J)> = vec![];
        let k: &'static str = match &ex.kind {
            ExprKind::Scope { .. } => unreachable!(),
            ExprKind::If { cond, then, else_opt, .. } => {
                o.push(("c", self.e(*cond)));
                o.push(("t", self.e(*then)));
                o.push(("e", else_opt.map(|x| self.e(x)).unwrap_or(J::N)));
                "if"
            }
            ExprKind::Call { ty, fun, args, .. } => {
                let t = self.cx.ty(*ty);
                o.push(("fty", J::I(t as i128)));
                if !matches!(ty.kind(), ty::FnDef(..)) {
                    o.push(("f", self.e(*fun)));
                }
                o.push(("a", J::A(args.iter().map(|a| self.e(*a)).collect())));
                "call"
            }
            ExprKind::ByUse { expr, .. } => {
                o.push(("x", self.e(*expr)));
                "use"
            }
            ExprKind::Deref { arg } => {
                o.push(("x", self.e(*arg)));
                "deref"
            }
            ExprKind::Binary { op, lhs, rhs } => {
                o.push(("op", s(format!("{:?}", op))));
                o.push(("l", self.e(*lhs)));
                o.push(("r", self.e(*rhs)));
                "bin"
            }
            ExprKind::LogicalOp { op, lhs, rhs } => {
                o.push(("op", s(if matches!(op, LogicalOp::And) { "and" } else { "or" })));
                o.push(("l", self.e(*lhs)));
                o.push(("r", self.e(*rhs)));
                "logic"
            }
            ExprKind::Unary { op, arg } => {
                o.push(("op", s(format!("{:?}", op))));
                o.push(("x", self.e(*arg)));
                "un"
            }
            ExprKind::Cast { source } => {
                o.push(("x", self.e(*source)));
                "cast"
            }
            ExprKind::ValueExpr { source } => {
                o.push(("x", self.e(*source)));
                "value"
            }
            ExprKind::NeverToAny { source } => {
                o.push(("x", self.e(*source)));
                "never"
            }
            ExprKind::PointerCoercion { cast, source, .. } => {
                o.push(("cast", s(format!("{:?}", cast))));
                o.push(("x", self.e(*source)));
                "coerce"
            }
            ExprKind::Loop { body } => {
                o.push(("b", self.e(*body)));
                "loop"
            }
            ExprKind::Let { expr, pat } => {
                o.push(("x", self.e(*expr)));
                o.push(("p", self.p(pat)));
                "let"
            }
            ExprKind::Match { scrutinee, arms, match_source } => {
                o.push(("x", self.e(*scrutinee)));
                o.push(("src", s(match_source.name())));
                let mut v = vec![];
                for a in arms.iter() {
                    let a = &th.arms[*a];
                    let p = self.p(&a.pattern);
                    let g = a.guard.map(|g| self.e(g)).unwrap_or(J::N);
                    let b = self.e(a.body);
                    v.push(J::O(vec![("p", p), ("g", g), ("b", b)]));
                }
                o.push(("arms", J::A(v)));
                "match"
            }
            ExprKind::Block { block } => {
                o.push(("b", self.block(*block)));
                "block"
            }
            ExprKind::Assign { lhs, rhs } => {
                o.push(("l", self.e(*lhs)));
                o.push(("r", self.e(*rhs)));
                "assign"
            }
            ExprKind::AssignOp { op, lhs, rhs } => {
                o.push(("op", s(format!("{:?}", op))));
                o.push(("l", self.e(*lhs)));
                o.push(("r", self.e(*rhs)));
                "assignop"
            }
            ExprKind::Field { lhs, variant_index, name } => {
                o.push(("x", self.e(*lhs)));
                o.push(("v", J::I(variant_index.as_u32() as i128)));
                o.push(("i", J::I(name.as_u32() as i128)));
                "field"
            }
            ExprKind::Index { lhs, index } => {
                o.push(("l", self.e(*lhs)));
                o.push(("i", self.e(*index)));
                "index"
            }
            ExprKind::VarRef { id } => {
                o.push(("v", s(hv(*id))));
                "var"
            }
            ExprKind::UpvarRef { var_hir_id, .. } => {
                o.push(("v", s(hv(*var_hir_id))));
                "upvar"
            }
            ExprKind::Borrow { borrow_kind, arg } => {
                o.push(("mut", J::B(matches!(borrow_kind, rustc_middle::mir::BorrowKind::Mut { .. }))));
                o.push(("x", self.e(*arg)));
                "borrow"
            }
            ExprKind::RawBorrow { mutability, arg } => {
                o.push(("mut", J::B(mutability.is_mut())));
                o.push(("x", self.e(*arg)));
                "rawborrow"
            }
            ExprKind::Break { label, value } => {
                o.push(("lb", s(label.local_id.as_u32())));
                o.push(("x", value.map(|x| self.e(x)).unwrap_or(J::N)));
                "break"
            }
            ExprKind::Continue { label } => {
                o.push(("lb", s(label.local_id.as_u32())));
                "continue"
            }
            ExprKind::Return { value } => {
                o.push(("x", value.map(|x| self.e(x)).unwrap_or(J::N)));
                "return"
            }
            ExprKind::ConstBlock { did, args } => {
                o.push(("def", self.cx.defref(*did, args)));
                "constblock"
            }
            ExprKind::Repeat { value, count } => {
                o.push(("x", self.e(*value)));
                o.push(("n", self.cx.konst(*count)));
                "repeat"
            }
            ExprKind::Array { fields } => {
                o.push(("a", J::A(fields.iter().map(|a| self.e(*a)).collect())));
                "array"
            }
            ExprKind::Tuple { fields } => {
                o.push(("a", J::A(fields.iter().map(|a| self.e(*a)).collect())));
                "tuple"
            }
            ExprKind::Adt(a) => {
                o.push(("v", J::I(a.variant_index.as_u32() as i128)));
                let mut v = vec![];
                for f in a.fields.iter() {
                    let x = self.e(f.expr);
                    v.push(J::A(vec![J::I(f.name.as_u32() as i128), x]));
                }
                o.push(("f", J::A(v)));
                match &a.base {
                    AdtExprBase::Base(b) => {
                        let x = self.e(b.base);
                        o.push(("base", x));
                    }
                    _ => {}
                }
                "adt"
            }
            ExprKind::PlaceTypeAscription { source, .. } => {
                o.push(("x", self.e(*source)));
                "use"
            }
            ExprKind::ValueTypeAscription { source, .. } => {
                o.push(("x", self.e(*source)));
                "use"
            }
            ExprKind::Closure(c) => {
                o.push(("id", s(self.cx.id(c.closure_id.to_def_id()))));
                o.push(("up", J::A(c.upvars.iter().map(|a| self.e(*a)).collect())));
                "closure"
            }
            ExprKind::Literal { lit, neg } => {
                use rustc_ast::LitKind::*;
                let (lk, v) = match &lit.node {
                    Str(x, _) => ("str", s(x)),
                    ByteStr(x, _) | CStr(x, _) => {
                        ("bytes", J::A(x.as_byte_str().iter().map(|b| J::I(*b as i128)).collect()))
                    }
                    Byte(b) => ("int", J::I(*b as i128)),
                    Char(c) => ("char", s(c)),
                    Int(n, _) => ("int", J::I(if *neg { -(n.get() as i128) } else { n.get() as i128 })),
                    Float(f, _) => ("float", s(f)),
                    Bool(b) => ("bool", J::B(*b)),
                    Err(_) => ("err", J::N),
                };
                o.push(("lk", s(lk)));
                o.push(("v", v));
                "lit"
            }
            ExprKind::NonHirLiteral { lit, .. } => {
                o.push(("lk", s("int")));
                o.push(("v", J::I(lit.to_bits_unchecked() as i128)));
                "lit"
            }
            ExprKind::ZstLiteral { .. } => "zst",
            ExprKind::NamedConst { def_id, args, .. } => {
                o.push(("def", self.cx.defref(*def_id, args)));
                if let Ok(v) = tcx.const_eval_resolve(
                    self.cx.env,
                    rustc_middle::mir::UnevaluatedConst::new(*def_id, args),
                    rustc_span::DUMMY_SP,
                ) {
                    if let Some(sc) = v.try_to_scalar_int() {
                        o.push(("bits", J::I(sc.to_bits_unchecked() as i128)));
                    }
                }
                "const"
            }
            ExprKind::ConstParam { param, .. } => {
                o.push(("n", s(param.name)));
                "constparam"
            }
            ExprKind::StaticRef { def_id, .. } => {
                o.push(("id", s(self.cx.id(*def_id))));
                o.push(("path", s(self.cx.path(*def_id))));
                o.push(("mut", J::B(tcx.is_mutable_static(*def_id))));
                "static"
            }
            ExprKind::ThreadLocalRef(d) => {
                o.push(("id", s(self.cx.id(*d))));
                "tls"
            }
            _ => {
                o.push(("dbg", s(format!("{:?}", ex.kind).chars().take(200).collect::<String>())));
                "unsupported"
            }
        };
        o.insert(0, ("k", s(k)));
        let t = self.cx.ty(ex.ty);
        o.push(("ty", J::I(t as i128)));
        o.push(("s", self.cx.line(ex.span)));
        J::O(o)
    }
    fn block(&mut self, b: BlockId) -> J {
        let th = self.th;
        let b = &th.blocks[b];
        let mut v = vec![];
        for st in b.stmts.iter() {
            match &th.stmts[*st].kind {
                StmtKind::Expr { expr, .. } => {
                    let x = self.e(*expr);
                    v.push(J::O(vec![("k", s("expr")), ("x", x)]));
                }
                StmtKind::Let { pattern, initializer, else_block, span, .. } => {
                    let i = initializer.map(|x| self.e(x)).unwrap_or(J::N);
                    let p = self.p(pattern);
                    let eb = else_block.map(|x| self.block(x)).unwrap_or(J::N);
                    v.push(J::O(vec![("k", s("let")), ("p", p), ("x", i), ("else", eb), ("s", self.cx.line(*span))]));
                }
            }
        }
        let e = b.expr.map(|x| self.e(x)).unwrap_or(J::N);
        J::O(vec![
            ("st", J::A(v)),
            ("e", e),
            ("lab", J::B(b.targeted_by_break)),
            ("sc", s(b.region_scope.local_id.as_u32())),
        ])
    }
    fn ps<'b>(&mut self, v: impl Iterator<Item = &'b Pat<'tcx>>) -> J
    where
        'tcx: 'b,
    {
        J::A(v.map(|p| self.p(p)).collect())
    }
    fn p(&mut self, p: &Pat<'tcx>) -> J {
        let mut o: Vec<(&'static str, J)> = vec![];
        let k = match &p.kind {
            PatKind::Missing | PatKind::Wild => "wild",
            PatKind::Never => "never",
            PatKind::Binding { name, mode, var, subpattern, .. } => {
                let n = self.vars.len();
                self.vars.entry(*var).or_insert(n);
                o.push(("n", s(name)));
                o.push(("v", s(hv(*var))));
                o.push(("by", s(match mode.0 {
                    rustc_ast::ByRef::No => "val",
                    rustc_ast::ByRef::Yes(_, m) => if m.is_mut() { "refmut" } else { "ref" },
                })));
                o.push(("sub", match subpattern {
                    Some(x) => self.p(x),
                    None => J::N,
                }));
                "bind"
            }
            PatKind::Variant { adt_def, variant_index, subpatterns, .. } => {
                self.cx.adt(*adt_def);
                o.push(("adt", s(self.cx.id(adt_def.did()))));
                o.push(("v", J::I(variant_index.as_u32() as i128)));
                let mut v = vec![];
                for f in subpatterns {
                    let x = self.p(&f.pattern);
                    v.push(J::A(vec![J::I(f.field.as_u32() as i128), x]));
                }
                o.push(("f", J::A(v)));
                "variant"
            }
            PatKind::Leaf { subpatterns } => {
                let mut v = vec![];
                for f in subpatterns {
                    let x = self.p(&f.pattern);
                    v.push(J::A(vec![J::I(f.field.as_u32() as i128), x]));
                }
                o.push(("f", J::A(v)));
                "leaf"
            }
            PatKind::Deref { subpattern, .. } => {
                o.push(("p", self.p(subpattern)));
                "deref"
            }
            PatKind::DerefPattern { subpattern, .. } => {
                o.push(("p", self.p(subpattern)));
                "derefpat"
            }
            PatKind::Constant { value } => {
                let v = *value;
                if let Some(b) = v.try_to_raw_bytes(self.cx.tcx) {
                    match std::str::from_utf8(b) {
                        Ok(x) if matches!(v.ty.kind(), ty::Ref(_, t, _) if t.is_str()) => {
                            o.push(("lk", s("str")));
                            o.push(("c", s(x)));
                        }
                        _ => {
                            o.push(("lk", s("bytes")));
                            o.push(("c", J::A(b.iter().map(|b| J::I(*b as i128)).collect())));
                        }
                    }
                } else if v.ty.is_str() {
                    // a bare str value: leaves of u8
                    let mut bs = vec![];
                    for ct in v.to_branch().iter() {
                        if let Some(x) = (*ct).try_to_value() {
                            if let Some(l) = x.try_to_leaf() { bs.push(l.to_u8()); }
                        }
                    }
                    o.push(("lk", s("str")));
                    o.push(("c", s(String::from_utf8_lossy(&bs))));
                } else if let Some(l) = v.try_to_leaf() {
                    let n = if v.ty.is_signed() {
                        l.to_int(l.size())
                    } else {
                        l.to_bits_unchecked() as i128
                    };
                    o.push(("lk", s("int")));
                    o.push(("c", J::I(n)));
                } else {
                    o.push(("lk", s("other")));
                    o.push(("c", s(format!("{:?}", v))));
                }
                "const"
            }
            PatKind::Range(r) => {
                let sg = r.ty.is_signed();
                let conv = |b: PatRangeBoundary<'tcx>| -> J {
                    match b {
                        PatRangeBoundary::Finite(v) => {
                            let l = v.to_leaf();
                            J::I(if sg { l.to_int(l.size()) } else { l.to_bits_unchecked() as i128 })
                        }
                        _ => J::N,
                    }
                };
                o.push(("lo", conv(r.lo)));
                o.push(("hi", conv(r.hi)));
                o.push(("incl", J::B(matches!(r.end, rustc_hir::RangeEnd::Included))));
                "range"
            }
            PatKind::Slice { prefix, slice, suffix } | PatKind::Array { prefix, slice, suffix } => {
                let a = self.ps(prefix.iter());
                let m = match slice {
                    Some(x) => self.p(x),
                    None => J::N,
                };
                let z = self.ps(suffix.iter());
                o.push(("pre", a));
                o.push(("mid", m));
                o.push(("suf", z));
                "slice"
            }
            PatKind::Or { pats } => {
                let v = self.ps(pats.iter());
                o.push(("ps", v));
                "or"
            }
            PatKind::Guard { subpattern, condition } => {
                o.push(("p", self.p(subpattern)));
                o.push(("g", self.e(*condition)));
                "guard"
            }
            PatKind::Error(_) => "err",
        };
        o.insert(0, ("k", s(k)));
        let t = self.cx.ty(p.ty);
        o.push(("ty", J::I(t as i128)));
        J::O(o)
    }
}

struct Cb;
impl rustc_driver::Callbacks for Cb {
    fn config(&mut self, config: &mut rustc_interface::Config) {
        config.opts.unstable_opts.no_steal_thir = true;
    }
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        if let Ok(dir) = std::env::var("THIR_OUT") {
            let name = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
            let kind = if tcx.crate_types().iter().any(|t| *t == rustc_structures::CrateType::Executable) { "bin" } else { "lib" };
            let is_test = tcx.sess.opts.test;
            if !is_test && name != "build_script_build" {
                dump(tcx, &format!("{}/{}-{}.json", dir, name, kind));
            }
        }
        Compilation::Continue
    }
}

fn dump<'tcx>(tcx: TyCtxt<'tcx>, out: &str) {
    let mut cx = Cx {
        tcx,
        types: vec![],
        tyidx: HashMap::new(),
        adts: BTreeMap::new(),
        env: ty::TypingEnv::fully_monomorphized(),
    };
    let mut bodies: Vec<J> = vec![];
    let mut fns: Vec<J> = vec![];
    let mut impls: Vec<J> = vec![];
    let mut items: Vec<J> = vec![];
    // items
    for ld in tcx.hir_crate_items(()).definitions() {
        let d = ld.to_def_id();
        let dk = tcx.def_kind(d);
        match dk {
            DefKind::Struct | DefKind::Enum | DefKind::Union => {
                let a = tcx.adt_def(d);
                cx.adt(a);
                items.push(J::O(vec![("kind", s(format!("{:?}", dk))), ("id", s(cx.id(d))), ("path", s(cx.path(d))), ("pub", J::B(tcx.visibility(d).is_public()))]));
            }
            DefKind::Impl { of_trait } => {
                let st = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let stj = cx.ty(st) as i128;
                let mut o = vec![("id", s(cx.id(d))), ("self", J::I(stj))];
                if of_trait {
                    let tr = tcx.impl_trait_ref(d).instantiate_identity().skip_norm_wip();
                    let p = cx.path(tr.def_id);
                    o.push(("trait", s(p)));
                    let a = cx.args(tr.args);
                    o.push(("targs", a));
                    o.push(("derived", J::B(tcx.is_automatically_derived(d))));
                }
                let gens = tcx.generics_of(d).own_params.iter()
                    .filter(|p| !matches!(p.kind, ty::GenericParamDefKind::Lifetime))
                    .map(|p| s(p.name)).collect();
                o.push(("generics", J::A(gens)));
                let mut its = vec![];
                for it in tcx.associated_items(d).in_definition_order() {
                    let n = it.opt_name().map(|x| x.to_string()).unwrap_or_default();
                    if let ty::AssocKind::Type { .. } = it.kind {
                        let t = tcx.type_of(it.def_id).instantiate_identity().skip_norm_wip();
                        let ti = cx.ty(t) as i128;
                        its.push((n, J::O(vec![("ty", J::I(ti))])));
                    } else {
                        its.push((n, s(cx.id(it.def_id))));
                    }
                }
                o.push(("items", J::M(its)));
                o.push(("line", cx.line(tcx.def_span(d))));
                impls.push(J::O(o));
            }
            DefKind::Static { .. } | DefKind::Const { .. } | DefKind::Trait => {
                items.push(J::O(vec![("kind", s(format!("{:?}", dk))), ("id", s(cx.id(d))), ("path", s(cx.path(d))),
                    ("pub", J::B(tcx.visibility(d).is_public())), ("line", cx.line(tcx.def_span(d)))]));
            }
            _ => {}
        }
    }
    let owners: Vec<LocalDefId> = tcx.hir_body_owners().collect();
    for ld in owners {
        let d = ld.to_def_id();
        let dk = tcx.def_kind(d);
        let is_fn = matches!(dk, DefKind::Fn | DefKind::AssocFn);
        let root = tcx.typeck_root_def_id(d);
        cx.env = ty::TypingEnv::non_body_analysis(tcx, root);
        let Ok((th, root_e)) = tcx.thir_body(ld) else { continue };
        let th = th.borrow();
        let mut b = Body { cx: &mut cx, th: &th, vars: HashMap::new() };
        let mut params = vec![];
        for p in th.params.iter() {
            let pj = match &p.pat {
                Some(x) => b.p(x),
                None => J::N,
            };
            let t = b.cx.ty(p.ty) as i128;
            params.push(J::O(vec![("p", pj), ("ty", J::I(t))]));
        }
        let e = b.e(root_e);
        let sp = tcx.def_span(d);
        let mut o = vec![
            ("id", s(cx.id(d))),
            ("path", s(cx.path(d))),
            ("kind", s(format!("{:?}", dk))),
            ("file", s(cx.file(sp))),
            ("line", cx.line(sp)),
            ("params", J::A(params)),
            ("e", e),
        ];
        if is_fn {
            let gens = ty::GenericArgs::identity_for_item(tcx, d)
                .iter()
                .filter_map(|x| x.as_type().map(|t| s(format!("{}", t))).or(x.as_const().map(|c| s(format!("{}", c)))))
                .collect();
            o.push(("generics", J::A(gens)));
            let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip().skip_binder();
            let out_t = cx.ty(sig.output()) as i128;
            o.push(("ret", J::I(out_t)));
            o.push(("pub", J::B(tcx.visibility(d).is_public())));
            if let Some(i) = tcx.impl_of_assoc(d) {
                o.push(("impl", s(cx.id(i))));
            }
            if let Some(t) = tcx.trait_of_assoc(d) {
                o.push(("trait", s(cx.path(t))));
            }
            o.push(("name", s(tcx.item_name(d))));
        }
        bodies.push(J::O(o));
        let _ = &mut fns;
    }
    let adts = J::M(cx.adts.iter().filter_map(|(k, v)| v.clone().map(|v| (k.clone(), v))).collect());
    let j = J::O(vec![
        ("crate", s(tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE))),
        ("types", J::A(cx.types.clone())),
        ("adts", adts),
        ("impls", J::A(impls)),
        ("items", J::A(items)),
        ("bodies", J::A(bodies)),
    ]);
    let mut o = String::new();
    j.w(&mut o);
    let tmp = format!("{}.tmp{}", out, std::process::id());
    std::fs::write(&tmp, o).unwrap();
    std::fs::rename(&tmp, out).unwrap();
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].ends_with("/rustc")) {
        args.remove(1);
    }
    rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Cb))
}
