//! mirdump: a rustc driver that writes the monomorphic MIR of the crate being compiled as JSON.
//!
//! It is injected with RUSTC_WORKSPACE_WRAPPER, so it sees the crate exactly as cargo builds it. For
//! the crate named in MIRDUMP_CRATE it writes every function of the crate (generic ones instantiated
//! with the crate's own RFC 5389 attribute set) and everything they reach through resolved calls.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_infer;
extern crate rustc_trait_selection;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public;
extern crate rustc_public_bridge;
extern crate rustc_span;

use rustc_infer::infer::TyCtxtInferExt;
use rustc_middle::ty::TyCtxt;
use rustc_trait_selection::infer::InferCtxtExt;
use rustc_public::abi::{FieldsShape, TagEncoding, VariantsShape};
use rustc_public::mir::alloc::{AllocId, GlobalAlloc};
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::rustc_internal;
use rustc_public::ty::*;
use rustc_public::{CrateDef, CrateDefType, CrateItem, ItemKind};
use rustc_public_bridge::IndexedVal;
use std::collections::HashMap;
use std::fmt::Write;

mod json;
use json::J;

struct Dump<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: Vec<J>,
    ty_ids: HashMap<Ty, usize>,
    allocs: HashMap<AllocId, usize>,
    alloc_out: Vec<J>,
    insts: Vec<Option<J>>,
    inst_ids: HashMap<Instance, usize>,
    todo: Vec<(Instance, usize)>,
    iter_seen: std::collections::HashSet<Ty>,
}

fn s(x: impl Into<String>) -> J {
    J::S(x.into())
}
fn n(x: impl TryInto<i128>) -> J {
    J::N(x.try_into().ok().expect("number"))
}
fn dbg(x: &impl std::fmt::Debug) -> J {
    J::S(format!("{:?}", x))
}
fn obj(v: Vec<(&str, J)>) -> J {
    J::O(v.into_iter().map(|(a, b)| (a.to_string(), b)).collect())
}

impl<'tcx> Dump<'tcx> {
    fn span(&self, sp: Span) -> J {
        let l = sp.get_lines();
        let f = sp.get_filename().to_string();
        s(format!("{}:{}", f, l.start_line))
    }

    fn ty(&mut self, t: Ty) -> usize {
        if let Some(i) = self.ty_ids.get(&t) {
            return *i;
        }
        let id = self.tys.len();
        self.tys.push(J::Null);
        self.ty_ids.insert(t, id);
        let j = self.ty_json(t);
        self.tys[id] = j;
        id
    }

    fn normal(&self, t: Ty) -> Ty {
        let i = rustc_internal::internal(self.tcx, t);
        let env = rustc_middle::ty::TypingEnv::fully_monomorphized();
        let i = self.tcx.normalize_erasing_regions(env, rustc_middle::ty::Unnormalized::new_wip(i));
        rustc_internal::stable(i)
    }

    fn generic(&self, t: Ty) -> bool {
        use rustc_middle::ty::TypeVisitableExt;
        let i = rustc_internal::internal(self.tcx, t);
        i.has_param() || i.has_aliases()
    }

    fn generic_args(&mut self, a: &GenericArgs) -> J {
        let mut v = vec![];
        for g in &a.0 {
            match g {
                GenericArgKind::Type(t) => v.push(n(self.ty(*t) as i128)),
                GenericArgKind::Const(c) => v.push(match c.eval_target_usize() {
                    Ok(x) => s(format!("const {}", x)),
                    Err(_) => dbg(c),
                }),
                GenericArgKind::Lifetime(_) => {}
            }
        }
        J::A(v)
    }

    fn layout(&mut self, t: Ty) -> J {
        let Ok(l) = t.layout() else { return J::Null };
        let sh = l.shape();
        let offs = |f: &FieldsShape| -> J {
            match f {
                FieldsShape::Arbitrary { offsets } => {
                    J::A(offsets.iter().map(|o| n(o.bytes() as i128)).collect())
                }
                _ => J::Null,
            }
        };
        let mut o = vec![
            ("size", n(sh.size.bytes() as i128)),
            ("align", n(sh.abi_align as i128)),
            ("offsets", offs(&sh.fields)),
        ];
        match &sh.variants {
            VariantsShape::Empty => o.push(("variants", s("empty"))),
            VariantsShape::Single { index } => {
                o.push(("variants", s("single")));
                o.push(("single", n(index.to_index() as i128)));
            }
            VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                o.push(("variants", s("multiple")));
                o.push(("tag", dbg(tag)));
                o.push(("tag_field", n(*tag_field as i128)));
                o.push((
                    "tag_encoding",
                    match tag_encoding {
                        TagEncoding::Direct => s("direct"),
                        TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                            obj(vec![
                                ("untagged", n(untagged_variant.to_index() as i128)),
                                ("lo", n(niche_variants.start().to_index() as i128)),
                                ("hi", n(niche_variants.end().to_index() as i128)),
                                ("start", s(format!("{}", niche_start))),
                            ])
                        }
                    },
                ));
                o.push((
                    "variant_offsets",
                    J::A(
                        variants
                            .iter()
                            .map(|v| {
                                J::A(v.offsets.iter().map(|o| n(o.bytes() as i128)).collect())
                            })
                            .collect(),
                    ),
                ));
            }
        }
        obj(o)
    }

    /// What the compiler proves about a type: may be sent to another thread, shared, has no interior mutability.
    fn auto_traits(&self, t: Ty) -> J {
        let tcx = self.tcx;
        let ty = rustc_internal::internal(tcx, &t);
        let env = rustc_middle::ty::TypingEnv::fully_monomorphized();
        let holds = |tr: Option<rustc_hir::def_id::DefId>| match tr {
            None => J::Null,
            Some(tr) => {
                let (infcx, param_env) = tcx.infer_ctxt().build_with_typing_env(env);
                J::B(infcx.type_implements_trait(tr, [ty], param_env).must_apply_modulo_regions())
            }
        };
        obj(vec![
            ("send", holds(tcx.get_diagnostic_item(rustc_span::sym::Send))),
            ("sync", holds(tcx.lang_items().sync_trait())),
            ("freeze", J::B(ty.is_freeze(tcx, env))),
        ])
    }

    fn ty_json(&mut self, t: Ty) -> J {
        let name = format!("{}", t);
        let mut o: Vec<(&str, J)> = vec![("name", s(name))];
        match t.kind() {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool => o.push(("k", s("bool"))),
                RigidTy::Char => o.push(("k", s("char"))),
                RigidTy::Int(i) => {
                    o.push(("k", s("int")));
                    o.push(("bits", n(i.num_bytes() as i128 * 8)));
                }
                RigidTy::Uint(i) => {
                    o.push(("k", s("uint")));
                    o.push(("bits", n(i.num_bytes() as i128 * 8)));
                }
                RigidTy::Float(_) => o.push(("k", s("float"))),
                RigidTy::Adt(d, a) => {
                    o.push(("k", s("adt")));
                    o.push(("def", s(d.name())));
                    o.push(("adt_kind", dbg(&d.kind())));
                    o.push(("krate", s(d.krate().name)));
                    let args = self.generic_args(&a);
                    o.push(("args", args));
                    let mut vs = vec![];
                    for v in d.variants() {
                        let mut fs = vec![];
                        for f in v.fields() {
                            let ft = self.normal(f.ty_with_args(&a));
                            fs.push(J::A(vec![s(f.name.to_string()), n(self.ty(ft) as i128)]));
                        }
                        let discr = if d.kind() == AdtKind::Enum {
                            s(format!("{}", d.discriminant_for_variant(v.idx()).val))
                        } else {
                            s("0")
                        };
                        vs.push(obj(vec![("name", s(v.name())), ("fields", J::A(fs)), ("discr", discr)]));
                    }
                    o.push(("variants", J::A(vs)));
                    let l = self.layout(t);
                    o.push(("layout", l));
                    let at = self.auto_traits(t);
                    o.push(("auto", at));
                }
                RigidTy::Foreign(_) => o.push(("k", s("foreign"))),
                RigidTy::Str => o.push(("k", s("str"))),
                RigidTy::Array(e, c) => {
                    o.push(("k", s("array")));
                    o.push(("elem", n(self.ty(e) as i128)));
                    o.push(("len", n(c.eval_target_usize().unwrap_or(0) as i128)));
                    let l = self.layout(t);
                    o.push(("layout", l));
                }
                RigidTy::Slice(e) => {
                    o.push(("k", s("slice")));
                    o.push(("elem", n(self.ty(e) as i128)));
                }
                RigidTy::RawPtr(e, m) => {
                    o.push(("k", s("ptr")));
                    o.push(("elem", n(self.ty(e) as i128)));
                    o.push(("mut", dbg(&m)));
                }
                RigidTy::Ref(_, e, m) => {
                    o.push(("k", s("ref")));
                    o.push(("elem", n(self.ty(e) as i128)));
                    o.push(("mut", dbg(&m)));
                }
                RigidTy::FnDef(d, a) => {
                    o.push(("k", s("fndef")));
                    o.push(("def", s(d.name())));
                    let args = self.generic_args(&a);
                    o.push(("args", args));
                    if let Ok(i) = Instance::resolve(d, &a) {
                        let i = self.inst(i);
                        o.push(("inst", n(i as i128)));
                    }
                }
                RigidTy::FnPtr(_) => o.push(("k", s("fnptr"))),
                RigidTy::Closure(d, a) => {
                    o.push(("k", s("closure")));
                    o.push(("def", s(d.name())));
                    // Upvar types sit in the closure's own (last) tuple argument.
                    let mut ups = vec![];
                    if let Some(GenericArgKind::Type(u)) = a.0.last() {
                        if let TyKind::RigidTy(RigidTy::Tuple(ts)) = u.kind() {
                            for x in ts {
                                ups.push(n(self.ty(x) as i128));
                            }
                        }
                    }
                    o.push(("upvars", J::A(ups)));
                    let l = self.layout(t);
                    o.push(("layout", l));
                }
                RigidTy::Never => o.push(("k", s("never"))),
                RigidTy::Tuple(ts) => {
                    o.push(("k", s("tuple")));
                    let v = ts.iter().map(|x| n(self.ty(*x) as i128)).collect();
                    o.push(("elems", J::A(v)));
                    let l = self.layout(t);
                    o.push(("layout", l));
                }
                RigidTy::Dynamic(..) => o.push(("k", s("dyn"))),
                other => {
                    o.push(("k", s("other")));
                    o.push(("dbg", dbg(&other)));
                }
            },
            other => {
                o.push(("k", s("unresolved")));
                o.push(("dbg", dbg(&other)));
            }
        }
        obj(o)
    }

    fn allocation(&mut self, a: &Allocation) -> J {
        let mut hex = String::new();
        for b in &a.bytes {
            match b {
                Some(b) => write!(hex, "{:02x}", b).unwrap(),
                None => hex.push_str("__"),
            }
        }
        let mut ps = vec![];
        for (off, p) in &a.provenance.ptrs {
            let id = self.alloc(p.0);
            ps.push(J::A(vec![n(*off as i128), n(id as i128)]));
        }
        obj(vec![("bytes", s(hex)), ("ptrs", J::A(ps)), ("mut", dbg(&a.mutability))])
    }

    fn alloc(&mut self, id: AllocId) -> usize {
        if let Some(i) = self.allocs.get(&id) {
            return *i;
        }
        let k = self.alloc_out.len();
        self.alloc_out.push(J::Null);
        self.allocs.insert(id, k);
        let j = match GlobalAlloc::from(id) {
            GlobalAlloc::Memory(a) => {
                let a = self.allocation(&a);
                obj(vec![("k", s("mem")), ("alloc", a)])
            }
            GlobalAlloc::Function(i) => {
                let i = self.inst(i);
                obj(vec![("k", s("fn")), ("inst", n(i as i128))])
            }
            GlobalAlloc::Static(d) => {
                let t = self.ty(d.ty());
                obj(vec![
                    ("k", s("static")),
                    ("name", s(d.name())),
                    ("krate", s(d.krate().name)),
                    ("ty", n(t as i128)),
                    ("mut", J::B(self.tcx.is_mutable_static(rustc_internal::internal(self.tcx, d.def_id())))),
                ])
            }
            GlobalAlloc::VTable(t, _) => {
                let t = self.ty(t);
                obj(vec![("k", s("vtable")), ("ty", n(t as i128))])
            }
            other => obj(vec![("k", s("other")), ("dbg", dbg(&other))]),
        };
        self.alloc_out[k] = j;
        k
    }

    fn inst(&mut self, i: Instance) -> usize {
        if let Some(k) = self.inst_ids.get(&i) {
            return *k;
        }
        let k = self.insts.len();
        self.insts.push(None);
        self.inst_ids.insert(i, k);
        self.todo.push((i, k));
        k
    }

    /// The functions by which an iterator, or something turned into one, is gone through.
    fn iterator(&mut self, t: Ty) {
        if !matches!(t.kind(), TyKind::RigidTy(RigidTy::Adt(..)) | TyKind::RigidTy(RigidTy::Array(..)) | TyKind::RigidTy(RigidTy::Ref(..))) || self.generic(t) {
            return;
        }
        if !self.iter_seen.insert(t) {
            return;
        }
        let ga = GenericArgs(vec![GenericArgKind::Type(t)]);
        let ia = rustc_internal::internal(self.tcx, &ga);
        let tcx = self.tcx;
        let resolve = |f: rustc_span::def_id::DefId| -> Option<Instance> {
            if tcx.instantiate_and_check_impossible_clauses((f, ia)) {
                return None;
            }
            match rustc_internal::stable(tcx.type_of(f).instantiate_identity().skip_norm_wip()).kind() {
                TyKind::RigidTy(RigidTy::FnDef(nd, _)) => Instance::resolve(nd, &ga).ok(),
                _ => None,
            }
        };
        let next = self.tcx.lang_items().next_fn().and_then(|f| resolve(f));
        match next {
            Some(i) => {
                self.inst(i);
            }
            None => {
                if let Some(i) = self.tcx.lang_items().into_iter_fn().and_then(|f| resolve(f)) {
                    self.inst(i);
                    if let Some(body) = i.body() {
                        let rt = body.locals()[0].ty;
                        self.iterator(rt);
                    }
                }
            }
        }
    }
    fn konst(&mut self, c: &MirConst) -> J {
        let t = self.ty(c.ty());
        match c.kind() {
            ConstantKind::Allocated(a) => {
                let a = self.allocation(a);
                obj(vec![("c", s("alloc")), ("ty", n(t as i128)), ("alloc", a)])
            }
            ConstantKind::ZeroSized => obj(vec![("c", s("zst")), ("ty", n(t as i128))]),
            ConstantKind::Ty(tc) => match tc.eval_target_usize() {
                Ok(v) => obj(vec![("c", s("usize")), ("ty", n(t as i128)), ("v", s(format!("{}", v)))]),
                Err(_) => obj(vec![("c", s("other")), ("ty", n(t as i128)), ("dbg", dbg(c))]),
            },
            _ => obj(vec![("c", s("other")), ("ty", n(t as i128)), ("dbg", dbg(c))]),
        }
    }

    fn operand(&mut self, o: &Operand) -> J {
        match o {
            Operand::Copy(p) => J::A(vec![s("copy"), self.place(p)]),
            Operand::Move(p) => J::A(vec![s("move"), self.place(p)]),
            Operand::Constant(c) => J::A(vec![s("const"), self.konst(&c.const_)]),
            #[allow(unreachable_patterns)]
            other => J::A(vec![s("rt"), dbg(other)]),
        }
    }

    fn place(&mut self, p: &Place) -> J {
        let mut v = vec![n(p.local as i128)];
        for e in &p.projection {
            v.push(match e {
                ProjectionElem::Deref => J::A(vec![s("*")]),
                ProjectionElem::Field(i, t) => J::A(vec![s("f"), n(*i as i128), n(self.ty(*t) as i128)]),
                ProjectionElem::Index(l) => J::A(vec![s("i"), n(*l as i128)]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => J::A(vec![
                    s("ci"),
                    n(*offset as i128),
                    n(*min_length as i128),
                    J::B(*from_end),
                ]),
                ProjectionElem::Subslice { from, to, from_end } => {
                    J::A(vec![s("ss"), n(*from as i128), n(*to as i128), J::B(*from_end)])
                }
                ProjectionElem::Downcast(v) => J::A(vec![s("d"), n(v.to_index() as i128)]),
                ProjectionElem::OpaqueCast(_) => J::A(vec![s("oc")]),
            });
        }
        J::A(v)
    }

    fn rvalue(&mut self, r: &Rvalue, locals: &[LocalDecl]) -> J {
        match r {
            Rvalue::AddressOf(k, p) => J::A(vec![s("addr"), dbg(k), self.place(p)]),
            Rvalue::Ref(_, k, p) => J::A(vec![s("ref"), dbg(k), self.place(p)]),
            Rvalue::Aggregate(k, ops) => {
                let kk = match k {
                    AggregateKind::Array(_) => J::A(vec![s("array")]),
                    AggregateKind::Tuple => J::A(vec![s("tuple")]),
                    AggregateKind::Adt(_, v, _, _, f) => {
                        J::A(vec![s("adt"), n(v.to_index() as i128), f.map(|x| n(x as i128)).unwrap_or(J::Null)])
                    }
                    AggregateKind::Closure(..) => J::A(vec![s("closure")]),
                    AggregateKind::RawPtr(..) => J::A(vec![s("rawptr")]),
                    other => J::A(vec![s("other"), dbg(other)]),
                };
                let t = r.ty(locals).map(|t| n(self.ty(t) as i128)).unwrap_or(J::Null);
                let v = ops.iter().map(|o| self.operand(o)).collect();
                J::A(vec![s("agg"), kk, t, J::A(v)])
            }
            Rvalue::BinaryOp(b, x, y) => J::A(vec![s("bin"), dbg(b), self.operand(x), self.operand(y)]),
            Rvalue::CheckedBinaryOp(b, x, y) => {
                J::A(vec![s("chk"), dbg(b), self.operand(x), self.operand(y)])
            }
            Rvalue::Cast(k, o, t) => {
                let mut v = vec![s("cast"), dbg(k), self.operand(o), n(self.ty(*t) as i128)];
                // A function item or closure turned into a pointer names what may be called.
                if let Ok(ot) = o.ty(locals) {
                    match ot.kind() {
                        TyKind::RigidTy(RigidTy::FnDef(d, a)) => {
                            if let Ok(i) = Instance::resolve_for_fn_ptr(d, &a) {
                                v.push(n(self.inst(i) as i128));
                            }
                        }
                        TyKind::RigidTy(RigidTy::Closure(d, a)) => {
                            if format!("{:?}", k).contains("Closure") {
                                if let Ok(i) = Instance::resolve_closure(d, &a, ClosureKind::FnOnce) {
                                    v.push(n(self.inst(i) as i128));
                                }
                            }
                        }
                        _ => {}
                    }
                }
                J::A(v)
            }
            Rvalue::CopyForDeref(p) => J::A(vec![s("use"), J::A(vec![s("copy"), self.place(p)])]),
            Rvalue::Discriminant(p) => {
                let t = r.ty(locals).map(|t| n(self.ty(t) as i128)).unwrap_or(J::Null);
                J::A(vec![s("discr"), self.place(p), t])
            }
            Rvalue::Len(p) => J::A(vec![s("len"), self.place(p)]),
            Rvalue::Repeat(o, c) => J::A(vec![
                s("repeat"),
                self.operand(o),
                n(c.eval_target_usize().unwrap_or(0) as i128),
            ]),
            Rvalue::UnaryOp(u, o) => J::A(vec![s("un"), dbg(u), self.operand(o)]),
            Rvalue::Use(o, ..) => J::A(vec![s("use"), self.operand(o)]),
            other => J::A(vec![s("other"), dbg(other)]),
        }
    }

    fn body(&mut self, b: &Body) -> J {
        let locals = b.locals();
        let lt = locals.iter().map(|l| n(self.ty(l.ty) as i128)).collect();
        let mut names = vec![];
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                if p.projection.is_empty() {
                    names.push(J::A(vec![n(p.local as i128), s(v.name.to_string())]));
                }
            }
        }
        let mut blocks = vec![];
        for bb in &b.blocks {
            let mut st = vec![];
            for x in &bb.statements {
                let sp = self.span(x.source_info.span);
                match &x.kind {
                    StatementKind::Assign(p, r) => {
                        let v = vec![s("="), self.place(p), self.rvalue(r, locals), sp];
                        st.push(J::A(v))
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let v = vec![s("sd"), self.place(place), n(variant_index.to_index() as i128), sp];
                        st.push(J::A(v))
                    }
                    StatementKind::Intrinsic(NonDivergingIntrinsic::Assume(o)) => {
                        let v = vec![s("assume"), self.operand(o), sp];
                        st.push(J::A(v))
                    }
                    StatementKind::Intrinsic(NonDivergingIntrinsic::CopyNonOverlapping(c)) => {
                        let v = vec![s("copy_nonoverlapping"), self.operand(&c.src), self.operand(&c.dst), self.operand(&c.count), sp];
                        st.push(J::A(v))
                    }
                    _ => {}
                }
            }
            let t = &bb.terminator;
            let sp = self.span(t.source_info.span);
            let tj = match &t.kind {
                TerminatorKind::Goto { target } => J::A(vec![s("goto"), n(*target as i128)]),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let mut arms = vec![];
                    for (v, t) in targets.branches() {
                        arms.push(J::A(vec![s(format!("{}", v)), n(t as i128)]));
                    }
                    J::A(vec![s("switch"), self.operand(discr), J::A(arms), n(targets.otherwise() as i128), sp])
                }
                TerminatorKind::Resume => J::A(vec![s("resume")]),
                TerminatorKind::Abort => J::A(vec![s("abort")]),
                TerminatorKind::Return => J::A(vec![s("return")]),
                TerminatorKind::Unreachable => J::A(vec![s("unreachable"), sp]),
                TerminatorKind::Drop { place, target, .. } => {
                    let dt = place.ty(locals).ok();
                    let i = dt.map(|t| Instance::resolve_drop_in_place(t));
                    let i = match i {
                        Some(i) if !i.is_empty_shim() => n(self.inst(i) as i128),
                        _ => J::Null,
                    };
                    let ty = dt.map(|t| n(self.ty(t) as i128)).unwrap_or(J::Null);
                    J::A(vec![s("drop"), self.place(place), n(*target as i128), i, ty, sp])
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let fj = match func.ty(locals) {
                        Ok(ft) => match ft.kind() {
                            TyKind::RigidTy(RigidTy::FnDef(d, a)) => match Instance::resolve(d, &a) {
                                Ok(i) => n(self.inst(i) as i128),
                                Err(_) => s(format!("unresolved {}", d.name())),
                            },
                            _ => J::A(vec![s("dyn"), self.operand(func)]),
                        },
                        Err(_) => s("unresolved"),
                    };
                    let av = args.iter().map(|o| self.operand(o)).collect();
                    J::A(vec![
                        s("call"),
                        fj,
                        J::A(av),
                        self.place(destination),
                        target.map(|t| n(t as i128)).unwrap_or(J::Null),
                        sp,
                    ])
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => J::A(vec![
                    s("assert"),
                    self.operand(cond),
                    J::B(*expected),
                    s(format!("{:?}", msg).chars().take(60).collect::<String>()),
                    n(*target as i128),
                    sp,
                ]),
                TerminatorKind::InlineAsm { .. } => J::A(vec![s("asm"), sp]),
            };
            blocks.push(J::A(vec![J::A(st), tj]));
        }
        obj(vec![
            ("locals", J::A(lt)),
            ("args", n(b.arg_locals().len() as i128)),
            ("spread", b.spread_arg().map(|x| n(x as i128)).unwrap_or(J::Null)),
            ("names", J::A(names)),
            ("blocks", J::A(blocks)),
            ("span", self.span(b.span)),
        ])
    }

    fn describe(&mut self, i: Instance, want_body: bool) -> J {
        for a in i.args().0.iter() {
            if let GenericArgKind::Type(t) = a {
                self.iterator(*t);
            }
        }
        let d = i.def;
        let internal = rustc_internal::internal(self.tcx, d.def_id());
        let mut o = vec![
            ("name", s(i.name())),
            ("def", s(d.name())),
            ("kind", dbg(&i.kind)),
            ("krate", s(d.krate().name)),
            ("local", J::B(d.krate().is_local)),
        ];
        let a = self.generic_args(&i.args());
        o.push(("args", a));
        if let Some(imp) = self.tcx.impl_of_assoc(internal) {
            if let Some(tr) = self.tcx.impl_opt_trait_ref(imp) {
                let tr = tr.instantiate_identity().skip_norm_wip();
                o.push(("trait", s(self.tcx.def_path_str(tr.def_id))));
            }
            o.push(("assoc", s(self.tcx.item_name(internal).to_string())));
        } else if let Some(tr) = self.tcx.trait_of_assoc(internal) {
            o.push(("of_trait", s(self.tcx.def_path_str(tr))));
            o.push(("assoc", s(self.tcx.item_name(internal).to_string())));
        }
        let sig_never = match i.ty().kind() {
            TyKind::RigidTy(RigidTy::FnDef(..)) => {
                let f = i.fn_abi();
                match f {
                    Ok(f) => matches!(f.ret.ty.kind(), TyKind::RigidTy(RigidTy::Never)),
                    Err(_) => false,
                }
            }
            _ => false,
        };
        o.push(("never", J::B(sig_never)));
        o.push(("unsafe", J::B(match i.ty().kind().fn_sig() {
            Some(sig) => matches!(sig.skip_binder().safety, Safety::Unsafe),
            None => false,
        })));
        o.push(("intrinsic", match i.intrinsic_name() { Some(x) => s(x), None => J::Null }));
        if want_body && !sig_never {
            if std::env::var("MIRDUMP_DEBUG").is_ok() && i.body().is_none() { eprintln!("NOBODY {} avail={} local={:?} ", i.name(), self.tcx.is_mir_available(internal), i.has_body()); }
            if let Some(b) = i.body() {
                let b = self.body(&b);
                o.push(("body", b));
            }
        }
        obj(o)
    }
}

fn stop(def: &str, krate: &str) -> bool {
    // Formatting machinery is modelled, never interpreted.
    def.starts_with("core::fmt::") || def.starts_with("std::fmt::")
        || def.starts_with("alloc::fmt::")
        || krate == "trackable" || krate == "sha1" || krate == "hmac" || krate == "md5" || krate == "crc" || krate == "digest" || krate == "generic_array" || krate == "block_buffer"
        || def.starts_with("std::backtrace") || def.starts_with("std::sys") || def.starts_with("std::io") || def.starts_with("alloc::raw_vec")
}

fn run(tcx: TyCtxt<'_>) {
    let want = std::env::var("MIRDUMP_CRATE").unwrap_or_default();
    let out = match std::env::var("MIRDUMP_OUT") {
        Ok(o) => o,
        Err(_) => return,
    };
    if rustc_public::local_crate().name != want {
        return;
    }
    let mut d = Dump {
        tcx,
        tys: vec![],
        ty_ids: HashMap::new(),
        allocs: HashMap::new(),
        alloc_out: vec![],
        insts: vec![],
        inst_ids: HashMap::new(),
        todo: vec![],
        iter_seen: Default::default(),
    };
    // Attribute implementations.
    let mut impls = vec![];
    let mut set_ty: HashMap<String, Ty> = HashMap::new();
    let mut self_tys: Vec<(String, Ty)> = vec![];
    for im in rustc_public::local_crate().trait_impls() {
        let tr = im.trait_impl().value;
        let tname = tr.def_id.name();
        let st = tr.self_ty();
        let tyname = format!("{}", st);
        self_tys.push((tname.clone(), st));
        let mut assoc = vec![];
        let ii = rustc_internal::internal(tcx, im.def_id());
        for it in tcx.associated_items(ii).in_definition_order() {
            if it.is_type() {
                let t = tcx.type_of(it.def_id).instantiate_identity().skip_norm_wip();
                let t = rustc_internal::stable(t);
                if d.generic(t) {
                    continue;
                }
                let id = d.ty(t);
                assoc.push((it.name().to_string(), n(id as i128)));
            }
        }
        if tname == "stun_codec::Attribute" || tname == "attribute::Attribute" || tname.ends_with("::Attribute") {
            set_ty.insert(tyname.clone(), st);
        }
        if d.generic(st) {
            impls.push(obj(vec![("trait", s(tname)), ("self", J::Null), ("name", s(tyname))]));
            continue;
        }
        let id = d.ty(st);
        let targs: GenericArgs = tr.args().clone();
        let ta = d.generic_args(&targs);
        impls.push(obj(vec![
            ("trait", s(tname)),
            ("self", n(id as i128)),
            ("name", s(tyname)),
            ("args", ta),
            ("assoc", J::O(assoc)),
        ]));
    }
    let mut names: Vec<&String> = set_ty.keys().filter(|k| k.rsplit("::").next() == Some("Attribute")).collect();
    names.sort_by_key(|k| (!k.contains("rfc5389"), k.to_string()));
    let mut sets: Vec<Ty> = names.iter().map(|k| set_ty[*k]).collect();
    // Messages of raw attributes: every attribute is known, with any type and value.
    sets.extend(set_ty.iter().filter(|(k, _)| k.rsplit("::").next() == Some("RawAttribute")).map(|(_, t)| *t));
    assert!(!sets.is_empty(), "attribute set not found");
    // (set, member) pairs, from the conversions.
    let mut pairs: Vec<(Ty, Ty)> = vec![];
    for im in rustc_public::local_crate().trait_impls() {
        let tr = im.trait_impl().value;
        if tr.def_id.name().ends_with("::TryAsRef") && !d.generic(tr.self_ty()) {
            if let Some(GenericArgKind::Type(t)) = tr.args().0.get(1) {
                pairs.push((tr.self_ty(), *t));
            }
        }
    }
    let mut roots = vec![];
    let mut consts = vec![];
    let mut skipped = vec![];
    let items: Vec<CrateItem> = rustc_public::all_local_items();
    for it in items {
        let internal = rustc_internal::internal(tcx, it.def_id());
        match it.kind() {
            ItemKind::Fn => {
                let TyKind::RigidTy(r) = it.ty().kind() else { continue };
                let RigidTy::FnDef(def, args) = r else { continue };
                if tcx.is_closure_like(internal) { continue; }
                let params: Vec<String> = args.0.iter().filter_map(|a| match a {
                    GenericArgKind::Type(t) => match t.kind() { TyKind::Param(p) => Some(p.name.clone()), _ => None },
                    _ => None,
                }).collect();
                if params.iter().any(|p| p == "Self") {
                    skipped.push(s(it.name()));
                    continue;
                }
                // Every parameter is a set, or one of several parameters is a member of the set (`impl Into<A>` and the like).
                let mut choices: Vec<Vec<Ty>> = vec![];
                if params.is_empty() {
                    choices.push(vec![]);
                } else if params.len() <= 3 {
                    choices.extend(sets.iter().map(|t| vec![*t; params.len()]));
                    if params.len() > 1 {
                        let possible = |pick: &Vec<Ty>| {
                            let mut next = pick.iter();
                            let conc = GenericArgs(args.0.iter().map(|a| match a {
                                GenericArgKind::Type(t) => match t.kind() {
                                    TyKind::Param(_) => GenericArgKind::Type(*next.next().unwrap()),
                                    _ => a.clone(),
                                },
                                x => x.clone(),
                            }).collect());
                            !tcx.instantiate_and_check_impossible_clauses((internal, rustc_internal::internal(tcx, &conc)))
                        };
                        for bits in 1..(1usize << params.len()) - 1 {
                            let mix = |cs: Ty, cm: Ty| -> Vec<Ty> { (0..params.len()).map(|i| if bits >> i & 1 == 1 { cm } else { cs }).collect() };
                            // Only where the signature relates the two.
                            let stranger = pairs.iter().find(|p| p.0 != pairs[0].0);
                            if stranger.map_or(false, |p| possible(&mix(pairs[0].0, p.1))) {
                                continue;
                            }
                            choices.extend(pairs.iter().map(|(cs, cm)| mix(*cs, *cm)));
                        }
                    }
                }
                for pick in choices {
                    let mut next = pick.iter();
                    let conc: Vec<GenericArgKind> = args.0.iter().map(|a| match a {
                        GenericArgKind::Type(t) => match t.kind() {
                            TyKind::Param(_) => GenericArgKind::Type(*next.next().unwrap()),
                            _ => a.clone(),
                        },
                        x => x.clone(),
                    }).collect();
                    let conc = GenericArgs(conc);
                    if !pick.is_empty() {
                        let ia = rustc_internal::internal(tcx, &conc);
                        if tcx.instantiate_and_check_impossible_clauses((internal, ia)) {
                            skipped.push(s(it.name()));
                            continue;
                        }
                    }
                    match Instance::resolve(def, &conc) {
                        Ok(i) => {
                            let k = d.inst(i);
                            // What a function hands out as an iterator is looked at through `next`.
                            if let Some(body) = i.body() {
                                d.iterator(body.locals()[0].ty);
                            }
                            let vis = tcx.visibility(internal).is_public();
                            roots.push(obj(vec![("inst", n(k as i128)), ("def", s(it.name())), ("pub", J::B(vis))]));
                        }
                        Err(_) => skipped.push(s(it.name())),
                    }
                }
            }
            ItemKind::Const | ItemKind::Static => {
                let b = if it.requires_monomorphization() { None } else { it.body() };
                if let Some(b) = b {
                    let bj = d.body(&b);
                    let t = d.ty(it.ty());
                    let mutable = matches!(it.kind(), ItemKind::Static) && tcx.is_mutable_static(internal);
                    consts.push(obj(vec![("def", s(it.name())), ("kind", dbg(&it.kind())), ("ty", n(t as i128)), ("body", bj), ("mut", J::B(mutable))]));
                }
            }
            _ => {}
        }
    }
    // Associated constants of integer type, evaluated by the compiler.
    let mut assoc_consts = vec![];
    for ld in tcx.hir_crate_items(()).definitions() {
        let did = ld.to_def_id();
        let kind = format!("{:?}", tcx.def_kind(did));
        if !(kind.starts_with("AssocConst") || kind == "Const" || kind.starts_with("Const {")) || !tcx.generics_of(did).is_empty() || tcx.generics_of(did).parent_count > 0 {
            continue;
        }
        if let Ok(v) = tcx.const_eval_poly(did) {
            if let Some(x) = v.try_to_scalar_int() {
                assoc_consts.push(obj(vec![
                    ("def", s(tcx.def_path_str(did))),
                    ("value", s(format!("{}", x.to_bits_unchecked()))),
                    ("pub", J::B(tcx.visibility(did).is_public())),
                ]));
            }
        }
    }
    let mut count = 0;
    while let Some((i, k)) = d.todo.pop() {
        count += 1;
        let nm = i.def.name();
        let kr = i.def.krate().name;
        let want_body = !matches!(i.kind, InstanceKind::Virtual { .. }) && !stop(&nm, &kr);
        let j = d.describe(i, want_body);
        d.insts[k] = Some(j);
        if count > 60000 {
            panic!("mirdump: too many instances");
        }
    }
    let insts = d.insts.into_iter().map(|x| x.unwrap_or(J::Null)).collect();
    let all = obj(vec![
        ("crate", s(want)),
        ("types", J::A(d.tys)),
        ("allocs", J::A(d.alloc_out)),
        ("insts", J::A(insts)),
        ("roots", J::A(roots)),
        ("consts", J::A(consts)),
        ("impls", J::A(impls)),
        ("assoc_consts", J::A(assoc_consts)),
        ("skipped", J::A(skipped)),
    ]);
    let mut text = String::new();
    all.write(&mut text);
    std::fs::write(&out, text).expect("write dump");

}

fn main() {
    // RUSTC_WORKSPACE_WRAPPER passes the real rustc as the first argument.
    let mut args: Vec<String> = std::env::args().collect();
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    // The hooks of the crate under analysis.
    if let (Ok(cfg), Ok(want)) = (std::env::var("MIRDUMP_CFG"), std::env::var("MIRDUMP_CRATE")) {
        if args.windows(2).any(|w| w[0] == "--crate-name" && w[1] == want) {
            args.push("--cfg".into());
            args.push(cfg);
        }
    }
    let r = rustc_public::run_with_tcx!(&args, |tcx| {
        run(tcx);
        std::ops::ControlFlow::<(), ()>::Continue(())
    });
    match r {
        Ok(_) => {}
        Err(rustc_public::CompilerError::Skipped) => {}
        Err(_) => std::process::exit(101),
    }
}
