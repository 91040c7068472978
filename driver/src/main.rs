//! mirfacts: a rustc driver (used as RUSTC_WORKSPACE_WRAPPER) which dumps, for
//! every workspace crate, the type-checked program as a JSON fact base: MIR of
//! every body (functions, methods, closures, consts, promoteds), resolved
//! callees, ADTs, trait impls and `unsafe` uses. It decides nothing itself.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

mod json;
use json::J;
use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId, LOCAL_CRATE};
use rustc_interface::interface::Compiler;
use rustc_middle::mir::*;
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, Ty, TyCtxt};

struct Cb {
    out: String,
}

fn path(tcx: TyCtxt<'_>, d: DefId) -> String {
    // crate-qualified path, stable across crates
    let s = with_no_trimmed_paths!(tcx.def_path_str(d));
    if d.is_local() {
        let krate = tcx.crate_name(LOCAL_CRATE).to_string();
        if s.starts_with('<') {
            // <impl ...>: def_path_str prints `<T as Trait>::m` without crate for local types
            return format!("{}|{}", krate, s);
        }
        return format!("{}::{}", krate, s);
    }
    s
}

/// An unambiguous key for a definition: crate + verbose def path.
fn key(tcx: TyCtxt<'_>, d: DefId) -> String {
    format!("{}{}", tcx.crate_name(d.krate), tcx.def_path(d).to_string_no_crate_verbose())
}

fn tystr<'tcx>(ty: Ty<'tcx>) -> String {
    with_no_trimmed_paths!(ty.to_string())
}

/// Structured type: enough for the analysis to tell floats, ints, refs, adts apart.
fn ty_json<'tcx>(tcx: TyCtxt<'tcx>, ty: Ty<'tcx>, depth: usize) -> J {
    if depth > 5 {
        return J::s("...");
    }
    let d = depth + 1;
    match ty.kind() {
        ty::Bool => J::s("bool"),
        ty::Char => J::s("char"),
        ty::Str => J::s("str"),
        ty::Never => J::s("!"),
        ty::Int(i) => J::s(i.name_str()),
        ty::Uint(i) => J::s(i.name_str()),
        ty::Float(f) => J::s(f.name_str()),
        ty::Ref(_, t, m) => J::arr(vec![
            J::s(if m.is_mut() { "refmut" } else { "ref" }),
            ty_json(tcx, *t, d),
        ]),
        ty::RawPtr(t, _) => J::arr(vec![J::s("ptr"), ty_json(tcx, *t, d)]),
        ty::Slice(t) => J::arr(vec![J::s("slice"), ty_json(tcx, *t, d)]),
        ty::Array(t, n) => J::arr(vec![J::s("array"), ty_json(tcx, *t, d), J::s(&format!("{}", n))]),
        ty::Tuple(ts) => {
            let mut v = vec![J::s("tuple")];
            v.extend(ts.iter().map(|t| ty_json(tcx, t, d)));
            J::arr(v)
        }
        ty::Adt(a, args) => {
            let mut v = vec![J::s("adt"), J::s(&key(tcx, a.did()))];
            for g in args.iter() {
                if let Some(t) = g.as_type() {
                    v.push(ty_json(tcx, t, d));
                } else if let Some(c) = g.as_const() {
                    v.push(J::s(&format!("const {}", c)));
                }
            }
            J::arr(v)
        }
        ty::Closure(did, _) => J::arr(vec![J::s("closure"), J::s(&key(tcx, *did))]),
        ty::FnDef(did, _) => J::arr(vec![J::s("fndef"), J::s(&key(tcx, *did))]),
        ty::Param(p) => J::arr(vec![J::s("param"), J::s(p.name.as_str())]),
        ty::Dynamic(..) => J::arr(vec![J::s("dyn"), J::s(&tystr(ty))]),
        _ => J::arr(vec![J::s("other"), J::s(&tystr(ty))]),
    }
}

struct Cx<'a, 'tcx> {
    tcx: TyCtxt<'tcx>,
    body: &'a Body<'tcx>,
    env: ty::TypingEnv<'tcx>,
}

impl<'a, 'tcx> Cx<'a, 'tcx> {
    fn place(&self, p: &Place<'tcx>) -> J {
        let mut projs = vec![];
        let mut pt = PlaceTy::from_ty(self.body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            let j = match e {
                ProjectionElem::Deref => J::s("*"),
                ProjectionElem::Field(f, _) => {
                    let name = match pt.ty.kind() {
                        ty::Adt(a, _) => {
                            let v = match pt.variant_index {
                                Some(v) => v,
                                None => rustc_abi::FIRST_VARIANT,
                            };
                            if a.is_union() || a.is_struct() || a.is_enum() {
                                a.variant(v).fields[f].name.to_string()
                            } else {
                                f.index().to_string()
                            }
                        }
                        _ => f.index().to_string(),
                    };
                    let owner = match pt.ty.kind() {
                        ty::Adt(a, _) => key(self.tcx, a.did()),
                        ty::Closure(..) => "closure".to_string(),
                        ty::Tuple(..) => "tuple".to_string(),
                        _ => "?".to_string(),
                    };
                    J::arr(vec![J::s("f"), J::s(&name), J::s(&owner), J::i(f.index() as i128)])
                }
                ProjectionElem::Index(l) => J::arr(vec![J::s("i"), J::i(l.index() as i128)]),
                ProjectionElem::ConstantIndex { offset, min_length: _, from_end } => {
                    J::arr(vec![J::s("ci"), J::i(offset as i128), J::b(from_end)])
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    J::arr(vec![J::s("sub"), J::i(from as i128), J::i(to as i128), J::b(from_end)])
                }
                ProjectionElem::Downcast(name, v) => {
                    let n = match name {
                        Some(n) => n.to_string(),
                        None => match pt.ty.kind() {
                            ty::Adt(a, _) => a.variant(v).name.to_string(),
                            _ => v.index().to_string(),
                        },
                    };
                    J::arr(vec![J::s("v"), J::s(&n), J::i(v.index() as i128)])
                }
                _ => J::s("?"),
            };
            projs.push(j);
            pt = pt.projection_ty(self.tcx, e);
        }
        J::arr(vec![J::i(p.local.index() as i128), J::arr(projs)])
    }

    fn fn_ref(&self, did: DefId, args: ty::GenericArgsRef<'tcx>) -> J {
        let tcx = self.tcx;
        let mut o = vec![
            ("key", J::s(&key(tcx, did))),
            ("path", J::s(&path(tcx, did))),
        ];
        let ga: Vec<J> = args
            .iter()
            .filter_map(|g| {
                g.as_type()
                    .map(|t| ty_json(tcx, t, 0))
                    .or_else(|| g.as_const().map(|c| J::s(&format!("const {}", c))))
            })
            .collect();
        if !ga.is_empty() {
            o.push(("targs", J::arr(ga)));
        }
        if let Some(tr) = tcx.trait_of_assoc(did) {
            o.push(("trait", J::s(&key(tcx, tr))));
            o.push(("method", J::s(tcx.item_name(did).as_str())));
            o.push(("self", ty_json(tcx, args.type_at(0), 0)));
            // try to resolve
            let args2 = tcx.erase_and_anonymize_regions(args);
            if let Ok(Some(inst)) = ty::Instance::try_resolve(tcx, self.env, did, args2) {
                let rd = inst.def_id();
                let tag = match inst.def {
                    ty::InstanceKind::Item(_) => "item",
                    ty::InstanceKind::Virtual(..) => "virtual",
                    ty::InstanceKind::Intrinsic(_) => "intrinsic",
                    _ => "shim",
                };
                o.push(("res", J::s(&key(tcx, rd))));
                o.push(("reskind", J::s(tag)));
                o.push(("respath", J::s(&path(tcx, rd))));
            }
        }
        J::obj(o)
    }

    fn constant(&self, c: &ConstOperand<'tcx>) -> J {
        let tcx = self.tcx;
        let ty = c.const_.ty();
        let mut o = vec![("k", J::s("const")), ("ty", ty_json(tcx, ty, 0))];
        if let ty::FnDef(did, args) = ty.kind() {
            o.push(("fn", self.fn_ref(*did, args.skip_binder())));
            return J::obj(o);
        }
        if let Const::Unevaluated(u, _) = c.const_ {
            o.push(("def", J::s(&key(tcx, u.def))));
            if let Some(p) = u.promoted {
                o.push(("promoted", J::i(p.index() as i128)));
                return J::obj(o);
            }
        }
        if let Const::Ty(_, ct) = c.const_ {
            o.push(("generic", J::s(&format!("{}", ct))));
        }
        if ty.is_bool() || ty.is_integral() || ty.is_floating_point() || ty.is_char() {
            if let Some(s) = c.const_.try_eval_scalar_int(tcx, self.env) {
                let size = s.size();
                match ty.kind() {
                    ty::Bool => o.push(("val", J::b(s.to_bits(size) != 0))),
                    ty::Int(_) => o.push(("val", J::s(&s.to_int(size).to_string()))),
                    ty::Float(f) => {
                        let b = s.to_bits(size);
                        let v = match f.bit_width() {
                            64 => format!("{:?}", f64::from_bits(b as u64)),
                            32 => format!("{:?}", f32::from_bits(b as u32)),
                            _ => "?".into(),
                        };
                        o.push(("val", J::s(&v)));
                    }
                    _ => o.push(("val", J::s(&s.to_bits(size).to_string()))),
                }
            }
            return J::obj(o);
        }
        // strings and byte strings
        if let ty::Ref(_, inner, _) = ty.kind() {
            let is_str = inner.is_str();
            let is_bytes = matches!(inner.kind(), ty::Slice(t) if *t == tcx.types.u8)
                || matches!(inner.kind(), ty::Array(t, _) if *t == tcx.types.u8);
            if is_str || is_bytes {
                if let Ok(v) = c.const_.eval(tcx, self.env, c.span) {
                    let bytes: Option<Vec<u8>> = match inner.kind() {
                        ty::Str | ty::Slice(_) => {
                            v.try_get_slice_bytes_for_diagnostics(tcx).map(|b| b.to_vec())
                        }
                        ty::Array(_, n) => {
                            let n = n.try_to_target_usize(tcx);
                            match (v, n) {
                                (ConstValue::Scalar(rustc_middle::mir::interpret::Scalar::Ptr(p, _)), Some(n)) => {
                                    let (prov, off) = p.into_raw_parts();
                                    match tcx.global_alloc(prov.alloc_id()) {
                                        rustc_middle::mir::interpret::GlobalAlloc::Memory(a) => {
                                            let a = a.inner();
                                            let s = off.bytes() as usize;
                                            Some(
                                                a.inspect_with_uninit_and_ptr_outside_interpreter(
                                                    s..s + n as usize,
                                                )
                                                .to_vec(),
                                            )
                                        }
                                        _ => None,
                                    }
                                }
                                _ => None,
                            }
                        }
                        _ => None,
                    };
                    if let Some(b) = bytes {
                        if is_str {
                            o.push(("str", J::s(&String::from_utf8_lossy(&b))));
                        } else {
                            o.push(("bytes", J::arr(b.iter().map(|x| J::i(*x as i128)).collect())));
                        }
                    }
                }
            }
        }
        if !o.iter().any(|(k, _)| *k == "str" || *k == "bytes") {
            o.push(("txt", J::s(&with_no_trimmed_paths!(format!("{}", c.const_)))));
        }
        J::obj(o)
    }

    fn operand(&self, op: &Operand<'tcx>) -> J {
        match op {
            Operand::Copy(p) => J::arr(vec![J::s("c"), self.place(p)]),
            Operand::Move(p) => J::arr(vec![J::s("m"), self.place(p)]),
            Operand::Constant(c) => self.constant(c),
            #[allow(unreachable_patterns)]
            _ => J::s("?"),
        }
    }

    fn rvalue(&self, r: &Rvalue<'tcx>) -> J {
        let tcx = self.tcx;
        match r {
            Rvalue::Use(o, ..) => J::arr(vec![J::s("use"), self.operand(o)]),
            Rvalue::Repeat(o, n) => J::arr(vec![J::s("repeat"), self.operand(o), J::s(&format!("{}", n))]),
            Rvalue::Ref(_, k, p) => J::arr(vec![
                J::s("ref"),
                J::s(if matches!(k, BorrowKind::Mut { .. }) { "mut" } else { "shared" }),
                self.place(p),
            ]),
            Rvalue::RawPtr(_, p) => J::arr(vec![J::s("ref"), J::s("raw"), self.place(p)]),
            Rvalue::Cast(k, o, t) => J::arr(vec![
                J::s("cast"),
                J::s(&format!("{:?}", k)),
                self.operand(o),
                ty_json(tcx, *t, 0),
                ty_json(tcx, o.ty(&self.body.local_decls, tcx), 0),
            ]),
            Rvalue::BinaryOp(op, ab) => J::arr(vec![
                J::s("bin"),
                J::s(&format!("{:?}", op)),
                self.operand(&ab.0),
                self.operand(&ab.1),
                ty_json(tcx, ab.0.ty(&self.body.local_decls, tcx), 0),
            ]),
            Rvalue::UnaryOp(op, a) => J::arr(vec![
                J::s("un"),
                J::s(&format!("{:?}", op)),
                self.operand(a),
                ty_json(tcx, a.ty(&self.body.local_decls, tcx), 0),
            ]),
            Rvalue::Discriminant(p) => {
                let t = p.ty(&self.body.local_decls, tcx).ty;
                let mut names = vec![];
                let mut akey = J::Null;
                if let ty::Adt(a, _) = t.kind() {
                    akey = J::s(&key(tcx, a.did()));
                    if a.is_enum() {
                        for (v, d) in a.discriminants(tcx) {
                            names.push(J::arr(vec![
                                J::s(&d.val.to_string()),
                                J::s(a.variant(v).name.as_str()),
                            ]));
                        }
                    }
                }
                J::arr(vec![J::s("discr"), self.place(p), akey, J::arr(names)])
            }
            Rvalue::Aggregate(k, ops) => {
                let ops: Vec<J> = ops.iter().map(|o| self.operand(o)).collect();
                match &**k {
                    AggregateKind::Adt(did, v, _, _, _) => {
                        let a = tcx.adt_def(*did);
                        let var = a.variant(*v);
                        let fields: Vec<J> = var.fields.iter().map(|f| J::s(f.name.as_str())).collect();
                        J::arr(vec![
                            J::s("adt"),
                            J::s(&key(tcx, *did)),
                            J::s(var.name.as_str()),
                            J::i(v.index() as i128),
                            J::arr(fields),
                            J::arr(ops),
                        ])
                    }
                    AggregateKind::Tuple => J::arr(vec![J::s("tuple"), J::arr(ops)]),
                    AggregateKind::Array(_) => J::arr(vec![J::s("array"), J::arr(ops)]),
                    AggregateKind::Closure(did, _) => {
                        J::arr(vec![J::s("closure"), J::s(&key(tcx, *did)), J::arr(ops)])
                    }
                    _ => J::arr(vec![J::s("agg?"), J::arr(ops)]),
                }
            }
            Rvalue::CopyForDeref(p) => J::arr(vec![J::s("use"), J::arr(vec![J::s("c"), self.place(p)])]),
            other => J::arr(vec![J::s("other"), J::s(&format!("{:?}", other))]),
        }
    }

    fn line(&self, s: rustc_span::Span) -> J {
        let s = s.source_callsite();
        let lo = self.tcx.sess.source_map().lookup_char_pos(s.lo());
        J::i(lo.line as i128)
    }

    fn block(&self, b: &BasicBlockData<'tcx>) -> J {
        let mut st = vec![];
        for s in &b.statements {
            match &s.kind {
                StatementKind::Assign(pr) => {
                    st.push(J::arr(vec![
                        J::s("="),
                        self.place(&pr.0),
                        self.rvalue(&pr.1),
                        self.line(s.source_info.span),
                    ]));
                }
                StatementKind::SetDiscriminant { place, variant_index } => {
                    st.push(J::arr(vec![
                        J::s("setdiscr"),
                        self.place(place),
                        J::i(variant_index.index() as i128),
                    ]));
                }
                _ => {}
            }
        }
        let t = b.terminator();
        let ln = self.line(t.source_info.span);
        let tj = match &t.kind {
            TerminatorKind::Goto { target, .. } => J::arr(vec![J::s("goto"), J::i(target.index() as i128)]),
            TerminatorKind::SwitchInt { discr, targets } => {
                let mut v = vec![];
                for (val, bb) in targets.iter() {
                    v.push(J::arr(vec![J::s(&val.to_string()), J::i(bb.index() as i128)]));
                }
                J::arr(vec![
                    J::s("switch"),
                    self.operand(discr),
                    ty_json(self.tcx, discr.ty(&self.body.local_decls, self.tcx), 0),
                    J::arr(v),
                    J::i(targets.otherwise().index() as i128),
                ])
            }
            TerminatorKind::Return => J::arr(vec![J::s("return")]),
            TerminatorKind::Unreachable => J::arr(vec![J::s("unreachable")]),
            TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => {
                J::arr(vec![J::s("resume")])
            }
            TerminatorKind::Drop { target, place, .. } => {
                J::arr(vec![J::s("drop"), J::i(target.index() as i128), self.place(place)])
            }
            TerminatorKind::Call { func, args, destination, target, .. } => {
                let f = match func {
                    Operand::Constant(c) => self.constant(c),
                    o => self.operand(o),
                };
                J::arr(vec![
                    J::s("call"),
                    f,
                    J::arr(args.iter().map(|a| self.operand(&a.node)).collect()),
                    self.place(destination),
                    match target {
                        Some(t) => J::i(t.index() as i128),
                        None => J::Null,
                    },
                    ln,
                ])
            }
            TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                let m = format!("{:?}", msg);
                let m = m.chars().take(60).collect::<String>();
                J::arr(vec![
                    J::s("assert"),
                    self.operand(cond),
                    J::b(*expected),
                    J::s(&m),
                    J::i(target.index() as i128),
                ])
            }
            TerminatorKind::FalseEdge { real_target, .. } => {
                J::arr(vec![J::s("goto"), J::i(real_target.index() as i128)])
            }
            TerminatorKind::FalseUnwind { real_target, .. } => {
                J::arr(vec![J::s("goto"), J::i(real_target.index() as i128)])
            }
            other => J::arr(vec![J::s("other"), J::s(&format!("{:?}", other))]),
        };
        J::obj(vec![("s", J::arr(st)), ("t", tj), ("c", J::b(b.is_cleanup))])
    }
}

fn dump_body<'tcx>(tcx: TyCtxt<'tcx>, owner: DefId, body: &Body<'tcx>, extra: Vec<(&'static str, J)>) -> J {
    let env = ty::TypingEnv::post_analysis(tcx, owner);
    let cx = Cx { tcx, body, env };
    let locals: Vec<J> = body.local_decls.iter().map(|l| ty_json(tcx, l.ty, 0)).collect();
    let mut names = vec![];
    for v in &body.var_debug_info {
        if let VarDebugInfoContents::Place(p) = &v.value {
            names.push(J::arr(vec![J::s(v.name.as_str()), cx.place(p)]));
        }
    }
    let blocks: Vec<J> = body.basic_blocks.iter().map(|b| cx.block(b)).collect();
    let lo = tcx.sess.source_map().lookup_char_pos(body.span.source_callsite().lo());
    let hi = tcx.sess.source_map().lookup_char_pos(body.span.source_callsite().hi());
    let file = format!("{}", lo.file.name.prefer_local_unconditionally());
    let mut o = vec![
        ("file", J::s(&file)),
        ("line", J::i(lo.line as i128)),
        ("endline", J::i(hi.line as i128)),
        ("macro", J::b(body.span.from_expansion())),
        ("argc", J::i(body.arg_count as i128)),
        ("locals", J::arr(locals)),
        ("names", J::arr(names)),
        ("blocks", J::arr(blocks)),
    ];
    o.extend(extra);
    J::obj(o)
}

struct UnsafeFinder<'tcx> {
    tcx: TyCtxt<'tcx>,
    found: Vec<J>,
}
impl<'tcx> rustc_hir::intravisit::Visitor<'tcx> for UnsafeFinder<'tcx> {
    type NestedFilter = rustc_middle::hir::nested_filter::All;
    fn maybe_tcx(&mut self) -> TyCtxt<'tcx> {
        self.tcx
    }
    fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
        if let rustc_hir::BlockCheckMode::UnsafeBlock(rustc_hir::UnsafeSource::UserProvided) = b.rules {
            let lo = self.tcx.sess.source_map().lookup_char_pos(b.span.lo());
            let owner = self.tcx.hir_enclosing_body_owner(b.hir_id);
            self.found.push(J::arr(vec![
                J::s(&format!("{}", lo.file.name.prefer_local_unconditionally())),
                J::i(lo.line as i128),
                J::s(&key(self.tcx, owner.to_def_id())),
            ]));
        }
        rustc_hir::intravisit::walk_block(self, b);
    }
}

impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        if self.out.is_empty() {
            return Compilation::Continue;
        }
        let krate = tcx.crate_name(LOCAL_CRATE).to_string();
        let mut fns = vec![];
        for ld in tcx.mir_keys(()).iter() {
            let ld: LocalDefId = *ld;
            let did = ld.to_def_id();
            let kind = tcx.def_kind(did);
            let mut extra = vec![
                ("key", J::s(&key(tcx, did))),
                ("path", J::s(&path(tcx, did))),
                ("kind", J::s(&format!("{:?}", kind).chars().take_while(|c| c.is_alphanumeric()).collect::<String>())),
            ];
            if matches!(kind, DefKind::Fn | DefKind::AssocFn) {
                extra.push(("vis", J::s(if tcx.visibility(did).is_public() { "pub" } else { "priv" })));
                extra.push(("name", J::s(tcx.item_name(did).as_str())));
                let sig = tcx.fn_sig(did).instantiate_identity().skip_binder();
                extra.push(("unsafe", J::b(format!("{:?}", sig.safety()).contains("nsafe"))));
                extra.push(("ret", ty_json(tcx, sig.output(), 0)));
                if let Some(imp) = tcx.impl_of_assoc(did) {
                    extra.push(("selfty", ty_json(tcx, tcx.type_of(imp).instantiate_identity().skip_norm_wip(), 0)));
                    if let Some(tr) = tcx.impl_opt_trait_ref(imp) {
                        let tr = tr.instantiate_identity().skip_norm_wip();
                        extra.push(("trait", J::s(&key(tcx, tr.def_id))));
                        let ga: Vec<J> = tr.args.iter().skip(1).filter_map(|g| g.as_type().map(|t| ty_json(tcx, t, 0))).collect();
                        extra.push(("traitargs", J::arr(ga)));
                    }
                    extra.push(("derived", J::b(tcx.is_automatically_derived(imp))));
                } else if let Some(tr) = tcx.trait_of_assoc(did) {
                    extra.push(("trait_default", J::s(&key(tcx, tr))));
                }
            }
            {
                let mut names = vec![];
                let g = tcx.generics_of(did);
                for i in 0..g.count() {
                    let p = g.param_at(i, tcx);
                    if !matches!(p.kind, ty::GenericParamDefKind::Lifetime) {
                        names.push(J::s(p.name.as_str()));
                    }
                }
                extra.push(("generics", J::arr(names)));
            }
            match kind {
                DefKind::Fn | DefKind::AssocFn | DefKind::Closure => {
                    if tcx.is_coroutine(did) {
                        continue;
                    }
                    let body = tcx.optimized_mir(did);
                    fns.push(dump_body(tcx, did, body, extra));
                    for (i, p) in tcx.promoted_mir(did).iter_enumerated() {
                        let e = vec![
                            ("key", J::s(&format!("{}#promoted{}", key(tcx, did), i.index()))),
                            ("kind", J::s("Promoted")),
                        ];
                        fns.push(dump_body(tcx, did, p, e));
                    }
                }
                DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } | DefKind::AnonConst => {
                    let body = tcx.mir_for_ctfe(did);
                    fns.push(dump_body(tcx, did, body, extra));
                    for (i, p) in tcx.promoted_mir(did).iter_enumerated() {
                        let e = vec![
                            ("key", J::s(&format!("{}#promoted{}", key(tcx, did), i.index()))),
                            ("kind", J::s("Promoted")),
                        ];
                        fns.push(dump_body(tcx, did, p, e));
                    }
                }
                _ => {}
            }
        }
        // ADTs
        let mut adts = vec![];
        let mut statics = vec![];
        for id in tcx.hir_crate_items(()).definitions() {
            let did = id.to_def_id();
            match tcx.def_kind(did) {
                DefKind::Struct | DefKind::Enum | DefKind::Union => {
                    let a = tcx.adt_def(did);
                    let vars: Vec<J> = a
                        .variants()
                        .iter()
                        .map(|v| {
                            J::obj(vec![
                                ("name", J::s(v.name.as_str())),
                                (
                                    "fields",
                                    J::arr(
                                        v.fields
                                            .iter()
                                            .map(|f| {
                                                J::arr(vec![
                                                    J::s(f.name.as_str()),
                                                    ty_json(
                                                        tcx,
                                                        tcx.try_normalize_erasing_regions(
                                                            ty::TypingEnv::post_analysis(tcx, did),
                                                            tcx.type_of(f.did).instantiate_identity(),
                                                        )
                                                        .unwrap_or_else(|_| {
                                                            tcx.type_of(f.did).instantiate_identity().skip_norm_wip()
                                                        }),
                                                        0,
                                                    ),
                                                    J::s(if f.vis.is_public() { "pub" } else { "priv" }),
                                                ])
                                            })
                                            .collect(),
                                    ),
                                ),
                            ])
                        })
                        .collect();
                    let lo = tcx.sess.source_map().lookup_char_pos(tcx.def_span(did).lo());
                    adts.push(J::obj(vec![
                        ("key", J::s(&key(tcx, did))),
                        ("kind", J::s(if a.is_enum() { "enum" } else { "struct" })),
                        ("file", J::s(&format!("{}", lo.file.name.prefer_local_unconditionally()))),
                        ("line", J::i(lo.line as i128)),
                        ("variants", J::arr(vars)),
                    ]));
                }
                DefKind::Static { mutability, .. } => {
                    statics.push(J::arr(vec![J::s(&key(tcx, did)), J::s(&format!("{:?}", mutability))]));
                }
                _ => {}
            }
        }
        // impls
        let mut impls = vec![];
        for id in tcx.hir_crate_items(()).definitions() {
            let did = id.to_def_id();
            if !matches!(tcx.def_kind(did), DefKind::Impl { .. }) {
                continue;
            }
            let selfty = ty_json(tcx, tcx.type_of(did).instantiate_identity().skip_norm_wip(), 0);
            let tr = tcx.impl_opt_trait_ref(did).map(|t| key(tcx, t.instantiate_identity().skip_norm_wip().def_id));
            let items: Vec<J> = tcx
                .associated_item_def_ids(did)
                .iter()
                .map(|d| J::arr(vec![J::s(tcx.opt_item_name(*d).map(|s| s.to_string()).unwrap_or_default().as_str()), J::s(&key(tcx, *d))]))
                .collect();
            impls.push(J::obj(vec![
                ("self", selfty),
                ("trait", tr.map(|t| J::s(&t)).unwrap_or(J::Null)),
                ("unsafe", J::b(false)),
                ("items", J::arr(items)),
            ]));
        }
        let mut uf = UnsafeFinder { tcx, found: vec![] };
        tcx.hir_visit_all_item_likes_in_crate(&mut uf);
        let n = fns.len();
        let j = J::obj(vec![
            ("crate", J::s(&krate)),
            ("cfg", J::arr(tcx.sess.config.iter().filter_map(|(k, v)| {
                if k.as_str() == "feature" { v.map(|v| J::s(v.as_str())) } else { None }
            }).collect())),
            ("fns", J::arr(fns)),
            ("adts", J::arr(adts)),
            ("impls", J::arr(impls)),
            ("statics", J::arr(statics)),
            ("unsafe_blocks", J::arr(uf.found)),
        ]);
        let is_bin = tcx.crate_types().iter().any(|c| format!("{:?}", c).contains("Executable"));
        let name = format!("{}/{}{}.json", self.out, krate, if is_bin { "-bin" } else { "" });
        let tmp = format!("{}.tmp{}", name, std::process::id());
        std::fs::write(&tmp, j.to_string()).expect("write facts");
        std::fs::rename(&tmp, &name).expect("rename facts");
        eprintln!("mirfacts: {} bodies={}", krate, n);
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // as RUSTC_WORKSPACE_WRAPPER: argv = [wrapper, rustc, args...]
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    let out = std::env::var("MIRFACTS_OUT").unwrap_or_default();
    let is_build_script = args.iter().any(|a| a == "build_script_build");
    let mut cb = Cb { out: if is_build_script { String::new() } else { out } };
    args.push("-Zmir-opt-level=0".into());
    args.push("-Coverflow-checks=off".into());
    args.push("-Zalways-encode-mir".into());
    rustc_driver::compiler_entrypoint(&args, &mut cb);
}
