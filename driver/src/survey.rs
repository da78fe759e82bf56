//! Survey of the public surface of the workspace crates (trait impls, inherent functions, ADTs).
use crate::json::J;
use rustc_hir::def::DefKind;
use rustc_middle::ty::TyCtxt;
use rustc_span::def_id::DefId;

pub const WS: &[&str] = &[
    "secret_integers",
    "abstract_integers",
    "hacspec",
    "hacspec_examples",
    "hacspec_dev",
    "hsharness",
];

fn vis(tcx: TyCtxt<'_>, d: DefId) -> J {
    J::B(tcx.visibility(d).is_public())
}

pub fn survey(tcx: TyCtxt<'_>) -> J {
    let mut crates = vec![];
    for &c in tcx.crates(()).iter().chain(std::iter::once(&rustc_span::def_id::LOCAL_CRATE)) {
        let name = tcx.crate_name(c).to_string();
        if !WS.contains(&name.as_str()) {
            continue;
        }
        let mut impls = vec![];
        let mut fns = vec![];
        let mut adts = vec![];
        let mut bodies = vec![];
        let n = if c == rustc_span::def_id::LOCAL_CRATE {
            tcx.hir_crate_items(()).definitions().map(|d| d.to_def_id()).collect::<Vec<_>>()
        } else {
            (0..tcx.num_extern_def_ids(c))
                .map(|i| DefId { krate: c, index: rustc_span::def_id::DefIndex::from_usize(i) })
                .collect()
        };
        for d in n {
            if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn | DefKind::Closure) && tcx.is_mir_available(d) {
                bodies.push(scan(tcx, d));
            }
            match tcx.def_kind(d) {
                DefKind::Impl { of_trait } => {
                    let self_ty = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    let mut o = vec![("self", J::S(crate::tys(self_ty)))];
                    if of_trait {
                        let tr = tcx.impl_trait_ref(d).instantiate_identity().skip_norm_wip();
                        o.push(("trait", J::S(crate::dp(tcx, tr.def_id))));
                        o.push(("ref", J::S(tr.to_string())));
                        o.push((
                            "targs",
                            J::A(tr.args.types().skip(1).map(|t| J::S(crate::tys(t))).collect()),
                        ));
                    }
                    let items = tcx
                        .associated_item_def_ids(d)
                        .iter()
                        .map(|x| J::S(tcx.opt_item_name(*x).map(|n| n.to_string()).unwrap_or_default()))
                        .collect();
                    o.push(("items", J::A(items)));
                    impls.push(J::O(o));
                }
                DefKind::Fn | DefKind::AssocFn => {
                    let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip().skip_binder();
                    let parent = tcx.parent(d);
                    let mut o = vec![
                        ("path", J::S(crate::dp(tcx, d))),
                        ("pub", vis(tcx, d)),
                        ("ins", J::A(sig.inputs().iter().map(|t| J::S(crate::tys(*t))).collect())),
                        ("out", J::S(crate::tys(sig.output()))),
                        ("unsafe", J::B(sig.safety().is_unsafe())),
                        ("name", J::S(tcx.item_name(d).to_string())),
                    ];
                    match tcx.def_kind(parent) {
                        DefKind::Impl { of_trait } => {
                            o.push((
                                "self",
                                J::S(crate::tys(tcx.type_of(parent).instantiate_identity().skip_norm_wip())),
                            ));
                            o.push(("of_trait", J::B(of_trait)));
                            if of_trait {
                                let tr = tcx.impl_trait_ref(parent).instantiate_identity().skip_norm_wip();
                                o.push(("trait", J::S(crate::dp(tcx, tr.def_id))));
                                o.push(("tref", J::S(tr.to_string())));
                            }
                        }
                        DefKind::Trait => {
                            o.push(("in_trait", J::S(crate::dp(tcx, parent))));
                            o.push(("default", J::B(tcx.defaultness(d).has_value())));
                        }
                        _ => {}
                    }
                    fns.push(J::O(o));
                }
                DefKind::Struct | DefKind::Enum | DefKind::Union => {
                    let a = tcx.adt_def(d);
                    let fs = a
                        .all_fields()
                        .map(|f| {
                            J::A(vec![
                                J::S(f.name.to_string()),
                                J::S(crate::tys(tcx.type_of(f.did).instantiate_identity().skip_norm_wip())),
                                J::B(f.vis.is_public()),
                            ])
                        })
                        .collect();
                    adts.push(J::O(vec![
                        ("path", J::S(crate::dp(tcx, d))),
                        ("pub", vis(tcx, d)),
                        ("fields", J::A(fs)),
                    ]));
                }
                _ => {}
            }
        }
        crates.push(J::O(vec![
            ("name", J::S(name)),
            ("impls", J::A(impls)),
            ("fns", J::A(fns)),
            ("adts", J::A(adts)),
            ("bodies", J::A(bodies)),
        ]));
    }
    J::A(crates)
}

/// effects visible in the (generic) MIR of one function: callees, raw dereferences, statics, addresses turned into integers
fn scan<'tcx>(tcx: TyCtxt<'tcx>, d: DefId) -> J {
    use rustc_middle::mir::*;
    use rustc_middle::ty::TyKind;
    let body = tcx.optimized_mir(d);
    let sm = tcx.sess.source_map();
    let loc = |sp: rustc_span::Span| {
        let l = sm.lookup_char_pos(sp.source_callsite().lo());
        let f = match &l.file.name {
            rustc_span::FileName::Real(r) => r.local_path().map(|x| x.display().to_string()).unwrap_or_default(),
            _ => String::new(),
        };
        J::S(format!("{}:{}", f, l.line))
    };
    let mut calls = vec![];
    let mut raw = vec![];
    let mut statics = vec![];
    let mut casts = vec![];
    let mut tcalls = vec![];
    let mut konst = |c: &ConstOperand<'tcx>, sp: rustc_span::Span, calls: &mut Vec<J>, isf: bool| {
        let t = c.const_.ty();
        if let TyKind::FnDef(f, ga) = t.kind() {
            if ga.skip_binder().types().next().is_some() {
                tcalls.push(J::A(vec![J::S(crate::dp(tcx, *f)), J::A(ga.skip_binder().types().map(|x| J::S(crate::tys(x))).collect()), loc(sp)]));
            }
            let uns = tcx.fn_sig(*f).skip_binder().safety().is_unsafe();
            calls.push(J::A(vec![J::S(crate::dp(tcx, *f)), J::B(uns), loc(sp), J::B(isf), J::S(tcx.crate_name(f.krate).to_string())]));
        }
        if let Some(s) = c.check_static_ptr(tcx) {
            statics.push(J::A(vec![J::S(crate::dp(tcx, s)), J::B(tcx.is_mutable_static(s) || !frozen(tcx, s)), loc(sp)]));
        }
    };
    let mut place = |p: &Place<'tcx>, sp: rustc_span::Span| {
        for (base, e) in p.iter_projections() {
            if matches!(e, ProjectionElem::Deref) && base.ty(&body.local_decls, tcx).ty.is_raw_ptr() {
                raw.push(loc(sp));
            }
        }
    };
    for bb in body.basic_blocks.iter() {
        for st in &bb.statements {
            let sp = st.source_info.span;
            if let StatementKind::Assign(b) = &st.kind {
                place(&b.0, sp);
                let mut ops: Vec<&Operand<'tcx>> = vec![];
                match &b.1 {
                    Rvalue::Use(o, ..) | Rvalue::Repeat(o, _) | Rvalue::UnaryOp(_, o) => ops.push(o),
                    Rvalue::Cast(k, o, t) => {
                        ops.push(o);
                        let from = o.ty(&body.local_decls, tcx);
                        casts.push(J::A(vec![J::S(format!("{:?}", k)), J::S(t.to_string()), loc(sp), J::S(from.to_string()), J::B(plain(*t) && plain(from))]));
                    }
                    Rvalue::BinaryOp(_, x) => {
                        ops.push(&x.0);
                        ops.push(&x.1);
                    }
                    Rvalue::Aggregate(_, v) => ops.extend(v.iter()),
                    Rvalue::Ref(_, _, p) | Rvalue::Discriminant(p) | Rvalue::RawPtr(_, p) | Rvalue::CopyForDeref(p) => place(p, sp),
                    _ => {}
                }
                for o in ops {
                    match o {
                        Operand::Copy(p) | Operand::Move(p) => place(p, sp),
                        Operand::Constant(c) => konst(c, sp, &mut calls, false),
                        _ => {}
                    }
                }
            }
        }
        if let Some(t) = &bb.terminator {
            let sp = t.source_info.span;
            match &t.kind {
                TerminatorKind::Call { func, args, .. } => {
                    if let Operand::Constant(c) = func {
                        konst(c, sp, &mut calls, true);
                    } else {
                        calls.push(J::A(vec![J::s("<indirect>"), J::B(false), loc(sp), J::B(true), J::s("")]));
                    }
                    for a in args.iter() {
                        match &a.node {
                            Operand::Copy(p) | Operand::Move(p) => place(p, sp),
                            Operand::Constant(c) => konst(c, sp, &mut calls, false),
                            _ => {}
                        }
                    }
                }
                TerminatorKind::InlineAsm { .. } => calls.push(J::A(vec![J::s("<asm>"), J::B(true), loc(sp), J::B(true), J::s("")])),
                _ => {}
            }
        }
    }
    J::O(vec![
        ("path", J::S(crate::dp(tcx, d))),
        ("loc", loc(tcx.def_span(d))),
        ("calls", J::A(calls)),
        ("raw", J::A(raw)),
        ("statics", J::A(statics)),
        ("casts", J::A(casts)),
        ("tcalls", J::A(tcalls)),
    ])
}

/// integers and arrays of integers: reinterpreting one as another is a value conversion
fn plain(t: rustc_middle::ty::Ty<'_>) -> bool {
    use rustc_middle::ty::TyKind;
    match t.kind() {
        TyKind::Int(_) | TyKind::Uint(_) => true,
        TyKind::Array(e, _) => plain(*e),
        _ => false,
    }
}
fn frozen(tcx: TyCtxt<'_>, s: DefId) -> bool {
    let t = tcx.type_of(s).instantiate_identity().skip_norm_wip();
    t.is_freeze(tcx, rustc_middle::ty::TypingEnv::fully_monomorphized())
}
