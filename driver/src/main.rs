//! hsdump: a rustc driver that writes, as JSON, the monomorphised MIR of everything reachable
//! from the `pub fn` roots of the analysed crate, with every call site resolved to its instance,
//! plus a type table, constants/statics, and a survey of the public surface of the workspace crates.
//! It never runs any of the analysed code.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_infer;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public;
extern crate rustc_public_bridge;
extern crate rustc_span;
extern crate rustc_trait_selection;

mod json;
mod survey;
use json::J;
use rustc_infer::infer::TyCtxtInferExt;
use rustc_middle::ty::{self as ity, TyCtxt};
use rustc_public::abi::{FieldsShape, TagEncoding, VariantsShape};
use rustc_public::{CrateDef, CrateDefType};
use rustc_public::mir::alloc::{AllocId, GlobalAlloc};
use rustc_public::mir::mono::{Instance, InstanceKind, StaticDef};
use rustc_public::mir::*;
use rustc_public::rustc_internal::{internal, stable};
use rustc_public::ty::*;
use rustc_public_bridge::IndexedVal;
use rustc_trait_selection::infer::InferCtxtExt;
use std::collections::{HashMap, VecDeque};

pub struct Dump<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: HashMap<Ty, usize>,
    ty_out: Vec<J>,
    ty_queue: VecDeque<(usize, Ty)>,
    insts: HashMap<Instance, usize>,
    inst_list: Vec<Instance>,
    allocs: HashMap<AllocId, usize>,
    alloc_list: Vec<AllocId>,
    statics: HashMap<StaticDef, usize>,
    static_list: Vec<StaticDef>,
    files: HashMap<String, usize>,
    file_list: Vec<String>,
    anon_allocs: Vec<J>,
}

/// definition path that does not depend on what the analysed crates happen to re-export
pub fn dp(tcx: TyCtxt<'_>, d: rustc_span::def_id::DefId) -> String {
    use rustc_middle::ty::print::{with_no_trimmed_paths, with_no_visible_paths, with_crate_prefix};
    with_crate_prefix!(with_no_visible_paths!(with_no_trimmed_paths!(tcx.def_path_str(d))))
}

/// type name that does not depend on re-exports
pub fn tys(t: ity::Ty<'_>) -> String {
    use rustc_middle::ty::print::{with_no_trimmed_paths, with_no_visible_paths, with_crate_prefix};
    with_crate_prefix!(with_no_visible_paths!(with_no_trimmed_paths!(t.to_string())))
}

fn skip_body(path: &str) -> bool {
    // opaque subsystems: modelled by name in the analyser, their insides are irrelevant
    const P: &[&str] = &[
        "core::fmt::", "alloc::fmt::", "std::io::", "std::panicking", "core::panicking",
        "std::sys::", "num_bigint", "num::", "num_traits", "num_integer", "rand", "std::fs::", "std::rt::",
        "std::collections::", "getrandom", "std::thread", "core::num::flt2dec", "core::unicode", "serde",
        "alloc::raw_vec", "alloc::alloc::", "core::str::pattern", "core::num::fmt",
    ];
    P.iter().any(|p| path.starts_with(p))
}

impl<'tcx> Dump<'tcx> {
    fn ty(&mut self, t: Ty) -> usize {
        if let Some(i) = self.tys.get(&t) {
            return *i;
        }
        let i = self.ty_out.len();
        self.tys.insert(t, i);
        self.ty_out.push(J::Null);
        self.ty_queue.push_back((i, t));
        i
    }
    fn inst(&mut self, i: Instance) -> usize {
        if let Some(x) = self.insts.get(&i) {
            return *x;
        }
        let n = self.inst_list.len();
        self.insts.insert(i, n);
        self.inst_list.push(i);
        n
    }
    fn alloc(&mut self, a: AllocId) -> usize {
        if let Some(x) = self.allocs.get(&a) {
            return *x;
        }
        let n = self.alloc_list.len();
        self.allocs.insert(a, n);
        self.alloc_list.push(a);
        n
    }
    fn stat(&mut self, a: StaticDef) -> usize {
        if let Some(x) = self.statics.get(&a) {
            return *x;
        }
        let n = self.static_list.len();
        self.statics.insert(a, n);
        self.static_list.push(a);
        n
    }
    fn file(&mut self, f: String) -> usize {
        if let Some(x) = self.files.get(&f) {
            return *x;
        }
        let n = self.file_list.len();
        self.files.insert(f.clone(), n);
        self.file_list.push(f);
        n
    }
    fn span(&mut self, s: Span) -> J {
        let f = s.get_filename();
        let l = s.get_lines();
        let fi = self.file(f);
        J::A(vec![J::N(fi as i128), J::N(l.start_line as i128)])
    }
    fn garg(&mut self, a: &GenericArgKind) -> Option<J> {
        match a {
            GenericArgKind::Lifetime(_) => None,
            GenericArgKind::Type(t) => Some(J::N(self.ty(*t) as i128)),
            GenericArgKind::Const(c) => Some(J::A(vec![
                J::s("const"),
                match c.eval_target_usize() {
                    Ok(v) => J::U(v as u128),
                    Err(_) => J::S(format!("{:?}", c.kind())),
                },
            ])),
        }
    }
    fn gargs(&mut self, a: &GenericArgs) -> J {
        J::A(a.0.iter().filter_map(|x| self.garg(x)).collect())
    }

    fn implements(&self, t: Ty, tr: ity::TraitRef<'tcx>) -> bool {
        let _ = t;
        use rustc_middle::ty::TypingMode;
        let infcx = self.tcx.infer_ctxt().build(TypingMode::PostAnalysis);
        infcx
            .type_implements_trait(tr.def_id, tr.args, ity::ParamEnv::empty())
            .must_apply_modulo_regions()
    }

    /// resolve `<t as Trait>::method` for a lang/diagnostic trait whose only parameters are `params`
    fn trait_by_path(&self, path: &str) -> Option<rustc_span::def_id::DefId> {
        let tcx = self.tcx;
        let li = tcx.lang_items();
        let core = li.clone_trait()?.krate;
        tcx.traits(core).iter().copied().find(|d| dp(tcx, *d) == path)
    }

    fn hook(&mut self, t: Ty, trait_did: Option<rustc_span::def_id::DefId>, method: &str, params: &[Ty]) -> Option<J> {
        let tcx = self.tcx;
        let trait_did = trait_did?;
        let it = tcx.erase_and_anonymize_regions(internal(tcx, t));
        let mut args: Vec<ity::GenericArg<'tcx>> = vec![it.into()];
        for p in params {
            args.push(tcx.erase_and_anonymize_regions(internal(tcx, *p)).into());
        }
        let tr = ity::TraitRef::new(tcx, trait_did, args.clone());
        if !self.implements(t, tr) {
            return None;
        }
        let m = tcx
            .associated_items(trait_did)
            .in_definition_order()
            .find(|x| x.is_fn() && x.name().as_str() == method)?
            .def_id;
        let gen = tcx.generics_of(m);
        if gen.own_params.iter().any(|p| !matches!(p.kind, ity::GenericParamDefKind::Lifetime)) {
            return None;
        }
        let args = tcx.mk_args(&args);
        let full = ity::GenericArgs::for_item(tcx, m, |p, _| {
            if (p.index as usize) < args.len() { args[p.index as usize] } else { tcx.lifetimes.re_erased.into() }
        });
        let r = ity::Instance::try_resolve(tcx, ity::TypingEnv::fully_monomorphized(), m, full).ok()??;
        let si = stable(r);
        Some(J::N(self.inst(si) as i128))
    }

    fn do_ty(&mut self, t: Ty) -> J {
        let mut o: Vec<(&'static str, J)> = vec![];
        let shape = t.layout().ok().map(|l| l.shape());
        if let Some(sh) = &shape {
            o.push(("size", J::N(sh.size.bytes() as i128)));
            match &sh.fields {
                FieldsShape::Arbitrary { offsets } => {
                    o.push(("off", J::A(offsets.iter().map(|x| J::N(x.bytes() as i128)).collect())))
                }
                FieldsShape::Array { stride, .. } => o.push(("stride", J::N(stride.bytes() as i128))),
                _ => {}
            }
            match &sh.variants {
                VariantsShape::Single { index } => o.push(("single", J::N(index.to_index() as i128))),
                VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                    let tsz = match tag {
                        rustc_public::abi::Scalar::Initialized { value, .. }
                        | rustc_public::abi::Scalar::Union { value } => {
                            value.size(&rustc_public::target::MachineInfo::target()).bytes()
                        }
                    };
                    let mut e = vec![J::N(*tag_field as i128), J::N(tsz as i128)];
                    match tag_encoding {
                        TagEncoding::Direct => e.push(J::s("direct")),
                        TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                            e.push(J::s("niche"));
                            e.push(J::N(untagged_variant.to_index() as i128));
                            e.push(J::N(niche_variants.start().to_index() as i128));
                            e.push(J::N(niche_variants.end().to_index() as i128));
                            e.push(J::U(*niche_start));
                        }
                    }
                    o.push(("tag", J::A(e)));
                    o.push((
                        "voff",
                        J::A(variants
                            .iter()
                            .map(|v| J::A(v.offsets.iter().map(|x| J::N(x.bytes() as i128)).collect()))
                            .collect()),
                    ));
                }
                _ => {}
            }
        }
        o.push(("str", J::S(format!("{}", t))));
        let kind = t.kind();
        let k = match kind.rigid() {
            None => {
                o.push(("dbg", J::S(format!("{:?}", kind))));
                "unknown"
            }
            Some(r) => match r {
                RigidTy::Bool => "bool",
                RigidTy::Char => "char",
                RigidTy::Int(i) => {
                    o.push(("bits", J::N(i.num_bytes() as i128 * 8)));
                    o.push(("signed", J::B(true)));
                    "int"
                }
                RigidTy::Uint(i) => {
                    o.push(("bits", J::N(i.num_bytes() as i128 * 8)));
                    o.push(("signed", J::B(false)));
                    "int"
                }
                RigidTy::Float(_) => "float",
                RigidTy::Str => "str",
                RigidTy::Never => "never",
                RigidTy::Array(e, n) => {
                    o.push(("e", J::N(self.ty(*e) as i128)));
                    o.push(("len", J::N(n.eval_target_usize().unwrap_or(0) as i128)));
                    "array"
                }
                RigidTy::Slice(e) => {
                    o.push(("e", J::N(self.ty(*e) as i128)));
                    "slice"
                }
                RigidTy::RawPtr(e, m) => {
                    o.push(("t", J::N(self.ty(*e) as i128)));
                    o.push(("mut", J::B(*m == Mutability::Mut)));
                    "ptr"
                }
                RigidTy::Ref(_, e, m) => {
                    o.push(("t", J::N(self.ty(*e) as i128)));
                    o.push(("mut", J::B(*m == Mutability::Mut)));
                    "ref"
                }
                RigidTy::Tuple(ts) => {
                    let v = ts.iter().map(|x| J::N(self.ty(*x) as i128)).collect();
                    o.push(("fields", J::A(v)));
                    "tuple"
                }
                RigidTy::FnDef(d, a) => {
                    { let n = dp(self.tcx, internal(self.tcx, d.def_id())); o.push(("def", J::S(n))); }
                    let v = self.gargs(a);
                    o.push(("args", v));
                    match Instance::resolve(*d, a) {
                        Ok(i) => {
                            let x = self.inst(i);
                            o.push(("inst", J::N(x as i128)))
                        }
                        Err(_) => {}
                    }
                    "fndef"
                }
                RigidTy::FnPtr(_) => "fnptr",
                RigidTy::Closure(d, a) => {
                    { let n = dp(self.tcx, internal(self.tcx, d.def_id())); o.push(("def", J::S(n))); }
                    // upvar tuple types
                    let ic = internal(self.tcx, t);
                    if let ity::TyKind::Closure(_, ca) = ic.kind() {
                        let ups: Vec<Ty> = ca.as_closure().upvar_tys().iter().map(|x| stable(x)).collect();
                        let v = ups.iter().map(|x| J::N(self.ty(*x) as i128)).collect();
                        o.push(("fields", J::A(v)));
                        let kind = ca.as_closure().kind();
                        o.push(("ckind", J::S(format!("{:?}", kind))));
                        let k = match kind {
                            ity::ClosureKind::Fn => ClosureKind::Fn,
                            ity::ClosureKind::FnMut => ClosureKind::FnMut,
                            ity::ClosureKind::FnOnce => ClosureKind::FnOnce,
                        };
                        if let Ok(i) = Instance::resolve_closure(*d, a, k) {
                            let x = self.inst(i);
                            o.push(("inst", J::N(x as i128)));
                        }
                    }
                    "closure"
                }
                RigidTy::Dynamic(..) => "dyn",
                RigidTy::Adt(d, a) => {
                    { let n = dp(self.tcx, internal(self.tcx, d.def_id())); o.push(("def", J::S(n))); }
                    let v = self.gargs(a);
                    o.push(("args", v));
                    o.push(("crate", J::S(d.krate().name)));
                    o.push((
                        "adt",
                        J::s(match d.kind() {
                            AdtKind::Enum => "enum",
                            AdtKind::Union => "union",
                            AdtKind::Struct => "struct",
                        }),
                    ));
                    let mut vs = vec![];
                    for v in d.variants_iter() {
                        let mut fs = vec![];
                        for f in v.fields() {
                            fs.push(J::A(vec![J::S(f.name.clone()), J::N(self.ty(f.ty_with_args(a)) as i128)]));
                        }
                        let disc = if d.kind() == AdtKind::Enum {
                            J::U(d.discriminant_for_variant(v.idx()).val)
                        } else {
                            J::N(0)
                        };
                        vs.push(J::A(vec![J::S(v.name()), J::A(fs), disc]));
                    }
                    o.push(("variants", J::A(vs)));
                    if d.is_box() { "box" } else { "adt" }
                }
                _ => "other",
            },
        };
        o.push(("k", J::s(k)));
        if matches!(k, "adt" | "box" | "closure" | "ref" | "tuple" | "array") {
            let li = self.tcx.lang_items();
            let tcx0 = self.tcx;
            let dg = |s: &str| tcx0.get_diagnostic_item(rustc_span::Symbol::intern(s));
            let iter = dg("Iterator");
            let clone = li.clone_trait();
            let eq = li.eq_trait();
            let default = dg("Default");
            let drop = li.drop_trait();
            let pord = li.partial_ord_trait();
            let ord = dg("Ord");
            let deref = li.deref_trait();
            let mut hooks: Vec<(&'static str, J)> = vec![];
            // `&mut I` is an iterator when I is: following that for `&mut &mut I` would never end
            let nested_ref = match kind.rigid() {
                Some(RigidTy::Ref(_, e, _)) => matches!(e.kind().rigid(), Some(RigidTy::Ref(..))),
                _ => false,
            };
            if k != "tuple" && k != "array" && !nested_ref {
                if let Some(x) = self.hook(t, iter, "next", &[]) {
                    hooks.push(("next", x));
                    if let Some(x) = self.hook(t, dg("DoubleEndedIterator").or_else(|| None), "next_back", &[]) {
                        hooks.push(("next_back", x));
                    }
                }
            }
            if k == "adt" {
                // printing hooks are followed for the types of the workspace only
                let lib_adt = match kind.rigid() {
                    Some(RigidTy::Adt(d, _)) => {
                        let c = d.krate().name;
                        c == "core" || c == "alloc" || c == "std" || c.starts_with("num") || c.starts_with("rand")
                    }
                    _ => true,
                };
                for (n, d, m, p) in [
                    ("clone", clone, "clone", 0),
                    ("eq", eq, "eq", 1),
                    ("ne", eq, "ne", 1),
                    ("default", default, "default", 0),
                    ("drop", drop, "drop", 0),
                    ("partial_cmp", pord, "partial_cmp", 1),
                    ("cmp", ord, "cmp", 0),
                    ("deref", deref, "deref", 0),
                    ("display", dg("Display"), "fmt", 0),
                    ("lower_hex", self.trait_by_path("core::fmt::LowerHex"), "fmt", 0),
                    ("upper_hex", self.trait_by_path("core::fmt::UpperHex"), "fmt", 0),
                ] {
                    let ps: Vec<Ty> = if p == 1 { vec![t] } else { vec![] };
                    if m == "fmt" && lib_adt {
                        continue;
                    }
                    if let Some(x) = self.hook(t, d, m, &ps) {
                        hooks.push((n, x));
                    }
                }
            }
            if !hooks.is_empty() {
                o.push(("hooks", J::O(hooks)));
            }
        }
        J::O(o)
    }

    fn place(&mut self, p: &Place) -> J {
        let mut pr = vec![];
        for e in &p.projection {
            pr.push(match e {
                ProjectionElem::Deref => J::s("d"),
                ProjectionElem::Field(i, _) => J::A(vec![J::s("f"), J::N(*i as i128)]),
                ProjectionElem::Index(l) => J::A(vec![J::s("i"), J::N(*l as i128)]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => J::A(vec![
                    J::s("ci"),
                    J::N(*offset as i128),
                    J::N(*min_length as i128),
                    J::B(*from_end),
                ]),
                ProjectionElem::Subslice { from, to, from_end } => {
                    J::A(vec![J::s("ss"), J::N(*from as i128), J::N(*to as i128), J::B(*from_end)])
                }
                ProjectionElem::Downcast(v) => J::A(vec![J::s("dc"), J::N(v.to_index() as i128)]),
                ProjectionElem::OpaqueCast(_) => continue,
            });
        }
        J::A(vec![J::N(p.local as i128), J::A(pr)])
    }

    fn alloc_body(&mut self, a: &Allocation) -> J {
        let mut prov = vec![];
        for (off, p) in &a.provenance.ptrs {
            prov.push(J::A(vec![J::N(*off as i128), J::N(self.alloc(p.0) as i128)]));
        }
        J::O(vec![
            ("bytes", J::S(a.bytes.iter().map(|b| match b { Some(x) => format!("{:02x}", x), None => "00".into() }).collect::<String>())),
            ("prov", J::A(prov)),
        ])
    }

    fn constant(&mut self, c: &MirConst) -> J {
        let t = c.ty();
        let ti = self.ty(t);
        match c.kind() {
            ConstantKind::ZeroSized => J::A(vec![J::s("cz"), J::N(ti as i128)]),
            ConstantKind::Allocated(a) => {
                let scalar = matches!(
                    t.kind().rigid(),
                    Some(RigidTy::Bool | RigidTy::Char | RigidTy::Int(_) | RigidTy::Uint(_))
                );
                if scalar && a.provenance.ptrs.is_empty() {
                    if let Ok(v) = a.read_uint() {
                        return J::A(vec![J::s("ci"), J::N(ti as i128), J::U(v)]);
                    }
                }
                if a.bytes.is_empty() {
                    return J::A(vec![J::s("cz"), J::N(ti as i128)]);
                }
                let b = self.alloc_body(a);
                let n = self.anon_allocs.len();
                self.anon_allocs.push(b);
                J::A(vec![J::s("ca"), J::N(ti as i128), J::N(n as i128)])
            }
            ConstantKind::Ty(tc) => match tc.eval_target_usize() {
                Ok(v) => J::A(vec![J::s("ci"), J::N(ti as i128), J::U(v as u128)]),
                Err(_) => J::A(vec![J::s("cu"), J::N(ti as i128), J::S(format!("{:?}", tc))]),
            },
            k => J::A(vec![J::s("cu"), J::N(ti as i128), J::S(format!("{:?}", k))]),
        }
    }

    fn op(&mut self, o: &Operand) -> J {
        match o {
            Operand::Copy(p) => J::A(vec![J::s("p"), self.place(p)]),
            Operand::Move(p) => J::A(vec![J::s("p"), self.place(p)]),
            Operand::Constant(c) => self.constant(&c.const_),
            Operand::RuntimeChecks(c) => J::A(vec![J::s("rc"), J::S(format!("{:?}", c))]),
        }
    }

    fn rvalue(&mut self, r: &Rvalue, locals: &[LocalDecl]) -> J {
        let v = match r {
            Rvalue::Use(o, _) => vec![J::s("use"), self.op(o)],
            Rvalue::CopyForDeref(p) => {
                let p = self.place(p);
                vec![J::s("use"), J::A(vec![J::s("p"), p])]
            }
            Rvalue::Reborrow(_, _, p) => {
                let p = self.place(p);
                vec![J::s("use"), J::A(vec![J::s("p"), p])]
            }
            Rvalue::AddressOf(_, p) => vec![J::s("ref"), self.place(p)],
            Rvalue::Ref(_, _, p) => vec![J::s("ref"), self.place(p)],
            Rvalue::Aggregate(k, ops) => {
                let ops = J::A(ops.iter().map(|x| self.op(x)).collect());
                match k {
                    AggregateKind::Array(t) => vec![J::s("arr"), ops, J::N(self.ty(*t) as i128)],
                    AggregateKind::Tuple => vec![J::s("tup"), ops],
                    AggregateKind::Adt(d, vi, a, _, fi) => {
                        let t = self.ty(d.ty_with_args(a));
                        vec![
                            J::s("adt"),
                            ops,
                            J::N(t as i128),
                            J::N(vi.to_index() as i128),
                            match fi {
                                Some(x) => J::N(*x as i128),
                                None => J::Null,
                            },
                        ]
                    }
                    AggregateKind::Closure(d, a) => {
                        let t = self.ty(Ty::new_closure(*d, a.clone()));
                        vec![J::s("clo"), ops, J::N(t as i128)]
                    }
                    AggregateKind::RawPtr(t, _) => vec![J::s("rawptr"), ops, J::N(self.ty(*t) as i128)],
                    _ => vec![J::s("unsupported")],
                }
            }
            Rvalue::BinaryOp(b, x, y) => {
                let t = x.ty(locals).unwrap();
                let t2 = y.ty(locals).unwrap();
                vec![J::s("bin"), J::S(format!("{:?}", b)), self.op(x), self.op(y), J::N(self.ty(t) as i128), J::N(self.ty(t2) as i128)]
            }
            Rvalue::CheckedBinaryOp(b, x, y) => {
                let t = x.ty(locals).unwrap();
                let t2 = y.ty(locals).unwrap();
                vec![J::s("chk"), J::S(format!("{:?}", b)), self.op(x), self.op(y), J::N(self.ty(t) as i128), J::N(self.ty(t2) as i128)]
            }
            Rvalue::UnaryOp(u, x) => {
                let t = x.ty(locals).unwrap();
                vec![J::s("un"), J::S(format!("{:?}", u)), self.op(x), J::N(self.ty(t) as i128)]
            }
            Rvalue::Cast(k, x, t) => {
                let st = x.ty(locals).unwrap();
                vec![
                    J::s("cast"),
                    J::S(match k {
                        CastKind::PointerCoercion(p) => format!("{:?}", p).split('(').next().unwrap().to_string(),
                        k => format!("{:?}", k),
                    }),
                    self.op(x),
                    J::N(self.ty(*t) as i128),
                    J::N(self.ty(st) as i128),
                ]
            }
            Rvalue::Discriminant(p) => {
                let t = p.ty(locals).unwrap();
                let dt = t.kind().discriminant_ty().map(|x| self.ty(x)).unwrap_or(0);
                vec![J::s("disc"), self.place(p), J::N(self.ty(t) as i128), J::N(dt as i128)]
            }
            Rvalue::Len(p) => vec![J::s("len"), self.place(p)],
            Rvalue::Repeat(o, n) => {
                vec![J::s("rep"), self.op(o), J::N(n.eval_target_usize().unwrap() as i128)]
            }
            Rvalue::ThreadLocalRef(_) => vec![J::s("unsupported")],
        };
        J::A(v)
    }

    fn body(&mut self, b: &Body) -> J {
        let locals = b.locals();
        let lt: Vec<J> = locals.iter().map(|l| J::N(self.ty(l.ty) as i128)).collect();
        let mut blocks = vec![];
        for bb in &b.blocks {
            let mut ss = vec![];
            for s in &bb.statements {
                match &s.kind {
                    StatementKind::Assign(p, r) => {
                        let p2 = self.place(p);
                        let r2 = self.rvalue(r, locals);
                        ss.push(J::A(vec![J::s("="), p2, r2]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p2 = self.place(place);
                        ss.push(J::A(vec![J::s("sd"), p2, J::N(variant_index.to_index() as i128)]));
                    }
                    StatementKind::Intrinsic(NonDivergingIntrinsic::CopyNonOverlapping(c)) => {
                        let v = vec![J::s("cno"), self.op(&c.src), self.op(&c.dst), self.op(&c.count)];
                        ss.push(J::A(v));
                    }
                    _ => {}
                }
            }
            let sp = self.span(bb.terminator.source_info.span);
            let t = match &bb.terminator.kind {
                TerminatorKind::Goto { target } => vec![J::s("goto"), J::N(*target as i128)],
                TerminatorKind::SwitchInt { discr, targets } => {
                    let t = discr.ty(locals).unwrap();
                    vec![
                        J::s("sw"),
                        self.op(discr),
                        J::N(self.ty(t) as i128),
                        J::A(targets
                            .branches()
                            .map(|(v, b)| J::A(vec![J::U(v), J::N(b as i128)]))
                            .collect()),
                        J::N(targets.otherwise() as i128),
                        sp,
                    ]
                }
                TerminatorKind::Resume => vec![J::s("resume")],
                TerminatorKind::Abort => vec![J::s("abort")],
                TerminatorKind::Return => vec![J::s("ret")],
                TerminatorKind::Unreachable => vec![J::s("unreach")],
                TerminatorKind::Drop { target, .. } => vec![J::s("goto"), J::N(*target as i128)],
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = match func {
                        Operand::Constant(c) => match c.const_.ty().kind().fn_def() {
                            Some((d, a)) => {
                                let mut o = vec![("def", J::S(dp(self.tcx, internal(self.tcx, d.def_id())))), ("args", self.gargs(a))];
                                let rc = matches!(d.fn_sig().value.abi, Abi::RustCall);
                                if rc {
                                    o.push(("rc", J::B(true)));
                                }
                                if let Some(ai) = d.associated_item() {
                                    if matches!(ai.container, AssocContainer::Trait) {
                                        o.push(("trait", J::B(true)));
                                    }
                                }
                                match Instance::resolve(d, a) {
                                    Ok(i) => {
                                        let n = self.inst(i);
                                        o.push(("inst", J::N(n as i128)));
                                    }
                                    Err(_) => {}
                                }
                                J::O(o)
                            }
                            None => self.op(func),
                        },
                        o => self.op(o),
                    };
                    let a = args.iter().map(|x| self.op(x)).collect();
                    let at = args.iter().map(|x| { let t = x.ty(locals).unwrap(); J::N(self.ty(t) as i128) }).collect();
                    vec![
                        J::s("call"),
                        f,
                        J::A(a),
                        self.place(destination),
                        match target {
                            Some(t) => J::N(*t as i128),
                            None => J::Null,
                        },
                        sp,
                        J::A(at),
                        { let t = destination.ty(locals).unwrap(); J::N(self.ty(t) as i128) },
                    ]
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let k = match msg {
                        AssertMessage::BoundsCheck { .. } => "bounds".to_string(),
                        AssertMessage::Overflow(o, _, _) => format!("overflow:{:?}", o),
                        AssertMessage::OverflowNeg(_) => "overflow:Neg".into(),
                        AssertMessage::DivisionByZero(_) => "div0".into(),
                        AssertMessage::RemainderByZero(_) => "rem0".into(),
                        _ => "other".into(),
                    };
                    vec![J::s("assert"), self.op(cond), J::B(*expected), J::S(k), J::N(*target as i128), sp]
                }
                TerminatorKind::InlineAsm { .. } => vec![J::s("unsupported")],
            };
            blocks.push(J::A(vec![J::A(ss), J::A(t)]));
        }
        let names: Vec<J> = b
            .var_debug_info
            .iter()
            .filter_map(|v| v.local().map(|l| J::A(vec![J::N(l as i128), J::S(v.name.clone())])))
            .collect();
        J::O(vec![
            ("argc", J::N(b.arg_locals().len() as i128)),
            ("locals", J::A(lt)),
            ("spread", match b.spread_arg() { Some(x) => J::N(x as i128), None => J::Null }),
            ("names", J::A(names)),
            ("blocks", J::A(blocks)),
        ])
    }

    fn do_inst(&mut self, i: Instance) -> J {
        let mut o: Vec<(&'static str, J)> = vec![("name", J::S(i.name()))];
        let def_path = dp(self.tcx, internal(self.tcx, i.def.def_id()));
        o.push(("def", J::S(def_path.clone())));
        let ga = i.args();
        let v = self.gargs(&ga);
        o.push(("args", v));
        o.push(("crate", J::S(i.def.krate().name)));
        o.push((
            "kind",
            J::s(match i.kind {
                InstanceKind::Item => "item",
                InstanceKind::Intrinsic => "intrinsic",
                InstanceKind::Virtual { .. } => "virtual",
                InstanceKind::Shim => "shim",
                _ => "other",
            }),
        ));
        if let Some(n) = i.intrinsic_name() {
            o.push(("intrinsic", J::S(n)));
        }
        let idef = internal(self.tcx, i);
        if let ity::InstanceKind::Item(d) = idef.def {
            if let Some(ai) = self.tcx.opt_associated_item(d) {
                if let Some(td) = ai.trait_item_def_id() {
                    o.push(("tm", J::S(dp(self.tcx, td))));
                }
            }
        }
        let shim_ok = matches!(i.kind, InstanceKind::Item | InstanceKind::Shim | InstanceKind::Intrinsic);
        if shim_ok && !skip_body(&def_path) && !skip_body(&i.name()) && i.has_body() {
            if let Some(b) = i.body() {
                let sp = self.span(b.span);
                o.push(("span", sp));
                let bj = self.body(&b);
                o.push(("body", bj));
            }
        }
        J::O(o)
    }
}

fn dump(tcx: TyCtxt<'_>, out: &str) {
    let mut d = Dump {
        tcx,
        tys: HashMap::new(),
        ty_out: vec![],
        ty_queue: VecDeque::new(),
        insts: HashMap::new(),
        inst_list: vec![],
        allocs: HashMap::new(),
        alloc_list: vec![],
        statics: HashMap::new(),
        static_list: vec![],
        files: HashMap::new(),
        file_list: vec![],
        anon_allocs: vec![],
    };
    let mut roots = vec![];
    let lc = rustc_public::local_crate();
    for f in lc.fn_defs() {
        let did = internal(tcx, f.def_id());
        if tcx.generics_of(did).count() != 0 || !tcx.visibility(did).is_public() {
            continue;
        }
        if let Some(ai) = f.associated_item() {
            let _ = ai;
            continue;
        }
        if let Ok(i) = Instance::resolve(f, &GenericArgs(vec![])) {
            let n = d.inst(i);
            roots.push(J::A(vec![J::S(dp(tcx, did)), J::N(n as i128)]));
        }
    }
    let survey = survey::survey(tcx);
    // statics of the workspace crates are decoded from their initialisers
    for c in std::iter::once(lc).chain(rustc_public::external_crates()) {
        if survey::WS.contains(&c.name.as_str()) {
            for s in c.statics() {
                d.stat(s);
            }
        }
    }
    let (mut ni, mut na, mut ns) = (0, 0, 0);
    let mut fns = vec![];
    let mut allocs = vec![];
    let mut statics = vec![];
    loop {
        if let Some((i, t)) = d.ty_queue.pop_front() {
            let j = d.do_ty(t);
            d.ty_out[i] = j;
        } else if ni < d.inst_list.len() {
            let i = d.inst_list[ni];
            ni += 1;
            if ni > 60000 {
                eprintln!("hsdump: instance limit: {}", i.name());
                std::process::exit(3);
            }
            let j = d.do_inst(i);
            fns.push(j);
        } else if na < d.alloc_list.len() {
            let a = d.alloc_list[na];
            na += 1;
            let j = match GlobalAlloc::from(a) {
                GlobalAlloc::Function(i) => J::O(vec![("fn", J::N(d.inst(i) as i128))]),
                GlobalAlloc::Static(s) => J::O(vec![("static", J::N(d.stat(s) as i128))]),
                GlobalAlloc::Memory(a) => d.alloc_body(&a),
                _ => J::O(vec![("other", J::B(true))]),
            };
            allocs.push(j);
        } else if ns < d.static_list.len() {
            let s = d.static_list[ns];
            ns += 1;
            let t = d.ty(s.ty());
            let init = match s.eval_initializer() {
                Ok(a) => d.alloc_body(&a),
                Err(_) => J::Null,
            };
            statics.push(J::O(vec![
                ("name", J::S(s.name())),
                ("ty", J::N(t as i128)),
                ("init", init),
                ("crate", J::S(s.krate().name)),
            ]));
        } else {
            break;
        }
    }
    let o = J::O(vec![
        ("roots", J::A(roots)),
        ("types", J::A(d.ty_out)),
        ("fns", J::A(fns)),
        ("allocs", J::A(allocs)),
        ("consts", J::A(d.anon_allocs)),
        ("statics", J::A(statics)),
        ("files", J::A(d.file_list.into_iter().map(J::S).collect())),
        ("survey", survey),
    ]);
    let mut s = String::new();
    o.write(&mut s);
    std::fs::write(out, s).unwrap();
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER style invocation: argv[1] is the rustc path
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].ends_with("rustc.exe")) {
        args.remove(1);
    }
    let target = std::env::var("HSDUMP_CRATE").unwrap_or_default();
    let out = std::env::var("HSDUMP_OUT").unwrap_or_default();
    let is = |n: &str| args.windows(2).any(|w| w[0] == "--crate-name" && w[1] == n);
    if !target.is_empty() && is(&target) {
        let r: Result<(), rustc_public::CompilerError<()>> =
            rustc_public::run_with_tcx!(&args, |tcx: TyCtxt<'_>| {
                dump(tcx, &out);
                ControlFlow::<(), ()>::Continue(())
            });
        std::process::exit(if r.is_ok() { 0 } else { 1 });
    }
    use std::os::unix::process::CommandExt;
    let rustc = std::env::var("HSDUMP_RUSTC").unwrap_or_else(|_| "rustc".into());
    let e = std::process::Command::new(rustc).args(&args[1..]).exec();
    panic!("cannot exec rustc: {}", e);
}
