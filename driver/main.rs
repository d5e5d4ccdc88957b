// MIR fact extractor: a rustc driver used as RUSTC_WORKSPACE_WRAPPER under `cargo +nightly check`.
// For the crate named by GRENAD_FACTS_CRATE it dumps, as JSON, every function instance reachable
// from the crate's own functions: generic roots are kept generic (identity arguments, callees
// resolved in the root's parameter environment), so a call on a user-supplied type parameter
// (R: io::Read, MF: MergeFunction, ...) stays visible as an unresolved trait-method call.
#![feature(rustc_private)]
#![allow(clippy::all)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_index;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;
extern crate rustc_trait_selection;
extern crate rustc_infer;

use std::collections::{HashMap, HashSet, VecDeque};
use std::fmt::Write as _;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::mir::*;
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, Instance, InstanceKind, ShimKind, Ty, TyCtxt, TyKind, TypingEnv};
use rustc_span::def_id::{DefId, LOCAL_CRATE};
use rustc_span::Span;

// ---------------------------------------------------------------- json
#[derive(Clone)]
enum J {
    Null,
    B(bool),
    I(i128),
    S(String),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
}
fn s(x: impl Into<String>) -> J {
    J::S(x.into())
}
fn i(x: usize) -> J {
    J::I(x as i128)
}
impl J {
    fn w(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::B(b) => write!(o, "{}", b).unwrap(),
            J::I(n) => write!(o, "{}", n).unwrap(),
            J::S(t) => {
                o.push('"');
                for c in t.chars() {
                    match c {
                        '"' => o.push_str("\\\""),
                        '\\' => o.push_str("\\\\"),
                        '\n' => o.push_str("\\n"),
                        c if (c as u32) < 0x20 => write!(o, "\\u{:04x}", c as u32).unwrap(),
                        c => o.push(c),
                    }
                }
                o.push('"');
            }
            J::A(v) => {
                o.push('[');
                for (k, x) in v.iter().enumerate() {
                    if k > 0 {
                        o.push(',');
                    }
                    x.w(o);
                }
                o.push(']');
            }
            J::O(v) => {
                o.push('{');
                for (k, (n, x)) in v.iter().enumerate() {
                    if k > 0 {
                        o.push(',');
                    }
                    write!(o, "\"{}\":", n).unwrap();
                    x.w(o);
                }
                o.push('}');
            }
        }
    }
}

// crates whose bodies are worth inlining, by def-path prefix
const INLINE: &[(&str, &str)] = &[
    ("core", "::option"),
    ("core", "::result"),
    ("core", "::ops"),
    ("core", "::convert"),
    ("core", "::cmp"),
    ("core", "::iter"),
    ("core", "::mem"),
    ("core", "::borrow"),
    ("core", "::bool"),
    ("core", "::tuple"),
    ("core", "::clone"),
    ("core", "::default"),
    ("core", "::hint"),
    ("core", "::alloc::layout"),
    ("alloc", "::borrow"),
    ("std", "::io::impls"),
    ("core", "::io::impls"),
    ("alloc", "::io::impls"),
    ("either", ""),
];

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    env: TypingEnv<'tcx>,
    envno: usize,
    tys: HashMap<(Ty<'tcx>, usize), usize>,
    tyout: Vec<J>,
    queue: VecDeque<(Instance<'tcx>, usize, TypingEnv<'tcx>)>,
    seen: HashSet<String>,
    bodies: Vec<J>,
    cur: String,
    // (short name, trait, method, self is also the trait's type argument)
    tmeth: Vec<(&'static str, DefId, DefId, bool)>,
    tmdone: HashSet<usize>,
    tmout: Vec<J>,
}

const TMETH: &[(&str, &str, bool)] = &[
    ("std::iter::Iterator", "next", false),
    ("std::iter::Iterator", "size_hint", false),
    ("std::iter::DoubleEndedIterator", "next_back", false),
    ("std::iter::IntoIterator", "into_iter", false),
    ("std::cmp::Ord", "cmp", false),
    ("std::cmp::PartialOrd", "partial_cmp", true),
    ("std::cmp::PartialEq", "eq", true),
    ("std::clone::Clone", "clone", false),
    ("std::default::Default", "default", false),
    ("std::convert::AsRef", "as_ref", false),
    ("std::io::Write", "write", false),
    ("std::io::Write", "write_all", false),
    ("std::io::Write", "flush", false),
    ("std::io::Read", "read", false),
    ("std::io::Seek", "seek", false),
];

fn span_j(tcx: TyCtxt<'_>, sp: Span) -> J {
    let sp = sp.source_callsite();
    let loc = tcx.sess.source_map().lookup_char_pos(sp.lo());
    s(format!("{}:{}", loc.file.name.prefer_local_unconditionally(), loc.line))
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        with_no_trimmed_paths!(self.tcx.def_path_str(d))
    }
    fn vpath(&self, d: DefId) -> String {
        format!("{}{}", self.tcx.crate_name(d.krate), self.tcx.def_path(d).to_string_no_crate_verbose())
    }
    fn norm(&self, t: Ty<'tcx>) -> Ty<'tcx> {
        let t = self.tcx.erase_and_anonymize_regions(t);
        self.tcx
            .try_normalize_erasing_regions(self.env, ty::Unnormalized::new(t))
            .unwrap_or(t)
    }
    fn ty(&mut self, t: Ty<'tcx>) -> J {
        i(self.tyid(t))
    }
    fn tyid(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.norm(t);
        if let Some(&n) = self.tys.get(&(t, self.envno)) {
            return n;
        }
        let n = self.tyout.len();
        self.tys.insert((t, self.envno), n);
        self.tyout.push(J::Null);
        let tcx = self.tcx;
        let mut o: Vec<(&'static str, J)> = vec![("s", s(with_no_trimmed_paths!(format!("{}", t))))];
        if let Ok(l) = tcx.layout_of(self.env.as_query_input(t)) {
            if l.is_sized() {
                o.push(("size", J::I(l.size.bytes() as i128)));
                o.push(("align", J::I(l.align.abi.bytes() as i128)));
            }
        }
        match *t.kind() {
            TyKind::Bool => o.push(("k", s("bool"))),
            TyKind::Char => o.push(("k", s("char"))),
            TyKind::Int(_) | TyKind::Uint(_) => {
                o.push(("k", s("int")));
                let (w, sg) = match *t.kind() {
                    TyKind::Int(x) => (x.bit_width().unwrap_or(64), true),
                    TyKind::Uint(x) => (x.bit_width().unwrap_or(64), false),
                    _ => unreachable!(),
                };
                o.push(("w", J::I(w as i128)));
                o.push(("signed", J::B(sg)));
            }
            TyKind::Float(_) => o.push(("k", s("float"))),
            TyKind::Never => o.push(("k", s("never"))),
            TyKind::Str => o.push(("k", s("str"))),
            TyKind::Ref(_, x, m) => {
                o.push(("k", s("ref")));
                o.push(("mut", J::B(m.is_mut())));
                let j = self.ty(x);
                o.push(("t", j));
            }
            TyKind::RawPtr(x, m) => {
                o.push(("k", s("ptr")));
                o.push(("mut", J::B(m.is_mut())));
                let j = self.ty(x);
                o.push(("t", j));
            }
            TyKind::Slice(x) => {
                o.push(("k", s("slice")));
                let j = self.ty(x);
                o.push(("t", j));
            }
            TyKind::Array(x, c) => {
                o.push(("k", s("array")));
                let j = self.ty(x);
                o.push(("t", j));
                let len = c.try_to_target_usize(tcx);
                o.push(("len", len.map_or(J::Null, |n| J::I(n as i128))));
            }
            TyKind::Tuple(ts) => {
                o.push(("k", s("tuple")));
                let v = ts.iter().map(|x| self.ty(x)).collect();
                o.push(("ts", J::A(v)));
            }
            TyKind::Param(p) => {
                o.push(("k", s("param")));
                o.push(("name", s(p.name.as_str())));
            }
            TyKind::FnDef(did, binder) => {
                o.push(("k", s("fndef")));
                let args = binder.no_bound_vars().unwrap_or_else(|| {
                    tcx.instantiate_bound_regions_with_erased(binder)
                });
                let c = self.callee(did.into(), args);
                o.push(("callee", c));
            }
            TyKind::FnPtr(..) => o.push(("k", s("fnptr"))),
            TyKind::Closure(did, args) => {
                o.push(("k", s("closure")));
                let ca = args.as_closure();
                let v = ca.upvar_tys().iter().map(|x| self.ty(x)).collect();
                o.push(("upvars", J::A(v)));
                o.push(("path", s(self.path(did))));
                o.push(("ck", s(format!("{:?}", ca.kind()))));
                let inst = Instance::new_raw(did, tcx.erase_and_anonymize_regions(args));
                let k = self.enqueue(inst);
                o.push(("inst", k));
            }
            TyKind::Adt(def, args) => {
                o.push(("k", s("adt")));
                o.push(("path", s(self.path(def.did()))));
                o.push(("local", J::B(def.did().is_local())));
                let v = args.types().map(|x| self.ty(x)).collect();
                o.push(("args", J::A(v)));
                o.push(("enum", J::B(def.is_enum())));
                o.push(("union", J::B(def.is_union())));
                let local = def.did().is_local();
                let vp = self.vpath(def.did());
                let open = local
                    || def.is_enum()
                    || vp.starts_with("core::ops::range")
                    || vp.starts_with("core::iter")
                    || vp.starts_with("core::cmp")
                    || vp.starts_with("core::option")
                    || vp.starts_with("core::result")
                    || vp.starts_with("core::mem")
                    || vp.starts_with("core::alloc::layout")
                    || vp.starts_with("core::num::nonzero");
                if let Some(d) = def.destructor(tcx) {
                    if local {
                        let inst = Instance::new_raw(d.did, tcx.erase_and_anonymize_regions(args));
                        let k = self.enqueue(inst);
                        o.push(("dropinst", k));
                    }
                    o.push(("hasdrop", J::B(true)));
                }
                if open {
                    let mut vs = vec![];
                    for (vi, v) in def.variants().iter_enumerated() {
                        let discr = if def.is_enum() {
                            J::I(def.discriminant_for_variant(tcx, vi).val as i128)
                        } else {
                            J::I(0)
                        };
                        let mut fs = vec![];
                        for f in v.fields.iter() {
                            let ft = f.ty(tcx, args).skip_norm_wip();
                            let ft = self.ty(ft);
                            fs.push(J::A(vec![s(f.name.as_str()), ft]));
                        }
                        vs.push(J::O(vec![
                            ("name", s(v.name.as_str())),
                            ("discr", discr),
                            ("fields", J::A(fs)),
                        ]));
                    }
                    o.push(("variants", J::A(vs)));
                }
            }
            TyKind::Alias(..) => o.push(("k", s("alias"))),
            TyKind::Dynamic(..) => o.push(("k", s("dyn"))),
            _ => o.push(("k", s("other"))),
        }
        self.tyout[n] = J::O(o);
        n
    }

    fn inst_key(&self, inst: &Instance<'tcx>) -> String {
        let kind = match inst.def {
            InstanceKind::Item(_) => "",
            InstanceKind::Shim(ShimKind::ClosureOnce { .. }) => "#once",
            _ => "#other",
        };
        format!("{}{}@{}|{}", self.vpath(inst.def_id()), kind, self.envno, with_no_trimmed_paths!(format!("{:?}", inst.args)))
    }

    fn enqueue(&mut self, inst: Instance<'tcx>) -> J {
        let did = match inst.def {
            InstanceKind::Item(d) => d,
            _ => return J::Null,
        };
        let tcx = self.tcx;
        let local = did.is_local();
        if !local {
            let krate = tcx.crate_name(did.krate);
            let p = tcx.def_path(did).to_string_no_crate_verbose();
            if !INLINE.iter().any(|(c, pre)| *c == krate.as_str() && p.starts_with(pre)) {
                return J::Null;
            }
        }
        if !tcx.is_mir_available(did) || tcx.is_foreign_item(did) {
            return J::Null;
        }
        if matches!(tcx.def_kind(did), DefKind::Ctor(..)) {
            return J::Null;
        }
        if tcx.intrinsic(did).is_some() {
            return J::Null;
        }
        let key = self.inst_key(&inst);
        if key.len() > 6000 {
            return J::Null;
        }
        if self.seen.insert(key.clone()) {
            self.queue.push_back((inst, self.envno, self.env));
        }
        s(key)
    }

    fn callee(&mut self, did: DefId, args: ty::GenericArgsRef<'tcx>) -> J {
        let tcx = self.tcx;
        let args = tcx.erase_and_anonymize_regions(args);
        let mut o: Vec<(&'static str, J)> = vec![
            ("path", s(self.path(did))),
            ("vpath", s(self.vpath(did))),
        ];
        let targs: Vec<J> = args.types().map(|x| self.ty(x)).collect();
        o.push(("targs", J::A(targs)));
        if let DefKind::Ctor(of, kind) = tcx.def_kind(did) {
            let _ = (of, kind);
            let parent = tcx.parent(did);
            let (adt, vname) = match tcx.def_kind(parent) {
                DefKind::Variant => (tcx.parent(parent), Some(tcx.item_name(parent))),
                _ => (parent, None),
            };
            o.push(("ctor", s(self.path(adt))));
            if let Some(v) = vname {
                o.push(("variant", s(v.as_str())));
            }
            return J::O(o);
        }
        if let Some(tr) = tcx.trait_of_assoc(did) {
            o.push(("trait", s(self.path(tr))));
            o.push(("method", s(tcx.item_name(did).as_str())));
        } else if matches!(tcx.def_kind(did), DefKind::AssocFn | DefKind::Fn) {
            o.push(("method", s(tcx.item_name(did).as_str())));
        }
        if matches!(tcx.def_kind(did), DefKind::AssocFn | DefKind::Fn) {
            let sig = tcx.fn_sig(did).instantiate_identity().skip_norm_wip();
            if sig.safety().is_unsafe() {
                o.push(("unsafe", J::B(true)));
            }
        }
        let r = if tcx.intrinsic(did).is_some() {
            o.push(("res", s("intrinsic")));
            None
        } else {
            match Instance::try_resolve(tcx, self.env, did, args) {
                Ok(Some(inst)) => Some(inst),
                _ => {
                    o.push(("res", s("unresolved")));
                    None
                }
            }
        };
        if let Some(inst) = r {
            let kind = match inst.def {
                InstanceKind::Item(_) => "item",
                InstanceKind::Intrinsic(_) => "intrinsic",
                InstanceKind::Virtual(..) => "virtual",
                InstanceKind::Shim(ShimKind::ClosureOnce { .. }) => "closure_once",
                InstanceKind::Shim(ShimKind::FnPtr(..)) => "fnptr_shim",
                InstanceKind::Shim(ShimKind::Clone(..)) => "clone_shim",
                InstanceKind::Shim(ShimKind::DropGlue(..)) => "drop_glue",
                _ => "shim",
            };
            o.push(("res", s(kind)));
            o.push(("rpath", s(self.path(inst.def_id()))));
            o.push(("rvpath", s(self.vpath(inst.def_id()))));
            if let InstanceKind::Item(_) = inst.def {
                let k = self.enqueue(inst);
                let inlined = !matches!(k, J::Null);
                for t in args.types() {
                    if !inlined || matches!(t.kind(), TyKind::Adt(d, _) if d.did().is_local()) {
                        self.trait_methods(t);
                    }
                }
                o.push(("inst", k));
                if inst.def_id() != did {
                    let targs: Vec<J> = inst.args.types().map(|x| self.ty(x)).collect();
                    o.push(("rtargs", J::A(targs)));
                }
            }
            if let InstanceKind::Shim(ShimKind::ClosureOnce { closure, .. }) = inst.def {
                // the closure body itself
                if let Some(t) = args.types().next() {
                    if let TyKind::Closure(cd, ca) = *t.kind() {
                        let _ = closure;
                        let ci = Instance::new_raw(cd, ca);
                        let k = self.enqueue(ci);
                        o.push(("closure_inst", k));
                    }
                }
            }
        }
        J::O(o)
    }

    /// For a type handed to library code that is not inlined: the trait methods that code could
    /// call back into (iterator steps, comparisons, clones, I/O), resolved for this type.
    fn trait_methods(&mut self, t: Ty<'tcx>) {
        use rustc_infer::infer::TyCtxtInferExt;
        use rustc_trait_selection::infer::InferCtxtExt;
        let tcx = self.tcx;
        let t = self.norm(t);
        let id = self.tyid(t);
        if !self.tmdone.insert(id) {
            return;
        }
        if !matches!(t.kind(), TyKind::Adt(..) | TyKind::Ref(..) | TyKind::Param(..) | TyKind::Alias(..) | TyKind::Array(..) | TyKind::Tuple(..) | TyKind::Closure(..)) {
            return;
        }
        let list = self.tmeth.clone();
        let mut v = vec![];
        for (name, tr, m, selfarg) in list {
            let (infcx, penv) = tcx.infer_ctxt().build_with_typing_env(self.env);
            let n = tcx.generics_of(tr).own_params.iter().filter(|p| matches!(p.kind, ty::GenericParamDefKind::Type { .. })).count();
            let mut a: Vec<Ty<'tcx>> = vec![t];
            if selfarg {
                a.push(t);
            } else if name == "as_ref" {
                a.push(Ty::new_slice(tcx, tcx.types.u8));
            } else if n > 1 {
                continue;
            }
            if !infcx.type_implements_trait(tr, a.clone(), penv).must_apply_considering_regions() {
                continue;
            }
            drop(infcx);
            let ga = tcx.mk_args_from_iter(a.into_iter().map(ty::GenericArg::from));
            let c = self.callee(m, ga);
            v.push(J::A(vec![s(name), c]));
        }
        if !v.is_empty() {
            self.tmout.push(J::A(vec![i(id), J::A(v)]));
        }
    }

    fn place(&mut self, p: &Place<'tcx>) -> J {
        let mut v = vec![i(p.local.as_usize())];
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => s("*"),
                ProjectionElem::Field(f, t) => {
                    let t = self.ty(t);
                    J::A(vec![s("f"), i(f.as_usize()), t])
                }
                ProjectionElem::Index(l) => J::A(vec![s("i"), i(l.as_usize())]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => J::A(vec![
                    s("ci"),
                    J::I(offset as i128),
                    J::I(min_length as i128),
                    J::B(from_end),
                ]),
                ProjectionElem::Subslice { from, to, from_end } => {
                    J::A(vec![s("ss"), J::I(from as i128), J::I(to as i128), J::B(from_end)])
                }
                ProjectionElem::Downcast(_, vi) => J::A(vec![s("d"), i(vi.as_usize())]),
                _ => J::A(vec![s("?")]),
            });
        }
        J::A(v)
    }

    fn scalar(&mut self, sc: Scalar, ty: Ty<'tcx>, depth: usize) -> J {
        match sc {
            Scalar::Int(n) => J::O(vec![("int", s(format!("{}", n.to_bits(n.size()))))]),
            Scalar::Ptr(p, _) => {
                let (prov, off) = p.prov_and_relative_offset();
                let id = prov.alloc_id();
                match self.tcx.try_get_global_alloc(id) {
                    Some(GlobalAlloc::Memory(_)) | Some(GlobalAlloc::Static(_)) => {
                        if let Some(inner) = ty.builtin_deref(true) {
                            let v = ConstValue::Indirect { alloc_id: id, offset: off };
                            let j = self.constval(v, inner, depth + 1);
                            return J::O(vec![("ref", j)]);
                        }
                        J::O(vec![("opaque", s("ptr"))])
                    }
                    Some(GlobalAlloc::Function { instance }) => {
                        let c = self.callee(instance.def_id(), instance.args);
                        J::O(vec![("fnptr", c)])
                    }
                    _ => J::O(vec![("opaque", s("ptr"))]),
                }
            }
        }
    }

    fn constval(&mut self, v: ConstValue, ty: Ty<'tcx>, depth: usize) -> J {
        let tcx = self.tcx;
        if depth > 6 {
            return J::O(vec![("opaque", s("deep"))]);
        }
        match v {
            ConstValue::ZeroSized => J::O(vec![("zst", J::B(true))]),
            ConstValue::Scalar(sc) => {
                if matches!(ty.kind(), TyKind::Adt(..) | TyKind::Tuple(..)) {
                    if let Some(j) = self.destructure(v, ty, depth) {
                        return j;
                    }
                }
                self.scalar(sc, ty, depth)
            }
            ConstValue::Slice { .. } => {
                if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                    if matches!(ty.peel_refs().kind(), TyKind::Str) {
                        return J::O(vec![("str", s(String::from_utf8_lossy(b).to_string()))]);
                    }
                    return J::O(vec![("bytes", J::A(b.iter().map(|x| J::I(*x as i128)).collect()))]);
                }
                J::O(vec![("opaque", s("slice"))])
            }
            ConstValue::Indirect { alloc_id, offset } => {
                if let Some(j) = self.destructure(v, ty, depth) {
                    return j;
                }
                if let Some(GlobalAlloc::Memory(a)) = tcx.try_get_global_alloc(alloc_id) {
                    if let Ok(l) = tcx.layout_of(self.env.as_query_input(ty)) {
                        if l.is_sized() && l.size.bytes() <= 16 && a.inner().provenance().ptrs().is_empty() {
                            let st = offset.bytes() as usize;
                            let en = st + l.size.bytes() as usize;
                            let by = a.inner().inspect_with_uninit_and_ptr_outside_interpreter(st..en);
                            let mut n: u128 = 0;
                            for (k, b) in by.iter().enumerate() {
                                n |= (*b as u128) << (8 * k);
                            }
                            return J::O(vec![("int", s(format!("{}", n)))]);
                        }
                    }
                    // a fat pointer stored in memory (&str / &[u8])
                    if let TyKind::Ref(_, inner, _) = *ty.kind() {
                        if matches!(inner.kind(), TyKind::Str) || matches!(inner.kind(), TyKind::Slice(_)) {
                            return J::O(vec![("opaque", s("fat"))]);
                        }
                    }
                }
                J::O(vec![("opaque", s("indirect"))])
            }
        }
    }

    fn destructure(&mut self, v: ConstValue, ty: Ty<'tcx>, depth: usize) -> Option<J> {
        use ty::TypeVisitableExt;
        if ty.has_param() || ty.has_escaping_bound_vars() {
            return None;
        }
        if !matches!(ty.kind(), TyKind::Adt(..) | TyKind::Tuple(..) | TyKind::Array(..)) {
            return None;
        }
        if let TyKind::Adt(d, _) = ty.kind() {
            if d.is_union() {
                return None;
            }
        }
        let d = self.tcx.try_destructure_mir_constant_for_user_output(v, ty)?;
        let fs: Vec<J> = d.fields.iter().map(|(fv, ft)| {
            let j = self.constval(*fv, *ft, depth + 1);
            let t = self.ty(*ft);
            J::A(vec![j, t])
        }).collect();
        let vi = d.variant.map_or(J::Null, |x| i(x.as_usize()));
        Some(J::O(vec![("agg", J::A(fs)), ("variant", vi)]))
    }

    fn operand(&mut self, op: &Operand<'tcx>) -> J {
        match op {
            Operand::Copy(p) => J::A(vec![s("c"), self.place(p)]),
            Operand::Move(p) => J::A(vec![s("m"), self.place(p)]),
            Operand::RuntimeChecks(k) => {
                let b = matches!(k, RuntimeChecks::OverflowChecks);
                J::A(vec![s("rc"), J::B(b)])
            }
            Operand::Constant(c) => {
                let t = c.const_.ty();
                let tj = self.ty(t);
                if let TyKind::FnDef(..) = t.kind() {
                    return J::A(vec![s("k"), tj, J::O(vec![("fn", J::B(true))])]);
                }
                let v = match c.const_ {
                    Const::Val(v, t) => self.constval(v, t, 0),
                    _ => {
                        let named = match c.const_ {
                            Const::Unevaluated(u, _) if u.promoted.is_none() => s(self.path(u.def)),
                            _ => J::Null,
                        };
                        let mut v = match c.const_.eval(self.tcx, self.env, c.span) {
                            Ok(v) => self.constval(v, t, 0),
                            Err(_) => {
                                let txt = with_no_trimmed_paths!(format!("{}", c.const_));
                                J::O(vec![("opaque", s(txt))])
                            }
                        };
                        if let J::O(o) = &mut v {
                            if let J::S(_) = named {
                                o.push(("named", named));
                            }
                            if let Const::Unevaluated(u, _) = c.const_ {
                                let ta: Vec<J> = u.args.types().map(|x| self.ty(x)).collect();
                                o.push(("targs", J::A(ta)));
                            }
                        }
                        v
                    }
                };
                J::A(vec![s("k"), tj, v])
            }
        }
    }

    fn rvalue(&mut self, r: &Rvalue<'tcx>) -> J {
        match r {
            Rvalue::Use(o, _) => J::A(vec![s("use"), self.operand(o)]),
            Rvalue::Repeat(o, c) => {
                let o = self.operand(o);
                let n = c.try_to_target_usize(self.tcx).map_or(J::Null, |n| J::I(n as i128));
                J::A(vec![s("repeat"), o, n])
            }
            Rvalue::Ref(_, k, p) => {
                let m = matches!(k, BorrowKind::Mut { .. });
                J::A(vec![s("ref"), J::B(m), self.place(p)])
            }
            Rvalue::RawPtr(k, p) => {
                J::A(vec![s("rawptr"), s(format!("{:?}", k)), self.place(p)])
            }
            Rvalue::Cast(k, o, t) => {
                let k = match k {
                    CastKind::PointerCoercion(c, _) => format!("Coerce:{:?}", c),
                    k => format!("{:?}", k),
                };
                let o = self.operand(o);
                let t = self.ty(*t);
                J::A(vec![s("cast"), s(k), o, t])
            }
            Rvalue::BinaryOp(b, ops) => {
                let a = self.operand(&ops.0);
                let c = self.operand(&ops.1);
                J::A(vec![s("bin"), s(format!("{:?}", b)), a, c])
            }
            Rvalue::UnaryOp(u, o) => J::A(vec![s("un"), s(format!("{:?}", u)), self.operand(o)]),
            Rvalue::Discriminant(p) => J::A(vec![s("discr"), self.place(p)]),
            Rvalue::CopyForDeref(p) => {
                let p = self.place(p);
                J::A(vec![s("use"), J::A(vec![s("c"), p])])
            }
            Rvalue::Aggregate(k, ops) => {
                let v: Vec<J> = ops.iter().map(|o| self.operand(o)).collect();
                let kj = match &**k {
                    AggregateKind::Array(_) => J::A(vec![s("array")]),
                    AggregateKind::Tuple => J::A(vec![s("tuple")]),
                    AggregateKind::Adt(d, vi, ga, _, uf) => {
                        let t = self.tcx.type_of(*d).instantiate(self.tcx, ga).skip_norm_wip();
                        let t = self.ty(t);
                        let uf = uf.map_or(J::Null, |f| i(f.as_usize()));
                        J::A(vec![s("adt"), t, i(vi.as_usize()), uf])
                    }
                    AggregateKind::Closure(d, ga) => {
                        let t = Ty::new_closure(self.tcx, *d, ga);
                        let t = self.ty(t);
                        J::A(vec![s("closure"), t])
                    }
                    AggregateKind::RawPtr(..) => J::A(vec![s("rawptr")]),
                    _ => J::A(vec![s("?")]),
                };
                J::A(vec![s("agg"), kj, J::A(v)])
            }
            Rvalue::ThreadLocalRef(_) => J::A(vec![s("?"), s("tls")]),
            _ => J::A(vec![s("?"), s(format!("{:?}", r))]),
        }
    }

    fn body(&mut self, inst: Instance<'tcx>) {
        let tcx = self.tcx;
        let key = self.inst_key(&inst);
        self.cur = key.clone();
        let did = inst.def_id();
        let raw = tcx.instance_mir(inst.def);
        let body: Body<'tcx> = inst.instantiate_mir_and_normalize_erasing_regions(
            tcx,
            self.env,
            ty::EarlyBinder::bind(tcx, raw.clone()),
        );
        let mut names: HashMap<usize, String> = HashMap::new();
        let mut upv: Vec<J> = vec![];
        for d in body.var_debug_info.iter() {
            if let VarDebugInfoContents::Place(p) = &d.value {
                if p.projection.is_empty() {
                    names.insert(p.local.as_usize(), d.name.to_string());
                } else {
                    let pj = self.place(p);
                    upv.push(J::A(vec![s(d.name.as_str()), pj]));
                }
            }
        }
        let mut locals = vec![];
        for (l, d) in body.local_decls.iter_enumerated() {
            let t = self.ty(d.ty);
            let n = names.get(&l.as_usize()).map_or(J::Null, |n| s(n.clone()));
            locals.push(J::A(vec![t, n]));
        }
        let mut blocks = vec![];
        for bb in body.basic_blocks.iter() {
            let mut stmts = vec![];
            for st in &bb.statements {
                let sp = span_j(tcx, st.source_info.span);
                match &st.kind {
                    StatementKind::Assign(a) => {
                        let p = self.place(&a.0);
                        let r = self.rvalue(&a.1);
                        stmts.push(J::A(vec![s("="), p, r, sp]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(place);
                        stmts.push(J::A(vec![s("sd"), p, i(variant_index.as_usize()), sp]));
                    }
                    StatementKind::StorageDead(l) => stmts.push(J::A(vec![s("dead"), i(l.as_usize())])),
                    StatementKind::Intrinsic(n) => match &**n {
                        NonDivergingIntrinsic::Assume(o) => {
                            let o = self.operand(o);
                            stmts.push(J::A(vec![s("assume"), o, sp]))
                        }
                        NonDivergingIntrinsic::CopyNonOverlapping(c) => {
                            let a = self.operand(&c.src);
                            let b = self.operand(&c.dst);
                            let d = self.operand(&c.count);
                            stmts.push(J::A(vec![s("memcpy"), a, b, d, sp]))
                        }
                    },
                    _ => {}
                }
            }
            let t = bb.terminator();
            let sp = span_j(tcx, t.source_info.span);
            let bbj = |b: BasicBlock| i(b.as_usize());
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => J::A(vec![s("goto"), bbj(*target)]),
                TerminatorKind::FalseEdge { real_target, .. } => J::A(vec![s("goto"), bbj(*real_target)]),
                TerminatorKind::FalseUnwind { real_target, .. } => J::A(vec![s("goto"), bbj(*real_target)]),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let o = self.operand(discr);
                    let dty = discr.ty(&body.local_decls, tcx);
                    let dty = self.ty(dty);
                    let v = targets
                        .iter()
                        .map(|(v, b)| J::A(vec![s(format!("{}", v)), bbj(b)]))
                        .collect();
                    J::A(vec![s("switch"), o, J::A(v), bbj(targets.otherwise()), dty])
                }
                TerminatorKind::Return => J::A(vec![s("return")]),
                TerminatorKind::Unreachable => J::A(vec![s("unreachable")]),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => J::A(vec![s("resume")]),
                TerminatorKind::Drop { place, target, .. } => {
                    let t = place.ty(&body.local_decls, tcx).ty;
                    let tj = self.ty(t);
                    let p = self.place(place);
                    J::A(vec![s("drop"), p, bbj(*target), tj])
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let o = self.operand(cond);
                    let m = match &**msg {
                        AssertKind::BoundsCheck { len, index } => {
                            let a = self.operand(len);
                            let b = self.operand(index);
                            J::A(vec![s("bounds"), a, b])
                        }
                        AssertKind::Overflow(op, a, b) => {
                            let a = self.operand(a);
                            let b = self.operand(b);
                            J::A(vec![s("overflow"), s(format!("{:?}", op)), a, b])
                        }
                        AssertKind::OverflowNeg(_) => J::A(vec![s("overflowneg")]),
                        AssertKind::DivisionByZero(_) | AssertKind::RemainderByZero(_) => J::A(vec![s("divzero")]),
                        _ => J::A(vec![s("other")]),
                    };
                    J::A(vec![s("assert"), o, J::B(*expected), m, bbj(*target)])
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.operand(func);
                    let a = args.iter().map(|x| self.operand(&x.node)).collect();
                    let d = self.place(destination);
                    J::A(vec![s("call"), f, J::A(a), d, target.map_or(J::Null, bbj)])
                }
                k => J::A(vec![s("?"), s(format!("{:?}", k))]),
            };
            blocks.push(J::O(vec![
                ("s", J::A(stmts)),
                ("t", tj),
                ("sp", sp),
                ("cleanup", J::B(bb.is_cleanup)),
            ]));
        }
        let targs: Vec<J> = inst.args.types().map(|x| self.ty(x)).collect();
        let identity = did.is_local()
            && !tcx.is_closure_like(did)
            && inst.args == tcx.erase_and_anonymize_regions(ty::GenericArgs::identity_for_item(tcx, did));
        self.bodies.push(J::O(vec![
            ("key", s(key)),
            ("path", s(self.path(did))),
            ("vpath", s(self.vpath(did))),
            ("local", J::B(did.is_local())),
            ("closure", J::B(tcx.is_closure_like(did))),
            ("root", J::B(identity)),
            ("targs", J::A(targs)),
            ("argc", i(body.arg_count)),
            ("spread", body.spread_arg.map_or(J::Null, |l| i(l.as_usize()))),
            ("locals", J::A(locals)),
            ("upvars", J::A(upv)),
            ("blocks", J::A(blocks)),
            ("span", span_j(tcx, body.span)),
        ]));
    }

    // ---------------------------------------------------------- items
    fn items(&mut self) -> (J, J) {
        let tcx = self.tcx;
        let mut fns = vec![];
        for ld in tcx.hir_body_owners() {
            let did = ld.to_def_id();
            if !matches!(tcx.def_kind(did), DefKind::Fn | DefKind::AssocFn) {
                continue;
            }
            let sig = tcx.fn_sig(did).instantiate_identity().skip_norm_wip();
            let regs = |t: Ty<'tcx>| -> J {
                let mut v: Vec<String> = vec![];
                tcx.for_each_free_region_compat(&t, &mut v);
                J::A(v.into_iter().map(s).collect())
            };
            let sk = sig.skip_binder();
            let ins: Vec<J> = sk.inputs().iter().map(|t| J::O(vec![
                ("ty", s(with_no_trimmed_paths!(format!("{}", t)))),
                ("regions", regs(*t)),
            ])).collect();
            let out = J::O(vec![
                ("ty", s(with_no_trimmed_paths!(format!("{}", sk.output())))),
                ("regions", regs(sk.output())),
            ]);
            let vis = tcx.effective_visibilities(()).is_reachable(ld);
            let parent = tcx.parent(did);
            let mut o = vec![
                ("path", s(self.path(did))),
                ("vpath", s(self.vpath(did))),
                ("name", s(tcx.item_name(did).as_str())),
                ("pub", J::B(vis)),
                ("unsafe", J::B(sk.safety().is_unsafe())),
                ("inputs", J::A(ins)),
                ("output", out),
                ("span", span_j(tcx, tcx.def_span(did))),
            ];
            if let DefKind::Impl { .. } = tcx.def_kind(parent) {
                let st = tcx.type_of(parent).instantiate_identity().skip_norm_wip();
                o.push(("self_ty", s(with_no_trimmed_paths!(format!("{}", st)))));
                if let TyKind::Adt(d, _) = st.kind() {
                    o.push(("self_adt", s(self.path(d.did()))));
                }
                if let Some(tr) = tcx.impl_opt_trait_ref(parent) {
                    o.push(("trait", s(self.path(tr.skip_binder().def_id))));
                }
            }
            fns.push(J::O(o));
        }
        let mut impls = vec![];
        for (tr, list) in tcx.all_local_trait_impls(()).iter() {
            for im in list.iter() {
                let st = tcx.type_of(im.to_def_id()).instantiate_identity().skip_norm_wip();
                let methods: Vec<J> = tcx
                    .associated_items(im.to_def_id())
                    .in_definition_order()
                    .map(|a| s(a.name().as_str()))
                    .collect();
                let adt = match st.kind() {
                    TyKind::Adt(d, _) => s(self.path(d.did())),
                    _ => J::Null,
                };
                impls.push(J::O(vec![
                    ("trait", s(self.path(*tr))),
                    ("self_ty", s(with_no_trimmed_paths!(format!("{}", st)))),
                    ("self_adt", adt),
                    ("items", J::A(methods)),
                    ("span", span_j(tcx, tcx.def_span(im.to_def_id()))),
                ]));
            }
        }
        (J::A(fns), J::A(impls))
    }
}

trait RegCompat<'tcx> {
    fn for_each_free_region_compat(self, t: &Ty<'tcx>, v: &mut Vec<String>);
}
impl<'tcx> RegCompat<'tcx> for TyCtxt<'tcx> {
    fn for_each_free_region_compat(self, t: &Ty<'tcx>, v: &mut Vec<String>) {
        for a in t.walk() {
            if let ty::GenericArgKind::Lifetime(r) = a.kind() {
                let x = format!("{:?}", r);
                if !v.contains(&x) {
                    v.push(x);
                }
            }
        }
    }
}

struct Cb {
    out: String,
}
impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let env = TypingEnv::fully_monomorphized();
        let mut cx = Cx {
            tcx,
            env,
            envno: 0,
            tys: HashMap::new(),
            tyout: vec![],
            queue: VecDeque::new(),
            seen: HashSet::new(),
            bodies: vec![],
            cur: String::new(),
            tmeth: vec![],
            tmdone: HashSet::new(),
            tmout: vec![],
        };
        for tr in tcx.visible_traits() {
            let p = cx.path(tr);
            for (tp, m, sa) in TMETH {
                if *tp == p {
                    if let Some(a) = tcx.associated_items(tr).in_definition_order().find(|a| a.is_fn() && a.name().as_str() == *m) {
                        cx.tmeth.push((m, tr, a.def_id, *sa));
                    }
                }
            }
        }
        cx.tmeth.sort_by_key(|x| TMETH.iter().position(|(_, m, _)| *m == x.0));
        // one environment per distinct set of caller bounds
        let mut envs: Vec<String> = vec![];
        let mut nroots = 0;
        for ld in tcx.hir_body_owners() {
            let did = ld.to_def_id();
            if !matches!(tcx.def_kind(did), DefKind::Fn | DefKind::AssocFn) {
                continue;
            }
            let env = TypingEnv::post_analysis(tcx, did);
            let generics = tcx.generics_of(did);
            let mut names = vec![];
            let mut g = Some(generics);
            while let Some(x) = g {
                for p in &x.own_params {
                    names.push(p.name.to_string());
                }
                g = x.parent.map(|p| tcx.generics_of(p));
            }
            let ek = format!("{:?} {:?}", env.param_env, names);
            let no = envs.iter().position(|e| *e == ek).unwrap_or_else(|| {
                envs.push(ek);
                envs.len() - 1
            });
            cx.env = env;
            cx.envno = no;
            let args = ty::GenericArgs::identity_for_item(tcx, did);
            let inst = Instance::new_raw(did, tcx.erase_and_anonymize_regions(args));
            cx.enqueue(inst);
            nroots += 1;
        }
        while let Some((inst, no, env)) = cx.queue.pop_front() {
            cx.env = env;
            cx.envno = no;
            cx.body(inst);
        }
        cx.env = TypingEnv::fully_monomorphized();
        let (fns, impls) = cx.items();
        let mut out = String::new();
        let bodies = std::mem::take(&mut cx.bodies);
        let tys = std::mem::take(&mut cx.tyout);
        let tms = std::mem::take(&mut cx.tmout);
        J::O(vec![
            ("crate", s(tcx.crate_name(LOCAL_CRATE).as_str())),
            ("roots", i(nroots)),
            ("envs", i(envs.len())),
            ("types", J::A(tys)),
            ("tmeth", J::A(tms)),
            ("fns", fns),
            ("impls", impls),
            ("bodies", J::A(bodies)),
        ])
        .w(&mut out);
        std::fs::write(&self.out, out).expect("write facts");
        Compilation::Stop
    }
}

struct Plain;
impl Callbacks for Plain {}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER passes the real rustc path first
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    let want = std::env::var("GRENAD_FACTS_CRATE").unwrap_or_default();
    let out = std::env::var("GRENAD_FACTS_OUT").unwrap_or_default();
    let mut name = None;
    for w in args.windows(2) {
        if w[0] == "--crate-name" {
            name = Some(w[1].clone());
        }
    }
    if !want.is_empty() && name.as_deref() == Some(want.as_str()) && !out.is_empty() {
        for f in ["-Zmir-opt-level=0", "-Coverflow-checks=on", "-Cdebug-assertions=off", "-Zalways-encode-mir=no", "-Awarnings"] {
            args.push(f.to_string());
        }
        rustc_driver::compiler_entrypoint(&args, &mut Cb { out });
    } else {
        rustc_driver::compiler_entrypoint(&args, &mut Plain);
    }
}
