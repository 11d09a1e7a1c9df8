//! Collects resolved MIR and writes it out.
use std::collections::{HashMap, VecDeque};

use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_hir::intravisit::{self, Visitor};
use rustc_middle::mir::{self, *};
use rustc_middle::ty::print::{with_no_trimmed_paths, with_no_visible_paths};
use rustc_middle::ty::{self, EarlyBinder, Instance, InstanceKind, ShimKind, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;

use crate::json::J;

/// Crates whose function bodies are always dumped.
fn repo_crate(name: &str) -> bool {
    name.starts_with("plotline") || name.starts_with("plv_")
}

/// Library functions whose bodies are dumped (so the analysis can inline them).
fn wanted_std(path: &str) -> bool {
    const PRE: &[&str] = &[
        "core::option::", "core::result::", "core::ops::", "core::bool::", "core::convert::",
        "core::iter::", "core::cmp::", "core::clone::", "core::default::", "core::borrow::",
        "core::any::", "core::tuple::", "core::mem::drop", "core::mem::take", "core::mem::replace", "core::mem::swap", "core::array::", "core::slice::",
        "alloc::slice::", "alloc::boxed::", "alloc::borrow::", "core::mem::maybe_uninit::",
        "std::sync::lazy_lock", "core::ptr::non_null", "core::ptr::unique", "core::hint",
        "core::marker", "core::cell::", "anyhow::", "alloc::vec::", "alloc::collections::btree",
        "alloc::sync::", "std::sync::", "alloc::string::", "std::path::", "std::ffi::",
        "alloc::rc::", "core::num::", "alloc::fmt", "core::unit::", "core::pin::", "core::mem::forget",
    ];
    let p = path.trim_start_matches('<').trim_start_matches('&').trim_start_matches("mut ");
    // trait-impl paths look like `<Self as Trait>::method`
    if let Some(pos) = p.find(" as ") {
        let tr = &p[pos + 4..];
        let _ = tr;
        return PRE.iter().any(|x| p.starts_with(x)) || PRE.iter().any(|x| tr.starts_with(x));
    }
    PRE.iter().any(|x| p.starts_with(x))
}

pub fn path(tcx: TyCtxt<'_>, def: DefId) -> String {
    with_no_trimmed_paths!(with_no_visible_paths!(tcx.def_path_str(def)))
        .replace("crate::", "")
}

fn full_path(tcx: TyCtxt<'_>, def: DefId) -> String {
    let p = path(tcx, def);
    // local items are printed without the crate name
    if def.is_local() {
        let krate = tcx.crate_name(LOCAL_CRATE).to_string();
        if p.starts_with('<') {
            return p;
        }
        if p.starts_with(&format!("{krate}::")) {
            return p;
        }
        return format!("{krate}::{p}");
    }
    p
}

pub fn loc(tcx: TyCtxt<'_>, span: Span) -> String {
    let sm = tcx.sess.source_map();
    let s = span.source_callsite();
    if s.is_dummy() {
        return "?".into();
    }
    let l = sm.lookup_char_pos(s.lo());
    format!("{}:{}", l.file.name.prefer_local_unconditionally(), l.line)
}

pub struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<J>,
    type_ids: HashMap<Ty<'tcx>, usize>,
    envs: Vec<TypingEnv<'tcx>>,
    insts: Vec<J>,
    inst_ids: HashMap<(usize, InstanceKey<'tcx>), usize>,
    queue: VecDeque<(usize, usize, InstanceKey<'tcx>)>,
    cur_env: usize,
    shims: HashMap<String, DefId>,
    cur_body: Option<Body<'tcx>>,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
enum InstanceKey<'tcx> {
    Inst(Instance<'tcx>),
    Promoted(Instance<'tcx>, Promoted),
}

impl<'tcx> Cx<'tcx> {
    fn env(&self) -> TypingEnv<'tcx> {
        self.envs[self.cur_env]
    }

    fn norm(&self, t: Ty<'tcx>) -> Ty<'tcx> {
        self.tcx
            .try_normalize_erasing_regions(self.env(), ty::Unnormalized::new_wip(t))
            .unwrap_or(t)
    }

    fn ty_str(&self, t: Ty<'tcx>) -> String {
        with_no_trimmed_paths!(with_no_visible_paths!(format!("{t}")))
    }

    fn ty(&mut self, t: Ty<'tcx>) -> J {
        J::i(self.ty_id(t))
    }

    fn ty_id(&mut self, t: Ty<'tcx>) -> usize {
        let tcx = self.tcx;
        let t = tcx.erase_and_anonymize_regions(t);
        if let Some(i) = self.type_ids.get(&t) {
            return *i;
        }
        let id = self.types.len();
        self.type_ids.insert(t, id);
        self.types.push(J::Null);
        let s = self.ty_str(t);
        let j = match t.kind() {
            ty::Adt(def, args) => {
                let targs: Vec<J> = args
                    .iter()
                    .map(|a| match a.as_type() {
                        Some(t) => self.ty(t),
                        None => J::Null,
                    })
                    .collect();
                let mut vars = vec![];
                if !def.is_union() {
                    for (vi, v) in def.variants().iter_enumerated() {
                        let mut fs = vec![];
                        for f in v.fields.iter() {
                            let ft = f.ty(tcx, args);
                            let ft = tcx
                                .try_normalize_erasing_regions(self.env(), ft)
                                .unwrap_or_else(|_| ft.skip_norm_wip());
                            let ft = self.ty(ft);
                            fs.push(J::Arr(vec![J::s(f.name.as_str()), ft]));
                        }
                        let d = if def.is_enum() {
                            let dv = def.discriminant_for_variant(tcx, vi);
                            match dv.ty.kind() {
                                ty::Int(i) => J::Int(rustc_abi::Size::from_bits(i.bit_width().unwrap_or(64)).sign_extend(dv.val)),
                                _ => J::Int(dv.val as i128),
                            }
                        } else {
                            J::Int(0)
                        };
                        vars.push(J::Obj(vec![
                            ("name", J::s(v.name.as_str())),
                            ("fields", J::Arr(fs)),
                            ("discr", d),
                        ]));
                    }
                }
                let dtor = match tcx.adt_destructor(def.did()) {
                    Some(d) => {
                        let p = full_path(tcx, d.did);
                        if repo_crate(tcx.crate_name(d.did.krate).as_str()) {
                            let inst = Instance::new_raw(d.did, args);
                            let id = self.inst(InstanceKey::Inst(inst));
                            J::Arr(vec![J::s(p), id])
                        } else {
                            J::Arr(vec![J::s(p), J::Null])
                        }
                    }
                    None => J::Null,
                };
                J::Obj(vec![
                    ("k", J::s(if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" })),
                    ("def", J::s(full_path(tcx, def.did()))),
                    ("crate", J::s(tcx.crate_name(def.did().krate).as_str())),
                    ("args", J::Arr(targs)),
                    ("variants", J::Arr(vars)),
                    ("dtor", dtor),
                    ("box", J::Bool(def.is_box())),
                    ("s", J::s(s)),
                ])
            }
            ty::Ref(_, inner, m) => {
                let i = self.ty(*inner);
                J::Obj(vec![("k", J::s("ref")), ("t", i), ("mut", J::Bool(m.is_mut())), ("s", J::s(s))])
            }
            ty::RawPtr(inner, m) => {
                let i = self.ty(*inner);
                J::Obj(vec![("k", J::s("ptr")), ("t", i), ("mut", J::Bool(m.is_mut())), ("s", J::s(s))])
            }
            ty::Tuple(ts) => {
                let v = ts.iter().map(|t| self.ty(t)).collect();
                J::Obj(vec![("k", J::s("tuple")), ("ts", J::Arr(v)), ("s", J::s(s))])
            }
            ty::Slice(i) => {
                let i = self.ty(*i);
                J::Obj(vec![("k", J::s("slice")), ("t", i), ("s", J::s(s))])
            }
            ty::Array(i, n) => {
                let i = self.ty(*i);
                let n = n.try_to_target_usize(tcx).map(|n| J::i(n as usize)).unwrap_or(J::Null);
                J::Obj(vec![("k", J::s("array")), ("t", i), ("n", n), ("s", J::s(s))])
            }
            ty::Closure(def, args) => {
                let ups = args
                    .as_closure()
                    .upvar_tys()
                    .iter()
                    .map(|t| {
                        let t = self.norm(t);
                        self.ty(t)
                    })
                    .collect();
                let p = full_path(tcx, *def);
                let inst = Instance::new_raw(*def, args);
                let id = self.inst(InstanceKey::Inst(inst));
                J::Obj(vec![
                    ("k", J::s("closure")),
                    ("def", J::s(p)),
                    ("upvars", J::Arr(ups)),
                    ("inst", id),
                    ("s", J::s(s)),
                ])
            }
            ty::FnDef(def, args) => {
                let j = self.callee(*def, args.no_bound_vars().unwrap_or_else(|| args.skip_binder()));
                J::Obj(vec![("k", J::s("fndef")), ("callee", j), ("s", J::s(s))])
            }
            ty::FnPtr(..) => J::Obj(vec![("k", J::s("fnptr")), ("s", J::s(s))]),
            ty::Param(p) => J::Obj(vec![("k", J::s("param")), ("name", J::s(p.name.as_str())), ("s", J::s(s))]),
            ty::Alias(..) => J::Obj(vec![("k", J::s("alias")), ("s", J::s(s))]),
            ty::Dynamic(..) => J::Obj(vec![("k", J::s("dyn")), ("s", J::s(s))]),
            ty::Never => J::Obj(vec![("k", J::s("never")), ("s", J::s(s))]),
            ty::Str => J::Obj(vec![("k", J::s("str")), ("s", J::s(s))]),
            ty::Bool => J::Obj(vec![("k", J::s("bool")), ("s", J::s(s))]),
            ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) => {
                J::Obj(vec![("k", J::s("prim")), ("s", J::s(s))])
            }
            _ => J::Obj(vec![("k", J::s("other")), ("s", J::s(s))]),
        };
        self.types[id] = j;
        id
    }

    fn inst(&mut self, key: InstanceKey<'tcx>) -> J {
        let k = (self.cur_env, key);
        if let Some(i) = self.inst_ids.get(&k) {
            return J::i(*i);
        }
        let id = self.insts.len();
        self.inst_ids.insert(k, id);
        self.insts.push(J::Null);
        self.queue.push_back((id, self.cur_env, key));
        J::i(id)
    }

    fn args_j(&mut self, args: ty::GenericArgsRef<'tcx>) -> J {
        J::Arr(
            args.iter()
                .map(|a| match a.as_type() {
                    Some(t) => self.ty(t),
                    None => J::Null,
                })
                .collect(),
        )
    }

    /// A function of the analysis harness that spells out, in plain Rust, what a collection
    /// method taking an iterator does.
    fn shim(&mut self, written: &str, args: ty::GenericArgsRef<'tcx>) -> Option<J> {
        let tcx = self.tcx;
        let what = match written {
            "core::iter::FromIterator::from_iter" | "core::iter::traits::collect::FromIterator::from_iter" => "from_iter",
            "core::iter::Extend::extend" | "core::iter::traits::collect::Extend::extend" => "extend",
            _ if written.contains("vec::Vec") || written.contains("VecDeque") => {
                let m = written.rsplit("::").next()?;
                let kind = if written.contains("VecDeque") { "vecdeque" } else { "vec" };
                let d = *self.shims.get(&format!("plv_shim_{kind}_{m}"))?;
                if !matches!(m, "retain" | "retain_mut" | "dedup_by" | "dedup_by_key" | "dedup") {
                    return None;
                }
                let mut v: Vec<ty::GenericArg<'tcx>> = vec![args.types().next()?.into()];
                // the allocator is left out
                let n = tcx.generics_of(d).own_params.iter().filter(|p| matches!(p.kind, ty::GenericParamDefKind::Type { .. })).count();
                let rest: Vec<_> = args.types().collect();
                for a in &rest[rest.len().checked_sub(n - 1)?..] {
                    v.push((*a).into());
                }
                let inst = Instance::new_raw(d, tcx.mk_args(&v));
                return Some(self.inst(InstanceKey::Inst(inst)));
            }
            _ => return None,
        };
        let ty::Adt(def, targs) = args.types().next()?.kind() else { return None };
        let head = tcx.item_name(def.did()).to_string().to_lowercase();
        let d = *self.shims.get(&format!("plv_shim_{head}_{what}"))?;
        let mut v: Vec<ty::GenericArg<'tcx>> = vec![];
        for a in targs.types() {
            v.push(a.into());
        }
        let n = tcx.generics_of(d).own_params.iter().filter(|p| matches!(p.kind, ty::GenericParamDefKind::Type { .. })).count();
        v.truncate(n - 1);
        v.push(args.types().last()?.into());
        if v.len() != n {
            return None;
        }
        let a = tcx.mk_args(&v);
        let inst = Instance::new_raw(d, a);
        Some(self.inst(InstanceKey::Inst(inst)))
    }

    /// The methods of the trait object made by an unsizing cast, resolved for the concrete type.
    fn vtable(&mut self, from: Ty<'tcx>, to: Ty<'tcx>) -> Option<J> {
        let tcx = self.tcx;
        fn inner<'tcx>(t: Ty<'tcx>) -> Option<Ty<'tcx>> {
            match t.kind() {
                ty::Ref(_, i, _) | ty::RawPtr(i, _) => Some(*i),
                ty::Adt(_, a) => a.types().next(),
                _ => None,
            }
        }
        let (mut f, mut t) = (inner(from)?, inner(to)?);
        while let (ty::Adt(a, fa), ty::Adt(b, ta)) = (f.kind(), t.kind()) {
            if a != b {
                return None;
            }
            f = fa.types().last()?;
            t = ta.types().last()?;
        }
        let ty::Dynamic(preds, ..) = t.kind() else { return None };
        let pr = preds.principal()?;
        let tr = tcx.instantiate_bound_regions_with_erased(pr.with_self_ty(tcx, f));
        let cty = self.ty(f);
        let mut ms = vec![];
        for it in tcx.associated_items(tr.def_id).in_definition_order() {
            if !it.is_fn() || tcx.generics_of(it.def_id).own_params.iter().any(|p| !matches!(p.kind, ty::GenericParamDefKind::Lifetime)) {
                continue;
            }
            let args = tcx.erase_and_anonymize_regions(
                ty::GenericArgs::for_item(tcx, it.def_id, |p, _| {
                    if (p.index as usize) < tr.args.len() { tr.args[p.index as usize] } else { tcx.lifetimes.re_erased.into() }
                }),
            );
            let c = self.callee(it.def_id, args);
            ms.push(J::Arr(vec![J::s(full_path(tcx, it.def_id)), c]));
        }
        Some(J::Obj(vec![("ty", cty), ("methods", J::Arr(ms))]))
    }

    /// Describes the callee `def<args>`: the item as written plus what it resolves to.
    fn callee(&mut self, def: DefId, args: ty::GenericArgsRef<'tcx>) -> J {
        let tcx = self.tcx;
        let args = tcx
            .try_normalize_erasing_regions(self.env(), ty::Unnormalized::new_wip(args))
            .unwrap_or(args);
        let written = full_path(tcx, def);
        let mut out = vec![("def", J::s(written)), ("crate", J::s(tcx.crate_name(def.krate).as_str()))];
        let aj = self.args_j(args);
        out.push(("args", aj));
        if let Some(ai) = tcx.opt_associated_item(def) {
            out.push(("name", J::s(ai.name().as_str())));
            if let Some(tr) = ai.trait_container(tcx) {
                out.push(("trait", J::s(full_path(tcx, tr))));
            }
        } else if let Some(n) = tcx.opt_item_name(def) {
            out.push(("name", J::s(n.as_str())));
        }
        if matches!(tcx.def_kind(def), DefKind::Ctor(..)) {
            let adt = tcx.parent(def);
            let (adt, vi) = match tcx.def_kind(adt) {
                DefKind::Variant => {
                    let e = tcx.parent(adt);
                    let vi = tcx.adt_def(e).variant_index_with_id(adt).as_usize();
                    (e, vi)
                }
                _ => (adt, 0),
            };
            let _ = adt;
            let sig = tcx.fn_sig(def).instantiate(tcx, args).skip_norm_wip();
            let rt = self.norm(tcx.erase_and_anonymize_regions(sig.skip_binder().output()));
            let rt = self.ty(rt);
            out.push(("ctor", J::Arr(vec![rt, J::i(vi)])));
            return J::Obj(out);
        }
        if let Some(i) = self.shim(&full_path(tcx, def), args) {
            out.push(("shim", i));
        }
        let res = Instance::try_resolve(tcx, self.env(), def, args);
        match res {
            Ok(Some(inst)) => {
                let rp = full_path(tcx, inst.def_id());
                let kr = tcx.crate_name(inst.def_id().krate).to_string();
                let kind = match inst.def {
                    InstanceKind::Item(_) => "item",
                    InstanceKind::Intrinsic(_) => "intrinsic",
                    InstanceKind::Virtual(..) => "virtual",
                    InstanceKind::Shim(ShimKind::ClosureOnce { .. }) => "closure_once",
                    InstanceKind::Shim(ShimKind::FnPtr(..)) => "fn_ptr_shim",
                    InstanceKind::Shim(ShimKind::Reify(..)) => "reify",
                    InstanceKind::Shim(ShimKind::Clone(..)) => "clone_shim",
                    InstanceKind::Shim(ShimKind::DropGlue(..)) => "drop_glue",
                    _ => "shim",
                };
                out.push(("kind", J::s(kind)));
                out.push(("rdef", J::s(rp.clone())));
                out.push(("rcrate", J::s(kr.clone())));
                let raj = self.args_j(inst.args);
                out.push(("rargs", raj));
                match inst.def {
                    InstanceKind::Item(d) => {
                        let dump = repo_crate(&kr)
                            || tcx.is_closure_like(d)
                            || wanted_std(&rp);
                        if dump && tcx.is_mir_available(d) {
                            let id = self.inst(InstanceKey::Inst(inst));
                            out.push(("inst", id));
                        }
                    }
                    InstanceKind::Shim(ShimKind::ClosureOnce { closure, .. }) => {
                        // the closure body itself, taking its environment by reference
                        let inst2 = Instance::new_raw(closure, inst.args.type_at(0).kind_closure_args());
                        let id = self.inst(InstanceKey::Inst(inst2));
                        out.push(("inst", id));
                    }
                    InstanceKind::Shim(ShimKind::FnPtr(_, t)) | InstanceKind::Shim(ShimKind::Clone(_, t)) => {
                        let t = self.ty(t);
                        out.push(("shim_ty", t));
                    }
                    _ => {}
                }
                // provided method of a foreign iterator trait: offer the default body as well
                if let Some(ai) = tcx.opt_associated_item(def) {
                    if let Some(tr) = ai.trait_container(tcx) {
                        let tp = full_path(tcx, tr);
                        if tp.starts_with("core::iter::") && tcx.defaultness(def).has_value()
                            && !repo_crate(&kr)
                            && tcx.is_mir_available(def)
                        {
                            let d = Instance::new_raw(def, args);
                            let id = self.inst(InstanceKey::Inst(d));
                            out.push(("default", id));
                        }
                    }
                }
            }
            Ok(None) => {
                out.push(("kind", J::s("unresolved")));
                if let Some(ai) = tcx.opt_associated_item(def) {
                    if ai.trait_container(tcx).is_some()
                        && tcx.defaultness(def).has_value()
                        && tcx.is_mir_available(def)
                        && (repo_crate(tcx.crate_name(def.krate).as_str()) || full_path(tcx, def).starts_with("core::iter::"))
                    {
                        let d = Instance::new_raw(def, args);
                        let id = self.inst(InstanceKey::Inst(d));
                        out.push(("default", id));
                    }
                }
            }
            Err(_) => out.push(("kind", J::s("error"))),
        }
        J::Obj(out)
    }

    fn place(&mut self, p: &Place<'tcx>) -> J {
        let mut v = vec![J::i(p.local.as_usize())];
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => J::s("*"),
                ProjectionElem::Field(f, t) => {
                    let t = self.ty(t);
                    J::Arr(vec![J::s("f"), J::i(f.as_usize()), t])
                }
                ProjectionElem::Index(l) => J::Arr(vec![J::s("i"), J::i(l.as_usize())]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => J::Arr(vec![
                    J::s("ci"),
                    J::i(offset as usize),
                    J::i(min_length as usize),
                    J::Bool(from_end),
                ]),
                ProjectionElem::Subslice { from, to, from_end } => {
                    J::Arr(vec![J::s("ss"), J::i(from as usize), J::i(to as usize), J::Bool(from_end)])
                }
                ProjectionElem::Downcast(_, v) => J::Arr(vec![J::s("d"), J::i(v.as_usize())]),
                ProjectionElem::OpaqueCast(_)
                | ProjectionElem::UnwrapUnsafeBinder(_) => J::Arr(vec![J::s("cast")]),
                ProjectionElem::PhantomDeref => J::Arr(vec![J::s("cast")]),
            });
        }
        J::Arr(v)
    }

    /// A constant of an enum, as its variant and fields.
    fn aggregate(&mut self, v: ConstValue, t: Ty<'tcx>, depth: usize) -> Option<J> {
        let ty::Adt(def, _) = t.kind() else { return None };
        if !def.is_enum() || depth > 4 {
            return None;
        }
        let d = self.tcx.try_destructure_mir_constant_for_user_output(v, t)?;
        let variant = d.variant?.as_usize();
        let mut fields = vec![];
        for &(f, fty) in d.fields {
            let fty = self.norm(fty);
            let tj = self.ty(fty);
            if let Some(a) = self.aggregate(f, fty, depth + 1) {
                fields.push(J::Obj(vec![("ty", tj), ("adt", a)]));
            } else if let ConstValue::Scalar(mir::interpret::Scalar::Int(i)) = f {
                let bits = i.to_bits(i.size());
                let val = if let ty::Int(_) = fty.kind() { i.size().sign_extend(bits) } else { bits as i128 };
                fields.push(J::Obj(vec![("ty", tj), ("v", J::Int(val))]));
            } else if let ConstValue::ZeroSized = f {
                fields.push(J::Obj(vec![("ty", tj), ("zst", J::Bool(true))]));
            } else {
                fields.push(J::Obj(vec![("ty", tj)]));
            }
        }
        Some(J::Obj(vec![("v", J::Int(variant as i128)), ("f", J::Arr(fields))]))
    }

    fn constant(&mut self, c: &ConstOperand<'tcx>, owner: Option<Instance<'tcx>>) -> J {
        let tcx = self.tcx;
        let t = self.norm(c.const_.ty());
        let tj = self.ty(t);
        let mut out = vec![("ty", tj)];
        if let mir::Const::Unevaluated(uv, _) = c.const_ {
            if let (Some(p), Some(o)) = (uv.promoted, owner) {
                let _ = o;
                let inst = Instance::new_raw(uv.def, uv.args);
                let id = self.inst(InstanceKey::Promoted(inst, p));
                out.push(("promoted", id));
                return J::Obj(vec![("k", J::Obj(out))]);
            }
        }
        out.push(("s", J::s(with_no_trimmed_paths!(with_no_visible_paths!(format!("{}", c.const_))))));
        if let mir::Const::Unevaluated(uv, _) = c.const_ {
            out.push(("uneval", J::s(full_path(tcx, uv.def))));
        }
        if !matches!(t.kind(), ty::FnDef(..)) {
            if let Ok(v) = c.const_.eval(tcx, self.env(), c.span) {
                if let Some(a) = self.aggregate(v, t, 0) {
                    out.push(("adt", a));
                }
                match v {
                    ConstValue::Scalar(mir::interpret::Scalar::Int(i)) => {
                        let bits = i.to_bits(i.size());
                        let val = if let ty::Int(_) = t.kind() {
                            i.size().sign_extend(bits)
                        } else {
                            bits as i128
                        };
                        out.push(("v", J::Int(val)));
                    }
                    ConstValue::Scalar(mir::interpret::Scalar::Ptr(p, _)) => {
                        let aid = p.provenance.alloc_id();
                        if let Some(ga) = tcx.try_get_global_alloc(aid) {
                            match ga {
                                mir::interpret::GlobalAlloc::Static(d) => {
                                    out.push(("static", J::s(full_path(tcx, d))));
                                }
                                mir::interpret::GlobalAlloc::Memory(m) => {
                                    // an array/struct of plain bytes: keep it as text when possible
                                    let a = m.inner();
                                    let b = a.inspect_with_uninit_and_ptr_outside_interpreter(0..a.len());
                                    out.push(("mem", J::s(String::from_utf8_lossy(b).to_string())));
                                }
                                _ => {}
                            }
                        }
                    }
                    ConstValue::ZeroSized => out.push(("zst", J::Bool(true))),
                    ConstValue::Slice { alloc_id, meta } => {
                        if let mir::interpret::GlobalAlloc::Memory(a) = tcx.global_alloc(alloc_id) {
                            let a = a.inner();
                            let n = (meta as usize).min(a.len());
                            let b = a.inspect_with_uninit_and_ptr_outside_interpreter(0..n);
                            out.push(("str", J::s(String::from_utf8_lossy(b).to_string())));
                        }
                    }
                    ConstValue::Indirect { .. } => out.push(("indirect", J::Bool(true))),
                }
            }
        }
        J::Obj(vec![("k", J::Obj(out))])
    }

    fn operand(&mut self, o: &Operand<'tcx>, owner: Option<Instance<'tcx>>) -> J {
        match o {
            Operand::Copy(p) => J::Obj(vec![("c", self.place(p))]),
            Operand::Move(p) => J::Obj(vec![("m", self.place(p))]),
            Operand::Constant(c) => self.constant(c, owner),
            Operand::RuntimeChecks(_) => J::Obj(vec![("rc", J::Bool(false))]),
        }
    }

    fn rvalue(&mut self, r: &Rvalue<'tcx>, owner: Option<Instance<'tcx>>) -> J {
        let o = |n: &str, mut rest: Vec<(&'static str, J)>| {
            rest.insert(0, ("r", J::s(n)));
            J::Obj(rest)
        };
        match r {
            Rvalue::Use(x, _) => o("use", vec![("o", self.operand(x, owner))]),
            Rvalue::Repeat(x, _) => o("repeat", vec![("o", self.operand(x, owner))]),
            Rvalue::Ref(_, k, p) => {
                let m = matches!(k, BorrowKind::Mut { .. });
                o("ref", vec![("p", self.place(p)), ("mut", J::Bool(m))])
            }
            Rvalue::Reborrow(_, m, p) => {
                o("reborrow", vec![("p", self.place(p)), ("mut", J::Bool(m.is_mut()))])
            }
            Rvalue::ThreadLocalRef(d) => o("tls", vec![("s", J::s(full_path(self.tcx, *d)))]),
            Rvalue::RawPtr(k, p) => {
                let m = matches!(k, RawPtrKind::Mut);
                o("ref", vec![("p", self.place(p)), ("mut", J::Bool(m)), ("raw", J::Bool(true))])
            }
            Rvalue::Cast(k, x, t) => {
                let vt = match (k, self.cur_body.as_ref()) {
                    (CastKind::PointerCoercion(ty::adjustment::PointerCoercion::Unsize, _), Some(b)) => {
                        let from = x.ty(&b.local_decls, self.tcx);
                        self.vtable(from, *t)
                    }
                    _ => None,
                };
                let t = self.ty(*t);
                let mut v = vec![("kind", J::s(format!("{k:?}"))), ("o", self.operand(x, owner)), ("ty", t)];
                if let Some(vt) = vt {
                    v.push(("vt", vt));
                }
                o("cast", v)
            }
            Rvalue::BinaryOp(op, b) => {
                let a = self.operand(&b.0, owner);
                let c = self.operand(&b.1, owner);
                o("bin", vec![("op", J::s(format!("{op:?}"))), ("a", a), ("b", c)])
            }
            Rvalue::UnaryOp(op, a) => {
                let a = self.operand(a, owner);
                o("un", vec![("op", J::s(format!("{op:?}"))), ("a", a)])
            }
            Rvalue::Discriminant(p) => o("discr", vec![("p", self.place(p))]),
            Rvalue::Aggregate(k, fs) => {
                let fields = J::Arr(fs.iter().map(|x| self.operand(x, owner)).collect());
                match &**k {
                    AggregateKind::Array(t) => {
                        let t = self.ty(*t);
                        o("array", vec![("t", t), ("fs", fields)])
                    }
                    AggregateKind::Tuple => o("tuple", vec![("fs", fields)]),
                    AggregateKind::Adt(d, v, args, _, _) => {
                        let t = self.tcx.type_of(*d).instantiate(self.tcx, args).skip_norm_wip();
                        let t = self.norm(t);
                        let t = self.ty(t);
                        o("adt", vec![("t", t), ("v", J::i(v.as_usize())), ("fs", fields)])
                    }
                    AggregateKind::Closure(d, args) => {
                        let t = Ty::new_closure(self.tcx, *d, args);
                        let t = self.ty(t);
                        o("closure", vec![("t", t), ("fs", fields)])
                    }
                    AggregateKind::RawPtr(..) => o("rawptr", vec![("fs", fields)]),
                    _ => o("aggr_other", vec![("fs", fields)]),
                }
            }
            Rvalue::CopyForDeref(p) => {
                let p = self.place(p);
                o("use", vec![("o", J::Obj(vec![("c", p)]))])
            }
            Rvalue::WrapUnsafeBinder(x, _) => o("use", vec![("o", self.operand(x, owner))]),
        }
    }

    fn unwind(&self, u: &UnwindAction) -> J {
        match u {
            UnwindAction::Continue => J::s("continue"),
            UnwindAction::Unreachable => J::s("unreachable"),
            UnwindAction::Terminate(_) => J::s("terminate"),
            UnwindAction::Cleanup(b) => J::i(b.as_usize()),
        }
    }

    fn body(&mut self, body: &Body<'tcx>, owner: Option<Instance<'tcx>>) -> J {
        let tcx = self.tcx;
        let locals = J::Arr(body.local_decls.iter().map(|d| self.ty(d.ty)).collect());
        let mut names = vec![];
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                if let Some(l) = p.as_local() {
                    names.push(J::Arr(vec![J::i(l.as_usize()), J::s(v.name.as_str())]));
                }
            }
        }
        let mut blocks = vec![];
        for bb in body.basic_blocks.iter() {
            let mut stmts = vec![];
            for s in &bb.statements {
                match &s.kind {
                    StatementKind::Assign(b) => {
                        let p = self.place(&b.0);
                        let r = self.rvalue(&b.1, owner);
                        stmts.push(J::Arr(vec![J::s("="), p, r]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(place);
                        stmts.push(J::Arr(vec![J::s("sd"), p, J::i(variant_index.as_usize())]));
                    }
                    StatementKind::StorageDead(l) => {
                        stmts.push(J::Arr(vec![J::s("dead"), J::i(l.as_usize())]));
                    }
                    StatementKind::Intrinsic(i) => {
                        if let NonDivergingIntrinsic::Assume(o) = &**i {
                            let o = self.operand(o, owner);
                            stmts.push(J::Arr(vec![J::s("assume"), o]));
                        } else {
                            stmts.push(J::Arr(vec![J::s("copy_nonoverlapping")]));
                        }
                    }
                    _ => {}
                }
            }
            let t = bb.terminator();
            let sp = J::s(loc(tcx, t.source_info.span));
            let o = |n: &str, mut rest: Vec<(&'static str, J)>| {
                rest.insert(0, ("t", J::s(n)));
                rest.push(("sp", sp.clone()));
                J::Obj(rest)
            };
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => o("goto", vec![("b", J::i(target.as_usize()))]),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let d = self.operand(discr, owner);
                    let dt = discr.ty(body, tcx);
                    let signed = matches!(dt.kind(), ty::Int(_));
                    let sz = match dt.kind() {
                        ty::Int(i) => i.bit_width().unwrap_or(64),
                        _ => 0,
                    };
                    let ts = targets
                        .iter()
                        .map(|(v, b)| {
                            let v = if signed {
                                rustc_abi::Size::from_bits(sz).sign_extend(v)
                            } else {
                                v as i128
                            };
                            J::Arr(vec![J::Int(v), J::i(b.as_usize())])
                        })
                        .collect();
                    let dt = self.ty(dt);
                    o("switch", vec![
                        ("o", d),
                        ("ty", dt),
                        ("ts", J::Arr(ts)),
                        ("else", J::i(targets.otherwise().as_usize())),
                    ])
                }
                TerminatorKind::UnwindResume => o("resume", vec![]),
                TerminatorKind::UnwindTerminate(_) => o("abort", vec![]),
                TerminatorKind::Return => o("return", vec![]),
                TerminatorKind::Unreachable => o("unreachable", vec![]),
                TerminatorKind::Drop { place, target, unwind, .. } => {
                    let ty = place.ty(body, tcx).ty;
                    let pt = self.ty(ty);
                    let p = self.place(place);
                    o("drop", vec![
                        ("p", p),
                        ("ty", pt),
                        ("b", J::i(target.as_usize())),
                        ("u", self.unwind(unwind)),
                    ])
                }
                TerminatorKind::Call { func, args, destination, target, unwind, .. } => {
                    let ft = func.ty(body, tcx);
                    let mut rest = vec![];
                    if let ty::FnDef(..) = ft.kind() {
                        let id = self.ty(ft);
                        rest.push(("f", id));
                    } else {
                        let fo = self.operand(func, owner);
                        rest.push(("fo", fo));
                    }
                    let a = args.iter().map(|a| self.operand(&a.node, owner)).collect();
                    rest.push(("a", J::Arr(a)));
                    let d = self.place(destination);
                    rest.push(("d", d));
                    let dt = destination.ty(body, tcx).ty;
                    let dt = self.ty(dt);
                    rest.push(("dty", dt));
                    rest.push(("b", target.map(|t| J::i(t.as_usize())).unwrap_or(J::Null)));
                    rest.push(("u", self.unwind(unwind)));
                    o("call", rest)
                }
                TerminatorKind::Assert { cond, expected, msg, target, unwind } => {
                    let c = self.operand(cond, owner);
                    let m = format!("{msg:?}");
                    o("assert", vec![
                        ("o", c),
                        ("e", J::Bool(*expected)),
                        ("m", J::s(m)),
                        ("b", J::i(target.as_usize())),
                        ("u", self.unwind(unwind)),
                    ])
                }
                TerminatorKind::FalseEdge { real_target, .. }
                | TerminatorKind::FalseUnwind { real_target, .. } => {
                    o("goto", vec![("b", J::i(real_target.as_usize()))])
                }
                _ => o("unsupported", vec![]),
            };
            blocks.push(J::Arr(vec![J::Arr(stmts), tj, J::Bool(bb.is_cleanup)]));
        }
        J::Obj(vec![
            ("argc", J::i(body.arg_count)),
            ("spread", body.spread_arg.map(|l| J::i(l.as_usize())).unwrap_or(J::Null)),
            ("locals", locals),
            ("names", J::Arr(names)),
            ("blocks", J::Arr(blocks)),
        ])
    }

    fn process(&mut self, id: usize, env: usize, key: InstanceKey<'tcx>) {
        let tcx = self.tcx;
        self.cur_env = env;
        let (inst, raw) = match key {
            InstanceKey::Inst(i) => {
                let d = i.def_id();
                if !tcx.is_mir_available(d) {
                    return;
                }
                (i, tcx.instance_mir(i.def).clone())
            }
            InstanceKey::Promoted(i, p) => {
                (i, tcx.promoted_mir(i.def_id())[p].clone())
            }
        };
        let eb = EarlyBinder::bind(tcx, raw.clone());
        let body = match inst.try_instantiate_mir_and_normalize_erasing_regions(tcx, self.env(), eb) {
            Ok(b) => b,
            Err(_) => {
                self.insts[id] = J::Obj(vec![
                    ("path", J::s(full_path(tcx, inst.def_id()))),
                    ("error", J::s("cannot normalize")),
                ]);
                return;
            }
        };
        let d = inst.def_id();
        let kr = tcx.crate_name(d.krate).to_string();
        let aj = self.args_j(inst.args);
        self.cur_body = Some(body.clone());
        let b = self.body(&body, Some(inst));
        let promoted = matches!(key, InstanceKey::Promoted(..));
        self.insts[id] = J::Obj(vec![
            ("path", J::s(full_path(tcx, d))),
            ("crate", J::s(kr)),
            ("args", aj),
            ("promoted", J::Bool(promoted)),
            ("closure", J::Bool(tcx.is_closure_like(d))),
            ("span", J::s(loc(tcx, tcx.def_span(d)))),
            ("body", b),
        ]);
    }
}

trait ClosureArgs<'tcx> {
    fn kind_closure_args(self) -> ty::GenericArgsRef<'tcx>;
}
impl<'tcx> ClosureArgs<'tcx> for Ty<'tcx> {
    fn kind_closure_args(self) -> ty::GenericArgsRef<'tcx> {
        match self.kind() {
            ty::Closure(_, a) => a,
            k => panic!("not a closure: {k:?}"),
        }
    }
}

/// Whether the code at `span` was written by a macro of another crate.
fn foreign(tcx: TyCtxt<'_>, span: Span) -> bool {
    let mut s = span;
    while s.from_expansion() {
        let d = s.ctxt().outer_expn_data();
        match d.macro_def_id {
            Some(m) if !repo_crate(tcx.crate_name(m.krate).as_str()) => return true,
            _ => s = d.call_site,
        }
    }
    false
}

struct UnsafeFinder<'tcx> {
    tcx: TyCtxt<'tcx>,
    found: Vec<(String, String)>,
}

impl<'tcx> Visitor<'tcx> for UnsafeFinder<'tcx> {
    type NestedFilter = rustc_middle::hir::nested_filter::All;
    fn maybe_tcx(&mut self) -> TyCtxt<'tcx> {
        self.tcx
    }
    fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
        if let (rustc_hir::BlockCheckMode::UnsafeBlock(_), false) = (b.rules, foreign(self.tcx, b.span)) {
            let owner = self.tcx.hir_get_parent_item(b.hir_id).to_def_id();
            self.found.push((format!("unsafe block in {}", full_path(self.tcx, owner)), loc(self.tcx, b.span)));
        }
        intravisit::walk_block(self, b);
    }
    fn visit_item(&mut self, i: &'tcx rustc_hir::Item<'tcx>) {
        let d = i.owner_id.to_def_id();
        match &i.kind {
            rustc_hir::ItemKind::Impl(imp) => {
                if let Some(tr) = imp.of_trait {
                    if tr.safety.is_unsafe() && !foreign(self.tcx, i.span) {
                        self.found.push((format!("unsafe impl {}", full_path(self.tcx, d)), loc(self.tcx, i.span)));
                    }
                }
            }
            rustc_hir::ItemKind::ForeignMod { .. } => {
                self.found.push(("extern block".to_string(), loc(self.tcx, i.span)));
            }
            rustc_hir::ItemKind::Fn { sig, .. } => {
                if sig.header.is_unsafe() && !foreign(self.tcx, i.span) {
                    self.found.push((format!("unsafe fn {}", full_path(self.tcx, d)), loc(self.tcx, i.span)));
                }
            }
            _ => {}
        }
        intravisit::walk_item(self, i);
    }
    fn visit_impl_item(&mut self, i: &'tcx rustc_hir::ImplItem<'tcx>) {
        if let rustc_hir::ImplItemKind::Fn(sig, _) = &i.kind {
            if sig.header.is_unsafe() && !foreign(self.tcx, i.span) {
                let d = i.owner_id.to_def_id();
                self.found.push((format!("unsafe fn {}", full_path(self.tcx, d)), loc(self.tcx, i.span)));
            }
        }
        intravisit::walk_impl_item(self, i);
    }
}

pub fn dump(tcx: TyCtxt<'_>) {
    let krate = tcx.crate_name(LOCAL_CRATE).to_string();
    let out_dir = std::env::var("PLV_OUT").expect("PLV_OUT");
    let is_bin = tcx.crate_types().iter().any(|t| format!("{t:?}") == "Executable");
    let mut cx = Cx {
        tcx,
        types: vec![],
        type_ids: HashMap::new(),
        envs: vec![],
        insts: vec![],
        inst_ids: HashMap::new(),
        queue: VecDeque::new(),
        cur_env: 0,
        cur_body: None,
        shims: tcx
            .mir_keys(())
            .iter()
            .map(|d| d.to_def_id())
            .filter(|d| tcx.def_kind(*d) == DefKind::Fn)
            .map(|d| (tcx.item_name(d).to_string(), d))
            .filter(|(n, _)| n.starts_with("plv_shim_"))
            .collect(),
    };
    let mut roots = vec![];
    for &ldid in tcx.mir_keys(()) {
        let d = ldid.to_def_id();
        let kind = tcx.def_kind(d);
        if !matches!(kind, DefKind::Fn | DefKind::AssocFn) {
            continue;
        }
        let env = TypingEnv::post_analysis(tcx, d);
        let e = match cx.envs.iter().position(|x| *x == env) {
            Some(i) => i,
            None => {
                cx.envs.push(env);
                cx.envs.len() - 1
            }
        };
        cx.cur_env = e;
        let args = ty::GenericArgs::identity_for_item(tcx, d);
        let args = tcx.erase_and_anonymize_regions(args);
        let inst = Instance::new_raw(d, args);
        let id = cx.inst(InstanceKey::Inst(inst));
        let mut o = vec![
            ("path", J::s(full_path(tcx, d))),
            ("name", J::s(tcx.item_name(d).as_str())),
            ("inst", id),
            ("pub", J::Bool(tcx.effective_visibilities(()).is_reachable(ldid))),
            ("span", J::s(loc(tcx, tcx.def_span(d)))),
        ];
        if let Some(ai) = tcx.opt_associated_item(d) {
            if let Some(imp) = ai.impl_container(tcx) {
                let st = tcx.type_of(imp).instantiate_identity().skip_norm_wip();
                let st = cx.ty(st);
                o.push(("self_ty", st));
                if let Some(tr) = tcx.impl_opt_trait_ref(imp) {
                    let tr = tr.instantiate_identity().skip_norm_wip();
                    o.push(("trait", J::s(full_path(tcx, tr.def_id))));
                    o.push(("trait_s", J::s(with_no_trimmed_paths!(with_no_visible_paths!(format!("{tr}"))))));
                }
            } else if let Some(tr) = ai.trait_container(tcx) {
                o.push(("in_trait", J::s(full_path(tcx, tr))));
            }
        }
        let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip();
        o.push(("sig", J::s(with_no_trimmed_paths!(with_no_visible_paths!(format!("{}", sig.skip_binder()))))));
        roots.push(J::Obj(o));
    }
    while let Some((id, env, key)) = cx.queue.pop_front() {
        if cx.insts.len() > 60000 {
            break;
        }
        cx.process(id, env, key);
    }
    let mut uf = UnsafeFinder { tcx, found: vec![] };
    tcx.hir_walk_toplevel_module(&mut uf);
    let uns = uf
        .found
        .iter()
        .map(|(a, b)| J::Arr(vec![J::s(a.clone()), J::s(b.clone())]))
        .collect();
    let j = J::Obj(vec![
        ("crate", J::s(krate.clone())),
        ("bin", J::Bool(is_bin)),
        ("roots", J::Arr(roots)),
        ("types", J::Arr(cx.types)),
        ("insts", J::Arr(cx.insts)),
        ("unsafe", J::Arr(uns)),
    ]);
    let mut s = String::new();
    j.write(&mut s);
    let p = format!("{out_dir}/{krate}-{}.json", if is_bin { "bin" } else { "lib" });
    std::fs::write(&p, s).unwrap_or_else(|e| panic!("writing {p}: {e}"));
}
