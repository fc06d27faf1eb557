//! MIR fact extractor. Runs as RUSTC_WORKSPACE_WRAPPER: compiles each
//! workspace crate as usual and, after analysis, dumps every body's MIR
//! (control-flow graph, resolved callees, projections with field and variant
//! names, constants), every ADT and every trait impl as JSON.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_attr_ir;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_index;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId, LOCAL_CRATE};
use rustc_interface::interface;
use rustc_middle::mir::{self, *};
use rustc_middle::ty::print::PrintTraitRefExt as _;
use rustc_middle::ty::{self, GenericArgsRef, Ty, TyCtxt};
use rustc_span::Span;
use serde_json::{json, Map, Value as J};

struct Cb;

struct Stash<'tcx>(Body<'tcx>, rustc_index::IndexVec<Promoted, Body<'tcx>>);
type DropQ = for<'tcx> fn(TyCtxt<'tcx>, LocalDefId) -> &'tcx rustc_data_structures::steal::Steal<Body<'tcx>>;
static mut ORIG: Option<DropQ> = None;
thread_local! {
    static STASH: std::cell::RefCell<std::collections::HashMap<LocalDefId, Stash<'static>>> = Default::default();
}

impl Callbacks for Cb {
    fn config(&mut self, config: &mut interface::Config) {
        config.opts.unstable_opts.mir_opt_level = Some(0);
        config.override_queries = Some(|_sess, providers| {
            unsafe { ORIG = Some(providers.queries.mir_drops_elaborated_and_const_checked) };
            providers.queries.mir_drops_elaborated_and_const_checked = |tcx, ld| {
                {
                    // Keep the MIR as it is before drop elaboration: no drop flags.
                    let (b, p) = tcx.mir_promoted(ld);
                    let b: Body<'_> = b.borrow().clone();
                    let p = p.borrow().clone();
                    let e = unsafe { std::mem::transmute::<Stash<'_>, Stash<'static>>(Stash(b, p)) };
                    STASH.with(|s| s.borrow_mut().insert(ld, e));
                }
                (unsafe { ORIG.unwrap() })(tcx, ld)
            };
        });
    }
    fn after_analysis<'tcx>(&mut self, _c: &interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        if let Ok(dir) = std::env::var("TLDR_FACTS_DIR") {
            dump(tcx, &dir);
        }
        Compilation::Continue
    }
}

fn path(tcx: TyCtxt<'_>, d: DefId) -> String {
    ty::print::with_no_visible_paths!(ty::print::with_no_trimmed_paths!(
        ty::print::with_resolve_crate_name!(tcx.def_path_str(d))
    ))
}

fn tys(t: impl std::fmt::Display) -> String {
    ty::print::with_no_visible_paths!(ty::print::with_no_trimmed_paths!(
        ty::print::with_resolve_crate_name!(format!("{t}"))
    ))
}

fn hash(tcx: TyCtxt<'_>, d: DefId) -> String {
    let h = tcx.def_path_hash(d);
    format!("{:?}", h.0)
}

fn span(tcx: TyCtxt<'_>, s: Span) -> String {
    let s = s.source_callsite();
    let sm = tcx.sess.source_map();
    let lo = sm.lookup_char_pos(s.lo());
    let f = lo.file.name.prefer_local_unconditionally().to_string();
    format!("{}:{}", f, lo.line)
}

fn peel<'tcx>(mut t: Ty<'tcx>) -> Ty<'tcx> {
    loop {
        match t.kind() {
            ty::Ref(_, i, _) => t = *i,
            _ => {
                if let Some(b) = t.boxed_ty() {
                    t = b
                } else {
                    return t;
                }
            }
        }
    }
}

fn adt_of(tcx: TyCtxt<'_>, t: Ty<'_>) -> Option<String> {
    match peel(t).kind() {
        ty::Adt(a, _) => Some(path(tcx, a.did())),
        ty::Closure(d, _) => Some(format!("closure:{}", hash(tcx, *d))),
        _ => None,
    }
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    env: ty::TypingEnv<'tcx>,
}

impl<'tcx> Cx<'tcx> {
    fn place(&self, body: &Body<'tcx>, p: &Place<'tcx>) -> J {
        let tcx = self.tcx;
        let mut pt = PlaceTy::from_ty(body.local_decls[p.local].ty);
        let mut proj = Vec::new();
        for e in p.projection.iter() {
            let j = match e {
                ProjectionElem::Deref => json!("*"),
                ProjectionElem::Field(i, _) => {
                    let mut name = i.as_usize().to_string();
                    let mut owner = None;
                    if let ty::Adt(a, _) = pt.ty.kind() {
                        owner = Some(path(tcx, a.did()));
                        let v = if a.is_enum() {
                            pt.variant_index
                        } else {
                            Some(rustc_abi::FIRST_VARIANT)
                        };
                        if let Some(v) = v {
                            name = a.variant(v).fields[i].name.to_string();
                        }
                    } else if let ty::Closure(d, _) = pt.ty.kind() {
                        owner = Some(format!("closure:{}", hash(tcx, *d)));
                    }
                    match owner {
                        Some(o) => json!({"f": name, "i": i.as_usize(), "of": o}),
                        None => json!({"f": name, "i": i.as_usize()}),
                    }
                }
                ProjectionElem::Index(l) => json!({"ix": l.as_usize()}),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    json!({"ci": offset, "end": from_end})
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    json!({"sub": [from, to], "end": from_end})
                }
                ProjectionElem::Downcast(sym, v) => {
                    let n = match pt.ty.kind() {
                        ty::Adt(a, _) => a.variant(v).name.to_string(),
                        _ => sym.map(|s| s.to_string()).unwrap_or_default(),
                    };
                    json!({"v": n})
                }
                _ => json!({"other": 1}),
            };
            proj.push(j);
            pt = pt.projection_ty(tcx, e);
        }
        if proj.is_empty() {
            json!([p.local.as_usize()])
        } else {
            json!([p.local.as_usize(), proj])
        }
    }

    fn fnref(&self, d: DefId, args: GenericArgsRef<'tcx>) -> J {
        let tcx = self.tcx;
        let mut o = Map::new();
        o.insert("path".into(), json!(path(tcx, d)));
        o.insert("h".into(), json!(hash(tcx, d)));
        let a: Vec<String> = args
            .iter()
            .filter(|g| g.as_region().is_none())
            .map(|g| tys(g))
            .collect();
        if !a.is_empty() {
            o.insert("args".into(), json!(a));
        }
        // closures among generic args
        let cl: Vec<String> = args
            .types()
            .filter_map(|t| match peel(t).kind() {
                ty::Closure(d, _) => Some(hash(tcx, *d)),
                ty::FnDef(d, _) => Some(hash(tcx, *d)),
                _ => None,
            })
            .collect();
        if !cl.is_empty() {
            o.insert("cl".into(), json!(cl));
        }
        if matches!(tcx.def_kind(d), DefKind::AssocFn) {
            if let Some(t) = tcx.trait_of_assoc(d) {
                o.insert("trait".into(), json!(path(tcx, t)));
                if let Some(self_ty) = args.types().next() {
                    o.insert("self".into(), json!(tys(self_ty)));
                    if let Some(a) = adt_of(tcx, self_ty) {
                        o.insert("self_adt".into(), json!(a));
                    }
                }
                let args = tcx.erase_and_anonymize_regions(args);
                if let Ok(Some(inst)) = ty::Instance::try_resolve(tcx, self.env, d, args) {
                    let rd = inst.def_id();
                    if rd != d {
                        o.insert("rpath".into(), json!(path(tcx, rd)));
                        o.insert("rh".into(), json!(hash(tcx, rd)));
                    }
                }
            } else if let Some(imp) = tcx.impl_of_assoc(d) {
                let st = tcx.type_of(imp).instantiate_identity().skip_norm_wip();
                if let Some(a) = adt_of(tcx, st) {
                    o.insert("self_adt".into(), json!(a));
                }
                if let Some(tr) = tcx.impl_opt_trait_ref(imp) {
                    o.insert("trait".into(), json!(path(tcx, tr.skip_binder().def_id)));
                }
            }
        }
        o.insert("name".into(), json!(tcx.opt_item_name(d).map(|s| s.to_string()).unwrap_or_default()));
        if let DefKind::Ctor(of, _) = tcx.def_kind(d) {
            let parent = tcx.parent(d);
            let (adt, var) = match of {
                rustc_hir::def::CtorOf::Struct => (parent, String::new()),
                rustc_hir::def::CtorOf::Variant => (tcx.parent(parent), tcx.item_name(parent).to_string()),
            };
            o.insert("ctor".into(), json!([path(tcx, adt), var]));
        }
        J::Object(o)
    }

    fn konst(&self, c: &ConstOperand<'tcx>) -> J {
        let tcx = self.tcx;
        let t = c.const_.ty();
        match t.kind() {
            ty::FnDef(d, args) => {
                return json!({"fn": self.fnref(*d, args.skip_binder())});
            }
            ty::Closure(d, _) => {
                return json!({"closure": hash(tcx, *d)});
            }
            _ => {}
        }
        let mut o = Map::new();
        o.insert("ty".into(), json!(tys(t)));
        match c.const_ {
            mir::Const::Unevaluated(u, _) => {
                if let Some(p) = u.promoted {
                    o.insert("promoted".into(), json!(p.as_usize()));
                } else {
                    o.insert("named".into(), json!(path(tcx, u.def)));
                    o.insert("h".into(), json!(hash(tcx, u.def)));
                    if !tcx.generics_of(u.def).requires_monomorphization(tcx) {
                        if let Ok(v) = tcx.const_eval_poly(u.def) {
                            if let Some(b) = str_of(tcx, v, t) {
                                o.insert("str".into(), json!(b));
                            }
                        }
                    }
                }
            }
            mir::Const::Val(v, ty) => {
                if let Some(b) = str_of(tcx, v, ty) {
                    o.insert("str".into(), json!(b));
                } else if let Some(s) = v.try_to_scalar_int() {
                    let sz = s.size();
                    let bits = s.to_bits(sz);
                    if ty.is_signed() {
                        o.insert("int".into(), json!(sz.sign_extend(bits).to_string()));
                    } else if ty.is_char() {
                        o.insert("char".into(), json!(char::from_u32(bits as u32).map(|c| c.to_string())));
                        o.insert("int".into(), json!(bits.to_string()));
                    } else {
                        o.insert("int".into(), json!(bits.to_string()));
                    }
                } else if let ConstValue::ZeroSized = v {
                    o.insert("zst".into(), json!(true));
                } else if let Some(b) = bytes_of(tcx, v, ty) {
                    o.insert("bytes".into(), json!(b));
                }
            }
            mir::Const::Ty(_, ct) => {
                o.insert("tyconst".into(), json!(tys(ct)));
            }
        }
        json!({"c": J::Object(o)})
    }

    fn op(&self, body: &Body<'tcx>, o: &Operand<'tcx>) -> J {
        match o {
            Operand::Copy(p) => json!({"p": self.place(body, p)}),
            Operand::Move(p) => json!({"p": self.place(body, p), "m": 1}),
            Operand::Constant(c) => self.konst(c),
            _ => json!({"c": {"ty": "bool", "rt": true}}),
        }
    }

    fn rvalue(&self, body: &Body<'tcx>, r: &Rvalue<'tcx>) -> J {
        let tcx = self.tcx;
        match r {
            Rvalue::Use(o, _) => json!({"k": "use", "o": self.op(body, o)}),
            Rvalue::Repeat(o, n) => json!({"k": "repeat", "o": self.op(body, o), "n": tys(n)}),
            Rvalue::Ref(_, bk, p) => {
                json!({"k": "ref", "mut": matches!(bk, BorrowKind::Mut{..}), "p": self.place(body, p)})
            }
            Rvalue::Reborrow(_, _, p) => json!({"k": "ref", "mut": true, "p": self.place(body, p)}),
            Rvalue::RawPtr(_, p) => json!({"k": "rawptr", "p": self.place(body, p)}),
            Rvalue::Cast(k, o, t) => {
                json!({"k": "cast", "ck": format!("{k:?}"), "o": self.op(body, o), "ty": tys(t), "from": tys(o.ty(&body.local_decls, tcx))})
            }
            Rvalue::BinaryOp(b, ab) => {
                json!({"k": "bin", "op": format!("{b:?}"), "a": self.op(body, &ab.0), "b": self.op(body, &ab.1)})
            }
            Rvalue::UnaryOp(u, o) => json!({"k": "un", "op": format!("{u:?}"), "o": self.op(body, o)}),
            Rvalue::Discriminant(p) => {
                let t = p.ty(&body.local_decls, tcx).ty;
                let mut m = Map::new();
                let mut adt = None;
                if let ty::Adt(a, _) = t.kind() {
                    adt = Some(path(tcx, a.did()));
                    if a.is_enum() {
                        for (v, d) in a.discriminants(tcx) {
                            m.insert(d.val.to_string(), json!(a.variant(v).name.to_string()));
                        }
                    }
                }
                json!({"k": "discr", "p": self.place(body, p), "adt": adt, "vars": m})
            }
            Rvalue::Aggregate(k, ops) => {
                let os: Vec<J> = ops.iter().map(|o| self.op(body, o)).collect();
                match &**k {
                    AggregateKind::Adt(d, v, args, _, active) => {
                        let a = tcx.adt_def(*d);
                        let var = a.variant(*v);
                        let names: Vec<String> = match active {
                            Some(f) => vec![var.fields[*f].name.to_string()],
                            None => var.fields.iter().map(|f| f.name.to_string()).collect(),
                        };
                        let targs: Vec<String> = args.types().map(|t| tys(t)).collect();
                        json!({"k": "agg", "adt": path(tcx, *d), "var": var.name.to_string(), "names": names, "ops": os, "targs": targs, "enum": a.is_enum()})
                    }
                    AggregateKind::Closure(d, _) => {
                        json!({"k": "closure", "h": hash(tcx, *d), "ops": os})
                    }
                    AggregateKind::Tuple => json!({"k": "tuple", "ops": os}),
                    AggregateKind::Array(_) => json!({"k": "array", "ops": os}),
                    _ => json!({"k": "aggother", "ops": os}),
                }
            }
            Rvalue::CopyForDeref(p) => json!({"k": "use", "o": {"p": self.place(body, p)}}),
            Rvalue::ThreadLocalRef(d) => json!({"k": "tls", "path": path(tcx, *d)}),
            _ => json!({"k": "other"}),
        }
    }

    fn body(&self, body: &Body<'tcx>) -> J {
        let tcx = self.tcx;
        let mut locals = Vec::new();
        let mut names: std::collections::HashMap<usize, String> = Default::default();
        let mut upvars: Vec<J> = Vec::new();
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                if p.projection.is_empty() {
                    names.insert(p.local.as_usize(), v.name.to_string());
                } else {
                    upvars.push(json!({"n": v.name.to_string(), "p": self.place(body, p)}));
                }
            }
        }
        for (l, d) in body.local_decls.iter_enumerated() {
            let mut o = Map::new();
            o.insert("ty".into(), json!(tys(d.ty)));
            if let Some(a) = adt_of(tcx, d.ty) {
                o.insert("adt".into(), json!(a));
            }
            if let Some(n) = names.get(&l.as_usize()) {
                o.insert("n".into(), json!(n));
            }
            locals.push(J::Object(o));
        }
        let mut blocks = Vec::new();
        for (_bb, data) in body.basic_blocks.iter_enumerated() {
            let mut st = Vec::new();
            if !data.is_cleanup {
                for s in &data.statements {
                    match &s.kind {
                        StatementKind::Assign(b) => {
                            let mut r = self.rvalue(body, &b.1);
                            let o = r.as_object_mut().unwrap();
                            o.insert("d".into(), self.place(body, &b.0));
                            o.insert("s".into(), json!(span(tcx, s.source_info.span)));
                            st.push(r);
                        }
                        StatementKind::SetDiscriminant { place, variant_index } => {
                            let t = place.ty(&body.local_decls, tcx).ty;
                            let n = match t.kind() {
                                ty::Adt(a, _) => a.variant(*variant_index).name.to_string(),
                                _ => String::new(),
                            };
                            st.push(json!({"k": "setdiscr", "d": self.place(body, place), "var": n}));
                        }
                        _ => {}
                    }
                }
            }
            let t = data.terminator();
            let sp = span(tcx, t.source_info.span);
            let tj = if data.is_cleanup {
                json!({"k": "cleanup"})
            } else {
                match &t.kind {
                    TerminatorKind::Goto { target, .. } => json!({"k": "goto", "t": target.as_usize()}),
                    TerminatorKind::SwitchInt { discr, targets } => {
                        let ts: Vec<J> = targets
                            .iter()
                            .map(|(v, b)| json!([v.to_string(), b.as_usize()]))
                            .collect();
                        json!({"k": "switch", "o": self.op(body, discr), "ts": ts, "else": targets.otherwise().as_usize(),
                               "ty": tys(discr.ty(&body.local_decls, tcx)), "s": sp})
                    }
                    TerminatorKind::Return => json!({"k": "return"}),
                    TerminatorKind::Unreachable => json!({"k": "unreachable"}),
                    TerminatorKind::Drop { place, target, .. } => {
                        json!({"k": "drop", "p": self.place(body, place), "t": target.as_usize()})
                    }
                    TerminatorKind::Call { func, args, destination, target, .. } => {
                        let f = self.op(body, func);
                        let a: Vec<J> = args.iter().map(|o| self.op(body, &o.node)).collect();
                        let exp = t.source_info.span.from_expansion();
                        let mac: Vec<String> = t
                            .source_info
                            .span
                            .macro_backtrace()
                            .map(|e| format!("{}", e.kind.descr()))
                            .collect();
                        json!({"k": "call", "f": f, "a": a, "d": self.place(body, destination),
                               "t": target.map(|t| t.as_usize()), "s": sp, "x": exp, "mac": mac})
                    }
                    TerminatorKind::TailCall { .. } => json!({"k": "tailcall"}),
                    TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                        let mk = match &**msg {
                            AssertKind::BoundsCheck { .. } => "bounds".to_string(),
                            AssertKind::Overflow(b, ..) => format!("overflow:{b:?}"),
                            AssertKind::OverflowNeg(_) => "overflow:Neg".to_string(),
                            AssertKind::DivisionByZero(_) => "div0".to_string(),
                            AssertKind::RemainderByZero(_) => "rem0".to_string(),
                            _ => "other".to_string(),
                        };
                        json!({"k": "assert", "o": self.op(body, cond), "e": expected, "msg": mk, "t": target.as_usize(), "s": sp})
                    }
                    TerminatorKind::FalseEdge { real_target, .. } => json!({"k": "goto", "t": real_target.as_usize()}),
                    TerminatorKind::FalseUnwind { real_target, .. } => json!({"k": "goto", "t": real_target.as_usize()}),
                    _ => json!({"k": "cleanup"}),
                }
            };
            blocks.push(json!({"st": st, "t": tj}));
        }
        json!({"argc": body.arg_count, "locals": locals, "blocks": blocks, "upvars": upvars})
    }
}

/// The bytes of a `&[u8; N]` constant (byte strings, format templates).
fn bytes_of<'tcx>(tcx: TyCtxt<'tcx>, v: ConstValue, t: Ty<'tcx>) -> Option<Vec<u8>> {
    let ty::Ref(_, i, _) = t.kind() else { return None };
    let ty::Array(e, n) = i.kind() else { return None };
    if *e != tcx.types.u8 {
        return None;
    }
    let n = n.try_to_target_usize(tcx)? as usize;
    let ConstValue::Scalar(rustc_middle::mir::interpret::Scalar::Ptr(p, _)) = v else { return None };
    let (prov, off) = p.into_raw_parts();
    let a = match tcx.try_get_global_alloc(prov.alloc_id())? {
        rustc_middle::mir::interpret::GlobalAlloc::Memory(a) => a,
        _ => return None,
    };
    let off = off.bytes_usize();
    let a = a.inner();
    if off + n > a.len() {
        return None;
    }
    Some(a.inspect_with_uninit_and_ptr_outside_interpreter(off..off + n).to_vec())
}

fn str_of<'tcx>(tcx: TyCtxt<'tcx>, v: ConstValue, t: Ty<'tcx>) -> Option<String> {
    match t.kind() {
        ty::Ref(_, i, _) if i.is_str() => {
            let b = v.try_get_slice_bytes_for_diagnostics(tcx)?;
            Some(String::from_utf8_lossy(b).into_owned())
        }
        _ => None,
    }
}

fn attrs(tcx: TyCtxt<'_>, d: LocalDefId) -> Vec<String> {
    let id = tcx.local_def_id_to_hir_id(d);
    let mut out = Vec::new();
    for a in tcx.hir_attrs(id) {
        if let rustc_attr_ir::Attribute::DeriveHelper(i) = a {
            if let Ok(s) = tcx.sess.source_map().span_to_snippet(i.span) {
                out.push(s);
            }
        }
    }
    out
}

fn dump(tcx: TyCtxt<'_>, dir: &str) {
    let krate = tcx.crate_name(LOCAL_CRATE).to_string();
    let mut fns = Vec::new();
    for ld in tcx.mir_keys(()).iter() {
        let d = ld.to_def_id();
        let kind = tcx.def_kind(d);
        let k = match kind {
            DefKind::Fn => "fn",
            DefKind::AssocFn => "assoc",
            DefKind::Closure => "closure",
            DefKind::Const { .. } | DefKind::AssocConst { .. } => "const",
            DefKind::Static { .. } => "static",
            _ => continue,
        };
        if tcx.is_coroutine(d) {
            continue;
        }
        let root = tcx.typeck_root_def_id(d);
        let cx = Cx { tcx, env: ty::TypingEnv::post_analysis(tcx, root) };
        let mut o = Map::new();
        o.insert("h".into(), json!(hash(tcx, d)));
        o.insert("path".into(), json!(path(tcx, d)));
        o.insert("kind".into(), json!(k));
        o.insert("name".into(), json!(tcx.opt_item_name(d).map(|s| s.to_string()).unwrap_or_default()));
        o.insert("span".into(), json!(span(tcx, tcx.def_span(d))));
        o.insert("exp".into(), json!(tcx.def_span(d).from_expansion()));
        let mac: Vec<String> = tcx.def_span(d).macro_backtrace().map(|e| format!("{}", e.kind.descr())).collect();
        o.insert("mac".into(), json!(mac));
        o.insert("parent".into(), json!(hash(tcx, tcx.parent(d))));
        if matches!(kind, DefKind::Closure) {
            o.insert("root".into(), json!(hash(tcx, root)));
        }
        if matches!(kind, DefKind::Fn | DefKind::AssocFn) {
            o.insert("pub".into(), json!(tcx.visibility(d).is_public()));
            let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip();
            o.insert("unsafe".into(), json!(!sig.safety().is_safe()));
        }
        if let Some(imp) = tcx.impl_of_assoc(root) {
            let st = tcx.type_of(imp).instantiate_identity().skip_norm_wip();
            o.insert("self".into(), json!(tys(st)));
            if let Some(a) = adt_of(tcx, st) {
                o.insert("self_adt".into(), json!(a));
            }
            if let Some(tr) = tcx.impl_opt_trait_ref(imp) {
                let tr = tr.skip_binder();
                o.insert("trait".into(), json!(path(tcx, tr.def_id)));
                o.insert("trait_ref".into(), json!(tys(tr.print_only_trait_path())));
            }
            o.insert("derived".into(), json!(tcx.is_automatically_derived(imp)));
        } else if let Some(t) = tcx.trait_of_assoc(root) {
            o.insert("in_trait".into(), json!(path(tcx, t)));
        }
        let _ = tcx.mir_drops_elaborated_and_const_checked(*ld);
        let done = STASH.with(|s| {
            let s = s.borrow();
            let Some(e) = s.get(ld) else { return false };
            let e: &Stash<'_> = unsafe { std::mem::transmute::<&Stash<'static>, &Stash<'_>>(e) };
            o.insert("mir".into(), cx.body(&e.0));
            let pr: Vec<J> = e.1.iter().map(|b| cx.body(b)).collect();
            if !pr.is_empty() {
                o.insert("promoted".into(), json!(pr));
            }
            true
        });
        assert!(done, "no MIR for {}", path(tcx, d));
        fns.push(J::Object(o));
    }
    let mut adts = Vec::new();
    let mut impls = Vec::new();
    let mut traits = Vec::new();
    for id in tcx.hir_free_items() {
        let ld = id.owner_id.def_id;
        let d = ld.to_def_id();
        match tcx.def_kind(d) {
            DefKind::Struct | DefKind::Enum | DefKind::Union => {
                let a = tcx.adt_def(d);
                let vars: Vec<J> = a
                    .variants()
                    .iter()
                    .map(|v| {
                        let fs: Vec<J> = v
                            .fields
                            .iter()
                            .map(|f| {
                                let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                                json!({"name": f.name.to_string(), "ty": tys(t), "adt": adt_of(tcx, t),
                                       "pub": f.vis.is_public(), "attrs": attrs(tcx, f.did.expect_local())})
                            })
                            .collect();
                        let at = if a.is_enum() { attrs(tcx, v.def_id.expect_local()) } else { vec![] };
                        json!({"name": v.name.to_string(), "fields": fs, "attrs": at})
                    })
                    .collect();
                adts.push(json!({"path": path(tcx, d), "h": hash(tcx, d), "kind": format!("{:?}", tcx.def_kind(d)), "variants": vars,
                    "attrs": attrs(tcx, ld), "transparent": a.repr().transparent(), "repr_c": a.repr().c(),
                    "span": span(tcx, tcx.def_span(d)), "pub": tcx.visibility(d).is_public()}));
            }
            DefKind::Impl { .. } => {
                let st = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let tr = tcx.impl_opt_trait_ref(d).map(|t| t.skip_binder());
                let items: Vec<J> = tcx
                    .associated_items(d)
                    .in_definition_order()
                    .map(|i| {
                        json!({"name": i.opt_name().map(|s| s.to_string()), "h": hash(tcx, i.def_id)})
                    })
                    .collect();
                impls.push(json!({"self": tys(st), "self_adt": adt_of(tcx, st), "trait": tr.map(|t| path(tcx, t.def_id)),
                    "trait_ref": tr.map(|t| tys(t.print_only_trait_path())), "items": items,
                    "derived": tcx.is_automatically_derived(d), "span": span(tcx, tcx.def_span(d)), "h": hash(tcx, d),
                    "safe": tr.map(|_| tcx.impl_trait_header(d).safety.is_safe())}));
            }
            DefKind::Trait => {
                let items: Vec<J> = tcx
                    .associated_items(d)
                    .in_definition_order()
                    .map(|i| json!({"name": i.opt_name().map(|s| s.to_string()), "h": hash(tcx, i.def_id), "default": i.defaultness(tcx).has_value()}))
                    .collect();
                traits.push(json!({"path": path(tcx, d), "items": items}));
            }
            _ => {}
        }
    }
    let unit = tcx.sess.opts.test;
    let out = json!({"crate": krate, "test": unit, "types": format!("{:?}", tcx.crate_types()), "fns": fns, "adts": adts, "impls": impls, "traits": traits});
    let id = tcx.stable_crate_id(LOCAL_CRATE).as_u64();
    let f = format!("{dir}/{krate}-{id:x}.json");
    let tmp = format!("{f}.tmp");
    std::fs::write(&tmp, serde_json::to_vec(&out).unwrap()).unwrap();
    std::fs::rename(&tmp, &f).unwrap();
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // As a wrapper, argv[1] is the real rustc.
    if args.len() > 1 && std::path::Path::new(&args[1]).file_stem().map_or(false, |s| s == "rustc") {
        args.remove(1);
    }
    struct N;
    impl Callbacks for N {}
    let probe = args.iter().any(|a| a == "-vV" || a == "--version" || a.starts_with("--print"));
    rustc_driver::catch_with_exit_code(|| {
        if probe {
            rustc_driver::compiler_entrypoint(&args, &mut N)
        } else {
            rustc_driver::compiler_entrypoint(&args, &mut Cb)
        }
    })
}
