use crate::json::{arr, esc, obj};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_middle::mir::*;
use rustc_middle::ty::print::{PrintTraitRefExt, with_no_trimmed_paths, with_no_visible_paths, with_resolve_crate_name};
use rustc_middle::ty::{self, GenericArgsRef, Instance, Ty, TyCtxt, TypingEnv};
use rustc_middle::util::Providers;
use rustc_span::Span;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::sync::OnceLock;

thread_local! {
    /// Pre-borrowck bodies of coroutines (async fns), before the state transform.
    static CORO: RefCell<HashMap<LocalDefId, Body<'static>>> = RefCell::new(HashMap::new());
}

static ORIG: OnceLock<Orig> = OnceLock::new();
struct Orig(Providers);
unsafe impl Sync for Orig {}
unsafe impl Send for Orig {}

pub fn install(providers: &mut Providers) {
    let _ = ORIG.set(Orig(*providers));
    providers.queries.mir_promoted = |tcx, def| {
        let r = (ORIG.get().unwrap().0.queries.mir_promoted)(tcx, def);
        if tcx.is_coroutine(def.to_def_id()) {
            let b: Body<'_> = r.0.borrow().clone();
            let b: Body<'static> = unsafe { std::mem::transmute(b) };
            CORO.with(|c| c.borrow_mut().insert(def, b));
        }
        r
    };
}

fn full<R>(f: impl FnOnce() -> R) -> R {
    with_no_trimmed_paths!(with_no_visible_paths!(with_resolve_crate_name!(f())))
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: RefCell<Vec<String>>,
    tyidx: RefCell<HashMap<Ty<'tcx>, usize>>,
    adts: RefCell<BTreeMap<String, String>>,
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        let tcx = self.tcx;
        match tcx.def_kind(d) {
            DefKind::Closure | DefKind::AnonConst => {
                let p = tcx.parent(d);
                return format!("{}::{}", self.path(p), tcx.def_key(d).disambiguated_data.as_sym(true));
            }
            DefKind::AssocFn | DefKind::AssocConst { .. } | DefKind::AssocTy => {
                let p = tcx.parent(d);
                if let DefKind::Impl { of_trait } = tcx.def_kind(p) {
                    let st = tcx.type_of(p).instantiate_identity().skip_norm_wip();
                    let s = self.self_path(st);
                    if of_trait {
                        let tr = tcx.impl_trait_ref(p).instantiate_identity().skip_norm_wip();
                        return format!("<{} as {}>::{}", s, full(|| tr.print_only_trait_path().to_string()), tcx.item_name(d));
                    }
                    return format!("{}::{}", s, tcx.item_name(d));
                }
                return format!("{}::{}", self.path(p), tcx.item_name(d));
            }
            DefKind::Ctor(..) => {
                return self.path(tcx.parent(d));
            }
            _ => {}
        }
        // fn nested in an impl method etc.: build from parents
        if let Some(par) = tcx.opt_parent(d) {
            if matches!(tcx.def_kind(par), DefKind::Fn | DefKind::AssocFn | DefKind::Closure) {
                if let Some(n) = tcx.opt_item_name(d) {
                    return format!("{}::{}", self.path(par), n);
                }
            }
        }
        full(|| tcx.def_path_str(d))
    }

    fn self_path(&self, t: Ty<'tcx>) -> String {
        match t.kind() {
            ty::Adt(a, _) => self.path(a.did()),
            _ => full(|| t.to_string()),
        }
    }

    fn ty(&self, t: Ty<'tcx>) -> String {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(i) = self.tyidx.borrow().get(&t) {
            return i.to_string();
        }
        let i = {
            let mut v = self.types.borrow_mut();
            v.push(String::new());
            v.len() - 1
        };
        self.tyidx.borrow_mut().insert(t, i);
        let s = full(|| t.to_string());
        let mut f = vec![("s", esc(&s))];
        let args = |g: GenericArgsRef<'tcx>| arr(g.types().map(|x| self.ty(x)));
        match t.kind() {
            ty::Adt(a, g) => {
                let p = self.path(a.did());
                f.push(("k", esc("adt")));
                f.push(("p", esc(&p)));
                f.push(("a", args(g)));
                self.adt(*a, &p);
            }
            ty::Ref(_, inner, m) => {
                f.push(("k", esc("ref")));
                f.push(("m", (m.is_mut() as u8).to_string()));
                f.push(("a", arr([self.ty(*inner)])));
            }
            ty::RawPtr(inner, m) => {
                f.push(("k", esc("ptr")));
                f.push(("m", (m.is_mut() as u8).to_string()));
                f.push(("a", arr([self.ty(*inner)])));
            }
            ty::Slice(inner) => {
                f.push(("k", esc("slice")));
                f.push(("a", arr([self.ty(*inner)])));
            }
            ty::Array(inner, n) => {
                f.push(("k", esc("array")));
                f.push(("a", arr([self.ty(*inner)])));
                if let Some(n) = n.try_to_target_usize(self.tcx) {
                    f.push(("n", n.to_string()));
                }
            }
            ty::Tuple(l) => {
                f.push(("k", esc("tuple")));
                f.push(("a", arr(l.iter().map(|x| self.ty(x)))));
            }
            ty::Closure(d, _) | ty::Coroutine(d, _) | ty::CoroutineClosure(d, _) => {
                f.push(("k", esc("closure")));
                f.push(("p", esc(&self.path(*d))));
                if let ty::Closure(_, g) = t.kind() {
                    f.push(("a", arr(g.as_closure().upvar_tys().iter().map(|x| self.ty(x)))));
                }
            }
            ty::FnDef(d, g) => {
                f.push(("k", esc("fndef")));
                f.push(("p", esc(&self.path(*d))));
                f.push(("a", arr(g.no_bound_vars().map(|g| g.types().map(|x| self.ty(x)).collect::<Vec<_>>()).unwrap_or_default())));
            }
            ty::Alias(..) => f.push(("k", esc("alias"))),
            ty::Param(_) => f.push(("k", esc("param"))),
            ty::Dynamic(..) => f.push(("k", esc("dyn"))),
            ty::FnPtr(..) => f.push(("k", esc("fnptr"))),
            ty::Int(_) | ty::Uint(_) => f.push(("k", esc("int"))),
            ty::Float(_) => f.push(("k", esc("float"))),
            ty::Bool => f.push(("k", esc("bool"))),
            ty::Char => f.push(("k", esc("char"))),
            ty::Str => f.push(("k", esc("str"))),
            ty::Never => f.push(("k", esc("never"))),
            _ => f.push(("k", esc("other"))),
        }
        self.types.borrow_mut()[i] = obj(&f);
        i.to_string()
    }

    fn adt(&self, a: ty::AdtDef<'tcx>, p: &str) {
        if self.adts.borrow().contains_key(p) {
            return;
        }
        self.adts.borrow_mut().insert(p.to_string(), String::new());
        let local = a.did().is_local();
        let mut vs = vec![];
        if a.is_enum() || a.is_struct() {
            for (i, v) in a.variants().iter_enumerated() {
                let discr = if a.is_enum() {
                    a.discriminant_for_variant(self.tcx, i).val.to_string()
                } else {
                    "0".to_string()
                };
                let fields = v.fields.iter().map(|fd| {
                    let fty = self.tcx.type_of(fd.did).instantiate_identity().skip_norm_wip();
                    let fs = if local { self.ty(fty) } else { "null".into() };
                    arr([esc(fd.name.as_str()), fs])
                });
                vs.push(obj(&[("name", esc(v.name.as_str())), ("d", discr), ("f", arr(fields))]));
            }
        }
        let has_drop = a.has_dtor(self.tcx);
        let interior = if local { "null".to_string() } else { "null".into() };
        let _ = interior;
        let t = obj(&[
            ("kind", esc(if a.is_enum() { "enum" } else if a.is_struct() { "struct" } else { "union" })),
            ("local", (local as u8).to_string()),
            ("krate", esc(self.tcx.crate_name(a.did().krate).as_str())),
            ("drop", (has_drop as u8).to_string()),
            ("v", arr(vs)),
        ]);
        self.adts.borrow_mut().insert(p.to_string(), t);
    }

    fn span(&self, s: Span) -> String {
        let s = s.source_callsite();
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(s.lo());
        let f = lo.file.name.prefer_local_unconditionally().to_string();
        esc(&format!("{}:{}:{}", f, lo.line, lo.col.0 + 1))
    }

    fn callee(&self, d: DefId, g: GenericArgsRef<'tcx>, env: TypingEnv<'tcx>) -> String {
        let tcx = self.tcx;
        let mut f = vec![
            ("c", esc("fn")),
            ("p", esc(&self.path(d))),
            ("krate", esc(tcx.crate_name(d.krate).as_str())),
            ("a", arr(g.types().map(|x| self.ty(x)))),
        ];
        if let Some(n) = tcx.opt_item_name(d) {
            f.push(("n", esc(n.as_str())));
        }
        let par = tcx.opt_parent(d);
        if let Some(p) = par {
            if tcx.def_kind(p) == DefKind::Trait {
                f.push(("trait", esc(&self.path(p))));
            }
        }
        if matches!(tcx.def_kind(d), DefKind::Ctor(..)) {
            f.push(("ctor", "1".into()));
            let v = tcx.parent(d);
            if tcx.def_kind(v) == DefKind::Variant {
                let adt = tcx.parent(v);
                f.push(("adt", esc(&self.path(adt))));
                let idx = tcx.adt_def(adt).variant_index_with_id(v).as_u32();
                f.push(("vi", idx.to_string()));
                self.adt(tcx.adt_def(adt), &self.path(adt));
            } else {
                f.push(("adt", esc(&self.path(v))));
                f.push(("vi", "0".into()));
                self.adt(tcx.adt_def(v), &self.path(v));
            }
        }
        if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
            let g2 = tcx.erase_and_anonymize_regions(g);
            if let Ok(Some(inst)) = Instance::try_resolve(tcx, env, d, g2) {
                let rd = inst.def_id();
                f.push(("r", esc(&self.path(rd))));
                f.push(("rk", esc(tcx.crate_name(rd.krate).as_str())));
                f.push(("ra", arr(inst.args.types().map(|x| self.ty(x)))));
                let kind = match inst.def {
                    ty::InstanceKind::Item(_) => "item",
                    ty::InstanceKind::Intrinsic(_) => "intrinsic",
                    ty::InstanceKind::Virtual(..) => "virtual",
                    _ => "shim",
                };
                f.push(("ri", esc(kind)));
            }
            let sig = tcx.fn_sig(d);
            if sig.skip_binder().safety().is_unsafe() {
                f.push(("unsafe", "1".into()));
            }
        }
        obj(&f)
    }

    fn cval(&self, v: ConstValue, t: Ty<'tcx>, depth: usize) -> String {
        let tcx = self.tcx;
        let tyi = self.ty(t);
        if depth > 6 {
            return obj(&[("c", esc("opaque")), ("t", tyi)]);
        }
        match t.kind() {
            ty::Int(_) | ty::Uint(_) | ty::Bool | ty::Char | ty::Float(_) => {
                if let Some(s) = v.try_to_scalar_int() {
                    let bits = s.to_bits(s.size());
                    return match t.kind() {
                        ty::Int(_) => {
                            let sz = s.size().bits();
                            let sh = 128 - sz;
                            let x = ((bits << sh) as i128) >> sh;
                            obj(&[("c", esc("int")), ("v", x.to_string()), ("t", tyi)])
                        }
                        ty::Uint(_) => obj(&[("c", esc("int")), ("v", bits.to_string()), ("t", tyi)]),
                        ty::Bool => obj(&[("c", esc("bool")), ("v", bits.to_string()), ("t", tyi)]),
                        ty::Char => obj(&[("c", esc("char")), ("v", bits.to_string()), ("t", tyi)]),
                        _ => {
                            let f = if s.size().bytes() == 8 { f64::from_bits(bits as u64) } else { f32::from_bits(bits as u32) as f64 };
                            obj(&[("c", esc("float")), ("v", esc(&format!("{f:?}"))), ("t", tyi)])
                        }
                    };
                }
                // indirect scalar
                if let ConstValue::Indirect { alloc_id, offset } = v {
                    if let rustc_middle::mir::interpret::GlobalAlloc::Memory(a) = tcx.global_alloc(alloc_id) {
                        let size = match t.kind() {
                            ty::Int(i) => i.normalize(64).bit_width().unwrap_or(64) / 8,
                            ty::Uint(i) => i.normalize(64).bit_width().unwrap_or(64) / 8,
                            ty::Bool => 1,
                            ty::Char => 4,
                            ty::Float(f) => f.bit_width() / 8,
                            _ => 8,
                        } as usize;
                        let lo = offset.bytes() as usize;
                        let bytes = a.inner().inspect_with_uninit_and_ptr_outside_interpreter(lo..lo + size);
                        let mut x: u128 = 0;
                        for (i, b) in bytes.iter().enumerate() {
                            x |= (*b as u128) << (8 * i);
                        }
                        let k = match t.kind() {
                            ty::Bool => "bool",
                            ty::Char => "char",
                            ty::Float(_) => "opaque",
                            _ => "int",
                        };
                        return obj(&[("c", esc(k)), ("v", x.to_string()), ("t", tyi)]);
                    }
                }
            }
            ty::Ref(_, inner, _) => {
                match inner.kind() {
                    ty::Str => {
                        if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                            return obj(&[("c", esc("str")), ("v", esc(&String::from_utf8_lossy(b))), ("t", tyi)]);
                        }
                    }
                    ty::Slice(e) if e.is_numeric_u8() => {
                        if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                            return obj(&[("c", esc("bytes")), ("v", arr(b.iter().map(|x| x.to_string()))), ("t", tyi)]);
                        }
                    }
                    _ => {
                        // pointer to an allocation: look through
                        if let ConstValue::Scalar(rustc_middle::mir::interpret::Scalar::Ptr(p, _)) = v {
                            let (prov, off) = p.prov_and_relative_offset();
                            let aid = prov.alloc_id();
                            if let rustc_middle::mir::interpret::GlobalAlloc::Memory(_) = tcx.global_alloc(aid) {
                                if inner.is_sized(tcx, TypingEnv::fully_monomorphized()) {
                                    let iv = ConstValue::Indirect { alloc_id: aid, offset: off };
                                    let x = self.cval(iv, *inner, depth + 1);
                                    return obj(&[("c", esc("ref")), ("v", x), ("t", tyi)]);
                                }
                            }
                            if let rustc_middle::mir::interpret::GlobalAlloc::Static(d) = tcx.global_alloc(aid) {
                                let m = tcx.is_mutable_static(d) as u8;
                                return obj(&[("c", esc("static")), ("p", esc(&self.path(d))), ("mut", m.to_string()), ("t", tyi)]);
                            }
                        }
                        if let ConstValue::Slice { .. } = v {
                            if let ty::Slice(_) = inner.kind() {
                                return obj(&[("c", esc("slice")), ("t", tyi)]);
                            }
                        }
                    }
                }
            }
            ty::FnDef(d, g) => {
                if let Some(g) = g.no_bound_vars() {
                    return self.callee(*d, g, TypingEnv::fully_monomorphized());
                }
            }
            ty::Tuple(..) | ty::Adt(..) | ty::Array(..) => {
                let ok = match t.kind() {
                    ty::Adt(a, _) => !a.is_union(),
                    _ => true,
                } && t.is_sized(tcx, TypingEnv::fully_monomorphized());
                if ok && !rustc_middle::ty::TypeVisitableExt::has_param(&t) {
                    if let Some(d) = tcx.try_destructure_mir_constant_for_user_output(v, t) {
                        let fs = arr(d.fields.iter().map(|(v, t)| self.cval(*v, *t, depth + 1)));
                        let vi = d.variant.map(|v| v.as_u32().to_string()).unwrap_or("null".into());
                        return obj(&[("c", esc("agg")), ("vi", vi), ("f", fs), ("t", tyi)]);
                    }
                }
            }
            ty::Closure(..) => return obj(&[("c", esc("closure")), ("t", tyi)]),
            _ => {}
        }
        if let ConstValue::ZeroSized = v {
            return obj(&[("c", esc("zst")), ("t", tyi)]);
        }
        obj(&[("c", esc("opaque")), ("t", tyi), ("d", esc(&format!("{v:?}")))])
    }

    fn konst(&self, c: &ConstOperand<'tcx>, env: TypingEnv<'tcx>) -> String {
        let tcx = self.tcx;
        let k = c.const_;
        let t = k.ty();
        if let ty::FnDef(d, g) = t.kind() {
            if let Some(g) = g.no_bound_vars() {
                return self.callee(*d, g, env);
            }
            let g = g.skip_binder();
            return self.callee(*d, g, env);
        }
        if let Some(d) = c.check_static_ptr(tcx) {
            let m = tcx.is_mutable_static(d) as u8;
            return obj(&[("c", esc("static")), ("p", esc(&self.path(d))), ("mut", m.to_string()), ("t", self.ty(t))]);
        }
        match k.eval(tcx, env, c.span) {
            Ok(v) => {
                let mut s = self.cval(v, t, 0);
                if let Const::Unevaluated(u, _) = k {
                    if u.promoted.is_none() {
                        s.pop();
                        s.push_str(&format!(",\"from\":{}}}", esc(&self.path(u.def))));
                    }
                }
                s
            }
            Err(_) => obj(&[("c", esc("opaque")), ("t", self.ty(t)), ("d", esc(&full(|| format!("{k}"))))]),
        }
    }

    fn place(&self, p: &Place<'tcx>) -> String {
        let mut v = vec![p.local.as_u32().to_string()];
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => esc("*"),
                ProjectionElem::Field(f, t) => arr([esc("f"), f.as_u32().to_string(), self.ty(t)]),
                ProjectionElem::Index(l) => arr([esc("i"), l.as_u32().to_string()]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    arr([esc("ci"), offset.to_string(), (from_end as u8).to_string(), min_length.to_string()])
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    arr([esc("ss"), from.to_string(), to.to_string(), (from_end as u8).to_string()])
                }
                ProjectionElem::Downcast(n, v) => {
                    arr([esc("v"), v.as_u32().to_string(), esc(n.map(|s| s.to_string()).unwrap_or_default().as_str())])
                }
                _ => arr([esc("o")]),
            });
        }
        arr(v)
    }

    fn op(&self, o: &Operand<'tcx>, env: TypingEnv<'tcx>) -> String {
        match o {
            Operand::Copy(p) => arr([esc("c"), self.place(p)]),
            Operand::Move(p) => arr([esc("m"), self.place(p)]),
            Operand::Constant(c) => arr([esc("k"), self.konst(c, env)]),
            _ => arr([esc("rc")]),
        }
    }

    fn rvalue(&self, r: &Rvalue<'tcx>, body: &Body<'tcx>, env: TypingEnv<'tcx>) -> String {
        let tcx = self.tcx;
        match r {
            Rvalue::Use(o, ..) => arr([esc("use"), self.op(o, env)]),
            Rvalue::Repeat(o, n) => {
                let n = n.try_to_target_usize(tcx).map(|x| x.to_string()).unwrap_or("null".into());
                arr([esc("repeat"), self.op(o, env), n])
            }
            Rvalue::Ref(_, k, p) => arr([esc("ref"), self.place(p), esc(match k {
                BorrowKind::Mut { .. } => "mut",
                BorrowKind::Fake(_) => "fake",
                _ => "shared",
            })]),
            Rvalue::Reborrow(_, m, p) => arr([esc("ref"), self.place(p), esc(if m.is_mut() { "mut" } else { "shared" })]),
            Rvalue::RawPtr(k, p) => arr([esc("rawptr"), self.place(p), esc(&format!("{k:?}"))]),
            Rvalue::ThreadLocalRef(d) => arr([esc("tls"), esc(&self.path(*d))]),
            Rvalue::Cast(k, o, t) => {
                let from = o.ty(&body.local_decls, tcx);
                let ks = format!("{k:?}");
                let ks = ks.split('(').take(2).collect::<Vec<_>>().join("(");
                arr([esc("cast"), esc(ks.split(',').next().unwrap_or("")), self.op(o, env), self.ty(*t), self.ty(from)])
            }
            Rvalue::BinaryOp(b, ops) => arr([esc("bin"), esc(&format!("{b:?}")), self.op(&ops.0, env), self.op(&ops.1, env)]),
            Rvalue::UnaryOp(u, o) => arr([esc("un"), esc(&format!("{u:?}")), self.op(o, env)]),
            Rvalue::Discriminant(p) => {
                let t = p.ty(&body.local_decls, tcx).ty;
                arr([esc("discr"), self.place(p), self.ty(t)])
            }
            Rvalue::Aggregate(k, ops) => {
                let o = arr(ops.iter().map(|x| self.op(x, env)));
                match &**k {
                    AggregateKind::Array(t) => arr([esc("agg"), obj(&[("k", esc("array")), ("t", self.ty(*t))]), o]),
                    AggregateKind::Tuple => arr([esc("agg"), obj(&[("k", esc("tuple"))]), o]),
                    AggregateKind::Adt(d, v, _, _, _) => {
                        let a = tcx.adt_def(*d);
                        let p = self.path(*d);
                        self.adt(a, &p);
                        arr([esc("agg"), obj(&[("k", esc("adt")), ("p", esc(&p)), ("vi", v.as_u32().to_string()), ("vn", esc(a.variant(*v).name.as_str()))]), o])
                    }
                    AggregateKind::Closure(d, _) | AggregateKind::Coroutine(d, _) | AggregateKind::CoroutineClosure(d, _) => {
                        arr([esc("agg"), obj(&[("k", esc("closure")), ("p", esc(&self.path(*d)))]), o])
                    }
                    AggregateKind::RawPtr(..) => arr([esc("agg"), obj(&[("k", esc("rawptr"))]), o]),
                }
            }
            Rvalue::CopyForDeref(p) => arr([esc("use"), arr([esc("c"), self.place(p)])]),
            _ => arr([esc("other"), esc(&format!("{r:?}"))]),
        }
    }

    fn body(&self, d: LocalDefId, body: &Body<'tcx>, stage: &str) -> String {
        let tcx = self.tcx;
        let did = d.to_def_id();
        let env = TypingEnv::post_analysis(tcx, did);
        let locals = arr(body.local_decls.iter().map(|l| self.ty(l.ty)));
        let names = arr(body.var_debug_info.iter().filter_map(|v| match &v.value {
            VarDebugInfoContents::Place(p) => Some(arr([self.place(p), esc(v.name.as_str())])),
            _ => None,
        }));
        let mut blocks = vec![];
        for (_, b) in body.basic_blocks.iter_enumerated() {
            let mut st = vec![];
            for s in &b.statements {
                match &s.kind {
                    StatementKind::Assign(bx) => {
                        let (p, r) = &**bx;
                        st.push(arr([esc("="), self.place(p), self.rvalue(r, body, env), self.span(s.source_info.span)]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        st.push(arr([esc("sd"), self.place(place), variant_index.as_u32().to_string()]));
                    }
                    StatementKind::StorageDead(l) => st.push(arr([esc("dead"), l.as_u32().to_string()])),
                    StatementKind::Intrinsic(i) => st.push(arr([esc("intr"), esc(&format!("{i:?}"))])),
                    _ => {}
                }
            }
            let t = b.terminator();
            let sp = self.span(t.source_info.span);
            let ts = match &t.kind {
                TerminatorKind::Goto { target, .. } => arr([esc("goto"), target.as_u32().to_string()]),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let dt = discr.ty(&body.local_decls, tcx);
                    arr([
                        esc("switch"),
                        self.op(discr, env),
                        arr(targets.iter().map(|(v, b)| arr([v.to_string(), b.as_u32().to_string()]))),
                        targets.otherwise().as_u32().to_string(),
                        self.ty(dt),
                        sp,
                    ])
                }
                TerminatorKind::Return => arr([esc("return")]),
                TerminatorKind::Unreachable => arr([esc("unreachable")]),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => arr([esc("resume")]),
                TerminatorKind::Drop { place, target, .. } => {
                    let t = place.ty(&body.local_decls, tcx).ty;
                    arr([esc("drop"), self.place(place), target.as_u32().to_string(), self.ty(t), sp])
                }
                TerminatorKind::Call { func, args, destination, target, fn_span, .. } => arr([
                    esc("call"),
                    self.op(func, env),
                    arr(args.iter().map(|a| self.op(&a.node, env))),
                    self.place(destination),
                    target.map(|t| t.as_u32().to_string()).unwrap_or("null".into()),
                    self.span(*fn_span),
                    arr(args.iter().map(|a| self.ty(a.node.ty(&body.local_decls, tcx)))),
                    self.ty(destination.ty(&body.local_decls, tcx).ty),
                ]),
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = match &**msg {
                        AssertKind::BoundsCheck { len, index } => arr([esc("bounds"), self.op(len, env), self.op(index, env)]),
                        AssertKind::Overflow(b, l, r) => arr([esc("overflow"), esc(&format!("{b:?}")), self.op(l, env), self.op(r, env)]),
                        AssertKind::OverflowNeg(o) => arr([esc("overflowneg"), self.op(o, env)]),
                        AssertKind::DivisionByZero(o) => arr([esc("div0"), self.op(o, env)]),
                        AssertKind::RemainderByZero(o) => arr([esc("rem0"), self.op(o, env)]),
                        other => arr([esc("other"), esc(&format!("{other:?}").chars().take(60).collect::<String>())]),
                    };
                    arr([esc("assert"), self.op(cond, env), (*expected as u8).to_string(), m, target.as_u32().to_string(), sp])
                }
                TerminatorKind::FalseEdge { real_target, .. } => arr([esc("goto"), real_target.as_u32().to_string()]),
                TerminatorKind::FalseUnwind { real_target, .. } => arr([esc("goto"), real_target.as_u32().to_string()]),
                TerminatorKind::Yield { value, resume, resume_arg, .. } => {
                    arr([esc("yield"), self.op(value, env), resume.as_u32().to_string(), self.place(resume_arg)])
                }
                TerminatorKind::CoroutineDrop => arr([esc("resume")]),
                other => arr([esc("otherterm"), esc(&format!("{other:?}"))]),
            };
            blocks.push(obj(&[("s", arr(st)), ("t", ts), ("u", (b.is_cleanup as u8).to_string())]));
        }
        let vis = tcx.effective_visibilities(());
        let mut f = vec![
            ("id", esc(&self.path(did))),
            ("kind", esc(&format!("{:?}", tcx.def_kind(did)))),
            ("stage", esc(stage)),
            ("reach", (vis.is_reachable(d) as u8).to_string()),
            ("exported", (vis.is_exported(d) as u8).to_string()),
            ("argc", body.arg_count.to_string()),
            ("locals", locals),
            ("names", names),
            ("span", self.span(tcx.def_span(did))),
            ("blocks", arr(blocks)),
        ];
        if let Some(sp) = body.spread_arg {
            f.push(("spread", sp.as_u32().to_string()));
        }
        let par = tcx.opt_parent(did);
        if let Some(p) = par {
            f.push(("parent", esc(&self.path(p))));
            if let DefKind::Impl { of_trait: true } = tcx.def_kind(p) {
                let tr = tcx.impl_trait_ref(p).instantiate_identity().skip_norm_wip();
                f.push(("impl_trait", esc(&full(|| tr.print_only_trait_path().to_string()))));
                f.push(("derived", (tcx.is_automatically_derived(p) as u8).to_string()));
            }
        }
        if matches!(tcx.def_kind(did), DefKind::Fn | DefKind::AssocFn) {
            let sig = tcx.fn_sig(did);
            f.push(("unsafe", (sig.skip_binder().safety().is_unsafe() as u8).to_string()));
        }
        obj(&f)
    }
}

trait IsU8 {
    fn is_numeric_u8(&self) -> bool;
}
impl<'tcx> IsU8 for Ty<'tcx> {
    fn is_numeric_u8(&self) -> bool {
        matches!(self.kind(), ty::Uint(ty::UintTy::U8))
    }
}

pub fn dump_crate(tcx: TyCtxt<'_>) -> String {
    let cx = Cx {
        tcx,
        types: RefCell::new(vec![]),
        tyidx: RefCell::new(HashMap::new()),
        adts: RefCell::new(BTreeMap::new()),
    };
    let mut bodies = vec![];
    let mut statics = vec![];
    let mut skipped = vec![];
    for &d in tcx.mir_keys(()) {
        let did = d.to_def_id();
        let k = tcx.def_kind(did);
        match k {
            DefKind::Fn | DefKind::AssocFn | DefKind::Closure => {
                if tcx.is_coroutine(did) {
                    let _ = tcx.mir_drops_elaborated_and_const_checked(d);
                    let b = CORO.with(|c| c.borrow().get(&d).cloned());
                    match b {
                        Some(b) => {
                            let b: Body<'_> = unsafe { std::mem::transmute::<Body<'static>, Body<'_>>(b) };
                            bodies.push(cx.body(d, &b, "promoted"));
                        }
                        None => skipped.push(esc(&cx.path(did))),
                    }
                } else {
                    let s = tcx.mir_drops_elaborated_and_const_checked(d);
                    if s.is_stolen() {
                        bodies.push(cx.body(d, tcx.optimized_mir(did), "optimized"));
                    } else {
                        bodies.push(cx.body(d, &s.borrow(), "elaborated"));
                    }
                }
            }
            DefKind::Static { mutability, .. } => {
                statics.push(obj(&[
                    ("p", esc(&cx.path(did))),
                    ("mut", (mutability.is_mut() as u8).to_string()),
                    ("t", cx.ty(tcx.type_of(did).instantiate_identity().skip_norm_wip())),
                    ("span", cx.span(tcx.def_span(did))),
                ]));
            }
            _ => {}
        }
    }
    // crate-level facts
    let types = arr(cx.types.borrow().iter().cloned());
    let adts = {
        let a = cx.adts.borrow();
        let v: Vec<String> = a.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect();
        format!("{{{}}}", v.join(","))
    };
    obj(&[
        ("crate", esc(tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).as_str())),
        ("bodies", arr(bodies)),
        ("statics", arr(statics)),
        ("skipped", arr(skipped)),
        ("types", types),
        ("adts", adts),
    ])
}
