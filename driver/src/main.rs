//! `mirdump`: a rustc driver (RUSTC_WORKSPACE_WRAPPER) that type-checks the crate exactly as cargo would and then
//! writes the type-checked program as JSON: for every function body of the crate, and transitively for every callee
//! that resolves to a body, the *analysis phase* MIR (before drop elaboration and before the coroutine state
//! transform, so `.await` is still a poll loop), instantiated with the generic arguments of its call site and with
//! every callee resolved, every constant evaluated and every type interned.
#![feature(rustc_private)]
#![allow(rustc::internal)]
extern crate rustc_abi;
extern crate rustc_const_eval;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId, LOCAL_CRATE};
use rustc_middle::mir::{self, Body};
use rustc_middle::ty::{self, GenericArgsRef, Instance, InstanceKind, Ty, TyCtxt, TypeVisitableExt, TypingEnv};
use rustc_span::Span;
use std::collections::{HashMap, VecDeque};
use std::fmt::Write as _;
use std::sync::Mutex;

mod json;
use json::J;

type StashMap = HashMap<u32, (usize, usize)>;
static STASH: Mutex<Option<StashMap>> = Mutex::new(None);
static ORIG: Mutex<Option<usize>> = Mutex::new(None);

struct Cb;

fn stash_override<'tcx>(tcx: TyCtxt<'tcx>, def: LocalDefId) -> &'tcx rustc_data_structures::steal::Steal<Body<'tcx>> {
    {
        let (b, p) = tcx.mir_promoted(def);
        let b: Body<'tcx> = b.borrow().clone();
        let p: rustc_index_vec::IndexVecP<'tcx> = p.borrow().clone();
        let bl: &Body<'tcx> = Box::leak(Box::new(b));
        let pl = Box::leak(Box::new(p));
        STASH.lock().unwrap().get_or_insert_with(Default::default).insert(
            def.local_def_index.as_u32(),
            (bl as *const Body<'tcx> as usize, pl as *const _ as usize),
        );
    }
    let f = ORIG.lock().unwrap().unwrap();
    let f: fn(TyCtxt<'tcx>, LocalDefId) -> &'tcx rustc_data_structures::steal::Steal<Body<'tcx>> =
        unsafe { std::mem::transmute(f) };
    f(tcx, def)
}

mod rustc_index_vec {
    extern crate rustc_index;
    pub type IndexVecP<'tcx> =
        rustc_index::IndexVec<rustc_middle::mir::Promoted, rustc_middle::mir::Body<'tcx>>;
}
use rustc_index_vec::IndexVecP;

impl Callbacks for Cb {
    fn config(&mut self, config: &mut rustc_interface::Config) {
        config.override_queries = Some(|_s, p| {
            *ORIG.lock().unwrap() = Some(p.queries.mir_drops_elaborated_and_const_checked as usize);
            p.queries.mir_drops_elaborated_and_const_checked = stash_override;
        });
    }

    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let name = tcx.crate_name(LOCAL_CRATE).to_string();
        if let Ok(out) = std::env::var("MIRDUMP_OUT") {
            if std::env::var("MIRDUMP_CRATE").map(|c| c == name).unwrap_or(true) {
                let j = dump(tcx);
                std::fs::write(&out, j).unwrap();
            }
        }
        Compilation::Continue
    }
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
struct Key<'tcx> {
    def: DefId,
    args: GenericArgsRef<'tcx>,
    promoted: Option<u32>,
    env: Option<DefId>,
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<J>,
    tymap: HashMap<(Ty<'tcx>, Option<DefId>), usize>,
    insts: Vec<Key<'tcx>>,
    instmap: HashMap<Key<'tcx>, usize>,
    queue: VecDeque<usize>,
    max_ext: usize,
}

fn dps(tcx: TyCtxt<'_>, d: DefId) -> String {
    ty::print::with_no_trimmed_paths!(tcx.def_path_str(d))
}

impl<'tcx> Cx<'tcx> {
    fn env_of(&self, e: Option<DefId>) -> TypingEnv<'tcx> {
        match e {
            Some(d) => TypingEnv::post_analysis(self.tcx, d),
            None => TypingEnv::fully_monomorphized(),
        }
    }

    fn ty(&mut self, t: Ty<'tcx>, env: Option<DefId>) -> usize {
        let tcx = self.tcx;
        let t = tcx.erase_and_anonymize_regions(t);
        let env = if t.has_param() { env } else { None };
        if let Some(i) = self.tymap.get(&(t, env)) {
            return *i;
        }
        let id = self.types.len();
        self.types.push(J::Null);
        self.tymap.insert((t, env), id);
        let mut o: Vec<(&'static str, J)> = vec![];
        macro_rules! put { ($k:expr, $v:expr) => { o.push(($k, $v)) }; }
        put!("s", J::S(ty::print::with_no_trimmed_paths!(format!("{t}"))));
        match t.kind() {
            ty::Bool => put!("k", J::s("bool")),
            ty::Char => put!("k", J::s("char")),
            ty::Int(_) | ty::Uint(_) => {
                put!("k", J::s("int"));
                put!("signed", J::B(t.is_signed()));
                let bits = match t.kind() {
                    ty::Int(i) => i.bit_width().unwrap_or(64),
                    ty::Uint(i) => i.bit_width().unwrap_or(64),
                    _ => unreachable!(),
                };
                put!("bits", J::N(bits as i128));
                put!("ptr", J::B(t.is_ptr_sized_integral()));
            }
            ty::Float(_) => put!("k", J::s("float")),
            ty::Str => put!("k", J::s("str")),
            ty::Never => put!("k", J::s("never")),
            ty::Ref(_, x, m) => {
                put!("k", J::s("ref"));
                put!("mut", J::B(m.is_mut()));
                let x = self.ty(*x, env);
                put!("ty", J::N(x as i128));
            }
            ty::RawPtr(x, m) => {
                put!("k", J::s("ptr"));
                put!("mut", J::B(m.is_mut()));
                let x = self.ty(*x, env);
                put!("ty", J::N(x as i128));
            }
            ty::Tuple(ts) => {
                put!("k", J::s("tuple"));
                let v = ts.iter().map(|x| J::N(self.ty(x, env) as i128)).collect();
                put!("tys", J::A(v));
            }
            ty::Array(x, n) => {
                put!("k", J::s("array"));
                let x = self.ty(*x, env);
                put!("ty", J::N(x as i128));
                match n.try_to_target_usize(tcx) {
                    Some(n) => put!("len", J::N(n as i128)),
                    None => put!("len", J::Null),
                }
            }
            ty::Slice(x) => {
                put!("k", J::s("slice"));
                let x = self.ty(*x, env);
                put!("ty", J::N(x as i128));
            }
            ty::Adt(def, args) => {
                put!("k", J::s("adt"));
                put!("name", J::S(dps(tcx, def.did())));
                put!("local", J::B(def.did().is_local()));
                put!("kind", J::s(if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" }));
                let a: Vec<J> = args.types().map(|x| J::N(self.ty(x, env) as i128)).collect();
                put!("args", J::A(a));
                let te = self.env_of(env);
                let mut vs = vec![];
                for (vi, v) in def.variants().iter_enumerated() {
                    let discr = if def.is_enum() { def.discriminant_for_variant(tcx, vi).val as i128 } else { 0 };
                    let mut fs = vec![];
                    for f in v.fields.iter() {
                        let fty = f.ty(tcx, args);
                        let fty = match tcx.try_normalize_erasing_regions(te, fty) {
                            Ok(t) => t,
                            Err(_) => fty.skip_norm_wip(),
                        };
                        let vis = f.vis.is_public();
                        let ft = self.ty(fty, env);
                        fs.push(J::O(vec![("n", J::S(f.name.to_string())), ("t", J::N(ft as i128)), ("pub", J::B(vis))]));
                    }
                    vs.push(J::O(vec![("n", J::S(v.name.to_string())), ("d", J::N(discr)), ("f", J::A(fs))]));
                }
                put!("variants", J::A(vs));
            }
            ty::FnDef(d, args) => {
                put!("k", J::s("fndef"));
                let args = args.no_bound_vars().unwrap_or_else(|| args.skip_binder());
                let c = self.callee(*d, args, env);
                put!("callee", c);
            }
            ty::Closure(d, args) => {
                put!("k", J::s("closure"));
                put!("def", J::S(dps(tcx, *d)));
                let ups: Vec<J> =
                    args.as_closure().upvar_tys().iter().map(|x| J::N(self.ty(x, env) as i128)).collect();
                put!("upvars", J::A(ups));
                let i = self.inst(Key { def: *d, args: tcx.erase_and_anonymize_regions(*args), promoted: None, env });
                put!("inst", i.map(|x| J::N(x as i128)).unwrap_or(J::Null));
            }
            ty::Coroutine(d, args) => {
                put!("k", J::s("coroutine"));
                put!("def", J::S(dps(tcx, *d)));
                let ups: Vec<J> =
                    args.as_coroutine().upvar_tys().iter().map(|x| J::N(self.ty(x, env) as i128)).collect();
                put!("upvars", J::A(ups));
                let r = self.ty(args.as_coroutine().return_ty(), env);
                put!("ret", J::N(r as i128));
                let i = self.inst(Key { def: *d, args: tcx.erase_and_anonymize_regions(*args), promoted: None, env });
                put!("inst", i.map(|x| J::N(x as i128)).unwrap_or(J::Null));
            }
            ty::Param(p) => {
                put!("k", J::s("param"));
                put!("name", J::S(p.name.to_string()));
            }
            ty::Alias(..) => put!("k", J::s("alias")),
            ty::Dynamic(..) => put!("k", J::s("dyn")),
            ty::FnPtr(..) => put!("k", J::s("fnptr")),
            _ => put!("k", J::s("other")),
        }
        self.types[id] = J::O(o);
        id
    }

    /// Registers an instance; returns None when it has no MIR we may look at.
    fn inst(&mut self, mut k: Key<'tcx>) -> Option<usize> {
        if !k.args.has_param() {
            k.env = None;
        }
        if let Some(i) = self.instmap.get(&k) {
            return Some(*i);
        }
        if !self.has_mir(&k) {
            return None;
        }
        if k.args.iter().any(|a| format!("{a:?}").len() > 6000) {
            return None;
        }
        let i = self.insts.len();
        self.insts.push(k.clone());
        self.instmap.insert(k, i);
        self.queue.push_back(i);
        Some(i)
    }

    fn has_mir(&self, k: &Key<'tcx>) -> bool {
        let tcx = self.tcx;
        if k.def.is_local() {
            return STASH.lock().unwrap().as_ref().unwrap().contains_key(&k.def.expect_local().local_def_index.as_u32());
        }
        let kind = tcx.def_kind(k.def);
        if !matches!(kind, DefKind::Fn | DefKind::AssocFn | DefKind::Closure | DefKind::Ctor(..)) {
            return false;
        }
        if matches!(kind, DefKind::Ctor(..)) {
            return false;
        }
        if tcx.intrinsic(k.def).is_some() {
            return false;
        }
        let kr = tcx.crate_name(k.def.krate).to_string();
        if !matches!(
            kr.as_str(),
            "core" | "alloc" | "std" | "futures_lite" | "futures_core" | "futures_io" | "tokio_util"
        ) {
            return false;
        }
        let p = dps(tcx, k.def);
        for bad in [
            "core::fmt", "std::fmt", "alloc::fmt", "std::panicking", "core::panicking", "std::rt", "std::io::error", "std::sync",
            "std::alloc", "alloc::alloc", "std::ptr", "core::ptr", "std::backtrace", "core::str::pattern", "std::thread", "std::fs",
            "std::intrinsics", "std::hint", "std::simd", "core::core_simd", "std::hash", "std::time", "std::env", "std::path",
        ] {
            if p.starts_with(bad) || p.starts_with(&format!("<{bad}")) {
                return false;
            }
        }
        if !tcx.is_mir_available(k.def) {
            return false;
        }
        true
    }

    fn callee(&mut self, d: DefId, args: GenericArgsRef<'tcx>, env: Option<DefId>) -> J {
        let tcx = self.tcx;
        let te = self.env_of(env);
        let mut o: Vec<(&'static str, J)> = vec![];
        o.push(("path", J::S(dps(tcx, d))));
        o.push(("name", J::S(tcx.opt_item_name(d).map(|s| s.to_string()).unwrap_or_default())));
        o.push(("krate", J::S(tcx.crate_name(d.krate).to_string())));
        let a: Vec<J> = args.types().map(|x| J::N(self.ty(x, env) as i128)).collect();
        o.push(("args", J::A(a)));
        if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) && !tcx.fn_sig(d).skip_binder().safety().is_safe() {
            o.push(("unsafe", J::B(true)));
        }
        let tr = tcx.trait_of_assoc(d);
        if let Some(t) = tr {
            o.push(("trait", J::S(dps(tcx, t))));
        }
        if matches!(tcx.def_kind(d), DefKind::Ctor(..)) {
            // a tuple struct / variant constructor used as a function
            let parent = tcx.parent(d);
            let (adt, v) = if matches!(tcx.def_kind(parent), DefKind::Variant) {
                let adt = tcx.parent(parent);
                (adt, tcx.adt_def(adt).variant_index_with_id(parent).as_u32())
            } else {
                (parent, 0)
            };
            o.push(("ctor", J::A(vec![J::S(dps(tcx, adt)), J::N(v as i128)])));
            return J::O(o);
        }
        if let Some(i) = tcx.intrinsic(d) {
            o.push(("intrinsic", J::S(i.name.to_string())));
            return J::O(o);
        }
        if !matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
            return J::O(o);
        }
        let args = tcx.erase_and_anonymize_regions(args);
        let r = Instance::try_resolve(tcx, te, d, args);
        if let Ok(Some(inst)) = r {
            let (rd, mut rargs) = (inst.def_id(), inst.args);
            match inst.def {
                InstanceKind::Item(_) => {
                    let mut rd = rd;
                    // An iterator type's own override of a provided `Iterator` method computes the same thing as the
                    // provided method; the latter is the one written in terms of `next`.
                    if let Some(t) = tr {
                        let tn = dps(tcx, t);
                        let nm = tcx.item_name(d).to_string();
                        if !rd.is_local()
                            && (tn.ends_with("::Iterator") || tn.ends_with("::DoubleEndedIterator"))
                            && !matches!(nm.as_str(), "next" | "next_back" | "size_hint")
                            && tcx.defaultness(d).has_value()
                            && rd != d
                        {
                            rd = d;
                            rargs = args;
                        }
                    }
                    o.push(("rpath", J::S(dps(tcx, rd))));
                    o.push(("rkrate", J::S(tcx.crate_name(rd.krate).to_string())));
                    o.push(("rlocal", J::B(rd.is_local())));
                    let ra: Vec<J> = rargs.types().map(|x| J::N(self.ty(x, env) as i128)).collect();
                    o.push(("rargs", J::A(ra)));
                    if let Some(i) = self.inst(Key { def: rd, args: tcx.erase_and_anonymize_regions(rargs), promoted: None, env }) {
                        o.push(("inst", J::N(i as i128)));
                    }
                }
                InstanceKind::Virtual(..) => o.push(("virtual", J::B(true))),
                _ => {
                    o.push(("shim", J::S(format!("{:?}", inst.def).split('(').next().unwrap_or("").to_string())));
                }
            }
        }
        J::O(o)
    }

    fn span(&self, s: Span) -> J {
        let s = s.source_callsite();
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(s.lo());
        let f = lo.file.name.prefer_local_unconditionally().to_string();
        J::S(format!("{}:{}", f, lo.line))
    }

    fn place(&mut self, p: &mir::Place<'tcx>, env: Option<DefId>) -> J {
        let mut v = vec![J::N(p.local.as_u32() as i128)];
        for e in p.projection.iter() {
            use mir::ProjectionElem::*;
            v.push(match e {
                Deref => J::s("*"),
                Field(i, t) => {
                    let t = self.ty(t, env);
                    J::A(vec![J::s("f"), J::N(i.as_u32() as i128), J::N(t as i128)])
                }
                Index(l) => J::A(vec![J::s("i"), J::N(l.as_u32() as i128)]),
                ConstantIndex { offset, min_length, from_end } => {
                    J::A(vec![J::s("ci"), J::N(offset as i128), J::N(min_length as i128), J::B(from_end)])
                }
                Subslice { from, to, from_end } => {
                    J::A(vec![J::s("ss"), J::N(from as i128), J::N(to as i128), J::B(from_end)])
                }
                Downcast(_, v) => J::A(vec![J::s("d"), J::N(v.as_u32() as i128)]),
                OpaqueCast(_) | UnwrapUnsafeBinder(_) => J::s("nop"),
                PhantomDeref => J::s("nop"),
            });
        }
        J::A(v)
    }

    fn constant(&mut self, c: &mir::ConstOperand<'tcx>, env: Option<DefId>) -> J {
        let tcx = self.tcx;
        let te = self.env_of(env);
        let cty = c.const_.ty();
        let tyi = self.ty(cty, env);
        let mut o = vec![("ty", J::N(tyi as i128))];
        if let ty::FnDef(d, args) = cty.kind() {
            let args = args.no_bound_vars().unwrap_or_else(|| args.skip_binder());
            let cal = self.callee(*d, args, env);
            o.push(("fn", cal));
            return J::O(o);
        }
        if let mir::Const::Unevaluated(u, _) = c.const_ {
            if let Some(p) = u.promoted {
                if let Some(i) = self.inst(Key {
                    def: u.def,
                    args: tcx.erase_and_anonymize_regions(u.args),
                    promoted: Some(p.as_u32()),
                    env,
                }) {
                    o.push(("promoted", J::N(i as i128)));
                    return J::O(o);
                }
            } else {
                o.push(("path", J::S(dps(tcx, u.def))));
            }
        }
        if c.const_.has_param() || cty.has_param() {
            if let mir::Const::Ty(_, _) = c.const_ {
                o.push(("v", J::O(vec![("k", J::s("opaque")), ("s", J::S(format!("{}", c.const_)))])));
                return J::O(o);
            }
        }
        match c.const_.eval(tcx, te, c.span) {
            Ok(v) => {
                let jv = match rustc_const_eval::const_eval::mk_eval_cx_for_const_val(tcx.at(c.span), te, v, cty) {
                    Some((ecx, op)) => self.cval(&ecx, &op, env, 0),
                    None => J::O(vec![("k", J::s("opaque"))]),
                };
                o.push(("v", jv));
            }
            Err(_) => o.push(("v", J::O(vec![("k", J::s("opaque")), ("s", J::S(format!("{}", c.const_)))]))),
        }
        J::O(o)
    }

    fn cval(
        &mut self,
        ecx: &rustc_const_eval::const_eval::CompileTimeInterpCx<'tcx>,
        op: &rustc_const_eval::interpret::OpTy<'tcx>,
        env: Option<DefId>,
        depth: usize,
    ) -> J {
        let opaque = J::O(vec![("k", J::s("opaque"))]);
        if depth > 12 {
            return opaque;
        }
        let t = op.layout.ty;
        let tyi = self.ty(t, env);
        let tj = ("ty", J::N(tyi as i128));
        match t.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) => {
                match ecx.read_scalar(op).discard_err().and_then(|s| s.try_to_scalar_int().ok()) {
                    Some(s) => {
                        let v = if t.is_signed() { s.to_int(s.size()) } else { s.to_uint(s.size()) as i128 };
                        J::O(vec![("k", J::s("int")), ("v", J::N(v)), tj])
                    }
                    None => opaque,
                }
            }
            ty::Tuple(ts) => {
                let mut v = vec![];
                for i in 0..ts.len() {
                    match ecx.project_field(op, rustc_abi::FieldIdx::from_usize(i)).discard_err() {
                        Some(f) => v.push(self.cval(ecx, &f, env, depth + 1)),
                        None => return opaque,
                    }
                }
                J::O(vec![("k", J::s("agg")), ("variant", J::N(0)), ("f", J::A(v)), tj])
            }
            ty::Adt(def, _) if !def.is_union() => {
                let (vi, base) = if def.is_enum() {
                    let Some(vi) = ecx.read_discriminant(op).discard_err() else { return opaque };
                    let Some(b) = ecx.project_downcast(op, vi).discard_err() else { return opaque };
                    (vi, b)
                } else {
                    (rustc_abi::FIRST_VARIANT, op.clone())
                };
                let n = def.variant(vi).fields.len();
                let mut v = vec![];
                for i in 0..n {
                    match ecx.project_field(&base, rustc_abi::FieldIdx::from_usize(i)).discard_err() {
                        Some(f) => v.push(self.cval(ecx, &f, env, depth + 1)),
                        None => return opaque,
                    }
                }
                J::O(vec![("k", J::s("agg")), ("variant", J::N(vi.as_u32() as i128)), ("f", J::A(v)), tj])
            }
            ty::Array(..) => {
                let mut v = vec![];
                let Some(mut it) = ecx.project_array_fields(op).discard_err() else { return opaque };
                loop {
                    match it.next(ecx).discard_err() {
                        Some(Some((_, f))) => v.push(self.cval(ecx, &f, env, depth + 1)),
                        Some(None) => break,
                        None => return opaque,
                    }
                    if v.len() > 70000 {
                        return opaque;
                    }
                }
                J::O(vec![("k", J::s("array")), ("f", J::A(v)), tj])
            }
            ty::Ref(_, inner, _) => match inner.kind() {
                ty::Str => {
                    let Some(mp) = ecx.deref_pointer(op).discard_err() else { return opaque };
                    match ecx.read_str(&mp).discard_err() {
                        Some(s) => J::O(vec![("k", J::s("str")), ("v", J::S(s.to_string())), tj]),
                        None => opaque,
                    }
                }
                ty::Slice(_) => {
                    let Some(mp) = ecx.deref_pointer(op).discard_err() else { return opaque };
                    let Some(mut it) = ecx.project_array_fields(&mp).discard_err() else { return opaque };
                    let mut v = vec![];
                    loop {
                        match it.next(ecx).discard_err() {
                            Some(Some((_, f))) => {
                                let f = rustc_const_eval::interpret::OpTy::from(f);
                                v.push(self.cval(ecx, &f, env, depth + 1))
                            }
                            Some(None) => break,
                            None => return opaque,
                        }
                    }
                    J::O(vec![("k", J::s("slice")), ("f", J::A(v)), tj])
                }
                ty::Dynamic(..) => opaque,
                _ => {
                    let Some(mp) = ecx.deref_pointer(op).discard_err() else { return opaque };
                    let f = rustc_const_eval::interpret::OpTy::from(mp);
                    let v = self.cval(ecx, &f, env, depth + 1);
                    J::O(vec![("k", J::s("refto")), ("v", v), tj])
                }
            },
            _ if op.layout.is_zst() => J::O(vec![("k", J::s("zst")), tj]),
            _ => opaque,
        }
    }

    fn operand(&mut self, op: &mir::Operand<'tcx>, env: Option<DefId>) -> J {
        match op {
            mir::Operand::Copy(p) => J::A(vec![J::s("cp"), self.place(p, env)]),
            mir::Operand::Move(p) => J::A(vec![J::s("mv"), self.place(p, env)]),
            mir::Operand::Constant(c) => J::A(vec![J::s("c"), self.constant(c, env)]),
            mir::Operand::RuntimeChecks(c) => J::A(vec![J::s("rc"), J::S(format!("{c:?}"))]),
        }
    }

    fn rvalue(&mut self, rv: &mir::Rvalue<'tcx>, env: Option<DefId>) -> J {
        use mir::Rvalue::*;
        match rv {
            Use(o, _) => J::A(vec![J::s("use"), self.operand(o, env)]),
            Repeat(o, n) => {
                let n = n.try_to_target_usize(self.tcx).map(|x| J::N(x as i128)).unwrap_or(J::Null);
                J::A(vec![J::s("repeat"), self.operand(o, env), n])
            }
            Ref(_, bk, p) => {
                let m = matches!(bk, mir::BorrowKind::Mut { .. });
                J::A(vec![J::s("ref"), J::B(m), self.place(p, env)])
            }
            Reborrow(_, m, p) => {
                let mut pj = self.place(p, env);
                if let J::A(v) = &mut pj {
                    v.push(J::s("*"));
                }
                J::A(vec![J::s("ref"), J::B(m.is_mut()), pj])
            }
            RawPtr(_, p) => J::A(vec![J::s("ref"), J::B(true), self.place(p, env)]),
            ThreadLocalRef(_) => J::A(vec![J::s("opaque"), J::s("tls")]),
            Cast(k, o, t) => {
                let ks = format!("{k:?}");
                let t = self.ty(*t, env);
                J::A(vec![J::s("cast"), J::S(ks), self.operand(o, env), J::N(t as i128)])
            }
            BinaryOp(b, ops) => {
                let l = self.operand(&ops.0, env);
                let r = self.operand(&ops.1, env);
                J::A(vec![J::s("bin"), J::S(format!("{b:?}")), l, r])
            }
            UnaryOp(u, o) => J::A(vec![J::s("un"), J::S(format!("{u:?}")), self.operand(o, env)]),
            Discriminant(p) => J::A(vec![J::s("discr"), self.place(p, env)]),
            CopyForDeref(p) => {
                let p = self.place(p, env);
                J::A(vec![J::s("use"), J::A(vec![J::s("cp"), p])])
            }
            WrapUnsafeBinder(o, _) => J::A(vec![J::s("use"), self.operand(o, env)]),
            Aggregate(k, fs) => {
                let f: Vec<J> = fs.iter().map(|o| self.operand(o, env)).collect();
                use mir::AggregateKind as AK;
                let (kk, extra) = match &**k {
                    AK::Array(t) => ("array", J::N(self.ty(*t, env) as i128)),
                    AK::Tuple => ("tuple", J::Null),
                    AK::Adt(d, v, args, _, fi) => {
                        let t = Ty::new_adt(self.tcx, self.tcx.adt_def(*d), args);
                        let t = self.ty(t, env);
                        (
                            "adt",
                            J::A(vec![
                                J::N(t as i128),
                                J::N(v.as_u32() as i128),
                                fi.map(|x| J::N(x.as_u32() as i128)).unwrap_or(J::Null),
                            ]),
                        )
                    }
                    AK::Closure(d, args) => {
                        let t = self.ty(Ty::new_closure(self.tcx, *d, args), env);
                        ("closure", J::N(t as i128))
                    }
                    AK::Coroutine(d, args) => {
                        let t = self.ty(Ty::new_coroutine(self.tcx, *d, args), env);
                        ("coroutine", J::N(t as i128))
                    }
                    AK::CoroutineClosure(..) => ("other", J::Null),
                    AK::RawPtr(..) => ("rawptr", J::Null),
                };
                J::A(vec![J::s("agg"), J::s(kk), extra, J::A(f)])
            }
        }
    }

    fn body(&mut self, i: usize) -> J {
        let tcx = self.tcx;
        let k = self.insts[i].clone();
        let env = k.env;
        let te = self.env_of(env);
        let stashed = k.def.as_local().and_then(|l| {
            STASH.lock().unwrap().as_ref().unwrap().get(&l.local_def_index.as_u32()).copied()
        });
        let base: Body<'tcx> = match (stashed, k.promoted) {
            (Some((b, _)), None) => unsafe { (*(b as *const Body<'tcx>)).clone() },
            (Some((_, p)), Some(n)) => unsafe {
                (&*(p as *const IndexVecP<'tcx>))[mir::Promoted::from_u32(n)].clone()
            },
            (None, None) => tcx.instance_mir(InstanceKind::Item(k.def)).clone(),
            (None, Some(n)) => tcx.promoted_mir(k.def)[mir::Promoted::from_u32(n)].clone(),
        };
        let mut o: Vec<(&'static str, J)> = vec![];
        o.push(("id", J::N(i as i128)));
        o.push(("name", J::S(dps(tcx, k.def))));
        o.push(("krate", J::S(tcx.crate_name(k.def.krate).to_string())));
        o.push(("local", J::B(k.def.is_local())));
        if let Some(p) = k.promoted {
            o.push(("promoted", J::N(p as i128)));
        }
        let tys: Vec<J> = k.args.types().map(|x| J::N(self.ty(x, env) as i128)).collect();
        o.push(("targs", J::A(tys)));
        let ident = tcx.erase_and_anonymize_regions(ty::GenericArgs::identity_for_item(tcx, k.def)) == k.args;
        o.push(("root", J::B(ident && k.promoted.is_none())));
        if k.def.is_local() {
            let kind = tcx.def_kind(k.def);
            o.push(("dk", J::S(format!("{kind:?}"))));
            if matches!(kind, DefKind::Fn | DefKind::AssocFn) {
                o.push(("vis", J::B(tcx.visibility(k.def).is_public())));
                o.push(("reach", J::B(tcx.effective_visibilities(()).is_reachable(k.def.expect_local()))));
                o.push(("async", J::B(tcx.asyncness(k.def).is_async())));
                o.push(("unsafe", J::B(!tcx.fn_sig(k.def).skip_binder().safety().is_safe())));
                if let Some(im) = tcx.impl_of_assoc(k.def) {
                    let st = tcx.type_of(im).skip_binder();
                    let st = self.ty(st, Some(k.def));
                    o.push(("impl_self", J::N(st as i128)));
                    if let Some(t) = tcx.impl_opt_trait_id(im) {
                        o.push(("impl_trait", J::S(dps(tcx, t))));
                    }
                }
                if let Some(n) = tcx.opt_item_name(k.def) {
                    o.push(("fn_name", J::S(n.to_string())));
                }
            }
        }
        let inst = Instance { def: InstanceKind::Item(k.def), args: k.args };
        let body = match inst.try_instantiate_mir_and_normalize_erasing_regions(
            tcx,
            te,
            ty::EarlyBinder::bind(tcx, base),
        ) {
            Ok(b) => b,
            Err(_) => {
                o.push(("failed", J::B(true)));
                return J::O(o);
            }
        };
        o.push(("span", self.span(body.span)));
        o.push(("exp", J::B(body.span.from_expansion())));
        o.push(("nblocks", J::N(body.basic_blocks.len() as i128)));
        if !k.def.is_local() && body.basic_blocks.len() > self.max_ext {
            o.push(("failed", J::B(true)));
            return J::O(o);
        }
        o.push(("args", J::N(body.arg_count as i128)));
        if let Some(sp) = body.spread_arg {
            o.push(("spread", J::N(sp.as_u32() as i128)));
        }
        let locals: Vec<J> = body.local_decls.iter().map(|l| J::N(self.ty(l.ty, env) as i128)).collect();
        o.push(("locals", J::A(locals)));
        let mut names = vec![];
        for d in body.var_debug_info.iter() {
            if let mir::VarDebugInfoContents::Place(p) = d.value {
                if p.projection.is_empty() {
                    names.push(J::A(vec![J::N(p.local.as_u32() as i128), J::S(d.name.to_string())]));
                }
            }
        }
        o.push(("names", J::A(names)));
        let mut blocks = vec![];
        for bb in body.basic_blocks.iter() {
            let mut b: Vec<(&'static str, J)> = vec![];
            if bb.is_cleanup {
                blocks.push(J::Null);
                continue;
            }
            let mut ss = vec![];
            for s in &bb.statements {
                use mir::StatementKind as SK;
                let sj = match &s.kind {
                    SK::Assign(a) => {
                        let p = self.place(&a.0, env);
                        let r = self.rvalue(&a.1, env);
                        J::A(vec![J::s("="), p, r, self.span(s.source_info.span)])
                    }
                    SK::SetDiscriminant { place, variant_index } => J::A(vec![
                        J::s("setd"),
                        self.place(place, env),
                        J::N(variant_index.as_u32() as i128),
                    ]),
                    SK::Intrinsic(i) => match &**i {
                        mir::NonDivergingIntrinsic::Assume(op) => {
                            J::A(vec![J::s("assume"), self.operand(op, env)])
                        }
                        _ => J::A(vec![J::s("copynon")]),
                    },
                    _ => continue,
                };
                ss.push(sj);
            }
            b.push(("s", J::A(ss)));
            let t = bb.terminator();
            use mir::TerminatorKind as TK;
            let n = |x: mir::BasicBlock| J::N(x.as_u32() as i128);
            let tj = match &t.kind {
                TK::Goto { target, .. } => J::A(vec![J::s("goto"), n(*target)]),
                TK::SwitchInt { discr, targets } => {
                    let dty = discr.ty(&body.local_decls, tcx);
                    let dt = self.ty(dty, env);
                    let vs: Vec<J> = targets
                        .iter()
                        .map(|(v, t)| {
                            let v = if dty.is_signed() {
                                let sz = rustc_abi::Size::from_bits(match dty.kind() {
                                    ty::Int(i) => i.bit_width().unwrap_or(64),
                                    _ => 64,
                                });
                                sz.sign_extend(v)
                            } else {
                                v as i128
                            };
                            J::A(vec![J::N(v), n(t)])
                        })
                        .collect();
                    J::A(vec![
                        J::s("switch"),
                        self.operand(discr, env),
                        J::A(vs),
                        n(targets.otherwise()),
                        J::N(dt as i128),
                    ])
                }
                TK::Return => J::A(vec![J::s("ret")]),
                TK::Unreachable => J::A(vec![J::s("unreachable")]),
                TK::UnwindResume | TK::UnwindTerminate(_) | TK::CoroutineDrop => J::A(vec![J::s("stop")]),
                TK::Drop { place, target, .. } => {
                    let pt = place.ty(&body.local_decls, tcx).ty;
                    let pt = self.ty(pt, env);
                    J::A(vec![J::s("drop"), self.place(place, env), n(*target), J::N(pt as i128)])
                }
                TK::Call { func, args, destination, target, fn_span, .. } => {
                    let f = self.operand(func, env);
                    let a: Vec<J> = args.iter().map(|x| self.operand(&x.node, env)).collect();
                    let dt = destination.ty(&body.local_decls, tcx).ty;
                    let dt = self.ty(dt, env);
                    let _ = fn_span;
                    J::A(vec![
                        J::s("call"),
                        f,
                        J::A(a),
                        self.place(destination, env),
                        target.map(n).unwrap_or(J::Null),
                        J::N(dt as i128),
                    ])
                }
                TK::TailCall { .. } => J::A(vec![J::s("stop")]),
                TK::Assert { cond, expected, msg, target, .. } => {
                    use mir::AssertKind as AK;
                    let (m, ops): (String, Vec<J>) = match &**msg {
                        AK::BoundsCheck { len, index } => {
                            ("bounds".into(), vec![self.operand(len, env), self.operand(index, env)])
                        }
                        AK::Overflow(op, a, b) => {
                            (format!("overflow:{op:?}"), vec![self.operand(a, env), self.operand(b, env)])
                        }
                        AK::OverflowNeg(a) => ("overflowneg".into(), vec![self.operand(a, env)]),
                        AK::DivisionByZero(a) => ("divzero".into(), vec![self.operand(a, env)]),
                        AK::RemainderByZero(a) => ("remzero".into(), vec![self.operand(a, env)]),
                        _ => ("other".into(), vec![]),
                    };
                    J::A(vec![
                        J::s("assert"),
                        self.operand(cond, env),
                        J::B(*expected),
                        J::S(m),
                        J::A(ops),
                        n(*target),
                    ])
                }
                TK::Yield { value, resume, resume_arg, .. } => J::A(vec![
                    J::s("yield"),
                    self.operand(value, env),
                    n(*resume),
                    self.place(resume_arg, env),
                ]),
                TK::FalseEdge { real_target, .. } => J::A(vec![J::s("goto"), n(*real_target)]),
                TK::FalseUnwind { real_target, .. } => J::A(vec![J::s("goto"), n(*real_target)]),
                TK::InlineAsm { .. } => J::A(vec![J::s("stop")]),
            };
            b.push(("t", tj));
            b.push(("sp", self.span(t.source_info.span)));
            blocks.push(J::O(b));
        }
        o.push(("blocks", J::A(blocks)));
        J::O(o)
    }
}

fn dump(tcx: TyCtxt<'_>) -> String {
    // make sure every body of the crate was built (and hence stashed)
    for d in tcx.hir_body_owners() {
        if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn | DefKind::Closure | DefKind::SyntheticCoroutineBody) {
            let _ = tcx.mir_drops_elaborated_and_const_checked(d);
        }
    }
    let mut cx = Cx {
        tcx,
        types: vec![],
        tymap: HashMap::new(),
        insts: vec![],
        instmap: HashMap::new(),
        queue: VecDeque::new(),
        max_ext: std::env::var("MIRDUMP_MAXEXT").ok().and_then(|x| x.parse().ok()).unwrap_or(60),
    };
    let mut unstashed = vec![];
    for d in tcx.hir_body_owners() {
        if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn | DefKind::Closure | DefKind::SyntheticCoroutineBody) {
            let def = d.to_def_id();
            let args = tcx.erase_and_anonymize_regions(ty::GenericArgs::identity_for_item(tcx, def));
            let root_env = tcx.typeck_root_def_id(def);
            if cx.inst(Key { def, args, promoted: None, env: Some(root_env) }).is_none() {
                unstashed.push(J::S(dps(tcx, def)));
            }
        }
    }
    let mut out = String::new();
    out.push_str("{\"instances\":[\n");
    let mut first = true;
    let mut bodies: Vec<(usize, J)> = vec![];
    while let Some(i) = cx.queue.pop_front() {
        let j = cx.body(i);
        bodies.push((i, j));
        if bodies.len() > 30000 {
            break;
        }
    }
    bodies.sort_by_key(|x| x.0);
    for (_, j) in &bodies {
        if !first {
            out.push_str(",\n");
        }
        first = false;
        j.write(&mut out);
    }
    out.push_str("\n],\"types\":[\n");
    for (i, t) in cx.types.iter().enumerate() {
        if i > 0 {
            out.push_str(",\n");
        }
        t.write(&mut out);
    }
    out.push_str("\n],\"unstashed\":");
    J::A(unstashed).write(&mut out);
    // statics of the crate
    let mut statics = vec![];
    for d in tcx.hir_body_owners() {
        let def = d.to_def_id();
        if let DefKind::Static { mutability, .. } = tcx.def_kind(d) {
            let t = tcx.type_of(def).instantiate_identity().skip_norm_wip();
            let freeze = t.is_freeze(tcx, ty::TypingEnv::post_analysis(tcx, def));
            statics.push(J::O(vec![
                ("name", J::S(dps(tcx, def))),
                ("ty", J::S(format!("{t}"))),
                ("mut", J::B(mutability.is_mut())),
                ("freeze", J::B(freeze)),
            ]));
        }
    }
    out.push_str(",\"statics\":");
    J::A(statics).write(&mut out);
    let _ = write!(out, ",\"crate\":\"{}\"", tcx.crate_name(LOCAL_CRATE));
    out.push_str("}\n");
    out
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the path of rustc
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    if let Ok(s) = std::env::var("MIRDUMP_SYSROOT") {
        if !args.iter().any(|a| a.starts_with("--sysroot")) {
            args.push(format!("--sysroot={s}"));
        }
    }
    rustc_driver::compiler_entrypoint(&args, &mut Cb);
}
