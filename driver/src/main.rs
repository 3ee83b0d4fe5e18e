//! Dumps the (borrow-checker level) MIR of the local crate, monomorphised from every root, with
//! resolved callees, as JSON. Used as RUSTC_WORKSPACE_WRAPPER.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_index;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::Compilation;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_middle::mir::{self, interpret::GlobalAlloc, *};
use rustc_middle::ty::{
    self, print::with_no_trimmed_paths, EarlyBinder, GenericArgsRef, Instance, InstanceKind, ShimKind, Ty,
    TyCtxt, TypeVisitableExt, TypingEnv,
};
use std::collections::{HashMap, HashSet, VecDeque};
use std::fmt::Write as _;

mod json;
use json::J;

struct Cb;
impl rustc_driver::Callbacks for Cb {
    fn after_expansion<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> Compilation {
        if let Ok(dir) = std::env::var("MIRDUMP_OUT") {
            dump(tcx, &dir);
        }
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    let code = rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Cb));
    std::process::exit(if code == std::process::ExitCode::SUCCESS { 0 } else { 1 });
}

struct D<'tcx> {
    tcx: TyCtxt<'tcx>,
    bodies: HashMap<LocalDefId, (mir::Body<'tcx>, rustc_index::IndexVec<Promoted, mir::Body<'tcx>>)>,
    types: HashMap<Ty<'tcx>, usize>,
    tyout: Vec<J>,
    queue: VecDeque<(Instance<'tcx>, TypingEnv<'tcx>)>,
    seen: HashSet<Instance<'tcx>>,
    /// Which of several items with the same path this is.
    dup: HashMap<DefId, usize>,
}

fn dump<'tcx>(tcx: TyCtxt<'tcx>, dir: &str) {
    let krate = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
    let mut bodies = HashMap::new();
    let mut roots = vec![];
    let mut tainted = vec![];
    for def in tcx.mir_keys(()).iter().copied() {
        let kind = tcx.def_kind(def);
        if !matches!(
            kind,
            DefKind::Fn
                | DefKind::AssocFn
                | DefKind::Closure
                | DefKind::SyntheticCoroutineBody
                | DefKind::Const { .. }
                | DefKind::AssocConst { .. }
                | DefKind::Static { .. }
        ) {
            continue;
        }
        // The type checker rejected this body: nothing can be said about it.
        if tcx.typeck(def).tainted_by_errors.is_some() {
            tainted.push(J::s(with_no_trimmed_paths!(tcx.def_path_str(def))));
            continue;
        }
        let (b, p) = tcx.mir_promoted(def);
        if b.is_stolen() || p.is_stolen() {
            tainted.push(J::s(format!("stolen:{}", with_no_trimmed_paths!(tcx.def_path_str(def)))));
            continue;
        }
        let b = b.borrow().clone();
        if b.tainted_by_errors.is_some() {
            tainted.push(J::s(with_no_trimmed_paths!(tcx.def_path_str(def))));
            continue;
        }
        bodies.insert(def, (b, p.borrow().clone()));
        roots.push(def);
    }
    let mut d = D {
        tcx,
        bodies,
        types: HashMap::new(),
        tyout: vec![],
        queue: VecDeque::new(),
        seen: HashSet::new(),
        dup: HashMap::new(),
    };
    let mut count: HashMap<String, usize> = HashMap::new();
    for def in roots.iter() {
        let did = def.to_def_id();
        let c = count.entry(d.path(did)).or_insert(0);
        if *c > 0 {
            d.dup.insert(did, *c);
        }
        *c += 1;
    }
    for def in roots {
        let did = def.to_def_id();
        let args = ty::GenericArgs::identity_for_item(tcx, did);
        let args = tcx.erase_and_anonymize_regions(args);
        let env = TypingEnv::post_analysis(tcx, did);
        let inst = Instance::new_raw(did, args);
        d.enqueue(inst, env);
    }
    let mut fns = vec![];
    while let Some((inst, env)) = d.queue.pop_front() {
        if let Some(j) = d.body(inst, env) {
            fns.push(j);
        }
    }
    let mut items = vec![];
    for def in tcx.hir_crate_items(()).definitions() {
        let kind = tcx.def_kind(def);
        if let DefKind::Impl { of_trait } = kind {
            if of_trait {
                let tr = tcx.impl_trait_ref(def.to_def_id()).instantiate_identity().skip_norm_wip();
                let sp = tcx.def_span(def.to_def_id());
                items.push(J::O(vec![
                    ("k", J::s("impl")),
                    ("trait", J::s(with_no_trimmed_paths!(tcx.def_path_str(tr.def_id)))),
                    ("self", J::s(with_no_trimmed_paths!(tr.self_ty().to_string()))),
                    ("derived", J::B(tcx.is_automatically_derived(def.to_def_id()))),
                    ("span", J::s(tcx.sess.source_map().span_to_diagnostic_string(sp))),
                ]));
            }
        }
        if matches!(kind, DefKind::Struct | DefKind::Enum) {
            let t = tcx.type_of(def.to_def_id()).instantiate_identity().skip_norm_wip();
            let t = tcx.erase_and_anonymize_regions(t);
            let id = d.ty(t);
            items.push(J::O(vec![("k", J::s("adt")), ("path", J::s(d.path(def.to_def_id()))), ("ty", J::N(id as i128))]));
        }
    }
    let out = J::O(vec![
        ("crate", J::s(&krate)),
        ("debug_assertions", J::B(tcx.sess.opts.debug_assertions)),
        ("types", J::A(d.tyout)),
        ("fns", J::A(fns)),
        ("items", J::A(items)),
        ("tainted", J::A(tainted)),
    ]);
    let mut s = String::new();
    out.write(&mut s);
    let suffix = if tcx.sess.opts.debug_assertions { "dbg" } else { "rel" };
    std::fs::create_dir_all(dir).unwrap();
    std::fs::write(format!("{dir}/{krate}.{suffix}.json"), s).unwrap();
}

fn n(x: usize) -> J {
    J::N(x as i128)
}

impl<'tcx> D<'tcx> {
    fn path(&self, def: DefId) -> String {
        with_no_trimmed_paths!(self.tcx.def_path_str(def))
    }
    fn key(&self, i: Instance<'tcx>) -> String {
        let mut s = with_no_trimmed_paths!(self.tcx.def_path_str_with_args(i.def_id(), i.args));
        if let InstanceKind::Item(d) = i.def {
            if self.tcx.is_closure_like(d) {
                // closures: identify by parent path and index
                s = format!("{}@{}", self.path(d), with_no_trimmed_paths!(format!("{:?}", i.args.types().map(|t| t.to_string()).collect::<Vec<_>>())));
            }
        }
        if let Some(k) = self.dup.get(&i.def_id()) {
            let _ = write!(s, "'{k}");
        }
        s
    }
    fn span(&self, sp: rustc_span::Span) -> J {
        let sp = sp.source_callsite();
        let lo = self.tcx.sess.source_map().lookup_char_pos(sp.lo());
        J::s(format!("{}:{}", lo.file.name.prefer_local_unconditionally(), lo.line))
    }
    fn enqueue(&mut self, i: Instance<'tcx>, env: TypingEnv<'tcx>) -> bool {
        let InstanceKind::Item(def) = i.def else { return false };
        let ok = match def.as_local() {
            Some(l) => self.bodies.contains_key(&l),
            None => self.external_wanted(def) && self.tcx.is_mir_available(def),
        };
        if ok && self.seen.insert(i) {
            self.queue.push_back((i, env));
        }
        ok
    }
    fn external_wanted(&self, def: DefId) -> bool {
        let krate = self.tcx.crate_name(def.krate).to_string();
        let p = self.path(def);
        if krate == "imap_types" {
            return true;
        }
        if krate == "core" || krate == "alloc" || krate == "std" {
            if p.contains("Iterator") || p.contains("::iter::") || p.contains("::fmt::") {
                return false;
            }
            const W: &[&str] = &[
                "std::option::", "std::result::", "std::ops::", "std::convert::", "std::bool::", "std::task::",
                "core::option::", "core::result::", "core::ops::", "core::convert::", "core::bool::",
                "core::task::", "std::cmp::", "core::cmp::", "std::borrow::", "std::future::", "std::default::",
            ];
            if W.iter().any(|w| p.starts_with(w)) {
                return true;
            }
            if p.starts_with('<') || p.contains("<impl ") {
                return ["Option<", "Result<", "ControlFlow<", "Poll<"].iter().any(|x| p.contains(x))
                    || p.starts_with("<bool") || p.contains("impl bool")
                    || p.contains("std::convert::From<") || p.contains("std::convert::Into<");
            }
        }
        false
    }
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(i) = self.types.get(&t) {
            return *i;
        }
        let id = self.tyout.len();
        self.types.insert(t, id);
        self.tyout.push(J::Null);
        let tcx = self.tcx;
        let mut o: Vec<(&'static str, J)> = vec![("s", J::s(with_no_trimmed_paths!(t.to_string())))];
        match t.kind() {
            ty::Adt(def, args) => {
                o.push(("k", J::s("adt")));
                o.push(("path", J::s(self.path(def.did()))));
                let a: Vec<J> = args.types().map(|x| n(self.ty(x))).collect();
                o.push(("args", J::A(a)));
                o.push(("enum", J::B(def.is_enum())));
                let krate = tcx.crate_name(def.did().krate).to_string();
                let deep = def.did().is_local()
                    || ["imap_next", "imap_types", "imap_codec", "tokio", "tokio_rustls"].contains(&krate.as_str())
                    || (["core", "std", "alloc"].contains(&krate.as_str()) && def.is_enum());
                // the names of the fields that the proxy sets
                let named = krate == "rustls" && ["ServerConfig", "ClientConfig"].contains(&tcx.item_name(def.did()).as_str());
                let mut vs = vec![];
                for (vi, v) in def.variants().iter_enumerated() {
                    let discr = if def.is_enum() { def.discriminant_for_variant(tcx, vi).val as i128 } else { 0 };
                    let mut fs = vec![];
                    if def.is_enum() || deep || named {
                        for f in v.fields.iter() {
                            let ft = if deep {
                                let ft = tcx.type_of(f.did).instantiate(tcx, args).skip_norm_wip();
                                let ft = tcx.erase_and_anonymize_regions(ft);
                                let ft = tcx
                                    .try_normalize_erasing_regions(TypingEnv::fully_monomorphized(), ty::Unnormalized::new_wip(ft))
                                    .unwrap_or(ft);
                                n(self.ty(ft))
                            } else {
                                J::Null
                            };
                            fs.push(J::A(vec![J::s(f.name.as_str()), ft]));
                        }
                    }
                    vs.push(J::O(vec![("n", J::s(v.name.as_str())), ("d", J::N(discr)), ("f", J::A(fs))]));
                }
                o.push(("v", J::A(vs)));
            }
            ty::Ref(_, inner, m) => {
                o.push(("k", J::s("ref")));
                o.push(("mut", J::B(m.is_mut())));
                o.push(("args", J::A(vec![n(self.ty(*inner))])));
            }
            ty::RawPtr(inner, _) => {
                o.push(("k", J::s("ptr")));
                o.push(("args", J::A(vec![n(self.ty(*inner))])));
            }
            ty::Tuple(ts) => {
                o.push(("k", J::s("tuple")));
                let a: Vec<J> = ts.iter().map(|x| n(self.ty(x))).collect();
                o.push(("args", J::A(a)));
            }
            ty::Array(e, len) => {
                o.push(("k", J::s("array")));
                o.push(("args", J::A(vec![n(self.ty(*e))])));
                if let Some(l) = len.try_to_target_usize(tcx) {
                    o.push(("len", J::N(l as i128)));
                }
            }
            ty::Slice(e) => {
                o.push(("k", J::s("slice")));
                o.push(("args", J::A(vec![n(self.ty(*e))])));
            }
            ty::Closure(def, args) => {
                o.push(("k", J::s("closure")));
                o.push(("path", J::s(self.path(*def))));
                o.push(("key", J::s(self.key(Instance::new_raw(*def, args)))));
                let ups = args.as_closure().upvar_tys();
                let a: Vec<J> = ups.iter().map(|x| n(self.ty(x))).collect();
                o.push(("args", J::A(a)));
            }
            ty::Coroutine(def, args) => {
                o.push(("k", J::s("coroutine")));
                o.push(("path", J::s(self.path(*def))));
                o.push(("key", J::s(self.key(Instance::new_raw(*def, args)))));
                let ups = args.as_coroutine().upvar_tys();
                let a: Vec<J> = ups.iter().map(|x| n(self.ty(x))).collect();
                o.push(("args", J::A(a)));
            }
            ty::FnDef(def, _) => {
                o.push(("k", J::s("fndef")));
                o.push(("path", J::s(self.path(*def))));
            }
            ty::Int(_) | ty::Uint(_) | ty::Bool | ty::Char | ty::Float(_) => o.push(("k", J::s("prim"))),
            ty::Str => o.push(("k", J::s("str"))),
            ty::Never => o.push(("k", J::s("never"))),
            ty::Param(_) => o.push(("k", J::s("param"))),
            ty::Dynamic(..) => o.push(("k", J::s("dyn"))),
            ty::Alias(..) => o.push(("k", J::s("alias"))),
            ty::FnPtr(..) => o.push(("k", J::s("fnptr"))),
            _ => o.push(("k", J::s("other"))),
        }
        self.tyout[id] = J::O(o);
        id
    }

    fn body(&mut self, inst: Instance<'tcx>, env: TypingEnv<'tcx>) -> Option<J> {
        let tcx = self.tcx;
        let InstanceKind::Item(def) = inst.def else { return None };
        let (b, p, local) = match def.as_local() {
            Some(l) => {
                let (b, p) = self.bodies.get(&l)?;
                (b.clone(), p.clone(), true)
            }
            None => {
                let b = tcx.optimized_mir(def).clone();
                (b, Default::default(), false)
            }
        };
        let mono = |b: mir::Body<'tcx>| -> Option<mir::Body<'tcx>> {
            inst.try_instantiate_mir_and_normalize_erasing_regions(tcx, env, EarlyBinder::bind(tcx, b)).ok()
        };
        let b = mono(b)?;
        let mut proms = vec![];
        if local {
            for pb in p.into_iter() {
                match mono(pb) {
                    Some(pb) => proms.push(self.blocks(&pb, env, inst)),
                    None => proms.push(J::Null),
                }
            }
        } else {
            let ps = tcx.promoted_mir(def).clone();
            for pb in ps.into_iter() {
                match mono(pb) {
                    Some(pb) => proms.push(self.blocks(&pb, env, inst)),
                    None => proms.push(J::Null),
                }
            }
        }
        let kind = tcx.def_kind(def);
        let mut o = vec![
            ("key", J::s(self.key(inst))),
            ("path", J::s(self.path(def))),
            ("kind", J::s(format!("{:?}", kind))),
            ("local", J::B(local)),
            ("generic", J::B(inst.args.has_param())),
            ("span", self.span(tcx.def_span(def))),
            ("end", self.span(b.span.shrink_to_hi())),
            ("coroutine", J::B(tcx.is_coroutine(def))),
            ("pub", J::B(matches!(kind, DefKind::Fn | DefKind::AssocFn) && tcx.visibility(def).is_public())),
            ("body", self.blocks(&b, env, inst)),
            ("proms", J::A(proms)),
        ];
        // closures and coroutines: name of the captured variables; fns: name of the parameters
        if local && tcx.is_closure_like(def) {
            let names: Vec<J> = tcx.closure_captures(def.expect_local()).iter().map(|c| J::s(c.to_string(tcx))).collect();
            o.push(("upvars", J::A(names)));
            o.push(("parent", J::s(self.path(tcx.typeck_root_def_id(def)))));
        }
        if let Some(im) = tcx.impl_of_assoc(def) {
            if tcx.is_automatically_derived(im) {
                o.push(("derived", J::B(true)));
            }
            if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                o.push(("trait", J::s(self.path(tr.skip_binder().def_id))));
            }
            let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
            o.push(("self", J::s(with_no_trimmed_paths!(st.to_string()))));
            let st = tcx.erase_and_anonymize_regions(st);
            o.push(("selfid", n(self.ty(st))));
        }
        Some(J::O(o))
    }

    fn blocks(&mut self, b: &mir::Body<'tcx>, env: TypingEnv<'tcx>, inst: Instance<'tcx>) -> J {
        let mut names: HashMap<usize, String> = HashMap::new();
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names.insert(p.local.as_usize(), v.name.to_string());
                }
            }
        }
        let locals: Vec<J> = b.local_decls.iter().map(|l| n(self.ty(l.ty))).collect();
        let mut bbs = vec![];
        for bb in b.basic_blocks.iter() {
            let mut st = vec![];
            for s in &bb.statements {
                if let Some(j) = self.stmt(b, s, env, inst) {
                    st.push(j);
                }
            }
            let t = self.term(b, bb.terminator(), env, inst);
            bbs.push(J::O(vec![("s", J::A(st)), ("t", t), ("c", J::B(bb.is_cleanup))]));
        }
        let mut nm: Vec<(usize, String)> = names.into_iter().collect();
        nm.sort();
        J::O(vec![
            ("argc", n(b.arg_count)),
            ("locals", J::A(locals)),
            ("names", J::A(nm.into_iter().map(|(i, s)| J::A(vec![n(i), J::s(s)])).collect())),
            ("bbs", J::A(bbs)),
        ])
    }

    fn place(&mut self, p: Place<'tcx>) -> J {
        if p.projection.is_empty() {
            return n(p.local.as_usize());
        }
        let mut v = vec![n(p.local.as_usize())];
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => J::s("d"),
                ProjectionElem::Field(f, _t) => n(f.as_usize()),
                ProjectionElem::Index(l) => J::A(vec![J::s("i"), n(l.as_usize())]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    J::A(vec![J::s("ci"), n(offset as usize), n(min_length as usize), J::B(from_end)])
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    J::A(vec![J::s("ss"), n(from as usize), n(to as usize), J::B(from_end)])
                }
                ProjectionElem::Downcast(_, v) => J::A(vec![J::s("v"), n(v.as_usize())]),
                other => J::A(vec![J::s("?"), J::s(format!("{:?}", other))]),
            });
        }
        J::A(v)
    }

    fn operand(&mut self, o: &Operand<'tcx>, env: TypingEnv<'tcx>, inst: Instance<'tcx>) -> J {
        match o {
            Operand::Copy(p) => J::A(vec![J::s("c"), self.place(*p)]),
            Operand::Move(p) => J::A(vec![J::s("m"), self.place(*p)]),
            Operand::Constant(c) => J::A(vec![J::s("k"), self.konst(c, env, inst)]),
            _ => J::A(vec![J::s("k"), J::O(vec![("ty", J::s("?")), ("bits", n(0))])]),
        }
    }

    fn konst(&mut self, c: &ConstOperand<'tcx>, env: TypingEnv<'tcx>, inst: Instance<'tcx>) -> J {
        let tcx = self.tcx;
        let t = c.const_.ty();
        let mut o: Vec<(&'static str, J)> = vec![("ty", n(self.ty(t)))];
        if let ty::FnDef(def, args) = t.kind() {
            let f = self.callee(*def, args.skip_binder(), env);
            o.push(("fn", f));
            return J::O(o);
        }
        if let Const::Unevaluated(u, _) = c.const_ {
            if let Some(p) = u.promoted {
                o.push(("prom", n(p.as_usize())));
                let i = Instance::new_raw(u.def, u.args);
                o.push(("of", J::s(self.key(if u.def == inst.def_id() { inst } else { i }))));
                return J::O(o);
            }
            o.push(("path", J::s(self.path(u.def))));
            {
                let i = Instance::new_raw(u.def, u.args);
                if u.def.is_local() && self.enqueue(i, env) {
                    o.push(("key", J::s(self.key(i))));
                }
            }
        }
        let v = match c.const_ {
            Const::Val(v, _) => Some(v),
            _ => c.const_.eval(tcx, env, c.span).ok(),
        };
        match v {
            Some(ConstValue::Scalar(interpret::Scalar::Int(i))) => {
                o.push(("bits", J::s(format!("{}", i.to_bits(i.size())))));
                o.push(("size", n(i.size().bytes() as usize)));
            }
            Some(ConstValue::Scalar(interpret::Scalar::Ptr(p, _))) => {
                let (prov, off) = p.prov_and_relative_offset();
                match tcx.global_alloc(prov.alloc_id()) {
                    GlobalAlloc::Static(d) => o.push(("static", J::s(self.path(d)))),
                    GlobalAlloc::Function { instance } => o.push(("fnptr", J::s(self.key(instance)))),
                    GlobalAlloc::Memory(a) => {
                        let inner = a.inner();
                        if inner.provenance().ptrs().is_empty() {
                            let bytes =
                                inner.inspect_with_uninit_and_ptr_outside_interpreter(off.bytes() as usize..inner.len());
                            o.push(("bytes", J::A(bytes.iter().map(|b| n(*b as usize)).collect())));
                        }
                    }
                    _ => {}
                }
            }
            Some(ConstValue::ZeroSized) => o.push(("zst", J::B(true))),
            Some(v @ ConstValue::Slice { .. }) => {
                if let Some(bytes) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                    o.push(("bytes", J::A(bytes.iter().map(|b| n(*b as usize)).collect())));
                    if t.peel_refs().is_str() {
                        o.push(("str", J::s(String::from_utf8_lossy(bytes).to_string())));
                    }
                }
            }
            Some(ConstValue::Indirect { .. }) => o.push(("indirect", J::B(true))),
            None => {}
        }
        J::O(o)
    }

    fn callee(&mut self, def: DefId, args: GenericArgsRef<'tcx>, env: TypingEnv<'tcx>) -> J {
        let tcx = self.tcx;
        let mut o: Vec<(&'static str, J)> = vec![("path", J::s(self.path(def)))];
        o.push(("crate", J::s(tcx.crate_name(def.krate).as_str())));
        o.push(("args", J::A(args.types().map(|t| n(self.ty(t))).collect())));
        if matches!(tcx.def_kind(def), DefKind::Ctor(..)) {
            o.push(("ctor", J::B(true)));
            if let DefKind::Ctor(of, _) = tcx.def_kind(def) {
                if matches!(of, rustc_hir::def::CtorOf::Variant) {
                    let var = tcx.parent(def);
                    let en = tcx.parent(var);
                    let ad = tcx.adt_def(en);
                    let idx = ad.variant_index_with_id(var);
                    o.push(("variant", n(idx.as_usize())));
                }
            }
            return J::O(o);
        }
        if tcx.is_constructor(def) {
            return J::O(o);
        }
        if let Ok(Some(i)) = Instance::try_resolve(tcx, env, def, args) {
            o.push(("rpath", J::s(self.path(i.def_id()))));
            o.push(("rcrate", J::s(tcx.crate_name(i.def_id().krate).as_str())));
            match i.def {
                InstanceKind::Item(_) => {
                    if self.enqueue(i, env) {
                        o.push(("key", J::s(self.key(i))));
                    }
                }
                InstanceKind::Shim(ShimKind::ClosureOnce { .. }) => {
                    if let ty::Closure(cdef, cargs) = *i.args.type_at(0).kind() {
                        let ci = Instance::new_raw(cdef, cargs);
                        if self.enqueue(ci, env) {
                            o.push(("once", J::s(self.key(ci))));
                        }
                    }
                }
                InstanceKind::Shim(ShimKind::FnPtr(_, t)) => {
                    if let ty::FnDef(fdef, fargs) = *t.kind() {
                        let f = self.callee(fdef, fargs.skip_binder(), env);
                        o.push(("via", f));
                    }
                }
                InstanceKind::Shim(ShimKind::Clone(..)) => o.push(("shim", J::s("clone"))),
                InstanceKind::Virtual(..) => o.push(("shim", J::s("virtual"))),
                InstanceKind::Intrinsic(_) => o.push(("shim", J::s("intrinsic"))),
                _ => o.push(("shim", J::s("other"))),
            }
        }
        J::O(o)
    }

    fn stmt(&mut self, b: &mir::Body<'tcx>, s: &Statement<'tcx>, env: TypingEnv<'tcx>, inst: Instance<'tcx>) -> Option<J> {
        Some(match &s.kind {
            StatementKind::Assign(bx) => {
                let (p, r) = &**bx;
                J::A(vec![J::s("="), self.place(*p), self.rvalue(b, r, env, inst), self.span(s.source_info.span)])
            }
            StatementKind::SetDiscriminant { place, variant_index } => {
                J::A(vec![J::s("sd"), self.place(**place), n(variant_index.as_usize())])
            }
            StatementKind::StorageDead(l) => J::A(vec![J::s("dead"), n(l.as_usize())]),
            StatementKind::StorageLive(l) => J::A(vec![J::s("live"), n(l.as_usize())]),
            _ => return None,
        })
    }

    fn rvalue(&mut self, b: &mir::Body<'tcx>, r: &Rvalue<'tcx>, env: TypingEnv<'tcx>, inst: Instance<'tcx>) -> J {
        match r {
            Rvalue::Use(o, _) => J::A(vec![J::s("use"), self.operand(o, env, inst)]),
            Rvalue::Repeat(o, c) => {
                let l = c.try_to_target_usize(self.tcx).map(|x| n(x as usize)).unwrap_or(J::Null);
                J::A(vec![J::s("rep"), self.operand(o, env, inst), l])
            }
            Rvalue::Ref(_, k, p) => {
                let m = match k {
                    BorrowKind::Shared => "s",
                    BorrowKind::Fake(_) => "f",
                    BorrowKind::Mut { .. } => "m",
                };
                J::A(vec![J::s("ref"), J::s(m), self.place(*p)])
            }
            Rvalue::RawPtr(_, p) => J::A(vec![J::s("ref"), J::s("r"), self.place(*p)]),
            Rvalue::ThreadLocalRef(d) => J::A(vec![J::s("tls"), J::s(self.path(*d))]),
            Rvalue::Cast(k, o, t) => {
                let kk = with_no_trimmed_paths!(format!("{:?}", k));
                J::A(vec![J::s("cast"), J::s(kk), self.operand(o, env, inst), n(self.ty(*t))])
            }
            Rvalue::BinaryOp(op, bx) => {
                let (x, y) = &**bx;
                J::A(vec![J::s("bin"), J::s(format!("{:?}", op)), self.operand(x, env, inst), self.operand(y, env, inst)])
            }
            Rvalue::UnaryOp(op, x) => J::A(vec![J::s("un"), J::s(format!("{:?}", op)), self.operand(x, env, inst)]),
            Rvalue::Discriminant(p) => {
                let t = p.ty(b, self.tcx).ty;
                J::A(vec![J::s("disc"), self.place(*p), n(self.ty(t))])
            }
            Rvalue::Aggregate(k, ops) => {
                let os: Vec<J> = ops.iter().map(|o| self.operand(o, env, inst)).collect();
                let kj = match &**k {
                    AggregateKind::Array(t) => J::A(vec![J::s("array"), n(self.ty(*t))]),
                    AggregateKind::Tuple => J::A(vec![J::s("tuple")]),
                    AggregateKind::Adt(d, v, args, _, active) => {
                        let t = self.tcx.type_of(*d).instantiate(self.tcx, args).skip_norm_wip();
                        let t = self.tcx.erase_and_anonymize_regions(t);
                        let _ = active;
                        J::A(vec![J::s("adt"), n(self.ty(t)), n(v.as_usize())])
                    }
                    AggregateKind::Closure(d, args) => {
                        let i = Instance::new_raw(*d, args);
                        self.enqueue(i, env);
                        J::A(vec![J::s("closure"), J::s(self.key(i))])
                    }
                    AggregateKind::Coroutine(d, args) => {
                        let i = Instance::new_raw(*d, args);
                        self.enqueue(i, env);
                        J::A(vec![J::s("coroutine"), J::s(self.key(i))])
                    }
                    AggregateKind::CoroutineClosure(d, args) => {
                        let i = Instance::new_raw(*d, args);
                        J::A(vec![J::s("closure"), J::s(self.key(i))])
                    }
                    AggregateKind::RawPtr(..) => J::A(vec![J::s("rawptr")]),
                };
                J::A(vec![J::s("agg"), kj, J::A(os)])
            }
            Rvalue::CopyForDeref(p) => J::A(vec![J::s("use"), J::A(vec![J::s("c"), self.place(*p)])]),
            Rvalue::Reborrow(_, m, p) => {
                J::A(vec![J::s("reborrow"), J::B(m.is_mut()), self.place(*p)])
            }
            Rvalue::WrapUnsafeBinder(o, _) => J::A(vec![J::s("use"), self.operand(o, env, inst)]),
        }
    }

    fn term(&mut self, b: &mir::Body<'tcx>, t: &Terminator<'tcx>, env: TypingEnv<'tcx>, inst: Instance<'tcx>) -> J {
        let bb = |x: BasicBlock| n(x.as_usize());
        let sp = self.span(t.source_info.span);
        match &t.kind {
            TerminatorKind::Goto { target, .. } => J::A(vec![J::s("goto"), bb(*target)]),
            TerminatorKind::FalseEdge { real_target, .. } => J::A(vec![J::s("goto"), bb(*real_target)]),
            TerminatorKind::FalseUnwind { real_target, .. } => J::A(vec![J::s("goto"), bb(*real_target)]),
            TerminatorKind::SwitchInt { discr, targets } => {
                let ts: Vec<J> = targets.iter().map(|(v, x)| J::A(vec![J::N(v as i128), bb(x)])).collect();
                let dt = discr.ty(b, self.tcx);
                J::A(vec![J::s("switch"), self.operand(discr, env, inst), J::A(ts), bb(targets.otherwise()), n(self.ty(dt)), sp])
            }
            TerminatorKind::Return => J::A(vec![J::s("ret")]),
            TerminatorKind::Unreachable => J::A(vec![J::s("unreachable")]),
            TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => J::A(vec![J::s("resume")]),
            TerminatorKind::CoroutineDrop => J::A(vec![J::s("corodrop")]),
            TerminatorKind::Drop { place, target, .. } => J::A(vec![J::s("drop"), self.place(*place), bb(*target)]),
            TerminatorKind::Call { func, args, destination, target, .. } => {
                let f = match func {
                    Operand::Constant(c) => match c.const_.ty().kind() {
                        ty::FnDef(def, a) => self.callee(*def, a.skip_binder(), env),
                        _ => J::O(vec![("indirect", self.operand(func, env, inst))]),
                    },
                    _ => J::O(vec![("indirect", self.operand(func, env, inst))]),
                };
                let a: Vec<J> = args.iter().map(|x| self.operand(&x.node, env, inst)).collect();
                let dt = destination.ty(b, self.tcx).ty;
                J::A(vec![
                    J::s("call"),
                    f,
                    J::A(a),
                    self.place(*destination),
                    target.map(bb).unwrap_or(J::Null),
                    sp,
                    n(self.ty(dt)),
                ])
            }
            TerminatorKind::TailCall { .. } => J::A(vec![J::s("unsupported"), J::s("tailcall")]),
            TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                let (k, ops): (&str, Vec<J>) = match &**msg {
                    AssertKind::BoundsCheck { len, index } => {
                        ("bounds", vec![self.operand(len, env, inst), self.operand(index, env, inst)])
                    }
                    AssertKind::Overflow(..) | AssertKind::OverflowNeg(_) => ("overflow", vec![]),
                    AssertKind::DivisionByZero(_) | AssertKind::RemainderByZero(_) => ("divzero", vec![]),
                    _ => ("other", vec![]),
                };
                J::A(vec![J::s("assert"), self.operand(cond, env, inst), J::B(*expected), bb(*target), J::s(k), J::A(ops), sp])
            }
            TerminatorKind::Yield { value, resume, resume_arg, drop } => J::A(vec![
                J::s("yield"),
                self.operand(value, env, inst),
                bb(*resume),
                self.place(*resume_arg),
                drop.map(bb).unwrap_or(J::Null),
                sp,
            ]),
            TerminatorKind::InlineAsm { .. } => J::A(vec![J::s("unsupported"), J::s("asm")]),
        }
    }
}

#[allow(dead_code)]
fn _unused(s: &mut String) {
    let _ = write!(s, "");
}
