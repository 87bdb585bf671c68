//! mrk-facts: a rustc driver that dumps the resolved program as JSON facts.
//!
//! For every body of the crate being compiled (functions, closures, statics,
//! consts) it writes the MIR with resolved callees; it follows calls into the
//! generic bodies of the workspace and of a few core modules (Option, Result,
//! `?`, conversions) and writes those instantiated for the call.  It also
//! writes the type definitions, trait impls and `unsafe` constructs.
//! Nothing is executed and nothing is decided here.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_index;
extern crate rustc_infer;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;
extern crate rustc_trait_selection;

mod json;
use json::J;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_hir::intravisit::{self, Visitor};
use rustc_middle::mir::*;
use rustc_middle::ty::{self, GenericArgsRef, Instance, InstanceKind, Ty, TyCtxt, TypeVisitableExt};
use rustc_span::Span;
use std::collections::{HashMap, HashSet, VecDeque};

struct Cb;

impl Callbacks for Cb {
    fn config(&mut self, config: &mut rustc_interface::interface::Config) {
        config.opts.unstable_opts.mir_opt_level = Some(0);
        config.opts.unstable_opts.inline_mir = Some(false);
    }
    fn after_analysis<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> Compilation {
        if let Ok(dir) = std::env::var("MRK_FACTS_DIR") {
            let mut d = Dump::new(tcx);
            d.run();
            let name = tcx.crate_name(LOCAL_CRATE).to_string();
            let out = d.finish();
            let tmp = format!("{dir}/{name}.json.tmp.{}", std::process::id());
            std::fs::write(&tmp, out.to_string()).expect("write facts");
            std::fs::rename(&tmp, format!("{dir}/{name}.json")).expect("rename facts");
        }
        Compilation::Continue
    }
}

const WORKSPACE: &[&str] = &["metriken", "metriken_core", "metriken_derive", "metriken_exposition"];
/// core modules whose generic bodies are written out when called
const DESCEND: &[&str] = &[
    "core::option::", "core::result::", "core::ops::try_trait::", "core::ops::control_flow::",
    "core::convert::", "core::bool::", "bool::", "core::ops::function::",
];

struct Dump<'tcx> {
    tcx: TyCtxt<'tcx>,
    bodies: Vec<(String, J)>,
    seen: HashSet<String>,
    queue: VecDeque<(String, Instance<'tcx>, DefId)>,
    adts: HashMap<String, J>,
    adt_queue: VecDeque<DefId>,
    adt_seen: HashSet<DefId>,
}

fn s(x: impl Into<String>) -> J { J::S(x.into()) }

impl<'tcx> Dump<'tcx> {
    fn new(tcx: TyCtxt<'tcx>) -> Self {
        Dump { tcx, bodies: vec![], seen: HashSet::new(), queue: VecDeque::new(), adts: HashMap::new(), adt_queue: VecDeque::new(), adt_seen: HashSet::new() }
    }

    fn in_workspace(&self, d: DefId) -> bool {
        d.is_local() || WORKSPACE.contains(&self.tcx.crate_name(d.krate).as_str())
    }

    // ---- names -------------------------------------------------------------
    fn path(&self, d: DefId) -> String {
        let tcx = self.tcx;
        let key = tcx.def_key(d);
        let Some(parent) = tcx.opt_parent(d) else { return tcx.crate_name(d.krate).to_string(); };
        use rustc_hir::definitions::DefPathData as P;
        match key.disambiguated_data.data {
            P::Impl => {
                let selfty = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                if let Some(tr) = tcx.impl_opt_trait_ref(d) {
                    let tr = tr.instantiate_identity().skip_norm_wip();
                    format!("<{} as {}>", self.selfname(selfty), self.trait_str(tr.def_id, &tr.args[1..]))
                } else {
                    self.selfname(selfty)
                }
            }
            P::Closure => format!("{}::{{closure#{}}}", self.path(parent), key.disambiguated_data.disambiguator),
            P::Ctor => self.path(parent),
            ref data => {
                let name = match data.get_opt_name() { Some(n) => n.to_string(), None => format!("{{{:?}}}", data) };
                let dis = key.disambiguated_data.disambiguator;
                if dis == 0 { format!("{}::{}", self.path(parent), name) } else { format!("{}::{}#{}", self.path(parent), name, dis) }
            }
        }
    }
    fn selfname(&self, t: Ty<'tcx>) -> String {
        match t.kind() { ty::Adt(a, _) => self.path(a.did()), _ => self.ty(t) }
    }
    fn trait_str(&self, d: DefId, args: &[ty::GenericArg<'tcx>]) -> String {
        let a: Vec<String> = args.iter().filter_map(|a| self.garg(*a)).collect();
        if a.is_empty() { self.path(d) } else { format!("{}<{}>", self.path(d), a.join(",")) }
    }
    fn garg(&self, a: ty::GenericArg<'tcx>) -> Option<String> {
        if let Some(t) = a.as_type() { Some(self.ty(t)) } else if let Some(c) = a.as_const() { Some(format!("{c}")) } else { None }
    }
    fn gargs(&self, a: GenericArgsRef<'tcx>) -> Vec<String> { a.iter().filter_map(|x| self.garg(x)).collect() }
    fn ty(&self, t: Ty<'tcx>) -> String {
        match t.kind() {
            ty::Adt(a, args) => {
                let g = self.gargs(args);
                if g.is_empty() { self.path(a.did()) } else { format!("{}<{}>", self.path(a.did()), g.join(",")) }
            }
            ty::Ref(_, t, m) => format!("&{}{}", if m.is_mut() { "mut " } else { "" }, self.ty(*t)),
            ty::RawPtr(t, m) => format!("*{} {}", if m.is_mut() { "mut" } else { "const" }, self.ty(*t)),
            ty::Tuple(ts) => format!("({})", ts.iter().map(|t| self.ty(t)).collect::<Vec<_>>().join(",")),
            ty::Slice(t) => format!("[{}]", self.ty(*t)),
            ty::Array(t, n) => format!("[{};{n}]", self.ty(*t)),
            ty::FnDef(d, a) => {
                let g = self.gargs(a.skip_binder());
                if g.is_empty() { format!("fn:{}", self.path(*d)) } else { format!("fn:{}<{}>", self.path(*d), g.join(",")) }
            }
            ty::Closure(d, _) => format!("closure:{}", self.path(*d)),
            ty::Dynamic(preds, _) => {
                let mut v = vec![];
                if let Some(p) = preds.principal() { let p = p.skip_binder(); v.push(self.trait_str(p.def_id, p.args)); }
                let mut autos: Vec<String> = preds.auto_traits().map(|d| self.path(d)).collect();
                autos.sort();
                v.extend(autos);
                format!("dyn {}", v.join("+"))
            }
            ty::Param(p) => p.name.to_string(),
            _ => rustc_middle::ty::print::with_no_trimmed_paths!(format!("{t}")),
        }
    }
    fn span(&self, sp: Span) -> J {
        let sm = self.tcx.sess.source_map();
        let sp = sp.source_callsite();
        let lo = sm.lookup_char_pos(sp.lo());
        use rustc_span::RemapPathScopeComponents as R;
        let _ = R::DIAGNOSTICS;
        s(format!("{}:{}", lo.file.name.prefer_local_unconditionally(), lo.line))
    }

    // ---- driver ------------------------------------------------------------
    fn run(&mut self) {
        let tcx = self.tcx;
        for ld in tcx.hir_body_owners() {
            let d = ld.to_def_id();
            match tcx.def_kind(d) {
                DefKind::Fn | DefKind::AssocFn | DefKind::Closure => {
                    if tcx.is_constructor(d) { continue; }
                    let inst = Instance::new_raw(d, ty::GenericArgs::identity_for_item(tcx, d));
                    let root = tcx.typeck_root_def_id(d);
                    let key = self.path(d);
                    self.seen.insert(key.clone());
                    self.emit(key, inst, root, false);
                }
                DefKind::Static { .. } | DefKind::Const { .. } | DefKind::AssocConst { .. } => {
                    let inst = Instance::new_raw(d, ty::GenericArgs::identity_for_item(tcx, d));
                    let key = self.path(d);
                    self.seen.insert(key.clone());
                    self.emit(key, inst, d, true);
                }
                _ => {}
            }
        }
        while let Some((key, inst, root)) = self.queue.pop_front() {
            self.emit(key, inst, root, false);
        }
        while let Some(d) = self.adt_queue.pop_front() { self.emit_adt(d); }
    }

    fn emit(&mut self, key: String, inst: Instance<'tcx>, root: DefId, ctfe: bool) {
        let tcx = self.tcx;
        let d = inst.def_id();
        let env = ty::TypingEnv::post_analysis(tcx, root);
        let body = if ctfe { tcx.mir_for_ctfe(d) } else { tcx.instance_mir(inst.def) };
        let body: Body<'tcx> = match tcx.try_instantiate_and_normalize_erasing_regions(inst.args, env, ty::EarlyBinder::bind(tcx, body.clone())) {
            Ok(b) => b,
            Err(_) => ty::EarlyBinder::bind(tcx, body.clone()).instantiate(tcx, inst.args).skip_norm_wip(),
        };
        let mut b = self.body(&body, env, root);
        if let J::O(ref mut o) = b {
            o.push(("path".into(), s(self.path(d))));
            o.push(("root".into(), s(self.path(root))));
            o.push(("span".into(), self.span(tcx.def_span(d))));
            o.push(("crate".into(), s(tcx.crate_name(d.krate).to_string())));
            o.push(("kind".into(), s(format!("{:?}", tcx.def_kind(d)))));
            if let Some(ld) = d.as_local() {
                if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn | DefKind::Static { .. } | DefKind::Const { .. }) {
                    let v = tcx.effective_visibilities(());
                    o.push(("pub".into(), J::B(v.is_reachable(ld))));
                    o.push(("exported".into(), J::B(v.is_exported(ld))));
                }
                if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
                    let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip();
                    o.push(("unsafe_fn".into(), J::B(sig.safety().is_unsafe())));
                    o.push(("arg_static".into(), J::A(sig.skip_binder().inputs().iter().map(|t| J::B(matches!(t.kind(), ty::Ref(r, _, _) if r.is_static()))).collect())));
                }
                o.push(("from_expansion".into(), J::B(tcx.def_span(d).from_expansion())));
            }
            let proms: Vec<J> = if (ctfe && !d.is_local()) || (!ctfe && !tcx.is_mir_available(d)) || matches!(inst.def, InstanceKind::Shim(..)) { vec![] } else {
                tcx.promoted_mir(d).iter().map(|p| {
                    let p: Body<'tcx> = match tcx.try_instantiate_and_normalize_erasing_regions(inst.args, env, ty::EarlyBinder::bind(tcx, p.clone())) {
                        Ok(b) => b,
                        Err(_) => p.clone(),
                    };
                    self.body(&p, env, root)
                }).collect()
            };
            o.push(("promoted".into(), J::A(proms)));
        }
        self.bodies.push((key, b));
    }

    fn body(&mut self, b: &Body<'tcx>, env: ty::TypingEnv<'tcx>, root: DefId) -> J {
        let tcx = self.tcx;
        let mut names: HashMap<usize, String> = HashMap::new();
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() { names.insert(p.local.as_usize(), v.name.to_string()); }
            }
        }
        let locals = b.local_decls.iter_enumerated().map(|(i, l)| {
            self.note_ty(l.ty);
            let mut o = vec![("ty".to_string(), s(self.ty(l.ty)))];
            if let Some(n) = names.get(&i.as_usize()) { o.push(("name".into(), s(n.clone()))); }
            J::O(o)
        }).collect();
        let blocks = b.basic_blocks.iter().map(|bb| {
            let st: Vec<J> = bb.statements.iter().filter_map(|st| self.stmt(st, b, env, root)).collect();
            let t = self.term(bb.terminator(), b, env, root);
            let mut o = vec![("s".to_string(), J::A(st)), ("t".to_string(), t)];
            if bb.is_cleanup { o.push(("cleanup".into(), J::B(true))); }
            J::O(o)
        }).collect();
        let _ = tcx;
        J::O(vec![
            ("argc".into(), J::N(b.arg_count as i128)),
            ("spread".into(), match b.spread_arg { Some(l) => J::N(l.as_usize() as i128), None => J::Null }),
            ("locals".into(), J::A(locals)),
            ("blocks".into(), J::A(blocks)),
        ])
    }

    fn place(&mut self, p: &Place<'tcx>, b: &Body<'tcx>) -> J {
        let tcx = self.tcx;
        let mut pr = vec![];
        let mut pt = PlaceTy::from_ty(b.local_decls[p.local].ty);
        for e in p.projection.iter() {
            pr.push(match e {
                ProjectionElem::Deref => s("*"),
                ProjectionElem::Field(f, _) => {
                    let (name, owner) = match pt.ty.kind() {
                        ty::Adt(a, _) => {
                            let v = match pt.variant_index { Some(v) => a.variant(v), None if a.is_enum() => a.variant(rustc_abi::FIRST_VARIANT), None => a.non_enum_variant() };
                            self.note_adt(a.did());
                            (v.fields[f].name.to_string(), self.path(a.did()))
                        }
                        ty::Closure(d, _) => (f.as_usize().to_string(), format!("closure:{}", self.path(*d))),
                        _ => (f.as_usize().to_string(), String::new()),
                    };
                    J::O(vec![("f".into(), J::N(f.as_usize() as i128)), ("n".into(), s(name)), ("o".into(), s(owner))])
                }
                ProjectionElem::Downcast(n, v) => {
                    let name = match n { Some(n) => n.to_string(), None => match pt.ty.kind() { ty::Adt(a, _) => a.variant(v).name.to_string(), _ => format!("{}", v.as_usize()) } };
                    J::O(vec![("v".into(), s(name))])
                }
                ProjectionElem::Index(l) => J::O(vec![("i".into(), J::N(l.as_usize() as i128))]),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => J::O(vec![("ci".into(), J::N(offset as i128)), ("e".into(), J::B(from_end))]),
                ProjectionElem::Subslice { from, to, from_end } => J::O(vec![("sub".into(), s(format!("{from}:{to}:{from_end}")))]),
                _ => s(format!("{e:?}")),
            });
            pt = pt.projection_ty(tcx, e);
        }
        J::O(vec![("l".into(), J::N(p.local.as_usize() as i128)), ("p".into(), J::A(pr))])
    }

    fn operand(&mut self, o: &Operand<'tcx>, b: &Body<'tcx>, env: ty::TypingEnv<'tcx>, root: DefId) -> J {
        match o {
            Operand::Copy(p) => J::O(vec![("c".into(), self.place(p, b))]),
            Operand::Move(p) => J::O(vec![("m".into(), self.place(p, b))]),
            Operand::Constant(c) => J::O(vec![("k".into(), self.constant(&c.const_, env, root))]),
            o => J::O(vec![("rt".into(), s(format!("{o:?}")))]),
        }
    }

    fn constant(&mut self, c: &Const<'tcx>, env: ty::TypingEnv<'tcx>, root: DefId) -> J {
        let tcx = self.tcx;
        let t = c.ty();
        self.note_ty(t);
        let mut o = vec![("ty".to_string(), s(self.ty(t)))];
        if let ty::FnDef(d, args) = t.kind() {
            o.push(("fn".into(), self.callee(*d, args.skip_binder(), env, root)));
            return J::O(o);
        }
        if let Const::Unevaluated(u, _) = c {
            if let Some(p) = u.promoted {
                o.push(("promoted".into(), J::N(p.as_usize() as i128)));
                o.push(("of".into(), s(self.path(u.def))));
                // promoted bodies of this instance are written next to it
                return J::O(o);
            }
            o.push(("item".into(), s(self.path(u.def))));
        }
        if let Const::Ty(_, ct) = c { o.push(("ct".into(), s(format!("{ct}")))); }
        if let Ok(v) = c.eval(tcx, env, rustc_span::DUMMY_SP) {
            self.constval(v, t, &mut o);
        }
        J::O(o)
    }

    fn constval(&mut self, v: ConstValue, t: Ty<'tcx>, o: &mut Vec<(String, J)>) {
        let tcx = self.tcx;
        match v {
            ConstValue::ZeroSized => o.push(("zst".into(), J::B(true))),
            ConstValue::Scalar(sc) => match sc {
                rustc_middle::mir::interpret::Scalar::Int(i) => {
                    let bits = i.to_bits_unchecked();
                    let val: i128 = if matches!(t.kind(), ty::Int(_)) { i.to_int(i.size()) } else { bits as i128 };
                    o.push(("int".into(), s(format!("{val}"))));
                }
                rustc_middle::mir::interpret::Scalar::Ptr(p, _) => {
                    let (prov, off) = p.prov_and_relative_offset();
                    match tcx.global_alloc(prov.alloc_id()) {
                        rustc_middle::mir::interpret::GlobalAlloc::Static(d) => { o.push(("static".into(), s(self.path(d)))); }
                        rustc_middle::mir::interpret::GlobalAlloc::Function { instance, .. } => o.push(("fnptr".into(), s(self.path(instance.def_id())))),
                        rustc_middle::mir::interpret::GlobalAlloc::Memory(a) => {
                            let a = a.inner();
                            o.push(("off".into(), J::N(off.bytes() as i128)));
                            let n = a.len();
                            if n <= 4096 {
                                let bytes = a.inspect_with_uninit_and_ptr_outside_interpreter(0..n);
                                o.push(("bytes".into(), s(bytes.iter().map(|b| format!("{b:02x}")).collect::<String>())));
                                if !a.provenance().ptrs().is_empty() { o.push(("relocs".into(), J::B(true))); }
                            }
                        }
                        _ => {}
                    }
                }
            },
            ConstValue::Slice { alloc_id, meta } => {
                if let rustc_middle::mir::interpret::GlobalAlloc::Memory(a) = tcx.global_alloc(alloc_id) {
                    let a = a.inner();
                    let n = (meta as usize).min(a.len());
                    let bytes = a.inspect_with_uninit_and_ptr_outside_interpreter(0..n);
                    let is_str = matches!(t.kind(), ty::Ref(_, x, _) if x.is_str());
                    if is_str { o.push(("str".into(), s(String::from_utf8_lossy(bytes).to_string()))); }
                    else { o.push(("bytes".into(), s(bytes.iter().map(|b| format!("{b:02x}")).collect::<String>()))); }
                }
            }
            ConstValue::Indirect { alloc_id, offset } => {
                if let rustc_middle::mir::interpret::GlobalAlloc::Memory(a) = tcx.global_alloc(alloc_id) {
                    let a = a.inner();
                    o.push(("off".into(), J::N(offset.bytes() as i128)));
                    if a.len() <= 4096 {
                        let bytes = a.inspect_with_uninit_and_ptr_outside_interpreter(0..a.len());
                        o.push(("ibytes".into(), s(bytes.iter().map(|b| format!("{b:02x}")).collect::<String>())));
                        let mut rel = vec![];
                        for (at, prov) in a.provenance().ptrs().iter() {
                            if let rustc_middle::mir::interpret::GlobalAlloc::Memory(m) = tcx.global_alloc(prov.alloc_id()) {
                                let m = m.inner();
                                if m.len() <= 4096 {
                                    let mb = m.inspect_with_uninit_and_ptr_outside_interpreter(0..m.len());
                                    rel.push(J::O(vec![("at".into(), J::N(at.bytes() as i128)), ("bytes".into(), s(mb.iter().map(|b| format!("{b:02x}")).collect::<String>()))]));
                                }
                            }
                        }
                        o.push(("rel".into(), J::A(rel)));
                    }
                }
            }
        }
    }

    fn request(&mut self, inst: Instance<'tcx>, root: DefId) -> Option<String> {
        let tcx = self.tcx;
        let d = inst.def_id();
        let p = self.path(d);
        let ws = self.in_workspace(d);
        if !ws && !DESCEND.iter().any(|x| p.starts_with(x) || p.contains(&format!("as {x}"))) { return None; }
        if matches!(inst.def, InstanceKind::Item(_)) && !ws && !tcx.is_mir_available(d) { return None; }
        let g = self.gargs(inst.args);
        let closure = tcx.is_closure_like(d);
        let mut key = p;
        if !g.is_empty() && !(closure && d.is_local()) {
            key = format!("{key}<{}>", g.join(","));
            if inst.args.has_param() { key = format!("{key}@{}", self.path(root)); }
        }
        if self.seen.contains(&key) { return Some(key); }
        if tcx.is_mir_available(d) {
            self.seen.insert(key.clone());
            self.queue.push_back((key.clone(), inst, root));
            return Some(key);
        }
        // non-generic item of another workspace crate: its body is in that crate's facts
        if ws && g.is_empty() { return Some(key); }
        None
    }

    fn callee(&mut self, d: DefId, args: GenericArgsRef<'tcx>, env: ty::TypingEnv<'tcx>, root: DefId) -> J {
        let tcx = self.tcx;
        let mut o = vec![("path".to_string(), s(self.path(d)))];
        let g = self.gargs(args);
        o.push(("args".into(), J::A(g.iter().map(|x| s(x.clone())).collect())));
        let is_trait_item = tcx.trait_of_assoc(d).is_some();
        if is_trait_item { o.push(("trait".into(), J::B(true))); }
        if matches!(tcx.def_kind(d), DefKind::Ctor(..)) { o.push(("ctor".into(), J::B(true))); return J::O(o); }
        if tcx.fn_sig(d).skip_binder().safety().is_unsafe() { o.push(("unsafe".into(), J::B(true))); }
        if let Ok(Some(inst)) = Instance::try_resolve(tcx, env, d, args) {
            match inst.def {
                InstanceKind::Item(rd) => {
                    o.push(("res".into(), s(self.path(rd))));
                    if let Some(k) = self.request(inst, root) { o.push(("key".into(), s(k))); }
                    if let Some(imp) = tcx.impl_of_assoc(rd) { o.push(("impl_local".into(), J::B(self.in_workspace(imp)))); }
                }
                InstanceKind::Intrinsic(rd) => { o.push(("res".into(), s(self.path(rd)))); o.push(("rk".into(), s("intrinsic"))); }
                InstanceKind::Virtual(rd, _) => { o.push(("res".into(), s(self.path(rd)))); o.push(("rk".into(), s("virtual"))); }
                InstanceKind::Shim(ty::ShimKind::ClosureOnce { closure, .. }) => {
                    o.push(("res".into(), s(self.path(closure))));
                    o.push(("rk".into(), s("closureonce")));
                }
                InstanceKind::Shim(ty::ShimKind::FnPtr(_, t)) => {
                    o.push(("rk".into(), s("fnptr")));
                    if let ty::FnDef(fd, fa) = t.kind() {
                        let c = self.callee(*fd, fa.skip_binder(), env, root);
                        o.push(("target".into(), c));
                    }
                }
                k => { o.push(("rk".into(), s(format!("{k:?}")))); }
            }
        } else {
            o.push(("rk".into(), s("unresolved")));
        }
        J::O(o)
    }

    fn stmt(&mut self, st: &Statement<'tcx>, b: &Body<'tcx>, env: ty::TypingEnv<'tcx>, root: DefId) -> Option<J> {
        match &st.kind {
            StatementKind::Assign(x) => {
                let (p, r) = &**x;
                let mut o = vec![("d".to_string(), self.place(p, b))];
                self.rvalue(r, b, env, root, &mut o);
                o.push(("sp".into(), self.span(st.source_info.span)));
                Some(J::O(o))
            }
            StatementKind::SetDiscriminant { place, variant_index } => Some(J::O(vec![
                ("d".into(), self.place(place, b)), ("r".into(), s("setdiscr")), ("v".into(), J::N(variant_index.as_usize() as i128)),
            ])),
            StatementKind::StorageDead(l) => Some(J::O(vec![("dead".into(), J::N(l.as_usize() as i128))])),
            _ => None,
        }
    }

    fn rvalue(&mut self, r: &Rvalue<'tcx>, b: &Body<'tcx>, env: ty::TypingEnv<'tcx>, root: DefId, o: &mut Vec<(String, J)>) {
        let tcx = self.tcx;
        match r {
            Rvalue::Use(x, ..) => { o.push(("r".into(), s("use"))); let v = self.operand(x, b, env, root); o.push(("x".into(), v)); }
            Rvalue::CopyForDeref(p) => { o.push(("r".into(), s("use"))); let v = J::O(vec![("c".into(), self.place(p, b))]); o.push(("x".into(), v)); }
            Rvalue::Repeat(x, n) => { o.push(("r".into(), s("repeat"))); let v = self.operand(x, b, env, root); o.push(("x".into(), v)); o.push(("n".into(), s(format!("{n}")))); }
            Rvalue::Ref(_, k, p) => { o.push(("r".into(), s("ref"))); o.push(("mut".into(), J::B(matches!(k, BorrowKind::Mut { .. })))); o.push(("x".into(), self.place(p, b))); }
            Rvalue::Reborrow(_, m, p) => { o.push(("r".into(), s("ref"))); o.push(("mut".into(), J::B(m.is_mut()))); o.push(("x".into(), self.place(p, b))); }
            Rvalue::RawPtr(k, p) => { o.push(("r".into(), s("raw"))); o.push(("mut".into(), J::B(matches!(k, RawPtrKind::Mut)))); o.push(("x".into(), self.place(p, b))); }
            Rvalue::Cast(k, x, t) => {
                o.push(("r".into(), s("cast")));
                o.push(("ck".into(), s(format!("{k:?}"))));
                let from = x.ty(&b.local_decls, tcx);
                o.push(("from".into(), s(self.ty(from))));
                o.push(("to".into(), s(self.ty(*t))));
                let v = self.operand(x, b, env, root);
                o.push(("x".into(), v));
            }
            Rvalue::BinaryOp(op, ab) => {
                o.push(("r".into(), s("bin")));
                o.push(("op".into(), s(format!("{op:?}"))));
                let x = self.operand(&ab.0, b, env, root);
                let y = self.operand(&ab.1, b, env, root);
                o.push(("x".into(), x));
                o.push(("y".into(), y));
            }
            Rvalue::UnaryOp(op, x) => { o.push(("r".into(), s("un"))); o.push(("op".into(), s(format!("{op:?}")))); let v = self.operand(x, b, env, root); o.push(("x".into(), v)); }
            Rvalue::Discriminant(p) => {
                o.push(("r".into(), s("discr")));
                o.push(("x".into(), self.place(p, b)));
                let t = p.ty(&b.local_decls, tcx).ty;
                self.note_ty(t);
                o.push(("ty".into(), s(self.ty(t))));
                if let ty::Adt(a, _) = t.kind() {
                    if a.is_enum() {
                        let vs = a.discriminants(tcx).map(|(v, d)| (format!("{}", d.val), s(a.variant(v).name.to_string()))).collect();
                        o.push(("vs".into(), J::O(vs)));
                    }
                }
            }
            Rvalue::Aggregate(k, xs) => {
                o.push(("r".into(), s("agg")));
                match &**k {
                    AggregateKind::Adt(d, v, _, _, active) => {
                        let adt = tcx.adt_def(*d);
                        self.note_adt(*d);
                        let var = adt.variant(*v);
                        o.push(("adt".into(), s(self.path(*d))));
                        o.push(("var".into(), s(var.name.to_string())));
                        let fs = if let Some(f) = active { vec![s(var.fields[*f].name.to_string())] } else { var.fields.iter().map(|f| s(f.name.to_string())).collect() };
                        o.push(("fs".into(), J::A(fs)));
                    }
                    AggregateKind::Closure(d, _) => { o.push(("closure".into(), s(self.path(*d)))); }
                    AggregateKind::Tuple => o.push(("tuple".into(), J::B(true))),
                    AggregateKind::Array(t) => o.push(("array".into(), s(self.ty(*t)))),
                    AggregateKind::RawPtr(t, _) => o.push(("rawptr".into(), s(self.ty(*t)))),
                    k => o.push(("other".into(), s(format!("{k:?}")))),
                }
                let v = xs.iter().map(|x| self.operand(x, b, env, root)).collect();
                o.push(("xs".into(), J::A(v)));
            }
            Rvalue::ThreadLocalRef(d) => { o.push(("r".into(), s("tls"))); o.push(("static".into(), s(self.path(*d)))); }
            r => { o.push(("r".into(), s("other"))); o.push(("dbg".into(), s(format!("{r:?}")))); }
        }
    }

    fn unwind(&self, u: &UnwindAction) -> J {
        match u { UnwindAction::Cleanup(b) => J::N(b.as_usize() as i128), UnwindAction::Continue => s("continue"), UnwindAction::Unreachable => s("unreachable"), UnwindAction::Terminate(_) => s("terminate") }
    }

    fn term(&mut self, t: &Terminator<'tcx>, b: &Body<'tcx>, env: ty::TypingEnv<'tcx>, root: DefId) -> J {
        let tcx = self.tcx;
        let mut o: Vec<(String, J)> = vec![];
        match &t.kind {
            TerminatorKind::Goto { target, .. } => { o.push(("t".into(), s("goto"))); o.push(("to".into(), J::N(target.as_usize() as i128))); }
            TerminatorKind::SwitchInt { discr, targets } => {
                o.push(("t".into(), s("switch")));
                let v = self.operand(discr, b, env, root);
                o.push(("x".into(), v));
                let dt = discr.ty(&b.local_decls, tcx);
                o.push(("ty".into(), s(self.ty(dt))));
                o.push(("cases".into(), J::A(targets.iter().map(|(v, t)| J::A(vec![s(format!("{v}")), J::N(t.as_usize() as i128)])).collect())));
                o.push(("else".into(), J::N(targets.otherwise().as_usize() as i128)));
            }
            TerminatorKind::UnwindResume => o.push(("t".into(), s("resume"))),
            TerminatorKind::UnwindTerminate(_) => o.push(("t".into(), s("terminate"))),
            TerminatorKind::Return => o.push(("t".into(), s("return"))),
            TerminatorKind::Unreachable => o.push(("t".into(), s("unreachable"))),
            TerminatorKind::Drop { place, target, unwind, .. } => {
                o.push(("t".into(), s("drop")));
                o.push(("x".into(), self.place(place, b)));
                let ty = place.ty(&b.local_decls, tcx).ty;
                o.push(("ty".into(), s(self.ty(ty))));
                let mut fx = vec![];
                self.drop_fx(ty, env, root, 0, &mut fx, &mut HashSet::new());
                o.push(("fx".into(), J::A(fx)));
                o.push(("to".into(), J::N(target.as_usize() as i128)));
                o.push(("uw".into(), self.unwind(unwind)));
            }
            // core::mem::drop(x) is the drop of x
            TerminatorKind::Call { func, args, target: Some(target), unwind, .. }
                if args.len() == 1 && matches!(func.ty(&b.local_decls, tcx).kind(), ty::FnDef(d, _) if self.path(*d) == "core::mem::drop")
                    && matches!(args[0].node, Operand::Move(_)) =>
            {
                let Operand::Move(place) = &args[0].node else { unreachable!() };
                o.push(("t".into(), s("drop")));
                o.push(("x".into(), self.place(place, b)));
                let ty = place.ty(&b.local_decls, tcx).ty;
                o.push(("ty".into(), s(self.ty(ty))));
                let mut fx = vec![];
                self.drop_fx(ty, env, root, 0, &mut fx, &mut HashSet::new());
                o.push(("fx".into(), J::A(fx)));
                o.push(("to".into(), J::N(target.as_usize() as i128)));
                o.push(("uw".into(), self.unwind(unwind)));
            }
            TerminatorKind::Call { func, args, destination, target, unwind, .. } => {
                o.push(("t".into(), s("call")));
                let f = self.operand(func, b, env, root);
                o.push(("f".into(), f));
                let a = args.iter().map(|a| self.operand(&a.node, b, env, root)).collect();
                o.push(("a".into(), J::A(a)));
                let at = args.iter().map(|a| { let t = a.node.ty(&b.local_decls, tcx); s(self.ty(t)) }).collect();
                o.push(("at".into(), J::A(at)));
                o.push(("d".into(), self.place(destination, b)));
                let dt = destination.ty(&b.local_decls, tcx).ty;
                o.push(("dt".into(), s(self.ty(dt))));
                if let Some(t) = target { o.push(("to".into(), J::N(t.as_usize() as i128))); }
                o.push(("uw".into(), self.unwind(unwind)));
            }
            TerminatorKind::Assert { cond, expected, msg, target, unwind } => {
                o.push(("t".into(), s("assert")));
                let v = self.operand(cond, b, env, root);
                o.push(("x".into(), v));
                o.push(("exp".into(), J::B(*expected)));
                let k = format!("{msg:?}");
                o.push(("msg".into(), s(k.chars().take(60).collect::<String>())));
                o.push(("to".into(), J::N(target.as_usize() as i128)));
                o.push(("uw".into(), self.unwind(unwind)));
            }
            TerminatorKind::FalseEdge { real_target, .. } => { o.push(("t".into(), s("goto"))); o.push(("to".into(), J::N(real_target.as_usize() as i128))); }
            TerminatorKind::FalseUnwind { real_target, .. } => { o.push(("t".into(), s("goto"))); o.push(("to".into(), J::N(real_target.as_usize() as i128))); }
            k => { o.push(("t".into(), s("other"))); o.push(("dbg".into(), s(format!("{k:?}")))); }
        }
        o.push(("sp".into(), self.span(t.source_info.span)));
        J::O(o)
    }

    /// What dropping a value of this type runs: Drop impls (by path), type parameters and trait objects.
    fn drop_fx(&mut self, t: Ty<'tcx>, env: ty::TypingEnv<'tcx>, root: DefId, depth: usize, out: &mut Vec<J>, seen: &mut HashSet<Ty<'tcx>>) {
        let tcx = self.tcx;
        if depth > 12 || !seen.insert(t) || !t.needs_drop(tcx, env) { return; }
        match t.kind() {
            ty::Adt(a, args) => {
                if a.is_manually_drop() { return; }
                if let Some(dd) = tcx.adt_destructor(a.did()) {
                    let mut o = vec![("adt".to_string(), s(self.path(a.did()))), ("drop".into(), s(self.path(dd.did)))];
                    if self.in_workspace(a.did()) {
                        let inst = Instance::new_raw(dd.did, args);
                        if let Some(k) = self.request(inst, root) { o.push(("key".into(), s(k))); }
                    }
                    out.push(J::O(o));
                }
                if a.is_box() { self.drop_fx(args.type_at(0), env, root, depth + 1, out, seen); return; }
                for f in a.all_fields() {
                    let ft = f.ty(tcx, args);
                    let ft = tcx.try_normalize_erasing_regions(env, ft).unwrap_or_else(|_| f.ty(tcx, args).skip_norm_wip());
                    self.drop_fx(ft, env, root, depth + 1, out, seen);
                }
                // containers own their element through raw pointers
                for x in args.iter() { if let Some(x) = x.as_type() { self.drop_fx(x, env, root, depth + 1, out, seen); } }
            }
            ty::Tuple(ts) => for x in ts.iter() { self.drop_fx(x, env, root, depth + 1, out, seen); },
            ty::Array(x, _) | ty::Slice(x) => self.drop_fx(*x, env, root, depth + 1, out, seen),
            ty::Closure(_, a) => for x in a.as_closure().upvar_tys() { self.drop_fx(x, env, root, depth + 1, out, seen); },
            ty::Param(p) => out.push(J::O(vec![("param".into(), s(p.name.to_string()))])),
            ty::Dynamic(..) => out.push(J::O(vec![("dyn".into(), s(self.ty(t)))])),
            _ => {}
        }
    }

    fn note_ty(&mut self, t: Ty<'tcx>) {
        for x in t.walk() {
            if let Some(t) = x.as_type() { if let ty::Adt(a, _) = t.kind() { self.note_adt(a.did()); } }
        }
    }
    fn note_adt(&mut self, d: DefId) {
        if self.adt_seen.insert(d) { self.adt_queue.push_back(d); }
    }
    fn emit_adt(&mut self, d: DefId) {
        let tcx = self.tcx;
        let a = tcx.adt_def(d);
        let vars = a.variants().iter().map(|v| {
            let fs = v.fields.iter().map(|f| {
                let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                J::O(vec![("n".into(), s(f.name.to_string())), ("ty".into(), s(self.ty(t))), ("vis".into(), s(if f.vis.is_public() { "pub" } else { "priv" }))])
            }).collect();
            J::O(vec![("n".into(), s(v.name.to_string())), ("fs".into(), J::A(fs))])
        }).collect();
        let mut o = vec![
            ("kind".to_string(), s(if a.is_enum() { "enum" } else if a.is_union() { "union" } else { "struct" })),
            ("vars".into(), J::A(vars)),
            ("transparent".into(), J::B(a.repr().transparent())),
            ("reprc".into(), J::B(a.repr().c())),
            ("crate".into(), s(tcx.crate_name(d.krate).to_string())),
        ];
        if let Some(ld) = d.as_local() {
            o.push(("pub".into(), J::B(tcx.effective_visibilities(()).is_reachable(ld))));
            o.push(("span".into(), self.span(tcx.def_span(d))));
        }
        if let Some(dd) = tcx.adt_destructor(d) { o.push(("drop".into(), s(self.path(dd.did)))); }
        let p = self.path(d);
        self.adts.insert(p, J::O(o));
    }

    /// whether t: trait holds for every choice of the parameters of the item env belongs to
    fn implements(&self, item: DefId, t: Ty<'tcx>, tr: DefId) -> bool {
        use rustc_infer::infer::TyCtxtInferExt;
        use rustc_trait_selection::infer::InferCtxtExt;
        let env = self.tcx.param_env(item);
        let infcx = self.tcx.infer_ctxt().build(ty::TypingMode::non_body_analysis());
        let t = self.tcx.erase_and_anonymize_regions(t);
        infcx.type_implements_trait(tr, [t], env).must_apply_modulo_regions()
    }
    /// fields of an `unsafe impl Send/Sync` type that do not have the trait under the impl's own bounds
    fn lacking(&mut self, imp: DefId, tr: DefId, selfty: Ty<'tcx>) -> J {
        let tcx = self.tcx;
        let (send, sync) = (tcx.get_diagnostic_item(rustc_span::sym::Send), tcx.lang_items().sync_trait());
        if Some(tr) != send && Some(tr) != sync { return J::A(vec![]); }
        let ty::Adt(a, args) = selfty.kind() else { return J::A(vec![J::O(vec![("ty".into(), s(self.ty(selfty)))])]) };
        let mut out = vec![];
        for v in a.variants() {
            for f in &v.fields {
                let t = f.ty(tcx, args).skip_norm_wip();
                if self.implements(imp, t, tr) { continue; }
                let mut o = vec![("n".to_string(), s(f.name.to_string())), ("ty".into(), s(self.ty(t)))];
                let inner: Vec<Ty<'tcx>> = match t.kind() {
                    ty::RawPtr(x, _) => vec![*x],
                    ty::Adt(_, b) => b.types().collect(),
                    _ => vec![],
                };
                let inner = inner.into_iter().map(|x| {
                    let is = |d: Option<DefId>| J::B(d.map(|d| self.implements(imp, x, d)).unwrap_or(false));
                    let (a, b) = (is(send), is(sync));
                    J::O(vec![("ty".into(), s(self.ty(x))), ("send".into(), a), ("sync".into(), b)])
                }).collect();
                o.push(("inner".into(), J::A(inner)));
                out.push(J::O(o));
            }
        }
        J::A(out)
    }

    fn finish(mut self) -> J {
        let tcx = self.tcx;
        // all local ADTs, impls, unsafe constructs
        let mut impls = vec![];
        let mut unsafes = vec![];
        let mut statics = vec![];
        for id in tcx.hir_free_items() {
            let item = tcx.hir_item(id);
            let d = item.owner_id.to_def_id();
            match tcx.def_kind(d) {
                DefKind::Struct | DefKind::Enum | DefKind::Union => self.note_adt(d),
                DefKind::Static { mutability, .. } => {
                    let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    statics.push(J::O(vec![("path".into(), s(self.path(d))), ("ty".into(), s(self.ty(t))), ("mut".into(), J::B(mutability.is_mut())), ("span".into(), self.span(item.span)),
                        ("pub".into(), J::B(tcx.effective_visibilities(()).is_reachable(item.owner_id.def_id))),
                        ("section".into(), s(tcx.codegen_fn_attrs(d).link_section.map(|x| x.to_string()).unwrap_or_default()))]));
                }
                DefKind::Impl { of_trait } => {
                    let selfty = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    let mut o = vec![("self".to_string(), s(self.ty(selfty))), ("span".into(), self.span(item.span)), ("path".into(), s(self.path(d)))];
                    if of_trait {
                        let h = tcx.impl_trait_header(d);
                        let tr = h.trait_ref.instantiate_identity().skip_norm_wip();
                        o.push(("trait".into(), s(self.trait_str(tr.def_id, &tr.args[1..]))));
                        o.push(("unsafe".into(), J::B(h.safety.is_unsafe())));
                        o.push(("polarity".into(), s(format!("{:?}", h.polarity))));
                        if h.safety.is_unsafe() { let l = self.lacking(d, tr.def_id, selfty); o.push(("lacking".into(), l)); }
                    }
                    o.push(("from_expansion".into(), J::B(item.span.from_expansion())));
                    let preds = tcx.clauses_of(d).instantiate_identity(tcx).clauses.iter().map(|p| s(rustc_middle::ty::print::with_no_trimmed_paths!(format!("{:?}", p)))).collect();
                    o.push(("preds".into(), J::A(preds)));
                    let items = tcx.associated_item_def_ids(d).iter().map(|x| s(tcx.item_name(*x).to_string())).collect();
                    o.push(("items".into(), J::A(items)));
                    impls.push(J::O(o));
                }
                _ => {}
            }
        }
        while let Some(d) = self.adt_queue.pop_front() { self.emit_adt(d); }
        for ld in tcx.hir_body_owners() {
            let body = tcx.hir_body_owned_by(ld);
            let mut v = UnsafeVisitor { found: vec![] };
            v.visit_body(body);
            for (sp, compiler) in v.found {
                unsafes.push(J::O(vec![("in".into(), s(self.path(ld.to_def_id()))), ("span".into(), self.span(sp)), ("expansion".into(), J::B(compiler))]));
            }
        }
        let mut adts: Vec<(String, J)> = self.adts.drain().collect();
        adts.sort_by(|a, b| a.0.cmp(&b.0));
        J::O(vec![
            ("crate".into(), s(tcx.crate_name(LOCAL_CRATE).to_string())),
            ("bodies".into(), J::O(self.bodies)),
            ("adts".into(), J::O(adts)),
            ("impls".into(), J::A(impls)),
            ("statics".into(), J::A(statics)),
            ("unsafes".into(), J::A(unsafes)),
        ])
    }
}

struct UnsafeVisitor { found: Vec<(Span, bool)> }
impl<'tcx> Visitor<'tcx> for UnsafeVisitor {
    fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
        if let rustc_hir::BlockCheckMode::UnsafeBlock(_) = b.rules { self.found.push((b.span, b.span.from_expansion())); }
        intravisit::walk_block(self, b);
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER passes the real rustc as the first argument
    if args.len() > 1 && args[1].ends_with("rustc") { args.remove(1); }
    args[0] = "rustc".into();
    if !args.iter().any(|a| a.starts_with("--sysroot")) {
        if let Ok(sr) = std::env::var("MRK_SYSROOT") { args.push("--sysroot".into()); args.push(sr); }
    }
    std::process::exit(match rustc_driver::catch_fatal_errors(|| rustc_driver::compiler_entrypoint(&args, &mut Cb)) { Ok(()) => 0, Err(_) => 1 });
}
