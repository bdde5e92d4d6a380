#![feature(rustc_private)]
//! Dumps the monomorphic, type-checked MIR reachable from a crate as JSON.
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_hir;
extern crate rustc_span;
extern crate rustc_session;
extern crate rustc_public;
extern crate serde;
extern crate serde_json;

use rustc_public::mir::alloc::{AllocId, GlobalAlloc};
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::visit::{Location, MirVisitor};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::rustc_internal;
use rustc_public::{CrateDef, CrateDefType};
use serde_json::{json, Map, Value};
use std::collections::{HashMap, HashSet, VecDeque};
use std::ops::ControlFlow;

struct Cx {
    types: Map<String, Value>,
    seen_ty: HashSet<Ty>,
    ty_queue: VecDeque<Ty>,
    allocs: Map<String, Value>,
    insts: HashMap<Instance, String>,
    keys: HashMap<String, usize>,
    inst_queue: VecDeque<Instance>,
    bodies: Map<String, Value>,
    fn_tys: Map<String, Value>,
}

fn idx<T: serde::Serialize>(t: &T) -> String {
    serde_json::to_value(t).unwrap().to_string()
}

const STD_OK: &[&str] = &[
    "option::Option", "result::Result", "ops::ControlFlow", "cmp::Ordering", "cmp::Ord", "cmp::PartialOrd",
    "ops::control_flow", "convert::", "core::option", "core::result", "core::bool",
    "bool::", "default::Default", "<bool>", "core::convert", "core::cmp", "std::convert", "std::cmp", "std::option", "std::result", "std::bool", "core::ops::try_trait", "std::ops::try_trait", "std::ops::Try", "std::ops::FromResidual", "std::ops::Residual", "ops::function",
];

fn wants_body(inst: &Instance) -> bool {
    if matches!(inst.kind, InstanceKind::Virtual { .. } | InstanceKind::Intrinsic | InstanceKind::LlvmIntrinsic) {
        return false;
    }
    let kr = inst.def.krate().name.to_string();
    if kr == "osm_io" || kr == "osmio_roots" {
        return inst.has_body();
    }
    if kr == "prost" {
        let d = inst.def.name().to_string();
        return inst.has_body() && (d.starts_with("prost::message::") || d.starts_with("prost::Message::") || d.contains("Message::"));
    }
    if kr == "core" || kr == "alloc" || kr == "std" {
        let n = inst.name().to_string();
        let d = inst.def.name().to_string();
        if matches!(inst.kind, InstanceKind::Shim) {
            return n.contains("FnOnce") || n.contains("FnMut") || n.contains("Fn>::call") ;
        }
        return inst.has_body() && STD_OK.iter().any(|p| n.starts_with(p) || d.starts_with(p) || n.starts_with(&format!("std::{p}")) || n.starts_with(&format!("core::{p}")) || n.starts_with(&format!("<std::{p}")) || n.starts_with(&format!("<core::{p}"))|| (n.starts_with("<std::") && n.contains(&format!(" as std::{p}"))));
    }
    false
}

impl Cx {
    fn add_ty(&mut self, t: Ty) {
        if self.seen_ty.insert(t) {
            self.ty_queue.push_back(t);
        }
    }
    fn add_inst(&mut self, inst: Instance) -> String {
        if let Some(k) = self.insts.get(&inst) {
            return k.clone();
        }
        let mut name = inst.name().to_string();
        let n = self.keys.entry(name.clone()).or_insert(0);
        *n += 1;
        if *n > 1 {
            name = format!("{}#{}", name, n);
        }
        self.insts.insert(inst, name.clone());
        self.inst_queue.push_back(inst);
        name
    }
    fn add_args(&mut self, a: &GenericArgs) {
        for g in a.0.iter() {
            if let GenericArgKind::Type(t) = g {
                self.add_ty(*t);
            }
        }
    }
    fn add_alloc_contents(&mut self, a: &Allocation) {
        for (_, p) in a.provenance.ptrs.iter() {
            self.add_alloc(p.0);
        }
    }
    fn add_alloc(&mut self, id: AllocId) {
        let k = idx(&id);
        if self.allocs.contains_key(&k) {
            return;
        }
        self.allocs.insert(k.clone(), Value::Null);
        let g = GlobalAlloc::from(id);
        let v = match &g {
            GlobalAlloc::Function(i) => json!({"fn": self.add_inst(*i)}),
            GlobalAlloc::VTable(t, _) => {
                self.add_ty(*t);
                json!({"vtable": serde_json::to_value(t).unwrap()})
            }
            GlobalAlloc::Static(d) => json!({"static": d.name().to_string(), "krate": d.krate().name.to_string()}),
            GlobalAlloc::Memory(a) => {
                self.add_alloc_contents(a);
                json!({"mem": serde_json::to_value(a).unwrap()})
            }
            GlobalAlloc::TypeId { ty } => json!({"typeid": idx(ty)}),
        };
        self.allocs.insert(k, v);
    }

    fn adt_json(&mut self, def: &AdtDef, args: &GenericArgs) -> Value {
        let mut vs = vec![];
        let is_enum = format!("{:?}", def.kind()) == "Enum";
        for v in def.variants() {
            let mut fs = vec![];
            for f in v.fields() {
                let t = f.ty_with_args(args);
                self.add_ty(t);
                fs.push(json!([f.name.to_string(), serde_json::to_value(t).unwrap()]));
            }
            let d = if is_enum { def.discriminant_for_variant(v.idx()).val.to_string() } else { "0".to_string() };
            vs.push(json!({"name": v.name().to_string(), "fields": fs, "discr": d}));
        }
        Value::Array(vs)
    }

    fn process_ty(&mut self, t: Ty) {
        let kind = t.kind();
        let name = format!("{}", t);
        let mut o = Map::new();
        o.insert("s".into(), json!(name));
        let inner = |x: &Ty| serde_json::to_value(x).unwrap();
        if let TyKind::RigidTy(r) = &kind {
            match r {
                RigidTy::Bool => { o.insert("k".into(), json!("bool")); }
                RigidTy::Char => { o.insert("k".into(), json!("char")); }
                RigidTy::Int(i) => { o.insert("k".into(), json!("int")); o.insert("n".into(), json!(format!("{:?}", i))); }
                RigidTy::Uint(i) => { o.insert("k".into(), json!("uint")); o.insert("n".into(), json!(format!("{:?}", i))); }
                RigidTy::Float(i) => { o.insert("k".into(), json!("float")); o.insert("n".into(), json!(format!("{:?}", i))); }
                RigidTy::Str => { o.insert("k".into(), json!("str")); }
                RigidTy::Never => { o.insert("k".into(), json!("never")); }
                RigidTy::Adt(d, a) => {
                    o.insert("k".into(), json!("adt"));
                    o.insert("adt".into(), json!(d.name().to_string()));
                    o.insert("krate".into(), json!(d.krate().name.to_string()));
                    o.insert("kind".into(), json!(format!("{:?}", d.kind())));
                    o.insert("is_box".into(), json!(d.is_box()));
                    self.add_args(a);
                    let targs: Vec<Value> = a.0.iter().filter_map(|g| if let GenericArgKind::Type(t) = g { Some(inner(t)) } else { None }).collect();
                    o.insert("args".into(), json!(targs));
                    let vs = self.adt_json(d, a);
                    o.insert("variants".into(), vs);
                }
                RigidTy::Array(e, n) => {
                    self.add_ty(*e);
                    o.insert("k".into(), json!("array"));
                    o.insert("elem".into(), inner(e));
                    o.insert("len".into(), json!(n.eval_target_usize().ok()));
                }
                RigidTy::Slice(e) => { self.add_ty(*e); o.insert("k".into(), json!("slice")); o.insert("elem".into(), inner(e)); }
                RigidTy::RawPtr(e, m) => { self.add_ty(*e); o.insert("k".into(), json!("ptr")); o.insert("elem".into(), inner(e)); o.insert("mut".into(), json!(*m == Mutability::Mut)); }
                RigidTy::Ref(_, e, m) => { self.add_ty(*e); o.insert("k".into(), json!("ref")); o.insert("elem".into(), inner(e)); o.insert("mut".into(), json!(*m == Mutability::Mut)); }
                RigidTy::FnDef(d, a) => {
                    self.add_args(a);
                    o.insert("k".into(), json!("fndef"));
                    o.insert("def".into(), json!(d.name().to_string()));
                    if let Ok(i) = Instance::resolve_for_fn_ptr(*d, a) {
                        let k = self.add_inst(i);
                        o.insert("inst".into(), json!(k));
                    }
                }
                RigidTy::FnPtr(_) => { o.insert("k".into(), json!("fnptr")); }
                RigidTy::Closure(d, a) => {
                    o.insert("k".into(), json!("closure"));
                    o.insert("def".into(), json!(d.name().to_string()));
                    let n = a.0.len();
                    let mut ck = ClosureKind::FnOnce;
                    if n >= 3 {
                        if let GenericArgKind::Type(kt) = &a.0[n - 3] {
                            let ks = format!("{}", kt);
                            ck = match ks.as_str() { "i8" => ClosureKind::Fn, "i16" => ClosureKind::FnMut, _ => ClosureKind::FnOnce };
                        }
                        if let GenericArgKind::Type(ut) = &a.0[n - 1] {
                            if let TyKind::RigidTy(RigidTy::Tuple(us)) = ut.kind() {
                                for u in us.iter() { self.add_ty(*u); }
                                o.insert("upvars".into(), json!(us.iter().map(|u| inner(u)).collect::<Vec<_>>()));
                            }
                        }
                    }
                    if let Ok(i) = Instance::resolve_closure(*d, a, ck) {
                        let k = self.add_inst(i);
                        o.insert("inst".into(), json!(k));
                    }
                }
                RigidTy::Dynamic(..) => { o.insert("k".into(), json!("dyn")); }
                RigidTy::Tuple(ts) => {
                    for x in ts.iter() { self.add_ty(*x); }
                    o.insert("k".into(), json!("tuple"));
                    o.insert("elems".into(), json!(ts.iter().map(|u| inner(u)).collect::<Vec<_>>()));
                }
                _ => { o.insert("k".into(), json!("other")); }
            }
        } else {
            o.insert("k".into(), json!("param"));
        }
        let want_layout = matches!(&kind, TyKind::RigidTy(RigidTy::Adt(..)) | TyKind::RigidTy(RigidTy::Tuple(..)) | TyKind::RigidTy(RigidTy::Array(..)) | TyKind::RigidTy(RigidTy::Closure(..)));
        if want_layout && !has_param(&name) {
            if let Ok(l) = t.layout() {
                let sh = l.shape();
                o.insert("size".into(), json!(sh.size.bytes()));
                o.insert("foff".into(), serde_json::to_value(&sh.fields).unwrap());
                o.insert("lvar".into(), serde_json::to_value(&sh.variants).unwrap());
            }
        }
        self.types.insert(idx(&t), Value::Object(o));
    }

    fn process_inst(&mut self, inst: Instance) {
        let key = self.insts[&inst].clone();
        let mut o = Map::new();
        o.insert("def".into(), json!(inst.def.name().to_string()));
        o.insert("krate".into(), json!(inst.def.krate().name.to_string()));
        o.insert("kind".into(), json!(match inst.kind { InstanceKind::Item => "item".to_string(), InstanceKind::Virtual { idx } => format!("virtual{}", idx), InstanceKind::Shim => "shim".into(), _ => "intrinsic".into() }));
        let args = inst.args();
        self.add_args(&args);
        let targs: Vec<Value> = args.0.iter().filter_map(|g| if let GenericArgKind::Type(t) = g { Some(serde_json::to_value(t).unwrap()) } else { None }).collect();
        o.insert("args".into(), json!(targs));
        if wants_body(&inst) {
            if let Some(body) = inst.body() {
                let sp = body.span.get_lines();
                o.insert("file".into(), json!(body.span.get_filename()));
                o.insert("line".into(), json!([sp.start_line, sp.end_line]));
                let mut v = BodyV { cx: self, calls: Map::new(), body: &body, lines: Map::new() };
                v.visit_body(&body);
                let calls = v.calls;
                let lines = v.lines;
                o.insert("calls".into(), Value::Object(calls));
                o.insert("lines".into(), Value::Object(lines));
                let mut b = serde_json::to_value(&body).unwrap();
                strip(&mut b);
                o.insert("body".into(), b);
            }
        }
        self.bodies.insert(key, Value::Object(o));
    }
}

fn strip(v: &mut Value) {
    match v {
        Value::Object(m) => {
            m.remove("source_scopes");
            m.remove("span");
            m.remove("source_info");
            m.remove("user_ty");
            m.remove("unwind");
            for (_, x) in m.iter_mut() { strip(x); }
        }
        Value::Array(a) => for x in a.iter_mut() { strip(x) },
        _ => {}
    }
}

struct BodyV<'a> {
    cx: &'a mut Cx,
    calls: Map<String, Value>,
    lines: Map<String, Value>,
    body: &'a Body,
}

impl<'a> MirVisitor for BodyV<'a> {
    fn visit_ty(&mut self, ty: &Ty, _l: Location) {
        self.cx.add_ty(*ty);
    }
    fn visit_mir_const(&mut self, c: &MirConst, _l: Location) {
        self.cx.add_ty(c.ty());
        if let ConstantKind::Allocated(a) = c.kind() {
            self.cx.add_alloc_contents(a);
        }
    }
    fn visit_place(&mut self, p: &Place, _ptx: visit::PlaceContext, _l: Location) {
        for e in p.projection.iter() {
            if let ProjectionElem::Field(_, t) = e {
                self.cx.add_ty(*t);
            }
        }
    }
    fn visit_basic_block(&mut self, bb: &BasicBlock) {
        // record line for terminator + resolve callees
        let i = self.body.blocks.iter().position(|b| std::ptr::eq(b, bb)).unwrap();
        self.lines.insert(i.to_string(), json!(bb.terminator.source_info.span.get_lines().start_line));
        match &bb.terminator.kind {
            TerminatorKind::Call { func, args, .. } => {
                let fty = func.ty(self.body.locals()).unwrap();
                for a in args {
                    if let Ok(t) = a.ty(self.body.locals()) { self.cx.add_ty(t); }
                }
                self.cx.add_ty(fty);
                if let TyKind::RigidTy(RigidTy::FnDef(d, a)) = fty.kind() {
                    self.cx.add_args(&a);
                    let targs: Vec<Value> = a.0.iter().filter_map(|g| if let GenericArgKind::Type(t) = g { Some(serde_json::to_value(t).unwrap()) } else { None }).collect();
                    let mut m = Map::new();
                    m.insert("def".into(), json!(d.name().to_string()));
                    m.insert("targs".into(), json!(targs));
                    if let Ok(inst) = Instance::resolve(d, &a) {
                        let k = self.cx.add_inst(inst);
                        m.insert("inst".into(), json!(k));
                    }
                    self.calls.insert(i.to_string(), Value::Object(m));
                }
            }
            TerminatorKind::Drop { place, .. } => {
                if let Ok(t) = place.ty(self.body.locals()) {
                    self.cx.add_ty(t);
                    let mut m = Map::new();
                    m.insert("dropty".into(), serde_json::to_value(t).unwrap());
                    self.calls.insert(i.to_string(), Value::Object(m));
                }
            }
            _ => {}
        }
        self.super_basic_block(bb);
    }
}

/// the definition and everything around it (modules, the type of an impl block) is declared public
fn is_public(tcx: rustc_middle::ty::TyCtxt<'_>, f: rustc_public::DefId) -> bool {
    use rustc_middle::ty::{TyKind as K, Visibility};
    use rustc_hir::def::DefKind;
    let mut d = rustc_internal::internal(tcx, f);
    loop {
        match tcx.def_kind(d) {
            DefKind::Impl { of_trait } => {
                if let K::Adt(a, _) = tcx.type_of(d).instantiate_identity().skip_norm_wip().kind() { d = a.did(); if of_trait { return is_pub_path(tcx, d); } continue; }
                return false;
            }
            DefKind::Closure => {}
            _ => {
                let in_trait_impl = tcx.opt_parent(d).is_some_and(|p| matches!(tcx.def_kind(p), DefKind::Impl { of_trait: true }));
                if !in_trait_impl && tcx.visibility(d) != Visibility::Public { return false; }
            }
        }
        match tcx.opt_parent(d) { Some(p) => d = p, None => return true }
    }
}
fn is_pub_path(tcx: rustc_middle::ty::TyCtxt<'_>, mut d: rustc_span::def_id::DefId) -> bool {
    loop {
        if tcx.visibility(d) != rustc_middle::ty::Visibility::Public { return false; }
        match tcx.opt_parent(d) { Some(p) => d = p, None => return true }
    }
}

fn analyse(tcx: rustc_middle::ty::TyCtxt<'_>) -> ControlFlow<()> {
    let mut cx = Cx {
        types: Map::new(), seen_ty: HashSet::new(), ty_queue: VecDeque::new(), allocs: Map::new(),
        insts: HashMap::new(), keys: HashMap::new(), inst_queue: VecDeque::new(), bodies: Map::new(), fn_tys: Map::new(),
    };
    let mut items = vec![];
    let mut crates = vec![rustc_public::local_crate()];
    crates.extend(rustc_public::find_crates("osm_io"));
    let mut generic = vec![];
    let mut public = vec![];
    for k in crates.iter() {
        for f in k.fn_defs() {
            let n = f.name().to_string();
            if is_public(tcx, f.def_id()) { public.push(json!(n)); }
            let mut done = false;
            if let TyKind::RigidTy(RigidTy::FnDef(d, a)) = f.ty().kind() {
                if non_generic(&a) && f.has_body() {
                    if let Ok(i) = Instance::resolve(d, &a) { let key = cx.add_inst(i); items.push(json!(key)); done = true; }
                }
            }
            if !done { generic.push(json!(n)); }
        }
    }
    let mut statics = vec![];
    for k in crates.iter() {
        for s in k.statics() {
            let ty = s.ty();
            cx.add_ty(ty);
            let al = match s.eval_initializer() {
                Ok(a) => { cx.add_alloc_contents(&a); serde_json::to_value(&a).unwrap() }
                Err(_) => Value::Null,
            };
            statics.push(json!({"name": s.name().to_string(), "ty": serde_json::to_value(ty).unwrap(), "alloc": al}));
        }
    }
    let mut adts = vec![];
    for k in crates.iter() {
        for a in k.adts() {
            adts.push(json!(a.name().to_string()));
            if a.generics_of().params.is_empty() {
                cx.add_ty(a.ty());
            }
        }
    }
    let mut impls = vec![];
    for k in crates.iter() {
        for im in k.trait_impls() {
            let t = im.trait_impl();
            let mut methods = vec![];
            for a in im.associated_items() {
                methods.push(json!(format!("{:?}", a.def_id.name().to_string())));
            }
            let self_ty = t.value.self_ty();
            cx.add_ty(self_ty);
            impls.push(json!({"trait": t.value.def_id.name().to_string(), "self": format!("{}", self_ty), "self_ty": serde_json::to_value(self_ty).unwrap(), "impl": im.name().to_string(), "methods": methods}));
        }
    }
    loop {
        if let Some(i) = cx.inst_queue.pop_front() { cx.process_inst(i); continue; }
        if let Some(t) = cx.ty_queue.pop_front() { cx.process_ty(t); continue; }
        break;
    }
    let out = json!({"types": cx.types, "allocs": cx.allocs, "bodies": cx.bodies, "items": items, "public": public, "generic": generic, "statics": statics, "adts": adts, "impls": impls, "fn_tys": cx.fn_tys});
    let path = std::env::var("MIRDUMP_OUT").expect("MIRDUMP_OUT");
    std::fs::write(&path, serde_json::to_vec(&out).unwrap()).unwrap();
    ControlFlow::Continue(())
}

fn has_param(_n: &str) -> bool { false }

fn non_generic(a: &GenericArgs) -> bool {
    a.0.iter().all(|g| matches!(g, GenericArgKind::Lifetime(_)))
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
    if args.len() > 1 && args[1].ends_with("rustc") { args.remove(1); }
    let is_roots = args.windows(2).any(|w| w[0] == "--crate-name" && w[1] == "osmio_roots");
    if is_roots {
        let r = rustc_public::run_with_tcx!(&args, analyse);
        match r { Ok(_) | Err(rustc_public::CompilerError::Skipped) => {} Err(e) => { eprintln!("mirdump: {:?}", e); std::process::exit(1); } }
    } else {
        let st = std::process::Command::new("rustc").args(&args[1..]).status().unwrap();
        std::process::exit(st.code().unwrap_or(1));
    }
}
