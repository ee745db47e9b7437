//! Dumps the monomorphic MIR reachable from the `root_*` functions of the crate being compiled as one JSON file.
//! Used as RUSTC_WRAPPER: for every crate but the one named in MIRDUMP_CRATE it is plain rustc.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
#[macro_use]
extern crate rustc_public;
extern crate serde_json;

use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::visit::{Location, MirVisitor};
use rustc_public::mir::{Body, TerminatorKind};
use rustc_public::ty::{
    Allocation, ClosureKind, ConstantKind, FnDef, GenericArgKind, GenericArgs, MirConst, RigidTy, Span, Ty, TyKind,
};
use rustc_public::{CrateDef, CrateDefType};
use serde_json::{json, Map, Value};
use std::collections::{BTreeMap, HashMap, HashSet, VecDeque};
use std::ops::ControlFlow;

struct Dump {
    insts: HashMap<Instance, usize>,
    queue: VecDeque<Instance>,
    inst_json: Vec<Value>,
    types: BTreeMap<usize, Value>,
    ty_queue: VecDeque<Ty>,
    seen_ty: HashSet<Ty>,
    allocs: BTreeMap<String, Value>,
    alloc_queue: VecDeque<rustc_public::mir::alloc::AllocId>,
    seen_alloc: HashSet<rustc_public::mir::alloc::AllocId>,
    stubs: HashMap<String, FnDef>,
    stub_map: HashMap<String, String>,
    cut: Vec<String>,
    resolve_vs_trait: bool,
}

fn tyidx(t: &Ty) -> usize {
    serde_json::to_value(t).unwrap().as_u64().unwrap() as usize
}

fn span(s: &Span) -> Value {
    let l = s.get_lines();
    json!([s.get_filename(), l.start_line])
}

struct Collect<'a> {
    tys: Vec<Ty>,
    consts: Vec<MirConst>,
    body: &'a Body,
}
impl<'a> MirVisitor for Collect<'a> {
    fn visit_ty(&mut self, ty: &Ty, _: Location) {
        self.tys.push(*ty);
    }
    fn visit_mir_const(&mut self, c: &MirConst, l: Location) {
        self.consts.push(c.clone());
        self.tys.push(c.ty());
        self.super_mir_const(c, l);
    }
    fn visit_operand(&mut self, o: &rustc_public::mir::Operand, l: Location) {
        if let Ok(t) = o.ty(self.body.locals()) {
            self.tys.push(t)
        }
        self.super_operand(o, l)
    }
    fn visit_rvalue(&mut self, r: &rustc_public::mir::Rvalue, l: Location) {
        if let Ok(t) = r.ty(self.body.locals()) {
            self.tys.push(t)
        }
        self.super_rvalue(r, l)
    }
}

impl Dump {
    fn inst(&mut self, i: Instance) -> usize {
        if let Some(k) = self.insts.get(&i) {
            return *k;
        }
        let k = self.inst_json.len();
        self.insts.insert(i, k);
        self.inst_json.push(Value::Null);
        self.queue.push_back(i);
        k
    }
    fn ty(&mut self, t: Ty) -> usize {
        if self.seen_ty.insert(t) {
            self.ty_queue.push_back(t);
        }
        tyidx(&t)
    }
    fn alloc(&mut self, id: rustc_public::mir::alloc::AllocId) {
        if self.seen_alloc.insert(id) {
            self.alloc_queue.push_back(id);
        }
    }
    fn resolve(&mut self, def: FnDef, args: &GenericArgs) -> Value {
        let name = def.name();
        if let Some(s) = self.stub_map.get(&name).cloned() {
            if let Some(sd) = self.stubs.get(&s).copied() {
                if let Ok(i) = Instance::resolve(sd, args) {
                    let k = self.inst(i);
                    return json!({"name": name, "inst": k, "stub": s});
                }
            }
        }
        match Instance::resolve(def, args) {
            Ok(i) => {
                // the resolved item may itself be stubbed (impl methods)
                let rn = inst_defname(&i);
                if let Some(s) = self.stub_map.get(&rn).cloned() {
                    if let Some(sd) = self.stubs.get(&s).copied() {
                        if let Ok(si) = Instance::resolve(sd, &i.args()) {
                            let k = self.inst(si);
                            return json!({"name": name, "rname": rn, "inst": k, "stub": s});
                        }
                    }
                }
                let k = self.inst(i);
                json!({"name": name, "rname": rn, "inst": k})
            }
            Err(_) => json!({"name": name, "inst": null}),
        }
    }
    fn do_ty(&mut self, t: Ty) {
        let idx = tyidx(&t);
        let mut o = Map::new();
        o.insert("s".into(), json!(format!("{}", t)));
        if let Ok(l) = t.layout() {
            let sh = l.shape();
            o.insert("size".into(), json!(sh.size.bytes()));
            o.insert("align".into(), json!(sh.abi_align));
            if let rustc_public::abi::FieldsShape::Arbitrary { offsets } = &sh.fields {
                o.insert("offsets".into(), json!(offsets.iter().map(|x| x.bytes()).collect::<Vec<_>>()));
            }
        }
        let kind = t.kind();
        if let TyKind::RigidTy(r) = &kind {
            match r {
                RigidTy::Bool => { o.insert("k".into(), json!("bool")); }
                RigidTy::Char => { o.insert("k".into(), json!("char")); }
                RigidTy::Int(i) => { o.insert("k".into(), json!("int")); o.insert("n".into(), json!(format!("{:?}", i).to_lowercase())); }
                RigidTy::Uint(i) => { o.insert("k".into(), json!("uint")); o.insert("n".into(), json!(format!("{:?}", i).to_lowercase())); }
                RigidTy::Float(i) => { o.insert("k".into(), json!("float")); o.insert("n".into(), json!(format!("{:?}", i).to_lowercase())); }
                RigidTy::Str => { o.insert("k".into(), json!("str")); }
                RigidTy::Never => { o.insert("k".into(), json!("never")); }
                RigidTy::Array(e, n) => {
                    o.insert("k".into(), json!("array")); let e = self.ty(*e); o.insert("e".into(), json!(e));
                    o.insert("n".into(), json!(n.eval_target_usize().ok()));
                }
                RigidTy::Slice(e) => { o.insert("k".into(), json!("slice")); let e = self.ty(*e); o.insert("e".into(), json!(e)); }
                RigidTy::RawPtr(e, m) => { o.insert("k".into(), json!("ptr")); let e = self.ty(*e); o.insert("e".into(), json!(e)); o.insert("m".into(), json!(format!("{:?}", m) == "Mut")); }
                RigidTy::Ref(_, e, m) => { o.insert("k".into(), json!("ref")); let e = self.ty(*e); o.insert("e".into(), json!(e)); o.insert("m".into(), json!(format!("{:?}", m) == "Mut")); }
                RigidTy::Tuple(ts) => {
                    o.insert("k".into(), json!("tuple"));
                    let v: Vec<usize> = ts.iter().map(|t| self.ty(*t)).collect(); o.insert("f".into(), json!(v));
                }
                RigidTy::FnDef(d, a) => {
                    o.insert("k".into(), json!("fndef")); o.insert("name".into(), json!(d.name()));
                    o.insert("unsafe".into(), json!(matches!(d.fn_sig().skip_binder().safety, rustc_public::mir::Safety::Unsafe)));
                    o.insert("krate".into(), json!(d.krate().name));
                    let targs: Vec<usize> = a.0.iter().filter_map(|g| if let GenericArgKind::Type(t) = g { Some(*t) } else { None }).map(|t| self.ty(t)).collect();
                    o.insert("targs".into(), json!(targs));
                    let r = self.resolve(*d, a);
                    o.insert("res".into(), r);
                }
                RigidTy::FnPtr(_) => { o.insert("k".into(), json!("fnptr")); }
                RigidTy::Closure(d, a) => {
                    o.insert("k".into(), json!("closure")); o.insert("name".into(), json!(d.name()));
                    if let Some(GenericArgKind::Type(t)) = a.0.last() {
                        if let TyKind::RigidTy(RigidTy::Tuple(ts)) = t.kind() {
                            let v: Vec<usize> = ts.iter().map(|t| self.ty(*t)).collect(); o.insert("f".into(), json!(v));
                        }
                    }
                    for (n, ck) in [("once", ClosureKind::FnOnce), ("mut", ClosureKind::FnMut), ("fn", ClosureKind::Fn)] {
                        if let Ok(i) = Instance::resolve_closure(*d, a, ck) { let k = self.inst(i); o.insert(n.into(), json!(k)); }
                    }
                }
                RigidTy::Dynamic(..) => { o.insert("k".into(), json!("dyn")); }
                RigidTy::Adt(d, a) => {
                    o.insert("k".into(), json!("adt")); o.insert("name".into(), json!(d.name()));
                    o.insert("adt".into(), json!(format!("{:?}", d.kind()).to_lowercase()));
                    o.insert("crate".into(), json!(d.krate().name));
                    let targs: Vec<usize> = a.0.iter().filter_map(|g| if let GenericArgKind::Type(t) = g { Some(*t) } else { None }).map(|t| self.ty(t)).collect();
                    o.insert("targs".into(), json!(targs));
                    let mut vs = vec![];
                    for v in d.variants() {
                        let fs: Vec<Value> = v.fields().iter().map(|f| { let ft = f.ty_with_args(a); let k = self.ty(ft); json!([f.name, k]) }).collect();
                        let discr = if format!("{:?}", d.kind()) == "Enum" { json!(d.discriminant_for_variant(v.idx()).val.to_string()) } else { json!("0") };
                        vs.push(json!({"n": v.name(), "f": fs, "d": discr}));
                    }
                    o.insert("v".into(), json!(vs));
                }
                _ => { o.insert("k".into(), json!("other")); }
            }
        } else {
            o.insert("k".into(), json!("other"));
        }
        self.types.insert(idx, Value::Object(o));
    }
    fn alloc_json(&mut self, a: &Allocation) -> Value {
        for (_, p) in &a.provenance.ptrs {
            self.alloc(p.0);
        }
        serde_json::to_value(a).unwrap()
    }
    fn do_alloc(&mut self, id: rustc_public::mir::alloc::AllocId) {
        let key = serde_json::to_value(id).unwrap().to_string();
        let v = match GlobalAlloc::from(id) {
            GlobalAlloc::Memory(a) => { let j = self.alloc_json(&a); json!({"mem": j}) }
            GlobalAlloc::Function(i) => { let k = self.inst(i); json!({"fn": k}) }
            GlobalAlloc::Static(s) => { let t = s.ty(); let k = self.ty(t); json!({"static": s.name(), "ty": k}) }
            GlobalAlloc::VTable(t, _) => { let k = self.ty(t); json!({"vtable": k}) }
            _ => json!({"other": true}),
        };
        self.allocs.insert(key, v);
    }
    fn do_inst(&mut self, i: Instance) {
        let k = self.insts[&i];
        let dn = inst_defname(&i);
        let mut o = Map::new();
        o.insert("name".into(), json!(i.name()));
        o.insert("def".into(), json!(dn));
        o.insert("mangled".into(), json!(i.mangled_name()));
        o.insert("kind".into(), json!(match i.kind { InstanceKind::Item => "item", InstanceKind::Intrinsic => "intrinsic", InstanceKind::LlvmIntrinsic => "llvm", InstanceKind::Virtual { .. } => "virtual", InstanceKind::Shim => "shim" }));
        if let Some(n) = i.intrinsic_name() { o.insert("intrinsic".into(), json!(n)); }
        o.insert("foreign".into(), json!(i.is_foreign_item()));
        let targs: Vec<usize> = i.args().0.iter().filter_map(|g| if let GenericArgKind::Type(t) = g { Some(*t) } else { None }).map(|t| self.ty(t)).collect();
        o.insert("targs".into(), json!(targs));
        let cargs: Vec<Value> = i.args().0.iter().filter_map(|g| if let GenericArgKind::Const(c) = g { Some(c.eval_target_usize().map(|x| json!(x)).unwrap_or(json!(format!("{:?}", c)))) } else { None }).collect();
        o.insert("cargs".into(), json!(cargs));
        o.insert("crate".into(), json!(i.def.krate().name));
        let ity = i.ty();
        if !matches!(ity.kind(), TyKind::RigidTy(RigidTy::FnDef(..))) { self.ty(ity); }
        let cut = self.cut.iter().any(|p| dn.starts_with(p.as_str()));
        if cut { o.insert("cut".into(), json!(true)); }
        let body = if cut || matches!(i.kind, InstanceKind::Virtual { .. }) || i.is_foreign_item() { None } else { i.body() };
        if let Some(b) = body {
            let mut c = Collect { tys: vec![], consts: vec![], body: &b };
            c.visit_body(&b);
            let (tys, consts) = (c.tys, c.consts);
            for t in tys { self.ty(t); }
            for c in consts {
                if let ConstantKind::Allocated(a) = c.kind() { let _ = self.alloc_json(a); }
            }
            let mut blocks = vec![];
            for bb in &b.blocks {
                let st: Vec<Value> = bb.statements.iter().map(|s| json!([serde_json::to_value(&s.kind).unwrap(), s.source_info.span.get_lines().start_line])).collect();
                let mut t = Map::new();
                t.insert("k".into(), serde_json::to_value(&bb.terminator.kind).unwrap());
                t.insert("line".into(), json!(bb.terminator.source_info.span.get_lines().start_line));
                t.insert("file".into(), json!(bb.terminator.source_info.span.get_filename()));
                if let TerminatorKind::Drop { place, .. } = &bb.terminator.kind {
                    if let Ok(pt) = place.ty(b.locals()) {
                        let di = Instance::resolve_drop_in_place(pt);
                        if !di.is_empty_shim() { let k = self.inst(di); t.insert("drop".into(), json!(k)); }
                        let pk = self.ty(pt); t.insert("dropty".into(), json!(pk));
                    }
                }
                blocks.push(json!({"s": st, "t": t}));
            }
            let locals: Vec<usize> = b.locals().iter().map(|l| self.ty(l.ty)).collect();
            let mut names = Map::new();
            for v in &b.var_debug_info {
                if let rustc_public::mir::VarDebugInfoContents::Place(p) = &v.value {
                    if p.projection.is_empty() { names.insert(p.local.to_string(), json!(v.name)); }
                }
            }
            o.insert("span".into(), span(&b.span));
            o.insert("body".into(), json!({"argc": b.arg_locals().len(), "locals": locals, "spread": b.spread_arg(), "blocks": blocks, "names": names}));
        }
        self.inst_json[k] = Value::Object(o);
    }
}

fn inst_defname(i: &Instance) -> String {
    // path of the definition, without the concrete generic arguments
    use rustc_public::CrateItem;
    match CrateItem::try_from(*i) {
        Ok(it) => it.name(),
        Err(_) => i.name(),
    }
}

fn analyse() {
    let map: Value = serde_json::from_str(&std::fs::read_to_string(std::env::var("MIRDUMP_CONFIG").unwrap()).unwrap()).unwrap();
    let stub_map: HashMap<String, String> = map["stubs"].as_object().unwrap().iter().map(|(k, v)| (k.clone(), v.as_str().unwrap().to_string())).collect();
    let cut: Vec<String> = map["cut"].as_array().unwrap().iter().map(|v| v.as_str().unwrap().to_string()).collect();
    let root_prefixes: Vec<String> = map["roots"].as_array().unwrap().iter().map(|v| v.as_str().unwrap().to_string()).collect();
    let mut d = Dump { insts: HashMap::new(), queue: VecDeque::new(), inst_json: vec![], types: BTreeMap::new(), ty_queue: VecDeque::new(), seen_ty: HashSet::new(), allocs: BTreeMap::new(), alloc_queue: VecDeque::new(), seen_alloc: HashSet::new(), stubs: HashMap::new(), stub_map, cut, resolve_vs_trait: false };
    let _ = d.resolve_vs_trait;
    let mut roots = Map::new();
    let items = rustc_public::all_local_items();
    for it in &items {
        let n = it.name();
        let last = n.rsplit("::").next().unwrap().to_string();
        if last.starts_with("stub_") {
            if let TyKind::RigidTy(RigidTy::FnDef(fd, _)) = it.ty().kind() { d.stubs.insert(last.clone(), fd); }
        }
    }
    for it in &items {
        let n = it.name();
        let tail = n.splitn(2, "::").nth(1).unwrap_or("").to_string();
        if root_prefixes.iter().any(|p| tail.starts_with(p.as_str())) {
            if let Ok(i) = Instance::try_from(*it) { let k = d.inst(i); roots.insert(tail, json!(k)); }
        }
    }
    loop {
        if let Some(i) = d.queue.pop_front() { d.do_inst(i); continue; }
        if let Some(t) = d.ty_queue.pop_front() { d.do_ty(t); continue; }
        if let Some(a) = d.alloc_queue.pop_front() { d.do_alloc(a); continue; }
        break;
    }
    let out = json!({"roots": roots, "insts": d.inst_json, "types": d.types.iter().map(|(k, v)| (k.to_string(), v.clone())).collect::<Map<String, Value>>(), "allocs": d.allocs, "stubs": d.stubs.keys().collect::<Vec<_>>() });
    let path = std::env::var("MIRDUMP_OUT").unwrap();
    std::fs::write(&path, serde_json::to_vec(&out).unwrap()).unwrap();
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // as RUSTC_WRAPPER: argv[1] is the real rustc
    if args.len() > 1 && args[1].contains("rustc") { args.remove(1); }
    let want = std::env::var("MIRDUMP_CRATE").unwrap_or_default();
    let is_target = args.windows(2).any(|w| w[0] == "--crate-name" && w[1] == want);
    if is_target {
        let _ = run!(&args, || { analyse(); ControlFlow::<()>::Continue(()) });
    } else {
        let rustc = std::env::var("MIRDUMP_RUSTC").unwrap_or_else(|_| "rustc".into());
        let st = std::process::Command::new(rustc).args(&args[1..]).status().unwrap();
        std::process::exit(st.code().unwrap_or(1));
    }
}
