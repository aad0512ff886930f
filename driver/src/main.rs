//! Dumps the monomorphic MIR reachable from the functions of a witness crate as JSON.
//!
//! Used like rustc (all rustc arguments are accepted). Environment:
//!   MIRDUMP_OUT    output file; without it the program behaves exactly like rustc
//!   MIRDUMP_MODE   "mono" (default): roots are all non-generic `fn`s of the crate, followed
//!                  transitively through resolved callees; "items": the generic body of every
//!                  item of the crate (used for the rules about sscanf_macro's own source)
#![feature(rustc_private)]
#![allow(clippy::all)]
extern crate rustc_ast;
extern crate rustc_attr_ir;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public;
extern crate rustc_public_bridge;
extern crate rustc_span;

use rustc_public::abi::{FieldsShape, Scalar, TagEncoding, VariantsShape};
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::{CrateDef, CrateDefType, ItemKind};
use rustc_public_bridge::IndexedVal;
use serde_json::{json, Map, Value};
use std::collections::{HashMap, HashSet, VecDeque};
use std::ops::ControlFlow;

struct Cx {
    mono: bool,
    types: HashMap<Ty, usize>,
    type_out: Vec<Value>,
    insts: HashMap<Instance, usize>,
    inst_out: Vec<Value>,
    queue: VecDeque<Instance>,
    statics: HashMap<rustc_public::mir::mono::StaticDef, usize>,
    static_out: Vec<Value>,
    /// types converted to `dyn Error`: how their trait methods resolve
    vtables: HashMap<usize, Value>,
    tcx: usize,
}

fn span_str(s: &Span) -> String {
    let l = s.get_lines();
    format!("{}:{}:{}", s.get_filename(), l.start_line, l.start_col)
}

fn std_family(k: &str) -> bool {
    matches!(k, "core" | "std" | "alloc" | "proc_macro")
}

/// Std functions that the analysis interprets from their own MIR (everything else is modelled by
/// name or treated as unknown).
fn follow_std(path: &str) -> bool {
    const MODS: &[&str] = &[
        "option::", "result::", "ops::", "convert::", "mem::", "tuple::", "bool::", "default::", "cmp::",
        "iter::", "clone::", "array::", "slice::iter", "ptr::non_null", "borrow::", "panicking::", "hint::",
        "ascii::",
    ];
    if path.ends_with("<impl str>::parse") {
        return true;
    }
    let p = path
        .trim_start_matches(|c| c == '<' || c == '&')
        .trim_start_matches("core::")
        .trim_start_matches("std::")
        .trim_start_matches("alloc::");
    if MODS.iter().any(|m| p.starts_with(m)) {
        return true;
    }
    // `<T as core::convert::Into<U>>::into` and friends
    if let Some(i) = path.find(" as ") {
        let q = path[i + 4..]
            .trim_start_matches("core::")
            .trim_start_matches("std::")
            .trim_start_matches("alloc::");
        return MODS.iter().any(|m| q.starts_with(m));
    }
    path.starts_with("<impl ") || path.contains("::{closure")
}

trait ResolveExt<'tcx> {
    fn internal(self, t: Ty, tr: rustc_hir::def_id::DefId, method: &str) -> Option<rustc_middle::ty::Instance<'tcx>>;
}
impl<'tcx> ResolveExt<'tcx> for rustc_middle::ty::TyCtxt<'tcx> {
    fn internal(self, t: Ty, tr: rustc_hir::def_id::DefId, method: &str) -> Option<rustc_middle::ty::Instance<'tcx>> {
        let tcx = self;
        let t = rustc_public::rustc_internal::internal(tcx, t);
        let m = tcx
            .associated_item_def_ids(tr)
            .iter()
            .copied()
            .find(|d| tcx.opt_item_name(*d).map_or(false, |n| n.as_str() == method))?;
        let env = rustc_middle::ty::TypingEnv::fully_monomorphized();
        let args = tcx.mk_args(&[t.into()]);
        rustc_middle::ty::Instance::try_resolve(tcx, env, m, args).ok().flatten()
    }
}

impl Cx {
    fn new(mono: bool) -> Self {
        Cx {
            mono,
            types: HashMap::new(),
            type_out: vec![],
            insts: HashMap::new(),
            inst_out: vec![],
            queue: VecDeque::new(),
            statics: HashMap::new(),
            static_out: vec![],
            vtables: HashMap::new(),
            tcx: 0,
        }
    }

    fn tcx(&self) -> rustc_middle::ty::TyCtxt<'static> {
        // the dumper lives strictly inside the compiler callback that provides the context
        unsafe { std::mem::transmute_copy::<usize, rustc_middle::ty::TyCtxt<'static>>(&self.tcx) }
    }

    /// resolve `<t as Trait>::method` for a trait given by its diagnostic item
    fn resolve_trait(&mut self, trait_: rustc_span::Symbol, method: &str, t: Ty) -> Option<usize> {
        use rustc_public::rustc_internal::{internal, stable};
        let tcx = self.tcx();
        let tr = tcx.get_diagnostic_item(trait_)?;
        let it = tcx.internal(t, tr, method);
        let _ = internal::<Ty>;
        let inst = it?;
        let i: Instance = stable(inst);
        Some(self.inst(i))
    }

    fn vtable(&mut self, t: Ty) {
        let id = self.ty(t);
        if self.vtables.contains_key(&id) {
            return;
        }
        self.vtables.insert(id, Value::Null);
        let mut m = Map::new();
        for (tr, me) in [("Display", "fmt"), ("Debug", "fmt"), ("Error", "source"), ("Error", "cause"), ("Error", "description")] {
            if let Some(i) = self.resolve_trait(rustc_span::Symbol::intern(tr), me, t) {
                m.insert(format!("{}::{}", tr, me), json!(i));
            }
        }
        self.vtables.insert(id, Value::Object(m));
    }

    fn ty(&mut self, t: Ty) -> usize {
        if let Some(i) = self.types.get(&t) {
            return *i;
        }
        let id = self.type_out.len();
        self.types.insert(t, id);
        self.type_out.push(Value::Null);
        let s = format!("{}", t);
        let mut m = Map::new();
        m.insert("s".into(), json!(s));
        let TyKind::RigidTy(r) = t.kind() else {
            m.insert("k".into(), json!("param"));
            self.type_out[id] = Value::Object(m);
            return id;
        };
            match r {
                RigidTy::Bool => {
                    m.insert("k".into(), json!("bool"));
                }
                RigidTy::Char => {
                    m.insert("k".into(), json!("char"));
                }
                RigidTy::Int(i) => {
                    m.insert("k".into(), json!("int"));
                    m.insert("bits".into(), json!(i.num_bytes() * 8));
                }
                RigidTy::Uint(i) => {
                    m.insert("k".into(), json!("uint"));
                    m.insert("bits".into(), json!(i.num_bytes() * 8));
                }
                RigidTy::Float(_) => {
                    m.insert("k".into(), json!("float"));
                }
                RigidTy::Str => {
                    m.insert("k".into(), json!("str"));
                }
                RigidTy::Never => {
                    m.insert("k".into(), json!("never"));
                }
                RigidTy::Adt(def, args) => {
                    m.insert("k".into(), json!("adt"));
                    m.insert("name".into(), json!(def.name()));
                    m.insert("crate".into(), json!(def.krate().name));
                    m.insert("enum".into(), json!(def.kind() == AdtKind::Enum));
                    let targs: Vec<Value> = args
                        .0
                        .iter()
                        .filter_map(|a| a.ty().copied())
                        .map(|t| json!(self.ty(t)))
                        .collect();
                    m.insert("args".into(), json!(targs));
                    let deep = !std_family(&def.krate().name) || follow_adt(&def.name());
                    if deep {
                        let mut vs = vec![];
                        for v in def.variants() {
                            let fields: Vec<Value> = v.fields().iter().map(|f| json!(f.name)).collect();
                            let discr = if def.kind() == AdtKind::Enum {
                                json!(def.discriminant_for_variant(v.idx()).val.to_string())
                            } else {
                                json!(null)
                            };
                            vs.push(json!({"name": v.name(), "fields": fields, "discr": discr}));
                        }
                        m.insert("variants".into(), json!(vs));
                    }
                }
                RigidTy::Array(e, n) => {
                    m.insert("k".into(), json!("array"));
                    m.insert("e".into(), json!(self.ty(e)));
                    m.insert("n".into(), json!(n.eval_target_usize().ok()));
                }
                RigidTy::Slice(e) => {
                    m.insert("k".into(), json!("slice"));
                    m.insert("e".into(), json!(self.ty(e)));
                }
                RigidTy::RawPtr(e, _) => {
                    m.insert("k".into(), json!("ptr"));
                    m.insert("e".into(), json!(self.ty(e)));
                }
                RigidTy::Ref(_, e, mu) => {
                    m.insert("k".into(), json!("ref"));
                    m.insert("mut".into(), json!(mu == Mutability::Mut));
                    m.insert("e".into(), json!(self.ty(e)));
                }
                RigidTy::FnDef(d, a) => {
                    m.insert("k".into(), json!("fndef"));
                    if self.mono {
                        if let Ok(i) = Instance::resolve(d, &a) {
                            m.insert("inst".into(), json!(self.inst(i)));
                        }
                    }
                    m.insert("path".into(), json!(d.name()));
                    m.insert("crate".into(), json!(d.krate().name));
                    if !self.mono {
                        let ts: Vec<Value> = a.0.iter().filter_map(|a| a.ty().copied()).map(|t| json!(self.ty(t))).collect();
                        m.insert("args".into(), json!(ts));
                        m.insert("local".into(), json!(d.krate().is_local));
                    }
                }
                RigidTy::FnPtr(_) => {
                    m.insert("k".into(), json!("fnptr"));
                }
                RigidTy::Closure(d, a) => {
                    m.insert("k".into(), json!("closure"));
                    m.insert("path".into(), json!(d.name()));
                    if self.mono {
                        // the closure's own body, called with (self-ref-or-value, args...)
                        if let Ok(i) = Instance::resolve_closure(d, &a, closure_kind(&a)) {
                            m.insert("inst".into(), json!(self.inst(i)));
                        }
                    }
                }
                RigidTy::Dynamic(..) => {
                    m.insert("k".into(), json!("dyn"));
                }
                RigidTy::Tuple(ts) => {
                    m.insert("k".into(), json!("tuple"));
                    let v: Vec<usize> = ts.iter().map(|t| self.ty(*t)).collect();
                    m.insert("es".into(), json!(v));
                }
                _ => {
                    m.insert("k".into(), json!("other"));
                }
            }
        self.type_out[id] = Value::Object(m);
        id
    }

    fn inst(&mut self, i: Instance) -> usize {
        if let Some(k) = self.insts.get(&i) {
            return *k;
        }
        let id = self.inst_out.len();
        self.insts.insert(i, id);
        self.inst_out.push(Value::Null);
        self.queue.push_back(i);
        id
    }

    fn static_(&mut self, d: rustc_public::mir::mono::StaticDef) -> usize {
        let name = d.name();
        if let Some(k) = self.statics.get(&d) {
            return *k;
        }
        let id = self.static_out.len();
        self.statics.insert(d, id);
        self.static_out.push(Value::Null);
        let t = d.ty();
        let ty = self.ty(t);
        let init = match d.eval_initializer() {
            Ok(a) => self.decode(&a, 0, t, 0),
            Err(_) => json!({"undecoded": "static"}),
        };
        let mut fns = vec![];
        if let Ok(a) = d.eval_initializer() {
            for (_, p) in &a.provenance.ptrs {
                if let GlobalAlloc::Function(i) = GlobalAlloc::from(p.0) {
                    fns.push(json!(self.inst(i)));
                }
            }
        }
        let tcx = self.tcx();
        let did = rustc_public::rustc_internal::internal(tcx, d.def_id());
        let t_int = rustc_public::rustc_internal::internal(tcx, t);
        let freeze = t_int.is_freeze(tcx, rustc_middle::ty::TypingEnv::fully_monomorphized());
        self.static_out[id] = json!({
            "name": name, "ty": ty, "init": init, "fns": fns, "span": span_str(&d.span()), "crate": d.krate().name,
            "freeze": freeze, "mut": tcx.is_mutable_static(did), "tls": tcx.is_thread_local_static(did),
        });
        id
    }

    /// decode the value of type `t` at byte offset `off` of `a`
    fn decode(&mut self, a: &Allocation, off: usize, t: Ty, depth: usize) -> Value {
        if depth > 12 {
            return json!({"undecoded": "depth"});
        }
        let TyKind::RigidTy(r) = t.kind() else { return json!({"undecoded": "generic"}) };
        let Ok(layout) = t.layout() else { return json!({"undecoded": "layout"}) };
        let shape = layout.shape();
        let size = shape.size.bytes();
        let uint = |o: usize, n: usize| a.read_partial_uint(o..o + n).ok();
        match r {
            RigidTy::Bool => match uint(off, 1) {
                Some(v) => json!({"b": v != 0}),
                None => json!({"undecoded": "bool"}),
            },
            RigidTy::Char | RigidTy::Uint(_) => match uint(off, size) {
                Some(v) => json!({"i": v.to_string()}),
                None => json!({"undecoded": "uint"}),
            },
            RigidTy::Int(_) => match uint(off, size) {
                Some(v) => {
                    let sh = 128 - 8 * size as u32;
                    let v = ((v << sh) as i128) >> sh;
                    json!({"i": v.to_string()})
                }
                None => json!({"undecoded": "int"}),
            },
            RigidTy::Float(_) => match uint(off, size) {
                Some(v) => json!({"f": v.to_string()}),
                None => json!({"undecoded": "float"}),
            },
            RigidTy::Tuple(ts) => {
                let mut v = vec![];
                if let FieldsShape::Arbitrary { offsets } = &shape.fields {
                    for (i, t) in ts.iter().enumerate() {
                        v.push(self.decode(a, off + offsets[i].bytes(), *t, depth + 1));
                    }
                }
                json!({"agg": v})
            }
            RigidTy::Array(e, n) => {
                let n = n.eval_target_usize().unwrap_or(0) as usize;
                let es = e.layout().map(|l| l.shape().size.bytes()).unwrap_or(0);
                if n > 4096 {
                    return json!({"undecoded": "array"});
                }
                let v: Vec<Value> = (0..n).map(|i| self.decode(a, off + i * es, e, depth + 1)).collect();
                json!({"arr": v})
            }
            RigidTy::Closure(..) => json!({"closure": self.ty(t)}),
            RigidTy::FnDef(..) => json!({"fndef": self.ty(t)}),
            RigidTy::Ref(_, e, _) | RigidTy::RawPtr(e, _) => {
                let addr = uint(off, 8).unwrap_or(0) as usize;
                let prov = a.provenance.ptrs.iter().find(|(o, _)| *o == off);
                let Some((_, prov)) = prov else {
                    // reference to a ZST or a dangling integer
                    return json!({"ref0": self.ty(e)});
                };
                match GlobalAlloc::from(prov.0) {
                    GlobalAlloc::Memory(inner) => {
                        let TyKind::RigidTy(er) = e.kind() else { return json!({"undecoded": "generic"}) };
                        match er {
                            RigidTy::Str => {
                                let len = uint(off + 8, 8).unwrap_or(0) as usize;
                                match inner.bytes.get(addr..addr + len).map(|b| b.iter().copied().collect::<Option<Vec<u8>>>()) {
                                    Some(Some(b)) => json!({"str": String::from_utf8_lossy(&b)}),
                                    _ => json!({"undecoded": "str"}),
                                }
                            }
                            RigidTy::Slice(el) => {
                                let len = uint(off + 8, 8).unwrap_or(0) as usize;
                                let es = el.layout().map(|l| l.shape().size.bytes()).unwrap_or(0);
                                if len > 8192 {
                                    return json!({"undecoded": "slice"});
                                }
                                let v: Vec<Value> = (0..len)
                                    .map(|i| self.decode(&inner, addr + i * es, el, depth + 1))
                                    .collect();
                                json!({"ref": {"arr": v}})
                            }
                            RigidTy::Dynamic(..) => json!({"undecoded": "dyn"}),
                            _ => {
                                let v = self.decode(&inner, addr, e, depth + 1);
                                json!({"ref": v})
                            }
                        }
                    }
                    GlobalAlloc::Static(d) => json!({"static": self.static_(d)}),
                    GlobalAlloc::Function(i) => json!({"fn": self.inst(i)}),
                    _ => json!({"undecoded": "alloc"}),
                }
            }
            RigidTy::FnPtr(_) => {
                let prov = a.provenance.ptrs.iter().find(|(o, _)| *o == off);
                if let Some((_, p)) = prov {
                    if let GlobalAlloc::Function(i) = GlobalAlloc::from(p.0) {
                        return json!({"fn": self.inst(i)});
                    }
                }
                json!({"undecoded": "fnptr"})
            }
            RigidTy::Adt(def, args) => {
                let (vidx, offsets): (usize, Vec<usize>) = match &shape.variants {
                    VariantsShape::Empty => return json!({"undecoded": "empty"}),
                    VariantsShape::Single { index } => {
                        let o = match &shape.fields {
                            FieldsShape::Arbitrary { offsets } => offsets.iter().map(|o| o.bytes()).collect(),
                            _ => vec![],
                        };
                        (index.to_index(), o)
                    }
                    VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                        let FieldsShape::Arbitrary { offsets } = &shape.fields else {
                            return json!({"undecoded": "tagoff"});
                        };
                        let toff = off + offsets[*tag_field].bytes();
                        let prim = match tag {
                            Scalar::Initialized { value, .. } | Scalar::Union { value } => value,
                        };
                        let tsize = prim.size(&rustc_public::target::MachineInfo::target()).bytes();
                        let has_prov = a.provenance.ptrs.iter().any(|(o, _)| *o == toff);
                        let raw = uint(toff, tsize);
                        let idx = match tag_encoding {
                            TagEncoding::Direct => {
                                let Some(raw) = raw else { return json!({"undecoded": "tag"}) };
                                let mask = if tsize >= 16 { u128::MAX } else { (1u128 << (8 * tsize)) - 1 };
                                let mut found = None;
                                for v in def.variants() {
                                    let d = def.discriminant_for_variant(v.idx()).val & mask;
                                    if d == raw {
                                        found = Some(v.idx().to_index());
                                    }
                                }
                                match found {
                                    Some(i) => i,
                                    None => return json!({"undecoded": "tagval"}),
                                }
                            }
                            TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                if has_prov {
                                    untagged_variant.to_index()
                                } else {
                                    let Some(raw) = raw else { return json!({"undecoded": "tag"}) };
                                    let mask = if tsize >= 16 { u128::MAX } else { (1u128 << (8 * tsize)) - 1 };
                                    let rel = raw.wrapping_sub(*niche_start) & mask;
                                    let lo = niche_variants.start().to_index() as u128;
                                    let hi = niche_variants.end().to_index() as u128;
                                    if rel <= hi - lo {
                                        (lo + rel) as usize
                                    } else {
                                        untagged_variant.to_index()
                                    }
                                }
                            }
                        };
                        (idx, variants[idx].offsets.iter().map(|o| o.bytes()).collect())
                    }
                };
                let variants = def.variants();
                let Some(v) = variants.get(vidx) else { return json!({"undecoded": "variant"}) };
                let mut fs = vec![];
                for (i, f) in v.fields().iter().enumerate() {
                    let ft = f.ty_with_args(&args);
                    match offsets.get(i) {
                        Some(o) => fs.push(self.decode(a, off + o, ft, depth + 1)),
                        None => fs.push(json!({"undecoded": "field"})),
                    }
                }
                json!({"adt": self.ty(t), "v": vidx, "agg": fs})
            }
            _ => json!({"undecoded": format!("{}", t)}),
        }
    }

    fn constant(&mut self, c: &MirConst) -> Value {
        let t = c.ty();
        let tid = self.ty(t);
        let TyKind::RigidTy(r) = t.kind() else {
            return json!([tid, {"undecoded": "generic"}]);
        };
        let v = match c.kind() {
            ConstantKind::ZeroSized => match r {
                RigidTy::FnDef(..) => json!({"fndef": tid}),
                RigidTy::Closure(..) => json!({"closure": tid}),
                RigidTy::Adt(..) | RigidTy::Tuple(..) | RigidTy::Array(..) => json!({"zst": tid}),
                _ => json!({"zst": tid}),
            },
            ConstantKind::Allocated(a) => self.decode(a, 0, t, 0),
            ConstantKind::Ty(tc) => match tc.eval_target_usize() {
                Ok(n) => json!({"i": n.to_string()}),
                Err(_) => json!({"undecoded": "tyconst"}),
            },
            ConstantKind::Param(p) => json!({"undecoded": format!("param {}", p.name)}),
            ConstantKind::Unevaluated(u) => json!({"unevaluated": u.def.name()}),
        };
        json!([tid, v])
    }

    fn place(&mut self, p: &Place) -> Value {
        if p.projection.is_empty() {
            return json!([p.local]);
        }
        let mut out = vec![json!(p.local)];
        for e in &p.projection {
            out.push(match e {
                ProjectionElem::Deref => json!("*"),
                ProjectionElem::Field(i, t) => json!(["f", i, self.ty(*t)]),
                ProjectionElem::Index(l) => json!(["i", l]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    json!(["c", offset, min_length, from_end])
                }
                ProjectionElem::Subslice { from, to, from_end } => json!(["s", from, to, from_end]),
                ProjectionElem::Downcast(v) => json!(["d", v.to_index()]),
                ProjectionElem::OpaqueCast(_) => json!("o"),
            });
        }
        json!(out)
    }

    fn op(&mut self, o: &Operand) -> Value {
        match o {
            Operand::Copy(p) => json!(["p", self.place(p)]),
            Operand::Move(p) => json!(["m", self.place(p)]),
            Operand::Constant(c) => json!(["k", self.constant(&c.const_)]),
            Operand::RuntimeChecks(c) => json!(["rc", format!("{:?}", c)]),
        }
    }

    fn rvalue(&mut self, r: &Rvalue, b: &Body) -> Value {
        if let (true, Rvalue::Cast(k, o, t)) = (self.mono, r) {
            if format!("{:?}", k).contains("Unsize") && format!("{}", t).contains("dyn std::error::Error") {
                if let Ok(src) = o.ty(b.locals()) {
                    match src.kind() {
                        TyKind::RigidTy(RigidTy::Ref(_, e, _)) | TyKind::RigidTy(RigidTy::RawPtr(e, _)) => self.vtable(e),
                        TyKind::RigidTy(RigidTy::Adt(_, a)) => {
                            if let Some(t) = a.0.iter().filter_map(|a| a.ty().copied()).next() {
                                self.vtable(t)
                            }
                        }
                        _ => {}
                    }
                }
            }
        }
        match r {
            Rvalue::AddressOf(_, p) => json!(["addr", self.place(p)]),
            Rvalue::Aggregate(k, ops) => {
                let ops: Vec<Value> = ops.iter().map(|o| self.op(o)).collect();
                let k = match k {
                    AggregateKind::Array(_) => json!(["array"]),
                    AggregateKind::Tuple => json!(["tuple"]),
                    AggregateKind::Adt(d, v, a, _, f) => {
                        let t = d.ty_with_args(a);
                        json!(["adt", self.ty(t), v.to_index(), f])
                    }
                    AggregateKind::Closure(d, a) => {
                        let t = Ty::new_closure(*d, a.clone());
                        json!(["closure", self.ty(t)])
                    }
                    AggregateKind::RawPtr(..) => json!(["rawptr"]),
                    _ => json!(["other"]),
                };
                json!(["agg", k, ops])
            }
            Rvalue::BinaryOp(b, x, y) => json!(["bin", format!("{:?}", b), self.op(x), self.op(y)]),
            Rvalue::CheckedBinaryOp(b, x, y) => json!(["cbin", format!("{:?}", b), self.op(x), self.op(y)]),
            Rvalue::Cast(k, o, t) => json!(["cast", format!("{:?}", k), self.op(o), self.ty(*t)]),
            Rvalue::CopyForDeref(p) => json!(["use", ["p", self.place(p)]]),
            Rvalue::Discriminant(p) => json!(["discr", self.place(p)]),
            Rvalue::Len(p) => json!(["len", self.place(p)]),
            Rvalue::Ref(_, k, p) => json!(["ref", matches!(k, BorrowKind::Mut { .. }), self.place(p)]),
            Rvalue::Reborrow(_, m, p) => json!(["ref", *m == Mutability::Mut, self.place(p)]),
            Rvalue::Repeat(o, n) => json!(["repeat", self.op(o), n.eval_target_usize().ok()]),
            Rvalue::ThreadLocalRef(d) => json!(["tls", d.name()]),
            Rvalue::UnaryOp(u, o) => json!(["un", format!("{:?}", u), self.op(o)]),
            Rvalue::Use(o, _) => json!(["use", self.op(o)]),
        }
    }

    fn body(&mut self, b: &Body) -> Value {
        let mut locals = vec![];
        for l in b.locals() {
            locals.push(self.ty(l.ty));
        }
        let mut blocks = vec![];
        for bb in &b.blocks {
            let mut st = vec![];
            for s in &bb.statements {
                match &s.kind {
                    StatementKind::Assign(p, r) => {
                        let v = json!(["=", self.place(p), self.rvalue(r, b)]);
                        st.push(v);
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        st.push(json!(["sd", self.place(place), variant_index.to_index()]))
                    }
                    _ => {}
                }
            }
            let t = &bb.terminator;
            let sp = span_str(&t.source_info.span);
            let term = match &t.kind {
                TerminatorKind::Goto { target } => json!(["goto", target]),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let br: Vec<Value> = targets.branches().map(|(v, b)| json!([v.to_string(), b])).collect();
                    json!(["switch", self.op(discr), br, targets.otherwise()])
                }
                TerminatorKind::Resume => json!(["resume"]),
                TerminatorKind::Abort => json!(["abort"]),
                TerminatorKind::Return => json!(["ret"]),
                TerminatorKind::Unreachable => json!(["unreachable"]),
                TerminatorKind::Drop { place, target, .. } => json!(["drop", self.place(place), target]),
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.op(func);
                    let a: Vec<Value> = args.iter().map(|o| self.op(o)).collect();
                    json!(["call", f, a, self.place(destination), target, sp])
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    json!(["assert", self.op(cond), expected, target, format!("{}", msg.description().unwrap_or("assert")), sp])
                }
                TerminatorKind::InlineAsm { .. } => json!(["asm"]),
            };
            blocks.push(json!([st, term]));
        }
        json!({
            "argc": b.arg_locals().len(),
            "spread": b.spread_arg(),
            "locals": locals,
            "blocks": blocks,
        })
    }

    fn emit_instance(&mut self, i: Instance) {
        let id = self.insts[&i];
        let mut m = Map::new();
        let krate = i.def.krate().name;
        let path = i.def.name();
        m.insert("path".into(), json!(path));
        m.insert("name".into(), json!(i.name()));
        m.insert("crate".into(), json!(krate));
        m.insert("span".into(), json!(span_str(&i.def.span())));
        m.insert(
            "kind".into(),
            json!(match i.kind {
                InstanceKind::Item => "item",
                InstanceKind::Intrinsic => "intrinsic",
                InstanceKind::LlvmIntrinsic => "llvm",
                InstanceKind::Virtual { .. } => "virtual",
                InstanceKind::Shim => "shim",
            }),
        );
        let targs: Vec<Value> = i
            .args()
            .0
            .iter()
            .filter_map(|a| a.ty().copied())
            .map(|t| json!(self.ty(t)))
            .collect();
        m.insert("args".into(), json!(targs));
        if self.mono && path.contains("fmt::rt::Argument") {
            if let Some(t) = i.args().0.iter().filter_map(|a| a.ty().copied()).next() {
                let tr = if path.ends_with("new_display") {
                    Some("Display")
                } else if path.ends_with("new_debug") {
                    Some("Debug")
                } else {
                    None
                };
                if let Some(tr) = tr {
                    let mut t = t;
                    while let TyKind::RigidTy(RigidTy::Ref(_, inner, _)) = t.kind() {
                        t = inner;
                    }
                    if let Some(k) = self.resolve_trait(rustc_span::Symbol::intern(tr), "fmt", t) {
                        m.insert("fmt_impl".into(), json!(k));
                    }
                }
            }
        }
        if self.mono && path.contains("convert::From<") && path.contains("Box<") && path.contains("dyn std::error::Error") {
            for t in i.args().0.iter().filter_map(|a| a.ty().copied()) {
                self.vtable(t);
            }
        }
        let follow = match i.kind {
            InstanceKind::Item => {
                if matches!(
                    krate.as_str(),
                    "regex" | "regex_automata" | "regex_syntax" | "aho_corasick" | "memchr" | "lazy_static" | "std"
                ) {
                    false
                } else if std_family(&krate) {
                    follow_std(&path)
                } else {
                    true
                }
            }
            InstanceKind::Shim => !i.name().starts_with("std::ptr::drop") && !path.contains("drop_in_place"),
            _ => false,
        };
        if follow {
            if let Some(b) = i.body() {
                let v = self.body(&b);
                m.insert("body".into(), v);
            }
        }
        self.inst_out[id] = Value::Object(m);
    }
}

fn follow_adt(name: &str) -> bool {
    [
        "option::", "result::", "ops::", "borrow::", "cmp::", "iter::", "range::", "boxed::", "convert::",
    ]
    .iter()
    .any(|m| {
        let p = name
            .trim_start_matches("core::")
            .trim_start_matches("std::")
            .trim_start_matches("alloc::");
        p.starts_with(m)
    })
}

fn closure_kind(args: &GenericArgs) -> ClosureKind {
    // the closure kind is encoded as an integer type in the closure args
    for a in &args.0 {
        if let Some(t) = a.ty() {
            if let TyKind::RigidTy(RigidTy::Int(i)) = t.kind() {
                // may be an upvar/parent type; the encoded kind comes before the fn-ptr signature
                let k = match i {
                    IntTy::I8 => Some(ClosureKind::Fn),
                    IntTy::I16 => Some(ClosureKind::FnMut),
                    IntTy::I32 => Some(ClosureKind::FnOnce),
                    _ => None,
                };
                // the kind is the arg directly before the FnPtr signature
                let idx = args.0.iter().position(|x| x == a).unwrap();
                if let Some(next) = args.0.get(idx + 1) {
                    if let Some(nt) = next.ty() {
                        if matches!(nt.kind(), TyKind::RigidTy(RigidTy::FnPtr(_))) {
                            if let Some(k) = k {
                                return k;
                            }
                        }
                    }
                }
            }
        }
    }
    ClosureKind::FnOnce
}

/// unsafe blocks, functions and impls of the local crate, with the crate of the macro they were written in
struct Unsafes<'tcx> {
    tcx: rustc_middle::ty::TyCtxt<'tcx>,
    out: Vec<Value>,
}

impl<'tcx> Unsafes<'tcx> {
    fn add(&mut self, what: &str, span: rustc_span::Span) {
        let data = span.ctxt().outer_expn_data();
        let origin = match data.macro_def_id {
            Some(d) => self.tcx.crate_name(d.krate).to_string(),
            None => String::new(),
        };
        let root = span.source_callsite();
        let pos = self.tcx.sess.source_map().lookup_char_pos(root.lo());
        let file = format!("{}", pos.file.name.prefer_local_unconditionally());
        self.out.push(json!({"what": what, "origin": origin, "line": pos.line, "file": file}));
    }
}

impl<'tcx> rustc_hir::intravisit::Visitor<'tcx> for Unsafes<'tcx> {
    type NestedFilter = rustc_middle::hir::nested_filter::All;
    fn maybe_tcx(&mut self) -> Self::MaybeTyCtxt {
        self.tcx
    }
    fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
        if let rustc_hir::BlockCheckMode::UnsafeBlock(rustc_hir::UnsafeSource::UserProvided) = b.rules {
            self.add("unsafe block", b.span);
        }
        rustc_hir::intravisit::walk_block(self, b);
    }
    fn visit_fn(&mut self, k: rustc_hir::intravisit::FnKind<'tcx>, d: &'tcx rustc_hir::FnDecl<'tcx>, b: rustc_hir::BodyId, span: rustc_span::Span, id: rustc_hir::def_id::LocalDefId) {
        if k.header().map_or(false, |h| h.is_unsafe()) {
            self.add("unsafe fn", span);
        }
        rustc_hir::intravisit::walk_fn(self, k, d, b, id);
    }
    fn visit_item(&mut self, i: &'tcx rustc_hir::Item<'tcx>) {
        match &i.kind {
            rustc_hir::ItemKind::Impl(im) => {
                if let Some(t) = im.of_trait {
                    if let rustc_hir::Safety::Unsafe = t.safety {
                        self.add("unsafe impl", i.span);
                    }
                }
            }
            rustc_hir::ItemKind::ForeignMod { .. } => self.add("extern block", i.span),
            _ => {}
        }
        rustc_hir::intravisit::walk_item(self, i);
    }
}

/// what of std and of the language the local crate's code names: each with the Rust version it is stable since and
/// the crate of the macro it was written in (empty for tokens of the crate itself)
struct Uses<'tcx> {
    tcx: rustc_middle::ty::TyCtxt<'tcx>,
    results: Option<&'tcx rustc_middle::ty::TypeckResults<'tcx>>,
    constant: bool,
    out: Vec<Value>,
    seen: HashSet<String>,
    bodies: usize,
    names: usize,
}

impl<'tcx> Uses<'tcx> {
    /// None for code another crate's macro wrote
    fn origin(&self, span: rustc_span::Span) -> Option<String> {
        let data = span.ctxt().outer_expn_data();
        match data.macro_def_id {
            Some(d) => {
                let c = self.tcx.crate_name(d.krate).to_string();
                if c == "sscanf" || c == "sscanf_macro" || d.is_local() {
                    Some(if d.is_local() { String::new() } else { c })
                } else {
                    None
                }
            }
            None => match data.kind {
                rustc_span::ExpnKind::Desugaring(_) => None,
                _ => Some(String::new()),
            },
        }
    }
    fn put(&mut self, what: String, minor: Option<u16>, span: rustc_span::Span) {
        let Some(origin) = self.origin(span) else { return };
        self.names += 1;
        let root = span.source_callsite();
        let pos = self.tcx.sess.source_map().lookup_char_pos(root.lo());
        let v = json!({"what": what, "since": minor, "origin": origin, "line": pos.line});
        if minor.map_or(true, |m| m > 30) && self.seen.insert(v.to_string()) {
            self.out.push(v);
        }
    }
    fn feature(&mut self, what: &str, minor: u16, span: rustc_span::Span) {
        self.put(what.to_string(), Some(minor), span);
    }
    fn minor(since: &rustc_attr_ir::StableSince) -> Option<u16> {
        match since {
            rustc_attr_ir::StableSince::Version(v) => Some(v.minor),
            _ => None,
        }
    }
    fn def(&mut self, d: rustc_hir::def_id::DefId, span: rustc_span::Span) {
        if d.is_local() {
            return;
        }
        let c = self.tcx.crate_name(d.krate);
        if !matches!(c.as_str(), "std" | "core" | "alloc") {
            return;
        }
        let mut minor = None;
        if let Some(s) = self.tcx.lookup_stability(d) {
            if let rustc_attr_ir::StabilityLevel::Stable { since, .. } = &s.level {
                minor = Self::minor(since);
            }
        }
        if self.constant {
            if let Some(s) = self.tcx.lookup_const_stability(d) {
                if let rustc_attr_ir::StabilityLevel::Stable { since, .. } = &s.level {
                    minor = minor.max(Self::minor(since));
                }
            }
        }
        self.put(self.tcx.def_path_str(d), minor, span);
    }
    fn res(&mut self, r: rustc_hir::def::Res, span: rustc_span::Span) {
        if let Some(d) = r.opt_def_id() {
            self.def(d, span);
        }
    }
    fn macros(&mut self, span: rustc_span::Span) {
        for e in span.macro_backtrace() {
            if let Some(d) = e.macro_def_id {
                self.def(d, e.call_site);
            }
        }
    }
}

impl<'tcx> rustc_hir::intravisit::Visitor<'tcx> for Uses<'tcx> {
    type NestedFilter = rustc_middle::hir::nested_filter::OnlyBodies;
    fn maybe_tcx(&mut self) -> Self::MaybeTyCtxt {
        self.tcx
    }
    fn visit_nested_body(&mut self, id: rustc_hir::BodyId) {
        let (r, c) = (self.results, self.constant);
        self.results = Some(self.tcx.typeck_body(id));
        self.constant = self.tcx.hir_body_const_context(self.tcx.hir_body_owner_def_id(id)).is_some();
        self.bodies += 1;
        rustc_hir::intravisit::walk_body(self, self.tcx.hir_body(id));
        self.results = r;
        self.constant = c;
    }
    fn visit_qpath(&mut self, q: &'tcx rustc_hir::QPath<'tcx>, id: rustc_hir::HirId, span: rustc_span::Span) {
        if let (rustc_hir::QPath::TypeRelative(_, seg), Some(r)) = (q, self.results) {
            if r.hir_owner == id.owner {
                self.res(r.qpath_res(q, id), seg.ident.span);
            }
        }
        rustc_hir::intravisit::walk_qpath(self, q, id);
        let _ = span;
    }
    fn visit_path(&mut self, p: &rustc_hir::Path<'tcx>, _id: rustc_hir::HirId) {
        self.res(p.res, p.segments.last().map_or(p.span, |s| s.ident.span));
        rustc_hir::intravisit::walk_path(self, p);
    }
    fn visit_path_segment(&mut self, s: &'tcx rustc_hir::PathSegment<'tcx>) {
        self.res(s.res, s.ident.span);
        rustc_hir::intravisit::walk_path_segment(self, s);
    }
    fn visit_local(&mut self, l: &'tcx rustc_hir::LetStmt<'tcx>) {
        if l.els.is_some() {
            self.feature("let-else", 65, l.span);
        }
        if let rustc_hir::LocalSource::AssignDesugar = l.source {
            self.feature("destructuring assignment", 59, l.pat.span);
        }
        rustc_hir::intravisit::walk_local(self, l);
    }
    fn visit_pat(&mut self, p: &'tcx rustc_hir::Pat<'tcx>) {
        match p.kind {
            rustc_hir::PatKind::Range(_, None, _) => self.feature("half-open range pattern", 55, p.span),
            rustc_hir::PatKind::Range(None, _, _) => self.feature("range pattern without a start", 66, p.span),
            rustc_hir::PatKind::Range(_, _, rustc_hir::RangeEnd::Excluded) => self.feature("exclusive range pattern", 80, p.span),
            _ => {}
        }
        rustc_hir::intravisit::walk_pat(self, p);
    }
    fn visit_generic_param(&mut self, p: &'tcx rustc_hir::GenericParam<'tcx>) {
        if let rustc_hir::GenericParamKind::Const { default: Some(_), .. } = p.kind {
            self.feature("default of a const parameter", 59, p.span);
        }
        rustc_hir::intravisit::walk_generic_param(self, p);
    }
    fn visit_trait_item(&mut self, t: &'tcx rustc_hir::TraitItem<'tcx>) {
        if let rustc_hir::TraitItemKind::Type(..) = t.kind {
            if !t.generics.params.is_empty() {
                self.feature("generic associated type", 65, t.span);
            }
        }
        rustc_hir::intravisit::walk_trait_item(self, t);
    }
    fn visit_impl_item(&mut self, t: &'tcx rustc_hir::ImplItem<'tcx>) {
        if let rustc_hir::ImplItemKind::Type(..) = t.kind {
            if !t.generics.params.is_empty() {
                self.feature("generic associated type", 65, t.span);
            }
        }
        rustc_hir::intravisit::walk_impl_item(self, t);
    }
    fn visit_assoc_item_constraint(&mut self, c: &'tcx rustc_hir::AssocItemConstraint<'tcx>) {
        if let rustc_hir::AssocItemConstraintKind::Bound { .. } = c.kind {
            self.feature("bound of an associated type", 79, c.span);
        }
        rustc_hir::intravisit::walk_assoc_item_constraint(self, c);
    }
    fn visit_expr(&mut self, e: &'tcx rustc_hir::Expr<'tcx>) {
        use rustc_hir::ExprKind as K;
        self.macros(e.span);
        match &e.kind {
            K::MethodCall(seg, ..) => {
                if let Some(d) = self.results.and_then(|r| r.type_dependent_def_id(e.hir_id)) {
                    self.def(d, seg.ident.span);
                }
            }
            K::ConstBlock(_) => self.feature("inline const", 79, e.span),
            K::Block(_, Some(l)) => self.feature("labelled block", 65, l.ident.span),
            K::AddrOf(rustc_hir::BorrowKind::Raw, ..) => self.feature("raw borrow", 82, e.span),
            K::Lit(l) => {
                if let rustc_ast::LitKind::CStr(..) = l.node {
                    self.feature("C string literal", 77, l.span);
                }
            }
            K::Closure(c) => {
                if let rustc_hir::ClosureKind::CoroutineClosure(_) = c.kind {
                    self.feature("async closure", 85, e.span);
                }
            }
            K::Binary(_, a, b) => {
                if matches!(a.kind, K::Let(_)) || matches!(b.kind, K::Let(_)) {
                    self.feature("let chain", 88, e.span);
                }
            }
            _ => {}
        }
        rustc_hir::intravisit::walk_expr(self, e);
    }
}

fn analyse(tcx: rustc_middle::ty::TyCtxt<'_>) -> ControlFlow<(), ()> {
    let out = std::env::var("MIRDUMP_OUT").unwrap();
    let mode = std::env::var("MIRDUMP_MODE").unwrap_or_else(|_| "mono".into());
    let mono = mode == "mono";
    let mut cx = Cx::new(mono);
    assert_eq!(std::mem::size_of_val(&tcx), std::mem::size_of::<usize>());
    cx.tcx = unsafe { std::mem::transmute_copy(&tcx) };
    let mut roots = Map::new();
    let mut items = vec![];
    let prefix = std::env::var("MIRDUMP_ROOTS").unwrap_or_default();
    for item in rustc_public::all_local_items() {
        if mono {
            if item.kind() != ItemKind::Fn {
                continue;
            }
            let name = item.name();
            let last = name.rsplit("::").next().unwrap_or("").to_string();
            if !prefix.is_empty() && !last.starts_with(&prefix) {
                continue;
            }
            if name.contains("{") {
                continue;
            }
            if let Ok(i) = Instance::try_from(item) {
                roots.insert(name, json!(cx.inst(i)));
            }
        } else {
            if let ItemKind::Static = item.kind() {
                if let Ok(d) = rustc_public::mir::mono::StaticDef::try_from(item) {
                    cx.static_(d);
                }
            }
            let Some(b) = item.body() else { continue };
            let mut v = cx.body(&b);
            v["name"] = json!(item.name());
            v["span"] = json!(span_str(&item.span()));
            v["kind"] = json!(format!("{:?}", item.kind()));
            items.push(v);
        }
    }
    while let Some(i) = cx.queue.pop_front() {
        cx.emit_instance(i);
    }
    let _unused: HashSet<()> = HashSet::new();
    let mut un = Unsafes { tcx, out: vec![] };
    tcx.hir_visit_all_item_likes_in_crate(&mut un);
    // All visits nested items again: once is enough
    un.out.sort_by_key(|v| v.to_string());
    un.out.dedup();
    let mut us = Uses { tcx, results: None, constant: false, out: vec![], seen: HashSet::new(), bodies: 0, names: 0 };
    tcx.hir_visit_all_item_likes_in_crate(&mut us);
    let v = json!({
        "uses": us.out,
        "uses_bodies": us.bodies,
        "uses_names": us.names,
        "roots": roots,
        "instances": cx.inst_out,
        "types": cx.type_out,
        "statics": cx.static_out,
        "items": items,
        "unsafes": un.out,
        "vtables": cx.vtables.iter().map(|(k, v)| (k.to_string(), v.clone())).collect::<Map<String, Value>>(),
    });
    std::fs::write(&out, serde_json::to_vec(&v).unwrap()).unwrap();
    ControlFlow::Continue(())
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // as RUSTC_WRAPPER the first argument is the path of the real rustc
    if args.get(1).map_or(false, |a| a.ends_with("rustc")) {
        args.remove(1);
    }
    // for a whole cargo build: the crates named in MIRDUMP_CRATES are dumped into the directory MIRDUMP_DIR
    if let (Ok(dir), Ok(names)) = (std::env::var("MIRDUMP_DIR"), std::env::var("MIRDUMP_CRATES")) {
        let name = args.iter().position(|a| a == "--crate-name").and_then(|i| args.get(i + 1)).cloned().unwrap_or_default();
        if names.split(',').any(|n| n == name) {
            std::env::set_var("MIRDUMP_OUT", format!("{}/{}.json", dir, name));
        }
    }
    let res = if std::env::var("MIRDUMP_OUT").is_ok() {
        rustc_public::run_with_tcx!(&args, analyse)
    } else {
        rustc_public::run_with_tcx!(&args, |_tcx| ControlFlow::<(), ()>::Continue(()))
    };
    std::process::exit(match res {
        Ok(_) => 0,
        Err(rustc_public::CompilerError::Skipped) => 0,
        Err(_) => 1,
    });
}
