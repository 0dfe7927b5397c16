//! MIR exporter: dumps the monomorphic, type-resolved MIR of the crate being
//! compiled (and of the few generic core helpers it instantiates) as JSON.
//! It never runs any of it.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public;
extern crate rustc_public_bridge;
extern crate rustc_session;
extern crate rustc_span;

use rustc_middle::ty::TyCtxt;
use rustc_public::abi::*;
use rustc_public::crate_def::{CrateDef, CrateDefType};
use rustc_public::mir::alloc::{AllocId, GlobalAlloc};
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::rustc_internal;
use rustc_public::ty::*;
use rustc_public::{CrateItem, ItemKind};
use rustc_public_bridge::IndexedVal;
use std::collections::{BTreeMap, HashMap, VecDeque};
use std::fmt::Write as _;
use std::ops::ControlFlow;

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn list<T, F: FnMut(&T) -> String>(v: &[T], mut f: F) -> String {
    let mut o = String::from("[");
    for (i, x) in v.iter().enumerate() {
        if i > 0 {
            o.push(',');
        }
        o.push_str(&f(x));
    }
    o.push(']');
    o
}

const INLINE_PREFIXES: &[&str] = &[
    "core::option::", "std::option::", "core::result::", "std::result::",
    "core::ops::control_flow::", "std::ops::ControlFlow", "core::ops::ControlFlow",
    "core::ops::try_trait", "std::ops::Try", "core::ops::Try",
    "core::cmp::", "std::cmp::", "core::convert::", "std::convert::",
    "core::bool::", "std::bool", "core::ops::function", "std::ops::Fn",
    "core::tuple", "std::tuple",
];

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<String>,
    ty_ids: HashMap<Ty, usize>,
    fns: BTreeMap<String, String>,
    seen: HashMap<Instance, String>,
    through: VecDeque<Instance>,
    queue: VecDeque<(Instance, String)>,
    names: HashMap<String, usize>,
}

impl<'tcx> Cx<'tcx> {
    fn is_local<D: CrateDef>(&self, d: &D) -> bool {
        d.krate().is_local
    }

    fn ty(&mut self, t: Ty) -> usize {
        if let Some(i) = self.ty_ids.get(&t) {
            return *i;
        }
        let id = self.types.len();
        self.types.push(String::new());
        self.ty_ids.insert(t, id);
        let show = format!("{}", t);
        let body = match t.kind() {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool => "\"k\":\"bool\"".into(),
                RigidTy::Char => "\"k\":\"char\"".into(),
                RigidTy::Int(i) => format!("\"k\":\"int\",\"signed\":true,\"bits\":{}", i.num_bytes() * 8),
                RigidTy::Uint(i) => format!("\"k\":\"int\",\"signed\":false,\"bits\":{}", i.num_bytes() * 8),
                RigidTy::Float(f) => format!("\"k\":\"float\",\"f\":{}", esc(&format!("{:?}", f))),
                RigidTy::Str => "\"k\":\"str\"".into(),
                RigidTy::Never => "\"k\":\"never\"".into(),
                RigidTy::Slice(e) => format!("\"k\":\"slice\",\"elem\":{}", self.ty(e)),
                RigidTy::Array(e, n) => {
                    let e = self.ty(e);
                    format!("\"k\":\"array\",\"elem\":{},\"len\":{}", e,
                        n.eval_target_usize().map(|v| v.to_string()).unwrap_or("null".into()))
                }
                RigidTy::Ref(_, e, m) => format!("\"k\":\"ref\",\"mut\":{},\"elem\":{}", m == Mutability::Mut, self.ty(e)),
                RigidTy::RawPtr(e, m) => format!("\"k\":\"ptr\",\"mut\":{},\"elem\":{}", m == Mutability::Mut, self.ty(e)),
                RigidTy::Tuple(ts) => format!("\"k\":\"tuple\",\"args\":{}", list(&ts, |t| self.ty(*t).to_string())),
                RigidTy::FnDef(d, args) => {
                    let c = self.callee(d, &args);
                    format!("\"k\":\"fndef\",\"callee\":{}", c)
                }
                RigidTy::Closure(d, args) => {
                    let inst = Instance::resolve_closure(d, &args, ClosureKind::FnOnce).ok();
                    // the closure body itself, not the FnOnce shim
                    let b = inst.map(|_| {
                        let ck = closure_kind(&args);
                        Instance::resolve_closure(d, &args, ck).unwrap()
                    });
                    let f = b.and_then(|i| self.want(i));
                    format!("\"k\":\"closure\",\"name\":{},\"fn\":{}", esc(&d.name().to_string()),
                        f.map(|s| esc(&s)).unwrap_or("null".into()))
                }
                RigidTy::FnPtr(_) => "\"k\":\"fnptr\"".into(),
                RigidTy::Dynamic(preds, _) => {
                    let mut v = vec![];
                    for p in preds {
                        if let ExistentialPredicate::Trait(t) = p.skip_binder() {
                            v.push(t.def_id.name().to_string());
                        }
                    }
                    format!("\"k\":\"dyn\",\"traits\":{}", list(&v, |s| esc(s)))
                }
                RigidTy::Adt(def, args) => self.adt(def, &args),
                _ => "\"k\":\"other\"".into(),
            },
            _ => "\"k\":\"other\"".into(),
        };
        self.types[id] = format!("{{{},\"show\":{}}}", body, esc(&show));
        id
    }

    fn adt(&mut self, def: AdtDef, args: &GenericArgs) -> String {
        let name = def.name().to_string();
        let local = self.is_local(&def);
        let targs: Vec<Ty> = args.0.iter().filter_map(|a| a.ty().copied()).collect();
        let mut o = format!("\"k\":\"adt\",\"name\":{},\"local\":{},\"enum\":{},\"box\":{},\"args\":{}",
            esc(&name), local, def.kind().is_enum(), def.is_box(), list(&targs, |t| self.ty(*t).to_string()));
        let mut vs = vec![];
        for v in def.variants() {
            let discr = if def.kind().is_enum() { format!("{}", def.discriminant_for_variant(v.idx()).val) } else { "0".into() };
            let dty = if def.kind().is_enum() { self.ty(def.discriminant_for_variant(v.idx()).ty) as i64 } else { -1 };
            let fields: Vec<String> = v.fields().iter().map(|f| {
                let t = if local || def.kind().is_enum() || name.contains("range::") || name.contains("ops::Range") {
                    self.ty(f.ty_with_args(args)) as i64
                } else { -1 };
                format!("[{},{}]", esc(&f.name.to_string()), t)
            }).collect();
            vs.push(format!("{{\"name\":{},\"discr\":{},\"dty\":{},\"fields\":[{}]}}", esc(&v.name().to_string()), discr, dty, fields.join(",")));
        }
        let _ = write!(o, ",\"variants\":[{}]", vs.join(","));
        o
    }

    fn inst_name(&self, i: &Instance) -> String {
        i.name().to_string()
    }

    /// Queue an instance for export; its unique id if it has an exportable body.
    fn want(&mut self, i: Instance) -> Option<String> {
        if let Some(n) = self.seen.get(&i) {
            return if n.is_empty() { None } else { Some(n.clone()) };
        }
        let name = self.inst_name(&i);
        let def = i.def.def_id();
        let _ = def;
        let local = rustc_internal::internal(self.tcx, i.def.def_id()).is_local();
        let path = self.tcx.def_path_str(rustc_internal::internal(self.tcx, i.def.def_id()));
        let clean = path.trim_start_matches('<');
        let ok = i.has_body()
            && !matches!(i.kind, InstanceKind::Virtual { .. } | InstanceKind::Intrinsic)
            && (local || INLINE_PREFIXES.iter().any(|p| clean.starts_with(p) || name.trim_start_matches('<').starts_with(p))
                || (matches!(i.kind, InstanceKind::Shim) && path.contains("ops::Fn")));
        if !ok {
            // readers derived for the crate's types are reached through serde's generic functions
            if i.has_body() && matches!(i.kind, InstanceKind::Item) && (path.contains("serde::") || path.contains("serde_json::") || path.contains("serde_core::")) {
                self.through.push_back(i.clone());
            }
            self.seen.insert(i, String::new());
            return None;
        }
        let n = self.names.entry(name.clone()).or_insert(0);
        let id = if *n == 0 { name.clone() } else { format!("{}#{}", name, n) };
        *n += 1;
        self.seen.insert(i, id.clone());
        self.queue.push_back((i, id.clone()));
        Some(id)
    }

    /// What a function that is not exported itself calls.
    fn pass(&mut self, i: Instance) {
        if let Some(body) = i.body() {
            for b in &body.blocks {
                if let TerminatorKind::Call { func, .. } = &b.terminator.kind {
                    if let Ok(t) = func.ty(body.locals()) {
                        if let TyKind::RigidTy(RigidTy::FnDef(d, args)) = t.kind() {
                            if let Ok(c) = Instance::resolve(d, &args) {
                                self.want(c);
                            }
                        }
                    }
                }
            }
        }
    }

    fn callee(&mut self, d: FnDef, args: &GenericArgs) -> String {
        let path = d.name().to_string();
        let targs: Vec<String> = args.0.iter().filter_map(|a| match a {
            GenericArgKind::Type(t) => Some(format!("{}", self.ty(*t))),
            GenericArgKind::Const(c) => Some(format!("{{\"const\":{}}}", c.eval_target_usize().map(|v| v.to_string()).unwrap_or("null".into()))),
            _ => None,
        }).collect();
        let internal = rustc_internal::internal(self.tcx, d.def_id());
        let unsafe_fn = d.fn_sig().skip_binder().safety == Safety::Unsafe;
        let trait_item = self.tcx.opt_associated_item(internal).and_then(|a| {
            if a.container_id(self.tcx) != internal && self.tcx.is_trait(a.container_id(self.tcx)) { Some(self.tcx.def_path_str(a.container_id(self.tcx))) } else { None }
        });
        let (res, fid, shim, virt) = match Instance::resolve(d, args) {
            Ok(i) => {
                let n = self.inst_name(&i);
                let f = self.want(i);
                let rp = self.tcx.def_path_str(rustc_internal::internal(self.tcx, i.def.def_id()));
                (format!("[{},{}]", esc(&n), esc(&rp)), f, matches!(i.kind, InstanceKind::Shim), matches!(i.kind, InstanceKind::Virtual { .. }))
            }
            Err(_) => ("null".into(), None, false, false),
        };
        format!("{{\"path\":{},\"trait\":{},\"res\":{},\"fn\":{},\"shim\":{},\"virtual\":{},\"unsafe\":{},\"args\":[{}]}}",
            esc(&path), trait_item.map(|s| esc(&s)).unwrap_or("null".into()), res,
            fid.map(|s| esc(&s)).unwrap_or("null".into()), shim, virt, unsafe_fn, targs.join(","))
    }

    fn place(&mut self, p: &Place) -> String {
        let projs = list(&p.projection, |e| match e {
            ProjectionElem::Deref => "\"*\"".into(),
            ProjectionElem::Field(i, t) => format!("[\"f\",{},{}]", i, self.ty(*t)),
            ProjectionElem::Index(l) => format!("[\"i\",{}]", l),
            ProjectionElem::ConstantIndex { offset, min_length, from_end } => format!("[\"ci\",{},{},{}]", offset, min_length, from_end),
            ProjectionElem::Subslice { from, to, from_end } => format!("[\"ss\",{},{},{}]", from, to, from_end),
            ProjectionElem::Downcast(v) => format!("[\"v\",{}]", v.to_index()),
            ProjectionElem::OpaqueCast(_) => "[\"oc\"]".into(),
        });
        format!("[{},{}]", p.local, projs)
    }

    fn alloc_const(&mut self, a: &Allocation, off: usize, t: Ty, depth: usize) -> String {
        let size = t.layout().map(|l| l.shape().size.bytes()).unwrap_or(0);
        let bytes_at = |n: usize| -> Option<u128> {
            let mut v: u128 = 0;
            if n > 16 { return None; }
            for k in 0..n {
                v |= (a.bytes.get(off + k).copied().flatten()? as u128) << (8 * k);
            }
            Some(v)
        };
        let ti = self.ty(t);
        match t.kind() {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool | RigidTy::Char | RigidTy::Uint(_) => {
                    if let Some(v) = bytes_at(size) { return format!("{{\"c\":\"int\",\"t\":{},\"v\":{}}}", ti, v); }
                }
                RigidTy::Int(_) => {
                    if let Some(v) = bytes_at(size) {
                        let sh = 128 - 8 * size as u32;
                        let v = ((v << sh) as i128) >> sh;
                        return format!("{{\"c\":\"int\",\"t\":{},\"v\":{}}}", ti, v);
                    }
                }
                RigidTy::Float(_) => {
                    if let Some(v) = bytes_at(size) {
                        let s = if size == 4 { format!("{:?}", f32::from_bits(v as u32)) } else { format!("{:?}", f64::from_bits(v as u64)) };
                        return format!("{{\"c\":\"float\",\"t\":{},\"v\":{},\"bits\":{}}}", ti, esc(&s), v);
                    }
                }
                RigidTy::Ref(_, inner, _) | RigidTy::RawPtr(inner, _) => {
                    let prov = a.provenance.ptrs.iter().find(|(o, _)| *o == off).map(|(_, p)| p.0);
                    if let Some(p) = prov {
                        let base = bytes_at(8).unwrap_or(0) as usize;
                        let len = {
                            let mut v: u128 = 0;
                            let mut ok = true;
                            for k in 0..8 { match a.bytes.get(off + 8 + k).copied().flatten() { Some(b) => v |= (b as u128) << (8 * k), None => ok = false } }
                            if ok { Some(v as usize) } else { None }
                        };
                        return self.ptr_const(p, base, len, inner, ti, depth);
                    }
                    // dangling (empty) pointers
                    if size == 16 {
                        return format!("{{\"c\":\"ref\",\"t\":{},\"to\":{{\"c\":\"arr\",\"t\":{},\"v\":[]}}}}", ti, self.ty(inner));
                    }
                }
                RigidTy::Array(e, n) => {
                    if let Ok(n) = n.eval_target_usize() {
                        if n <= 64 {
                            let es = e.layout().map(|l| l.shape().size.bytes()).unwrap_or(0);
                            let v: Vec<String> = (0..n as usize).map(|k| self.alloc_const(a, off + k * es, e, depth + 1)).collect();
                            return format!("{{\"c\":\"arr\",\"t\":{},\"v\":[{}]}}", ti, v.join(","));
                        }
                    }
                }
                RigidTy::Tuple(ts) => {
                    if ts.is_empty() { return format!("{{\"c\":\"zst\",\"t\":{}}}", ti); }
                    if let Ok(l) = t.layout() {
                        if let FieldsShape::Arbitrary { offsets } = &l.shape().fields {
                            let v: Vec<String> = ts.iter().enumerate().map(|(k, ft)| self.alloc_const(a, off + offsets[k].bytes(), *ft, depth + 1)).collect();
                            return format!("{{\"c\":\"tuple\",\"t\":{},\"v\":[{}]}}", ti, v.join(","));
                        }
                    }
                }
                RigidTy::Adt(def, args) => {
                    if size == 0 && def.kind().is_struct() { return format!("{{\"c\":\"zst\",\"t\":{}}}", ti); }
                    if let Ok(l) = t.layout() {
                        let shape = l.shape();
                        if def.kind().is_struct() {
                            if let FieldsShape::Arbitrary { offsets } = &shape.fields {
                                let fs: Vec<Ty> = def.variants()[0].fields().iter().map(|f| f.ty_with_args(&args)).collect();
                                let v: Vec<String> = fs.iter().enumerate().map(|(k, ft)| self.alloc_const(a, off + offsets[k].bytes(), *ft, depth + 1)).collect();
                                return format!("{{\"c\":\"adt\",\"t\":{},\"var\":0,\"v\":[{}]}}", ti, v.join(","));
                            }
                        } else if def.kind().is_enum() {
                            if let Some((vi, offsets)) = self.enum_variant(a, off, &shape) {
                                let var = def.variants()[vi].clone();
                                let fs: Vec<Ty> = var.fields().iter().map(|f| f.ty_with_args(&args)).collect();
                                if offsets.len() >= fs.len() {
                                    let v: Vec<String> = fs.iter().enumerate().map(|(k, ft)| self.alloc_const(a, off + offsets[k], *ft, depth + 1)).collect();
                                    return format!("{{\"c\":\"adt\",\"t\":{},\"var\":{},\"v\":[{}]}}", ti, vi, v.join(","));
                                }
                            }
                        }
                    }
                }
                _ => {}
            },
            _ => {}
        }
        let raw: Vec<String> = (0..size.min(64)).map(|k| a.bytes.get(off + k).copied().flatten().map(|b| b.to_string()).unwrap_or("null".into())).collect();
        format!("{{\"c\":\"raw\",\"t\":{},\"v\":[{}]}}", ti, raw.join(","))
    }

    fn enum_variant(&mut self, a: &Allocation, off: usize, shape: &LayoutShape) -> Option<(usize, Vec<usize>)> {
        match &shape.variants {
            VariantsShape::Single { index } => {
                let offs = match &shape.fields { FieldsShape::Arbitrary { offsets } => offsets.iter().map(|o| o.bytes()).collect(), _ => vec![] };
                Some((index.to_index(), offs))
            }
            VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                let toff = match &shape.fields { FieldsShape::Arbitrary { offsets } => offsets.get(*tag_field)?.bytes(), _ => 0 };
                let (Scalar::Initialized { value, .. } | Scalar::Union { value }) = tag;
                let n = match value { Primitive::Int { length, .. } => length.bits() / 8, Primitive::Pointer(_) => 8, _ => return None };
                if a.provenance.ptrs.iter().any(|(o, _)| *o == off + toff) {
                    if let TagEncoding::Niche { untagged_variant, .. } = tag_encoding {
                        let vi = untagged_variant.to_index();
                        return Some((vi, variants.get(vi)?.offsets.iter().map(|o| o.bytes()).collect()));
                    }
                }
                let mut v: u128 = 0;
                for k in 0..n { v |= (a.bytes.get(off + toff + k).copied().flatten()? as u128) << (8 * k); }
                let vi = match tag_encoding {
                    TagEncoding::Direct => v as usize,
                    TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                        let mask = if n == 16 { u128::MAX } else { (1u128 << (8 * n)) - 1 };
                        let rel = v.wrapping_sub(*niche_start) & mask;
                        let lo = niche_variants.start().to_index() as u128;
                        let hi = niche_variants.end().to_index() as u128;
                        if rel <= hi - lo { (lo + rel) as usize } else { untagged_variant.to_index() }
                    }
                };
                Some((vi, variants.get(vi)?.offsets.iter().map(|o| o.bytes()).collect()))
            }
            _ => None,
        }
    }

    fn ptr_const(&mut self, p: AllocId, base: usize, len: Option<usize>, inner: Ty, ti: usize, depth: usize) -> String {
        match GlobalAlloc::from(p) {
            GlobalAlloc::Memory(m) => match inner.kind() {
                TyKind::RigidTy(RigidTy::Str) => {
                    let n = len.unwrap_or(0);
                    let b: Vec<u8> = (0..n).filter_map(|k| m.bytes.get(base + k).copied().flatten()).collect();
                    format!("{{\"c\":\"str\",\"t\":{},\"v\":{}}}", ti, esc(&String::from_utf8_lossy(&b)))
                }
                TyKind::RigidTy(RigidTy::Slice(e)) => {
                    let n = len.unwrap_or(0).min(64);
                    let es = e.layout().map(|l| l.shape().size.bytes()).unwrap_or(0);
                    let v: Vec<String> = if depth > 6 { vec![] } else { (0..n).map(|k| self.alloc_const(&m, base + k * es, e, depth + 1)).collect() };
                    let it = self.ty(inner);
                    format!("{{\"c\":\"ref\",\"t\":{},\"to\":{{\"c\":\"arr\",\"t\":{},\"v\":[{}]}}}}", ti, it, v.join(","))
                }
                _ => {
                    if depth > 6 { return format!("{{\"c\":\"raw\",\"t\":{},\"v\":[]}}", ti); }
                    let to = self.alloc_const(&m, base, inner, depth + 1);
                    format!("{{\"c\":\"ref\",\"t\":{},\"to\":{}}}", ti, to)
                }
            },
            GlobalAlloc::Static(s) => format!("{{\"c\":\"static\",\"t\":{},\"v\":{}}}", ti, esc(&s.name().to_string())),
            GlobalAlloc::Function(i) => {
                let f = self.want(i);
                format!("{{\"c\":\"fnptr\",\"t\":{},\"name\":{},\"fn\":{}}}", ti, esc(&self.inst_name(&i)), f.map(|s| esc(&s)).unwrap_or("null".into()))
            }
            _ => format!("{{\"c\":\"raw\",\"t\":{},\"v\":[]}}", ti),
        }
    }

    fn konst(&mut self, c: &MirConst) -> String {
        let t = c.ty();
        let ti = self.ty(t);
        match c.kind() {
            ConstantKind::Allocated(a) => self.alloc_const(a, 0, t, 0),
            ConstantKind::ZeroSized => format!("{{\"c\":\"zst\",\"t\":{}}}", ti),
            ConstantKind::Ty(tc) => match tc.kind() {
                TyConstKind::Value(_, a) => self.alloc_const(a, 0, t, 0),
                TyConstKind::ZSTValue(_) => format!("{{\"c\":\"zst\",\"t\":{}}}", ti),
                _ => format!("{{\"c\":\"raw\",\"t\":{},\"v\":[]}}", ti),
            },
            _ => format!("{{\"c\":\"raw\",\"t\":{},\"v\":[]}}", ti),
        }
    }

    fn op(&mut self, o: &Operand) -> String {
        match o {
            Operand::Copy(p) => format!("[\"cp\",{}]", self.place(p)),
            Operand::Move(p) => format!("[\"mv\",{}]", self.place(p)),
            Operand::Constant(c) => format!("[\"k\",{}]", self.konst(&c.const_)),
            Operand::RuntimeChecks(r) => format!("[\"rc\",{}]", esc(&format!("{:?}", r))),
        }
    }

    fn rvalue(&mut self, r: &Rvalue) -> String {
        match r {
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.op(o)),
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"cp\",{}]]", self.place(p)),
            Rvalue::Ref(_, bk, p) => format!("[\"ref\",{},{}]", esc(match bk { BorrowKind::Shared => "s", BorrowKind::Fake(_) => "f", BorrowKind::Mut { .. } => "m" }), self.place(p)),
            Rvalue::Reborrow(_, m, p) => format!("[\"ref\",{},{}]", esc(if *m == Mutability::Mut { "m" } else { "s" }), self.place(p)),
            Rvalue::AddressOf(_, p) => format!("[\"ref\",\"raw\",{}]", self.place(p)),
            Rvalue::Aggregate(k, ops) => {
                let ops_s = list(ops, |o| self.op(o));
                match k {
                    AggregateKind::Array(t) => { let t = self.ty(*t); format!("[\"agg\",\"array\",{},0,{}]", t, ops_s) }
                    AggregateKind::Tuple => format!("[\"agg\",\"tuple\",0,0,{}]", ops_s),
                    AggregateKind::Adt(d, v, args, _, active) => {
                        let t = self.ty(d.ty_with_args(args));
                        if active.is_some() { return format!("[\"agg\",\"union\",{},0,{}]", t, ops_s); }
                        format!("[\"agg\",\"adt\",{},{},{}]", t, v.to_index(), ops_s)
                    }
                    AggregateKind::Closure(d, args) => {
                        let t = self.ty(Ty::new_closure(*d, args.clone()));
                        format!("[\"agg\",\"closure\",{},0,{}]", t, ops_s)
                    }
                    AggregateKind::RawPtr(..) => format!("[\"agg\",\"rawptr\",0,0,{}]", ops_s),
                    _ => format!("[\"other\",{}]", esc("agg")),
                }
            }
            Rvalue::BinaryOp(b, l, r) => format!("[\"bin\",{},{},{}]", esc(&format!("{:?}", b)), self.op(l), self.op(r)),
            Rvalue::CheckedBinaryOp(b, l, r) => format!("[\"chk\",{},{},{}]", esc(&format!("{:?}", b)), self.op(l), self.op(r)),
            Rvalue::UnaryOp(u, o) => format!("[\"un\",{},{}]", esc(&format!("{:?}", u)), self.op(o)),
            Rvalue::Cast(k, o, t) => format!("[\"cast\",{},{},{}]", esc(&format!("{:?}", k)), self.op(o), self.ty(*t)),
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(p)),
            Rvalue::Len(p) => format!("[\"len\",{}]", self.place(p)),
            Rvalue::Repeat(o, n) => format!("[\"repeat\",{},{}]", self.op(o), n.eval_target_usize().map(|v| v.to_string()).unwrap_or("null".into())),
            Rvalue::ThreadLocalRef(i) => format!("[\"tls\",{}]", esc(&i.name().to_string())),
        }
    }

    fn line(&self, s: &Span) -> String {
        format!("{}", s.get_lines().start_line)
    }

    fn export(&mut self, i: Instance, id: &str) {
        let body = match i.body() { Some(b) => b, None => { self.fns.insert(id.to_string(), "null".into()); return; } };
        let local = rustc_internal::internal(self.tcx, i.def.def_id()).is_local();
        let path = self.tcx.def_path_str(rustc_internal::internal(self.tcx, i.def.def_id()));
        let mut o = String::from("{");
        let file = body.span.get_filename().to_string();
        let _ = write!(o, "\"path\":{},\"local\":{},\"file\":{},\"line\":{},\"nargs\":{},\"spread\":{},\"kind\":{},",
            esc(&path), local, esc(&file), self.line(&body.span), body.arg_locals().len(),
            body.spread_arg().map(|l| l.to_string()).unwrap_or("null".into()), esc(&format!("{:?}", i.kind)));
        let locals = list(body.locals(), |l| self.ty(l.ty).to_string());
        let _ = write!(o, "\"locals\":{},", locals);
        let mut names: Vec<String> = vec![];
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                names.push(format!("[{},{},{}]", esc(&v.name.to_string()), self.place(p), v.argument_index.map(|a| a.to_string()).unwrap_or("null".into())));
            }
        }
        let _ = write!(o, "\"vars\":[{}],\"blocks\":[", names.join(","));
        for (bi, b) in body.blocks.iter().enumerate() {
            if bi > 0 { o.push(','); }
            let mut ss = vec![];
            for s in &b.statements {
                let ln = self.line(&s.source_info.span);
                match &s.kind {
                    StatementKind::Assign(p, r) => {
                        let (p, r) = (self.place(p), self.rvalue(r));
                        ss.push(format!("[\"=\",{},{},{}]", p, r, ln));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(place);
                        ss.push(format!("[\"sd\",{},{},{}]", p, variant_index.to_index(), ln));
                    }
                    StatementKind::StorageDead(l) => ss.push(format!("[\"dead\",{}]", l)),
                    StatementKind::Intrinsic(NonDivergingIntrinsic::CopyNonOverlapping(_)) => ss.push("[\"copy_nonoverlapping\"]".into()),
                    _ => {}
                }
            }
            let ln = self.line(&b.terminator.source_info.span);
            let t = match &b.terminator.kind {
                TerminatorKind::Goto { target } => format!("[\"goto\",{}]", target),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let t = discr.ty(body.locals()).map(|t| self.ty(t) as i64).unwrap_or(-1);
                    let br: Vec<String> = targets.branches().map(|(v, b)| format!("[{},{}]", v, b)).collect();
                    format!("[\"switch\",{},{},[{}],{}]", self.op(discr), t, br.join(","), targets.otherwise())
                }
                TerminatorKind::Return => "[\"return\"]".into(),
                TerminatorKind::Resume | TerminatorKind::Abort => "[\"resume\"]".into(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
                TerminatorKind::Drop { place, target, .. } => {
                    let t = place.ty(body.locals()).map(|t| self.ty(t) as i64).unwrap_or(-1);
                    format!("[\"drop\",{},{},{}]", self.place(place), target, t)
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = match func {
                        Operand::Constant(c) => match c.const_.ty().kind() {
                            TyKind::RigidTy(RigidTy::FnDef(d, ga)) => format!("[\"def\",{}]", self.callee(d, &ga)),
                            _ => format!("[\"dyn\",{}]", self.op(func)),
                        },
                        _ => format!("[\"dyn\",{}]", self.op(func)),
                    };
                    let at: Vec<String> = args.iter().map(|a| a.ty(body.locals()).map(|t| self.ty(t).to_string()).unwrap_or("-1".into())).collect();
                    let rt = destination.ty(body.locals()).map(|t| self.ty(t) as i64).unwrap_or(-1);
                    format!("[\"call\",{},{},{},{},[{}],{}]", f, list(args, |a| self.op(a)), self.place(destination),
                        target.map(|t| t.to_string()).unwrap_or("null".into()), at.join(","), rt)
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = match msg {
                        AssertMessage::BoundsCheck { len, index } => format!("[\"bounds\",{},{}]", self.op(len), self.op(index)),
                        AssertMessage::Overflow(b, l, r) => format!("[\"overflow\",{},{},{}]", esc(&format!("{:?}", b)), self.op(l), self.op(r)),
                        AssertMessage::OverflowNeg(l) => format!("[\"neg\",{}]", self.op(l)),
                        AssertMessage::DivisionByZero(l) => format!("[\"div0\",{}]", self.op(l)),
                        AssertMessage::RemainderByZero(l) => format!("[\"rem0\",{}]", self.op(l)),
                        m => format!("[\"other\",{}]", esc(&format!("{:?}", m).chars().take(40).collect::<String>())),
                    };
                    format!("[\"assert\",{},{},{},{}]", self.op(cond), expected, m, target)
                }
                TerminatorKind::InlineAsm { .. } => "[\"asm\"]".into(),
            };
            let _ = write!(o, "{{\"s\":[{}],\"t\":{},\"l\":{}}}", ss.join(","), t, ln);
        }
        o.push_str("]}");
        self.fns.insert(id.to_string(), o);
    }
}

fn closure_kind(args: &GenericArgs) -> ClosureKind {
    // closure kind is encoded as a phantom integer type in the generic args
    let tys: Vec<Ty> = args.0.iter().filter_map(|a| a.ty().copied()).collect();
    if tys.len() >= 3 {
        let k = &tys[tys.len() - 3];
        match k.kind() {
            TyKind::RigidTy(RigidTy::Int(IntTy::I8)) => return ClosureKind::Fn,
            TyKind::RigidTy(RigidTy::Int(IntTy::I16)) => return ClosureKind::FnMut,
            TyKind::RigidTy(RigidTy::Int(IntTy::I32)) => return ClosureKind::FnOnce,
            _ => {}
        }
    }
    ClosureKind::Fn
}

fn dump(tcx: TyCtxt<'_>) -> ControlFlow<()> {
    let out = std::env::var("VERIF_MIR_OUT").unwrap();
    let mut cx = Cx { tcx, types: vec![], ty_ids: HashMap::new(), fns: BTreeMap::new(), seen: HashMap::new(), through: VecDeque::new(), queue: VecDeque::new(), names: HashMap::new() };
    let mut roots = vec![];
    let mut generic = vec![];
    let mut items: Vec<CrateItem> = rustc_public::all_local_items().into_iter().collect();
    items.sort_by_key(|i| i.name().to_string());
    for item in items {
        if !matches!(item.kind(), ItemKind::Fn) { continue; }
        let id = rustc_internal::internal(tcx, item.def_id());
        if tcx.is_closure_like(id) { continue; }
        if item.requires_monomorphization() { generic.push(item.name().to_string()); continue; }
        if let Ok(i) = Instance::try_from(item) {
            if let Some(n) = cx.want(i) { roots.push(n); }
        }
    }
    loop {
        while let Some((i, id)) = cx.queue.pop_front() {
            cx.export(i, &id);
        }
        match cx.through.pop_front() { Some(i) => cx.pass(i), None => break }
    }
    // syntactic unsafe census over the crate's own code (HIR)
    let mut unsafe_blocks: Vec<String> = vec![];
    {
        use rustc_hir::intravisit::{self, Visitor};
        struct V<'tcx> { tcx: TyCtxt<'tcx>, out: Vec<String> }
        impl<'tcx> Visitor<'tcx> for V<'tcx> {
            type NestedFilter = rustc_middle::hir::nested_filter::All;
            fn maybe_tcx(&mut self) -> TyCtxt<'tcx> { self.tcx }
            fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
                if let rustc_hir::BlockCheckMode::UnsafeBlock(src) = b.rules {
                    let exp = b.span.from_expansion();
                    let own = self.tcx.hir_enclosing_body_owner(b.hir_id);
                    self.out.push(format!("{{\"fn\":{},\"expansion\":{},\"user\":{},\"at\":{}}}",
                        esc(&self.tcx.def_path_str(own.to_def_id())), exp,
                        matches!(src, rustc_hir::UnsafeSource::UserProvided), esc(&self.tcx.sess.source_map().span_to_diagnostic_string(b.span))));
                }
                intravisit::walk_block(self, b);
            }
        }
        let mut v = V { tcx, out: vec![] };
        tcx.hir_visit_all_item_likes_in_crate(&mut v);
        unsafe_blocks.append(&mut v.out);
    }
    let mut statics: Vec<String> = vec![];
    for item in rustc_public::all_local_items() {
        if let ItemKind::Static = item.kind() {
            let t = cx.ty(item.ty());
            let m = tcx.is_mutable_static(rustc_internal::internal(tcx, item.def_id()));
            statics.push(format!("{{\"name\":{},\"ty\":{},\"mut\":{}}}", esc(&item.name().to_string()), t, m));
        }
    }
    let mut o = String::new();
    o.push_str("{\"crate\":");
    o.push_str(&esc(&rustc_public::local_crate().name.to_string()));
    let _ = write!(o, ",\"roots\":{},\"generic\":{},\"unsafe\":[{}],\"statics\":[{}],\"types\":[\n{}\n],\"fns\":{{\n", list(&roots, |s| esc(s)), list(&generic, |s| esc(s)), unsafe_blocks.join(","), statics.join(","), cx.types.join(",\n"));
    let mut first = true;
    for (k, v) in &cx.fns {
        if !first { o.push_str(",\n"); }
        first = false;
        let _ = write!(o, "{}:{}", esc(k), v);
    }
    o.push_str("\n}}\n");
    let tmp = format!("{}.tmp{}", out, std::process::id());
    std::fs::write(&tmp, o).unwrap();
    std::fs::rename(&tmp, &out).unwrap();
    ControlFlow::Continue(())
}

fn main() {
    // RUSTC_WORKSPACE_WRAPPER: argv = [driver, rustc, args...]
    let mut args: Vec<String> = std::env::args().collect();
    let rustc = if args.len() > 1 { args.remove(1) } else { "rustc".into() };
    let target = std::env::var("VERIF_CRATE").unwrap_or_default();
    let pos = args.iter().position(|a| a == "--crate-name");
    let is_target = pos.map(|p| args.get(p + 1) == Some(&target)).unwrap_or(false);
    if !is_target {
        let st = std::process::Command::new(rustc).args(&args[1..]).status().unwrap();
        std::process::exit(st.code().unwrap_or(1));
    }
    args.push("-Zmir-opt-level=0".into());
    let r = rustc_public::run_with_tcx!(&args, dump);
    match r {
        Ok(_) => std::process::exit(0),
        Err(_) => std::process::exit(1),
    }
}
