// MIR extraction driver: compiles a harness crate exactly as rustc would and writes
// the monomorphised MIR of everything reachable from its `root_*` functions as JSON.
// It never executes any of it.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public_bridge;
#[macro_use]
extern crate rustc_public;

use rustc_public::abi::{FieldsShape, TagEncoding, VariantsShape};
use rustc_public::crate_def::{CrateDef, CrateDefType};
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public_bridge::IndexedVal;
use std::collections::{HashMap, VecDeque};
use std::fmt::Write as _;
use std::ops::ControlFlow;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || (c as u32) == 0x7f => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn arr(v: Vec<String>) -> String {
    format!("[{}]", v.join(","))
}

struct Cx {
    ty_ids: HashMap<Ty, usize>,
    tys: Vec<String>,
    inst_ids: HashMap<Instance, usize>,
    insts: Vec<Instance>,
    queue: VecDeque<usize>,
    skip: Vec<String>,
}

fn def_name(i: &Instance) -> String {
    i.def.name().to_string()
}

/// The iterators of std's containers override provided methods of Iterator for speed, with bodies made of
/// pointer arithmetic. The trait's own body says the same in terms of next(), so it is the one that is dumped.
fn provided(i: Instance, d: FnDef, a: &GenericArgs) -> Option<Instance> {
    let n = def_name(&i);
    let m = n.rsplit("::").next().unwrap_or("");
    const LEAF: [&str; 12] = [
        "<std::slice::Iter<", "<std::slice::IterMut<", "<std::str::Chars<", "<std::str::Bytes<", "<std::str::CharIndices<",
        "<std::vec::IntoIter<", "<std::collections::vec_deque::", "std::iter::range::<impl ", "<std::option::IntoIter<",
        "<std::option::Iter<", "<std::collections::hash_", "<std::collections::btree_",
    ];
    // all, any, find, find_map and for_each of slices are plain loops over next() already
    const METHODS: [&str; 10] =
        ["position", "rposition", "fold", "rfold", "try_fold", "try_rfold", "max", "min", "max_by", "min_by"];
    if !METHODS.contains(&m) || !LEAF.iter().any(|l| n.starts_with(l)) {
        return None;
    }
    rustc_middle::ty::tls::with(|tcx| {
        let did = rustc_public::rustc_internal::internal(tcx, d.def_id());
        if tcx.trait_of_assoc(did).is_none() || !tcx.is_mir_available(did) {
            return None;
        }
        let args = rustc_public::rustc_internal::internal(tcx, a.clone());
        let args = tcx.erase_and_anonymize_regions(args);
        Some(rustc_public::rustc_internal::stable(rustc_middle::ty::Instance::new_raw(did, args)))
    })
}

impl Cx {
    fn inst(&mut self, i: Instance) -> usize {
        if let Some(&k) = self.inst_ids.get(&i) {
            return k;
        }
        let k = self.insts.len();
        self.inst_ids.insert(i, k);
        self.insts.push(i);
        self.queue.push_back(k);
        k
    }

    fn ty(&mut self, t: Ty) -> usize {
        if let Some(&k) = self.ty_ids.get(&t) {
            return k;
        }
        let k = self.tys.len();
        self.ty_ids.insert(t, k);
        self.tys.push(String::new());
        let s = self.ty_json(t);
        self.tys[k] = s;
        k
    }

    fn args_json(&mut self, args: &GenericArgs) -> String {
        let v = args
            .0
            .iter()
            .filter_map(|a| match a {
                GenericArgKind::Type(t) => Some(self.ty(*t).to_string()),
                GenericArgKind::Const(c) => Some(match c.eval_target_usize() {
                    Ok(n) => format!("{{\"c\":{}}}", n),
                    Err(_) => "null".to_string(),
                }),
                GenericArgKind::Lifetime(_) => None,
            })
            .collect();
        arr(v)
    }

    fn ty_json(&mut self, t: Ty) -> String {
        let disp = esc(&format!("{}", t));
        let body = match t.kind() {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool => "\"k\":\"bool\"".into(),
                RigidTy::Char => "\"k\":\"char\"".into(),
                RigidTy::Int(i) => format!("\"k\":\"int\",\"bits\":{},\"signed\":true", i.num_bytes() * 8),
                RigidTy::Uint(i) => format!("\"k\":\"int\",\"bits\":{},\"signed\":false", i.num_bytes() * 8),
                RigidTy::Float(f) => format!("\"k\":\"float\",\"name\":{}", esc(&format!("{:?}", f))),
                RigidTy::Str => "\"k\":\"str\"".into(),
                RigidTy::Never => "\"k\":\"never\"".into(),
                RigidTy::Adt(def, args) => {
                    let kind = format!("{:?}", def.kind());
                    let a = self.args_json(&args);
                    let mut vs = vec![];
                    for v in def.variants() {
                        let d = if def.kind() == AdtKind::Enum {
                            def.discriminant_for_variant(v.idx()).val
                        } else {
                            0
                        };
                        let fs = v
                            .fields()
                            .iter()
                            .map(|f| {
                                let ft = f.ty_with_args(&args);
                                let k = self.ty(ft);
                                format!("{{\"n\":{},\"t\":{}}}", esc(&f.name.to_string()), k)
                            })
                            .collect::<Vec<_>>();
                        vs.push(format!(
                            "{{\"n\":{},\"d\":{},\"f\":{}}}",
                            esc(&v.name().to_string()),
                            d,
                            arr(fs)
                        ));
                    }
                    format!(
                        "\"k\":\"adt\",\"adt\":{},\"name\":{},\"args\":{},\"vars\":{},\"box\":{}",
                        esc(&kind),
                        esc(&def.name().to_string()),
                        a,
                        arr(vs),
                        def.is_box()
                    )
                }
                RigidTy::Array(e, n) => {
                    let k = self.ty(e);
                    let n = n.eval_target_usize().map(|x| x.to_string()).unwrap_or("null".into());
                    format!("\"k\":\"array\",\"e\":{},\"n\":{}", k, n)
                }
                RigidTy::Slice(e) => format!("\"k\":\"slice\",\"e\":{}", self.ty(e)),
                RigidTy::RawPtr(e, m) => format!("\"k\":\"ptr\",\"e\":{},\"m\":{}", self.ty(e), m == Mutability::Mut),
                RigidTy::Ref(_, e, m) => format!("\"k\":\"ref\",\"e\":{},\"m\":{}", self.ty(e), m == Mutability::Mut),
                RigidTy::FnDef(d, a) => {
                    let i = Instance::resolve(d, &a).ok();
                    let ik = match i {
                        Some(i) => self.inst(i).to_string(),
                        None => "null".into(),
                    };
                    format!("\"k\":\"fndef\",\"name\":{},\"inst\":{}", esc(&d.name().to_string()), ik)
                }
                RigidTy::FnPtr(_) => "\"k\":\"fnptr\"".into(),
                RigidTy::Closure(d, a) => {
                    // the instance that implements the closure body
                    let up = match a.0.last() {
                        Some(GenericArgKind::Type(t)) => self.ty(*t).to_string(),
                        _ => "null".into(),
                    };
                    format!("\"k\":\"closure\",\"name\":{},\"up\":{}", esc(&d.name().to_string()), up)
                }
                RigidTy::Dynamic(..) => "\"k\":\"dyn\"".into(),
                RigidTy::Tuple(ts) => {
                    let v = ts.iter().map(|t| self.ty(*t).to_string()).collect();
                    format!("\"k\":\"tuple\",\"f\":{}", arr(v))
                }
                RigidTy::Pat(t, _) => format!("\"k\":\"pat\",\"e\":{}", self.ty(t)),
                _ => "\"k\":\"other\"".into(),
            },
            _ => "\"k\":\"other\"".into(),
        };
        format!("{{\"s\":{},{}}}", disp, body)
    }

    fn place(&mut self, p: &Place) -> String {
        if p.projection.is_empty() {
            return format!("[{}]", p.local);
        }
        let mut v = vec![p.local.to_string()];
        for e in &p.projection {
            v.push(match e {
                ProjectionElem::Deref => "\"*\"".into(),
                ProjectionElem::Field(i, t) => format!("[\"f\",{},{}]", i, self.ty(*t)),
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    format!("[\"ci\",{},{},{}]", offset, min_length, from_end)
                }
                ProjectionElem::Subslice { from, to, from_end } => format!("[\"ss\",{},{},{}]", from, to, from_end),
                ProjectionElem::Downcast(i) => format!("[\"d\",{}]", i.to_index()),
                ProjectionElem::OpaqueCast(_) => "[\"oc\"]".into(),
            });
        }
        arr(v)
    }

    fn read_uint(bytes: &[Option<u8>], off: usize, n: usize) -> Option<u128> {
        let mut r: u128 = 0;
        for i in 0..n {
            match bytes.get(off + i) {
                Some(Some(b)) => r |= (*b as u128) << (8 * i),
                _ => return None,
            }
        }
        Some(r)
    }

    fn decode(&mut self, a: &Allocation, off: usize, t: Ty, depth: usize) -> String {
        let opaque = "{\"k\":\"opaque\"}".to_string();
        if depth > 12 {
            return opaque;
        }
        let size = match t.layout() {
            Ok(l) => l.shape().size.bytes(),
            Err(_) => return opaque,
        };
        let tid = self.ty(t);
        match t.kind() {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool | RigidTy::Char | RigidTy::Int(_) | RigidTy::Uint(_) | RigidTy::Float(_) => {
                    match Self::read_uint(&a.bytes, off, size) {
                        Some(x) => {
                            if let RigidTy::Int(it) = r {
                                let n = it.num_bytes() * 8;
                                let mut y = x as i128;
                                if n < 128 && (x >> (n - 1)) & 1 == 1 {
                                    y = (x as i128) - (1i128 << n);
                                }
                                format!("{{\"k\":\"s\",\"t\":{},\"v\":{}}}", tid, y)
                            } else {
                                format!("{{\"k\":\"s\",\"t\":{},\"v\":{}}}", tid, x)
                            }
                        }
                        None => opaque,
                    }
                }
                RigidTy::Pat(b, _) => self.decode(a, off, b, depth + 1),
                RigidTy::Ref(_, e, _) | RigidTy::RawPtr(e, _) => {
                    let prov = a.provenance.ptrs.iter().find(|(o, _)| *o == off).map(|(_, p)| p.0);
                    let addend = Self::read_uint(&a.bytes, off, 8).unwrap_or(0) as usize;
                    let id = match prov {
                        Some(id) => id,
                        None => {
                            if let TyKind::RigidTy(RigidTy::Slice(_)) = e.kind() {
                                let len = Self::read_uint(&a.bytes, off + 8, 8).unwrap_or(0);
                                if len == 0 {
                                    return format!("{{\"k\":\"slice\",\"t\":{},\"v\":[]}}", tid);
                                }
                            }
                            if let TyKind::RigidTy(RigidTy::Str) = e.kind() {
                                return format!("{{\"k\":\"str\",\"t\":{},\"v\":\"\"}}", tid);
                            }
                            return format!("{{\"k\":\"rawptr\",\"t\":{},\"v\":{}}}", tid, addend);
                        }
                    };
                    let mem = match GlobalAlloc::from(id) {
                        GlobalAlloc::Memory(m) => m,
                        GlobalAlloc::Static(s) => match s.eval_initializer() {
                            Ok(m) => m,
                            Err(_) => return opaque,
                        },
                        GlobalAlloc::Function(i) => {
                            let k = self.inst(i);
                            return format!("{{\"k\":\"fn\",\"t\":{},\"v\":{}}}", tid, k);
                        }
                        _ => return opaque,
                    };
                    match e.kind() {
                        TyKind::RigidTy(RigidTy::Str) => {
                            let len = Self::read_uint(&a.bytes, off + 8, 8).unwrap_or(0) as usize;
                            let bs: Vec<u8> =
                                mem.bytes[addend..addend + len].iter().map(|b| b.unwrap_or(0)).collect();
                            match String::from_utf8(bs) {
                                Ok(s) => format!("{{\"k\":\"str\",\"t\":{},\"v\":{}}}", tid, esc(&s)),
                                Err(_) => opaque,
                            }
                        }
                        TyKind::RigidTy(RigidTy::Slice(el)) => {
                            let len = Self::read_uint(&a.bytes, off + 8, 8).unwrap_or(0) as usize;
                            let es = match el.layout() {
                                Ok(l) => l.shape().size.bytes(),
                                Err(_) => return opaque,
                            };
                            let mut v = vec![];
                            for i in 0..len {
                                v.push(self.decode(&mem, addend + i * es, el, depth + 1));
                            }
                            format!("{{\"k\":\"slice\",\"t\":{},\"v\":{}}}", tid, arr(v))
                        }
                        TyKind::RigidTy(RigidTy::Dynamic(..)) => opaque,
                        _ => {
                            let s = self.decode(&mem, addend, e, depth + 1);
                            format!("{{\"k\":\"ref\",\"t\":{},\"v\":{}}}", tid, s)
                        }
                    }
                }
                RigidTy::FnPtr(_) => {
                    let prov = a.provenance.ptrs.iter().find(|(o, _)| *o == off).map(|(_, p)| p.0);
                    if let Some(id) = prov {
                        if let GlobalAlloc::Function(i) = GlobalAlloc::from(id) {
                            let k = self.inst(i);
                            return format!("{{\"k\":\"fn\",\"t\":{},\"v\":{}}}", tid, k);
                        }
                    }
                    opaque
                }
                RigidTy::FnDef(..) | RigidTy::Closure(..) => format!("{{\"k\":\"zst\",\"t\":{}}}", tid),
                RigidTy::Tuple(ts) => {
                    let sh = t.layout().unwrap().shape();
                    let mut v = vec![];
                    if let FieldsShape::Arbitrary { offsets } = &sh.fields {
                        for (i, ft) in ts.iter().enumerate() {
                            v.push(self.decode(a, off + offsets[i].bytes(), *ft, depth + 1));
                        }
                    }
                    format!("{{\"k\":\"agg\",\"t\":{},\"var\":0,\"v\":{}}}", tid, arr(v))
                }
                RigidTy::Array(e, n) => {
                    let n = n.eval_target_usize().unwrap_or(0) as usize;
                    let es = e.layout().unwrap().shape().size.bytes();
                    let mut v = vec![];
                    for i in 0..n {
                        v.push(self.decode(a, off + i * es, e, depth + 1));
                    }
                    format!("{{\"k\":\"array\",\"t\":{},\"v\":{}}}", tid, arr(v))
                }
                RigidTy::Adt(def, args) => {
                    if def.kind() == AdtKind::Union {
                        return opaque;
                    }
                    let sh = t.layout().unwrap().shape();
                    let (vi, offs): (usize, Vec<usize>) = match &sh.variants {
                        VariantsShape::Empty => return opaque,
                        VariantsShape::Single { index } => {
                            let o = match &sh.fields {
                                FieldsShape::Arbitrary { offsets } => offsets.iter().map(|s| s.bytes()).collect(),
                                FieldsShape::Primitive => vec![],
                                _ => return opaque,
                            };
                            (index.to_index(), o)
                        }
                        VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                            let toff = match &sh.fields {
                                FieldsShape::Arbitrary { offsets } => offsets[*tag_field].bytes(),
                                _ => return opaque,
                            };
                            let target = rustc_public::target::MachineInfo::target();
                            let prim = match tag {
                                rustc_public::abi::Scalar::Initialized { value, .. } => *value,
                                rustc_public::abi::Scalar::Union { value } => *value,
                            };
                            let n = prim.size(&target).bytes();
                            let has_prov = a.provenance.ptrs.iter().any(|(o, _)| *o == off + toff);
                            let tagv = match Self::read_uint(&a.bytes, off + toff, n) {
                                Some(x) => x,
                                None => return opaque,
                            };
                            let idx = match tag_encoding {
                                TagEncoding::Direct => {
                                    let mut r = None;
                                    for v in def.variants() {
                                        let d = def.discriminant_for_variant(v.idx()).val;
                                        let mask = if n == 16 { u128::MAX } else { (1u128 << (8 * n)) - 1 };
                                        if d & mask == tagv {
                                            r = Some(v.idx().to_index());
                                        }
                                    }
                                    match r {
                                        Some(r) => r,
                                        None => return opaque,
                                    }
                                }
                                TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                    let lo = niche_variants.start().to_index();
                                    let hi = niche_variants.end().to_index();
                                    if has_prov {
                                        untagged_variant.to_index()
                                    } else {
                                        let mask = if n == 16 { u128::MAX } else { (1u128 << (8 * n)) - 1 };
                                        let rel = tagv.wrapping_sub(*niche_start) & mask;
                                        if rel <= (hi - lo) as u128 {
                                            lo + rel as usize
                                        } else {
                                            untagged_variant.to_index()
                                        }
                                    }
                                }
                            };
                            (idx, variants[idx].offsets.iter().map(|s| s.bytes()).collect())
                        }
                    };
                    let vd = &def.variants()[vi];
                    let mut v = vec![];
                    for (i, f) in vd.fields().iter().enumerate() {
                        let ft = f.ty_with_args(&args);
                        if i >= offs.len() {
                            return opaque;
                        }
                        v.push(self.decode(a, off + offs[i], ft, depth + 1));
                    }
                    format!("{{\"k\":\"agg\",\"t\":{},\"var\":{},\"v\":{}}}", tid, vi, arr(v))
                }
                _ => opaque,
            },
            _ => opaque,
        }
    }

    fn konst(&mut self, c: &MirConst) -> String {
        let t = c.ty();
        match c.kind() {
            ConstantKind::Allocated(a) => self.decode(a, 0, t, 0),
            ConstantKind::ZeroSized => {
                let k = self.ty(t);
                format!("{{\"k\":\"zst\",\"t\":{}}}", k)
            }
            ConstantKind::Ty(tc) => match tc.kind() {
                TyConstKind::Value(t, a) => self.decode(a, 0, *t, 0),
                TyConstKind::ZSTValue(t) => {
                    let k = self.ty(*t);
                    format!("{{\"k\":\"zst\",\"t\":{}}}", k)
                }
                _ => match tc.eval_target_usize() {
                    Ok(n) => {
                        let k = self.ty(t);
                        format!("{{\"k\":\"s\",\"t\":{},\"v\":{}}}", k, n)
                    }
                    Err(_) => "{\"k\":\"opaque\"}".into(),
                },
            },
            _ => "{\"k\":\"opaque\"}".into(),
        }
    }

    fn operand(&mut self, o: &Operand) -> String {
        match o {
            Operand::Copy(p) => format!("{{\"c\":{}}}", self.place(p)),
            Operand::Move(p) => format!("{{\"m\":{}}}", self.place(p)),
            Operand::Constant(c) => format!("{{\"k\":{}}}", self.konst(&c.const_)),
            Operand::RuntimeChecks(r) => format!("{{\"rc\":{}}}", esc(&format!("{:?}", r))),
        }
    }

    fn rvalue(&mut self, r: &Rvalue) -> String {
        match r {
            Rvalue::AddressOf(_, p) => format!("[\"addr\",{}]", self.place(p)),
            Rvalue::Ref(_, b, p) => {
                let m = matches!(b, BorrowKind::Mut { .. });
                format!("[\"ref\",{},{}]", self.place(p), m)
            }
            Rvalue::Aggregate(k, ops) => {
                let o = arr(ops.iter().map(|x| self.operand(x)).collect());
                match k {
                    AggregateKind::Array(t) => format!("[\"agg\",\"array\",{},{}]", self.ty(*t), o),
                    AggregateKind::Tuple => format!("[\"agg\",\"tuple\",null,{}]", o),
                    AggregateKind::Adt(d, v, args, _, f) => {
                        let t = d.ty_with_args(args);
                        let ti = self.ty(t);
                        let fi = match f {
                            Some(f) => f.to_string(),
                            None => "null".into(),
                        };
                        format!("[\"agg\",\"adt\",{},{},{},{}]", ti, o, v.to_index(), fi)
                    }
                    AggregateKind::Closure(d, args) => {
                        let t = Ty::new_closure(*d, args.clone());
                        format!("[\"agg\",\"closure\",{},{}]", self.ty(t), o)
                    }
                    AggregateKind::RawPtr(t, _) => format!("[\"agg\",\"rawptr\",{},{}]", self.ty(*t), o),
                    _ => "[\"other\"]".into(),
                }
            }
            Rvalue::BinaryOp(op, a, b) => {
                format!("[\"bin\",\"{:?}\",{},{}]", op, self.operand(a), self.operand(b))
            }
            Rvalue::CheckedBinaryOp(op, a, b) => {
                format!("[\"cbin\",\"{:?}\",{},{}]", op, self.operand(a), self.operand(b))
            }
            Rvalue::UnaryOp(op, a) => format!("[\"un\",\"{:?}\",{}]", op, self.operand(a)),
            Rvalue::Cast(k, o, t) => {
                let ks = match k {
                    CastKind::PointerCoercion(pc) => format!("PC:{:?}", pc),
                    k => format!("{:?}", k),
                };
                format!("[\"cast\",{},{},{}]", esc(&ks), self.operand(o), self.ty(*t))
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",{{\"c\":{}}}]", self.place(p)),
            Rvalue::Discriminant(p) => format!("[\"disc\",{}]", self.place(p)),
            Rvalue::Len(p) => format!("[\"len\",{}]", self.place(p)),
            Rvalue::Repeat(o, n) => {
                let n = n.eval_target_usize().map(|x| x.to_string()).unwrap_or("null".into());
                format!("[\"repeat\",{},{}]", self.operand(o), n)
            }
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.operand(o)),
            Rvalue::Reborrow(_, _, p) => format!("[\"use\",{{\"c\":{}}}]", self.place(p)),
            Rvalue::ThreadLocalRef(_) => "[\"other\"]".into(),
        }
    }

    fn span(&mut self, s: &Span) -> String {
        let l = s.get_lines();
        let f = s.get_filename();
        esc(&format!("{}:{}", f, l.start_line))
    }

    fn callee(&mut self, f: &Operand, locals: &[LocalDecl]) -> String {
        let t = match f.ty(locals) {
            Ok(t) => t,
            Err(_) => return "{\"k\":\"unk\"}".into(),
        };
        if let TyKind::RigidTy(RigidTy::FnDef(d, a)) = t.kind() {
            let ga = self.args_json(&a);
            return match Instance::resolve(d, &a) {
                Ok(i) => {
                    let i = provided(i, d, &a).unwrap_or(i);
                    let k = self.inst(i);
                    format!("{{\"k\":\"inst\",\"i\":{},\"decl\":{},\"ga\":{}}}", k, esc(&d.name().to_string()), ga)
                }
                Err(_) => format!("{{\"k\":\"unres\",\"decl\":{},\"ga\":{}}}", esc(&d.name().to_string()), ga),
            };
        }
        format!("{{\"k\":\"ptr\",\"o\":{}}}", self.operand(f))
    }

    fn body(&mut self, b: &Body) -> String {
        let locals: Vec<LocalDecl> = b.locals().to_vec();
        let ls = arr(locals.iter().map(|l| self.ty(l.ty).to_string()).collect());
        let mut bbs = vec![];
        for blk in &b.blocks {
            let mut ss = vec![];
            for s in &blk.statements {
                match &s.kind {
                    StatementKind::Assign(p, r) => {
                        let rv = self.rvalue(r);
                        let pl = self.place(p);
                        let sp = self.span(&s.source_info.span);
                        ss.push(format!("[\"=\",{},{},{}]", pl, rv, sp));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        ss.push(format!("[\"sd\",{},{}]", self.place(place), variant_index.to_index()));
                    }
                    StatementKind::StorageDead(l) => ss.push(format!("[\"dead\",{}]", l)),
                    StatementKind::Intrinsic(NonDivergingIntrinsic::Assume(o)) => {
                        ss.push(format!("[\"assume\",{}]", self.operand(o)))
                    }
                    StatementKind::Intrinsic(_) => ss.push("[\"intr\"]".into()),
                    _ => {}
                }
            }
            let sp = self.span(&blk.terminator.source_info.span);
            let t = match &blk.terminator.kind {
                TerminatorKind::Goto { target } => format!("[\"goto\",{}]", target),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let dt = discr.ty(&locals).map(|t| self.ty(t).to_string()).unwrap_or("null".into());
                    let br = targets.branches().map(|(v, t)| format!("[{},{}]", v, t)).collect();
                    format!("[\"switch\",{},{},{},{}]", self.operand(discr), arr(br), targets.otherwise(), dt)
                }
                TerminatorKind::Resume => "[\"resume\"]".into(),
                TerminatorKind::Abort => "[\"abort\"]".into(),
                TerminatorKind::Return => "[\"ret\"]".into(),
                TerminatorKind::Unreachable => "[\"unreach\"]".into(),
                TerminatorKind::Drop { place, target, .. } => {
                    format!("[\"drop\",{},{}]", self.place(place), target)
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let c = self.callee(func, &locals);
                    let a = arr(args.iter().map(|x| self.operand(x)).collect());
                    let at = arr(
                        args.iter()
                            .map(|x| x.ty(&locals).map(|t| self.ty(t).to_string()).unwrap_or("null".into()))
                            .collect(),
                    );
                    let dt = destination.ty(&locals).map(|t| self.ty(t).to_string()).unwrap_or("null".into());
                    let d = self.place(destination);
                    let tg = target.map(|t| t.to_string()).unwrap_or("null".into());
                    format!("[\"call\",{},{},{},{},{},{}]", c, a, d, tg, at, dt)
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = match msg {
                        AssertMessage::Overflow(op, ..) => format!("overflow {:?}", op),
                        AssertMessage::BoundsCheck { .. } => "bounds".into(),
                        m => m.description().map(|s| s.to_string()).unwrap_or("assert".into()),
                    };
                    format!("[\"assert\",{},{},{},{}]", self.operand(cond), expected, esc(&m), target)
                }
                TerminatorKind::InlineAsm { .. } => "[\"asm\"]".into(),
            };
            bbs.push(format!("{{\"s\":{},\"t\":{},\"p\":{}}}", arr(ss), t, sp));
        }
        let sp = self.span(&b.span);
        format!(
            "{{\"locals\":{},\"argc\":{},\"spread\":{},\"bbs\":{},\"span\":{}}}",
            ls,
            b.arg_locals().len(),
            b.spread_arg().map(|s| s.to_string()).unwrap_or("null".into()),
            arr(bbs),
            sp
        )
    }
}

fn is_skipped(skip: &[String], n: &str) -> bool {
    skip.iter().any(|s| if let Some(p) = s.strip_suffix('*') { n.starts_with(p) } else { n == s })
}

fn analyze() -> ControlFlow<(), ()> {
    let out = std::env::var("MIRDUMP_OUT").expect("MIRDUMP_OUT");
    let skip = std::env::var("MIRDUMP_SKIP").unwrap_or_default();
    let skip: Vec<String> = std::fs::read_to_string(&skip)
        .map(|s| s.lines().map(|l| l.trim().to_string()).filter(|l| !l.is_empty()).collect())
        .unwrap_or_default();
    let mut cx = Cx {
        ty_ids: HashMap::new(),
        tys: vec![],
        inst_ids: HashMap::new(),
        insts: vec![],
        queue: VecDeque::new(),
        skip,
    };
    let mut roots = vec![];
    for it in rustc_public::all_local_items() {
        let n = it.name().to_string();
        let last = n.rsplit("::").next().unwrap_or("").to_string();
        if last.starts_with("root_") {
            if let Ok(i) = Instance::try_from(it) {
                let k = cx.inst(i);
                roots.push(format!("[{},{}]", esc(&last), k));
            }
        }
    }
    let mut recs: HashMap<usize, String> = HashMap::new();
    while let Some(k) = cx.queue.pop_front() {
        let i = cx.insts[k];
        let dn = def_name(&i);
        let full = i.name().to_string();
        let kind = match i.kind {
            InstanceKind::Item => "item".to_string(),
            InstanceKind::Intrinsic => format!("intrinsic:{}", i.intrinsic_name().map(|s| s.to_string()).unwrap_or_default()),
            InstanceKind::LlvmIntrinsic => "llvm".into(),
            InstanceKind::Virtual { idx } => format!("virtual:{}", idx),
            InstanceKind::Shim => "shim".into(),
        };
        let sk = is_skipped(&cx.skip, &dn) || is_skipped(&cx.skip, &full);
        let ga = cx.args_json(&i.args());
        let body = if sk || i.kind == InstanceKind::Intrinsic || i.kind == InstanceKind::LlvmIntrinsic {
            None
        } else if matches!(i.kind, InstanceKind::Virtual { .. }) {
            None
        } else if i.kind == InstanceKind::Shim || i.has_body() {
            // some library bodies refer to promoted constants the distributed metadata has no MIR for
            std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| i.body())).unwrap_or_else(|_| { eprintln!("NOBODY {}", full); None })
        } else {
            None
        };
        let bj = match body {
            Some(b) => cx.body(&b),
            None => "null".into(),
        };
        let krate = i.def.krate().name.to_string();
        recs.insert(
            k,
            format!(
                "{{\"id\":{},\"name\":{},\"full\":{},\"crate\":{},\"kind\":{},\"ga\":{},\"skip\":{},\"body\":{}}}",
                k,
                esc(&dn),
                esc(&full),
                esc(&krate),
                esc(&kind),
                ga,
                sk,
                bj
            ),
        );
    }
    let mut o = String::new();
    o.push_str("{\"roots\":");
    o.push_str(&arr(roots));
    o.push_str(",\n\"insts\":[\n");
    for k in 0..cx.insts.len() {
        if k > 0 {
            o.push_str(",\n");
        }
        o.push_str(&recs[&k]);
    }
    o.push_str("],\n\"tys\":[\n");
    o.push_str(&cx.tys.join(",\n"));
    o.push_str("]}\n");
    std::fs::write(&out, o).expect("write dump");
    ControlFlow::Continue(())
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    match run!(&args, analyze) {
        Ok(()) => {}
        Err(e) => {
            eprintln!("mirdump: {:?}", e);
            std::process::exit(1)
        }
    }
}
