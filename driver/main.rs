// MIR extraction driver.  Runs as rustc on the crate under analysis and emits, as JSON, the
// monomorphised MIR of every non-generic local function and of everything reachable from it
// (callees resolved, constants evaluated, layouts and visibilities attached).  It decides nothing.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
#[macro_use]
extern crate rustc_public;

use rustc_middle::ty::TyCtxt;
use rustc_public::abi::*;
use rustc_public::crate_def::{CrateDef, CrateDefType};
use rustc_public::mir::alloc::{AllocId, GlobalAlloc};
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::CompilerError;
use std::collections::{HashMap, VecDeque};
use std::fmt::Write as _;
use std::ops::ControlFlow;

fn q(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn list<T: AsRef<str>>(v: &[T]) -> String {
    let mut o = String::from("[");
    for (i, x) in v.iter().enumerate() {
        if i > 0 {
            o.push(',');
        }
        o.push_str(x.as_ref());
    }
    o.push(']');
    o
}

/// an immutable, non-thread-local static without interior mutability: data, like a constant
fn plain_static(tcx: TyCtxt<'_>, s: &rustc_public::mir::mono::StaticDef) -> bool {
    let d = rustc_public::rustc_internal::internal(tcx, s.def_id());
    if tcx.is_mutable_static(d) || tcx.is_thread_local_static(d) {
        return false;
    }
    let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
    t.is_freeze(tcx, rustc_middle::ty::TypingEnv::fully_monomorphized())
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: HashMap<Ty, usize>,
    ty_out: Vec<String>,
    insts: HashMap<Instance, usize>,
    inst_list: Vec<Instance>,
    queue: VecDeque<usize>,
    queued: Vec<bool>,
    consts: HashMap<String, usize>,
    const_out: Vec<String>,
    allocs: HashMap<(AllocId, Ty, u64), usize>,
    alloc_out: Vec<String>,
}

fn u128s(v: u128) -> String {
    v.to_string()
}

impl<'tcx> Cx<'tcx> {
    fn span(&self, s: &rustc_public::ty::Span) -> String {
        let l = s.get_lines();
        let f = s.get_filename();
        format!("[{},{}]", q(&f), l.start_line)
    }
    fn inst(&mut self, i: Instance, reach: bool) -> usize {
        let id = match self.insts.get(&i) {
            Some(x) => *x,
            None => {
                let id = self.inst_list.len();
                self.insts.insert(i, id);
                self.inst_list.push(i);
                self.queued.push(false);
                id
            }
        };
        if reach && !self.queued[id] {
            self.queued[id] = true;
            self.queue.push_back(id);
        }
        id
    }
    fn layout(&self, ty: Ty) -> String {
        use rustc_middle::ty::TypeVisitableExt;
        let ity = rustc_public::rustc_internal::internal(self.tcx, ty);
        if ity.has_param() || ity.has_escaping_bound_vars() || ity.has_aliases() {
            return "null".into();
        }
        match ty.layout() {
            Ok(l) => {
                let s = l.shape();
                let offs = match &s.fields {
                    FieldsShape::Arbitrary { offsets } => {
                        list(&offsets.iter().map(|o| o.bytes().to_string()).collect::<Vec<_>>())
                    }
                    _ => "null".into(),
                };
                format!(
                    "{{\"size\":{},\"align\":{},\"offsets\":{}}}",
                    s.size.bytes(),
                    s.abi_align,
                    offs
                )
            }
            Err(_) => "null".into(),
        }
    }
    fn ty(&mut self, t: Ty) -> usize {
        if let Some(x) = self.tys.get(&t) {
            return *x;
        }
        let id = self.ty_out.len();
        self.tys.insert(t, id);
        self.ty_out.push(String::new());
        let s = match t.kind() {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool => "{\"k\":\"bool\"}".to_string(),
                RigidTy::Char => "{\"k\":\"char\"}".to_string(),
                RigidTy::Int(i) => format!("{{\"k\":\"int\",\"bits\":{},\"signed\":true}}", i.num_bytes() * 8),
                RigidTy::Uint(i) => format!("{{\"k\":\"int\",\"bits\":{},\"signed\":false}}", i.num_bytes() * 8),
                RigidTy::Float(f) => format!("{{\"k\":\"float\",\"name\":{}}}", q(&format!("{:?}", f))),
                RigidTy::Adt(def, args) => {
                    let mut vs = vec![];
                    for (vi, v) in def.variants().iter().enumerate() {
                        let mut fs = vec![];
                        let iadt = rustc_public::rustc_internal::internal(self.tcx, def);
                        for (fi, f) in v.fields().into_iter().enumerate() {
                            let fty = f.ty_with_args(&args);
                            let fid = self.ty(fty);
                            let public = iadt.variants().iter().nth(vi).and_then(|x| x.fields.iter().nth(fi)).map(|x| x.vis.is_public()).unwrap_or(false);
                            fs.push(format!("[{},{},{}]", q(&f.name), fid, public));
                        }
                        let d = if def.kind() == AdtKind::Enum {
                            let d = def.discriminant_for_variant(v.idx());
                            u128s(d.val)
                        } else {
                            "null".into()
                        };
                        vs.push(format!("{{\"name\":{},\"fields\":{},\"discr\":{}}}", q(&v.name()), list(&fs), d));
                    }
                    let mut a = vec![];
                    for g in args.0.iter() {
                        if let GenericArgKind::Type(x) = g {
                            let xi = self.ty(*x);
                            a.push(xi.to_string());
                        }
                    }
                    let repr = def.repr();
                    let dty = if def.kind() == AdtKind::Enum {
                        t.kind().discriminant_ty().map(|d| self.ty(d).to_string()).unwrap_or("null".into())
                    } else {
                        "null".into()
                    };
                    format!(
                        "{{\"k\":\"adt\",\"name\":{},\"kind\":{},\"box\":{},\"variants\":{},\"targs\":{},\"repr_c\":{},\"repr_int\":{},\"repr_pack\":{},\"repr_align\":{},\"discr_ty\":{},\"local\":{},\"layout\":{}}}",
                        q(&def.name()),
                        q(&format!("{:?}", def.kind())),
                        def.is_box(),
                        list(&vs),
                        list(&a),
                        repr.flags.is_c,
                        q(&format!("{:?}", repr.int)),
                        q(&format!("{:?}", repr.pack)),
                        q(&format!("{:?}", repr.align)),
                        dty,
                        def.krate().is_local,
                        self.layout(t)
                    )
                }
                RigidTy::Str => "{\"k\":\"str\"}".into(),
                RigidTy::Array(e, n) => {
                    let ei = self.ty(e);
                    format!("{{\"k\":\"array\",\"elem\":{},\"len\":{}}}", ei, n.eval_target_usize().map(|x| x.to_string()).unwrap_or("null".into()))
                }
                RigidTy::Pat(b, _) => {
                    let bi = self.ty(b);
                    format!("{{\"k\":\"pat\",\"base\":{}}}", bi)
                }
                RigidTy::Slice(e) => {
                    let ei = self.ty(e);
                    format!("{{\"k\":\"slice\",\"elem\":{}}}", ei)
                }
                RigidTy::RawPtr(p, m) => {
                    let pi = self.ty(p);
                    format!("{{\"k\":\"ptr\",\"raw\":true,\"mut\":{},\"to\":{}}}", m == Mutability::Mut, pi)
                }
                RigidTy::Ref(_, p, m) => {
                    let pi = self.ty(p);
                    format!("{{\"k\":\"ptr\",\"raw\":false,\"mut\":{},\"to\":{}}}", m == Mutability::Mut, pi)
                }
                RigidTy::FnDef(d, args) => {
                    let ins = match Instance::resolve(d, &args) {
                        Ok(i) => self.inst(i, false).to_string(),
                        Err(_) => "null".into(),
                    };
                    format!("{{\"k\":\"fndef\",\"name\":{},\"inst\":{}}}", q(&d.name()), ins)
                }
                RigidTy::FnPtr(_) => "{\"k\":\"fnptr\"}".into(),
                RigidTy::Closure(d, args) => {
                    // the last generic argument is the tuple of captured values
                    let mut up = "[]".to_string();
                    if let Some(GenericArgKind::Type(x)) = args.0.last() {
                        if let TyKind::RigidTy(RigidTy::Tuple(ts)) = x.kind() {
                            let ids: Vec<String> = ts.iter().map(|t| self.ty(*t).to_string()).collect();
                            up = list(&ids);
                        }
                    }
                    format!("{{\"k\":\"closure\",\"name\":{},\"fields\":{}}}", q(&d.name()), up)
                }
                RigidTy::Never => "{\"k\":\"never\"}".into(),
                RigidTy::Tuple(ts) => {
                    let ids: Vec<String> = ts.iter().map(|t| self.ty(*t).to_string()).collect();
                    format!("{{\"k\":\"tuple\",\"fields\":{},\"layout\":{}}}", list(&ids), self.layout(t))
                }
                other => format!("{{\"k\":\"other\",\"dbg\":{}}}", q(&format!("{:?}", other).chars().take(200).collect::<String>())),
            },
            other => format!("{{\"k\":\"other\",\"dbg\":{}}}", q(&format!("{:?}", other).chars().take(200).collect::<String>())),
        };
        self.ty_out[id] = s;
        id
    }

    fn rd(bytes: &[Option<u8>], off: usize, n: usize) -> Option<u128> {
        let mut v: u128 = 0;
        for i in 0..n {
            let b = (*bytes.get(off + i)?)?;
            v |= (b as u128) << (8 * i);
        }
        Some(v)
    }

    fn decode(&mut self, ty: Ty, a: &Allocation, off: usize) -> String {
        let und = "[\"u\"]".to_string();
        match ty.kind() {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool => Self::rd(&a.bytes, off, 1).map(|v| format!("[\"b\",{}]", v)).unwrap_or(und),
                RigidTy::Char => Self::rd(&a.bytes, off, 4).map(|v| format!("[\"i\",{}]", v)).unwrap_or(und),
                RigidTy::Int(i) => {
                    let n = i.num_bytes();
                    match Self::rd(&a.bytes, off, n) {
                        Some(v) => {
                            let sh = 128 - 8 * n as u32;
                            let s = ((v << sh) as i128) >> sh;
                            format!("[\"i\",{}]", s)
                        }
                        None => und,
                    }
                }
                RigidTy::Uint(i) => Self::rd(&a.bytes, off, i.num_bytes()).map(|v| format!("[\"i\",{}]", v)).unwrap_or(und),
                RigidTy::Float(FloatTy::F64) => Self::rd(&a.bytes, off, 8).map(|v| format!("[\"f\",{}]", v)).unwrap_or(und),
                RigidTy::Float(FloatTy::F32) => Self::rd(&a.bytes, off, 4)
                    .map(|v| format!("[\"f\",{}]", (f32::from_bits(v as u32) as f64).to_bits()))
                    .unwrap_or(und),
                RigidTy::Array(e, n) => {
                    let n = n.eval_target_usize().unwrap_or(0) as usize;
                    let sz = e.layout().map(|l| l.shape().size.bytes()).unwrap_or(0);
                    let mut v = vec![];
                    for i in 0..n {
                        v.push(self.decode(e, a, off + i * sz));
                    }
                    format!("[\"a\",{}]", list(&v))
                }
                RigidTy::Pat(b, _) => self.decode(b, a, off),
                RigidTy::Tuple(ts) => {
                    let sh = ty.layout().unwrap().shape();
                    let mut v = vec![];
                    for (i, t) in ts.iter().enumerate() {
                        let o = foff(&sh, i);
                        v.push(self.decode(*t, a, off + o));
                    }
                    format!("[\"s\",{}]", list(&v))
                }
                RigidTy::Closure(_, args) => {
                    let mut v = vec![];
                    if let Some(GenericArgKind::Type(x)) = args.0.last() {
                        if let TyKind::RigidTy(RigidTy::Tuple(ts)) = x.kind() {
                            let sh = ty.layout().unwrap().shape();
                            for (i, t) in ts.iter().enumerate() {
                                let o = foff(&sh, i);
                                v.push(self.decode(*t, a, off + o));
                            }
                        }
                    }
                    format!("[\"s\",{}]", list(&v))
                }
                RigidTy::FnDef(..) => "[\"z\"]".into(),
                RigidTy::Adt(def, args) => match def.kind() {
                    AdtKind::Struct => {
                        let sh = ty.layout().unwrap().shape();
                        let mut v = vec![];
                        for (i, f) in def.variants()[0].fields().iter().enumerate() {
                            let o = foff(&sh, i);
                            v.push(self.decode(f.ty_with_args(&args), a, off + o));
                        }
                        format!("[\"s\",{}]", list(&v))
                    }
                    AdtKind::Enum => {
                        let sh = ty.layout().unwrap().shape();
                        let (vi, offs): (usize, Vec<usize>) = match &sh.variants {
                            VariantsShape::Single { index } => (
                                vix(index),
                                match &sh.fields {
                                    FieldsShape::Arbitrary { offsets } => offsets.iter().map(|o| o.bytes()).collect(),
                                    _ => vec![],
                                },
                            ),
                            VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                                let tagoff = foff(&sh, *tag_field);
                                let prim = match tag {
                                    Scalar::Initialized { value, .. } => *value,
                                    Scalar::Union { value } => *value,
                                };
                                let n = match prim {
                                    Primitive::Int { length, .. } => length.bits() / 8,
                                    _ => 8,
                                };
                                let hasprov = a.provenance.ptrs.iter().any(|(o, _)| *o == off + tagoff);
                                let tv = if hasprov { Some(u128::MAX) } else { Self::rd(&a.bytes, off + tagoff, n) };
                                let tv = match tv {
                                    Some(x) => x,
                                    None => return und,
                                };
                                let vi = match tag_encoding {
                                    TagEncoding::Direct => {
                                        let mut r = None;
                                        let mask = if n >= 16 { u128::MAX } else { (1u128 << (8 * n)) - 1 };
                                        for k in 0..def.num_variants() {
                                            if def.discriminant_for_variant(def.variants()[k].idx()).val & mask == tv {
                                                r = Some(k);
                                            }
                                        }
                                        match r {
                                            Some(k) => k,
                                            None => return und,
                                        }
                                    }
                                    TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                        let s = vix(niche_variants.start()) as u128;
                                        let e = vix(niche_variants.end()) as u128;
                                        let mask = if n >= 16 { u128::MAX } else { (1u128 << (8 * n)) - 1 };
                                        let rel = tv.wrapping_sub(*niche_start) & mask;
                                        if !hasprov && rel <= e - s {
                                            (s + rel) as usize
                                        } else {
                                            vix(untagged_variant)
                                        }
                                    }
                                };
                                (vi, variants[vi].offsets.iter().map(|o| o.bytes()).collect())
                            }
                            VariantsShape::Empty => return und,
                        };
                        let vs = def.variants();
                        let fl = vs[vi].fields();
                        let mut v = vec![];
                        for (i, f) in fl.iter().enumerate() {
                            let o = offs.get(i).copied().unwrap_or(0);
                            v.push(self.decode(f.ty_with_args(&args), a, off + o));
                        }
                        format!("[\"e\",{},{}]", vi, list(&v))
                    }
                    AdtKind::Union => und,
                },
                RigidTy::Ref(_, p, _) | RigidTy::RawPtr(p, _) => self.decode_ptr(p, a, off),
                RigidTy::FnPtr(_) => {
                    for (o, pr) in a.provenance.ptrs.iter() {
                        if *o == off {
                            if let GlobalAlloc::Function(i) = GlobalAlloc::from(pr.0) {
                                let id = self.inst(i, true);
                                return format!("[\"fp\",{}]", id);
                            }
                        }
                    }
                    und
                }
                _ => und,
            },
            _ => und,
        }
    }
    fn decode_ptr(&mut self, p: Ty, a: &Allocation, off: usize) -> String {
        let addr = Self::rd(&a.bytes, off, 8).unwrap_or(0);
        let prov = a.provenance.ptrs.iter().find(|(o, _)| *o == off).map(|x| x.1);
        let (meta, aty): (Option<u64>, Ty) = match p.kind() {
            TyKind::RigidTy(RigidTy::Slice(e)) => {
                let n = Self::rd(&a.bytes, off + 8, 8).unwrap_or(0) as u64;
                match Ty::try_new_array(e, n) {
                    Ok(t) => (Some(n), t),
                    Err(_) => return "[\"u\"]".into(),
                }
            }
            TyKind::RigidTy(RigidTy::Str) => {
                let n = Self::rd(&a.bytes, off + 8, 8).unwrap_or(0) as usize;
                if let Some(pr) = prov {
                    if let GlobalAlloc::Memory(m) = GlobalAlloc::from(pr.0) {
                        let b: Vec<u8> = m.bytes.iter().skip(addr as usize).take(n).map(|x| x.unwrap_or(b'?')).collect();
                        return format!("[\"str\",{}]", q(&String::from_utf8_lossy(&b)));
                    }
                }
                return "[\"str\",\"\"]".into();
            }
            TyKind::RigidTy(RigidTy::Dynamic(..)) => return "[\"dyn\"]".into(),
            _ => (None, p),
        };
        match prov {
            None => format!("[\"addr\",{},{}]", addr, meta.map(|m| m.to_string()).unwrap_or("null".into())),
            Some(pr) => match GlobalAlloc::from(pr.0) {
                GlobalAlloc::Memory(m) => {
                    let key = (pr.0, aty, addr as u64);
                    let id = match self.allocs.get(&key) {
                        Some(x) => *x,
                        None => {
                            let id = self.alloc_out.len();
                            self.allocs.insert(key, id);
                            self.alloc_out.push(String::new());
                            let v = self.decode(aty, &m, addr as usize);
                            let t = self.ty(aty);
                            self.alloc_out[id] = format!("{{\"ty\":{},\"mut\":{},\"v\":{}}}", t, m.mutability == Mutability::Mut, v);
                            id
                        }
                    };
                    format!("[\"p\",{},{}]", id, meta.map(|m| m.to_string()).unwrap_or("null".into()))
                }
                GlobalAlloc::Static(s) => {
                    if let (true, Ok(m)) = (plain_static(self.tcx, &s), s.eval_initializer()) {
                        let key = (pr.0, aty, addr as u64);
                        let id = match self.allocs.get(&key) {
                            Some(x) => *x,
                            None => {
                                let id = self.alloc_out.len();
                                self.allocs.insert(key, id);
                                self.alloc_out.push(String::new());
                                let v = self.decode(aty, &m, addr as usize);
                                let t = self.ty(aty);
                                self.alloc_out[id] = format!("{{\"ty\":{},\"mut\":false,\"v\":{}}}", t, v);
                                id
                            }
                        };
                        return format!("[\"p\",{},{}]", id, meta.map(|m| m.to_string()).unwrap_or("null".into()));
                    }
                    format!("[\"static\",{}]", q(&s.name()))
                }
                GlobalAlloc::Function(i) => {
                    let id = self.inst(i, true);
                    format!("[\"fp\",{}]", id)
                }
                _ => "[\"dyn\"]".into(),
            },
        }
    }
    fn cons(&mut self, c: &ConstOperand) -> String {
        let ty = c.const_.ty();
        let t = self.ty(ty);
        let v = match c.const_.kind() {
            ConstantKind::ZeroSized => {
                if let TyKind::RigidTy(RigidTy::FnDef(d, args)) = ty.kind() {
                    match Instance::resolve(d, &args) {
                        Ok(i) => {
                            let id = self.inst(i, false);
                            format!("[\"fn\",{}]", id)
                        }
                        Err(_) => "[\"z\"]".into(),
                    }
                } else {
                    "[\"z\"]".into()
                }
            }
            ConstantKind::Allocated(a) => self.decode(ty, a, 0),
            ConstantKind::Ty(tc) => match tc.kind() {
                TyConstKind::Value(vt, a) => self.decode(*vt, a, 0),
                TyConstKind::ZSTValue(_) => "[\"z\"]".into(),
                _ => match tc.eval_target_usize() {
                    Ok(n) => format!("[\"i\",{}]", n),
                    Err(_) => "[\"u\"]".into(),
                },
            },
            other => format!("[\"uneval\",{}]", q(&format!("{:?}", other).chars().take(200).collect::<String>())),
        };
        let s = format!("[{},{}]", t, v);
        if let Some(i) = self.consts.get(&s) {
            return i.to_string();
        }
        let i = self.const_out.len();
        self.consts.insert(s.clone(), i);
        self.const_out.push(s);
        i.to_string()
    }
    fn place(&mut self, p: &Place, locals: &[LocalDecl]) -> String {
        let mut v = vec![p.local.to_string()];
        let mut cur = locals[p.local].ty;
        for e in p.projection.iter() {
            let s = match e {
                ProjectionElem::Deref => {
                    let raw = matches!(cur.kind(), TyKind::RigidTy(RigidTy::RawPtr(..)));
                    format!("[\"d\",{}]", raw)
                }
                ProjectionElem::Field(i, t) => {
                    let ti = self.ty(*t);
                    let un = matches!(cur.kind(), TyKind::RigidTy(RigidTy::Adt(d, _)) if d.kind() == AdtKind::Union);
                    format!("[\"f\",{},{},{}]", i, ti, un)
                }
                ProjectionElem::Index(l) => format!("[\"x\",{}]", l),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => format!("[\"c\",{},{},{}]", offset, min_length, from_end),
                ProjectionElem::Subslice { from, to, from_end } => format!("[\"ss\",{},{},{}]", from, to, from_end),
                ProjectionElem::Downcast(vi) => format!("[\"v\",{}]", vix(vi)),
                ProjectionElem::OpaqueCast(_) => "[\"oc\"]".to_string(),
            };
            v.push(s);
            cur = e.ty(cur).unwrap_or(cur);
        }
        list(&v)
    }
    fn op(&mut self, o: &Operand, locals: &[LocalDecl]) -> String {
        match o {
            Operand::Copy(p) => format!("[\"cp\",{}]", self.place(p, locals)),
            Operand::Move(p) => format!("[\"mv\",{}]", self.place(p, locals)),
            Operand::Constant(c) => format!("[\"k\",{}]", self.cons(c)),
            Operand::RuntimeChecks(k) => format!("[\"rc\",{}]", q(&format!("{:?}", k))),
        }
    }
    fn rv(&mut self, r: &Rvalue, l: &[LocalDecl]) -> String {
        match r {
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.op(o, l)),
            Rvalue::Repeat(o, n) => format!("[\"repeat\",{},{}]", self.op(o, l), n.eval_target_usize().map(|x| x.to_string()).unwrap_or("null".into())),
            Rvalue::ThreadLocalRef(i) => format!("[\"tls\",{}]", q(&i.name())),
            Rvalue::Ref(_, k, p) => format!("[\"ref\",{},{}]", matches!(k, BorrowKind::Mut { .. }), self.place(p, l)),
            Rvalue::Reborrow(_, m, p) => format!("[\"reborrow\",{},{}]", *m == Mutability::Mut, self.place(p, l)),
            Rvalue::AddressOf(k, p) => format!("[\"addrof\",{},{}]", matches!(k, RawPtrKind::Mut), self.place(p, l)),
            Rvalue::Len(p) => format!("[\"len\",{}]", self.place(p, l)),
            Rvalue::Cast(k, o, t) => {
                let st = o.ty(l).map(|t| self.ty(t).to_string()).unwrap_or("null".into());
                let ti = self.ty(*t);
                if let (CastKind::PointerCoercion(PointerCoercion::ReifyFnPointer(_)), Ok(st)) = (k, o.ty(l)) {
                    if let TyKind::RigidTy(RigidTy::FnDef(d, args)) = st.kind() {
                        if let Ok(i) = Instance::resolve_for_fn_ptr(d, &args) {
                            self.inst(i, true);
                        }
                    }
                }
                format!("[\"cast\",{},{},{},{}]", q(&format!("{:?}", k)), self.op(o, l), st, ti)
            }
            Rvalue::BinaryOp(b, x, y) => {
                let t = x.ty(l).map(|t| self.ty(t).to_string()).unwrap_or("null".into());
                format!("[\"bin\",{},{},{},{}]", q(&format!("{:?}", b)), self.op(x, l), self.op(y, l), t)
            }
            Rvalue::CheckedBinaryOp(b, x, y) => {
                let t = x.ty(l).map(|t| self.ty(t).to_string()).unwrap_or("null".into());
                format!("[\"cbin\",{},{},{},{}]", q(&format!("{:?}", b)), self.op(x, l), self.op(y, l), t)
            }
            Rvalue::UnaryOp(u, x) => {
                let t = x.ty(l).map(|t| self.ty(t).to_string()).unwrap_or("null".into());
                format!("[\"un\",{},{},{}]", q(&format!("{:?}", u)), self.op(x, l), t)
            }
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(p, l)),
            Rvalue::Aggregate(k, os) => {
                let v: Vec<String> = os.iter().map(|o| self.op(o, l)).collect();
                let (kk, t, vi, fi) = match k {
                    AggregateKind::Array(_) => ("array", None, 0, None),
                    AggregateKind::Tuple => ("tuple", None, 0, None),
                    AggregateKind::Adt(d, vi, args, _, f) => ("adt", Some(d.ty_with_args(args)), vix(vi), *f),
                    AggregateKind::Closure(..) => ("closure", None, 0, None),
                    AggregateKind::RawPtr(..) => ("rawptr", None, 0, None),
                    _ => ("other", None, 0, None),
                };
                let ty = match t {
                    Some(t) => Some(t),
                    None => r.ty(l).ok(),
                };
                let ti = ty.map(|t| self.ty(t).to_string()).unwrap_or("null".into());
                format!("[\"agg\",{},{},{},{},{}]", q(kk), ti, vi, fi.map(|x| x.to_string()).unwrap_or("null".into()), list(&v))
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"cp\",{}]]", self.place(p, l)),
        }
    }
    fn unwind(u: &UnwindAction) -> String {
        match u {
            UnwindAction::Cleanup(b) => b.to_string(),
            _ => "null".into(),
        }
    }
    fn body(&mut self, b: &Body) -> String {
        let l = b.locals();
        let lt: Vec<String> = l.iter().map(|d| self.ty(d.ty).to_string()).collect();
        let mut blocks = vec![];
        for bb in b.blocks.iter() {
            let mut st = vec![];
            for s in bb.statements.iter() {
                let ln = s.source_info.span.get_lines().start_line;
                match &s.kind {
                    StatementKind::Assign(p, r) => {
                        let ps = self.place(p, l);
                        let rs = self.rv(r, l);
                        st.push(format!("[\"=\",{},{},{}]", ps, rs, ln));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        st.push(format!("[\"sd\",{},{},{}]", self.place(place, l), vix(variant_index), ln));
                    }
                    StatementKind::StorageLive(x) => st.push(format!("[\"live\",{}]", x)),
                    StatementKind::StorageDead(x) => st.push(format!("[\"dead\",{}]", x)),
                    StatementKind::Intrinsic(NonDivergingIntrinsic::CopyNonOverlapping(c)) => {
                        st.push(format!("[\"cno\",{},{},{},{}]", self.op(&c.src, l), self.op(&c.dst, l), self.op(&c.count, l), ln));
                    }
                    _ => {}
                }
            }
            let t = &bb.terminator;
            let ln = t.source_info.span.get_lines().start_line;
            let ts = match &t.kind {
                TerminatorKind::Goto { target } => format!("[\"goto\",{}]", target),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let br: Vec<String> = targets.branches().map(|(v, t)| format!("[{},{}]", v, t)).collect();
                    let ty = discr.ty(l).map(|t| self.ty(t).to_string()).unwrap_or("null".into());
                    format!("[\"switch\",{},{},{},{},{}]", self.op(discr, l), list(&br), targets.otherwise(), ty, ln)
                }
                TerminatorKind::Resume => "[\"resume\"]".into(),
                TerminatorKind::Abort => "[\"abort\"]".into(),
                TerminatorKind::Return => "[\"return\"]".into(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
                TerminatorKind::Drop { place, target, unwind } => {
                    let ty = place.ty(l).unwrap();
                    let i = Instance::resolve_drop_in_place(ty);
                    let g = if i.is_empty_shim() { "null".to_string() } else { self.inst(i, true).to_string() };
                    let ti = self.ty(ty);
                    format!("[\"drop\",{},{},{},{},{},{}]", self.place(place, l), target, g, ti, Self::unwind(unwind), ln)
                }
                TerminatorKind::Call { func, args, destination, target, unwind } => {
                    let fty = func.ty(l).unwrap();
                    let callee = match fty.kind() {
                        TyKind::RigidTy(RigidTy::FnDef(d, ga)) => match Instance::resolve(d, &ga) {
                            Ok(i) => {
                                let id = self.inst(i, true);
                                format!("[\"i\",{}]", id)
                            }
                            Err(_) => format!("[\"unres\",{}]", q(&d.name())),
                        },
                        _ => format!("[\"ind\",{}]", self.op(func, l)),
                    };
                    let a: Vec<String> = args.iter().map(|x| self.op(x, l)).collect();
                    format!(
                        "[\"call\",{},{},{},{},{},{}]",
                        callee,
                        list(&a),
                        self.place(destination, l),
                        target.map(|t| t.to_string()).unwrap_or("null".into()),
                        Self::unwind(unwind),
                        ln
                    )
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m: String = format!("{:?}", msg).split(|c: char| !c.is_alphanumeric()).next().unwrap_or("").to_string();
                    format!("[\"assert\",{},{},{},{},{}]", self.op(cond, l), expected, q(&m), target, ln)
                }
                TerminatorKind::InlineAsm { .. } => "[\"asm\"]".into(),
            };
            blocks.push(format!("{{\"s\":{},\"t\":{}}}", list(&st), ts));
        }
        let mut names = vec![];
        for v in b.var_debug_info.iter() {
            if let Some(x) = v.local() {
                names.push(format!("[{},{}]", x, q(&v.name)));
            }
        }
        format!(
            "{{\"locals\":{},\"argc\":{},\"spread\":{},\"names\":{},\"blocks\":{},\"span\":{}}}",
            list(&lt),
            b.arg_locals().len(),
            b.spread_arg().map(|x| x.to_string()).unwrap_or("null".into()),
            list(&names),
            list(&blocks),
            self.span(&b.span)
        )
    }
}
fn vix(i: &VariantIdx) -> usize {
    let s = format!("{:?}", i);
    let d: String = s.chars().skip_while(|c| !c.is_ascii_digit()).take_while(|c| c.is_ascii_digit()).collect();
    d.parse().unwrap()
}
fn foff(sh: &LayoutShape, i: usize) -> usize {
    match &sh.fields {
        FieldsShape::Arbitrary { offsets } => offsets[i].bytes(),
        FieldsShape::Array { stride, .. } => stride.bytes() * i,
        _ => 0,
    }
}

fn analyze(tcx: TyCtxt<'_>) -> ControlFlow<()> {
    let out_path = std::env::var("AGA8_MIR_OUT").expect("AGA8_MIR_OUT");
    let mut cx = Cx {
        tcx,
        tys: HashMap::new(),
        ty_out: vec![],
        insts: HashMap::new(),
        inst_list: vec![],
        queue: VecDeque::new(),
        queued: vec![],
        consts: HashMap::new(),
        const_out: vec![],
        allocs: HashMap::new(),
        alloc_out: vec![],
    };
    let mut roots = vec![];
    let mut statics = vec![];
    // restrict the extraction to the named items (to compare build configurations)
    let only: Option<Vec<String>> = std::env::var("AGA8_ONLY").ok().map(|p| std::fs::read_to_string(p).expect("AGA8_ONLY").lines().map(|s| s.to_string()).collect());
    for item in rustc_public::all_local_items() {
        if let Some(o) = &only {
            if !o.contains(&item.name()) {
                continue;
            }
        }
        match item.kind() {
            rustc_public::ItemKind::Fn => {}
            rustc_public::ItemKind::Static => {
                let pl = rustc_public::mir::mono::StaticDef::try_from(item).map(|d| plain_static(tcx, &d)).unwrap_or(false);
                statics.push(format!("[{},{},{}]", q(&item.name()), cx.span(&item.span()), pl));
                continue;
            }
            _ => continue,
        }
        let generic = item.requires_monomorphization();
        let did = rustc_public::rustc_internal::internal(tcx, item.def_id());
        let reach = did.as_local().map(|d| tcx.effective_visibilities(()).is_reachable(d)).unwrap_or(false);
        let is_closure = tcx.is_closure_like(did);
        let trait_of = if is_closure { None } else { tcx.trait_impl_of_assoc(did) };
        let trait_name = trait_of.map(|im| tcx.def_path_str(tcx.impl_trait_id(im))).map(|s| q(&s)).unwrap_or("null".into());
        let self_ty = if is_closure { None } else { tcx.impl_of_assoc(did) }.map(|im| format!("{}", tcx.type_of(im).instantiate_identity().skip_norm_wip())).map(|s| q(&s)).unwrap_or("null".into());
        let mut inst = "null".to_string();
        if !generic && !is_closure {
            if let Ok(i) = Instance::try_from(item) {
                inst = cx.inst(i, true).to_string();
            }
        }
        let (mut cabi, mut uns, mut inputs, mut output, mut nomangle) = (String::from("null"), false, vec![], String::from("null"), false);
        if !is_closure {
            if let Some(sig) = item.ty().kind().fn_sig() {
                let s = sig.value;
                cabi = q(&format!("{:?}", s.abi));
                uns = s.safety == Safety::Unsafe;
                if !generic {
                    for t in s.inputs() {
                        inputs.push(cx.ty(*t).to_string());
                    }
                    output = cx.ty(s.output()).to_string();
                }
            }
            if let Some(_l) = did.as_local() {
                let at = tcx.codegen_fn_attrs(did);
                nomangle = at.contains_extern_indicator();
            }
        }
        roots.push(format!(
            "{{\"name\":{},\"inst\":{},\"generic\":{},\"reachable\":{},\"closure\":{},\"trait\":{},\"self\":{},\"abi\":{},\"unsafe\":{},\"inputs\":{},\"output\":{},\"extern_indicator\":{},\"span\":{}}}",
            q(&item.name()), inst, generic, reach, is_closure, trait_name, self_ty, cabi, uns, list(&inputs), output, nomangle, cx.span(&item.span())
        ));
    }
    // local ADTs (for layout rules even when no function mentions them)
    let mut adts = vec![];
    for a in if only.is_some() { vec![] } else { rustc_public::local_crate().adts() } {
        let t = a.ty();
        let id = cx.ty(t);
        adts.push(id.to_string());
    }
    let mut insts_out: HashMap<usize, String> = HashMap::new();
    while let Some(id) = cx.queue.pop_front() {
        let i = cx.inst_list[id];
        let intr = i.intrinsic_name();
        let name = i.name();
        let did = i.def.def_id();
        let local = i.def.krate().is_local;
        // formatting machinery is only reachable from panics and Debug impls: keep it opaque
        let opaque = name.starts_with("core::fmt") || name.starts_with("std::fmt") || name.contains("as std::fmt::") || name.contains("as core::fmt::") || name.starts_with("core::panicking") || name.starts_with("std::rt::");
        let body = if intr.is_some() && !i.has_body() { None } else if opaque && !local { None } else if matches!(i.kind, InstanceKind::Virtual { .. }) { None } else { i.body() };
        let b = match &body {
            Some(b) => cx.body(b),
            None => "null".into(),
        };
        // constructors of tuple structs and variants used as functions
        let mut ctor = "null".to_string();
        {
            let d = rustc_public::rustc_internal::internal(tcx, did);
            if tcx.is_constructor(d) {
                if let Some(sig) = i.ty().kind().fn_sig() {
                    let out = sig.value.output();
                    let ret = cx.ty(out);
                    let vi = if let TyKind::RigidTy(RigidTy::Adt(adt, _)) = out.kind() {
                        let a = tcx.adt_def(rustc_public::rustc_internal::internal(tcx, adt.def_id()));
                        a.variant_index_with_ctor_id(d).as_usize()
                    } else { 0 };
                    ctor = format!("[{},{}]", ret, vi);
                }
            }
        }
        let mut uns = false;
        if let Some(sig) = match i.ty().kind() { TyKind::RigidTy(RigidTy::FnDef(..)) => i.ty().kind().fn_sig(), _ => None } {
            uns = sig.value.safety == Safety::Unsafe;
        }
        let targs: Vec<String> = i.args().0.iter().filter_map(|g| if let GenericArgKind::Type(t) = g { Some(cx.ty(*t).to_string()) } else { None }).collect();
        let dname = {
            let d = rustc_public::rustc_internal::internal(tcx, did);
            tcx.def_path_str(d)
        };
        insts_out.insert(
            id,
            format!(
                "{{\"id\":{},\"name\":{},\"def\":{},\"mangled\":{},\"kind\":{},\"intrinsic\":{},\"local\":{},\"foreign\":{},\"unsafe\":{},\"ctor\":{},\"targs\":{},\"body\":{}}}",
                id,
                q(&name),
                q(&dname),
                q(&i.mangled_name()),
                q(&format!("{:?}", i.kind)),
                intr.map(|s| q(&s)).unwrap_or("null".into()),
                local,
                i.is_foreign_item(),
                uns,
                ctor,
                list(&targs),
                b
            ),
        );
    }
    // instances mentioned but never reached by a call: names only
    for id in 0..cx.inst_list.len() {
        if !insts_out.contains_key(&id) {
            let i = cx.inst_list[id];
            insts_out.insert(id, format!("{{\"id\":{},\"name\":{},\"def\":{},\"kind\":\"unreached\",\"intrinsic\":null,\"local\":{},\"body\":null,\"targs\":[]}}", id, q(&i.name()), q(""), i.def.krate().is_local));
        }
    }
    let mut iv = vec![];
    for id in 0..cx.inst_list.len() {
        iv.push(insts_out.remove(&id).unwrap());
    }
    let doc = format!(
        "{{\"types\":{},\"consts\":{},\"allocs\":{},\"instances\":{},\"fns\":{},\"statics\":{},\"adts\":{}}}",
        list(&cx.ty_out),
        list(&cx.const_out),
        list(&cx.alloc_out),
        list(&iv),
        list(&roots),
        list(&statics),
        list(&adts)
    );
    std::fs::write(&out_path, doc).expect("write");
    ControlFlow::Break(())
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let r = run_with_tcx!(&args, analyze);
    match r {
        Err(CompilerError::Interrupted(())) | Ok(()) => std::process::exit(0),
        _ => std::process::exit(3),
    }
}
