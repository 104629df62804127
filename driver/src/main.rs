//! rustc driver: compiles a crate as usual and, when MIRDUMP_OUT is set and the crate is the
//! one named by MIRDUMP_CRATE, writes the monomorphic MIR of everything reachable from the
//! crate's items (within the workspace crates), its ADTs and its constants as JSON.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
#[macro_use]
extern crate rustc_public;
extern crate rustc_public_bridge;
extern crate rustc_span;

use rustc_middle::ty::TyCtxt;
use rustc_public::abi::{FieldsShape, TagEncoding, VariantsShape};
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::{CrateDef, CrateDefType, CrateItem, ItemKind};
use std::collections::{BTreeMap, BTreeSet, HashMap, VecDeque};
use std::fmt::Write as _;
use std::io::Write as _;
use std::ops::ControlFlow;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn join(v: Vec<String>) -> String {
    format!("[{}]", v.join(","))
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    crates: BTreeSet<String>,
    ids: HashMap<Instance, usize>,
    order: Vec<Instance>,
    queue: VecDeque<Instance>,
    adts: BTreeMap<String, String>,
    tystr: HashMap<Ty, String>,
    traits: BTreeSet<String>,
}

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

impl<'tcx> Cx<'tcx> {
    fn ty(&mut self, t: Ty) -> String {
        if let Some(s) = self.tystr.get(&t) {
            return s.clone();
        }
        let s = rustc_middle::ty::print::with_no_trimmed_paths!(format!(
            "{}",
            rustc_public::rustc_internal::internal(self.tcx, t)
        ));
        self.tystr.insert(t, s.clone());
        s
    }

    fn krate_of_def(&self, d: rustc_public::DefId) -> String {
        let id = rustc_public::rustc_internal::internal(self.tcx, d);
        self.tcx.crate_name(id.krate).to_string()
    }

    fn span(&self, s: &Span) -> String {
        let l = s.get_lines();
        format!("{}:{}", s.get_filename(), l.start_line)
    }

    fn note_adt(&mut self, def: AdtDef) -> String {
        let name = def.name().to_string();
        if !self.adts.contains_key(&name) {
            let mut vs = vec![];
            let is_enum = def.kind() == AdtKind::Enum;
            for v in def.variants() {
                let d = if is_enum { def.discriminant_for_variant(v.idx()).val.to_string() } else { "0".into() };
                let fs: Vec<String> = v
                    .fields()
                    .iter()
                    .map(|f| format!("[{},{}]", esc(&f.name.to_string()), esc(&f.ty().to_string())))
                    .collect();
                vs.push(format!("[{},{},{}]", esc(&v.name().to_string()), esc(&d), join(fs)));
            }
            self.adts.insert(
                name.clone(),
                format!("{{\"kind\":{},\"variants\":{}}}", esc(&format!("{:?}", def.kind())), join(vs)),
            );
        }
        name
    }

    fn inst_id(&mut self, i: Instance) -> usize {
        if let Some(x) = self.ids.get(&i) {
            return *x;
        }
        let id = self.order.len();
        self.ids.insert(i, id);
        self.order.push(i);
        self.queue.push_back(i);
        id
    }

    fn wants(&self, i: &Instance) -> bool {
        if !matches!(i.kind, InstanceKind::Item) {
            return false;
        }
        let k = self.krate_of_def(i.def.def_id());
        self.crates.contains(&k) && i.has_body()
    }

    /// the analysed conversion behind the standard library's `into` and `try_into`
    fn behind_into(&self, i: &Instance) -> Option<Instance> {
        let n = i.name().to_string();
        if !(n.contains("convert::Into<") || n.contains("convert::TryInto<")) || !i.has_body() {
            return None;
        }
        let body = i.body()?;
        let mut found = None;
        for b in &body.blocks {
            if let TerminatorKind::Call { func, .. } = &b.terminator.kind {
                let t = func.ty(body.locals()).ok()?;
                if let TyKind::RigidTy(RigidTy::FnDef(def, ga)) = t.kind() {
                    let x = Instance::resolve(def, &ga).ok()?;
                    if found.is_some() || !self.wants(&x) {
                        return None;
                    }
                    found = Some(x);
                }
            }
        }
        found
    }

    fn scan_args(&mut self, args: &GenericArgs) {
        for a in &args.0 {
            if let GenericArgKind::Type(t) = a {
                self.scan_ty(*t);
            }
        }
    }

    fn scan_ty(&mut self, t: Ty) {
        match t.kind() {
            TyKind::RigidTy(RigidTy::Closure(..)) => {
                let _ = self.callable_of_ty(t);
            }
            TyKind::RigidTy(RigidTy::FnDef(def, ga)) => {
                if let Ok(i) = Instance::resolve(def, &ga) {
                    if self.wants(&i) {
                        self.inst_id(i);
                    }
                }
                self.scan_args(&ga);
            }
            TyKind::RigidTy(RigidTy::Adt(_, ga)) => self.scan_args(&ga),
            TyKind::RigidTy(RigidTy::Ref(_, t, _)) => self.scan_ty(t),
            TyKind::RigidTy(RigidTy::Tuple(ts)) => {
                for t in ts {
                    self.scan_ty(t)
                }
            }
            _ => {}
        }
    }

    fn callable_of_ty(&mut self, t: Ty) -> Option<usize> {
        match t.kind() {
            TyKind::RigidTy(RigidTy::Closure(def, args)) => {
                for k in [ClosureKind::Fn, ClosureKind::FnMut, ClosureKind::FnOnce] {
                    let _ = k;
                    if let Ok(i) = Instance::resolve_closure(def, &args, k) {
                        if self.wants(&i) {
                            return Some(self.inst_id(i));
                        }
                    }
                }
                None
            }
            TyKind::RigidTy(RigidTy::FnDef(def, ga)) => {
                if let Ok(i) = Instance::resolve(def, &ga) {
                    if self.wants(&i) {
                        return Some(self.inst_id(i));
                    }
                    if let Some(x) = self.behind_into(&i) {
                        return Some(self.inst_id(x));
                    }
                }
                None
            }
            _ => None,
        }
    }

    fn read_uint(&self, a: &Allocation, off: usize, n: usize) -> Option<u128> {
        a.read_partial_uint(off..off + n).ok()
    }

    fn decode(&mut self, a: &Allocation, off: usize, t: Ty, depth: usize) -> String {
        match self.try_decode(a, off, t, depth) {
            Some(s) => s,
            None => format!("[\"opaque\",{}]", esc(&self.ty(t))),
        }
    }

    fn try_decode(&mut self, a: &Allocation, off: usize, t: Ty, depth: usize) -> Option<String> {
        if depth > 12 {
            return None;
        }
        let tys = self.ty(t);
        let shape = t.layout().ok()?.shape();
        let size = shape.size.bytes();
        let offs = |fs: &FieldsShape| -> Vec<usize> {
            match fs {
                FieldsShape::Arbitrary { offsets } => offsets.iter().map(|o| o.bytes()).collect(),
                _ => vec![],
            }
        };
        Some(match t.kind() {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool => format!("[\"int\",{},\"bool\"]", esc(&self.read_uint(a, off, 1)?.to_string())),
                RigidTy::Char | RigidTy::Uint(_) => {
                    format!("[\"int\",{},{}]", esc(&self.read_uint(a, off, size)?.to_string()), esc(&tys))
                }
                RigidTy::Int(_) => {
                    let v = self.read_uint(a, off, size)?;
                    let bits = size * 8;
                    let v = if bits < 128 && (v >> (bits - 1)) & 1 == 1 {
                        v as i128 - (1i128 << bits)
                    } else {
                        v as i128
                    };
                    format!("[\"int\",{},{}]", esc(&v.to_string()), esc(&tys))
                }
                RigidTy::Array(el, n) => {
                    let n = n.eval_target_usize().ok()? as usize;
                    self.dec_arr(a, off, el, n, depth)?
                }
                RigidTy::Tuple(ts) => {
                    let o = offs(&shape.fields);
                    let mut v = vec![];
                    for (i, t) in ts.iter().enumerate() {
                        v.push(self.decode(a, off + o.get(i).copied().unwrap_or(0), *t, depth + 1));
                    }
                    format!("[\"tup\",{}]", join(v))
                }
                RigidTy::Ref(_, inner, _) | RigidTy::RawPtr(inner, _) => {
                    let p = a.provenance.ptrs.iter().find(|(o, _)| *o == off).map(|(_, p)| p.0)?;
                    let addr = self.read_uint(a, off, 8)? as usize;
                    match GlobalAlloc::from(p) {
                        GlobalAlloc::Memory(al) => match inner.kind() {
                            TyKind::RigidTy(RigidTy::Str) => {
                                let n = self.read_uint(a, off + 8, 8)? as usize;
                                let b: Option<Vec<u8>> = al.bytes[addr..addr + n].iter().copied().collect();
                                format!("[\"str\",{}]", esc(&String::from_utf8_lossy(&b?)))
                            }
                            TyKind::RigidTy(RigidTy::Slice(el)) => {
                                let n = self.read_uint(a, off + 8, 8)? as usize;
                                let s = self.dec_arr(&al, addr, el, n, depth)?;
                                format!("[\"ref\",{}]", s)
                            }
                            _ => {
                                let s = self.decode(&al, addr, inner, depth + 1);
                                format!("[\"ref\",{}]", s)
                            }
                        },
                        GlobalAlloc::Static(s) => format!("[\"static\",{}]", esc(&s.name().to_string())),
                        GlobalAlloc::Function(i) => format!("[\"fnptr\",{}]", esc(&i.name().to_string())),
                        _ => return None,
                    }
                }
                RigidTy::Adt(def, ga) => {
                    let name = self.note_adt(def);
                    let (vidx, o): (usize, Vec<usize>) = match &shape.variants {
                        VariantsShape::Single { index } => {
                            (rustc_public_bridge::IndexedVal::to_index(index), offs(&shape.fields))
                        }
                        VariantsShape::Multiple { tag: _, tag_encoding, tag_field, variants } => {
                            let fo = offs(&shape.fields);
                            let to = fo.get(*tag_field).copied().unwrap_or(0);
                            let tsz = match &shape.variants {
                                VariantsShape::Multiple { tag, .. } => tag_size(tag),
                                _ => 1,
                            };
                            let tag = match self.read_uint(a, off + to, tsz) {
                                Some(x) => x,
                                None => {
                                    // pointer niche: tag bytes are a pointer
                                    1
                                }
                            };
                            let is_ptr = a.provenance.ptrs.iter().any(|(o, _)| *o == off + to);
                            let idx = match tag_encoding {
                                TagEncoding::Direct => {
                                    let mut f = None;
                                    for v in def.variants() {
                                        let d = def.discriminant_for_variant(v.idx()).val;
                                        let m = if tsz >= 16 { u128::MAX } else { (1u128 << (tsz * 8)) - 1 };
                                        if d & m == tag {
                                            f = Some(rustc_public_bridge::IndexedVal::to_index(&v.idx()));
                                        }
                                    }
                                    f?
                                }
                                TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                    let s = rustc_public_bridge::IndexedVal::to_index(niche_variants.start());
                                    let e = rustc_public_bridge::IndexedVal::to_index(niche_variants.end());
                                    let m = if tsz >= 16 { u128::MAX } else { (1u128 << (tsz * 8)) - 1 };
                                    let rel = tag.wrapping_sub(*niche_start) & m;
                                    if !is_ptr && rel <= (e - s) as u128 {
                                        s + rel as usize
                                    } else {
                                        rustc_public_bridge::IndexedVal::to_index(untagged_variant)
                                    }
                                }
                            };
                            (idx, variants[idx].offsets.iter().map(|o| o.bytes()).collect())
                        }
                        _ => return None,
                    };
                    let var = def.variants().into_iter().nth(vidx)?;
                    let mut fs = vec![];
                    for (i, f) in var.fields().iter().enumerate() {
                        let ft = f.ty_with_args(&ga);
                        let v = self.decode(a, off + o.get(i).copied().unwrap_or(0), ft, depth + 1);
                        fs.push(format!("[{},{}]", esc(&f.name.to_string()), v));
                    }
                    format!(
                        "[\"adt\",{},{},{}]",
                        esc(&name),
                        if def.kind() == AdtKind::Enum { esc(&var.name().to_string()) } else { "null".into() },
                        join(fs)
                    )
                }
                RigidTy::FnDef(..) | RigidTy::Closure(..) => format!("[\"zst\",{}]", esc(&tys)),
                _ => return None,
            },
            _ => return None,
        })
    }

    fn dec_arr(&mut self, a: &Allocation, off: usize, el: Ty, n: usize, depth: usize) -> Option<String> {
        let es = el.layout().ok()?.shape().size.bytes();
        if matches!(el.kind(), TyKind::RigidTy(RigidTy::Uint(UintTy::U8))) {
            let b: Option<Vec<u8>> = a.bytes.get(off..off + n)?.iter().copied().collect();
            return Some(format!("[\"bytes\",{}]", esc(&hex(&b?))));
        }
        if n > 600 {
            return Some(format!("[\"big\",{}]", n));
        }
        let mut v = vec![];
        for i in 0..n {
            v.push(self.decode(a, off + i * es, el, depth + 1));
        }
        Some(format!("[\"arr\",{}]", join(v)))
    }

    fn mirconst(&mut self, c: &MirConst) -> String {
        let t = c.ty();
        match c.kind() {
            ConstantKind::Allocated(a) => self.decode(a, 0, t, 0),
            ConstantKind::ZeroSized => match t.kind() {
                TyKind::RigidTy(RigidTy::FnDef(def, ga)) => self.fndef(def, &ga),
                TyKind::RigidTy(RigidTy::Closure(..)) => {
                    let id = self.callable_of_ty(t);
                    format!(
                        "[\"closure\",{},{}]",
                        esc(&self.ty(t)),
                        id.map(|x| x.to_string()).unwrap_or("null".into())
                    )
                }
                TyKind::RigidTy(RigidTy::Adt(def, _)) => {
                    let name = self.note_adt(def);
                    format!("[\"adt\",{},null,[]]", esc(&name))
                }
                TyKind::RigidTy(RigidTy::Tuple(ts)) if ts.is_empty() => "[\"tup\",[]]".into(),
                _ => format!("[\"zst\",{}]", esc(&self.ty(t))),
            },
            ConstantKind::Ty(tc) => match tc.kind() {
                TyConstKind::Value(t, a) => {
                    let t = *t;
                    let a = a.clone();
                    self.decode(&a, 0, t, 0)
                }
                _ => format!("[\"opaque\",{}]", esc(&self.ty(t))),
            },
            _ => format!("[\"opaque\",{}]", esc(&self.ty(t))),
        }
    }

    fn fndef(&mut self, def: FnDef, ga: &GenericArgs) -> String {
        let name = def.name().to_string();
        let mut args = vec![];
        for g in &ga.0 {
            match g {
                GenericArgKind::Type(t) => {
                    let s = self.ty(*t);
                    args.push(esc(&s));
                }
                GenericArgKind::Const(c) => {
                    let s = c.eval_target_usize().map(|x| x.to_string()).unwrap_or("?".into());
                    args.push(esc(&s));
                }
                _ => {}
            }
        }
        self.scan_args(ga);
        let mut id = "null".to_string();
        let mut rname = "null".to_string();
        let mut kind = "none";
        if let Ok(i) = Instance::resolve(def, ga) {
            rname = esc(&i.name().to_string());
            kind = match i.kind {
                InstanceKind::Item => "item",
                InstanceKind::Intrinsic | InstanceKind::LlvmIntrinsic => "intrinsic",
                InstanceKind::Virtual { .. } => "virtual",
                InstanceKind::Shim => "shim",
            };
            if self.wants(&i) {
                id = self.inst_id(i).to_string();
            } else if let Some(x) = self.behind_into(&i) {
                id = self.inst_id(x).to_string();
            } else if matches!(i.kind, InstanceKind::Shim) {
                // closure call shims: FnOnce::call_once on a closure/fn item
                if let Some(GenericArgKind::Type(t)) = ga.0.first() {
                    if let Some(x) = self.callable_of_ty(*t) {
                        id = x.to_string();
                    }
                }
            }
        }
        format!("[\"fn\",{},{},{},{},{}]", esc(&name), join(args), id, rname, esc(kind))
    }

    fn operand(&mut self, o: &Operand, locals: &[LocalDecl]) -> String {
        match o {
            Operand::Copy(p) => format!("[\"c\",{}]", self.place(p, locals)),
            Operand::Move(p) => format!("[\"m\",{}]", self.place(p, locals)),
            Operand::Constant(c) => format!("[\"k\",{}]", self.mirconst(&c.const_)),
            Operand::RuntimeChecks(_) => "[\"k\",[\"int\",\"0\",\"bool\"]]".into(),
        }
    }

    fn place(&mut self, p: &Place, locals: &[LocalDecl]) -> String {
        let mut t = Some(locals[p.local].ty);
        let mut variant: Option<usize> = None;
        let mut v = vec![];
        for e in &p.projection {
            match e {
                ProjectionElem::Deref => {
                    v.push("\"*\"".to_string());
                    t = t.and_then(|t| t.kind().builtin_deref(true).map(|x| x.ty)).or_else(|| {
                        // Box deref
                        None
                    });
                    variant = None;
                }
                ProjectionElem::Field(i, ft) => {
                    let mut n = i.to_string();
                    let mut owner = String::new();
                    if let Some(TyKind::RigidTy(RigidTy::Adt(def, _))) = t.map(|t| t.kind()) {
                        owner = self.note_adt(def);
                        let vi = variant.unwrap_or(0);
                        if let Some(var) = def.variants().into_iter().nth(vi) {
                            if let Some(f) = var.fields().get(*i) {
                                n = f.name.to_string();
                            }
                        }
                    }
                    v.push(format!("[\"f\",{},{},{}]", i, esc(&n), esc(&owner)));
                    t = Some(*ft);
                    variant = None;
                }
                ProjectionElem::Index(l) => {
                    v.push(format!("[\"i\",{}]", l));
                    t = t.and_then(|t| t.kind().builtin_index());
                    variant = None;
                }
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    v.push(format!("[\"ci\",{},{}]", offset, from_end));
                    t = t.and_then(|t| t.kind().builtin_index());
                    variant = None;
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    v.push(format!("[\"ss\",{},{},{}]", from, to, from_end));
                }
                ProjectionElem::Downcast(vi) => {
                    let k = rustc_public_bridge::IndexedVal::to_index(vi);
                    let mut n = k.to_string();
                    if let Some(TyKind::RigidTy(RigidTy::Adt(def, _))) = t.map(|t| t.kind()) {
                        self.note_adt(def);
                        if let Some(var) = def.variants().into_iter().nth(k) {
                            n = var.name().to_string();
                        }
                    }
                    v.push(format!("[\"v\",{}]", esc(&n)));
                    variant = Some(k);
                }
                ProjectionElem::OpaqueCast(ty) => {
                    t = Some(*ty);
                }
            }
        }
        format!("[{},{}]", p.local, join(v))
    }

    fn rvalue(&mut self, r: &Rvalue, locals: &[LocalDecl]) -> String {
        match r {
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.operand(o, locals)),
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"c\",{}]]", self.place(p, locals)),
            Rvalue::Ref(_, bk, p) => format!(
                "[\"ref\",{},{}]",
                esc(match bk {
                    BorrowKind::Mut { .. } => "mut",
                    _ => "shr",
                }),
                self.place(p, locals)
            ),
            Rvalue::Reborrow(_, _, p) => format!("[\"ref\",\"mut\",{}]", self.place(p, locals)),
            Rvalue::AddressOf(_, p) => format!("[\"ref\",\"raw\",{}]", self.place(p, locals)),
            Rvalue::BinaryOp(op, a, b) => format!(
                "[\"bin\",{},{},{},{}]",
                esc(&format!("{op:?}")),
                self.operand(a, locals),
                self.operand(b, locals),
                esc(&a.ty(locals).map(|t| self.ty(t)).unwrap_or_default())
            ),
            Rvalue::CheckedBinaryOp(op, a, b) => format!(
                "[\"cbin\",{},{},{},{}]",
                esc(&format!("{op:?}")),
                self.operand(a, locals),
                self.operand(b, locals),
                esc(&a.ty(locals).map(|t| self.ty(t)).unwrap_or_default())
            ),
            Rvalue::UnaryOp(op, a) => {
                format!("[\"un\",{},{}]", esc(&format!("{op:?}")), self.operand(a, locals))
            }
            Rvalue::Cast(k, o, t) => {
                let mut extra = "null".to_string();
                if let CastKind::PointerCoercion(PointerCoercion::ReifyFnPointer(_) | PointerCoercion::ClosureFnPointer(_)) = k {
                    if let Ok(ot) = o.ty(locals) {
                        if let Some(x) = self.callable_of_ty(ot) {
                            extra = x.to_string();
                        }
                    }
                }
                let ot = o.ty(locals).map(|t| self.ty(t)).unwrap_or_default();
                format!(
                    "[\"cast\",{},{},{},{},{}]",
                    esc(&format!("{k:?}")),
                    self.operand(o, locals),
                    esc(&self.ty(*t)),
                    extra,
                    esc(&ot)
                )
            }
            Rvalue::Discriminant(p) => {
                let mut adt = "null".to_string();
                if let Ok(t) = p.ty(locals) {
                    if let TyKind::RigidTy(RigidTy::Adt(def, _)) = t.kind() {
                        adt = esc(&self.note_adt(def));
                    }
                }
                format!("[\"discr\",{},{}]", self.place(p, locals), adt)
            }
            Rvalue::Len(p) => format!("[\"len\",{}]", self.place(p, locals)),
            Rvalue::Repeat(o, n) => format!(
                "[\"repeat\",{},{}]",
                self.operand(o, locals),
                n.eval_target_usize().map(|x| x.to_string()).unwrap_or("null".into())
            ),
            Rvalue::Aggregate(k, ops) => {
                let ops: Vec<String> = ops.iter().map(|o| self.operand(o, locals)).collect();
                let h = match k {
                    AggregateKind::Array(t) => format!("[\"array\",{}]", esc(&self.ty(*t))),
                    AggregateKind::Tuple => "[\"tuple\"]".into(),
                    AggregateKind::Adt(def, v, _, _, active) => {
                        let n = self.note_adt(*def);
                        let var = def.variants().into_iter().nth(rustc_public_bridge::IndexedVal::to_index(v));
                        let (vn, mut fs) = match &var {
                            Some(x) => (
                                x.name().to_string(),
                                x.fields().iter().map(|f| esc(&f.name.to_string())).collect::<Vec<_>>(),
                            ),
                            None => ("?".into(), vec![]),
                        };
                        if let Some(a) = active {
                            fs = vec![fs[*a].clone()];
                        }
                        format!(
                            "[\"adt\",{},{},{}]",
                            esc(&n),
                            if def.kind() == AdtKind::Enum { esc(&vn) } else { "null".into() },
                            join(fs)
                        )
                    }
                    AggregateKind::Closure(def, ga) => {
                        let t = Ty::new_closure(*def, ga.clone());
                        let id = self.callable_of_ty(t);
                        format!(
                            "[\"closure\",{},{}]",
                            esc(&def.name().to_string()),
                            id.map(|x| x.to_string()).unwrap_or("null".into())
                        )
                    }
                    AggregateKind::RawPtr(..) => "[\"rawptr\"]".into(),
                    _ => "[\"coroutine\"]".into(),
                };
                format!("[\"agg\",{},{}]", h, join(ops))
            }
            Rvalue::ThreadLocalRef(_) => "[\"tls\"]".into(),
        }
    }

    fn body(&mut self, id: usize, inst: Instance) -> Option<String> {
        let body = inst.body()?;
        let locals: Vec<LocalDecl> = body.locals().to_vec();
        let lt: Vec<String> = locals.iter().map(|l| esc(&self.ty(l.ty))).collect();
        let mut dbg = vec![];
        for d in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &d.value {
                dbg.push(format!(
                    "[{},{},{}]",
                    esc(&d.name.to_string()),
                    self.place(p, &locals),
                    d.argument_index.map(|x| x.to_string()).unwrap_or("null".into())
                ));
            }
        }
        let mut blocks = vec![];
        for b in &body.blocks {
            let mut ss = vec![];
            for s in &b.statements {
                let line = s.source_info.span.get_lines().start_line;
                match &s.kind {
                    StatementKind::Assign(p, r) => {
                        let pl = self.place(p, &locals);
                        let rv = self.rvalue(r, &locals);
                        ss.push(format!("[\"=\",{},{},{}]", pl, rv, line));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        ss.push(format!(
                            "[\"sd\",{},{},{}]",
                            self.place(place, &locals),
                            rustc_public_bridge::IndexedVal::to_index(variant_index),
                            line
                        ));
                    }
                    _ => {}
                }
            }
            let sp = self.span(&b.terminator.source_info.span);
            let t = match &b.terminator.kind {
                TerminatorKind::Goto { target } => format!("[\"goto\",{}]", target),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let br: Vec<String> =
                        targets.branches().map(|(v, t)| format!("[{},{}]", esc(&v.to_string()), t)).collect();
                    let dty = discr.ty(&locals).map(|t| self.ty(t)).unwrap_or_default();
                    format!(
                        "[\"switch\",{},{},{},{}]",
                        self.operand(discr, &locals),
                        join(br),
                        targets.otherwise(),
                        esc(&dty)
                    )
                }
                TerminatorKind::Return => "[\"ret\"]".into(),
                TerminatorKind::Resume | TerminatorKind::Abort => "[\"resume\"]".into(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
                TerminatorKind::Drop { target, place, .. } => {
                    format!("[\"drop\",{},{}]", self.place(place, &locals), target)
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let fty = func.ty(&locals);
                    let f = match fty.as_ref().map(|t| t.kind()) {
                        Ok(TyKind::RigidTy(RigidTy::FnDef(def, ga))) => self.fndef(def, &ga),
                        _ => format!("[\"ptr\",{}]", self.operand(func, &locals)),
                    };
                    let a: Vec<String> = args.iter().map(|o| self.operand(o, &locals)).collect();
                    let dt = destination.ty(&locals).map(|t| self.ty(t)).unwrap_or_default();
                    format!(
                        "[\"call\",{},{},{},{},{},{}]",
                        f,
                        join(a),
                        self.place(destination, &locals),
                        target.map(|x| x.to_string()).unwrap_or("null".into()),
                        esc(&sp),
                        esc(&dt)
                    )
                }
                TerminatorKind::Assert { cond, expected, target, msg, .. } => {
                    let m = match msg {
                        AssertMessage::BoundsCheck { len, index } => format!(
                            "[\"bounds\",{},{}]",
                            self.operand(len, &locals),
                            self.operand(index, &locals)
                        ),
                        m => format!("[{}]", esc(m.description().unwrap_or("assert"))),
                    };
                    format!(
                        "[\"assert\",{},{},{},{}]",
                        self.operand(cond, &locals),
                        expected,
                        target,
                        m
                    )
                }
                TerminatorKind::InlineAsm { .. } => "[\"asm\"]".into(),
            };
            blocks.push(format!("{{\"s\":{},\"t\":{},\"sp\":{}}}", join(ss), t, esc(&sp)));
        }
        let args = inst.args();
        let mut ga = vec![];
        for g in &args.0 {
            match g {
                GenericArgKind::Type(t) => {
                    let s = self.ty(*t);
                    ga.push(esc(&s));
                }
                GenericArgKind::Const(c) => {
                    ga.push(esc(&c.eval_target_usize().map(|x| x.to_string()).unwrap_or("?".into())))
                }
                _ => {}
            }
        }
        let name = {
            let d = inst.def.def_id();
            d.name().to_string()
        };
        let iid = rustc_public::rustc_internal::internal(self.tcx, inst.def.def_id());
        let is_pub = !name.contains("{closure") && self.tcx.visibility(iid).is_public();
        Some(format!(
            "{{\"id\":{},\"name\":{},\"inst\":{},\"ga\":{},\"crate\":{},\"nargs\":{},\"locals\":{},\"dbg\":{},\"spread\":{},\"span\":{},\"pub\":{},\"blocks\":{}}}",
            id,
            esc(&name),
            esc(&inst.name().to_string()),
            join(ga),
            esc(&self.krate_of_def(inst.def.def_id())),
            body.arg_locals().len(),
            join(lt),
            join(dbg),
            body.spread_arg().map(|x| x.to_string()).unwrap_or("null".into()),
            esc(&self.span(&body.span)),
            is_pub,
            join(blocks)
        ))
    }
}

fn tag_size(s: &rustc_public::abi::Scalar) -> usize {
    use rustc_public::abi::{Primitive, Scalar};
    let p = match s {
        Scalar::Initialized { value, .. } => value,
        Scalar::Union { value } => value,
    };
    match p {
        Primitive::Int { length, .. } => length.bits() / 8,
        Primitive::Pointer(_) => 8,
        Primitive::Float { length } => match length {
            _ => 8,
        },
    }
}

fn dump(tcx: TyCtxt<'_>) -> ControlFlow<(), ()> {
    let out = match std::env::var("MIRDUMP_OUT") {
        Ok(o) => o,
        Err(_) => return ControlFlow::Continue(()),
    };
    let want = std::env::var("MIRDUMP_CRATE").unwrap_or_default();
    let me = rustc_public::local_crate().name.to_string();
    if me != want {
        return ControlFlow::Continue(());
    }
    let crates: BTreeSet<String> = std::env::var("MIRDUMP_WORKSPACE")
        .unwrap_or_default()
        .split(',')
        .map(|s| s.to_string())
        .collect();
    let mut cx = Cx {
        tcx,
        crates,
        ids: HashMap::new(),
        order: vec![],
        queue: VecDeque::new(),
        adts: BTreeMap::new(),
        tystr: HashMap::new(),
        traits: BTreeSet::new(),
    };
    let _ = &cx.traits;
    let mut consts: Vec<String> = vec![];
    let mut roots: Vec<String> = vec![];
    for item in rustc_public::all_local_items() {
        match item.kind() {
            ItemKind::Fn => {
                if let Ok(i) = Instance::try_from(item) {
                    if cx.wants(&i) {
                        let id = cx.inst_id(i);
                        roots.push(id.to_string());
                    }
                }
            }
            ItemKind::Const | ItemKind::Static => {}
            _ => {}
        }
    }
    // constants of the local crate and of the upstream workspace crates
    let mut const_ids: Vec<rustc_span::def_id::DefId> = vec![];
    for d in tcx.hir_body_owners() {
        let d = d.to_def_id();
        match tcx.def_kind(d) {
            rustc_hir::def::DefKind::Const { .. } | rustc_hir::def::DefKind::AssocConst { .. } => const_ids.push(d),
            _ => {}
        }
    }
    for k in tcx.crates(()) {
        if cx.crates.contains(tcx.crate_name(*k).as_str()) {
            collect_upstream_consts(tcx, k.as_def_id(), &mut const_ids, 0);
        }
    }
    for d in const_ids {
        let g = tcx.generics_of(d);
        if g.requires_monomorphization(tcx) || (g.has_self && tcx.trait_of_assoc(d).is_some()) {
            continue;
        }
        if let Ok(v) = tcx.const_eval_poly(d) {
            let ty = tcx.type_of(d).instantiate_identity().skip_norm_wip();
            let c = rustc_middle::mir::Const::Val(v, tcx.erase_and_anonymize_regions(ty));
            let sc = rustc_public::rustc_internal::stable(c);
            let val = cx.mirconst(&sc);
            let name = tcx.def_path_str(d);
            let kn = tcx.crate_name(d.krate).to_string();
            let imp = tcx
                .impl_of_assoc(d)
                .map(|i| rustc_middle::ty::print::with_no_trimmed_paths!(format!("{}", tcx.type_of(i).instantiate_identity().skip_norm_wip())))
                .unwrap_or_default();
            let tys = cx.ty(rustc_public::rustc_internal::stable(ty));
            consts.push(format!("[{},{},{},{},{}]", esc(&name), esc(&kn), esc(&imp), esc(&tys), val));
        }
    }
    let mut fns: Vec<String> = vec![];
    while let Some(i) = cx.queue.pop_front() {
        let id = cx.ids[&i];
        if let Some(s) = cx.body(id, i) {
            fns.push(s);
        }
    }
    let adts: Vec<String> = cx.adts.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect();
    let mut f = std::io::BufWriter::new(std::fs::File::create(&out).expect("MIRDUMP_OUT"));
    let _ = write!(
        f,
        "{{\"crate\":{},\"roots\":{},\"adts\":{{{}}},\"consts\":{},\"fns\":[\n{}\n]}}",
        esc(&me),
        join(roots),
        adts.join(",\n"),
        join(consts),
        fns.join(",\n")
    );
    let _ = f.flush();
    ControlFlow::Continue(())
}

fn collect_upstream_consts<'tcx>(
    tcx: TyCtxt<'tcx>,
    d: rustc_span::def_id::DefId,
    out: &mut Vec<rustc_span::def_id::DefId>,
    depth: usize,
) {
    use rustc_hir::def::{DefKind, Res};
    if depth > 6 {
        return;
    }
    for c in tcx.module_children(d) {
        if let Res::Def(k, id) = c.res {
            if id.krate != d.krate {
                continue;
            }
            match k {
                DefKind::Const { .. } => {
                    if !out.contains(&id) {
                        out.push(id)
                    }
                }
                DefKind::Mod => collect_upstream_consts(tcx, id, out, depth + 1),
                _ => {}
            }
        }
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // called as a rustc: argv[0] is us
    args[0] = "rustc".into();
    let _: Option<CrateItem> = None;
    let r: Result<(), rustc_public::CompilerError<()>> = run_with_tcx!(&args, dump);
    match r {
        Ok(()) | Err(rustc_public::CompilerError::Skipped) => {}
        Err(_) => std::process::exit(1),
    }
}
