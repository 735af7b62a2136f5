// mirdump: a rustc driver.  When it compiles the crate named by MIRDUMP_CRATE it
// writes, as JSON, the monomorphic MIR of every instance reachable from the
// functions of that crate and of the crates named in MIRDUMP_ROOT_CRATES.
// Nothing is rewritten: statements, terminators, places and constants are the
// compiler's own; what is dropped is spans inside statements, storage markers,
// user type annotations, regions and debug info.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public;
extern crate rustc_public_bridge;
use rustc_public::CrateDefType;
use rustc_public_bridge::IndexedVal;

use rustc_public::abi::{FieldsShape, LayoutShape, TagEncoding, VariantsShape};
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::{CrateDef, CrateItem};
use std::collections::HashMap;
use std::fmt::Write as _;
use std::ops::ControlFlow;

fn q(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Dump {
    tys: HashMap<Ty, usize>,
    ty_json: Vec<Option<String>>,
    insts: HashMap<Instance, usize>,
    inst_list: Vec<Instance>,
    inst_json: Vec<String>,
}

impl Dump {
    fn inst(&mut self, i: Instance) -> usize {
        if let Some(&k) = self.insts.get(&i) { return k; }
        let k = self.inst_list.len();
        self.insts.insert(i, k);
        self.inst_list.push(i);
        k
    }

    fn ty(&mut self, t: Ty) -> usize {
        if let Some(&k) = self.tys.get(&t) { return k; }
        let k = self.ty_json.len();
        self.tys.insert(t, k);
        self.ty_json.push(None);
        let size = match std::panic::catch_unwind(|| t.layout()) {
            Ok(Ok(l)) => { let s = l.shape(); if s.is_sized() { s.size.bytes() as i64 } else { -1 } }
            _ => -1,
        };
        let body = match t.kind() {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool => "\"k\":\"bool\"".to_string(),
                RigidTy::Char => "\"k\":\"char\"".to_string(),
                RigidTy::Int(i) => format!("\"k\":\"int\",\"w\":{}", i.num_bytes() * 8),
                RigidTy::Uint(i) => format!("\"k\":\"uint\",\"w\":{}", i.num_bytes() * 8),
                RigidTy::Float(_) => "\"k\":\"float\"".to_string(),
                RigidTy::Str => "\"k\":\"str\"".to_string(),
                RigidTy::Never => "\"k\":\"never\"".to_string(),
                RigidTy::Array(e, n) => {
                    let n = n.eval_target_usize().map(|x| x as i64).unwrap_or(-1);
                    let e = self.ty(e);
                    format!("\"k\":\"array\",\"e\":{e},\"n\":{n}")
                }
                RigidTy::Slice(e) => { let e = self.ty(e); format!("\"k\":\"slice\",\"e\":{e}") }
                RigidTy::RawPtr(e, _) => { let e = self.ty(e); format!("\"k\":\"ptr\",\"e\":{e}") }
                RigidTy::Ref(_, e, m) => {
                    let e = self.ty(e);
                    format!("\"k\":\"ref\",\"e\":{e},\"mut\":{}", m == Mutability::Mut)
                }
                RigidTy::Tuple(es) => {
                    let es: Vec<String> = es.iter().map(|e| self.ty(*e).to_string()).collect();
                    format!("\"k\":\"tuple\",\"f\":[{}]", es.join(","))
                }
                RigidTy::Adt(def, args) => {
                    let mut vs = vec![];
                    for v in def.variants_iter() {
                        let fs: Vec<String> = v.fields().iter().map(|f| {
                            let ft = f.ty_with_args(&args);
                            format!("[{},{}]", q(&f.name), self.ty(ft))
                        }).collect();
                        let d = if def.kind().is_enum() { def.discriminant_for_variant(v.idx()).val } else { 0 };
                        vs.push(format!("{{\"n\":{},\"d\":{},\"f\":[{}]}}", q(&v.name()), d, fs.join(",")));
                    }
                    let gargs: Vec<String> = args.0.iter().filter_map(|a| match a {
                        GenericArgKind::Type(t) => Some(self.ty(*t).to_string()),
                        _ => None,
                    }).collect();
                    let kind = if def.kind().is_enum() { "enum" } else if def.kind().is_union() { "union" } else { "struct" };
                    format!("\"k\":\"adt\",\"ak\":\"{}\",\"n\":{},\"v\":[{}],\"ga\":[{}]", kind, q(&def.name()), vs.join(","), gargs.join(","))
                }
                RigidTy::FnDef(def, args) => {
                    let i = Instance::resolve(def, &args).ok();
                    let s = match i { Some(i) => self.inst(i).to_string(), None => "null".into() };
                    format!("\"k\":\"fndef\",\"i\":{},\"n\":{}", s, q(&def.name()))
                }
                RigidTy::Closure(def, args) => {
                    // captured variables: the last generic argument is the upvar tuple
                    let mut up = vec![];
                    if let Some(GenericArgKind::Type(t)) = args.0.last() {
                        if let TyKind::RigidTy(RigidTy::Tuple(es)) = t.kind() {
                            for e in es { up.push(self.ty(e).to_string()); }
                        }
                    }
                    let mut is = vec![];
                    for kind in [ClosureKind::FnOnce, ClosureKind::FnMut, ClosureKind::Fn] {
                        match std::panic::catch_unwind(|| Instance::resolve_closure(def, &args, kind)) {
                            Ok(Ok(i)) => is.push(self.inst(i).to_string()),
                            _ => is.push("null".into()),
                        }
                    }
                    format!("\"k\":\"closure\",\"n\":{},\"f\":[{}],\"call\":[{}]", q(&def.name()), up.join(","), is.join(","))
                }
                RigidTy::FnPtr(_) => "\"k\":\"fnptr\"".to_string(),
                RigidTy::Dynamic(..) => "\"k\":\"dyn\"".to_string(),
                _ => "\"k\":\"other\"".to_string(),
            },
            _ => "\"k\":\"unresolved\"".to_string(),
        };
        let disp = format!("{}", t);
        self.ty_json[k] = Some(format!("{{{},\"size\":{},\"s\":{}}}", body, size, q(&disp)));
        k
    }

    fn place(&mut self, p: &Place) -> String {
        let mut ps = vec![];
        for e in &p.projection {
            ps.push(match e {
                ProjectionElem::Deref => "[\"deref\"]".into(),
                ProjectionElem::Field(i, t) => { let t = self.ty(*t); format!("[\"field\",{i},{t}]") }
                ProjectionElem::Index(l) => format!("[\"index\",{l}]"),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => format!("[\"cindex\",{offset},{min_length},{from_end}]"),
                ProjectionElem::Subslice { from, to, from_end } => format!("[\"subslice\",{from},{to},{from_end}]"),
                ProjectionElem::Downcast(v) => format!("[\"downcast\",{}]", v.to_index()),
                ProjectionElem::OpaqueCast(_) => "[\"opaque\"]".into(),
            });
        }
        format!("[{},[{}]]", p.local, ps.join(","))
    }

    fn scalar_at(&self, a: &Allocation, off: usize, n: usize) -> Option<u128> {
        let mut v = 0u128;
        for i in 0..n { v |= (a.bytes.get(off + i).copied().flatten()? as u128) << (8 * i); }
        Some(v)
    }

    fn prov_at(&self, a: &Allocation, off: usize) -> Option<AllocIdx> {
        a.provenance.ptrs.iter().find(|(o, _)| *o == off).map(|(_, p)| p.0)
    }

    // decode a constant of type t at offset off of allocation a
    fn val(&mut self, a: &Allocation, off: usize, t: Ty, depth: usize) -> String {
        if depth > 12 { return "{\"x\":\"deep\"}".into(); }
        let TyKind::RigidTy(r) = t.kind() else { return "{\"x\":\"nonrigid\"}".into() };
        match r {
            RigidTy::Bool => match self.scalar_at(a, off, 1) { Some(v) => format!("{{\"b\":{}}}", v), None => "{\"x\":\"uninit\"}".into() },
            RigidTy::Char => match self.scalar_at(a, off, 4) { Some(v) => format!("{{\"i\":\"{}\"}}", v), None => "{\"x\":\"uninit\"}".into() },
            RigidTy::Uint(u) => match self.scalar_at(a, off, u.num_bytes()) { Some(v) => format!("{{\"i\":\"{}\"}}", v), None => "{\"x\":\"uninit\"}".into() },
            RigidTy::Int(u) => match self.scalar_at(a, off, u.num_bytes()) {
                Some(v) => { let sh = 128 - 8 * u.num_bytes(); format!("{{\"i\":\"{}\"}}", ((v << sh) as i128) >> sh) }
                None => "{\"x\":\"uninit\"}".into() },
            RigidTy::Array(e, n) => {
                let n = n.eval_target_usize().unwrap_or(0) as usize;
                let sz = e.layout().map(|l| l.shape().size.bytes()).unwrap_or(0);
                let vs: Vec<String> = (0..n).map(|i| self.val(a, off + i * sz, e, depth + 1)).collect();
                format!("{{\"a\":[{}]}}", vs.join(","))
            }
            RigidTy::Tuple(es) => {
                let Ok(l) = t.layout() else { return "{\"x\":\"layout\"}".into() };
                let s = l.shape();
                let vs: Vec<String> = es.iter().enumerate().map(|(i, e)| {
                    let o = match &s.fields { FieldsShape::Arbitrary { offsets } => offsets[i].bytes(), _ => 0 };
                    self.val(a, off + o, *e, depth + 1)
                }).collect();
                format!("{{\"a\":[{}]}}", vs.join(","))
            }
            RigidTy::Adt(def, args) => {
                let Ok(l) = t.layout() else { return "{\"x\":\"layout\"}".into() };
                let s: LayoutShape = l.shape();
                if def.kind().is_union() { return "{\"x\":\"union\"}".into(); }
                let (vi, offs): (usize, Vec<usize>) = match &s.variants {
                    VariantsShape::Empty => return "{\"x\":\"empty\"}".into(),
                    VariantsShape::Single { index } => {
                        let o = match &s.fields { FieldsShape::Arbitrary { offsets } => offsets.iter().map(|o| o.bytes()).collect(), _ => vec![0; 64] };
                        (index.to_index(), o)
                    }
                    VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                        let toff = match &s.fields { FieldsShape::Arbitrary { offsets } => offsets[*tag_field].bytes(), _ => 0 };
                        let tsz = scalar_size(tag);
                        let tv = self.scalar_at(a, off + toff, tsz);
                        let vi = match tag_encoding {
                            TagEncoding::Direct => {
                                let Some(tv) = tv else { return "{\"x\":\"tag\"}".into() };
                                let m = if tsz >= 16 { u128::MAX } else { (1u128 << (8 * tsz)) - 1 };
                                let mut f = None;
                                for v in def.variants_iter() {
                                    if def.discriminant_for_variant(v.idx()).val & m == tv { f = Some(v.idx().to_index()); }
                                }
                                match f { Some(x) => x, None => return "{\"x\":\"tag\"}".into() }
                            }
                            TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                if self.prov_at(a, off + toff).is_some() { untagged_variant.to_index() } else {
                                    let Some(tv) = tv else { return "{\"x\":\"tag\"}".into() };
                                    let m = if tsz >= 16 { u128::MAX } else { (1u128 << (8 * tsz)) - 1 };
                                    let rel = tv.wrapping_sub(*niche_start) & m;
                                    let lo = niche_variants.start().to_index() as u128;
                                    let hi = niche_variants.end().to_index() as u128;
                                    if rel <= hi - lo { (lo + rel) as usize } else { untagged_variant.to_index() }
                                }
                            }
                        };
                        (vi, variants[vi].offsets.iter().map(|o| o.bytes()).collect())
                    }
                };
                let v = def.variants()[vi];
                let fs: Vec<String> = v.fields().iter().enumerate().map(|(i, f)| {
                    let ft = f.ty_with_args(&args);
                    let o = offs.get(i).copied().unwrap_or(0);
                    self.val(a, off + o, ft, depth + 1)
                }).collect();
                format!("{{\"v\":{},\"f\":[{}]}}", vi, fs.join(","))
            }
            RigidTy::Ref(_, e, _) | RigidTy::RawPtr(e, _) => {
                let Some(pid) = self.prov_at(a, off) else {
                    return match self.scalar_at(a, off, 8) { Some(v) => format!("{{\"addr\":\"{}\"}}", v), None => "{\"x\":\"ptr\"}".into() };
                };
                let po = self.scalar_at(a, off, 8).unwrap_or(0) as usize;
                match GlobalAlloc::from(pid) {
                    GlobalAlloc::Memory(m) => self.pointee(&m, po, e, a, off, depth),
                    GlobalAlloc::Static(s) => match s.eval_initializer() {
                        Ok(m) => self.pointee(&m, po, e, a, off, depth),
                        Err(_) => "{\"x\":\"static\"}".into(),
                    },
                    GlobalAlloc::Function(i) => { let k = self.inst(i); format!("{{\"fn\":{k}}}") }
                    _ => "{\"x\":\"galloc\"}".into(),
                }
            }
            RigidTy::FnPtr(_) => {
                if let Some(pid) = self.prov_at(a, off) {
                    if let GlobalAlloc::Function(i) = GlobalAlloc::from(pid) { let k = self.inst(i); return format!("{{\"fn\":{k}}}"); }
                }
                "{\"x\":\"fnptr\"}".into()
            }
            RigidTy::FnDef(..) | RigidTy::Closure(..) => "{\"z\":1}".into(),
            RigidTy::Pat(b, _) => self.val(a, off, b, depth),
            _ => "{\"x\":\"other\"}".into(),
        }
    }

    fn pointee(&mut self, m: &Allocation, po: usize, e: Ty, a: &Allocation, off: usize, depth: usize) -> String {
        match e.kind() {
            TyKind::RigidTy(RigidTy::Slice(el)) => {
                let n = self.scalar_at(a, off + 8, 8).unwrap_or(0) as usize;
                let sz = el.layout().map(|l| l.shape().size.bytes()).unwrap_or(0);
                let vs: Vec<String> = (0..n).map(|i| self.val(m, po + i * sz, el, depth + 1)).collect();
                format!("{{\"ref\":{{\"a\":[{}]}},\"slice\":{}}}", vs.join(","), n)
            }
            TyKind::RigidTy(RigidTy::Str) => {
                let n = self.scalar_at(a, off + 8, 8).unwrap_or(0) as usize;
                let b: Vec<u8> = (0..n).map(|i| m.bytes.get(po + i).copied().flatten().unwrap_or(0)).collect();
                format!("{{\"str\":{}}}", q(&String::from_utf8_lossy(&b)))
            }
            TyKind::RigidTy(RigidTy::Dynamic(..)) => "{\"x\":\"dyn\"}".into(),
            _ => { let v = self.val(m, po, e, depth + 1); format!("{{\"ref\":{}}}", v) }
        }
    }

    fn constant(&mut self, c: &MirConst) -> String {
        let t = c.ty();
        let ti = self.ty(t);
        let v = match c.kind() {
            ConstantKind::Allocated(a) => { let a = a.clone(); self.val(&a, 0, t, 0) }
            ConstantKind::ZeroSized => "{\"z\":1}".into(),
            ConstantKind::Ty(tc) => match tc.kind() {
                TyConstKind::Value(ty, a) => { let a = a.clone(); let ty = *ty; self.val(&a, 0, ty, 0) }
                TyConstKind::ZSTValue(_) => "{\"z\":1}".into(),
                _ => match tc.eval_target_usize() { Ok(v) => format!("{{\"i\":\"{v}\"}}"), Err(_) => "{\"x\":\"tyconst\"}".into() },
            },
            ConstantKind::Unevaluated(_) => "{\"x\":\"uneval\"}".into(),
            ConstantKind::Param(_) => "{\"x\":\"param\"}".into(),
        };
        format!("[\"const\",{ti},{v}]")
    }

    fn operand(&mut self, o: &Operand) -> String {
        match o {
            Operand::Copy(p) => format!("[\"copy\",{}]", self.place(p)),
            Operand::Move(p) => format!("[\"move\",{}]", self.place(p)),
            Operand::Constant(c) => self.constant(&c.const_),
            Operand::RuntimeChecks(r) => format!("[\"rtcheck\",\"{:?}\"]", r),
        }
    }

    fn rvalue(&mut self, r: &Rvalue, locals: &[LocalDecl]) -> String {
        match r {
            Rvalue::AddressOf(_, p) => format!("[\"addrof\",{}]", self.place(p)),
            Rvalue::Aggregate(k, ops) => {
                let os: Vec<String> = ops.iter().map(|o| self.operand(o)).collect();
                let ks = match k {
                    AggregateKind::Array(t) => format!("[\"array\",{}]", self.ty(*t)),
                    AggregateKind::Tuple => "[\"tuple\"]".into(),
                    AggregateKind::Adt(def, v, args, _, af) => {
                        let t = def.ty_with_args(args);
                        format!("[\"adt\",{},{},{}]", self.ty(t), v.to_index(), af.map(|x| x as i64).unwrap_or(-1))
                    }
                    AggregateKind::Closure(def, args) => { let t = Ty::new_closure(*def, args.clone()); format!("[\"closure\",{}]", self.ty(t)) }
                    AggregateKind::RawPtr(t, _) => format!("[\"rawptr\",{}]", self.ty(*t)),
                    _ => "[\"other\"]".into(),
                };
                format!("[\"agg\",{},[{}]]", ks, os.join(","))
            }
            Rvalue::BinaryOp(op, a, b) => {
                let t = a.ty(locals).map(|t| self.ty(t) as i64).unwrap_or(-1);
                format!("[\"bin\",\"{:?}\",{},{},{}]", op, self.operand(a), self.operand(b), t)
            }
            Rvalue::CheckedBinaryOp(op, a, b) => {
                let t = a.ty(locals).map(|t| self.ty(t) as i64).unwrap_or(-1);
                format!("[\"cbin\",\"{:?}\",{},{},{}]", op, self.operand(a), self.operand(b), t)
            }
            Rvalue::Cast(k, o, t) => {
                let st = o.ty(locals).map(|t| self.ty(t) as i64).unwrap_or(-1);
                let ks = match k { CastKind::PointerCoercion(c) => format!("PC:{:?}", c), k => format!("{:?}", k) };
                format!("[\"cast\",{},{},{},{}]", q(&ks), self.operand(o), self.ty(*t), st)
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"copy\",{}]]", self.place(p)),
            Rvalue::Discriminant(p) => {
                let t = p.ty(locals).map(|t| self.ty(t) as i64).unwrap_or(-1);
                format!("[\"discr\",{},{}]", self.place(p), t)
            }
            Rvalue::Len(p) => format!("[\"len\",{}]", self.place(p)),
            Rvalue::Ref(_, bk, p) => format!("[\"ref\",{},{}]", self.place(p), matches!(bk, BorrowKind::Mut { .. })),
            Rvalue::Repeat(o, n) => format!("[\"repeat\",{},{}]", self.operand(o), n.eval_target_usize().map(|x| x as i64).unwrap_or(-1)),
            Rvalue::ThreadLocalRef(_) => "[\"unsup\",\"tls\"]".into(),
            Rvalue::UnaryOp(op, o) => {
                let t = o.ty(locals).map(|t| self.ty(t) as i64).unwrap_or(-1);
                format!("[\"un\",\"{:?}\",{},{}]", op, self.operand(o), t)
            }
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.operand(o)),
            Rvalue::Reborrow(_, _, p) => format!("[\"ref\",{},true]", self.place(p)),
        }
    }

    fn body(&mut self, b: &Body) -> String {
        let locals = b.locals().to_vec();
        let ls: Vec<String> = locals.iter().map(|l| self.ty(l.ty).to_string()).collect();
        let mut bs = vec![];
        for bb in &b.blocks {
            let mut ss = vec![];
            for s in &bb.statements {
                match &s.kind {
                    StatementKind::Assign(p, r) => {
                        let r = self.rvalue(r, &locals);
                        ss.push(format!("[\"=\",{},{}]", self.place(p), r));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => ss.push(format!("[\"setd\",{},{}]", self.place(place), variant_index.to_index())),
                    StatementKind::Intrinsic(NonDivergingIntrinsic::Assume(o)) => { let o = self.operand(o); ss.push(format!("[\"assume\",{o}]")) }
                    StatementKind::Intrinsic(NonDivergingIntrinsic::CopyNonOverlapping(c)) => {
                        let (x, y, z) = (self.operand(&c.src), self.operand(&c.dst), self.operand(&c.count));
                        ss.push(format!("[\"cno\",{x},{y},{z}]"))
                    }
                    _ => {}
                }
            }
            let li = bb.terminator.source_info.span.get_lines();
            let file = bb.terminator.source_info.span.get_filename().to_string();
            let loc = format!("{}:{}", file, li.start_line);
            let t = match &bb.terminator.kind {
                TerminatorKind::Goto { target } => format!("[\"goto\",{target}]"),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let ty = discr.ty(&locals).map(|t| self.ty(t) as i64).unwrap_or(-1);
                    let br: Vec<String> = targets.branches().map(|(v, t)| format!("[\"{v}\",{t}]")).collect();
                    format!("[\"switch\",{},[{}],{},{}]", self.operand(discr), br.join(","), targets.otherwise(), ty)
                }
                TerminatorKind::Resume => "[\"resume\"]".into(),
                TerminatorKind::Abort => "[\"abort\"]".into(),
                TerminatorKind::Return => "[\"return\"]".into(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
                TerminatorKind::Drop { place, target, .. } => {
                    let pt = place.ty(&locals).ok();
                    let di = match pt { Some(t) => { let i = Instance::resolve_drop_in_place(t); if i.is_empty_shim() { "null".into() } else { self.inst(i).to_string() } } None => "null".into() };
                    format!("[\"drop\",{},{},{}]", self.place(place), target, di)
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let os: Vec<String> = args.iter().map(|o| self.operand(o)).collect();
                    let fty = func.ty(&locals).unwrap();
                    let (callee, cname) = match fty.kind() {
                        TyKind::RigidTy(RigidTy::FnDef(def, ga)) => match Instance::resolve(def, &ga) {
                            Ok(i) => (self.inst(i).to_string(), def.name().to_string()),
                            Err(_) => ("null".into(), def.name().to_string()),
                        },
                        _ => (format!("{{\"op\":{}}}", self.operand(func)), "indirect".to_string()),
                    };
                    format!("[\"call\",{},[{}],{},{},{}]", callee, os.join(","), self.place(destination), target.map(|x| x as i64).unwrap_or(-1), q(&cname))
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = match msg {
                        AssertMessage::BoundsCheck { .. } => "bounds".to_string(),
                        AssertMessage::Overflow(op, ..) => format!("overflow:{:?}", op),
                        AssertMessage::OverflowNeg(_) => "overflow:neg".into(),
                        AssertMessage::DivisionByZero(_) => "div0".into(),
                        AssertMessage::RemainderByZero(_) => "rem0".into(),
                        AssertMessage::MisalignedPointerDereference { .. } => "misaligned".into(),
                        AssertMessage::NullPointerDereference => "nullptr".into(),
                        _ => "other".into(),
                    };
                    format!("[\"assert\",{},{},{},{}]", self.operand(cond), expected, q(&m), target)
                }
                TerminatorKind::InlineAsm { destination, .. } => format!("[\"asm\",{}]", destination.map(|x| x as i64).unwrap_or(-1)),
            };
            bs.push(format!("{{\"s\":[{}],\"t\":{},\"l\":{}}}", ss.join(","), t, q(&loc)));
        }
        format!("{{\"locals\":[{}],\"argc\":{},\"spread\":{},\"blocks\":[{}]}}", ls.join(","), b.arg_locals().len(),
            b.spread_arg().map(|x| x as i64).unwrap_or(-1), bs.join(",\n"))
    }

    fn run(&mut self) {
        let mut k = 0;
        while k < self.inst_list.len() {
            let i = self.inst_list[k];
            let name = i.name().to_string();
            let kind = match i.kind {
                InstanceKind::Item => "item", InstanceKind::Intrinsic => "intrinsic", InstanceKind::LlvmIntrinsic => "llvm",
                InstanceKind::Virtual { .. } => "virtual", InstanceKind::Shim => "shim",
            };
            let stop = self.stop(&name);
            let body = if i.kind == (InstanceKind::Virtual { idx: 0 }) || kind == "intrinsic" || kind == "virtual" || stop { None } else { i.body() };
            let def = i.def.name().to_string();
            let defpath = i.def.trimmed_name().to_string();
            let krate = i.def.krate().name.to_string();
            let args: Vec<String> = i.args().0.iter().filter_map(|a| match a {
                GenericArgKind::Type(t) => Some(self.ty(*t).to_string()),
                GenericArgKind::Const(c) => c.eval_target_usize().ok().map(|v| format!("\"{v}\"")),
                _ => None,
            }).collect();
            let intr = i.intrinsic_name().map(|s| s.to_string());
            let bj = match &body { Some(b) => self.body(b), None => "null".into() };
            let loc = { let sp = i.def.span(); format!("{}:{}", sp.get_filename(), sp.get_lines().start_line) };
            let j = format!("{{\"name\":{},\"def\":{},\"tdef\":{},\"crate\":{},\"kind\":\"{}\",\"intr\":{},\"ga\":[{}],\"loc\":{},\"body\":{}}}",
                q(&name), q(&def), q(&defpath), q(&krate), kind, intr.map(|s| q(&s)).unwrap_or("null".into()), args.join(","), q(&loc), bj);
            self.inst_json.push(j);
            k += 1;
        }
    }

    // panic machinery, formatting and allocator internals are never looked into
    fn stop(&self, n: &str) -> bool {
        const P: &[&str] = &["core::panicking::", "std::panicking::", "std::rt::", "core::fmt::", "std::fmt::", "alloc::fmt::", "std::io::",
            "alloc::alloc::", "std::alloc::", "alloc::raw_vec::", "core::str::", "std::str::", "alloc::string::", "core::slice::index::slice_", "std::option::unwrap_failed", "std::option::expect_failed", "std::result::unwrap_failed"];
        P.iter().any(|p| n.starts_with(p)) || (n.starts_with('<') && (n.contains(" as std::fmt::") || n.contains(" as core::fmt::")))
    }
}

type AllocIdx = rustc_public::mir::alloc::AllocId;

fn cb() -> ControlFlow<()> {
    let want = std::env::var("MIRDUMP_CRATE").unwrap_or_default();
    let me = rustc_public::local_crate();
    if me.name != want { return ControlFlow::Continue(()); }
    let mut d = Dump { tys: HashMap::new(), ty_json: vec![], insts: HashMap::new(), inst_list: vec![], inst_json: vec![] };
    let mut roots: Vec<(String, usize)> = vec![];
    let mut crates = vec![me];
    for n in std::env::var("MIRDUMP_ROOT_CRATES").unwrap_or_default().split(',') {
        if n.is_empty() { continue; }
        crates.extend(rustc_public::find_crates(n));
    }
    for c in crates {
        for f in c.fn_defs() {
            if let Ok(i) = Instance::try_from(CrateItem::try_from_def(f)) {
                if i.has_body() { let k = d.inst(i); roots.push((i.name().to_string(), k)); }
            }
        }
    }
    d.run();
    let out = std::env::var("MIRDUMP_OUT").expect("MIRDUMP_OUT");
    let mut s = String::from("{\"roots\":[");
    s.push_str(&roots.iter().map(|(n, k)| format!("[{},{}]", q(n), k)).collect::<Vec<_>>().join(",\n"));
    s.push_str("],\n\"tys\":[");
    s.push_str(&d.ty_json.iter().map(|t| t.clone().unwrap_or("null".into())).collect::<Vec<_>>().join(",\n"));
    s.push_str("],\n\"insts\":[");
    s.push_str(&d.inst_json.join(",\n"));
    s.push_str("]}\n");
    std::fs::write(out, s).unwrap();
    ControlFlow::Continue(())
}

trait TryFromDef { fn try_from_def(f: FnDef) -> CrateItem; }
impl TryFromDef for CrateItem { fn try_from_def(f: FnDef) -> CrateItem { CrateItem(f.def_id()) } }

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // used as RUSTC_WORKSPACE_WRAPPER / RUSTC_WRAPPER: argv[1] is the real rustc
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) { args.remove(0); }
    let r = rustc_public::run!(&args, cb);
    match r {
        Ok(_) => {}
        Err(rustc_public::CompilerError::Skipped) => {}
        Err(e) => { eprintln!("mirdump: {:?}", e); std::process::exit(1) }
    }
}

fn scalar_size(s: &rustc_public::abi::Scalar) -> usize {
    use rustc_public::abi::{Primitive, Scalar};
    let p = match s { Scalar::Initialized { value, .. } => value, Scalar::Union { value } => value };
    match p {
        Primitive::Int { length, .. } => length.bits() / 8,
        _ => 8,
    }
}
