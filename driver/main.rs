//! MIR extractor: compiles the analysis harness with the nightly compiler front end and
//! writes, as JSON, the monomorphised MIR of every function instance reachable from the
//! harness entry points, with types, evaluated constants and source spans.
//!
//! Nothing of the analysed program is executed: the compiler is stopped after analysis.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public;
extern crate rustc_public_bridge;
extern crate rustc_span;

use rustc_public::abi::{FieldsShape, Primitive, Scalar, TagEncoding, VariantsShape};
use rustc_public::crate_def::{CrateDef, CrateDefType};
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public_bridge::IndexedVal;
use std::collections::{HashMap, VecDeque};
use std::fmt::Write as _;
use std::ops::ControlFlow;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn list(v: impl IntoIterator<Item = String>) -> String {
    let mut o = String::from("[");
    for (i, x) in v.into_iter().enumerate() {
        if i > 0 {
            o.push(',');
        }
        o.push_str(&x);
    }
    o.push(']');
    o
}

struct Cx {
    opaque: Vec<String>,
    enter: Vec<String>,
    shims: Vec<Shim>,
    types: HashMap<Ty, usize>,
    type_json: Vec<Option<String>>,
    type_queue: VecDeque<Ty>,
    insts: HashMap<Instance, usize>,
    inst_list: Vec<Instance>,
    inst_json: Vec<Option<String>>,
    inst_queue: VecDeque<Instance>,
    statics: HashMap<String, String>,
    files: HashMap<String, usize>,
    file_list: Vec<String>,
    spans: HashMap<Span, String>,
}

impl Cx {
    fn ty(&mut self, t: Ty) -> usize {
        if let Some(i) = self.types.get(&t) {
            return *i;
        }
        let i = self.types.len();
        self.types.insert(t, i);
        self.type_json.push(None);
        self.type_queue.push_back(t);
        i
    }
    fn inst(&mut self, t: Instance) -> usize {
        if let Some(i) = self.insts.get(&t) {
            return *i;
        }
        let i = self.insts.len();
        self.insts.insert(t, i);
        self.inst_list.push(t);
        self.inst_json.push(None);
        self.inst_queue.push_back(t);
        i
    }
    fn span(&mut self, s: Span) -> String {
        if let Some(x) = self.spans.get(&s) {
            return x.clone();
        }
        let f = s.get_filename();
        let l = s.get_lines().start_line;
        let n = self.files.len();
        let fi = *self.files.entry(f.clone()).or_insert(n);
        if fi == n {
            self.file_list.push(f);
        }
        let r = format!("[{},{}]", fi, l);
        self.spans.insert(s, r.clone());
        r
    }
    fn args(&mut self, a: &GenericArgs) -> String {
        let mut v = vec![];
        for g in &a.0 {
            match g {
                GenericArgKind::Lifetime(_) => {}
                GenericArgKind::Type(t) => v.push(self.ty(*t).to_string()),
                GenericArgKind::Const(c) => v.push(match c.eval_target_usize() {
                    Ok(n) => format!("{{\"c\":{}}}", n),
                    Err(_) => format!("{{\"cs\":{}}}", esc(&format!("{:?}", c.kind()))),
                }),
            }
        }
        list(v)
    }

    fn type_body(&mut self, t: Ty) -> String {
        let size = t.layout().ok().map(|l| l.shape().size.bytes());
        let sz = match size {
            Some(s) => s.to_string(),
            None => "null".into(),
        };
        let rk = match t.kind() {
            TyKind::RigidTy(r) => r,
            other => return format!("{{\"k\":\"other\",\"s\":{}}}", esc(&format!("{:?}", other))),
        };
        match rk {
            RigidTy::Bool => "{\"k\":\"bool\",\"size\":1}".into(),
            RigidTy::Char => "{\"k\":\"int\",\"n\":\"char\",\"size\":4,\"sg\":false}".into(),
            RigidTy::Int(i) => format!(
                "{{\"k\":\"int\",\"n\":\"{}\",\"size\":{},\"sg\":true}}",
                format!("{:?}", i).to_lowercase(),
                sz
            ),
            RigidTy::Uint(i) => format!(
                "{{\"k\":\"int\",\"n\":\"{}\",\"size\":{},\"sg\":false}}",
                format!("{:?}", i).to_lowercase(),
                sz
            ),
            RigidTy::Adt(def, args) => {
                let kind = match def.kind() {
                    AdtKind::Enum => "enum",
                    AdtKind::Struct => "struct",
                    AdtKind::Union => "union",
                };
                let mut vs = vec![];
                for v in def.variants() {
                    let mut fs = vec![];
                    for f in v.fields() {
                        let ft = f.ty_with_args(&args);
                        let ti = self.ty(ft);
                        fs.push(format!("[{},{}]", esc(&f.name), ti));
                    }
                    let d = if matches!(def.kind(), AdtKind::Enum) {
                        let d = def.discriminant_for_variant(v.idx());
                        d.val.to_string()
                    } else {
                        "0".into()
                    };
                    vs.push(format!(
                        "{{\"n\":{},\"d\":{},\"f\":{}}}",
                        esc(&v.name()),
                        d,
                        list(fs)
                    ));
                }
                let a = self.args(&args);
                format!(
                    "{{\"k\":\"adt\",\"p\":{},\"a\":{},\"ak\":\"{}\",\"v\":{},\"size\":{},\"cr\":{}}}",
                    esc(&def.name()),
                    a,
                    kind,
                    list(vs),
                    sz,
                    esc(&def.krate().name)
                )
            }
            RigidTy::Str => "{\"k\":\"str\"}".into(),
            RigidTy::Array(e, n) => {
                let ei = self.ty(e);
                let n = n.eval_target_usize().map(|x| x.to_string()).unwrap_or("null".into());
                format!("{{\"k\":\"array\",\"e\":{},\"n\":{},\"size\":{}}}", ei, n, sz)
            }
            RigidTy::Slice(e) => {
                let ei = self.ty(e);
                format!("{{\"k\":\"slice\",\"e\":{}}}", ei)
            }
            RigidTy::RawPtr(e, m) => {
                let ei = self.ty(e);
                format!(
                    "{{\"k\":\"ptr\",\"to\":{},\"m\":{},\"size\":{}}}",
                    ei,
                    m == Mutability::Mut,
                    sz
                )
            }
            RigidTy::Ref(_, e, m) => {
                let ei = self.ty(e);
                format!(
                    "{{\"k\":\"ref\",\"to\":{},\"m\":{},\"size\":{}}}",
                    ei,
                    m == Mutability::Mut,
                    sz
                )
            }
            RigidTy::FnDef(def, args) => {
                let i = resolve(def, &args, &self.shims).map(|i| self.inst(i));
                let a = self.args(&args);
                format!(
                    "{{\"k\":\"fndef\",\"p\":{},\"a\":{},\"i\":{},\"size\":0}}",
                    esc(&def.name()),
                    a,
                    i.map(|x| x.to_string()).unwrap_or("null".into())
                )
            }
            RigidTy::FnPtr(_) => "{\"k\":\"fnptr\",\"size\":8}".into(),
            RigidTy::Closure(def, args) => {
                // upvar types are the last generic argument (a tuple)
                let mut ups = vec![];
                if let Some(GenericArgKind::Type(t)) = args.0.last() {
                    if let TyKind::RigidTy(RigidTy::Tuple(ts)) = t.kind() {
                        for u in ts {
                            ups.push(self.ty(u).to_string());
                        }
                    }
                }
                format!(
                    "{{\"k\":\"closure\",\"p\":{},\"f\":{},\"size\":{}}}",
                    esc(&def.name()),
                    list(ups),
                    sz
                )
            }
            RigidTy::Never => "{\"k\":\"never\",\"size\":0}".into(),
            RigidTy::Tuple(ts) => {
                let v: Vec<String> = ts.iter().map(|t| self.ty(*t).to_string()).collect();
                format!("{{\"k\":\"tuple\",\"f\":{},\"size\":{}}}", list(v), sz)
            }
            RigidTy::Dynamic(..) => "{\"k\":\"dyn\"}".into(),
            other => format!("{{\"k\":\"other\",\"s\":{},\"size\":{}}}", esc(&format!("{:?}", other)), sz),
        }
    }

    fn bytes_uint(a: &Allocation, off: usize, n: usize) -> Option<u128> {
        let mut v: u128 = 0;
        for k in 0..n {
            let b = (*a.bytes.get(off + k)?)?;
            v |= (b as u128) << (8 * k);
        }
        Some(v)
    }

    fn prov_at(a: &Allocation, off: usize) -> Option<GlobalAlloc> {
        for (o, p) in &a.provenance.ptrs {
            if *o == off {
                return Some(GlobalAlloc::from(p.0));
            }
        }
        None
    }

    fn decode(&mut self, t: Ty, a: &Allocation, off: usize, depth: usize) -> String {
        let unk = "{\"u\":1}".to_string();
        if depth > 12 {
            return unk;
        }
        let Ok(layout) = t.layout() else { return unk };
        let shape = layout.shape();
        let size = shape.size.bytes();
        let TyKind::RigidTy(rk) = t.kind() else { return unk };
        match rk {
            RigidTy::Bool | RigidTy::Uint(_) | RigidTy::Char => match Self::bytes_uint(a, off, size) {
                Some(v) => format!("{{\"i\":{}}}", v),
                None => unk,
            },
            RigidTy::Int(_) => match Self::bytes_uint(a, off, size) {
                Some(v) => {
                    let sh = 128 - 8 * size as u32;
                    format!("{{\"i\":{}}}", ((v << sh) as i128) >> sh)
                }
                None => unk,
            },
            RigidTy::Ref(_, to, _) | RigidTy::RawPtr(to, _) => {
                let Some(g) = Self::prov_at(a, off) else {
                    return match Self::bytes_uint(a, off, 8.min(size)) {
                        Some(v) => format!("{{\"addr\":{}}}", v),
                        None => unk,
                    };
                };
                let inner = Self::bytes_uint(a, off, 8.min(size)).unwrap_or(0) as usize;
                match g {
                    GlobalAlloc::Memory(m) => match to.kind() {
                        TyKind::RigidTy(RigidTy::Str) => {
                            let n = Self::bytes_uint(a, off + 8, 8).unwrap_or(0) as usize;
                            let mut bs = vec![];
                            for k in 0..n {
                                bs.push(m.bytes.get(inner + k).copied().flatten().unwrap_or(b'?'));
                            }
                            format!("{{\"ref\":{{\"str\":{}}}}}", esc(&String::from_utf8_lossy(&bs)))
                        }
                        TyKind::RigidTy(RigidTy::Slice(e)) => {
                            let n = Self::bytes_uint(a, off + 8, 8).unwrap_or(0) as usize;
                            let es = e.layout().map(|l| l.shape().size.bytes()).unwrap_or(0);
                            let mut v = vec![];
                            for k in 0..n.min(64) {
                                v.push(self.decode(e, &m, inner + k * es, depth + 1));
                            }
                            format!("{{\"ref\":{{\"a\":{}}}}}", list(v))
                        }
                        TyKind::RigidTy(RigidTy::Dynamic(..)) => unk,
                        _ => format!("{{\"ref\":{}}}", self.decode(to, &m, inner, depth + 1)),
                    },
                    GlobalAlloc::Static(d) => {
                        let nm = d.name();
                        format!("{{\"static\":{}}}", esc(&nm))
                    }
                    GlobalAlloc::Function(i) => {
                        let i = self.inst(i);
                        format!("{{\"fn\":{}}}", i)
                    }
                    _ => unk,
                }
            }
            RigidTy::FnPtr(_) => match Self::prov_at(a, off) {
                Some(GlobalAlloc::Function(i)) => {
                    let i = self.inst(i);
                    format!("{{\"fn\":{}}}", i)
                }
                _ => unk,
            },
            RigidTy::Array(e, n) => {
                let n = n.eval_target_usize().unwrap_or(0) as usize;
                let es = e.layout().map(|l| l.shape().size.bytes()).unwrap_or(0);
                if n > 256 {
                    return unk;
                }
                let v: Vec<String> =
                    (0..n).map(|k| self.decode(e, a, off + k * es, depth + 1)).collect();
                format!("{{\"a\":{}}}", list(v))
            }
            RigidTy::Tuple(ts) => {
                let FieldsShape::Arbitrary { offsets } = &shape.fields else {
                    return if ts.is_empty() { "{\"a\":[]}".into() } else { unk };
                };
                let v: Vec<String> = ts
                    .iter()
                    .enumerate()
                    .map(|(k, ft)| self.decode(*ft, a, off + offsets[k].bytes(), depth + 1))
                    .collect();
                format!("{{\"a\":{}}}", list(v))
            }
            RigidTy::Adt(def, args) => {
                if matches!(def.kind(), AdtKind::Union) {
                    return unk;
                }
                let variants = def.variants();
                let (vi, offs): (usize, Vec<usize>) = match &shape.variants {
                    VariantsShape::Empty => return unk,
                    VariantsShape::Single { index } => {
                        let offs = match &shape.fields {
                            FieldsShape::Arbitrary { offsets } => {
                                offsets.iter().map(|o| o.bytes()).collect()
                            }
                            _ => vec![],
                        };
                        (index.to_index(), offs)
                    }
                    VariantsShape::Multiple { tag, tag_encoding, tag_field, variants: vs } => {
                        let FieldsShape::Arbitrary { offsets } = &shape.fields else { return unk };
                        let toff = off + offsets[*tag_field].bytes();
                        let prim = match tag {
                            Scalar::Initialized { value, .. } => value,
                            Scalar::Union { value } => value,
                        };
                        let is_ptr = matches!(prim, Primitive::Pointer(_));
                        let n = prim
                            .size(&rustc_public::target::MachineInfo::target())
                            .bytes();
                        let has_prov = Self::prov_at(a, toff).is_some();
                        let raw = Self::bytes_uint(a, toff, n);
                        let vi = match tag_encoding {
                            TagEncoding::Direct => {
                                let Some(raw) = raw else { return unk };
                                let mask = if n >= 16 { u128::MAX } else { (1u128 << (8 * n)) - 1 };
                                let mut r = None;
                                for (k, v) in variants.iter().enumerate() {
                                    if def.discriminant_for_variant(v.idx()).val & mask == raw & mask {
                                        r = Some(k);
                                    }
                                }
                                match r {
                                    Some(k) => k,
                                    None => return unk,
                                }
                            }
                            TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                if is_ptr && has_prov {
                                    untagged_variant.to_index()
                                } else {
                                    let Some(raw) = raw else { return unk };
                                    let mask = if n >= 16 { u128::MAX } else { (1u128 << (8 * n)) - 1 };
                                    let rel = raw.wrapping_sub(*niche_start) & mask;
                                    let lo = niche_variants.start().to_index() as u128;
                                    let hi = niche_variants.end().to_index() as u128;
                                    if rel <= hi - lo {
                                        (lo + rel) as usize
                                    } else {
                                        untagged_variant.to_index()
                                    }
                                }
                            }
                        };
                        (vi, vs[vi].offsets.iter().map(|o| o.bytes()).collect())
                    }
                };
                let fields = variants[vi].fields();
                let mut v = vec![];
                for (k, f) in fields.iter().enumerate() {
                    let ft = f.ty_with_args(&args);
                    let o = offs.get(k).copied().unwrap_or(0);
                    v.push(self.decode(ft, a, off + o, depth + 1));
                }
                format!("{{\"a\":{},\"v\":{}}}", list(v), vi)
            }
            RigidTy::FnDef(..) | RigidTy::Closure(..) | RigidTy::Never => {
                if size == 0 {
                    "{\"a\":[]}".into()
                } else {
                    unk
                }
            }
            RigidTy::Pat(inner, _) => self.decode(inner, a, off, depth + 1),
            _ => unk,
        }
    }

    fn place(&mut self, p: &Place) -> String {
        let mut v = vec![];
        for e in &p.projection {
            v.push(match e {
                ProjectionElem::Deref => "\"*\"".to_string(),
                ProjectionElem::Field(i, t) => {
                    let t = self.ty(*t);
                    format!("[\"f\",{},{}]", i, t)
                }
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    format!("[\"ci\",{},{}]", offset, from_end)
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    format!("[\"ss\",{},{},{}]", from, to, from_end)
                }
                ProjectionElem::Downcast(i) => format!("[\"d\",{}]", i.to_index()),
                ProjectionElem::OpaqueCast(t) => {
                    let t = self.ty(*t);
                    format!("[\"oc\",{}]", t)
                }
            });
        }
        format!("[{},{}]", p.local, list(v))
    }

    fn constant(&mut self, c: &MirConst) -> String {
        let t = c.ty();
        let ti = self.ty(t);
        let v = match c.kind() {
            ConstantKind::ZeroSized => "{\"z\":1}".to_string(),
            ConstantKind::Allocated(a) => {
                let a = a.clone();
                self.decode(t, &a, 0, 0)
            }
            ConstantKind::Ty(tc) => match tc.kind() {
                TyConstKind::Value(_, a) => {
                    let a = a.clone();
                    self.decode(t, &a, 0, 0)
                }
                TyConstKind::ZSTValue(_) => "{\"z\":1}".to_string(),
                _ => "{\"u\":1}".to_string(),
            },
            _ => "{\"u\":1}".to_string(),
        };
        format!("[\"k\",{},{}]", ti, v)
    }

    fn operand(&mut self, o: &Operand) -> String {
        match o {
            Operand::Copy(p) => format!("[\"c\",{}]", self.place(p)),
            Operand::Move(p) => format!("[\"m\",{}]", self.place(p)),
            Operand::Constant(c) => self.constant(&c.const_),
            Operand::RuntimeChecks(_) => {
                let t = self.ty(Ty::bool_ty());
                format!("[\"k\",{},{{\"i\":0}}]", t)
            }
        }
    }

    fn rvalue(&mut self, r: &Rvalue) -> String {
        match r {
            Rvalue::AddressOf(_, p) => format!("[\"addr\",{}]", self.place(p)),
            Rvalue::Ref(_, k, p) => {
                let m = matches!(k, BorrowKind::Mut { .. });
                format!("[\"ref\",{},{}]", self.place(p), m)
            }
            Rvalue::Aggregate(k, ops) => {
                let os: Vec<String> = ops.iter().map(|o| self.operand(o)).collect();
                let (kk, extra) = match k {
                    AggregateKind::Array(_) => ("array", "null".to_string()),
                    AggregateKind::Tuple => ("tuple", "null".to_string()),
                    AggregateKind::Adt(d, v, _, _, f) => match f {
                        Some(f) => ("union", format!("[{},{}]", v.to_index(), f)),
                        None => ("adt", format!("[{},{}]", v.to_index(), matches!(d.kind(), AdtKind::Enum))),
                    },
                    AggregateKind::Closure(..) => ("closure", "null".to_string()),
                    AggregateKind::RawPtr(..) => ("rawptr", "null".to_string()),
                    _ => ("other", "null".to_string()),
                };
                format!("[\"agg\",\"{}\",{},{}]", kk, extra, list(os))
            }
            Rvalue::BinaryOp(op, a, b) => {
                format!("[\"bin\",\"{:?}\",{},{}]", op, self.operand(a), self.operand(b))
            }
            Rvalue::CheckedBinaryOp(op, a, b) => {
                format!("[\"cbin\",\"{:?}\",{},{}]", op, self.operand(a), self.operand(b))
            }
            Rvalue::Cast(k, o, t) => {
                let t = self.ty(*t);
                format!("[\"cast\",{},{},{}]", esc(&format!("{:?}", k)), self.operand(o), t)
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"c\",{}]]", self.place(p)),
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(p)),
            Rvalue::Len(p) => format!("[\"len\",{}]", self.place(p)),
            Rvalue::Repeat(o, n) => {
                let n = n.eval_target_usize().map(|x| x.to_string()).unwrap_or("null".into());
                format!("[\"rep\",{},{}]", self.operand(o), n)
            }
            Rvalue::ThreadLocalRef(_) => "[\"tls\"]".into(),
            Rvalue::UnaryOp(op, o) => format!("[\"un\",\"{:?}\",{}]", op, self.operand(o)),
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.operand(o)),
            Rvalue::Reborrow(_, _, p) => format!("[\"use\",[\"c\",{}]]", self.place(p)),
        }
    }

    fn unwind(u: &UnwindAction) -> String {
        match u {
            UnwindAction::Cleanup(b) => b.to_string(),
            _ => "null".into(),
        }
    }

    fn body(&mut self, b: &Body) -> String {
        let locals: Vec<String> = b.locals().iter().map(|l| self.ty(l.ty).to_string()).collect();
        let mut names = vec![];
        for d in &b.var_debug_info {
            if let Some(l) = d.local() {
                names.push(format!("[{},{}]", l, esc(&d.name)));
            }
        }
        let mut blocks = vec![];
        for bb in &b.blocks {
            let mut ss = vec![];
            for s in &bb.statements {
                let j = match &s.kind {
                    StatementKind::Assign(p, r) => {
                        let sp = self.span(s.source_info.span);
                        format!("[\"=\",{},{},{}]", self.place(p), self.rvalue(r), sp)
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        format!("[\"sd\",{},{}]", self.place(place), variant_index.to_index())
                    }
                    StatementKind::StorageDead(l) => format!("[\"dead\",{}]", l),
                    StatementKind::StorageLive(l) => format!("[\"live\",{}]", l),
                    StatementKind::Intrinsic(NonDivergingIntrinsic::CopyNonOverlapping(c)) => {
                        format!(
                            "[\"cpy\",{},{},{}]",
                            self.operand(&c.src),
                            self.operand(&c.dst),
                            self.operand(&c.count)
                        )
                    }
                    _ => continue,
                };
                ss.push(j);
            }
            let sp = self.span(bb.terminator.source_info.span);
            let t = match &bb.terminator.kind {
                TerminatorKind::Goto { target } => format!("[\"goto\",{}]", target),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let br: Vec<String> =
                        targets.branches().map(|(v, t)| format!("[{},{}]", v, t)).collect();
                    let o = self.operand(discr);
                    format!("[\"sw\",{},{},{}]", o, list(br), targets.otherwise())
                }
                TerminatorKind::Resume => "[\"resume\"]".into(),
                TerminatorKind::Abort => "[\"abort\"]".into(),
                TerminatorKind::Return => "[\"ret\"]".into(),
                TerminatorKind::Unreachable => "[\"unr\"]".into(),
                TerminatorKind::Drop { place, target, unwind } => {
                    let t = place.ty(b.locals()).ok();
                    let i = t.map(|t| {
                        let i = Instance::resolve_drop_in_place(t);
                        let ti = self.ty(t);
                        if i.is_empty_shim() {
                            format!("null,{}", ti)
                        } else {
                            format!("{},{}", self.inst(i), ti)
                        }
                    });
                    format!(
                        "[\"drop\",{},{},{},{}]",
                        self.place(place),
                        i.unwrap_or("null,null".into()),
                        target,
                        Self::unwind(unwind)
                    )
                }
                TerminatorKind::Call { func, args, destination, target, unwind } => {
                    let ft = func.ty(b.locals()).ok();
                    let mut callee = "null".to_string();
                    let mut indirect = "null".to_string();
                    if let Some(ft) = ft {
                        if let TyKind::RigidTy(RigidTy::FnDef(def, ga)) = ft.kind() {
                            if let Some(i) = resolve(def, &ga, &self.shims) {
                                callee = self.inst(i).to_string();
                            } else {
                                indirect = esc(&def.name());
                            }
                        } else {
                            indirect = self.operand(func);
                        }
                    }
                    let a: Vec<String> = args.iter().map(|o| self.operand(o)).collect();
                    format!(
                        "[\"call\",{},{},{},{},{},{}]",
                        callee,
                        list(a),
                        self.place(destination),
                        target.map(|t| t.to_string()).unwrap_or("null".into()),
                        Self::unwind(unwind),
                        indirect
                    )
                }
                TerminatorKind::Assert { cond, expected, msg, target, unwind } => {
                    let kind = match msg {
                        AssertMessage::BoundsCheck { .. } => "bounds",
                        AssertMessage::Overflow(..) => "overflow",
                        AssertMessage::OverflowNeg(..) => "overflow",
                        AssertMessage::DivisionByZero(..) => "div0",
                        AssertMessage::RemainderByZero(..) => "rem0",
                        AssertMessage::MisalignedPointerDereference { .. } => "misaligned",
                        AssertMessage::NullPointerDereference => "nullptr",
                        AssertMessage::NullReferenceConstructed => "nullref",
                        _ => "other",
                    };
                    format!(
                        "[\"assert\",{},{},{},{},\"{}\"]",
                        self.operand(cond),
                        expected,
                        target,
                        Self::unwind(unwind),
                        kind
                    )
                }
                TerminatorKind::InlineAsm { .. } => "[\"asm\"]".into(),
            };
            blocks.push(format!("[{},{},{}]", list(ss), t, sp));
        }
        let sp = self.span(b.span);
        format!(
            "{{\"n\":{},\"l\":{},\"names\":{},\"spread\":{},\"b\":{},\"sp\":{}}}",
            b.arg_locals().len(),
            list(locals),
            list(names),
            b.spread_arg().map(|x| x.to_string()).unwrap_or("null".into()),
            list(blocks),
            sp
        )
    }

    fn instance(&mut self, i: Instance) -> String {
        let name = i.def.name();
        let krate = i.def.krate().name;
        let full = i.name();
        let kind = match i.kind {
            InstanceKind::Item => "item",
            InstanceKind::Intrinsic => "intrinsic",
            InstanceKind::LlvmIntrinsic => "llvm",
            InstanceKind::Virtual { .. } => "virtual",
            InstanceKind::Shim => "shim",
        };
        let args = i.args();
        let a = self.args(&args);
        let intr = i.intrinsic_name().map(|s| esc(&s)).unwrap_or("null".into());
        let foreign = i.is_foreign_item();
        let opaque = self.opaque.iter().any(|p| name.starts_with(p.as_str()) || full.starts_with(p.as_str()));
        let entered = self.enter.iter().any(|c| *c == krate)
            || self.opaque.iter().any(|p| p.strip_prefix('+').map_or(false, |p| name.starts_with(p)));
        let mut body = "null".to_string();
        if !opaque && !foreign && matches!(i.kind, InstanceKind::Item | InstanceKind::Shim) && entered {
            if let Some(b) = i.body() {
                body = self.body(&b);
            }
        }
        let sp = self.span(i.def.span());
        format!(
            "{{\"d\":{},\"n\":{},\"cr\":{},\"k\":\"{}\",\"a\":{},\"intr\":{},\"foreign\":{},\"body\":{},\"sp\":{}}}",
            esc(&name),
            esc(&full),
            esc(&krate),
            kind,
            a,
            intr,
            foreign,
            body,
            sp
        )
    }
}

/// Resolves a call.  Iterator adapters override `fold`, `count`, `try_fold` and friends with
/// specialised bodies over raw pointers; every one of them is required to agree with the
/// trait's default body, which only uses `next`.  Using the default body reduces all internal
/// iteration to `next`.  Functions listed in the shims file are replaced by a function of the
/// harness that does the same through simpler calls.
fn resolve(def: FnDef, args: &GenericArgs, shims: &[Shim]) -> Option<Instance> {
    let name = def.name();
    if let Some(i) = shimmed(&name, args, shims) {
        return Some(i);
    }
    if let Some(m) = name.strip_prefix("std::iter::Iterator::") {
        if m != "next" && m != "size_hint" && !m.starts_with("__") && def.has_body() {
            let inst = rustc_middle::ty::tls::with(|tcx| {
                let did = rustc_public::rustc_internal::internal(tcx, def.def_id());
                let a = rustc_public::rustc_internal::internal(tcx, args.clone());
                let a = tcx.normalize_erasing_regions(
                    rustc_middle::ty::TypingEnv::fully_monomorphized(),
                    rustc_middle::ty::Unnormalized::new_wip(a),
                );
                rustc_public::rustc_internal::stable(rustc_middle::ty::Instance::new_raw(did, a))
            });
            return Some(inst);
        }
    }
    let i = Instance::resolve(def, args).ok()?;
    if matches!(i.kind, InstanceKind::Item) {
        if let Some(s) = shimmed(&i.def.name(), &i.args(), shims) {
            return Some(s);
        }
    }
    Some(i)
}

/// A library function, the harness function that stands for it, and which of its generic
/// arguments that function takes.
struct Shim {
    name: String,
    with: FnDef,
    args: Vec<usize>,
}

fn shimmed(name: &str, args: &GenericArgs, shims: &[Shim]) -> Option<Instance> {
    let s = shims.iter().find(|s| s.name == name)?;
    let a: Vec<_> = args
        .0
        .iter()
        .filter(|a| !matches!(a, GenericArgKind::Lifetime(_)))
        .cloned()
        .collect();
    let a: Vec<_> = s.args.iter().map(|i| a.get(*i).cloned()).collect::<Option<_>>()?;
    Instance::resolve(s.with, &GenericArgs(a)).ok()
}

fn shims(path: &str) -> Vec<Shim> {
    let mut out = vec![];
    for l in lines(path) {
        let (name, r) = l.split_once(" = ").unwrap();
        let mut it = r.split(' ');
        let with = format!("vharness::shim::{}", it.next().unwrap());
        let args = it.map(|x| x.parse().unwrap()).collect();
        for f in rustc_public::local_crate().fn_defs() {
            if f.name() == with {
                if let TyKind::RigidTy(RigidTy::FnDef(def, _)) = f.ty().kind() {
                    out.push(Shim { name: name.trim().to_string(), with: def, args });
                    break;
                }
            }
        }
        assert!(out.last().map_or(false, |s| s.name == name.trim()), "no {} for {}", with, name);
    }
    out
}

fn lines(path: &str) -> Vec<String> {
    std::fs::read_to_string(path)
        .unwrap()
        .lines()
        .map(|l| l.trim().to_string())
        .filter(|l| !l.is_empty() && !l.starts_with('#'))
        .collect()
}

fn dump(out: String) -> ControlFlow<(), ()> {
    let mut cx = Cx {
        opaque: lines(&std::env::var("MIRX_OPAQUE").unwrap()),
        enter: std::env::var("MIRX_ENTER").unwrap().split(',').map(|s| s.to_string()).collect(),
        shims: shims(&std::env::var("MIRX_SHIMS").unwrap()),
        types: HashMap::new(),
        type_json: vec![],
        type_queue: VecDeque::new(),
        insts: HashMap::new(),
        inst_list: vec![],
        inst_json: vec![],
        inst_queue: VecDeque::new(),
        statics: HashMap::new(),
        files: HashMap::new(),
        file_list: vec![],
        spans: HashMap::new(),
    };
    let mut roots = vec![];
    for f in rustc_public::local_crate().fn_defs() {
        if let TyKind::RigidTy(RigidTy::FnDef(def, args)) = f.ty().kind() {
            if args.0.iter().any(|a| !matches!(a, GenericArgKind::Lifetime(_))) {
                continue;
            }
            if let Ok(i) = Instance::resolve(def, &GenericArgs(vec![])) {
                let id = cx.inst(i);
                roots.push(format!("{}:{}", esc(&def.name()), id));
            }
        }
    }
    // every function of the analysed crate, so inventories can be taken over all of it
    let mut fns = vec![];
    for k in rustc_public::external_crates() {
        if k.name == "polling" {
            for f in k.fn_defs() {
                let sp = cx.span(f.span());
                fns.push(format!("[{},{}]", esc(&f.name()), sp));
                if let TyKind::RigidTy(RigidTy::FnDef(def, args)) = f.ty().kind() {
                    if args.0.iter().all(|a| matches!(a, GenericArgKind::Lifetime(_))) {
                        if let Ok(i) = Instance::resolve(def, &args) {
                            cx.inst(i);
                        }
                    }
                }
            }
        }
    }
    loop {
        if let Some(i) = cx.inst_queue.pop_front() {
            let id = cx.insts[&i];
            let j = cx.instance(i);
            cx.inst_json[id] = Some(j);
        } else if let Some(t) = cx.type_queue.pop_front() {
            let id = cx.types[&t];
            let j = cx.type_body(t);
            cx.type_json[id] = Some(j);
        } else {
            break;
        }
    }
    let mut o = String::new();
    o.push_str("{\"roots\":{");
    o.push_str(&roots.join(","));
    o.push_str("},\"fns\":");
    o.push_str(&list(fns));
    o.push_str(",\"files\":");
    o.push_str(&list(cx.file_list.iter().map(|f| esc(f)).collect::<Vec<_>>()));
    o.push_str(",\"types\":");
    o.push_str(&list(cx.type_json.into_iter().map(|x| x.unwrap())));
    o.push_str(",\"insts\":");
    o.push_str(&list(cx.inst_json.into_iter().map(|x| x.unwrap())));
    o.push('}');
    let _ = cx.statics;
    std::fs::write(out, o).unwrap();
    ControlFlow::Continue(())
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let out = std::env::var("MIRX_OUT").unwrap();
    let r = rustc_public::run!(&args, || dump(out));
    if r.is_err() {
        eprintln!("mirx: compilation failed");
        std::process::exit(1);
    }
}
