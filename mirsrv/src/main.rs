// mirsrv: a rustc driver that serves monomorphised MIR of the crate graph being
// compiled, on demand, as JSON lines over stdin/stdout.  It drops nothing of the
// function bodies except debug scopes, spans of statements, and unwind edges.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_public;
extern crate rustc_public_bridge;

use rustc_public::abi::{FieldsShape, TagEncoding, VariantsShape};
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::{find_crates, CrateDef, CrateDefType};
use rustc_public_bridge::IndexedVal;
use std::collections::HashMap;
use std::fmt::Write as _;
use std::io::{BufRead, Write};
use std::ops::ControlFlow;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn list(v: impl IntoIterator<Item = String>) -> String {
    let v: Vec<String> = v.into_iter().collect();
    format!("[{}]", v.join(","))
}

#[derive(Default)]
struct Srv {
    tys: Vec<Ty>,
    tyid: HashMap<Ty, usize>,
    insts: Vec<Instance>,
    instid: HashMap<Instance, usize>,
}

impl Srv {
    fn ty(&mut self, t: Ty) -> usize {
        if let Some(i) = self.tyid.get(&t) { return *i; }
        let i = self.tys.len();
        self.tys.push(t);
        self.tyid.insert(t, i);
        i
    }
    fn inst(&mut self, t: Instance) -> usize {
        if let Some(i) = self.instid.get(&t) { return *i; }
        let i = self.insts.len();
        self.insts.push(t);
        self.instid.insert(t, i);
        i
    }
    fn gargs(&mut self, a: &GenericArgs) -> String {
        let mut v = vec![];
        for g in &a.0 {
            match g {
                GenericArgKind::Type(t) => v.push(self.ty(*t).to_string()),
                GenericArgKind::Const(c) => v.push(match c.eval_target_usize() { Ok(n) => format!("{{\"c\":{n}}}"), _ => "null".into() }),
                _ => {}
            }
        }
        list(v)
    }
    fn ty_json(&mut self, id: usize) -> String {
        let t = self.tys[id];
        let k = t.kind();
        let s = esc(&format!("{t}"));
        let r = match k {
            TyKind::RigidTy(r) => r,
            o => return format!("{{\"k\":\"other\",\"s\":{s},\"d\":{}}}", esc(&format!("{o:?}"))),
        };
        let body = match r {
            RigidTy::Bool => "\"k\":\"bool\"".into(),
            RigidTy::Char => "\"k\":\"char\"".into(),
            RigidTy::Int(i) => format!("\"k\":\"int\",\"bits\":{},\"signed\":true", i.num_bytes() * 8),
            RigidTy::Uint(i) => format!("\"k\":\"int\",\"bits\":{},\"signed\":false", i.num_bytes() * 8),
            RigidTy::Float(_) => "\"k\":\"float\"".into(),
            RigidTy::Str => "\"k\":\"str\"".into(),
            RigidTy::Never => "\"k\":\"never\"".into(),
            RigidTy::Foreign(_) => "\"k\":\"foreign\"".into(),
            RigidTy::Array(e, n) => format!("\"k\":\"array\",\"e\":{},\"n\":{}", self.ty(e), n.eval_target_usize().unwrap_or(u64::MAX)),
            RigidTy::Pat(e, _) => format!("\"k\":\"pat\",\"e\":{}", self.ty(e)),
            RigidTy::Slice(e) => format!("\"k\":\"slice\",\"e\":{}", self.ty(e)),
            RigidTy::RawPtr(e, m) => format!("\"k\":\"ptr\",\"e\":{},\"mut\":{}", self.ty(e), m == Mutability::Mut),
            RigidTy::Ref(_, e, m) => format!("\"k\":\"ref\",\"e\":{},\"mut\":{}", self.ty(e), m == Mutability::Mut),
            RigidTy::FnDef(d, a) => {
                let inst = match Instance::resolve(d, &a) { Ok(i) => self.inst(i).to_string(), _ => "null".into() };
                let ga = self.gargs(&a);
                format!("\"k\":\"fndef\",\"name\":{},\"args\":{},\"inst\":{}", esc(&d.name()), ga, inst)
            }
            RigidTy::FnPtr(_) => "\"k\":\"fnptr\"".into(),
            RigidTy::Closure(d, a) => {
                // generic args of a closure: parent args..., kind, sig, upvar tuple
                let ups = match a.0.last() { Some(GenericArgKind::Type(t)) => self.ty(*t).to_string(), _ => "null".into() };
                let i = match Instance::resolve_closure(d, &a, ClosureKind::FnOnce) { Ok(i) => self.inst(i).to_string(), _ => "null".into() };
                format!("\"k\":\"closure\",\"name\":{},\"upvars\":{},\"once\":{}", esc(&d.name()), ups, i)
            }
            RigidTy::Dynamic(p, _) => {
                let n = p.iter().filter_map(|b| match b.clone().skip_binder() {
                    ExistentialPredicate::Trait(t) => Some(esc(&t.def_id.name())), _ => None }).collect::<Vec<_>>();
                format!("\"k\":\"dyn\",\"traits\":{}", list(n))
            }
            RigidTy::Tuple(v) => { let x = v.iter().map(|t| self.ty(*t).to_string()).collect::<Vec<_>>(); format!("\"k\":\"tuple\",\"f\":{}", list(x)) }
            RigidTy::Adt(d, a) => {
                let kind = match d.kind() { AdtKind::Enum => "enum", AdtKind::Struct => "struct", AdtKind::Union => "union" };
                let ga = self.gargs(&a);
                let mut vs = vec![];
                for v in d.variants() {
                    let mut fs = vec![];
                    for f in v.fields() {
                        let ft = f.ty_with_args(&a);
                        fs.push(format!("[{},{}]", esc(&f.name), self.ty(ft)));
                    }
                    let disc = if d.kind() == AdtKind::Enum { d.discriminant_for_variant(v.idx()).val as i128 } else { 0 };
                    vs.push(format!("{{\"n\":{},\"d\":{},\"f\":{}}}", esc(&v.name()), disc, list(fs)));
                }
                format!("\"k\":\"adt\",\"adt\":\"{kind}\",\"name\":{},\"crate\":{},\"box\":{},\"args\":{},\"vs\":{}", esc(&d.name()), esc(&d.krate().name), d.is_box(), ga, list(vs))
            }
            o => format!("\"k\":\"other\",\"d\":{}", esc(&format!("{o:?}"))),
        };
        format!("{{{body},\"s\":{s}}}")
    }
    fn inst_json(&mut self, id: usize) -> String {
        let i = self.insts[id];
        let kind = match i.kind {
            InstanceKind::Item => "item", InstanceKind::Intrinsic => "intrinsic", InstanceKind::LlvmIntrinsic => "llvm",
            InstanceKind::Virtual { .. } => "virtual", InstanceKind::Shim => "shim" };
        let (dn, file, line, krate) = { let d = i.def.def_id(); let sp = d.span();
            (d.name(), sp.get_filename(), sp.get_lines().start_line, rustc_public::CrateDef::krate(&FnDef(d)).name) };
        let ga = self.gargs(&i.args());
        let hb = i.has_body();
        let ret = match i.fn_abi() { Ok(a) => self.ty(a.ret.ty).to_string(), _ => "null".into() };
        format!("{{\"name\":{},\"full\":{},\"kind\":\"{kind}\",\"args\":{ga},\"file\":{},\"line\":{},\"crate\":{},\"has_body\":{hb},\"ret\":{ret}}}",
            esc(&dn), esc(&i.name()), esc(&file), line, esc(&krate))
    }

    // ---- constants
    fn rd(bytes: &[Option<u8>], off: usize, n: usize) -> Option<u128> {
        let mut v = 0u128;
        for j in 0..n { v |= (*bytes.get(off + j)?).map(|b| b as u128)? << (8 * j); }
        Some(v)
    }
    fn prov(a: &Allocation, off: usize) -> Option<rustc_public::mir::alloc::AllocId> {
        a.provenance.ptrs.iter().find(|(o, _)| *o == off).map(|(_, p)| p.0)
    }
    fn dec(&mut self, t: Ty, a: &Allocation, off: usize, depth: usize) -> String {
        let tid = self.ty(t);
        match self.dec_inner(t, a, off, depth) {
            Some(s) => format!("{{\"t\":{tid},{s}}}"),
            None => format!("{{\"t\":{tid},\"opaque\":true}}"),
        }
    }
    fn dec_inner(&mut self, t: Ty, a: &Allocation, off: usize, depth: usize) -> Option<String> {
        if depth > 24 { return None; }
        let shape = t.layout().ok()?.shape();
        let size = shape.size.bytes();
        let TyKind::RigidTy(r) = t.kind() else { return None };
        Some(match r {
            RigidTy::Bool | RigidTy::Char | RigidTy::Uint(_) => format!("\"i\":{}", Self::rd(&a.bytes, off, size)?),
            RigidTy::Int(_) => {
                let v = Self::rd(&a.bytes, off, size)?;
                let sh = 128 - 8 * size as u32;
                format!("\"i\":{}", ((v << sh) as i128) >> sh)
            }
            RigidTy::FnDef(..) => "\"zst\":true".into(),
            RigidTy::FnPtr(_) => {
                match GlobalAlloc::from(Self::prov(a, off)?) {
                    GlobalAlloc::Function(i) => format!("\"fn\":{}", self.inst(i)),
                    _ => return None,
                }
            }
            RigidTy::Pat(e, _) => return self.dec_inner(e, a, off, depth + 1),
            RigidTy::Tuple(ts) => {
                let FieldsShape::Arbitrary { offsets } = shape.fields else { return if ts.is_empty() { Some("\"agg\":[0,[]]".into()) } else { None } };
                let v = ts.iter().enumerate().map(|(i, t)| self.dec(*t, a, off + offsets[i].bytes(), depth + 1)).collect::<Vec<_>>();
                format!("\"agg\":[0,{}]", list(v))
            }
            RigidTy::Array(e, n) => {
                let n = n.eval_target_usize().ok()? as usize;
                let es = e.layout().ok()?.shape().size.bytes();
                let v = (0..n).map(|i| self.dec(e, a, off + i * es, depth + 1)).collect::<Vec<_>>();
                format!("\"arr\":{}", list(v))
            }
            RigidTy::Closure(_, ga) => {
                let ups = match ga.0.last() { Some(GenericArgKind::Type(t)) => *t, _ => return None };
                return self.dec_inner(ups, a, off, depth + 1);
            }
            RigidTy::Ref(_, e, _) | RigidTy::RawPtr(e, _) => {
                let addr = Self::rd(&a.bytes, off, 8)? as usize;
                let p = match Self::prov(a, off) { Some(p) => p, None => return Some(format!("\"addr\":{addr}")) };
                let ek = e.kind();
                match GlobalAlloc::from(p) {
                    GlobalAlloc::Memory(m) => {
                        if ek.is_str() {
                            let n = Self::rd(&a.bytes, off + 8, 8)? as usize;
                            let b: Option<Vec<u8>> = m.bytes[addr..addr + n].iter().cloned().collect();
                            format!("\"str\":{}", esc(&String::from_utf8_lossy(&b?)))
                        } else if let TyKind::RigidTy(RigidTy::Slice(el)) = ek {
                            let n = Self::rd(&a.bytes, off + 8, 8)? as usize;
                            if el == Ty::unsigned_ty(UintTy::U8) {
                                let b: Option<Vec<u8>> = m.bytes[addr..addr + n].iter().cloned().collect();
                                format!("\"bytes\":{}", esc(&String::from_utf8_lossy(&b?)))
                            } else {
                                let es = el.layout().ok()?.shape().size.bytes();
                                let v = (0..n).map(|i| self.dec(el, &m, addr + i * es, depth + 1)).collect::<Vec<_>>();
                                format!("\"slice\":{}", list(v))
                            }
                        } else {
                            let x = self.dec(e, &m, addr, depth + 1);
                            format!("\"ref\":{x}")
                        }
                    }
                    GlobalAlloc::Static(s) => format!("\"static\":{}", esc(&s.name())),
                    _ => return None,
                }
            }
            RigidTy::Adt(d, ga) => {
                if d.kind() == AdtKind::Union { return None; }
                let (vi, offsets): (usize, Vec<usize>) = match &shape.variants {
                    VariantsShape::Empty => return None,
                    VariantsShape::Single { index } => {
                        let o = match &shape.fields { FieldsShape::Arbitrary { offsets } => offsets.iter().map(|o| o.bytes()).collect(), _ => vec![] };
                        (index.to_index(), o)
                    }
                    VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                        let FieldsShape::Arbitrary { offsets } = &shape.fields else { return None };
                        let toff = off + offsets[*tag_field].bytes();
                        let (tsz, isptr) = {
                            use rustc_public::abi::{Scalar, Primitive};
                            let v = match tag { Scalar::Initialized { value, .. } | Scalar::Union { value } => value.clone() };
                            match v { Primitive::Int { length, .. } => (match length { rustc_public::abi::IntegerLength::I8 => 1usize, rustc_public::abi::IntegerLength::I16 => 2, rustc_public::abi::IntegerLength::I32 => 4, rustc_public::abi::IntegerLength::I64 => 8, _ => 16 }, false), Primitive::Pointer(_) => (8, true), _ => return None }
                        };
                        let raw = Self::rd(&a.bytes, toff, tsz)?;
                        let vi = match tag_encoding {
                            TagEncoding::Direct => {
                                let mask = if tsz == 16 { u128::MAX } else { (1u128 << (8 * tsz)) - 1 };
                                (0..d.num_variants()).find(|i| d.discriminant_for_variant(VariantIdx::to_val(*i)).val & mask == raw)?
                            }
                            TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                let has_prov = isptr && Self::prov(a, toff).is_some();
                                let mask = if tsz == 16 { u128::MAX } else { (1u128 << (8 * tsz)) - 1 };
                                let rel = raw.wrapping_sub(*niche_start) & mask;
                                let lo = niche_variants.start().to_index() as u128;
                                let hi = niche_variants.end().to_index() as u128;
                                if !has_prov && rel <= hi - lo { (lo + rel) as usize } else { untagged_variant.to_index() }
                            }
                        };
                        (vi, variants[vi].offsets.iter().map(|o| o.bytes()).collect())
                    }
                };
                let v = d.variant(VariantIdx::to_val(vi))?;
                let mut fs = vec![];
                for (i, f) in v.fields().iter().enumerate() {
                    let ft = f.ty_with_args(&ga);
                    fs.push(self.dec(ft, a, off + offsets.get(i).copied().unwrap_or(0), depth + 1));
                }
                format!("\"agg\":[{vi},{}]", list(fs))
            }
            _ => return None,
        })
    }
    fn konst(&mut self, c: &MirConst) -> String {
        let t = c.ty();
        match c.kind() {
            ConstantKind::Allocated(a) => { let x = self.dec(t, a, 0, 0); x }
            ConstantKind::ZeroSized => {
                let e = Allocation { bytes: vec![], provenance: ProvenanceMap { ptrs: vec![] }, align: 1, mutability: Mutability::Not };
                let k = t.kind();
                if k.is_adt() || matches!(k, TyKind::RigidTy(RigidTy::Tuple(_)) | TyKind::RigidTy(RigidTy::Array(..)) | TyKind::RigidTy(RigidTy::Closure(..))) { self.dec(t, &e, 0, 0) }
                else { let i = self.ty(t); format!("{{\"t\":{i},\"zst\":true}}") }
            }
            ConstantKind::Ty(tc) => match tc.kind() {
                TyConstKind::Value(t, a) => self.dec(*t, a, 0, 0),
                TyConstKind::ZSTValue(t) => { let i = self.ty(*t); format!("{{\"t\":{i},\"zst\":true}}") }
                _ => { let i = self.ty(t); format!("{{\"t\":{i},\"opaque\":true}}") }
            },
            _ => { let i = self.ty(t); format!("{{\"t\":{i},\"opaque\":true}}") }
        }
    }

    // ---- bodies
    fn place(&mut self, p: &Place) -> String {
        let mut v = vec![];
        for e in &p.projection {
            v.push(match e {
                ProjectionElem::Deref => "[\"*\"]".to_string(),
                ProjectionElem::Field(i, t) => format!("[\"f\",{},{}]", i, self.ty(*t)),
                ProjectionElem::Index(l) => format!("[\"i\",{l}]"),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => format!("[\"c\",{offset},{min_length},{from_end}]"),
                ProjectionElem::Subslice { from, to, from_end } => format!("[\"s\",{from},{to},{from_end}]"),
                ProjectionElem::Downcast(v) => format!("[\"d\",{}]", v.to_index()),
                o => format!("[\"?\",{}]", esc(&format!("{o:?}"))),
            });
        }
        format!("[{},{}]", p.local, list(v))
    }
    fn op(&mut self, o: &Operand) -> String {
        match o {
            Operand::Copy(p) => format!("[\"cp\",{}]", self.place(p)),
            Operand::Move(p) => format!("[\"mv\",{}]", self.place(p)),
            Operand::Constant(c) => format!("[\"k\",{}]", self.konst(&c.const_)),
            o => format!("[\"rt\",{}]", esc(&format!("{o:?}"))),
        }
    }
    fn rv(&mut self, r: &Rvalue) -> String {
        match r {
            Rvalue::AddressOf(_, p) => format!("[\"addr\",{}]", self.place(p)),
            Rvalue::Ref(_, bk, p) => format!("[\"ref\",{},{}]", self.place(p), matches!(bk, BorrowKind::Mut { .. })),
            Rvalue::Reborrow(_, _, p) => format!("[\"reborrow\",{}]", self.place(p)),
            Rvalue::Aggregate(k, ops) => {
                let o = ops.iter().map(|o| self.op(o)).collect::<Vec<_>>();
                let k = match k {
                    AggregateKind::Array(t) => format!("[\"array\",{}]", self.ty(*t)),
                    AggregateKind::Tuple => "[\"tuple\"]".into(),
                    AggregateKind::Adt(d, v, a, _, f) => { let t = self.ty(d.ty_with_args(a)); format!("[\"adt\",{},{},{}]", t, v.to_index(), match f { Some(i) => i.to_string(), None => "null".into() }) }
                    AggregateKind::Closure(d, a) => { let t = self.ty(Ty::new_closure(*d, a.clone())); format!("[\"closure\",{t}]") }
                    AggregateKind::RawPtr(t, _) => format!("[\"rawptr\",{}]", self.ty(*t)),
                    o => format!("[\"?\",{}]", esc(&format!("{o:?}"))),
                };
                format!("[\"agg\",{k},{}]", list(o))
            }
            Rvalue::BinaryOp(b, x, y) => format!("[\"bin\",\"{b:?}\",{},{}]", self.op(x), self.op(y)),
            Rvalue::CheckedBinaryOp(b, x, y) => format!("[\"cbin\",\"{b:?}\",{},{}]", self.op(x), self.op(y)),
            Rvalue::UnaryOp(u, x) => format!("[\"un\",\"{u:?}\",{}]", self.op(x)),
            Rvalue::Cast(k, x, t) => format!("[\"cast\",{},{},{}]", esc(&format!("{k:?}")), self.op(x), self.ty(*t)),
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"cp\",{}]]", self.place(p)),
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(p)),
            Rvalue::Len(p) => format!("[\"len\",{}]", self.place(p)),
            Rvalue::Repeat(o, n) => format!("[\"repeat\",{},{}]", self.op(o), n.eval_target_usize().unwrap_or(u64::MAX)),
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.op(o)),
            Rvalue::ThreadLocalRef(_) => "[\"tls\"]".into(),
        }
    }
    fn body_json(&mut self, id: usize) -> String {
        let inst = self.insts[id];
        let Some(b) = inst.body() else { return "null".into() };
        let locals = b.locals().iter().map(|l| self.ty(l.ty).to_string()).collect::<Vec<_>>();
        let mut names = vec![];
        for d in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &d.value { names.push(format!("[{},{}]", esc(&d.name), self.place(p))); }
        }
        let mut bbs = vec![];
        for bb in &b.blocks {
            let mut st = vec![];
            for s in &bb.statements {
                match &s.kind {
                    StatementKind::Assign(p, r) => st.push(format!("[\"=\",{},{}]", self.place(p), self.rv(r))),
                    StatementKind::SetDiscriminant { place, variant_index } => st.push(format!("[\"setd\",{},{}]", self.place(place), variant_index.to_index())),
                    StatementKind::Intrinsic(NonDivergingIntrinsic::Assume(o)) => st.push(format!("[\"assume\",{}]", self.op(o))),
                    StatementKind::Intrinsic(x) => st.push(format!("[\"?\",{}]", esc(&format!("{x:?}")))),
                    _ => {}
                }
            }
            let line = bb.terminator.source_info.span.get_lines().start_line;
            let t = match &bb.terminator.kind {
                TerminatorKind::Goto { target } => format!("[\"goto\",{target}]"),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let br = targets.branches().map(|(v, t)| format!("[{v},{t}]")).collect::<Vec<_>>();
                    format!("[\"switch\",{},{},{}]", self.op(discr), list(br), targets.otherwise())
                }
                TerminatorKind::Resume => "[\"resume\"]".into(),
                TerminatorKind::Abort => "[\"abort\"]".into(),
                TerminatorKind::Return => "[\"return\"]".into(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
                TerminatorKind::Drop { place, target, .. } => format!("[\"drop\",{},{target}]", self.place(place)),
                TerminatorKind::Assert { cond, expected, msg, target, .. } => format!("[\"assert\",{},{expected},{},{target}]", self.op(cond), esc(msg.description().unwrap_or("?"))),
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let a = args.iter().map(|o| self.op(o)).collect::<Vec<_>>();
                    let fty = func.ty(b.locals()).ok();
                    let f = match fty.map(|t| t.kind()) {
                        Some(TyKind::RigidTy(RigidTy::FnDef(d, ga))) => {
                            match Instance::resolve(d, &ga) {
                                Ok(i) => format!("[\"fn\",{}]", self.inst(i)),
                                Err(_) => format!("[\"unres\",{}]", esc(&d.name())),
                            }
                        }
                        _ => format!("[\"dynf\",{}]", self.op(func)),
                    };
                    let tg = match target { Some(t) => t.to_string(), None => "null".into() };
                    format!("[\"call\",{f},{},{},{tg}]", list(a), self.place(destination))
                }
                o => format!("[\"?\",{}]", esc(&format!("{o:?}"))),
            };
            bbs.push(format!("[{},{t},{line}]", list(st)));
        }
        let sp = match b.spread_arg() { Some(l) => l.to_string(), None => "null".into() };
        format!("{{\"locals\":{},\"nargs\":{},\"spread\":{sp},\"names\":{},\"bbs\":{}}}", list(locals), b.arg_locals().len(), list(names), list(bbs))
    }

    fn serve(&mut self) {
        let stdin = std::io::stdin();
        let mut out = std::io::stdout();
        let _ = writeln!(out, "READY");
        let _ = out.flush();
        for line in stdin.lock().lines() {
            let Ok(line) = line else { break };
            let p: Vec<&str> = line.split_whitespace().collect();
            if p.is_empty() { continue; }
            let r = match p[0] {
                "quit" => break,
                "ty" => { let i = p[1].parse().unwrap(); self.ty_json(i) }
                "inst" => { let i = p[1].parse().unwrap(); self.inst_json(i) }
                "body" => { let i = p[1].parse().unwrap(); self.body_json(i) }
                // find CRATE : all fn defs [name, file, generic?, inst]
                "find" => {
                    let mut v = vec![];
                    for c in find_crates(p[1]) {
                        for f in c.fn_defs() {
                            let n = f.name();
                            if p.len() > 2 && !n.ends_with(p[2]) { continue; }
                            let generic = rustc_public::ty::FnDef(f.def_id()).generics_of();
                            let ntp = generic.params.iter().filter(|g| !matches!(g.kind, GenericParamDefKind::Lifetime)).count() + generic.parent_count;
                            let inst = if ntp == 0 || p.len() > 3 {
                                let era = GenericArgs(generic.params.iter().map(|_| GenericArgKind::Lifetime(Region { kind: RegionKind::ReErased })).collect());
                                match Instance::resolve(f, &era) { Ok(i) => self.inst(i).to_string(), _ => "null".into() }
                            } else { "null".into() };
                            v.push(format!("[{},{},{}]", esc(&n), esc(&f.span().get_filename()), inst));
                        }
                    }
                    list(v)
                }
                // adt CRATE NAME : type ids for non generic adts
                "adt" => {
                    let mut v = vec![];
                    for c in find_crates(p[1]) {
                        for f in c.adts() {
                            let n = f.name();
                            if p.len() > 2 && !n.ends_with(p[2]) { continue; }
                            let g = f.generics_of();
                            let ntp = g.params.iter().filter(|g| !matches!(g.kind, GenericParamDefKind::Lifetime)).count();
                            if ntp > 0 { continue; }
                            let era = GenericArgs(g.params.iter().map(|_| GenericArgKind::Lifetime(Region { kind: RegionKind::ReErased })).collect());
                            let t = f.ty_with_args(&era);
                            v.push(format!("[{},{},{}]", esc(&n), esc(&f.span().get_filename()), self.ty(t)));
                        }
                    }
                    list(v)
                }
                _ => "null".into(),
            };
            let _ = writeln!(out, "{r}");
            let _ = out.flush();
        }
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let r = rustc_public::run!(&args, || {
        rustc_middle::ty::print::with_no_visible_paths!(Srv::default().serve());
        ControlFlow::<(), ()>::Break(())
    });
    match r { Err(rustc_public::CompilerError::Interrupted(_)) | Ok(_) => {}, Err(_) => std::process::exit(3) }
}
