//! Dumps the monomorphic MIR reachable from the harness crate's `root_*`
//! functions as JSON.  Used as RUSTC_WORKSPACE_WRAPPER: every other crate is
//! compiled by plain rustc semantics (no dump).
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public;
extern crate rustc_public_bridge;

use rustc_public::abi::{FieldsShape, TagEncoding, VariantsShape};
use rustc_public::mir::alloc::{AllocId, GlobalAlloc};
use rustc_public::mir::mono::{Instance, InstanceKind, StaticDef};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::{CrateDef, CrateDefType};
use rustc_public_bridge::IndexedVal;
use std::collections::{HashMap, HashSet, VecDeque};
use std::fmt::Write as _;
use std::ops::ControlFlow;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn list<I: IntoIterator<Item = String>>(it: I) -> String {
    let v: Vec<String> = it.into_iter().collect();
    format!("[{}]", v.join(","))
}

#[derive(Default)]
struct D {
    tys: HashMap<Ty, usize>,
    tyq: VecDeque<Ty>,
    tyout: HashMap<usize, String>,
    fns: HashMap<String, usize>,
    fnq: VecDeque<(usize, Instance)>,
    fnout: Vec<String>,
    allocs: HashMap<AllocId, usize>,
    allocq: VecDeque<(usize, AllocId)>,
    allocout: Vec<String>,
}

const STOP: &[&str] = &[
    "core::panicking::", "std::panicking::", "std::rt::", "std::io::", "std::sys::", "std::alloc::",
    "alloc::alloc::", "alloc::raw_vec::", "core::unicode", "core::num::flt2dec", "std::thread",
    "std::backtrace",
];

impl D {
    fn ty(&mut self, t: Ty) -> usize {
        if let Some(i) = self.tys.get(&t) { return *i; }
        let i = self.tys.len();
        self.tys.insert(t, i);
        self.tyq.push_back(t);
        i
    }
    fn func(&mut self, inst: Instance) -> usize {
        let key = format!("{}", inst.mangled_name());
        if let Some(i) = self.fns.get(&key) { return *i; }
        let i = self.fns.len();
        self.fns.insert(key, i);
        self.fnq.push_back((i, inst));
        i
    }
    fn alloc(&mut self, a: AllocId) -> usize {
        if let Some(i) = self.allocs.get(&a) { return *i; }
        let i = self.allocs.len();
        self.allocs.insert(a, i);
        self.allocq.push_back((i, a));
        i
    }
    fn allocation(&mut self, a: &Allocation) -> String {
        let mut hex = String::new();
        for b in &a.bytes {
            match b { Some(b) => { let _ = write!(hex, "{:02x}", b); } None => hex.push_str("..") }
        }
        let ps: Vec<(usize, AllocId)> = a.provenance.ptrs.iter().map(|(o, p)| (*o, p.0)).collect();
        let ps = list(ps.into_iter().map(|(o, id)| { let i = self.alloc(id); format!("[{},{}]", o, i) }));
        format!("\"b\":\"{}\",\"p\":{}", hex, ps)
    }
    fn dump_alloc(&mut self, i: usize, a: AllocId) {
        let s = match GlobalAlloc::from(a) {
            GlobalAlloc::Function(inst) => { let f = self.func(inst); format!("\"k\":\"fn\",\"fn\":{}", f) }
            GlobalAlloc::VTable(t, _) => { let t = self.ty(t); format!("\"k\":\"vtable\",\"ty\":{}", t) }
            GlobalAlloc::Static(s) => self.static_(s),
            GlobalAlloc::Memory(m) => format!("\"k\":\"mem\",{}", self.allocation(&m)),
            GlobalAlloc::TypeId { ty } => { let t = self.ty(ty); format!("\"k\":\"typeid\",\"ty\":{}", t) }
        };
        self.allocout.push(format!("{{\"id\":{},{}}}", i, s));
    }
    fn static_(&mut self, s: StaticDef) -> String {
        let t = self.ty(s.ty());
        match s.eval_initializer() {
            Ok(m) => format!("\"k\":\"mem\",\"static\":{},\"ty\":{},{}", esc(&s.name().to_string()), t, self.allocation(&m)),
            Err(_) => format!("\"k\":\"static\",\"ty\":{}", t),
        }
    }
    fn tyconst(&mut self, c: &TyConst) -> String {
        match c.eval_target_usize() { Ok(n) => format!("{}", n), Err(_) => "null".into() }
    }
    fn dump_ty(&mut self, t: Ty) {
        let i = self.tys[&t];
        let kind = t.kind();
        let name = format!("{}", t);
        let mut o = format!("{{\"id\":{},\"name\":{}", i, esc(&name));
        let k = match kind.rigid() { Some(k) => k.clone(), None => {
            o.push_str(",\"k\":\"other\"}"); self.tyout.insert(i, o); return; } };
        let mut want_layout = true;
        match &k {
            RigidTy::Bool => o.push_str(",\"k\":\"bool\""),
            RigidTy::Char => o.push_str(",\"k\":\"char\""),
            RigidTy::Int(t) => { let _ = write!(o, ",\"k\":\"int\",\"bits\":{}", t.num_bytes() * 8); }
            RigidTy::Uint(t) => { let _ = write!(o, ",\"k\":\"uint\",\"bits\":{}", t.num_bytes() * 8); }
            RigidTy::Float(_) => o.push_str(",\"k\":\"float\""),
            RigidTy::Adt(def, args) => {
                let kd = def.kind();
                let ks = if kd.is_enum() { "enum" } else if kd.is_union() { "union" } else { "struct" };
                let _ = write!(o, ",\"k\":\"adt\",\"adt\":\"{}\",\"def\":{},\"box\":{}", ks, esc(&def.name().to_string()), def.is_box());
                let repr = def.repr();
                let _ = write!(o, ",\"repr\":{}", esc(&format!("{:?}", repr)));
                let targs: Vec<String> = args.0.iter().map(|a| match a {
                    GenericArgKind::Type(t) => format!("[\"t\",{}]", self.ty(*t)),
                    GenericArgKind::Const(c) => format!("[\"c\",{}]", self.tyconst(c)),
                    _ => "[\"l\"]".into(),
                }).collect();
                let _ = write!(o, ",\"args\":{}", list(targs));
                let mut vs = vec![];
                for v in def.variants() {
                    let d = if kd.is_enum() { def.discriminant_for_variant(v.idx()).val } else { 0 };
                    let fs: Vec<String> = v.fields().iter().map(|f| {
                        let t = self.ty(f.ty_with_args(args));
                        format!("[{},{}]", esc(&f.name.to_string()), t)
                    }).collect();
                    vs.push(format!("{{\"name\":{},\"discr\":{},\"fields\":{}}}", esc(&v.name().to_string()), d, list(fs)));
                }
                let _ = write!(o, ",\"variants\":{}", list(vs));
            }
            RigidTy::Str => { want_layout = false; o.push_str(",\"k\":\"str\"") }
            RigidTy::Array(t, c) => { let n = self.tyconst(c); let e = self.ty(*t); let _ = write!(o, ",\"k\":\"array\",\"elem\":{},\"n\":{}", e, n); }
            RigidTy::Slice(t) => { want_layout = false; let e = self.ty(*t); let _ = write!(o, ",\"k\":\"slice\",\"elem\":{}", e); }
            RigidTy::RawPtr(t, m) => { let e = self.ty(*t); let _ = write!(o, ",\"k\":\"ptr\",\"to\":{},\"mut\":{}", e, *m == Mutability::Mut); }
            RigidTy::Ref(_, t, m) => { let e = self.ty(*t); let _ = write!(o, ",\"k\":\"ref\",\"to\":{},\"mut\":{}", e, *m == Mutability::Mut); }
            RigidTy::FnDef(d, args) => {
                match Instance::resolve(*d, args) {
                    Ok(inst) => { let f = self.func(inst); let _ = write!(o, ",\"k\":\"fndef\",\"fn\":{}", f); }
                    Err(_) => o.push_str(",\"k\":\"fndef\",\"fn\":null"),
                }
            }
            RigidTy::FnPtr(_) => o.push_str(",\"k\":\"fnptr\""),
            RigidTy::Closure(d, args) => {
                // Upvar types: last generic arg is the tuple of captures.
                let mut ups = vec![];
                if let Some(GenericArgKind::Type(t)) = args.0.last() {
                    if let Some(RigidTy::Tuple(ts)) = t.kind().rigid() { for t in ts { ups.push(self.ty(*t).to_string()); } }
                }
                let mut fs = vec![];
                for kindc in [ClosureKind::FnOnce, ClosureKind::FnMut, ClosureKind::Fn] {
                    match Instance::resolve_closure(*d, args, kindc) { Ok(inst) => fs.push(self.func(inst).to_string()), Err(_) => fs.push("null".into()) }
                }
                let _ = write!(o, ",\"k\":\"closure\",\"def\":{},\"fields\":{},\"fns\":{}", esc(&d.name().to_string()), list(ups), list(fs));
            }
            RigidTy::Dynamic(..) => { want_layout = false; o.push_str(",\"k\":\"dyn\"") }
            RigidTy::Never => o.push_str(",\"k\":\"never\""),
            RigidTy::Tuple(ts) => { let f = list(ts.iter().map(|t| self.ty(*t).to_string()).collect::<Vec<_>>()); let _ = write!(o, ",\"k\":\"tuple\",\"fields\":{}", f); }
            RigidTy::Pat(t, _) => { let e = self.ty(*t); let _ = write!(o, ",\"k\":\"pat\",\"to\":{}", e); }
            _ => { want_layout = false; o.push_str(",\"k\":\"other\"") }
        }
        if want_layout { if let Ok(l) = t.layout() {
            let sh = l.shape();
            if sh.is_sized() {
                let _ = write!(o, ",\"size\":{},\"align\":{}", sh.size.bytes(), sh.abi_align);
            }
            if let FieldsShape::Arbitrary { offsets } = &sh.fields {
                let _ = write!(o, ",\"offs\":{}", list(offsets.iter().map(|x| x.bytes().to_string())));
            }
            match &sh.variants {
                VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                    let toff = match &sh.fields { FieldsShape::Arbitrary { offsets } => offsets[*tag_field].bytes(), _ => 0 };
                    let enc = match tag_encoding {
                        TagEncoding::Direct => "null".to_string(),
                        TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => format!(
                            "{{\"untagged\":{},\"lo\":{},\"hi\":{},\"start\":{}}}",
                            untagged_variant.to_index(), niche_variants.start().to_index(), niche_variants.end().to_index(), niche_start),
                    };
                    let _ = write!(o, ",\"tag\":{{\"off\":{},\"scalar\":{},\"niche\":{}}}", toff, esc(&format!("{:?}", tag)), enc);
                    let _ = write!(o, ",\"voffs\":{}", list(variants.iter().map(|v| list(v.offsets.iter().map(|x| x.bytes().to_string())))));
                }
                VariantsShape::Single { index } => { let _ = write!(o, ",\"single\":{}", index.to_index()); }
                VariantsShape::Empty => { o.push_str(",\"uninhabited\":true"); }
            }
        } }
        o.push('}');
        self.tyout.insert(i, o);
    }
    fn place(&mut self, p: &Place) -> String {
        let pr = list(p.projection.iter().map(|e| match e {
            ProjectionElem::Deref => "[\"*\"]".to_string(),
            ProjectionElem::Field(i, t) => format!("[\"f\",{},{}]", i, self.ty(*t)),
            ProjectionElem::Index(l) => format!("[\"i\",{}]", l),
            ProjectionElem::ConstantIndex { offset, min_length, from_end } => format!("[\"c\",{},{},{}]", offset, min_length, from_end),
            ProjectionElem::Subslice { from, to, from_end } => format!("[\"s\",{},{},{}]", from, to, from_end),
            ProjectionElem::Downcast(v) => format!("[\"d\",{}]", v.to_index()),
            ProjectionElem::OpaqueCast(t) => format!("[\"o\",{}]", self.ty(*t)),
        }).collect::<Vec<_>>());
        format!("[{},{}]", p.local, pr)
    }
    fn konst(&mut self, c: &MirConst) -> String {
        let t = self.ty(c.ty());
        match c.kind() {
            ConstantKind::Allocated(a) => format!("{{\"ty\":{},{}}}", t, self.allocation(a)),
            ConstantKind::ZeroSized => format!("{{\"ty\":{},\"z\":1}}", t),
            ConstantKind::Ty(tc) => match tc.kind() {
                TyConstKind::Value(_, a) => format!("{{\"ty\":{},{}}}", t, self.allocation(a)),
                TyConstKind::ZSTValue(_) => format!("{{\"ty\":{},\"z\":1}}", t),
                _ => format!("{{\"ty\":{},\"u\":{}}}", t, esc(&format!("{:?}", tc))),
            },
            k => format!("{{\"ty\":{},\"u\":{}}}", t, esc(&format!("{:?}", k))),
        }
    }
    fn op(&mut self, o: &Operand) -> String {
        match o {
            Operand::Copy(p) => format!("[\"cp\",{}]", self.place(p)),
            Operand::Move(p) => format!("[\"mv\",{}]", self.place(p)),
            Operand::Constant(c) => format!("[\"k\",{}]", self.konst(&c.const_)),
            Operand::RuntimeChecks(r) => format!("[\"rc\",{}]", esc(&format!("{:?}", r))),
        }
    }
    fn rv(&mut self, r: &Rvalue) -> String {
        match r {
            Rvalue::AddressOf(_, p) => format!("[\"addr\",{}]", self.place(p)),
            Rvalue::Ref(_, b, p) => format!("[\"ref\",{},{}]", self.place(p), matches!(b, BorrowKind::Mut { .. })),
            Rvalue::Aggregate(k, ops) => {
                let ks = match k {
                    AggregateKind::Array(t) => format!("[\"array\",{}]", self.ty(*t)),
                    AggregateKind::Tuple => "[\"tuple\"]".into(),
                    AggregateKind::Adt(d, v, args, _, f) => {
                        let t = self.ty(d.ty_with_args(args));
                        format!("[\"adt\",{},{},{}]", t, v.to_index(), f.map(|x| x.to_string()).unwrap_or("null".into()))
                    }
                    AggregateKind::Closure(d, a) => { let t = self.ty(Ty::new_closure(*d, a.clone())); format!("[\"closure\",{}]", t) }
                    AggregateKind::RawPtr(t, _) => format!("[\"rawptr\",{}]", self.ty(*t)),
                    _ => "[\"other\"]".into(),
                };
                let o = list(ops.iter().map(|x| self.op(x)).collect::<Vec<_>>());
                format!("[\"agg\",{},{}]", ks, o)
            }
            Rvalue::BinaryOp(b, x, y) => format!("[\"bin\",\"{:?}\",{},{}]", b, self.op(x), self.op(y)),
            Rvalue::CheckedBinaryOp(b, x, y) => format!("[\"chk\",\"{:?}\",{},{}]", b, self.op(x), self.op(y)),
            Rvalue::Cast(k, x, t) => {
                let ks = match k { CastKind::PointerCoercion(p) => format!("{:?}", p), k => format!("{:?}", k) };
                format!("[\"cast\",{},{},{}]", esc(&ks), self.op(x), self.ty(*t))
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"cp\",{}]]", self.place(p)),
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(p)),
            Rvalue::Len(p) => format!("[\"len\",{}]", self.place(p)),
            Rvalue::Repeat(x, n) => format!("[\"rep\",{},{}]", self.op(x), self.tyconst(n)),
            Rvalue::UnaryOp(u, x) => format!("[\"un\",\"{:?}\",{}]", u, self.op(x)),
            Rvalue::Use(x, _) => format!("[\"use\",{}]", self.op(x)),
            Rvalue::Reborrow(_, _, p) => format!("[\"use\",[\"cp\",{}]]", self.place(p)),
            Rvalue::ThreadLocalRef(_) => "[\"tls\"]".into(),
        }
    }
    fn dump_fn(&mut self, id: usize, inst: Instance) {
        let name = format!("{}", inst.name());
        let def = format!("{}", inst.def.name());
        let krate = inst.def.krate().name.to_string();
        let mut o = format!("{{\"id\":{},\"name\":{},\"def\":{},\"crate\":{}", id, esc(&name), esc(&def), esc(&krate));
        let targs: Vec<String> = inst.args().0.iter().map(|a| match a {
            GenericArgKind::Type(t) => format!("[\"t\",{}]", self.ty(*t)),
            GenericArgKind::Const(c) => format!("[\"c\",{}]", self.tyconst(c)),
            _ => "[\"l\"]".into(),
        }).collect();
        let _ = write!(o, ",\"args\":{}", list(targs));
        if let Some(n) = inst.intrinsic_name() { let _ = write!(o, ",\"intrinsic\":{}", esc(&n.to_string())); }
        match inst.kind {
            InstanceKind::Virtual { idx } => { let _ = write!(o, ",\"virtual\":{}", idx); }
            InstanceKind::Shim => o.push_str(",\"shim\":true"),
            _ => {}
        }
        if inst.is_empty_shim() { o.push_str(",\"empty\":true"); }
        let stop = STOP.iter().any(|s| def.starts_with(s));
        let body = if stop || matches!(inst.kind, InstanceKind::Virtual { .. }) { None } else { inst.body() };
        if let Some(b) = body {
            let file = b.span.get_filename();
            let _ = write!(o, ",\"file\":{},\"line\":{}", esc(&file.to_string()), b.span.get_lines().start_line);
            let _ = write!(o, ",\"argc\":{},\"spread\":{}", b.arg_locals().len(), b.spread_arg().map(|x| x.to_string()).unwrap_or("null".into()));
            let ls = list(b.locals().iter().map(|l| self.ty(l.ty).to_string()).collect::<Vec<_>>());
            let _ = write!(o, ",\"locals\":{}", ls);
            let mut names = vec![];
            for v in &b.var_debug_info { if let Some(l) = v.local() { names.push(format!("[{},{}]", l, esc(&v.name.to_string()))); } }
            let _ = write!(o, ",\"vars\":{}", list(names));
            let mut bl = vec![];
            for blk in &b.blocks {
                let mut ss = vec![];
                for s in &blk.statements {
                    let line = s.source_info.span.get_lines().start_line;
                    match &s.kind {
                        StatementKind::Assign(p, r) => { let p = self.place(p); let r = self.rv(r); ss.push(format!("[\"=\",{},{},{}]", p, r, line)); }
                        StatementKind::SetDiscriminant { place, variant_index } => ss.push(format!("[\"sd\",{},{}]", self.place(place), variant_index.to_index())),
                        StatementKind::StorageDead(l) => ss.push(format!("[\"dead\",{}]", l)),
                        StatementKind::StorageLive(l) => ss.push(format!("[\"live\",{}]", l)),
                        StatementKind::Intrinsic(NonDivergingIntrinsic::Assume(x)) => ss.push(format!("[\"assume\",{}]", self.op(x))),
                        StatementKind::Intrinsic(NonDivergingIntrinsic::CopyNonOverlapping(c)) => {
                            ss.push(format!("[\"copy\",{},{},{},{}]", self.op(&c.src), self.op(&c.dst), self.op(&c.count), line))
                        }
                        _ => {}
                    }
                }
                let t = &blk.terminator;
                let li = t.source_info.span.get_lines().start_line;
                let fl = t.source_info.span.get_filename().to_string();
                let loc = if fl == file.to_string() { format!("{}", li) } else { format!("{}", esc(&format!("{}:{}", fl, li))) };
                let ts = match &t.kind {
                    TerminatorKind::Goto { target } => format!("[\"goto\",{}]", target),
                    TerminatorKind::SwitchInt { discr, targets } => {
                        let br = list(targets.branches().map(|(v, t)| format!("[{},{}]", v, t)));
                        format!("[\"switch\",{},{},{},{}]", self.op(discr), br, targets.otherwise(), loc)
                    }
                    TerminatorKind::Resume => "[\"resume\"]".into(),
                    TerminatorKind::Abort => "[\"abort\"]".into(),
                    TerminatorKind::Return => "[\"ret\"]".into(),
                    TerminatorKind::Unreachable => format!("[\"unr\",{}]", loc),
                    TerminatorKind::Drop { place, target, .. } => {
                        let t = place.ty(b.locals()).unwrap();
                        let di = Instance::resolve_drop_in_place(t);
                        let f = if di.is_empty_shim() { "null".to_string() } else { self.func(di).to_string() };
                        format!("[\"drop\",{},{},{},{}]", self.place(place), target, f, self.ty(t))
                    }
                    TerminatorKind::Call { func, args, destination, target, .. } => {
                        let callee = match func.ty(b.locals()).unwrap().kind().rigid() {
                            Some(RigidTy::FnDef(d, a)) => match Instance::resolve(*d, a) {
                                Ok(i) => format!("{{\"fn\":{}}}", self.func(i)),
                                Err(_) => format!("{{\"unresolved\":{}}}", esc(&d.name().to_string())),
                            },
                            _ => format!("{{\"op\":{}}}", self.op(func)),
                        };
                        let aty = list(args.iter().map(|x| self.ty(x.ty(b.locals()).unwrap()).to_string()).collect::<Vec<_>>());
                        let a = list(args.iter().map(|x| self.op(x)).collect::<Vec<_>>());
                        let dty = self.ty(destination.ty(b.locals()).unwrap());
                        format!("[\"call\",{},{},{},{},{},{},{}]", callee, a, self.place(destination),
                            target.map(|x| x.to_string()).unwrap_or("null".into()), loc, aty, dty)
                    }
                    TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                        let (m, ops): (String, Vec<&Operand>) = match msg {
                            AssertMessage::BoundsCheck { len, index } => ("BoundsCheck".into(), vec![len, index]),
                            AssertMessage::Overflow(b, x, y) => (format!("Overflow{:?}", b), vec![x, y]),
                            AssertMessage::OverflowNeg(x) => ("OverflowNeg".into(), vec![x]),
                            AssertMessage::DivisionByZero(x) => ("DivisionByZero".into(), vec![x]),
                            AssertMessage::RemainderByZero(x) => ("RemainderByZero".into(), vec![x]),
                            AssertMessage::MisalignedPointerDereference { .. } => ("Misaligned".into(), vec![]),
                            _ => ("Other".into(), vec![]),
                        };
                        let os = list(ops.into_iter().map(|x| self.op(x)).collect::<Vec<_>>());
                        format!("[\"assert\",{},{},\"{}\",{},{},{}]", self.op(cond), expected, m, os, target, loc)
                    }
                    TerminatorKind::InlineAsm { .. } => "[\"asm\"]".into(),
                };
                bl.push(format!("[{},{}]", list(ss), ts));
            }
            let _ = write!(o, ",\"blocks\":{}", list(bl));
        }
        o.push('}');
        self.fnout.push(o);
    }
    fn drain(&mut self) {
        loop {
            if let Some(t) = self.tyq.pop_front() { self.dump_ty(t); continue; }
            if let Some((i, a)) = self.allocq.pop_front() { self.dump_alloc(i, a); continue; }
            if let Some((i, f)) = self.fnq.pop_front() { self.dump_fn(i, f); continue; }
            break;
        }
    }
}

fn analyze() -> ControlFlow<()> {
    let out = std::env::var("VERIF_DUMP").expect("VERIF_DUMP");
    let mut d = D::default();
    let mut roots = vec![];
    let mut seen = HashSet::new();
    for f in rustc_public::local_crate().fn_defs() {
        let n = f.name().to_string();
        let last = n.rsplit("::").next().unwrap().to_string();
        if !last.starts_with("root_") { continue; }
        if !seen.insert(n.clone()) { continue; }
        if let Ok(inst) = Instance::resolve(f, &GenericArgs(vec![])) {
            let i = d.func(inst);
            roots.push(format!("{}:{}", esc(&last), i));
        }
    }
    // Every trait impl in the analysed crate, for the who-implements rules.
    let mut impls = vec![];
    for k in rustc_public::external_crates().into_iter().filter(|k| k.name.to_string() == "perf_event_data") {
        for im in k.trait_impls() {
            let tr = im.trait_impl();
            let items: Vec<String> = im.associated_items().iter().map(|a| esc(&format!("{:?}", a.def_id))).collect();
            let sp = im.span();
            impls.push(format!("{{\"name\":{},\"trait\":{},\"file\":{},\"line\":{},\"items\":{}}}", esc(&format!("{:?}", tr.value.args())),
                esc(&tr.value.def_id.name().to_string()), esc(&sp.get_filename().to_string()), sp.get_lines().start_line, items.len()));
        }
    }
    d.drain();
    let mut tv: Vec<(usize, String)> = d.tyout.drain().collect();
    tv.sort();
    let s = format!("{{\"roots\":{{{}}},\n\"impls\":{},\n\"types\":[\n{}\n],\n\"allocs\":[\n{}\n],\n\"fns\":[\n{}\n]}}\n",
        roots.join(","), list(impls), tv.into_iter().map(|x| x.1).collect::<Vec<_>>().join(",\n"), d.allocout.join(",\n"), d.fnout.join(",\n"));
    std::fs::write(&out, s).unwrap();
    ControlFlow::Continue(())
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // wrapper mode: argv[1] is the real rustc
    let real = if args.len() > 1 && args[1].ends_with("rustc") { Some(args.remove(1)) } else { None };
    let is_target = args.windows(2).any(|w| w[0] == "--crate-name" && w[1] == "pedharness");
    if is_target && std::env::var("VERIF_DUMP").is_ok() {
        let r = rustc_public::run!(&args, analyze);
        if r.is_err() { std::process::exit(1); }
    } else {
        use std::os::unix::process::CommandExt;
        let real = real.unwrap_or_else(|| "rustc".into());
        let e = std::process::Command::new(real).args(&args[1..]).exec();
        eprintln!("exec failed: {e}");
        std::process::exit(2);
    }
}
