// MIR extractor: a rustc driver that type-checks the crate under analysis exactly as cargo would and, instead of
// generating code, writes the monomorphic MIR of every function reachable from the crate (plus the small standard
// library combinators it uses) as JSON.  Nothing is executed: rustc stops after analysis.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public;

use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{Instance, InstanceKind, StaticDef};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::*;
use std::collections::{BTreeMap, HashMap, VecDeque};
use std::fmt::Write;
use std::ops::ControlFlow;

fn offs(o: &[rustc_public::target::MachineSize]) -> String { o.iter().map(|x| x.bytes().to_string()).collect::<Vec<_>>().join(",") }

/// size, field offsets and enum tag encoding of a type
fn lay(l: &rustc_public::abi::LayoutShape) -> String {
    use rustc_public::abi::*;
    let mut s = format!("{{\"size\":{}", l.size.bytes());
    let fo = match &l.fields { FieldsShape::Arbitrary { offsets } => offsets.clone(), _ => vec![] };
    let _ = write!(s, ",\"offs\":[{}]", offs(&fo));
    match &l.variants {
        VariantsShape::Single { index } => { let _ = write!(s, ",\"one\":{}", vx(index)); }
        VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
            let sz = match tag { Scalar::Initialized { value, .. } => value.clone(), Scalar::Union { value } => value.clone() };
            let n = match sz { Primitive::Int { length, .. } => length.bits() / 8, _ => 8 };
            let _ = write!(s, ",\"tag\":[{},{}],\"vo\":[{}]", fo.get(*tag_field).map(|x| x.bytes()).unwrap_or(0), n,
                variants.iter().map(|v| format!("[{}]", offs(&v.offsets))).collect::<Vec<_>>().join(","));
            match tag_encoding {
                TagEncoding::Direct => s += ",\"enc\":\"direct\"",
                TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                    let _ = write!(s, ",\"enc\":[{},{},{},\"{}\"]", vx(untagged_variant), vx(niche_variants.start()), vx(niche_variants.end()), niche_start);
                }
            }
        }
        _ => {}
    }
    s.push('}');
    s
}

fn q(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Ctx {
    types: BTreeMap<usize, String>,
    ty_ids: HashMap<Ty, usize>,
    queue: VecDeque<Instance>,
    inst_ids: HashMap<String, usize>,
    insts: Vec<(String, String)>,
    statics: BTreeMap<String, String>,
    next_ty: usize,
}

fn inline_std(n: &str) -> bool {
    // standard library functions whose bodies the analysis looks through
    const P: &[&str] = &[
        "std::option::Option", "core::option::Option", "std::result::Result", "core::result::Result",
        "std::cmp::", "core::cmp::", "<std::option::Option", "<core::option::Option", "<std::result::Result",
        "<core::result::Result", "core::bool::", "std::ops::FnOnce", "std::ops::FnMut", "std::ops::Fn",
        "core::ops::", "std::ops::Range", "std::ops::RangeInclusive", "std::ops::ControlFlow", "std::convert::", "core::convert::",
        "<T as std::convert", "<T as core::convert", "std::mem::replace", "std::mem::take", "std::mem::swap",
    ];
    P.iter().any(|p| n.starts_with(p))
}

impl Ctx {
    fn ty(&mut self, t: Ty) -> usize {
        if let Some(i) = self.ty_ids.get(&t) {
            return *i;
        }
        let id = self.next_ty;
        self.next_ty += 1;
        self.ty_ids.insert(t, id);
        self.types.insert(id, String::new());
        let mut s = String::new();
        let disp = q(&format!("{}", t));
        match t.kind() {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool => s += "\"k\":\"bool\"",
                RigidTy::Char => s += "\"k\":\"char\"",
                RigidTy::Int(i) => { let _ = write!(s, "\"k\":\"int\",\"bits\":{}", i.num_bytes() * 8); }
                RigidTy::Uint(i) => { let _ = write!(s, "\"k\":\"uint\",\"bits\":{}", i.num_bytes() * 8); }
                RigidTy::Float(f) => { let _ = write!(s, "\"k\":\"float\",\"n\":{}", q(&format!("{:?}", f))); }
                RigidTy::Adt(def, args) => {
                    let k = format!("{:?}", def.kind());
                    let n = def.name();
                    let _ = write!(s, "\"k\":\"adt\",\"adt\":{},\"name\":{}", q(&k), q(&n));
                    let mut targs = vec![];
                    for a in args.0.iter() {
                        if let GenericArgKind::Type(t) = a { targs.push(self.ty(*t).to_string()); }
                    }
                    let _ = write!(s, ",\"args\":[{}]", targs.join(","));
                    let mut vs = vec![];
                    if k != "Union" {
                        for v in def.variants() {
                            let mut fs = vec![];
                            for f in v.fields() {
                                let ft = f.ty_with_args(&args);
                                let tid = self.ty(ft);
                                fs.push(format!("[{},{}]", q(&f.name.to_string()), tid));
                            }
                            let d = if k == "Enum" { format!("{}", def.discriminant_for_variant(v.idx()).val) } else { "0".into() };
                            vs.push(format!("{{\"name\":{},\"d\":{},\"fields\":[{}]}}", q(&v.name()), d, fs.join(",")));
                        }
                    }
                    let _ = write!(s, ",\"variants\":[{}]", vs.join(","));
                }
                RigidTy::Ref(_, t, m) => { let i = self.ty(t); let _ = write!(s, "\"k\":\"ref\",\"t\":{},\"mut\":{}", i, m == Mutability::Mut); }
                RigidTy::RawPtr(t, m) => { let i = self.ty(t); let _ = write!(s, "\"k\":\"ptr\",\"t\":{},\"mut\":{}", i, m == Mutability::Mut); }
                RigidTy::Tuple(ts) => { let v: Vec<String> = ts.iter().map(|t| self.ty(*t).to_string()).collect(); let _ = write!(s, "\"k\":\"tuple\",\"ts\":[{}]", v.join(",")); }
                RigidTy::Array(t, n) => { let i = self.ty(t); let l = n.eval_target_usize().map(|x| x.to_string()).unwrap_or("null".into()); let _ = write!(s, "\"k\":\"array\",\"t\":{},\"n\":{}", i, l); }
                RigidTy::Slice(t) => { let i = self.ty(t); let _ = write!(s, "\"k\":\"slice\",\"t\":{}", i); }
                RigidTy::Str => s += "\"k\":\"str\"",
                RigidTy::Closure(def, args) => {
                    let mut ts = vec![];
                    for a in args.0.iter() { if let GenericArgKind::Type(t) = a { ts.push(self.ty(*t).to_string()); } }
                    let _ = write!(s, "\"k\":\"closure\",\"name\":{},\"args\":[{}]", q(&def.name()), ts.join(","));
                    if let Ok(i) = Instance::resolve_closure(def, &args, ClosureKind::Fn) { let id = self.inst(i); let _ = write!(s, ",\"inst\":{}", id); }
                }
                RigidTy::FnDef(def, _) => { let _ = write!(s, "\"k\":\"fndef\",\"name\":{}", q(&def.name())); }
                RigidTy::Never => s += "\"k\":\"never\"",
                RigidTy::Dynamic(..) => s += "\"k\":\"dyn\"",
                RigidTy::FnPtr(_) => s += "\"k\":\"fnptr\"",
                _ => s += "\"k\":\"other\"",
            },
            _ => s += "\"k\":\"other\"",
        }
        if matches!(t.kind(), TyKind::RigidTy(RigidTy::Adt(..)) | TyKind::RigidTy(RigidTy::Tuple(..)) | TyKind::RigidTy(RigidTy::Array(..))) {
            if let Ok(l) = t.layout() { let _ = write!(s, ",\"lay\":{}", lay(&l.shape())); }
        }
        let _ = write!(s, ",\"s\":{}", disp);
        self.types.insert(id, format!("{{{}}}", s));
        id
    }

    fn inst(&mut self, i: Instance) -> usize {
        let key = format!("{}|{}", i.mangled_name(), i.name());
        if let Some(x) = self.inst_ids.get(&key) { return *x; }
        let id = self.insts.len();
        self.inst_ids.insert(key, id);
        let dn = i.def.name();
        let name = i.name();
        let krate = i.def.krate().name.to_string();
        let local = i.def.krate().is_local;
        let kind = match i.kind { InstanceKind::Item => "item", InstanceKind::Intrinsic => "intrinsic", InstanceKind::Virtual { .. } => "virtual", InstanceKind::Shim => "shim", _ => "other" };
        let want = i.has_body() && (local || i.kind == InstanceKind::Shim || inline_std(&dn) || inline_std(&name));
        let sp = i.def.span();
        let uns = i.ty().kind().fn_sig().map(|f| f.value.safety == Safety::Unsafe).unwrap_or(false);
        let hdr = format!("\"id\":{},\"name\":{},\"def\":{},\"crate\":{},\"local\":{},\"kind\":{},\"file\":{},\"line\":{},\"unsafe\":{}",
            id, q(&name), q(&dn), q(&krate), local, q(kind), q(&sp.get_filename()), sp.get_lines().start_line, uns);
        self.insts.push((hdr, String::new()));
        if want { self.queue.push_back(i); }
        id
    }

    fn place(&mut self, p: &Place) -> String {
        let mut v = vec![];
        for e in &p.projection {
            v.push(match e {
                ProjectionElem::Deref => "[\"*\"]".to_string(),
                ProjectionElem::Field(i, t) => { let t = self.ty(*t); format!("[\"f\",{},{}]", i, t) }
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => format!("[\"c\",{},{},{}]", offset, min_length, from_end),
                ProjectionElem::Subslice { from, to, from_end } => format!("[\"s\",{},{},{}]", from, to, from_end),
                ProjectionElem::Downcast(v) => format!("[\"v\",{}]", vx(v)),
                #[allow(unreachable_patterns)]
                _ => "[\"?\"]".to_string(),
            });
        }
        format!("[{},[{}]]", p.local, v.join(","))
    }

    fn konst(&mut self, c: &MirConst) -> String {
        let ty = c.ty();
        let tid = self.ty(ty);
        if let TyKind::RigidTy(RigidTy::FnDef(def, args)) = ty.kind() {
            let r = Instance::resolve(def, &args);
            return match r {
                Ok(i) => { let id = self.inst(i); format!("{{\"ty\":{},\"fn\":{}}}", tid, id) }
                Err(_) => format!("{{\"ty\":{},\"fnname\":{}}}", tid, q(&def.name())),
            };
        }
        match c.kind() {
            ConstantKind::Allocated(a) => { let b = self.alloc(a, 0); format!("{{\"ty\":{},\"a\":{}}}", tid, b) }
            ConstantKind::ZeroSized => format!("{{\"ty\":{},\"zst\":1}}", tid),
            ConstantKind::Ty(t) => match t.eval_target_usize() { Ok(v) => format!("{{\"ty\":{},\"u\":{}}}", tid, v), Err(_) => format!("{{\"ty\":{},\"x\":{}}}", tid, q(&format!("{:?}", t.kind()))) },
            k => format!("{{\"ty\":{},\"x\":{}}}", tid, q(&format!("{:?}", k))),
        }
    }

    fn alloc(&mut self, a: &Allocation, depth: u32) -> String {
        let bytes: Vec<String> = a.bytes.iter().map(|b| b.map(|x| x.to_string()).unwrap_or("null".into())).collect();
        let mut pv = vec![];
        for (off, p) in a.provenance.ptrs.iter() {
            let ga = GlobalAlloc::from(p.0);
            let d = match ga {
                GlobalAlloc::Static(s) => { let n = self.stat(s); format!("{{\"static\":{}}}", q(&n)) }
                GlobalAlloc::Memory(m) if depth < 3 => { let x = self.alloc(&m, depth + 1); format!("{{\"mem\":{}}}", x) }
                GlobalAlloc::Function(i) => { let id = self.inst(i); format!("{{\"fn\":{}}}", id) }
                _ => "{}".to_string(),
            };
            pv.push(format!("[{},{}]", off, d));
        }
        format!("{{\"b\":[{}],\"p\":[{}]}}", bytes.join(","), pv.join(","))
    }

    fn stat(&mut self, s: StaticDef) -> String {
        let n = s.name();
        if !self.statics.contains_key(&n) {
            self.statics.insert(n.clone(), "{}".into());
            let t = self.ty(s.ty());
            let v = match s.eval_initializer() { Ok(a) => self.alloc(&a, 0), Err(_) => "null".into() };
            self.statics.insert(n.clone(), format!("{{\"ty\":{},\"a\":{}}}", t, v));
        }
        n
    }

    fn op(&mut self, o: &Operand) -> String {
        match o {
            Operand::Copy(p) => format!("[\"cp\",{}]", self.place(p)),
            Operand::Move(p) => format!("[\"mv\",{}]", self.place(p)),
            Operand::Constant(c) => format!("[\"k\",{}]", self.konst(&c.const_)),
            #[allow(unreachable_patterns)]
            o => format!("[\"?\",{}]", q(&format!("{:?}", o))),
        }
    }

    fn ops(&mut self, v: &[Operand]) -> String {
        let x: Vec<String> = v.iter().map(|o| self.op(o)).collect();
        format!("[{}]", x.join(","))
    }

    fn rv(&mut self, r: &Rvalue) -> String {
        match r {
            Rvalue::Use(o, ..) => format!("[\"use\",{}]", self.op(o)),
            Rvalue::Ref(_, k, p) => format!("[\"ref\",{},{}]", q(match k { BorrowKind::Mut { .. } => "mut", BorrowKind::Shared => "shr", _ => "fake" }), self.place(p)),
            Rvalue::AddressOf(_, p) => format!("[\"addr\",{}]", self.place(p)),
            Rvalue::BinaryOp(b, x, y) => format!("[\"bin\",{},{},{}]", q(&format!("{:?}", b)), self.op(x), self.op(y)),
            Rvalue::CheckedBinaryOp(b, x, y) => format!("[\"cbin\",{},{},{}]", q(&format!("{:?}", b)), self.op(x), self.op(y)),
            Rvalue::UnaryOp(u, x) => format!("[\"un\",{},{}]", q(&format!("{:?}", u)), self.op(x)),
            Rvalue::Cast(k, o, t) => { let t = self.ty(*t); format!("[\"cast\",{},{},{}]", q(&format!("{:?}", k)), self.op(o), t) }
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(p)),
            Rvalue::Len(p) => format!("[\"len\",{}]", self.place(p)),
            Rvalue::Repeat(o, n) => format!("[\"rep\",{},{}]", self.op(o), n.eval_target_usize().map(|x| x.to_string()).unwrap_or("null".into())),
            Rvalue::Aggregate(k, v) => {
                let ks = match k {
                    AggregateKind::Array(t) => { let t = self.ty(*t); format!("[\"array\",{}]", t) }
                    AggregateKind::Tuple => "[\"tuple\"]".into(),
                    AggregateKind::Adt(d, vi, args, _, _) => {
                        let t = d.ty_with_args(args);
                        let t = self.ty(t);
                        format!("[\"adt\",{},{}]", t, vx(vi))
                    }
                    AggregateKind::Closure(d, args) => {
                        let t = Ty::new_closure(*d, args.clone());
                        let t = self.ty(t);
                        format!("[\"closure\",{}]", t)
                    }
                    AggregateKind::RawPtr(t, _) => { let t = self.ty(*t); format!("[\"rawptr\",{}]", t) }
                    k => format!("[\"?\",{}]", q(&format!("{:?}", k))),
                };
                format!("[\"agg\",{},{}]", ks, self.ops(v))
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"cp\",{}]]", self.place(p)),
            Rvalue::ThreadLocalRef(_) => "[\"?\",\"tls\"]".into(),
            #[allow(unreachable_patterns)]
            r => format!("[\"?\",{}]", q(&format!("{:?}", r))),
        }
    }

    fn body(&mut self, i: Instance, b: &Body) -> String {
        let mut s = String::new();
        let locals: Vec<String> = b.locals().iter().map(|l| self.ty(l.ty).to_string()).collect();
        let _ = write!(s, "\"argc\":{},\"locals\":[{}]", b.arg_locals().len(), locals.join(","));
        let _ = write!(s, ",\"spread\":{}", b.spread_arg().map(|x| x.to_string()).unwrap_or("null".into()));
        let mut names = vec![];
        for v in b.var_debug_info.iter() {
            if let VarDebugInfoContents::Place(p) = &v.value {
                if p.projection.is_empty() { names.push(format!("[{},{}]", p.local, q(&v.name.to_string()))); }
            }
        }
        let _ = write!(s, ",\"names\":[{}]", names.join(","));
        let _ = i;
        let mut bbs = vec![];
        for bb in b.blocks.iter() {
            let mut st = vec![];
            for x in bb.statements.iter() {
                let ln = x.source_info.span.get_lines().start_line;
                match &x.kind {
                    StatementKind::Assign(p, r) => { let p = self.place(p); let r = self.rv(r); st.push(format!("[{},{},{}]", ln, p, r)); }
                    StatementKind::SetDiscriminant { place, variant_index } => { let p = self.place(place); st.push(format!("[{},{},[\"setd\",{}]]", ln, p, vx(variant_index))); }
                    StatementKind::Intrinsic(NonDivergingIntrinsic::Assume(o)) => { let o = self.op(o); st.push(format!("[{},null,[\"assume\",{}]]", ln, o)); }
                    StatementKind::Intrinsic(k) => { st.push(format!("[{},null,[\"?\",{}]]", ln, q(&format!("{:?}", k)))); }
                    _ => {}
                }
            }
            let t = &bb.terminator;
            let ln = t.source_info.span.get_lines().start_line;
            let ts = match &t.kind {
                TerminatorKind::Goto { target } => format!("[\"goto\",{}]", target),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let br: Vec<String> = targets.branches().map(|(v, t)| format!("[{},{}]", v, t)).collect();
                    format!("[\"switch\",{},[{}],{}]", self.op(discr), br.join(","), targets.otherwise())
                }
                TerminatorKind::Resume => "[\"resume\"]".into(),
                TerminatorKind::Abort => "[\"abort\"]".into(),
                TerminatorKind::Return => "[\"return\"]".into(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
                TerminatorKind::Drop { place, target, .. } => {
                    let ty = place.ty(b.locals()).ok();
                    let t = ty.map(|t| self.ty(t) as i64).unwrap_or(-1);
                    format!("[\"drop\",{},{},{}]", self.place(place), target, t)
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    format!("[\"call\",{},{},{},{}]", self.op(func), self.ops(args), self.place(destination), target.map(|x| x.to_string()).unwrap_or("null".into()))
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = format!("{:?}", msg);
                    let mk = m.split(|c: char| !c.is_alphanumeric()).next().unwrap_or("").to_string();
                    let bop = if let AssertMessage::Overflow(b, x, y) = msg { format!("[{},{},{}]", q(&format!("{:?}", b)), self.op(x), self.op(y)) }
                        else if let AssertMessage::BoundsCheck { len, index } = msg { format!("[\"Bounds\",{},{}]", self.op(len), self.op(index)) } else { "null".into() };
                    format!("[\"assert\",{},{},{},{},{}]", self.op(cond), expected, q(&mk), target, bop)
                }
                k => format!("[\"?\",{}]", q(&format!("{:?}", k))),
            };
            bbs.push(format!("{{\"s\":[{}],\"t\":{},\"l\":{}}}", st.join(","), ts, ln));
        }
        let _ = write!(s, ",\"blocks\":[{}]", bbs.join(","));
        s
    }
}

fn analyze() -> ControlFlow<()> {
    let out = match std::env::var("UFLOW_MIR_OUT") { Ok(x) => x, Err(_) => return ControlFlow::Continue(()) };
    let mut c = Ctx { types: BTreeMap::new(), ty_ids: HashMap::new(), queue: VecDeque::new(), inst_ids: HashMap::new(), insts: vec![], statics: BTreeMap::new(), next_ty: 0 };
    let mut roots = vec![];
    let mut generic = vec![];
    let mut gdefs = vec![];
    for it in all_local_items() {
        match it.kind() {
            ItemKind::Fn => {
                if it.requires_monomorphization() { generic.push(q(&it.name())); if let TyKind::RigidTy(RigidTy::FnDef(d, _)) = it.ty().kind() { gdefs.push((it.name(), d)); } continue; }
                if let Ok(i) = Instance::try_from(it) { let id = c.inst(i); roots.push(id.to_string()); }
            }
            ItemKind::Static => { if let Ok(s) = StaticDef::try_from(it) { c.stat(s); } }
            _ => {}
        }
    }
    let mut bodies: HashMap<usize, String> = HashMap::new();
    // type arguments of the public generic entry points that are reached, reused for those that are not
    let mut seen_args: Vec<GenericArgs> = vec![];
    let mut reached: Vec<String> = vec![];
    loop {
        while let Some(i) = c.queue.pop_front() {
            let id = c.inst(i);
            if bodies.contains_key(&id) { continue; }
            bodies.insert(id, String::new());
            if i.def.krate().is_local {
                reached.push(i.def.name());
                if i.args().0.len() == 1 && seen_args.len() < 64 { seen_args.push(i.args()); }
            }
            if let Some(b) = i.body() {
                let s = c.body(i, &b);
                bodies.insert(id, s);
            }
        }
        let todo: Vec<_> = gdefs.iter().filter(|(n, _)| !reached.contains(n)).cloned().collect();
        if todo.is_empty() { break; }
        let mut more = false;
        for (n, d) in todo {
            reached.push(n.clone());
            if !n.contains("connect") { continue; }
            for a in seen_args.clone() {
                let is_addr = a.0.iter().all(|x| if let GenericArgKind::Type(t) = x { matches!(t.kind(), TyKind::RigidTy(RigidTy::Tuple(_))) } else { false });
                if !is_addr { continue; }
                if let Ok(i) = Instance::resolve(d, &a) { let id = c.inst(i); roots.push(id.to_string()); more = true; break; }
            }
        }
        if !more { break; }
    }
    // every ADT and impl of the crate, for structural rules
    let mut o = String::from("{\"fns\":[\n");
    for (k, (h, _)) in c.insts.iter().enumerate() {
        if k > 0 { o.push_str(",\n"); }
        match bodies.get(&k) { Some(b) if !b.is_empty() => { let _ = write!(o, "{{{},{}}}", h, b); } _ => { let _ = write!(o, "{{{}}}", h); } }
    }
    o.push_str("],\n\"types\":{\n");
    let ts: Vec<String> = c.types.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect();
    o.push_str(&ts.join(",\n"));
    o.push_str("},\n\"statics\":{\n");
    let ss: Vec<String> = c.statics.iter().map(|(k, v)| format!("{}:{}", q(k), v)).collect();
    o.push_str(&ss.join(",\n"));
    let _ = write!(o, "}},\n\"roots\":[{}],\"generic\":[{}],\"crate\":{}}}\n", roots.join(","), generic.join(","), q(&local_crate().name.to_string()));
    o.truncate(o.len() - 2);
    let mut im = vec![];
    for d in local_crate().trait_impls() {
        let t = d.trait_impl().value;
        let st = t.self_ty();
        let sn = match st.kind() { TyKind::RigidTy(RigidTy::Adt(a, _)) => a.name(), _ => format!("{}", st) };
        let sp = d.span();
        im.push(format!("[{},{},{},{}]", q(&t.def_id.name()), q(&sn), q(&sp.get_filename()), sp.get_lines().start_line));
    }
    let _ = write!(o, ",\"impls\":[{}]}}\n", im.join(","));
    let tmp = format!("{}.tmp{}", out, std::process::id());
    std::fs::write(&tmp, o).expect("write MIR");
    std::fs::rename(&tmp, &out).expect("rename MIR");
    ControlFlow::Continue(())
}

fn main() {
    // used as RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
    let mut args: Vec<String> = std::env::args().collect();
    if args.len() > 1 && args[1].ends_with("rustc") { args.remove(1); }
    let want = std::env::var("UFLOW_MIR_CRATE").unwrap_or_else(|_| "uflow".into());
    let is = args.windows(2).any(|w| w[0] == "--crate-name" && w[1] == want) && !args.iter().any(|a| a == "--test");
    if is {
        for a in ["-Zmir-opt-level=0", "-Zinline-mir=no", "-Coverflow-checks=on", "-Cdebug-assertions=on", "-Awarnings"] { args.push(a.into()); }
        let r = rustc_public::run!(&args, analyze);
        match r { Ok(_) => (), Err(CompilerError::Interrupted(_)) | Err(CompilerError::Skipped) => (), Err(_) => std::process::exit(1) }
    } else {
        let r = rustc_public::run!(&args, || -> ControlFlow<()> { ControlFlow::Continue(()) });
        match r { Ok(_) => (), Err(CompilerError::Interrupted(_)) | Err(CompilerError::Skipped) => (), Err(_) => std::process::exit(1) }
    }
}

fn vx(v: &VariantIdx) -> usize {
    // VariantIdx is an opaque index; its debug form is `VariantIdx(n)`
    format!("{:?}", v).chars().filter(|c| c.is_ascii_digit()).collect::<String>().parse().unwrap()
}
