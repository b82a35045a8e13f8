// MIR extractor: a rustc_public (stable MIR) driver used as RUSTC_WORKSPACE_WRAPPER.
//
// For the crate named in $VX_CRATE it dumps, as JSON into $VX_OUT, the monomorphic MIR of every
// function instance reachable from that crate's public functions (descending into the repo's
// crates always, into core/alloc/std unless the function is listed in $VX_STOP, and never into
// other dependencies), with the types, layouts, constants and source spans it mentions.
// Nothing of the analysed program is executed.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
#[macro_use]
extern crate rustc_public;

use rustc_public::abi::{FieldsShape, TagEncoding, VariantsShape};
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::{CrateDef, CrateDefType};
use std::collections::{HashMap, HashSet, VecDeque};
use std::fmt::Write as _;
use std::ops::ControlFlow;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn arr<I: IntoIterator<Item = String>>(it: I) -> String {
    let mut o = String::from("[");
    let mut first = true;
    for s in it {
        if !first {
            o.push(',');
        }
        first = false;
        o.push_str(&s);
    }
    o.push(']');
    o
}

struct Cx {
    ty_ids: HashMap<Ty, usize>,
    ty_out: Vec<Option<String>>,
    ty_queue: VecDeque<Ty>,
    allocs: HashMap<usize, String>,
    alloc_queue: VecDeque<rustc_public::mir::alloc::AllocId>,
    alloc_ids: HashMap<rustc_public::mir::alloc::AllocId, usize>,
    seen: HashMap<String, ()>,
    queue: VecDeque<(Instance, usize)>,
    stop: Vec<String>,
    repo: HashSet<String>,
    depth: usize,
    max_depth: usize,
}

impl Cx {
    fn ty(&mut self, t: Ty) -> usize {
        if let Some(i) = self.ty_ids.get(&t) {
            return *i;
        }
        let i = self.ty_out.len();
        self.ty_ids.insert(t, i);
        self.ty_out.push(None);
        self.ty_queue.push_back(t);
        i
    }

    fn gargs(&mut self, a: &GenericArgs) -> String {
        let v: Vec<String> = a
            .0
            .iter()
            .filter_map(|g| match g {
                GenericArgKind::Type(t) => Some(self.ty(*t).to_string()),
                GenericArgKind::Const(c) => Some(match c.eval_target_usize() {
                    Ok(n) => format!("[\"c\",{}]", n),
                    Err(_) => "[\"c\",null]".into(),
                }),
                GenericArgKind::Lifetime(_) => None,
            })
            .collect();
        arr(v)
    }

    fn layout(&mut self, t: Ty) -> String {
        // layout() can panic (ICE) on unsized/odd types; restrict to sized ones.
        match t.layout() {
            Ok(l) => {
                let s = l.shape();
                let offs = |f: &FieldsShape| -> String {
                    match f {
                        FieldsShape::Arbitrary { offsets } => {
                            arr(offsets.iter().map(|o| o.bytes().to_string()))
                        }
                        FieldsShape::Array { stride, count } => {
                            format!("{{\"stride\":{},\"count\":{}}}", stride.bytes(), count)
                        }
                        _ => "null".into(),
                    }
                };
                let f = offs(&s.fields);
                let v = match &s.variants {
                    VariantsShape::Empty => "null".to_string(),
                    VariantsShape::Single { index } => {
                        format!("{{\"single\":{}}}", rustc_public_idx(index))
                    }
                    VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                        let enc = match tag_encoding {
                            TagEncoding::Direct => "\"direct\"".to_string(),
                            TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                format!(
                                    "{{\"untagged\":{},\"lo\":{},\"hi\":{},\"start\":{}}}",
                                    rustc_public_idx(untagged_variant),
                                    rustc_public_idx(niche_variants.start()),
                                    rustc_public_idx(niche_variants.end()),
                                    niche_start
                                )
                            }
                        };
                        let vs = arr(variants.iter().map(|v| {
                            arr(v.offsets.iter().map(|o| o.bytes().to_string()))
                        }));
                        format!(
                            "{{\"tag\":{},\"tag_field\":{},\"enc\":{},\"offs\":{}}}",
                            esc(&format!("{:?}", tag)),
                            tag_field,
                            enc,
                            vs
                        )
                    }
                };
                format!("{{\"size\":{},\"f\":{},\"v\":{}}}", s.size.bytes(), f, v)
            }
            Err(_) => "null".into(),
        }
    }

    fn emit_ty(&mut self, t: Ty) -> String {
        let k = t.kind();
        let name = format!("{}", t);
        let r = match &k {
            TyKind::RigidTy(r) => r.clone(),
            other => return format!("{{\"k\":\"other\",\"n\":{}}}", esc(&format!("{:?}", other))),
        };
        let mut body = match &r {
            RigidTy::Bool => "\"k\":\"bool\"".to_string(),
            RigidTy::Char => "\"k\":\"char\"".to_string(),
            RigidTy::Int(i) => format!("\"k\":\"int\",\"w\":{},\"s\":true", i.num_bytes() * 8),
            RigidTy::Uint(i) => format!("\"k\":\"int\",\"w\":{},\"s\":false", i.num_bytes() * 8),
            RigidTy::Float(f) => format!(
                "\"k\":\"float\",\"w\":{}",
                match f {
                    FloatTy::F16 => 16,
                    FloatTy::F32 => 32,
                    FloatTy::F64 => 64,
                    FloatTy::F128 => 128,
                }
            ),
            RigidTy::Str => "\"k\":\"str\"".to_string(),
            RigidTy::Never => "\"k\":\"never\"".to_string(),
            RigidTy::Array(e, n) => {
                let n = n.eval_target_usize().map(|x| x.to_string()).unwrap_or("null".into());
                format!("\"k\":\"array\",\"e\":{},\"len\":{}", self.ty(*e), n)
            }
            RigidTy::Slice(e) => format!("\"k\":\"slice\",\"e\":{}", self.ty(*e)),
            RigidTy::RawPtr(e, m) => {
                format!("\"k\":\"ptr\",\"e\":{},\"m\":{}", self.ty(*e), *m == Mutability::Mut)
            }
            RigidTy::Ref(_, e, m) => {
                format!("\"k\":\"ref\",\"e\":{},\"m\":{}", self.ty(*e), *m == Mutability::Mut)
            }
            RigidTy::Tuple(ts) => {
                let v: Vec<String> = ts.iter().map(|t| self.ty(*t).to_string()).collect();
                format!("\"k\":\"tuple\",\"fs\":{}", arr(v))
            }
            RigidTy::Adt(def, args) => {
                let kind = def.kind();
                let mut vs = vec![];
                for v in def.variants() {
                    let d = if kind.is_enum() {
                        def.discriminant_for_variant(v.idx()).val.to_string()
                    } else {
                        "0".into()
                    };
                    let fs: Vec<String> = v
                        .fields()
                        .iter()
                        .map(|f| {
                            let ft = f.ty_with_args(args);
                            format!("[{},{}]", esc(&f.name), self.ty(ft))
                        })
                        .collect();
                    vs.push(format!(
                        "{{\"n\":{},\"d\":{},\"fs\":{}}}",
                        esc(&v.name()),
                        d,
                        arr(fs)
                    ));
                }
                let dty = self.ty(r.discriminant_ty());
                format!(
                    "\"k\":\"adt\",\"ak\":{},\"def\":{},\"crate\":{},\"args\":{},\"vs\":{},\"dty\":{},\"box\":{}",
                    esc(&kind.to_string()),
                    esc(&def.name()),
                    esc(&def.krate().name),
                    self.gargs(args),
                    arr(vs),
                    dty,
                    def.is_box()
                )
            }
            RigidTy::FnDef(def, args) => {
                let res = self.resolve(*def, args, false);
                format!("\"k\":\"fndef\",\"def\":{},\"args\":{},\"inst\":{}", esc(&def.name()), self.gargs(args), res)
            }
            RigidTy::Closure(def, args) => {
                // upvar tuple type is the last generic arg
                let up = args.0.iter().rev().find_map(|g| match g {
                    GenericArgKind::Type(t) => Some(*t),
                    _ => None,
                });
                let u = up.map(|t| self.ty(t).to_string()).unwrap_or("null".into());
                format!("\"k\":\"closure\",\"def\":{},\"up\":{}", esc(&def.name()), u)
            }
            RigidTy::FnPtr(_) => "\"k\":\"fnptr\"".to_string(),
            RigidTy::Dynamic(..) => "\"k\":\"dyn\"".to_string(),
            RigidTy::Pat(t, _) => format!("\"k\":\"pat\",\"e\":{}", self.ty(*t)),
            _ => "\"k\":\"other\"".to_string(),
        };
        let sized = !matches!(r, RigidTy::Str | RigidTy::Slice(_) | RigidTy::Dynamic(..) | RigidTy::Foreign(_));
        if sized && matches!(r, RigidTy::Adt(..) | RigidTy::Tuple(_) | RigidTy::Closure(..) | RigidTy::Array(..)) {
            let l = self.layout(t);
            let _ = write!(body, ",\"lay\":{}", l);
        }
        format!("{{{},\"n\":{}}}", body, esc(&name))
    }

    fn inst_key(i: &Instance) -> String {
        format!("{}#{}", i.name(), i.mangled_name())
    }

    fn push(&mut self, i: Instance) {
        let key = Self::inst_key(&i);
        if self.seen.contains_key(&key) {
            return;
        }
        self.seen.insert(key, ());
        let d = self.depth;
        self.queue.push_back((i, d));
    }

    fn resolve(&mut self, def: FnDef, args: &GenericArgs, ptr: bool) -> String {
        let r = if ptr { Instance::resolve_for_fn_ptr(def, args) } else { Instance::resolve(def, args) };
        match r {
            Ok(i) => {
                let kind = match i.kind {
                    InstanceKind::Item => "item",
                    InstanceKind::Intrinsic => "intrinsic",
                    InstanceKind::LlvmIntrinsic => "llvm",
                    InstanceKind::Virtual { .. } => "virtual",
                    InstanceKind::Shim => "shim",
                };
                let key = Self::inst_key(&i);
                let dname = def_name_of(&i);
                if kind != "virtual" && kind != "llvm" {
                    self.push(i);
                }
                format!("[{},{},{}]", esc(kind), esc(&dname), esc(&key))
            }
            Err(_) => "null".into(),
        }
    }

    fn alloc(&mut self, a: &Allocation) -> String {
        let mut hex = String::with_capacity(a.bytes.len() * 2);
        for b in &a.bytes {
            match b {
                Some(b) => {
                    let _ = write!(hex, "{:02x}", b);
                }
                None => hex.push_str("??"),
            }
        }
        let mut pr = vec![];
        for (off, p) in &a.provenance.ptrs {
            let id = p.0;
            let n = self.alloc_ids.len();
            let idx = *self.alloc_ids.entry(id).or_insert(n);
            if idx == n {
                self.alloc_queue.push_back(id);
            }
            pr.push(format!("[{},{}]", off, idx));
        }
        format!("{{\"b\":\"{}\",\"p\":{}}}", hex, arr(pr))
    }

    fn drain_allocs(&mut self) {
        while let Some(id) = self.alloc_queue.pop_front() {
            let idx = self.alloc_ids[&id];
            let g = GlobalAlloc::from(id);
            let s = match g {
                GlobalAlloc::Memory(a) => {
                    let x = self.alloc(&a);
                    format!("{{\"mem\":{}}}", x)
                }
                GlobalAlloc::Function(i) => {
                    let key = Self::inst_key(&i);
                    self.push(i);
                    format!("{{\"fn\":{}}}", esc(&key))
                }
                GlobalAlloc::Static(s) => {
                    let ty = self.ty(s.ty());
                    let init = match s.eval_initializer() {
                        Ok(a) => self.alloc(&a),
                        Err(_) => "null".into(),
                    };
                    format!("{{\"static\":{},\"ty\":{},\"init\":{}}}", esc(&s.name()), ty, init)
                }
                GlobalAlloc::VTable(t, _) => format!("{{\"vtable\":{}}}", self.ty(t)),
                _ => "{\"unk\":1}".into(),
            };
            self.allocs.insert(idx, s);
        }
    }

    fn place(&mut self, p: &Place) -> String {
        let mut v = vec![];
        for e in &p.projection {
            v.push(match e {
                ProjectionElem::Deref => "[\"d\"]".to_string(),
                ProjectionElem::Field(i, t) => format!("[\"f\",{},{}]", i, self.ty(*t)),
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    format!("[\"ci\",{},{},{}]", offset, min_length, from_end)
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    format!("[\"ss\",{},{},{}]", from, to, from_end)
                }
                ProjectionElem::Downcast(v) => format!("[\"v\",{}]", rustc_public_idx(v)),
                ProjectionElem::OpaqueCast(t) => format!("[\"oc\",{}]", self.ty(*t)),
            });
        }
        format!("[{},{}]", p.local, arr(v))
    }

    fn konst(&mut self, c: &MirConst) -> String {
        let t = self.ty(c.ty());
        match c.kind() {
            ConstantKind::Allocated(a) => {
                let x = self.alloc(a);
                format!("[\"k\",{},{}]", t, x)
            }
            ConstantKind::ZeroSized => format!("[\"z\",{}]", t),
            ConstantKind::Ty(tc) => match tc.kind() {
                TyConstKind::Value(_, a) => {
                    let x = self.alloc(a);
                    format!("[\"k\",{},{}]", t, x)
                }
                _ => format!("[\"z\",{}]", t),
            },
            _ => format!("[\"u\",{}]", t),
        }
    }

    fn op(&mut self, o: &Operand) -> String {
        match o {
            Operand::Copy(p) => format!("[\"c\",{}]", self.place(p)),
            Operand::Move(p) => format!("[\"m\",{}]", self.place(p)),
            Operand::Constant(c) => self.konst(&c.const_),
            Operand::RuntimeChecks(r) => format!("[\"rc\",{}]", esc(&format!("{:?}", r))),
        }
    }

    fn rvalue(&mut self, r: &Rvalue) -> String {
        match r {
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.op(o)),
            Rvalue::Repeat(o, n) => format!(
                "[\"rep\",{},{}]",
                self.op(o),
                n.eval_target_usize().map(|x| x.to_string()).unwrap_or("null".into())
            ),
            Rvalue::Ref(_, bk, p) => {
                let m = matches!(bk, BorrowKind::Mut { .. });
                format!("[\"ref\",{},{}]", self.place(p), m)
            }
            Rvalue::AddressOf(_, p) => format!("[\"addr\",{}]", self.place(p)),
            Rvalue::Len(p) => format!("[\"len\",{}]", self.place(p)),
            Rvalue::Cast(k, o, t) => {
                let ks = match k {
                    CastKind::PointerCoercion(p) => format!("ptr:{:?}", p),
                    other => format!("{:?}", other),
                };
                let o = self.op(o);
                format!("[\"cast\",{},{},{}]", esc(&ks), o, self.ty(*t))
            }
            Rvalue::BinaryOp(b, x, y) => {
                format!("[\"bin\",{},{},{}]", esc(&format!("{:?}", b)), self.op(x), self.op(y))
            }
            Rvalue::CheckedBinaryOp(b, x, y) => {
                format!("[\"cbin\",{},{},{}]", esc(&format!("{:?}", b)), self.op(x), self.op(y))
            }
            Rvalue::UnaryOp(u, x) => format!("[\"un\",{},{}]", esc(&format!("{:?}", u)), self.op(x)),
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(p)),
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"c\",{}]]", self.place(p)),
            Rvalue::Reborrow(_, _, p) => format!("[\"use\",[\"c\",{}]]", self.place(p)),
            Rvalue::Aggregate(k, ops) => {
                let ks = match k {
                    AggregateKind::Array(t) => format!("[\"array\",{}]", self.ty(*t)),
                    AggregateKind::Tuple => "[\"tuple\"]".into(),
                    AggregateKind::Adt(d, v, a, _, f) => {
                        let t = d.ty_with_args(a);
                        format!(
                            "[\"adt\",{},{},{}]",
                            self.ty(t),
                            rustc_public_idx(v),
                            f.map(|x| x.to_string()).unwrap_or("null".into())
                        )
                    }
                    AggregateKind::Closure(d, a) => {
                        let t = Ty::new_closure(*d, a.clone());
                        if self.depth == 0 {
                            // its body, even where only a library function outside the extracted part calls it
                            if let Ok(i) = Instance::resolve_closure(*d, a, ClosureKind::Fn) {
                                self.push(i);
                            }
                        }
                        format!("[\"closure\",{}]", self.ty(t))
                    }
                    AggregateKind::RawPtr(t, _) => format!("[\"rawptr\",{}]", self.ty(*t)),
                    _ => "[\"other\"]".into(),
                };
                let v: Vec<String> = ops.iter().map(|o| self.op(o)).collect();
                format!("[\"agg\",{},{}]", ks, arr(v))
            }
            Rvalue::ThreadLocalRef(i) => format!("[\"tls\",{}]", esc(&i.name())),
        }
    }

    fn emit(&mut self, i: &Instance, body: &Body) -> String {
        let locals: Vec<String> = body.locals().iter().map(|l| self.ty(l.ty).to_string()).collect();
        let mut blocks = vec![];
        for b in &body.blocks {
            let mut ss = vec![];
            for s in &b.statements {
                let line = s.source_info.span.get_lines().start_line;
                match &s.kind {
                    StatementKind::Assign(p, r) => {
                        let p = self.place(p);
                        let r = self.rvalue(r);
                        ss.push(format!("[\"=\",{},{},{}]", p, r, line));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(place);
                        ss.push(format!("[\"sd\",{},{},{}]", p, rustc_public_idx(variant_index), line));
                    }
                    StatementKind::StorageDead(l) => ss.push(format!("[\"dead\",{}]", l)),
                    StatementKind::Intrinsic(NonDivergingIntrinsic::CopyNonOverlapping(c)) => {
                        let (a, b2, n) = (self.op(&c.src), self.op(&c.dst), self.op(&c.count));
                        ss.push(format!("[\"cno\",{},{},{},{}]", a, b2, n, line));
                    }
                    StatementKind::Intrinsic(NonDivergingIntrinsic::Assume(o)) => {
                        let o = self.op(o);
                        ss.push(format!("[\"assume\",{},{}]", o, line));
                    }
                    _ => {}
                }
            }
            let sp = b.terminator.source_info.span;
            let line = sp.get_lines().start_line;
            let file = sp.get_filename();
            let unw = |u: &UnwindAction| match u {
                UnwindAction::Cleanup(b) => b.to_string(),
                _ => "null".into(),
            };
            let t = match &b.terminator.kind {
                TerminatorKind::Goto { target } => format!("[\"goto\",{}]", target),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let br: Vec<String> =
                        targets.branches().map(|(v, b)| format!("[\"{}\",{}]", v, b)).collect();
                    let d = self.op(discr);
                    format!("[\"switch\",{},{},{}]", d, arr(br), targets.otherwise())
                }
                TerminatorKind::Resume => "[\"resume\"]".into(),
                TerminatorKind::Abort => "[\"abort\"]".into(),
                TerminatorKind::Return => "[\"ret\"]".into(),
                TerminatorKind::Unreachable => "[\"unreach\"]".into(),
                TerminatorKind::Drop { place, target, unwind } => {
                    let pt = place.ty(body.locals()).ok();
                    let g = match pt {
                        Some(t) => {
                            let inst = Instance::resolve_drop_in_place(t);
                            if inst.is_empty_shim() {
                                "null".to_string()
                            } else {
                                let key = Self::inst_key(&inst);
                                self.push(inst);
                                esc(&key)
                            }
                        }
                        None => "null".into(),
                    };
                    let p = self.place(place);
                    format!("[\"drop\",{},{},{},{}]", p, g, target, unw(unwind))
                }
                TerminatorKind::Call { func, args, destination, target, unwind } => {
                    let f = self.callee(func, body);
                    let a: Vec<String> = args.iter().map(|o| self.op(o)).collect();
                    let d = self.place(destination);
                    format!(
                        "[\"call\",{},{},{},{},{}]",
                        f,
                        arr(a),
                        d,
                        target.map(|t| t.to_string()).unwrap_or("null".into()),
                        unw(unwind)
                    )
                }
                TerminatorKind::Assert { cond, expected, msg, target, unwind } => {
                    let m = match msg {
                        AssertMessage::BoundsCheck { len, index } => {
                            let (l, ix) = (self.op(len), self.op(index));
                            format!("[\"bounds\",{},{}]", l, ix)
                        }
                        AssertMessage::Overflow(b, ..) => format!("[\"overflow\",{}]", esc(&format!("{:?}", b))),
                        AssertMessage::OverflowNeg(_) => "[\"overflow\",\"Neg\"]".into(),
                        AssertMessage::DivisionByZero(_) => "[\"div0\"]".into(),
                        AssertMessage::RemainderByZero(_) => "[\"rem0\"]".into(),
                        AssertMessage::MisalignedPointerDereference { .. } => "[\"misalign\"]".into(),
                        AssertMessage::NullPointerDereference => "[\"null\"]".into(),
                        _ => "[\"other\"]".into(),
                    };
                    let c = self.op(cond);
                    format!("[\"assert\",{},{},{},{},{}]", c, expected, m, target, unw(unwind))
                }
                TerminatorKind::InlineAsm { .. } => "[\"asm\"]".into(),
            };
            blocks.push(format!("{{\"s\":{},\"t\":{},\"l\":{},\"f\":{}}}", arr(ss), t, line, esc(&file)));
        }
        let sp = body.span;
        let names: Vec<String> = body
            .var_debug_info
            .iter()
            .filter_map(|v| v.local().map(|l| format!("[{},{}]", l, esc(&v.name))))
            .collect();
        let spread = body.spread_arg().map(|x| x.to_string()).unwrap_or("null".into());
        let args = self.gargs(&i.args());
        format!(
            "{{\"name\":{},\"def\":{},\"crate\":{},\"args\":{},\"argc\":{},\"spread\":{},\"locals\":{},\"names\":{},\"blocks\":{},\"file\":{},\"line\":{}}}",
            esc(&i.name()),
            esc(&def_name_of(i)),
            esc(&crate_of(i)),
            args,
            body.arg_locals().len(),
            spread,
            arr(locals),
            arr(names),
            arr(blocks),
            esc(&sp.get_filename()),
            sp.get_lines().start_line
        )
    }

    fn callee(&mut self, func: &Operand, body: &Body) -> String {
        if let Operand::Constant(c) = func {
            if let TyKind::RigidTy(RigidTy::FnDef(def, args)) = c.const_.ty().kind() {
                let r = self.resolve(def, &args, false);
                let g = self.gargs(&args);
                return format!("[\"fn\",{},{},{}]", esc(&def.name()), g, r);
            }
        }
        let _ = body;
        let o = self.op(func);
        format!("[\"dyn\",{}]", o)
    }
}

fn rustc_public_idx(v: &VariantIdx) -> usize {
    // VariantIdx exposes its index only through Debug ("VariantIdx(3, ..)").
    let d = format!("{:?}", v);
    let n: String = d.chars().skip_while(|c| !c.is_ascii_digit()).take_while(|c| c.is_ascii_digit()).collect();
    n.parse().expect("VariantIdx debug format")
}

fn def_name_of(i: &Instance) -> String {
    use rustc_public::CrateDef;
    struct D(rustc_public::DefId);
    impl CrateDef for D {
        fn def_id(&self) -> rustc_public::DefId {
            self.0
        }
    }
    D(i.def.def_id()).name()
}

fn crate_of(i: &Instance) -> String {
    use rustc_public::CrateDef;
    struct D(rustc_public::DefId);
    impl CrateDef for D {
        fn def_id(&self) -> rustc_public::DefId {
            self.0
        }
    }
    D(i.def.def_id()).krate().name
}

fn analyze() -> ControlFlow<(), ()> {
    let out = std::env::var("VX_OUT").unwrap();
    let stop: Vec<String> = std::fs::read_to_string(std::env::var("VX_STOP").unwrap_or_default())
        .unwrap_or_default()
        .lines()
        .map(|l| l.trim().to_string())
        .filter(|l| !l.is_empty() && !l.starts_with('#'))
        .collect();
    let repo: HashSet<String> =
        ["stratumv2", "noiseexplorer_nx"].iter().map(|s| s.to_string()).collect();
    let local = rustc_public::local_crate();
    let mut repo = repo;
    repo.insert(local.name.clone());
    let mut cx = Cx {
        ty_ids: HashMap::new(),
        ty_out: vec![],
        ty_queue: VecDeque::new(),
        allocs: HashMap::new(),
        alloc_queue: VecDeque::new(),
        alloc_ids: HashMap::new(),
        seen: HashMap::new(),
        queue: VecDeque::new(),
        stop,
        repo,
        depth: 0,
        max_depth: 40,
    };
    let mut roots = vec![];
    for f in local.fn_defs() {
        if f.name().rsplit("::").next().unwrap().starts_with("g_") {
            continue;
        }
        if let Ok(i) = Instance::resolve(f, &GenericArgs(vec![])) {
            if i.has_body() {
                roots.push(esc(&Cx::inst_key(&i)));
                cx.push(i);
            }
        }
    }
    // generic roots (g_*<T: Trait>) instantiated at every implementing type of the repo
    let mut groots = vec![];
    let lf = local.fn_defs();
    for c in ["stratumv2", "noiseexplorer_nx"].iter().flat_map(|n| rustc_public::find_crates(n)) {
        for im in c.trait_impls() {
            let tr = im.trait_impl().value;
            let tn = tr.def_id.name();
            let fns: &[&str] = match tn.rsplit("::").next().unwrap() {
                "Serializable" => &["g_ser", "g_serv"],
                "Deserializable" => &["g_de", "g_dev"],
                "Frameable" => &["g_frame", "g_unframe", "g_mt"],
                "PartialEq" => &["g_eq"],
                "Clone" => &["g_clone"],
                "Debug" => &["g_debug"],
                "Display" => &["g_display"],
                "LowerHex" => &["g_lowerhex"],
                _ => continue,
            };
            let st = tr.self_ty();
            let mut stn = format!("{}", st);
            // what is printed matters where secrets are
            if ["g_debug", "g_display", "g_lowerhex"].contains(&fns[0])
                && !["noiseexplorer_nx::", "stratumv2::network::", "stratumv2::noise::"].iter().any(|m| stn.starts_with(m))
            {
                continue;
            }
            // PartialEq has the right operand's type as its second argument
            let mut ga = vec![GenericArgKind::Type(st)];
            if fns[0] == "g_eq" {
                if let Some(GenericArgKind::Type(r)) = tr.args().0.get(1) {
                    stn = format!("{} == {}", stn, r);
                    ga.push(GenericArgKind::Type(*r));
                }
            }
            if let TyKind::RigidTy(RigidTy::Adt(_, a)) = st.kind() {
                if !a.0.is_empty() {
                    continue; // lifetime-parametric: explicit witness functions
                }
            }
            for f in &lf {
                let n = f.name();
                let n = n.rsplit("::").next().unwrap().to_string();
                if !fns.contains(&n.as_str()) {
                    continue;
                }
                if let Ok(i) = Instance::resolve(*f, &GenericArgs(ga.clone())) {
                    groots.push(format!("[{},{},{},{}]", esc(&n), esc(&stn), cx.ty(st), esc(&Cx::inst_key(&i))));
                    cx.push(i);
                }
            }
        }
    }
    // every trait impl of the repo crates, for auto-enumeration
    let mut impls = vec![];
    let mut defs = vec![];
    for cn in ["stratumv2", "noiseexplorer_nx"] {
        for c in rustc_public::find_crates(cn) {
            for im in c.trait_impls() {
                let tr = im.trait_impl();
                let tr = tr.value;
                let st = cx.ty(tr.self_ty());
                let ga = cx.gargs(tr.args());
                impls.push(format!("[{},{},{}]", esc(&tr.def_id.name()), st, ga));
            }
            for f in c.fn_defs() {
                defs.push(format!("[{},{}]", esc(&f.name()), esc(&f.span().get_filename())));
            }
        }
    }
    let mut fns: Vec<String> = vec![];
    let mut nobody: Vec<String> = vec![];
    loop {
        cx.drain_allocs();
        if let Some(t) = cx.ty_queue.pop_front() {
            let s = cx.emit_ty(t);
            let i = cx.ty_ids[&t];
            cx.ty_out[i] = Some(s);
            continue;
        }
        if let Some((i, d)) = cx.queue.pop_front() {
            let key = Cx::inst_key(&i);
            let kr = crate_of(&i);
            let dn = def_name_of(&i);
            let in_repo = cx.repo.contains(&kr);
            let is_std = kr == "core" || kr == "alloc" || kr == "std";
            let is_shim = matches!(i.kind, InstanceKind::Shim);
            let stopped = !in_repo
                && cx.stop.iter().any(|s| {
                    if let Some(p) = s.strip_suffix('*') {
                        dn.starts_with(p)
                    } else {
                        dn == *s
                    }
                });
            let go = in_repo || ((is_std || is_shim) && !stopped && d < cx.max_depth);
            if go && i.has_body() && !matches!(i.kind, InstanceKind::Intrinsic) {
                if let Some(b) = i.body() {
                    cx.depth = if in_repo { 0 } else { d + 1 };
                    let s = cx.emit(&i, &b);
                    fns.push(format!("{}:{}", esc(&key), s));
                    continue;
                }
            }
            nobody.push(format!("[{},{},{}]", esc(&key), esc(&dn), esc(&kr)));
            continue;
        }
        break;
    }
    let types = arr(cx.ty_out.iter().map(|t| t.clone().unwrap_or("null".into())));
    let mut al: Vec<(usize, String)> = cx.allocs.iter().map(|(k, v)| (*k, v.clone())).collect();
    al.sort();
    let allocs = arr(al.iter().map(|(_, v)| v.clone()));
    let j = format!(
        "{{\"types\":{},\"allocs\":{},\"roots\":{},\"groots\":{},\"impls\":{},\"defs\":{},\"nobody\":{},\"fns\":{{{}}}}}",
        types,
        allocs,
        arr(roots),
        arr(groots),
        arr(impls),
        arr(defs),
        arr(nobody),
        fns.join(",\n")
    );
    std::fs::write(out, j).unwrap();
    ControlFlow::Continue(())
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // as RUSTC_WORKSPACE_WRAPPER, argv[1] is the path of the real rustc
    let want = std::env::var("VX_CRATE").unwrap_or_default();
    let this = args
        .iter()
        .position(|a| a == "--crate-name")
        .and_then(|p| args.get(p + 1).cloned())
        .unwrap_or_default();
    if this == want && !want.is_empty() {
        args.remove(1);
        let r = run!(&args, analyze);
        if r.is_err() {
            std::process::exit(1);
        }
    } else {
        let st = std::process::Command::new(&args[1]).args(&args[2..]).status().expect("rustc");
        std::process::exit(st.code().unwrap_or(1));
    }
}
