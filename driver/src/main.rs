//! A compiler driver that dumps the monomorphic MIR reachable from a crate as JSON.
//!
//! It is injected with RUSTC_WORKSPACE_WRAPPER; a crate is dumped when its name is listed in
//! MIRDUMP_CRATES (comma separated), into $MIRDUMP_OUT/<crate>.json; any other crate is compiled
//! normally. Nothing of the analysed program is executed.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public_bridge;
#[macro_use]
extern crate rustc_public;

use rustc_public::abi::{FieldsShape, TagEncoding, VariantsShape};
use rustc_public::mir::alloc::{AllocId, GlobalAlloc};
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::{CrateDef, CrateDefType};
use rustc_public_bridge::IndexedVal;
use std::collections::{HashMap, VecDeque};
use std::fmt::Write as _;
use std::ops::ControlFlow;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn arr<I: IntoIterator<Item = String>>(it: I) -> String {
    let v: Vec<String> = it.into_iter().collect();
    format!("[{}]", v.join(","))
}

#[derive(Default)]
struct Cx {
    tys: HashMap<Ty, usize>,
    ty_json: Vec<Option<String>>,
    ty_queue: VecDeque<(usize, Ty)>,
    insts: HashMap<Instance, usize>,
    inst_list: Vec<Instance>,
    inst_json: Vec<String>,
    allocs: HashMap<AllocId, usize>,
    alloc_list: Vec<AllocId>,
    files: HashMap<String, usize>,
    file_list: Vec<String>,
}

impl Cx {
    fn ty(&mut self, t: Ty) -> usize {
        if let Some(&i) = self.tys.get(&t) {
            return i;
        }
        let i = self.ty_json.len();
        self.tys.insert(t, i);
        self.ty_json.push(None);
        self.ty_queue.push_back((i, t));
        i
    }
    fn inst(&mut self, i: Instance) -> usize {
        if let Some(&k) = self.insts.get(&i) {
            return k;
        }
        let k = self.inst_list.len();
        self.insts.insert(i, k);
        self.inst_list.push(i);
        k
    }
    fn alloc_id(&mut self, a: AllocId) -> usize {
        if let Some(&k) = self.allocs.get(&a) {
            return k;
        }
        let k = self.alloc_list.len();
        self.allocs.insert(a, k);
        self.alloc_list.push(a);
        k
    }
    fn file(&mut self, s: String) -> usize {
        if let Some(&k) = self.files.get(&s) {
            return k;
        }
        let k = self.file_list.len();
        self.files.insert(s.clone(), k);
        self.file_list.push(s);
        k
    }
    fn span(&mut self, s: Span) -> String {
        let f = self.file(s.get_filename());
        format!("[{},{}]", f, s.get_lines().start_line)
    }
    fn alloc(&mut self, a: &Allocation) -> String {
        let mut b = String::new();
        let mut undef = false;
        for x in &a.bytes {
            match x {
                Some(v) => {
                    let _ = write!(b, "{:02x}", v);
                }
                None => {
                    undef = true;
                    b.push_str("__")
                }
            }
        }
        let p = arr(a
            .provenance
            .ptrs
            .iter()
            .map(|(o, p)| format!("[{},{}]", o, self.alloc_id(p.0))));
        format!(
            "{{\"b\":\"{}\",\"u\":{},\"p\":{},\"m\":{}}}",
            b,
            undef,
            p,
            a.mutability == Mutability::Mut
        )
    }
    fn tyconst(&mut self, c: &TyConst) -> String {
        match c.eval_target_usize() {
            Ok(v) => format!("{}", v),
            Err(_) => match c.kind() {
                TyConstKind::Value(_, a) => format!("{{\"alloc\":{}}}", self.alloc(a)),
                k => esc(&format!("{:?}", k)),
            },
        }
    }
    fn gargs(&mut self, a: &GenericArgs) -> String {
        arr(a.0.iter().map(|g| match g {
            GenericArgKind::Lifetime(_) => "null".to_string(),
            GenericArgKind::Type(t) => format!("[\"t\",{}]", self.ty(*t)),
            GenericArgKind::Const(c) => format!("[\"k\",{}]", self.tyconst(c)),
        }))
    }
    fn layout(&mut self, t: Ty) -> String {
        // Layouts of types with bound regions or trait objects are neither needed nor computable here.
        if format!("{}", t).contains("dyn ") || format!("{:?}", t.kind()).contains("ReBound") {
            return "null".into();
        }
        let Ok(l) = t.layout() else { return "null".into() };
        let s = l.shape();
        let fields = match &s.fields {
            FieldsShape::Primitive => "[\"p\"]".to_string(),
            FieldsShape::Union(n) => format!("[\"u\",{}]", n),
            FieldsShape::Array { stride, count } => format!("[\"a\",{},{}]", stride.bytes(), count),
            FieldsShape::Arbitrary { offsets } => {
                format!("[\"f\",{}]", arr(offsets.iter().map(|o| o.bytes().to_string())))
            }
        };
        let vars = match &s.variants {
            VariantsShape::Empty => "[\"e\"]".to_string(),
            VariantsShape::Single { index } => format!("[\"s\",{}]", index.to_index()),
            VariantsShape::Multiple { tag: _, tag_encoding, tag_field, variants } => {
                let enc = match tag_encoding {
                    TagEncoding::Direct => "[\"d\"]".to_string(),
                    TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => format!(
                        "[\"n\",{},{},{},{}]",
                        untagged_variant.to_index(),
                        niche_variants.start().to_index(),
                        niche_variants.end().to_index(),
                        niche_start
                    ),
                };
                format!(
                    "[\"m\",{},{},{}]",
                    enc,
                    tag_field,
                    arr(variants
                        .iter()
                        .map(|v| arr(v.offsets.iter().map(|o| o.bytes().to_string()))))
                )
            }
        };
        format!(
            "{{\"size\":{},\"align\":{},\"fields\":{},\"variants\":{}}}",
            if s.is_unsized() { "null".to_string() } else { s.size.bytes().to_string() },
            s.abi_align,
            fields,
            vars
        )
    }
    fn ty_body(&mut self, t: Ty) -> String {
        let name = esc(&format!("{}", t));
        let k = match t.kind() {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool => "\"k\":\"bool\"".into(),
                RigidTy::Char => "\"k\":\"char\"".into(),
                RigidTy::Int(i) => format!("\"k\":\"int\",\"bits\":{}", i.num_bytes() * 8),
                RigidTy::Uint(i) => format!("\"k\":\"uint\",\"bits\":{}", i.num_bytes() * 8),
                RigidTy::Float(_) => "\"k\":\"float\"".into(),
                RigidTy::Adt(d, a) => {
                    let kind = match d.kind() {
                        AdtKind::Enum => "enum",
                        AdtKind::Union => "union",
                        AdtKind::Struct => "struct",
                    };
                    let is_enum = kind == "enum";
                    let vs = arr(d.variants().into_iter().map(|v| {
                        let discr = if is_enum {
                            d.discriminant_for_variant(v.idx()).val.to_string()
                        } else {
                            "0".into()
                        };
                        let fs = arr(v.fields().into_iter().map(|f| {
                            format!("[{},{}]", esc(&f.name), self.ty(f.ty_with_args(&a)))
                        }));
                        format!("[{},{},{}]", esc(&v.name()), discr, fs)
                    }));
                    let repr = esc(&format!("{:?}", d.repr()));
                    let dt = if is_enum {
                        t.kind().discriminant_ty().map(|x| self.ty(x).to_string())
                    } else {
                        None
                    }
                    .unwrap_or("null".into());
                    let g = self.gargs(&a);
                    let sp = self.span(d.span());
                    format!(
                        "\"k\":\"adt\",\"adt\":\"{}\",\"def\":{},\"args\":{},\"box\":{},\"vs\":{},\"dty\":{},\"repr\":{},\"span\":{}",
                        kind,
                        esc(&d.name()),
                        g,
                        d.is_box(),
                        vs,
                        dt,
                        repr,
                        sp
                    )
                }
                RigidTy::Foreign(_) => "\"k\":\"foreign\"".into(),
                RigidTy::Str => "\"k\":\"str\"".into(),
                RigidTy::Array(e, n) => {
                    format!("\"k\":\"array\",\"e\":{},\"n\":{}", self.ty(e), self.tyconst(&n))
                }
                RigidTy::Pat(b, _) => format!("\"k\":\"pat\",\"e\":{}", self.ty(b)),
                RigidTy::Slice(e) => format!("\"k\":\"slice\",\"e\":{}", self.ty(e)),
                RigidTy::RawPtr(e, m) => {
                    format!("\"k\":\"ptr\",\"e\":{},\"mut\":{}", self.ty(e), m == Mutability::Mut)
                }
                RigidTy::Ref(_, e, m) => {
                    format!("\"k\":\"ref\",\"e\":{},\"mut\":{}", self.ty(e), m == Mutability::Mut)
                }
                RigidTy::FnDef(d, a) => {
                    let inst = Instance::resolve(d, &a).ok().map(|i| self.inst(i).to_string());
                    format!(
                        "\"k\":\"fndef\",\"def\":{},\"inst\":{},\"args\":{}",
                        esc(&d.name()),
                        inst.unwrap_or("null".into()),
                        self.gargs(&a)
                    )
                }
                RigidTy::FnPtr(s) => {
                    let sig = s.skip_binder();
                    let ins = arr(sig.inputs().iter().map(|x| self.ty(*x).to_string()));
                    format!("\"k\":\"fnptr\",\"ins\":{},\"out\":{}", ins, self.ty(sig.output()))
                }
                RigidTy::Closure(d, a) => {
                    let up = a.0.iter().rev().find_map(|g| g.ty().copied());
                    let upv = match up.map(|t| t.kind()) {
                        Some(TyKind::RigidTy(RigidTy::Tuple(ts))) => {
                            arr(ts.iter().map(|x| self.ty(*x).to_string()))
                        }
                        _ => "[]".into(),
                    };
                    let call = [ClosureKind::Fn, ClosureKind::FnMut, ClosureKind::FnOnce]
                        .into_iter()
                        .find_map(|k| Instance::resolve_closure(d, &a, k).ok())
                        .map(|i| self.inst(i).to_string())
                        .unwrap_or("null".into());
                    format!(
                        "\"k\":\"closure\",\"def\":{},\"up\":{},\"inst\":{}",
                        esc(&d.name()),
                        upv,
                        call
                    )
                }
                RigidTy::Dynamic(..) => "\"k\":\"dyn\"".into(),
                RigidTy::Never => "\"k\":\"never\"".into(),
                RigidTy::Tuple(ts) => {
                    format!("\"k\":\"tuple\",\"es\":{}", arr(ts.iter().map(|x| self.ty(*x).to_string())))
                }
                _ => "\"k\":\"other\"".into(),
            },
            _ => "\"k\":\"nonrigid\"".into(),
        };
        let l = self.layout(t);
        format!("{{\"name\":{},{},\"layout\":{}}}", name, k, l)
    }
    fn drain_types(&mut self) {
        while let Some((i, t)) = self.ty_queue.pop_front() {
            let s = self.ty_body(t);
            self.ty_json[i] = Some(s);
        }
    }
    fn place(&mut self, p: &Place) -> String {
        let pr = arr(p.projection.iter().map(|e| match e {
            ProjectionElem::Deref => "\"*\"".into(),
            ProjectionElem::Field(i, t) => format!("[\"f\",{},{}]", i, self.ty(*t)),
            ProjectionElem::Index(l) => format!("[\"i\",{}]", l),
            ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                format!("[\"ci\",{},{},{}]", offset, min_length, from_end)
            }
            ProjectionElem::Subslice { from, to, from_end } => {
                format!("[\"ss\",{},{},{}]", from, to, from_end)
            }
            ProjectionElem::Downcast(v) => format!("[\"d\",{}]", v.to_index()),
            ProjectionElem::OpaqueCast(t) => format!("[\"o\",{}]", self.ty(*t)),
        }));
        format!("[{},{}]", p.local, pr)
    }
    fn konst(&mut self, c: &MirConst) -> String {
        let t = self.ty(c.ty());
        match c.kind() {
            ConstantKind::Allocated(a) => format!("[{},{}]", t, self.alloc(a)),
            ConstantKind::ZeroSized => format!("[{},null]", t),
            ConstantKind::Ty(tc) => match tc.kind() {
                TyConstKind::Value(_, a) => format!("[{},{}]", t, self.alloc(a)),
                TyConstKind::ZSTValue(_) => format!("[{},null]", t),
                k => format!("[{},{}]", t, esc(&format!("{:?}", k))),
            },
            k => format!("[{},{}]", t, esc(&format!("{:?}", k))),
        }
    }
    fn op(&mut self, o: &Operand) -> String {
        match o {
            Operand::Copy(p) => format!("[\"c\",{}]", self.place(p)),
            Operand::Move(p) => format!("[\"m\",{}]", self.place(p)),
            Operand::Constant(c) => format!("[\"k\",{}]", self.konst(&c.const_)),
            Operand::RuntimeChecks(r) => format!("[\"rc\",{}]", esc(&format!("{:?}", r))),
        }
    }
    fn ops(&mut self, v: &[Operand]) -> String {
        arr(v.iter().map(|o| self.op(o)))
    }
    fn rv(&mut self, r: &Rvalue) -> String {
        match r {
            Rvalue::AddressOf(k, p) => {
                format!("[\"addr\",{},{}]", esc(&format!("{:?}", k)), self.place(p))
            }
            Rvalue::Ref(_, k, p) => format!(
                "[\"ref\",{},{}]",
                k.to_mutable_lossy() == Mutability::Mut,
                self.place(p)
            ),
            Rvalue::Aggregate(k, ops) => {
                let kind = match k {
                    AggregateKind::Array(t) => format!("[\"array\",{}]", self.ty(*t)),
                    AggregateKind::Tuple => "[\"tuple\"]".into(),
                    AggregateKind::Adt(d, v, a, _, f) => format!(
                        "[\"adt\",{},{},{}]",
                        self.ty(d.ty_with_args(a)),
                        v.to_index(),
                        f.map(|x| x.to_string()).unwrap_or("null".into())
                    ),
                    AggregateKind::Closure(d, a) => {
                        format!("[\"closure\",{}]", self.ty(Ty::new_closure(*d, a.clone())))
                    }
                    AggregateKind::RawPtr(t, m) => {
                        format!("[\"rawptr\",{},{}]", self.ty(*t), *m == Mutability::Mut)
                    }
                    _ => "[\"coroutine\"]".into(),
                };
                format!("[\"agg\",{},{}]", kind, self.ops(ops))
            }
            Rvalue::BinaryOp(b, x, y) => {
                format!("[\"bin\",\"{:?}\",{},{}]", b, self.op(x), self.op(y))
            }
            Rvalue::CheckedBinaryOp(b, x, y) => {
                format!("[\"cbin\",\"{:?}\",{},{}]", b, self.op(x), self.op(y))
            }
            Rvalue::Cast(k, o, t) => {
                let kk = match k {
                    CastKind::PointerCoercion(c) => format!("PC:{:?}", c),
                    k => format!("{:?}", k),
                };
                format!("[\"cast\",{},{},{}]", esc(&kk), self.op(o), self.ty(*t))
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"c\",{}]]", self.place(p)),
            Rvalue::Reborrow(_, _, p) => format!("[\"use\",[\"c\",{}]]", self.place(p)),
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(p)),
            Rvalue::Len(p) => format!("[\"len\",{}]", self.place(p)),
            Rvalue::Repeat(o, n) => format!("[\"repeat\",{},{}]", self.op(o), self.tyconst(n)),
            Rvalue::ThreadLocalRef(_) => "[\"tls\"]".into(),
            Rvalue::UnaryOp(u, o) => format!("[\"un\",\"{:?}\",{}]", u, self.op(o)),
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.op(o)),
        }
    }
    fn unw(u: &UnwindAction) -> String {
        match u {
            UnwindAction::Cleanup(b) => b.to_string(),
            UnwindAction::Continue => "\"c\"".into(),
            UnwindAction::Unreachable => "\"u\"".into(),
            UnwindAction::Terminate => "\"t\"".into(),
        }
    }
    fn body(&mut self, b: &Body) -> String {
        let locals = arr(b.locals().iter().map(|l| self.ty(l.ty).to_string()));
        let names = arr(b.var_debug_info.iter().filter_map(|v| {
            v.local().map(|l| format!("[{},{}]", l, esc(&v.name)))
        }));
        let mut blocks = vec![];
        for bb in &b.blocks {
            let mut ss = vec![];
            for s in &bb.statements {
                let k = match &s.kind {
                    StatementKind::Assign(p, r) => {
                        format!("\"=\",{},{}", self.place(p), self.rv(r))
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        format!("\"sd\",{},{}", self.place(place), variant_index.to_index())
                    }
                    StatementKind::StorageDead(l) => format!("\"dead\",{}", l),
                    StatementKind::StorageLive(l) => format!("\"live\",{}", l),
                    StatementKind::Intrinsic(NonDivergingIntrinsic::Assume(o)) => {
                        format!("\"assume\",{}", self.op(o))
                    }
                    StatementKind::Intrinsic(NonDivergingIntrinsic::CopyNonOverlapping(c)) => {
                        format!(
                            "\"cno\",{},{},{}",
                            self.op(&c.src),
                            self.op(&c.dst),
                            self.op(&c.count)
                        )
                    }
                    _ => continue,
                };
                ss.push(format!("[{},{}]", s.source_info.span.get_lines().start_line, k));
            }
            let t = &bb.terminator;
            let sp = self.span(t.source_info.span);
            let tk = match &t.kind {
                TerminatorKind::Goto { target } => format!("\"goto\",{}", target),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let br = arr(targets.branches().map(|(v, t)| format!("[{},{}]", v, t)));
                    format!("\"switch\",{},{},{}", self.op(discr), br, targets.otherwise())
                }
                TerminatorKind::Resume => "\"resume\"".into(),
                TerminatorKind::Abort => "\"abort\"".into(),
                TerminatorKind::Return => "\"ret\"".into(),
                TerminatorKind::Unreachable => "\"unreachable\"".into(),
                TerminatorKind::Drop { place, target, unwind } => {
                    let ty = place.ty(b.locals()).unwrap();
                    let i = Instance::resolve_drop_in_place(ty);
                    let ii = if i.is_empty_shim() { "null".into() } else { self.inst(i).to_string() };
                    format!("\"drop\",{},{},{},{}", self.place(place), target, Self::unw(unwind), ii)
                }
                TerminatorKind::Call { func, args, destination, target, unwind } => {
                    let fty = func.ty(b.locals()).unwrap();
                    let callee = match fty.kind() {
                        TyKind::RigidTy(RigidTy::FnDef(d, a)) => match Instance::resolve(d, &a) {
                            Ok(i) => format!("[\"i\",{}]", self.inst(i)),
                            Err(_) => format!("[\"?\",{}]", esc(&d.name())),
                        },
                        _ => format!("[\"p\",{}]", self.op(func)),
                    };
                    format!(
                        "\"call\",{},{},{},{},{}",
                        callee,
                        self.ops(args),
                        self.place(destination),
                        target.map(|t| t.to_string()).unwrap_or("null".into()),
                        Self::unw(unwind)
                    )
                }
                TerminatorKind::Assert { cond, expected, msg, target, unwind } => {
                    let (kind, mops) = match msg {
                        AssertMessage::BoundsCheck { len, index } => {
                            ("BoundsCheck".to_string(), format!("[{},{}]", self.op(len), self.op(index)))
                        }
                        AssertMessage::Overflow(o, x, y) => {
                            (format!("Overflow:{:?}", o), format!("[{},{}]", self.op(x), self.op(y)))
                        }
                        AssertMessage::OverflowNeg(x) => ("OverflowNeg".into(), format!("[{}]", self.op(x))),
                        AssertMessage::DivisionByZero(x) => {
                            ("DivisionByZero".into(), format!("[{}]", self.op(x)))
                        }
                        AssertMessage::RemainderByZero(x) => {
                            ("RemainderByZero".into(), format!("[{}]", self.op(x)))
                        }
                        m => (format!("{:?}", m).split(['(', ' ', '{']).next().unwrap().to_string(), "[]".into()),
                    };
                    format!(
                        "\"assert\",{},{},{},{},{},{}",
                        self.op(cond),
                        expected,
                        esc(&kind),
                        mops,
                        target,
                        Self::unw(unwind)
                    )
                }
                TerminatorKind::InlineAsm { destination, .. } => {
                    format!("\"asm\",{}", destination.map(|t| t.to_string()).unwrap_or("null".into()))
                }
            };
            blocks.push(format!("[{},[{},{}]]", arr(ss), sp, tk));
        }
        format!(
            "{{\"locals\":{},\"argc\":{},\"spread\":{},\"names\":{},\"span\":{},\"blocks\":{}}}",
            locals,
            b.arg_locals().len(),
            b.spread_arg().map(|x| x.to_string()).unwrap_or("null".into()),
            names,
            self.span(b.span),
            arr(blocks)
        )
    }
}

/// Formatting and panic machinery is never analysed: it is reached only from diverging paths
/// or from `Debug` output, and analysing it would pull in most of the standard library.
fn skip_body(name: &str) -> bool {
    name.contains("::fmt::") || name.contains("core::panicking") || name.contains("std::panicking")
        || name.starts_with("std::rt::") || name.contains("std::sys") || name.contains("std::backtrace")
        || name.starts_with("core::fmt") || name.starts_with("std::io::")
}

fn dump() -> ControlFlow<()> {
    let krate = rustc_public::local_crate();
    let mut cx = Cx::default();
    let mut roots = vec![];
    let mut items = vec![];
    let mut skipped = vec![];
    for it in rustc_public::all_local_items() {
        let kind = format!("{:?}", it.kind());
        if it.requires_monomorphization() {
            skipped.push(esc(&it.name()));
            continue;
        }
        match it.kind() {
            rustc_public::ItemKind::Fn => {
                if let Ok(i) = Instance::try_from(it) {
                    let k = cx.inst(i);
                    roots.push(k.to_string());
                }
            }
            rustc_public::ItemKind::Const => {
                // A named constant: its compile-time value, as the compiler computes it.
                if let Ok(i) = Instance::try_from(it) {
                    let t = it.ty();
                    if let Ok(a) = i.try_const_eval(t) {
                        let aj = cx.alloc(&a);
                        let tj = cx.ty(t);
                        let sp = cx.span(it.span());
                        items.push(format!(
                            "[\"const\",{},{},{},{}]",
                            esc(&it.name()),
                            tj,
                            aj,
                            sp
                        ));
                    }
                }
            }
            rustc_public::ItemKind::Static => {
                if let Ok(s) = rustc_public::mir::mono::StaticDef::try_from(it) {
                    if let Ok(a) = s.eval_initializer() {
                        let aj = cx.alloc(&a);
                        let tj = cx.ty(s.ty());
                        let sp = cx.span(it.span());
                        items.push(format!(
                            "[\"static\",{},{},{},{}]",
                            esc(&it.name()),
                            tj,
                            aj,
                            sp
                        ));
                    }
                }
            }
            _ => {
                let _ = kind;
            }
        }
    }
    let mut adts = vec![];
    for a in krate.adts() {
        // Types without generic parameters can be described directly.
        let t = a.ty();
        if let TyKind::RigidTy(RigidTy::Adt(_, args)) = t.kind() {
            if args.0.iter().all(|g| matches!(g, GenericArgKind::Lifetime(_))) {
                adts.push(cx.ty(t).to_string());
            }
        }
    }
    let mut next = 0;
    let mut alloc_json = vec![];
    loop {
        cx.drain_types();
        if next < cx.inst_list.len() {
            let i = cx.inst_list[next];
            next += 1;
            let name = i.name();
            let def = i.def.def_id().name();
            let kind = match i.kind {
                InstanceKind::Item => "item".to_string(),
                InstanceKind::Intrinsic | InstanceKind::LlvmIntrinsic => {
                    format!("intrinsic:{}", i.intrinsic_name().unwrap_or_default())
                }
                InstanceKind::Virtual { idx } => format!("virtual:{}", idx),
                InstanceKind::Shim => "shim".to_string(),
            };
            let krate_name = i.def.krate().name;
            let ity = i.ty();
            // The signature, also for functions without a body.
            let sig = match ity.kind().fn_sig() {
                Some(s) => {
                    let s = s.skip_binder();
                    format!(
                        "[{},{}]",
                        arr(s.inputs().iter().map(|x| cx.ty(*x).to_string())),
                        cx.ty(s.output())
                    )
                }
                None => "null".into(),
            };
            let gargs = cx.gargs(&i.args());
            let abi = match ity.kind().fn_sig() {
                Some(s) => esc(&format!("{:?}", s.skip_binder().abi)),
                None => "null".into(),
            };
            let diverges = ity
                .kind()
                .fn_sig()
                .map(|s| matches!(s.skip_binder().output().kind(), TyKind::RigidTy(RigidTy::Never)))
                .unwrap_or(false);
            let body = if skip_body(&name) || diverges || i.is_foreign_item() {
                "null".to_string()
            } else {
                match i.body() {
                    Some(b) => cx.body(&b),
                    None => "null".into(),
                }
            };
            let sp = cx.span(i.def.span());
            cx.inst_json.push(format!(
                "{{\"name\":{},\"def\":{},\"kind\":{},\"crate\":{},\"foreign\":{},\"div\":{},\"abi\":{},\"sig\":{},\"args\":{},\"sym\":{},\"span\":{},\"body\":{}}}",
                esc(&name),
                esc(&def),
                esc(&kind),
                esc(&krate_name),
                i.is_foreign_item(),
                diverges,
                abi,
                sig,
                gargs,
                esc(&i.mangled_name()),
                sp,
                body
            ));
            continue;
        }
        if alloc_json.len() < cx.alloc_list.len() {
            let a = cx.alloc_list[alloc_json.len()];
            let j = match GlobalAlloc::from(a) {
                GlobalAlloc::Function(i) => format!("[\"fn\",{}]", cx.inst(i)),
                GlobalAlloc::VTable(t, _) => format!("[\"vt\",{}]", cx.ty(t)),
                GlobalAlloc::Static(s) => match s.eval_initializer() {
                    Ok(al) => format!("[\"static\",{},{},{}]", esc(&s.name()), cx.ty(s.ty()), cx.alloc(&al)),
                    Err(_) => format!("[\"static\",{},{},null]", esc(&s.name()), cx.ty(s.ty())),
                },
                GlobalAlloc::Memory(m) => format!("[\"mem\",{}]", cx.alloc(&m)),
                GlobalAlloc::TypeId { ty } => format!("[\"tid\",{}]", cx.ty(ty)),
            };
            alloc_json.push(j);
            continue;
        }
        break;
    }
    cx.drain_types();
    let mut out = String::new();
    out.push_str("{\"crate\":");
    out.push_str(&esc(&krate.name));
    out.push_str(",\"roots\":");
    out.push_str(&arr(roots));
    out.push_str(",\"generic\":");
    out.push_str(&arr(skipped));
    out.push_str(",\"items\":");
    out.push_str(&arr(items));
    out.push_str(",\"adts\":");
    out.push_str(&arr(adts));
    out.push_str(",\"files\":");
    out.push_str(&arr(cx.file_list.iter().map(|s| esc(s))));
    out.push_str(",\n\"types\":[\n");
    let tj: Vec<String> = cx.ty_json.iter().map(|t| t.clone().unwrap()).collect();
    out.push_str(&tj.join(",\n"));
    out.push_str("],\n\"allocs\":[\n");
    out.push_str(&alloc_json.join(",\n"));
    out.push_str("],\n\"fns\":[\n");
    out.push_str(&cx.inst_json.join(",\n"));
    out.push_str("]}\n");
    let dir = std::env::var("MIRDUMP_OUT").expect("MIRDUMP_OUT");
    std::fs::write(format!("{}/{}.json", dir, krate.name), out).expect("write dump");
    ControlFlow::Continue(())
}

fn main() {
    // argv: mirdump <path to rustc> <rustc args...>
    let mut args: Vec<String> = std::env::args().collect();
    args.remove(0);
    let want = std::env::var("MIRDUMP_CRATES").unwrap_or_default();
    let mut name = String::new();
    let mut it = args.iter();
    while let Some(a) = it.next() {
        if a == "--crate-name" {
            name = it.next().cloned().unwrap_or_default();
        }
    }
    let test = args.iter().any(|a| a == "--test");
    let dumping = !test && want.split(',').any(|w| w == name && !w.is_empty());
    if dumping {
        let res = run!(&args, dump);
        if res.is_err() {
            std::process::exit(1);
        }
    } else {
        let rustc = args.remove(0);
        let st = std::process::Command::new(rustc).args(&args).status().expect("rustc");
        std::process::exit(st.code().unwrap_or(1));
    }
}
