//! The analysed program: monomorphic MIR of the crate under analysis, loaded from the driver dump.
use crate::json::{self, J};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::rc::Rc;

pub type TyId = usize;
pub type FnId = usize;
pub type B = usize;

#[derive(Debug, Clone, PartialEq)]
pub enum TK {
    Bool,
    Char,
    Int { signed: bool, bits: u32, size: bool },
    Adt { kind: AdtKind, def: Rc<str>, args: Vec<TArg>, vs: Vec<Variant>, is_box: bool },
    Array(TyId, u64),
    Slice(TyId),
    Str,
    Ptr(TyId, bool),
    Ref(TyId, bool),
    FnDef(Rc<str>, Option<FnId>),
    FnPtr(Vec<TyId>, TyId),
    Closure(Rc<str>, Vec<TyId>, Option<FnId>),
    Tuple(Vec<TyId>),
    Never,
    Other,
}
#[derive(Debug, Clone, PartialEq)]
pub enum TArg {
    R,
    T(TyId),
    K(i128),
}
#[derive(Debug, Clone, Copy, PartialEq)]
pub enum AdtKind {
    Struct,
    Enum,
    Union,
}
#[derive(Debug, Clone, PartialEq)]
pub struct Variant {
    pub name: Rc<str>,
    pub discr: i128,
    pub fields: Vec<(Rc<str>, TyId)>,
}
pub struct Ty {
    pub name: Rc<str>,
    pub k: TK,
    pub size: Option<u64>,
    pub align: u64,
    pub layout: J,
    pub raw: J,
}

#[derive(Debug, Clone)]
pub enum Pj {
    Deref,
    F(u32, TyId),
    Ix(usize),
    CI(u64, bool),
    SS(u64, u64, bool),
    D(u32),
    O,
}
#[derive(Debug, Clone)]
pub struct Place {
    pub l: usize,
    pub p: Vec<Pj>,
}
#[derive(Debug, Clone)]
pub struct Alloc {
    pub bytes: Vec<u8>,
    pub undef: Vec<bool>,
    pub ptrs: Vec<(u64, usize)>,
}
#[derive(Debug, Clone)]
pub enum Op {
    C(Place),
    M(Place),
    K(TyId, Option<Rc<Alloc>>),
    RC(Rc<str>),
}
#[derive(Debug, Clone)]
pub enum Agg {
    Array(TyId),
    Tuple,
    Adt(TyId, u32, Option<u32>),
    Closure(TyId),
    RawPtr(TyId),
}
#[derive(Debug, Clone)]
pub enum Rv {
    Use(Op),
    Ref(bool, Place),
    Addr(Place),
    Agg(Agg, Vec<Op>),
    Bin(Rc<str>, Op, Op),
    CBin(Rc<str>, Op, Op),
    Cast(Rc<str>, Op, TyId),
    Discr(Place),
    Len(Place),
    Repeat(Op, u64),
    Un(Rc<str>, Op),
    Other(Rc<str>),
}
#[derive(Debug, Clone)]
pub enum St {
    Assign(Place, Rv),
    SetDiscr(Place, u32),
    Dead(usize),
    Live(usize),
    Assume(Op),
    Cno(Op, Op, Op),
    Nop,
}
#[derive(Debug, Clone)]
pub enum Callee {
    I(FnId),
    P(Op),
    Unknown(Rc<str>),
}
#[derive(Debug, Clone)]
pub enum Tm {
    Goto(B),
    Switch(Op, Vec<(i128, B)>, B),
    Ret,
    Unreachable,
    Resume,
    Drop(Place, B, Option<FnId>),
    Call(Callee, Vec<Op>, Place, Option<B>),
    Assert(Op, bool, Rc<str>, Vec<Op>, B),
    Other,
}
pub struct Block {
    pub st: Vec<(u32, St)>,
    pub tm: Tm,
    pub span: (usize, u32),
}
pub struct Loop {
    pub header: B,
    pub blocks: BTreeSet<B>,
    pub parent: Option<usize>,
}
pub struct Body {
    pub locals: Vec<TyId>,
    pub argc: usize,
    pub spread: Option<usize>,
    pub names: Vec<(usize, Rc<str>)>,
    pub blocks: Vec<Block>,
    pub span: (usize, u32),
    // derived
    pub rpo: Vec<B>,
    pub loops: Vec<Loop>,
    /// innermost loop of each block
    pub in_loop: Vec<Option<usize>>,
    /// locals whose address is taken
    pub addr_taken: Vec<bool>,
    pub live_in: Vec<Vec<bool>>,
    pub irreducible: bool,
}
pub struct Func {
    pub id: FnId,
    pub name: Rc<str>,
    pub def: Rc<str>,
    pub kind: Rc<str>,
    pub krate: Rc<str>,
    pub foreign: bool,
    pub div: bool,
    pub sig: (Vec<TyId>, TyId),
    pub args: Vec<TArg>,
    pub span: (usize, u32),
    pub body: Option<Body>,
    pub sym: Rc<str>,
    pub abi: Rc<str>,
}
pub enum GAlloc {
    Fn(FnId),
    Mem(Rc<Alloc>),
    Static(Rc<str>, TyId, Option<Rc<Alloc>>),
    Other,
}
pub struct Item {
    pub kind: Rc<str>,
    pub name: Rc<str>,
    pub ty: TyId,
    pub alloc: Option<Rc<Alloc>>,
}
pub struct Prog {
    pub krate: String,
    pub roots: Vec<FnId>,
    pub generic: Vec<String>,
    pub items: Vec<Item>,
    pub adts: Vec<TyId>,
    pub files: Vec<String>,
    pub types: Vec<Ty>,
    pub allocs: Vec<GAlloc>,
    pub fns: Vec<Func>,
    pub by_name: HashMap<String, FnId>,
}

fn rc(s: &str) -> Rc<str> {
    s.into()
}

fn place(j: &J) -> Place {
    Place {
        l: j.at(0).us(),
        p: j.at(1)
            .arr()
            .iter()
            .map(|e| {
                if e.is_str() {
                    return Pj::Deref;
                }
                match e.at(0).str() {
                    "f" => Pj::F(e.at(1).us() as u32, e.at(2).us()),
                    "i" => Pj::Ix(e.at(1).us()),
                    "ci" => Pj::CI(e.at(1).us() as u64, e.at(3).bool()),
                    "ss" => Pj::SS(e.at(1).us() as u64, e.at(2).us() as u64, e.at(3).bool()),
                    "d" => Pj::D(e.at(1).us() as u32),
                    "o" => Pj::O,
                    x => panic!("place elem {x}"),
                }
            })
            .collect(),
    }
}

pub fn alloc(j: &J) -> Option<Rc<Alloc>> {
    if !matches!(j, J::Obj(_)) {
        return None;
    }
    let h = j.get("b").str().as_bytes();
    let mut bytes = vec![];
    let mut undef = vec![];
    for c in h.chunks(2) {
        if c[0] == b'_' {
            bytes.push(0);
            undef.push(true);
        } else {
            bytes.push(u8::from_str_radix(std::str::from_utf8(c).unwrap(), 16).unwrap());
            undef.push(false);
        }
    }
    let ptrs = j.get("p").arr().iter().map(|x| (x.at(0).us() as u64, x.at(1).us())).collect();
    Some(Rc::new(Alloc { bytes, undef, ptrs }))
}

fn op(j: &J) -> Op {
    match j.at(0).str() {
        "c" => Op::C(place(j.at(1))),
        "m" => Op::M(place(j.at(1))),
        "k" => {
            let k = j.at(1);
            Op::K(k.at(0).us(), alloc(k.at(1)))
        },
        "rc" => Op::RC(rc(j.at(1).str())),
        x => panic!("operand {x}"),
    }
}

fn ops(j: &J) -> Vec<Op> {
    j.arr().iter().map(op).collect()
}

fn rv(j: &J) -> Rv {
    match j.at(0).str() {
        "use" => Rv::Use(op(j.at(1))),
        "ref" => Rv::Ref(j.at(1).bool(), place(j.at(2))),
        "addr" => Rv::Addr(place(j.at(2))),
        "agg" => {
            let k = j.at(1);
            let a = match k.at(0).str() {
                "array" => Agg::Array(k.at(1).us()),
                "tuple" => Agg::Tuple,
                "adt" => Agg::Adt(k.at(1).us(), k.at(2).us() as u32, k.at(3).opt().map(|x| x as u32)),
                "closure" => Agg::Closure(k.at(1).us()),
                "rawptr" => Agg::RawPtr(k.at(1).us()),
                x => return Rv::Other(rc(x)),
            };
            Rv::Agg(a, ops(j.at(2)))
        },
        "bin" => Rv::Bin(rc(j.at(1).str()), op(j.at(2)), op(j.at(3))),
        "cbin" => Rv::CBin(rc(j.at(1).str()), op(j.at(2)), op(j.at(3))),
        "cast" => Rv::Cast(rc(j.at(1).str()), op(j.at(2)), j.at(3).us()),
        "discr" => Rv::Discr(place(j.at(1))),
        "len" => Rv::Len(place(j.at(1))),
        "repeat" => Rv::Repeat(op(j.at(1)), j.at(2).opt().unwrap_or(0) as u64),
        "un" => Rv::Un(rc(j.at(1).str()), op(j.at(2))),
        x => Rv::Other(rc(x)),
    }
}

fn st(j: &J) -> (u32, St) {
    let line = j.at(0).us() as u32;
    let s = match j.at(1).str() {
        "=" => St::Assign(place(j.at(2)), rv(j.at(3))),
        "sd" => St::SetDiscr(place(j.at(2)), j.at(3).us() as u32),
        "dead" => St::Dead(j.at(2).us()),
        "live" => St::Live(j.at(2).us()),
        "assume" => St::Assume(op(j.at(2))),
        "cno" => St::Cno(op(j.at(2)), op(j.at(3)), op(j.at(4))),
        _ => St::Nop,
    };
    (line, s)
}

fn term(j: &J) -> Tm {
    match j.at(1).str() {
        "goto" => Tm::Goto(j.at(2).us()),
        "switch" => Tm::Switch(
            op(j.at(2)),
            j.at(3).arr().iter().map(|x| (x.at(0).num(), x.at(1).us())).collect(),
            j.at(4).us(),
        ),
        "ret" => Tm::Ret,
        "unreachable" => Tm::Unreachable,
        "resume" | "abort" => Tm::Resume,
        "drop" => Tm::Drop(place(j.at(2)), j.at(3).us(), j.at(5).opt().map(|x| x as usize)),
        "call" => {
            let c = j.at(2);
            let callee = match c.at(0).str() {
                "i" => Callee::I(c.at(1).us()),
                "p" => Callee::P(op(c.at(1))),
                _ => Callee::Unknown(rc(c.at(1).str())),
            };
            Tm::Call(callee, ops(j.at(3)), place(j.at(4)), j.at(5).opt().map(|x| x as usize))
        },
        "assert" => Tm::Assert(
            op(j.at(2)),
            j.at(3).bool(),
            rc(j.at(4).str()),
            ops(j.at(5)),
            j.at(6).us(),
        ),
        _ => Tm::Other,
    }
}

pub fn succs(t: &Tm) -> Vec<B> {
    match t {
        Tm::Goto(b) => vec![*b],
        Tm::Switch(_, v, o) => {
            let mut r: Vec<B> = v.iter().map(|x| x.1).collect();
            r.push(*o);
            r
        },
        Tm::Drop(_, b, _) => vec![*b],
        Tm::Call(_, _, _, Some(b)) => vec![*b],
        Tm::Assert(_, _, _, _, b) => vec![*b],
        _ => vec![],
    }
}

fn op_uses(o: &Op, f: &mut dyn FnMut(usize)) {
    match o {
        Op::C(p) | Op::M(p) => place_uses(p, f),
        _ => {},
    }
}
fn place_uses(p: &Place, f: &mut dyn FnMut(usize)) {
    f(p.l);
    for e in &p.p {
        if let Pj::Ix(i) = e {
            f(*i)
        }
    }
}
pub fn rv_uses(r: &Rv, f: &mut dyn FnMut(usize)) {
    match r {
        Rv::Use(o) | Rv::Cast(_, o, _) | Rv::Repeat(o, _) | Rv::Un(_, o) => op_uses(o, f),
        Rv::Ref(_, p) | Rv::Addr(p) | Rv::Discr(p) | Rv::Len(p) => place_uses(p, f),
        Rv::Agg(_, v) => v.iter().for_each(|o| op_uses(o, f)),
        Rv::Bin(_, a, b) | Rv::CBin(_, a, b) => {
            op_uses(a, f);
            op_uses(b, f)
        },
        Rv::Other(_) => {},
    }
}

fn analyse(b: &mut Body) {
    let n = b.blocks.len();
    let sc: Vec<Vec<B>> = b.blocks.iter().map(|x| succs(&x.tm)).collect();
    // postorder
    let mut seen = vec![false; n];
    let mut post = vec![];
    let mut stack: Vec<(B, usize)> = vec![(0, 0)];
    seen[0] = true;
    while let Some((x, i)) = stack.pop() {
        if i < sc[x].len() {
            stack.push((x, i + 1));
            let y = sc[x][i];
            if !seen[y] {
                seen[y] = true;
                stack.push((y, 0));
            }
        } else {
            post.push(x);
        }
    }
    let mut rpo = post;
    rpo.reverse();
    let mut num = vec![usize::MAX; n];
    for (i, &x) in rpo.iter().enumerate() {
        num[x] = i;
    }
    let mut preds = vec![vec![]; n];
    for &x in &rpo {
        for &y in &sc[x] {
            preds[y].push(x);
        }
    }
    // dominators
    let mut idom = vec![usize::MAX; n];
    idom[0] = 0;
    let mut ch = true;
    while ch {
        ch = false;
        for &x in rpo.iter().skip(1) {
            let mut d = usize::MAX;
            for &p in &preds[x] {
                if idom[p] == usize::MAX {
                    continue;
                }
                if d == usize::MAX {
                    d = p;
                } else {
                    let (mut a, mut c) = (p, d);
                    while a != c {
                        while num[a] > num[c] {
                            a = idom[a];
                        }
                        while num[c] > num[a] {
                            c = idom[c];
                        }
                    }
                    d = a;
                }
            }
            if d != idom[x] {
                idom[x] = d;
                ch = true;
            }
        }
    }
    let dom = |a: B, mut x: B| loop {
        if x == a {
            return true;
        }
        if x == 0 {
            return false;
        }
        x = idom[x];
    };
    let mut loops: BTreeMap<B, BTreeSet<B>> = BTreeMap::new();
    for &x in &rpo {
        for &y in &sc[x] {
            if num[y] <= num[x] {
                if !dom(y, x) {
                    b.irreducible = true;
                    continue;
                }
                let l = loops.entry(y).or_default();
                l.insert(y);
                let mut w = vec![x];
                while let Some(z) = w.pop() {
                    if l.insert(z) {
                        w.extend(preds[z].iter().cloned());
                    }
                }
            }
        }
    }
    let mut ls: Vec<Loop> = loops
        .into_iter()
        .map(|(header, blocks)| Loop { header, blocks, parent: None })
        .collect();
    ls.sort_by_key(|l| std::cmp::Reverse(l.blocks.len()));
    for i in 0..ls.len() {
        for j in (0..i).rev() {
            if ls[j].blocks.contains(&ls[i].header) && ls[j].header != ls[i].header {
                ls[i].parent = Some(j);
                break;
            }
        }
    }
    let mut in_loop = vec![None; n];
    for (i, l) in ls.iter().enumerate() {
        for &x in &l.blocks {
            in_loop[x] = Some(i); // later = smaller = inner
        }
    }
    b.loops = ls;
    b.in_loop = in_loop;
    // address taken + liveness
    let nl = b.locals.len();
    let mut at = vec![false; nl];
    for bl in &b.blocks {
        for (_, s) in &bl.st {
            if let St::Assign(_, Rv::Ref(_, p) | Rv::Addr(p)) = s {
                if !p.p.iter().any(|e| matches!(e, Pj::Deref)) {
                    at[p.l] = true;
                }
            }
        }
        if let Tm::Drop(p, _, _) = &bl.tm {
            at[p.l] |= p.p.iter().all(|e| !matches!(e, Pj::Deref));
        }
    }
    let mut live = vec![vec![false; nl]; n];
    let mut ch = true;
    while ch {
        ch = false;
        for &x in rpo.iter().rev() {
            let bl = &b.blocks[x];
            let mut l = vec![false; nl];
            for &y in &sc[x] {
                for i in 0..nl {
                    l[i] |= live[y][i];
                }
            }
            match &bl.tm {
                Tm::Switch(o, _, _) => op_uses(o, &mut |i| l[i] = true),
                Tm::Ret => l[0] = true,
                Tm::Drop(p, _, _) => place_uses(p, &mut |i| l[i] = true),
                Tm::Call(c, v, d, _) => {
                    if d.p.is_empty() {
                        l[d.l] = false;
                    } else {
                        place_uses(d, &mut |i| l[i] = true);
                    }
                    if let Callee::P(o) = c {
                        op_uses(o, &mut |i| l[i] = true);
                    }
                    v.iter().for_each(|o| op_uses(o, &mut |i| l[i] = true));
                },
                Tm::Assert(o, _, _, v, _) => {
                    op_uses(o, &mut |i| l[i] = true);
                    v.iter().for_each(|o| op_uses(o, &mut |i| l[i] = true));
                },
                _ => {},
            }
            for (_, s) in bl.st.iter().rev() {
                match s {
                    St::Assign(p, r) => {
                        if p.p.is_empty() {
                            l[p.l] = false;
                        } else {
                            place_uses(p, &mut |i| l[i] = true);
                        }
                        rv_uses(r, &mut |i| l[i] = true);
                    },
                    St::SetDiscr(p, _) => place_uses(p, &mut |i| l[i] = true),
                    St::Assume(o) => op_uses(o, &mut |i| l[i] = true),
                    St::Cno(a, c, d) => {
                        op_uses(a, &mut |i| l[i] = true);
                        op_uses(c, &mut |i| l[i] = true);
                        op_uses(d, &mut |i| l[i] = true);
                    },
                    St::Dead(i) => l[*i] = false,
                    _ => {},
                }
            }
            if l != live[x] {
                live[x] = l;
                ch = true;
            }
        }
    }
    b.addr_taken = at;
    b.live_in = live;
    b.rpo = rpo;
}

pub fn load(path: &str) -> Prog {
    let text = std::fs::read_to_string(path).unwrap_or_else(|e| panic!("{path}: {e}"));
    let j = json::parse(&text);
    let types: Vec<Ty> = j
        .get("types")
        .arr()
        .iter()
        .map(|t| {
            let l = t.get("layout");
            let targs = |a: &J| -> Vec<TArg> {
                a.arr()
                    .iter()
                    .map(|x| match x.at(0).str() {
                        "t" => TArg::T(x.at(1).us()),
                        "k" => TArg::K(x.at(1).opt().unwrap_or(-1)),
                        _ => TArg::R,
                    })
                    .collect()
            };
            let k = match t.get("k").str() {
                "bool" => TK::Bool,
                "char" => TK::Char,
                "int" | "uint" => TK::Int {
                    signed: t.get("k").str() == "int",
                    bits: t.get("bits").us() as u32,
                    size: t.get("name").str().ends_with("size"),
                },
                "adt" => TK::Adt {
                    kind: match t.get("adt").str() {
                        "enum" => AdtKind::Enum,
                        "union" => AdtKind::Union,
                        _ => AdtKind::Struct,
                    },
                    def: rc(t.get("def").str()),
                    args: targs(t.get("args")),
                    is_box: t.get("box").bool(),
                    vs: t
                        .get("vs")
                        .arr()
                        .iter()
                        .map(|v| Variant {
                            name: rc(v.at(0).str()),
                            discr: v.at(1).opt().unwrap_or(0),
                            fields: v
                                .at(2)
                                .arr()
                                .iter()
                                .map(|f| (rc(f.at(0).str()), f.at(1).us()))
                                .collect(),
                        })
                        .collect(),
                },
                "array" => {
                    // an unevaluated length is taken from the layout
                    let f = t.get("layout").get("fields");
                    let n = t.get("n").opt().or_else(|| f.at(2).opt()).unwrap_or(0) as u64;
                    TK::Array(t.get("e").us(), n)
                },
                "slice" => TK::Slice(t.get("e").us()),
                "str" => TK::Str,
                "ptr" => TK::Ptr(t.get("e").us(), t.get("mut").bool()),
                "ref" => TK::Ref(t.get("e").us(), t.get("mut").bool()),
                "fndef" => TK::FnDef(rc(t.get("def").str()), t.get("inst").opt().map(|x| x as usize)),
                "fnptr" => TK::FnPtr(
                    t.get("ins").arr().iter().map(|x| x.us()).collect(),
                    t.get("out").us(),
                ),
                "closure" => TK::Closure(
                    rc(t.get("def").str()),
                    t.get("up").arr().iter().map(|x| x.us()).collect(),
                    t.get("inst").opt().map(|x| x as usize),
                ),
                "tuple" => TK::Tuple(t.get("es").arr().iter().map(|x| x.us()).collect()),
                "never" => TK::Never,
                _ => TK::Other,
            };
            Ty {
                name: rc(t.get("name").str()),
                k,
                size: l.get("size").opt().map(|x| x as u64),
                align: l.get("align").opt().unwrap_or(1) as u64,
                layout: l.clone(),
                raw: t.clone(),
            }
        })
        .collect();
    // a pattern type is its base type with a restricted set of values
    let mut types = types;
    for i in 0..types.len() {
        if types[i].raw.get("k").str() == "pat" {
            types[i].k = types[types[i].raw.get("e").us()].k.clone();
        }
    }
    let fns: Vec<Func> = j
        .get("fns")
        .arr()
        .iter()
        .enumerate()
        .map(|(id, f)| {
            let bj = f.get("body");
            let body = if bj.is_null() {
                None
            } else {
                let mut b = Body {
                    locals: bj.get("locals").arr().iter().map(|x| x.us()).collect(),
                    argc: bj.get("argc").us(),
                    spread: bj.get("spread").opt().map(|x| x as usize),
                    names: bj
                        .get("names")
                        .arr()
                        .iter()
                        .map(|x| (x.at(0).us(), rc(x.at(1).str())))
                        .collect(),
                    blocks: bj
                        .get("blocks")
                        .arr()
                        .iter()
                        .map(|x| Block {
                            st: x.at(0).arr().iter().map(st).collect(),
                            tm: term(x.at(1)),
                            span: (
                                x.at(1).at(0).at(0).us(),
                                x.at(1).at(0).at(1).us() as u32,
                            ),
                        })
                        .collect(),
                    span: (bj.get("span").at(0).us(), bj.get("span").at(1).us() as u32),
                    rpo: vec![],
                    loops: vec![],
                    in_loop: vec![],
                    addr_taken: vec![],
                    live_in: vec![],
                    irreducible: false,
                };
                analyse(&mut b);
                Some(b)
            };
            Func {
                id,
                name: rc(f.get("name").str()),
                def: rc(f.get("def").str()),
                kind: rc(f.get("kind").str()),
                krate: rc(f.get("crate").str()),
                foreign: f.get("foreign").bool(),
                div: f.get("div").bool(),
                sig: (
                    f.get("sig").at(0).arr().iter().map(|x| x.us()).collect(),
                    f.get("sig").at(1).opt().unwrap_or(0) as usize,
                ),
                args: f
                    .get("args")
                    .arr()
                    .iter()
                    .map(|x| match x.at(0).str() {
                        "t" => TArg::T(x.at(1).us()),
                        "k" => TArg::K(x.at(1).opt().unwrap_or(-1)),
                        _ => TArg::R,
                    })
                    .collect(),
                span: (f.get("span").at(0).opt().unwrap_or(0) as usize, f.get("span").at(1).opt().unwrap_or(0) as u32),
                body,
                sym: rc(f.get("sym").str()),
                abi: rc(f.get("abi").str()),
            }
        })
        .collect();
    let allocs = j
        .get("allocs")
        .arr()
        .iter()
        .map(|a| match a.at(0).str() {
            "fn" => GAlloc::Fn(a.at(1).us()),
            "mem" => GAlloc::Mem(alloc(a.at(1)).unwrap()),
            "static" => GAlloc::Static(rc(a.at(1).str()), a.at(2).us(), alloc(a.at(3))),
            _ => GAlloc::Other,
        })
        .collect();
    let items = j
        .get("items")
        .arr()
        .iter()
        .map(|x| Item {
            kind: rc(x.at(0).str()),
            name: rc(x.at(1).str()),
            ty: x.at(2).us(),
            alloc: alloc(x.at(3)),
        })
        .collect();
    let by_name = fns.iter().map(|f| (f.name.to_string(), f.id)).collect();
    Prog {
        krate: j.get("crate").str().into(),
        roots: j.get("roots").arr().iter().map(|x| x.us()).collect(),
        generic: j.get("generic").arr().iter().map(|x| x.str().to_string()).collect(),
        items,
        adts: j.get("adts").arr().iter().map(|x| x.us()).collect(),
        files: j.get("files").arr().iter().map(|x| x.str().to_string()).collect(),
        types,
        allocs,
        fns,
        by_name,
    }
}

impl Prog {
    pub fn ty(&self, t: TyId) -> &TK {
        &self.types[t].k
    }
    pub fn size_of(&self, t: TyId) -> Option<u64> {
        if let Some(s) = self.types[t].size {
            return Some(s);
        }
        match self.ty(t) {
            TK::Bool => Some(1),
            TK::Char => Some(4),
            TK::Int { bits, .. } => Some((*bits / 8) as u64),
            TK::Array(e, n) => Some(self.size_of(*e)? * n),
            TK::Ref(e, _) | TK::Ptr(e, _) => {
                Some(if matches!(self.ty(*e), TK::Slice(_) | TK::Str) { 16 } else { 8 })
            },
            TK::FnPtr(..) => Some(8),
            TK::FnDef(..) => Some(0),
            TK::Adt { kind: AdtKind::Union, vs, .. } => {
                let mut m = 0;
                for f in &vs[0].fields {
                    m = m.max(self.size_of(f.1)?);
                }
                Some(m)
            },
            TK::Adt { kind: AdtKind::Struct, vs, .. } if vs[0].fields.len() == 1 => self.size_of(vs[0].fields[0].1),
            _ => None,
        }
    }
    pub fn find(&self, name: &str) -> Option<FnId> {
        self.by_name.get(name).cloned()
    }
    /// all functions reachable from a root through direct calls and drops
    pub fn reach(&self, roots: &[FnId]) -> HashSet<FnId> {
        let mut seen: HashSet<FnId> = HashSet::new();
        let mut w: Vec<FnId> = roots.to_vec();
        while let Some(f) = w.pop() {
            if !seen.insert(f) {
                continue;
            }
            if let Some(b) = &self.fns[f].body {
                for bl in &b.blocks {
                    match &bl.tm {
                        Tm::Call(Callee::I(g), ..) => w.push(*g),
                        Tm::Drop(_, _, Some(g)) => w.push(*g),
                        _ => {},
                    }
                }
            }
        }
        seen
    }
    pub fn file(&self, i: usize) -> &str {
        self.files.get(i).map(|s| s.as_str()).unwrap_or("?")
    }
    pub fn site(&self, f: FnId) -> String {
        let x = &self.fns[f];
        format!("{}:{}", self.file(x.span.0), x.span.1)
    }
}
