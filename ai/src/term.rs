//! Terms: linear expressions over symbols, Herbrand (uninterpreted) terms, byte sequences, values.
//!
//! A symbol stands for one unknown quantity (an integer, a byte source, or an opaque value). It is
//! either *fresh* (anything within its type range) or defined by a hash-consed uninterpreted
//! application, so equal applications get equal symbols.
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

pub type Z = i128;
pub type Sym = u32;

#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub struct Lin {
    pub c: Z,
    /// sorted by symbol, coefficients non-zero
    pub t: Vec<(Sym, Z)>,
}

impl Lin {
    pub fn k(c: Z) -> Lin {
        Lin { c, t: Vec::new() }
    }
    pub fn s(s: Sym) -> Lin {
        Lin { c: 0, t: vec![(s, 1)] }
    }
    pub fn is_const(&self) -> Option<Z> {
        if self.t.is_empty() {
            Some(self.c)
        } else {
            None
        }
    }
    pub fn add(&self, o: &Lin) -> Lin {
        self.lc(1, o, 1)
    }
    pub fn sub(&self, o: &Lin) -> Lin {
        self.lc(1, o, -1)
    }
    pub fn neg(&self) -> Lin {
        self.mul(-1)
    }
    pub fn addk(&self, k: Z) -> Lin {
        Lin { c: self.c + k, t: self.t.clone() }
    }
    pub fn mul(&self, k: Z) -> Lin {
        if k == 0 {
            return Lin::k(0);
        }
        Lin { c: self.c * k, t: self.t.iter().map(|&(s, a)| (s, a * k)).collect() }
    }
    pub fn checked_mul(&self, k: Z) -> Option<Lin> {
        let mut t = Vec::with_capacity(self.t.len());
        if k == 0 {
            return Some(Lin::k(0));
        }
        for &(s, a) in &self.t {
            t.push((s, a.checked_mul(k)?));
        }
        Some(Lin { c: self.c.checked_mul(k)?, t })
    }
    /// a*self + b*o
    pub fn lc(&self, a: Z, o: &Lin, b: Z) -> Lin {
        let mut t = Vec::with_capacity(self.t.len() + o.t.len());
        let (mut i, mut j) = (0, 0);
        while i < self.t.len() || j < o.t.len() {
            if j >= o.t.len() || (i < self.t.len() && self.t[i].0 < o.t[j].0) {
                t.push((self.t[i].0, self.t[i].1 * a));
                i += 1;
            } else if i >= self.t.len() || o.t[j].0 < self.t[i].0 {
                t.push((o.t[j].0, o.t[j].1 * b));
                j += 1;
            } else {
                let c = self.t[i].1 * a + o.t[j].1 * b;
                if c != 0 {
                    t.push((self.t[i].0, c));
                }
                i += 1;
                j += 1;
            }
        }
        t.retain(|x| x.1 != 0);
        Lin { c: self.c * a + o.c * b, t }
    }
    pub fn coef(&self, s: Sym) -> Z {
        match self.t.binary_search_by_key(&s, |x| x.0) {
            Ok(i) => self.t[i].1,
            Err(_) => 0,
        }
    }
    pub fn without(&self, s: Sym) -> Lin {
        Lin { c: self.c, t: self.t.iter().filter(|x| x.0 != s).cloned().collect() }
    }
    /// Replace symbol s by expression e.
    pub fn subst(&self, s: Sym, e: &Lin) -> Lin {
        let c = self.coef(s);
        if c == 0 {
            self.clone()
        } else {
            self.without(s).lc(1, e, c)
        }
    }
    pub fn single(&self) -> Option<Sym> {
        if self.c == 0 && self.t.len() == 1 && self.t[0].1 == 1 {
            Some(self.t[0].0)
        } else {
            None
        }
    }
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Seg {
    /// literal bytes
    C(Rc<[u8]>),
    /// `len` copies of a byte
    Fill(u8, Lin),
    /// one computed byte
    B(Lin),
    /// bytes of an integer: significances hi..=lo, big-endian (descending) or little-endian
    Enc { be: bool, v: Lin, hi: u32, lo: u32 },
    /// bytes off..off+len of an abstract source
    S { src: Sym, off: Lin, len: Lin },
}

impl Seg {
    pub fn len(&self) -> Lin {
        match self {
            Seg::C(b) => Lin::k(b.len() as Z),
            Seg::Fill(_, l) => l.clone(),
            Seg::B(_) => Lin::k(1),
            Seg::Enc { hi, lo, .. } => Lin::k((hi - lo + 1) as Z),
            Seg::S { len, .. } => len.clone(),
        }
    }
}

#[derive(Clone, PartialEq, Eq, Hash, Debug, Default)]
pub struct Seq(pub Vec<Seg>);

impl Seq {
    pub fn empty() -> Seq {
        Seq(vec![])
    }
    pub fn bytes(b: &[u8]) -> Seq {
        if b.is_empty() {
            Seq(vec![])
        } else {
            Seq(vec![Seg::C(b.into())])
        }
    }
    pub fn src(s: Sym, len: Lin) -> Seq {
        Seq(vec![Seg::S { src: s, off: Lin::k(0), len }])
    }
    pub fn len(&self) -> Lin {
        let mut l = Lin::k(0);
        for s in &self.0 {
            l = l.add(&s.len());
        }
        l
    }
    pub fn as_const(&self) -> Option<Vec<u8>> {
        let mut v = vec![];
        for s in &self.0 {
            match s {
                Seg::C(b) => v.extend_from_slice(b),
                Seg::Fill(b, l) => {
                    let n = l.is_const()?;
                    if n > 1 << 20 {
                        return None;
                    }
                    v.extend(std::iter::repeat(*b).take(n as usize));
                },
                Seg::B(l) => v.push(l.is_const()? as u8),
                Seg::Enc { be, v: x, hi, lo } => {
                    let x = x.is_const()? as u128;
                    let mut bs: Vec<u8> = (*lo..=*hi).map(|k| (x >> (8 * k)) as u8).collect();
                    if *be {
                        bs.reverse();
                    }
                    v.extend(bs);
                },
                _ => {
                    if s.len().is_const() != Some(0) {
                        return None;
                    }
                },
            }
        }
        Some(v)
    }
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Cond {
    T,
    F,
    /// expression >= 0
    Ge(Lin),
    /// expression == 0
    Eq(Lin),
    Atom(Sym),
    Not(Rc<Cond>),
    And(Rc<Vec<Cond>>),
    Or(Rc<Vec<Cond>>),
}

impl Cond {
    pub fn not(&self) -> Cond {
        match self {
            Cond::T => Cond::F,
            Cond::F => Cond::T,
            Cond::Ge(l) => Cond::Ge(l.neg().addk(-1)),
            Cond::Not(c) => (**c).clone(),
            c => Cond::Not(Rc::new(c.clone())),
        }
    }
    pub fn and(v: Vec<Cond>) -> Cond {
        let mut o = vec![];
        for c in v {
            match c {
                Cond::T => {},
                Cond::F => return Cond::F,
                Cond::And(w) => o.extend(w.iter().cloned()),
                c => o.push(c),
            }
        }
        match o.len() {
            0 => Cond::T,
            1 => o.pop().unwrap(),
            _ => Cond::And(Rc::new(o)),
        }
    }
    pub fn or(v: Vec<Cond>) -> Cond {
        Cond::and(v.iter().map(|c| c.not()).collect()).not()
    }
    pub fn eq(a: &Lin, b: &Lin) -> Cond {
        let d = a.sub(b);
        match d.is_const() {
            Some(0) => Cond::T,
            Some(_) => Cond::F,
            None => Cond::Eq(d),
        }
    }
    pub fn ge(l: Lin) -> Cond {
        match l.is_const() {
            Some(c) => {
                if c >= 0 {
                    Cond::T
                } else {
                    Cond::F
                }
            },
            None => Cond::Ge(l),
        }
    }
    pub fn is_const(&self) -> Option<bool> {
        match self {
            Cond::T => Some(true),
            Cond::F => Some(false),
            _ => None,
        }
    }
}

pub type ObjId = u64;
pub const HEAP0: ObjId = 1 << 40;
pub const ALLOC0: ObjId = 1 << 50;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum PE {
    F(u32),
    I(u64),
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Ptr {
    pub obj: ObjId,
    pub path: Vec<PE>,
    /// start offset (in elements) inside the container designated by path
    pub off: Option<Lin>,
    /// number of elements for a slice pointer
    pub len: Option<Lin>,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Val {
    Undef,
    /// a value about which nothing is known (typed by its use)
    Top,
    Int(Lin),
    /// a field-less enum: its discriminant, and the number of variants
    En(Lin, u32),
    Bool(Cond),
    Ptr(Rc<Ptr>),
    /// an integer address used as a pointer (null, dangling)
    Addr(Lin),
    /// struct/tuple/closure/enum-with-data: variant and fields
    Adt(u32, Rc<Vec<Val>>),
    Seq(Rc<Seq>),
    Arr(Rc<Vec<Val>>),
    Fn(u32),
    /// a named external function token (callbacks)
    Tok(Rc<str>),
    Term(Sym),
}

impl Val {
    pub fn unit() -> Val {
        Val::Adt(0, Rc::new(vec![]))
    }
    pub fn k(c: Z) -> Val {
        Val::Int(Lin::k(c))
    }
    pub fn adt(v: u32, f: Vec<Val>) -> Val {
        Val::Adt(v, Rc::new(f))
    }
    pub fn seq(s: Seq) -> Val {
        Val::Seq(Rc::new(s))
    }
    pub fn lin(&self) -> Option<&Lin> {
        match self {
            Val::Int(l) | Val::En(l, _) => Some(l),
            _ => None,
        }
    }
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Arg {
    L(Lin),
    Q(Rc<Seq>),
    T(Sym),
    S(Rc<str>),
    V(Val),
    C(Cond),
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct NodeKey {
    pub op: Rc<str>,
    pub args: Vec<Arg>,
}

pub struct Node {
    pub key: Option<Rc<NodeKey>>,
    pub name: Rc<str>,
    pub lo: Option<Z>,
    pub hi: Option<Z>,
}

#[derive(Default)]
pub struct Arena {
    pub nodes: Vec<Node>,
    pub map: HashMap<Rc<NodeKey>, Sym>,
}

thread_local! {
    pub static ARENA: RefCell<Arena> = RefCell::new(Arena::default());
}

pub fn fresh(name: &str, lo: Option<Z>, hi: Option<Z>) -> Sym {
    ARENA.with(|a| {
        let mut a = a.borrow_mut();
        a.nodes.push(Node { key: None, name: name.into(), lo, hi });
        (a.nodes.len() - 1) as Sym
    })
}

pub fn term(op: &str, args: Vec<Arg>, lo: Option<Z>, hi: Option<Z>) -> Sym {
    ARENA.with(|a| {
        let mut a = a.borrow_mut();
        let k = Rc::new(NodeKey { op: op.into(), args });
        if let Some(&s) = a.map.get(&k) {
            return s;
        }
        a.nodes.push(Node { key: Some(k.clone()), name: k.op.clone(), lo, hi });
        let s = (a.nodes.len() - 1) as Sym;
        a.map.insert(k, s);
        s
    })
}

pub fn bounds(s: Sym) -> (Option<Z>, Option<Z>) {
    ARENA.with(|a| {
        let a = a.borrow();
        let n = &a.nodes[s as usize];
        (n.lo, n.hi)
    })
}

pub fn def(s: Sym) -> Option<Rc<NodeKey>> {
    ARENA.with(|a| a.borrow().nodes[s as usize].key.clone())
}

pub fn name(s: Sym) -> Rc<str> {
    ARENA.with(|a| a.borrow().nodes[s as usize].name.clone())
}

pub fn set_bounds(s: Sym, lo: Option<Z>, hi: Option<Z>) {
    ARENA.with(|a| {
        let mut a = a.borrow_mut();
        let n = &mut a.nodes[s as usize];
        n.lo = lo;
        n.hi = hi;
    })
}

pub fn node_count() -> usize {
    ARENA.with(|a| a.borrow().nodes.len())
}

// ---------------------------------------------------------------- printing (diagnostics only)
thread_local! {
    /// nesting of the printer and the number of terms it may still print
    static SHOW: std::cell::Cell<(u32, u32)> = const { std::cell::Cell::new((0, 0)) };
}
pub fn show_sym(s: Sym, d: u32) -> String {
    let (n, b) = SHOW.get();
    let b = if n == 0 { 200 } else { b };
    if b == 0 {
        return "..".into();
    }
    SHOW.set((n + 1, b - 1));
    let o = show_sym1(s, d);
    SHOW.set((n, SHOW.get().1));
    o
}
fn show_sym1(s: Sym, d: u32) -> String {
    match def(s) {
        None => format!("{}#{}", name(s), s),
        Some(k) => {
            if d == 0 {
                return format!("{}#{}(..)", k.op, s);
            }
            let v: Vec<String> = k.args.iter().map(|a| show_arg(a, d - 1)).collect();
            format!("{}({})", k.op, v.join(", "))
        },
    }
}
pub fn show_arg(a: &Arg, d: u32) -> String {
    match a {
        Arg::L(l) => show_lin(l, d),
        Arg::Q(q) => show_seq(q, d),
        Arg::T(s) => show_sym(*s, d),
        Arg::S(s) => s.to_string(),
        Arg::V(v) => show_val(v, d),
        Arg::C(c) => show_cond(c, d),
    }
}
pub fn show_lin(l: &Lin, d: u32) -> String {
    let mut o = String::new();
    for &(s, c) in &l.t {
        if !o.is_empty() {
            o.push_str(if c >= 0 { " + " } else { " - " });
        } else if c < 0 {
            o.push('-');
        }
        if c.abs() != 1 {
            o.push_str(&format!("{}*", c.abs()));
        }
        o.push_str(&show_sym(s, d));
    }
    if l.c != 0 || o.is_empty() {
        if o.is_empty() {
            o = format!("{}", l.c);
        } else {
            o.push_str(&format!(" {} {}", if l.c >= 0 { "+" } else { "-" }, l.c.abs()));
        }
    }
    o
}
pub fn show_seq(q: &Seq, d: u32) -> String {
    let mut o = vec![];
    for s in &q.0 {
        o.push(match s {
            Seg::C(b) => {
                if b.len() > 24 {
                    format!("hex[{}]", b.len())
                } else if b.iter().all(|c| (32..127).contains(c)) {
                    format!("{:?}", String::from_utf8_lossy(b))
                } else {
                    b.iter().map(|x| format!("{x:02x}")).collect::<Vec<_>>().join("")
                }
            },
            Seg::Fill(b, l) => format!("{b:02x}*({})", show_lin(l, d)),
            Seg::B(l) => format!("<{}>", show_lin(l, d)),
            Seg::Enc { be, v, hi, lo } => {
                format!("{}{}..{}({})", if *be { "be" } else { "le" }, hi, lo, show_lin(v, d))
            },
            Seg::S { src, off, len } => {
                format!("{}[{}; {}]", show_sym(*src, d), show_lin(off, d), show_lin(len, d))
            },
        });
    }
    format!("[{}]", o.join(" "))
}
pub fn show_cond(c: &Cond, d: u32) -> String {
    match c {
        Cond::T => "true".into(),
        Cond::F => "false".into(),
        Cond::Ge(l) => format!("({} >= 0)", show_lin(l, d)),
        Cond::Eq(l) => format!("({} == 0)", show_lin(l, d)),
        Cond::Atom(s) => show_sym(*s, d),
        Cond::Not(c) => format!("!{}", show_cond(c, d)),
        Cond::And(v) => v.iter().map(|c| show_cond(c, d)).collect::<Vec<_>>().join(" && "),
        Cond::Or(v) => v.iter().map(|c| show_cond(c, d)).collect::<Vec<_>>().join(" || "),
    }
}
pub fn show_val(v: &Val, d: u32) -> String {
    match v {
        Val::Undef => "undef".into(),
        Val::Top => "top".into(),
        Val::Int(l) => show_lin(l, d),
        Val::En(l, _) => format!("e{}", show_lin(l, d)),
        Val::Bool(c) => show_cond(c, d),
        Val::Ptr(p) => format!(
            "&{}{}{}{}",
            if p.obj >= ALLOC0 {
                format!("a{}", p.obj - ALLOC0)
            } else if p.obj >= HEAP0 {
                format!("h{}", p.obj - HEAP0)
            } else {
                format!("l{}", p.obj)
            },
            p.path
                .iter()
                .map(|e| match e {
                    PE::F(i) => format!(".{i}"),
                    PE::I(i) => format!("[{i}]"),
                })
                .collect::<String>(),
            p.off.as_ref().map(|o| format!("@{}", show_lin(o, d))).unwrap_or_default(),
            p.len.as_ref().map(|o| format!(":{}", show_lin(o, d))).unwrap_or_default()
        ),
        Val::Addr(l) => format!("addr({})", show_lin(l, d)),
        Val::Adt(v, f) => {
            format!("v{}{{{}}}", v, f.iter().map(|x| show_val(x, d)).collect::<Vec<_>>().join(", "))
        },
        Val::Seq(q) => show_seq(q, d),
        Val::Arr(f) => format!("[{}]", f.iter().map(|x| show_val(x, d)).collect::<Vec<_>>().join(", ")),
        Val::Fn(i) => format!("fn{i}"),
        Val::Tok(s) => format!("tok:{s}"),
        Val::Term(s) => show_sym(*s, d),
    }
}
