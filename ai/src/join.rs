//! Joining abstract states of the same shape: anti-unification of expressions, terms and byte
//! sequences, with relational facts kept when they hold on both sides.
use crate::interp::{In, Outs};
use crate::state::*;
use crate::term::*;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::hash::{Hash, Hasher};
use std::rc::Rc;

/// counters up to this are followed exactly
const SMALL: Z = 4;
/// set in analyses with incoming data
pub static FINE: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
pub fn fine() -> bool {
    FINE.load(std::sync::atomic::Ordering::Relaxed)
}

struct Shaper<'s> {
    st: &'s State,
    h: std::collections::hash_map::DefaultHasher,
    ren: BTreeMap<ObjId, ObjId>,
    queue: Vec<ObjId>,
    rename: bool,
    /// the value is part of the state of an object: small constants in enumerations are kept apart
    heap: bool,
}
impl Shaper<'_> {
    fn obj(&mut self, o: ObjId) -> ObjId {
        if !self.rename || !(HEAP0..ALLOC0 - 1).contains(&o) {
            return o;
        }
        if let Some(n) = self.ren.get(&o) {
            return *n;
        }
        let n = HEAP0 + self.ren.len() as u64;
        self.ren.insert(o, n);
        self.queue.push(o);
        n
    }
    fn val(&mut self, v: &Val) {
        match v {
            Val::Undef => 0u8.hash(&mut self.h),
            Val::Top => 1u8.hash(&mut self.h),
            Val::Int(_) => 2u8.hash(&mut self.h),
            Val::En(l, _) => {
                3u8.hash(&mut self.h);
                self.st.n(l).is_const().hash(&mut self.h);
            },
            Val::Bool(c) => {
                4u8.hash(&mut self.h);
                self.st.eval(c).hash(&mut self.h);
            },
            Val::Ptr(p) => {
                5u8.hash(&mut self.h);
                let o = self.obj(p.obj);
                o.hash(&mut self.h);
                p.path.hash(&mut self.h);
                p.off.is_some().hash(&mut self.h);
                p.len.is_some().hash(&mut self.h);
            },
            Val::Addr(l) => {
                6u8.hash(&mut self.h);
                self.st.n(l).is_const().hash(&mut self.h);
            },
            Val::Adt(n, f) => {
                7u8.hash(&mut self.h);
                n.hash(&mut self.h);
                f.len().hash(&mut self.h);
                if let (true, [Val::Int(l)]) = (self.heap && fine(), &f[..]) {
                    self.st.n(l).is_const().filter(|c| (0..=SMALL).contains(c)).hash(&mut self.h);
                }
                for x in f.iter() {
                    self.val(x);
                }
            },
            Val::Seq(_) => 8u8.hash(&mut self.h),
            Val::Arr(f) => {
                9u8.hash(&mut self.h);
                f.len().hash(&mut self.h);
                for x in f.iter() {
                    self.val(x);
                }
            },
            Val::Fn(f) => {
                10u8.hash(&mut self.h);
                f.hash(&mut self.h);
            },
            Val::Tok(s) => {
                11u8.hash(&mut self.h);
                s.hash(&mut self.h);
            },
            Val::Term(_) => 12u8.hash(&mut self.h),
        }
    }
}

fn ren_val(v: &Val, r: &BTreeMap<ObjId, ObjId>) -> Val {
    match v {
        Val::Ptr(p) => match r.get(&p.obj) {
            Some(n) if *n != p.obj => {
                let mut q = (**p).clone();
                q.obj = *n;
                Val::Ptr(Rc::new(q))
            },
            _ => v.clone(),
        },
        Val::Adt(n, f) => Val::Adt(*n, Rc::new(f.iter().map(|x| ren_val(x, r)).collect())),
        Val::Arr(f) => {
            if f.iter().any(|x| !matches!(x, Val::Int(_) | Val::Seq(_))) {
                Val::Arr(Rc::new(f.iter().map(|x| ren_val(x, r)).collect()))
            } else {
                v.clone()
            }
        },
        _ => v.clone(),
    }
}

/// shape key, without changing object identities
pub fn key(st: &State) -> u64 {
    let mut s = Shaper { st, h: Default::default(), ren: BTreeMap::new(), queue: vec![], rename: false, heap: false };
    for (o, v) in st.mem.iter() {
        o.hash(&mut s.h);
        s.heap = *o >= HEAP0;
        s.val(v);
    }
    s.heap = false;
    for (o, v) in st.ghost.iter() {
        o.hash(&mut s.h);
        s.val(v);
    }
    s.h.finish()
}

/// numbers and lengths in the specification state that are known exactly
pub fn ghost_key(st: &State) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    for (o, v) in st.ghost.iter() {
        o.hash(&mut h);
        match v {
            Val::Int(l) => st.n(l).is_const().hash(&mut h),
            Val::Seq(q) => {
                st.n(&q.len()).is_const().hash(&mut h);
                // data in flight
                if matches!(*o, "mq" | "rest" | "inner" | "hdr") {
                    for x in q.0.iter() {
                        if let Seg::C(b) = x {
                            b.hash(&mut h);
                        }
                    }
                }
            },
            _ => {},
        }
    }
    h.finish()
}

/// drop unreachable heap objects, renumber the rest in visiting order, compute the shape key
pub fn canon(_cx: &mut In, st: State) -> (u64, State) {
    let mut st = st;
    let (key, ren) = {
        let mut s = Shaper { st: &st, h: Default::default(), ren: BTreeMap::new(), queue: vec![], rename: true, heap: false };
        for (o, v) in st.mem.iter() {
            if *o < HEAP0 {
                o.hash(&mut s.h);
                s.val(v);
            }
        }
        for (o, v) in st.ghost.iter() {
            o.hash(&mut s.h);
            s.val(v);
        }
        let mut i = 0;
        while i < s.queue.len() {
            let o = s.queue[i];
            i += 1;
            if let Some(v) = st.mem.get(&o) {
                let v = v.clone();
                s.heap = true;
                s.val(&v);
            }
        }
        (s.h.finish(), s.ren)
    };
    let n = ren.len() as u64;
    let ident = ren.iter().all(|(a, b)| a == b);
    let nheap = st.mem.range(HEAP0..).count() as u64;
    if !ident || nheap != n {
        let mut m: BTreeMap<ObjId, Rc<Val>> = BTreeMap::new();
        for (o, v) in st.mem.iter() {
            if *o < HEAP0 {
                m.insert(*o, if ident { v.clone() } else { Rc::new(ren_val(v, &ren)) });
            } else if let Some(k) = ren.get(o) {
                m.insert(*k, if ident { v.clone() } else { Rc::new(ren_val(v, &ren)) });
            }
        }
        st.mem = Rc::new(m);
        if !ident {
            let g = st.ghost.iter().map(|(k, v)| (*k, ren_val(v, &ren))).collect();
            st.ghost = Rc::new(g);
        }
    }
    st.nheap = n;
    st.gc();
    (key, st)
}

struct Joiner<'s> {
    a: &'s State,
    b: &'s State,
    pairs: Vec<(Lin, Lin, Sym)>,
    map: HashMap<(Lin, Lin), Sym>,
    srcs: Vec<(Sym, Sym, Sym)>,
    smap: HashMap<(Sym, Sym), Sym>,
    omap: HashMap<(Vec<Seg>, Vec<Seg>), Sym>,
    exprs: HashSet<Lin>,
    lens: HashSet<Lin>,
    eqs: Vec<Lin>,
    ints: HashSet<Lin>,
    collapse: bool,
    /// joining a loop head again: only identified content is kept apart
    coarse: bool,
    changed: bool,
}

fn thr_hi(h: Option<Z>) -> Option<Z> {
    let h = h?;
    for t in [255, 65535, (1i128 << 32) - 1, (1i128 << 62) - 1, (1i128 << 63) - 1, (1i128 << 64) - 1] {
        if h <= t {
            return Some(t);
        }
    }
    None
}
fn thr_lo(l: Option<Z>) -> Option<Z> {
    let l = l?;
    for t in [0, -(1i128 << 31), -(1i128 << 63)] {
        if l >= t {
            return Some(t);
        }
    }
    None
}

/// write the encodings of `x` as wide as those of the same values in `y`
fn wide(x: &mut Vec<Seg>, y: &[Seg]) {
    for t in y {
        let Seg::Enc { be: true, v, hi, lo } = t else { continue };
        for i in 1..x.len() {
            let (w, h, l) = match &x[i] {
                Seg::Enc { be: true, v: w, hi: h, lo: l } => (w, h, l),
                Seg::B(w) => (w, &0, &0),
                _ => continue,
            };
            if w != v || l != lo || h >= hi {
                continue;
            }
            let k = (hi - h) as usize;
            let Seg::C(c) = &x[i - 1] else { continue };
            if c.len() < k || c[c.len() - k..].iter().any(|b| *b != 0) {
                continue;
            }
            let c: Vec<u8> = c[..c.len() - k].to_vec();
            x[i] = t.clone();
            if c.is_empty() {
                x.remove(i - 1);
            } else {
                x[i - 1] = Seg::C(c.into());
            }
            break;
        }
    }
}

/// write constants of `x` as the encodings `y` has in their place, if they have that value
fn reenc(st: &State, x: &mut Vec<Seg>, y: &[Seg]) {
    let mut off = Lin::k(0);
    'y: for t in y {
        let n = t.len();
        let at = st.n(&off);
        off = off.add(&n);
        let (v, hi, lo, be) = match t {
            Seg::Enc { be, v, hi, lo } => (v, *hi, *lo, *be),
            Seg::B(v) => (v, 0, 0, true),
            _ => continue,
        };
        if hi > 15 {
            continue;
        }
        let mut o = Lin::k(0);
        for i in 0..x.len() {
            let l = x[i].len();
            if let Seg::C(c) = &x[i] {
                let k = (hi - lo + 1) as usize;
                if let Some(p) = st.n(&at.sub(&o)).is_const() {
                    if p >= 0 && (p as usize) + k <= c.len() {
                        let p = p as usize;
                        let (Some(a), Some(b)) = st.facts.interval(&st.n(v)) else { continue 'y };
                        if a != b || a < 0 {
                            continue 'y;
                        }
                        for j in 0..k {
                            let sig = if be { hi - j as u32 } else { lo + j as u32 };
                            if (a >> (8 * sig)) as u8 != c[p + j] {
                                continue 'y;
                            }
                        }
                        let c = c.clone();
                        let mut r = vec![];
                        if p > 0 {
                            r.push(Seg::C(c[..p].into()));
                        }
                        r.push(t.clone());
                        if p + k < c.len() {
                            r.push(Seg::C(c[p + k..].into()));
                        }
                        x.splice(i..i + 1, r);
                        continue 'y;
                    }
                }
            }
            o = o.add(&l);
        }
    }
}

impl Joiner<'_> {
    fn lin(&mut self, a: &Lin, b: &Lin) -> Lin {
        let na = self.a.n(a);
        let nb = self.b.n(b);
        if na == nb {
            if na.t.len() > 0 {
                self.exprs.insert(na.clone());
            }
            return na;
        }
        let d = na.sub(&nb);
        if self.b.facts.prove_eq(&d) {
            // holds on side B
            if na.t.iter().all(|t| t.0 < u32::MAX) {
                self.exprs.insert(na.clone());
                return na;
            }
        }
        if self.a.facts.prove_eq(&d) {
            self.exprs.insert(nb.clone());
            self.changed = true;
            return nb;
        }
        if let Some(s) = self.map.get(&(na.clone(), nb.clone())) {
            return Lin::s(*s);
        }
        if let (Some(x), Some(y)) = (na.single(), nb.single()) {
            if let (Some(p), Some(q)) = (def(x), def(y)) {
                if p.op == q.op && (p.op.contains("::") || p.op.starts_with("dec")) {
                    let s = self.sym(x, y, 8);
                    if def(s).is_some() {
                        return Lin::s(s);
                    }
                }
            }
        }
        let (al, ah) = self.a.facts.interval(&na);
        let (bl, bh) = self.b.facts.interval(&nb);
        let lo = match (al, bl) {
            (Some(x), Some(y)) => thr_lo(Some(x.min(y))),
            _ => None,
        };
        let hi = match (ah, bh) {
            (Some(x), Some(y)) => thr_hi(Some(x.max(y))),
            _ => None,
        };
        let s = fresh("phi", lo, hi);
        self.map.insert((na.clone(), nb.clone()), s);
        self.pairs.push((na, nb, s));
        Lin::s(s)
    }
    fn sym(&mut self, a: Sym, b: Sym, d: u32) -> Sym {
        if a == b {
            return a;
        }
        if let Some(s) = self.smap.get(&(a, b)) {
            return *s;
        }
        let (ca, cb) = (self.a.csym(a, 6), self.b.csym(b, 6));
        if ca == cb {
            return ca;
        }
        if d > 0 && !self.collapse {
            if let (Some(x), Some(y)) = (def(a), def(b)) {
                if x.op == y.op && x.args.len() == y.args.len() {
                    let save = (self.pairs.len(), self.srcs.len());
                    let mut args = vec![];
                    for (p, q) in x.args.iter().zip(y.args.iter()) {
                        let r = match (p, q) {
                            (Arg::L(l), Arg::L(m)) => Some(Arg::L(self.lin(l, m))),
                            (Arg::T(l), Arg::T(m)) => Some(Arg::T(self.sym(*l, *m, d - 1))),
                            (Arg::Q(l), Arg::Q(m)) => Some(Arg::Q(Rc::new(self.seq(l, m)))),
                            (Arg::S(l), Arg::S(m)) if l == m => Some(p.clone()),
                            (Arg::C(l), Arg::C(m)) if l == m => Some(p.clone()),
                            (Arg::V(l), Arg::V(m)) => self.val(l, m).map(Arg::V),
                            _ => None,
                        };
                        match r {
                            Some(r) => args.push(r),
                            None => break,
                        }
                    }
                    if args.len() == x.args.len() {
                        let (l1, h1) = bounds(a);
                        let s = term(&x.op, args, l1, h1);
                        self.smap.insert((a, b), s);
                        return s;
                    }
                    let _ = save;
                }
            }
        }
        let s = fresh("phis", None, None);
        self.smap.insert((a, b), s);
        self.srcs.push((a, b, s));
        s
    }
    fn cond(&mut self, a: &Cond, b: &Cond) -> Cond {
        if a == b {
            return a.clone();
        }
        let (x, y) = (self.a.eval(a), self.b.eval(b));
        if let (Some(x), Some(y)) = (x, y) {
            if x == y {
                return if x { Cond::T } else { Cond::F };
            }
        }
        if let (Cond::Ge(l), Cond::Ge(m)) = (a, b) {
            let r = self.lin(l, m);
            return Cond::ge(r);
        }
        if let (Cond::Eq(l), Cond::Eq(m)) = (a, b) {
            let r = self.lin(l, m);
            return Cond::eq(&r, &Lin::k(0));
        }
        let new = fresh("phib", None, None);
        match a {
            // any value already
            Cond::Atom(x) if def(*x).is_none() && matches!(&*name(*x), "phib" | "earlier") && !self.a.atoms.contains_key(x) => {
                self.srcs.push((*x, *x, new))
            },
            _ => self.changed = true,
        }
        Cond::Atom(new)
    }
    fn val(&mut self, a: &Val, b: &Val) -> Option<Val> {
        Some(match (a, b) {
            (Val::Undef, Val::Undef) => Val::Undef,
            (Val::Top, Val::Top) => Val::Top,
            (Val::Int(x), Val::Int(y)) => Val::Int(self.lin(x, y)),
            (Val::En(x, n), Val::En(y, _)) => Val::En(self.lin(x, y), *n),
            (Val::Bool(x), Val::Bool(y)) => Val::Bool(self.cond(x, y)),
            (Val::Addr(x), Val::Addr(y)) => Val::Addr(self.lin(x, y)),
            (Val::Ptr(p), Val::Ptr(q)) => {
                if p == q {
                    return Some(a.clone());
                }
                if p.obj != q.obj || p.path != q.path {
                    return None;
                }
                let off = match (&p.off, &q.off) {
                    (Some(x), Some(y)) => Some(self.lin(x, y)),
                    (None, None) => None,
                    _ => return None,
                };
                let len = match (&p.len, &q.len) {
                    (Some(x), Some(y)) => Some(self.lin(x, y)),
                    (None, None) => None,
                    _ => return None,
                };
                Val::Ptr(Rc::new(Ptr { obj: p.obj, path: p.path.clone(), off, len }))
            },
            (Val::Adt(n, f), Val::Adt(m, g)) if n == m && f.len() == g.len() => {
                if Rc::ptr_eq(f, g) {
                    return Some(a.clone());
                }
                let mut v = vec![];
                for (x, y) in f.iter().zip(g.iter()) {
                    v.push(self.val(x, y)?);
                }
                Val::adt(*n, v)
            },
            (Val::Arr(f), Val::Arr(g)) if f.len() == g.len() => {
                if Rc::ptr_eq(f, g) {
                    return Some(a.clone());
                }
                let mut v = vec![];
                for (x, y) in f.iter().zip(g.iter()) {
                    v.push(self.val(x, y)?);
                }
                Val::Arr(Rc::new(v))
            },
            (Val::Seq(x), Val::Seq(y)) => Val::seq(self.seq(x, y)),
            (Val::Fn(x), Val::Fn(y)) if x == y => a.clone(),
            (Val::Tok(x), Val::Tok(y)) if x == y => a.clone(),
            (Val::Term(x), Val::Term(y)) => Val::Term(self.sym(*x, *y, 8)),
            _ => return None,
        })
    }
    fn seq(&mut self, a: &Seq, b: &Seq) -> Seq {
        let r = self.seq1(a, b);
        let (la, lb) = (self.a.n(&a.len()), self.b.n(&b.len()));
        if la == lb {
            let d = r.len().sub(&la);
            if !d.t.is_empty() {
                self.eqs.push(d);
            }
        }
        r
    }
    fn seq1(&mut self, a: &Seq, b: &Seq) -> Seq {
        let mut x = self.a.nseq(a).0;
        let mut y = self.b.nseq(b).0;
        wide(&mut x, &y);
        wide(&mut y, &x);
        if x != y {
            reenc(self.a, &mut x, &y);
            reenc(self.b, &mut y, &x);
        }
        if x == y {
            for s in &x {
                self.note_seg(s);
            }
            return Seq(x);
        }
        let head = self.head(&mut x, &mut y);
        let mut q = head;
        if self.collapse && x != y {
            let n = self.lin(&Seq(x.clone()).len(), &Seq(y.clone()).len());
            q.push(Seg::S { src: self.opaque(&x, &y), off: Lin::k(0), len: n });
            return Seq(q);
        }
        q.extend(self.tail(x, y));
        Seq(q)
    }
    /// a common head of known layout: equal constants, and single bytes that differ
    fn head(&mut self, x: &mut Vec<Seg>, y: &mut Vec<Seg>) -> Vec<Seg> {
        let mut out = vec![];
        let peek = |v: &[Seg]| -> Option<Vec<Option<u8>>> {
            match v.first()? {
                Seg::C(c) => Some(c.iter().map(|b| Some(*b)).collect()),
                Seg::Fill(b, l) => Some(vec![Some(*b); l.is_const()?.min(64) as usize]),
                Seg::B(_) => Some(vec![None]),
                Seg::S { len, .. } if len.is_const() == Some(1) => Some(vec![None]),
                _ => None,
            }
        };
        while !x.is_empty() && !y.is_empty() {
            if x[0] == y[0] {
                self.note_seg(&x[0]);
                out.push(x.remove(0));
                y.remove(0);
                continue;
            }
            if let (true, Seg::S { src: p, len: l, .. }, Seg::S { src: q, len: l2, .. }) = (fine(), &x[0], &y[0]) {
                if l == l2 && l.t.is_empty() && def(*p).is_none() && def(*q).is_none() {
                    let s = self.seg(&x[0], &y[0]);
                    out.push(s);
                    x.remove(0);
                    y.remove(0);
                    continue;
                }
            }
            let (Some(p), Some(q)) = (peek(x), peek(y)) else { break };
            let n = p.len().min(q.len());
            let eq = (0..n).take_while(|i| p[*i] == q[*i] && p[*i].is_some()).count();
            let k = if eq > 0 {
                eq
            } else if n == 1 || n > 1 && p[1].is_some() && p[1] == q[1] {
                1
            } else {
                break;
            };
            let mut cut = |v: &mut Vec<Seg>, st: &State| -> Seg {
                let s = v.remove(0);
                if st.n(&s.len()).is_const() == Some(k as Z) {
                    return s;
                }
                let (a, b) = st.cut(&s, &Lin::k(k as Z));
                v.insert(0, b);
                a
            };
            let (s, t) = (cut(x, self.a), cut(y, self.b));
            if eq > 0 {
                out.push(Seg::C(p[..k].iter().map(|b| b.unwrap()).collect::<Vec<u8>>().into()));
                continue;
            }
            let byte = |s: &Seg, st: &State| st.seq_at(&Seq(vec![s.clone()]), &Lin::k(0)).ok();
            let (Some(u), Some(v)) = (byte(&s, self.a), byte(&t, self.b)) else {
                x.insert(0, s);
                y.insert(0, t);
                break;
            };
            out.push(Seg::B(self.lin(&u, &v)));
        }
        out
    }
    fn tail(&mut self, x: Vec<Seg>, y: Vec<Seg>) -> Vec<Seg> {
        // alignment by dynamic programming
        let (n, m) = (x.len(), y.len());
        let mut sc = vec![vec![0i64; m + 1]; n + 1];
        for i in (0..n).rev() {
            for j in (0..m).rev() {
                let mut best = sc[i + 1][j].max(sc[i][j + 1]);
                let w = self.score(&x[i], &y[j]);
                if w > 0 {
                    best = best.max(sc[i + 1][j + 1] + w);
                }
                sc[i][j] = best;
            }
        }
        let (mut i, mut j) = (0, 0);
        let mut out: Vec<Seg> = vec![];
        let (mut ja, mut jb): (Vec<Seg>, Vec<Seg>) = (vec![], vec![]);
        while i < n || j < m {
            if i < n && j < m {
                let w = self.score(&x[i], &y[j]);
                if w > 0 && sc[i][j] == sc[i + 1][j + 1] + w {
                    self.flush(&mut ja, &mut jb, &mut out);
                    let s = self.seg(&x[i], &y[j]);
                    out.push(s);
                    i += 1;
                    j += 1;
                    continue;
                }
            }
            if i < n && (j >= m || sc[i][j] == sc[i + 1][j]) {
                ja.push(x[i].clone());
                i += 1;
            } else {
                jb.push(y[j].clone());
                j += 1;
            }
        }
        self.flush(&mut ja, &mut jb, &mut out);
        out
    }
    fn note_seg(&mut self, s: &Seg) {
        if let Seg::S { off, len, .. } = s {
            for l in [off, len] {
                if !l.t.is_empty() {
                    self.exprs.insert(l.clone());
                }
            }
        }
        if let Seg::Fill(_, l) = s {
            if !l.t.is_empty() {
                self.exprs.insert(l.clone());
            }
        }
    }
    fn score(&self, s: &Seg, t: &Seg) -> i64 {
        let opaque = |s: &Seg| matches!(s, Seg::S { src, .. } if def(*src).is_none() && matches!(&*name(*src), "phiq" | "phis"));
        if self.coarse && s != t && (opaque(s) || opaque(t)) {
            return 0;
        }
        match (s, t) {
            (Seg::S { src: p, off: o, len: l }, Seg::S { src: q, off: o2, len: l2 }) => {
                if p == q {
                    8 + (o == o2) as i64 + (l == l2) as i64
                } else if l == l2 {
                    3
                } else {
                    match (def(*p), def(*q)) {
                        (Some(a), Some(b)) if a.op == b.op => 2,
                        (None, None) if name(*p) == name(*q) => 2,
                        _ => 0,
                    }
                }
            },
            (Seg::C(p), Seg::C(q)) => {
                if p == q {
                    8
                } else {
                    0
                }
            },
            (Seg::Fill(p, _), Seg::Fill(q, _)) if p == q => 6,
            (Seg::Fill(p, _), Seg::C(q)) | (Seg::C(q), Seg::Fill(p, _)) if q.iter().all(|x| x == p) => 5,
            (Seg::B(_), Seg::B(_)) => 4,
            (Seg::B(_), Seg::C(c)) | (Seg::C(c), Seg::B(_)) if c.len() == 1 => 3,
            (Seg::Enc { be, hi, lo, .. }, Seg::Enc { be: b2, hi: h2, lo: l2, .. }) if be == b2 && hi == h2 && lo == l2 => 6,
            (Seg::Enc { hi, lo: 0, .. }, Seg::C(c)) | (Seg::C(c), Seg::Enc { hi, lo: 0, .. }) if c.len() as u32 == hi + 1 => 3,
            _ => 0,
        }
    }
    fn seg(&mut self, s: &Seg, t: &Seg) -> Seg {
        match (s, t) {
            (Seg::S { src: p, off: o, len: l }, Seg::S { src: q, off: o2, len: l2 }) => {
                let src = self.sym(*p, *q, 8);
                if p == q || def(src).is_some() {
                    return Seg::S { src, off: self.lin(o, o2), len: self.lin(l, l2) };
                }
                let off = self.lin(o, o2);
                Seg::S { src, off, len: self.lin(l, l2) }
            },
            (Seg::C(_), Seg::C(_)) => s.clone(),
            (Seg::Fill(p, l), u) => Seg::Fill(*p, self.lin(l, &u.len())),
            (u, Seg::Fill(p, l)) => Seg::Fill(*p, self.lin(&u.len(), l)),
            (Seg::B(l), Seg::B(m)) => Seg::B(self.lin(l, m)),
            (Seg::B(l), Seg::C(c)) => Seg::B(self.lin(l, &Lin::k(c[0] as Z))),
            (Seg::C(c), Seg::B(l)) => Seg::B(self.lin(&Lin::k(c[0] as Z), l)),
            (Seg::Enc { be, v, hi, lo }, Seg::Enc { v: w, .. }) => {
                Seg::Enc { be: *be, v: self.lin(v, w), hi: *hi, lo: *lo }
            },
            (Seg::Enc { be, v, hi, lo }, Seg::C(c)) => {
                let k = State::new().decode(&Seq::bytes(c), c.len() as u32, *be).unwrap_or(Lin::k(0));
                Seg::Enc { be: *be, v: self.lin(v, &k), hi: *hi, lo: *lo }
            },
            (Seg::C(c), Seg::Enc { be, v, hi, lo }) => {
                let k = State::new().decode(&Seq::bytes(c), c.len() as u32, *be).unwrap_or(Lin::k(0));
                Seg::Enc { be: *be, v: self.lin(&k, v), hi: *hi, lo: *lo }
            },
            _ => unreachable!(),
        }
    }
    /// unmatched segments: slices and fills may be empty on the other side, the rest is opaque
    fn flush(&mut self, ja: &mut Vec<Seg>, jb: &mut Vec<Seg>, out: &mut Vec<Seg>) {
        if ja.is_empty() && jb.is_empty() {
            return;
        }
        let soft = |v: &Vec<Seg>| v.iter().all(|s| matches!(s, Seg::S { .. } | Seg::Fill(..)));
        if soft(ja) && soft(jb) && (ja.is_empty() || jb.is_empty()) {
            let z = Lin::k(0);
            for s in ja.drain(..) {
                let n = self.lin(&s.len(), &z);
                out.push(match s {
                    Seg::S { src, off, .. } => Seg::S { src, off, len: n },
                    Seg::Fill(b, _) => Seg::Fill(b, n),
                    s => s,
                });
            }
            for s in jb.drain(..) {
                let n = self.lin(&z, &s.len());
                self.changed = true;
                out.push(match s {
                    Seg::S { src, off, .. } => Seg::S { src, off, len: n },
                    Seg::Fill(b, _) => Seg::Fill(b, n),
                    s => s,
                });
            }
            return;
        }
        let (xa, xb) = (std::mem::take(ja), std::mem::take(jb));
        if let ([Seg::S { off: o, len: l, .. }], [Seg::S { off: o2, len: l2, .. }]) = (&xa[..], &xb[..]) {
            if o == o2 && l == l2 {
                let s = self.seg(&xa[0], &xb[0]);
                out.push(s);
                return;
            }
        }
        let src = self.opaque(&xa, &xb);
        let n = self.lin(&Seq(xa).len(), &Seq(xb).len());
        out.push(Seg::S { src, off: Lin::k(0), len: n });
    }
    /// a new opaque source standing for the content `x` of side A
    fn opaque(&mut self, x: &[Seg], y: &[Seg]) -> Sym {
        let k = (x.to_vec(), y.to_vec());
        if let Some(s) = self.omap.get(&k) {
            return *s;
        }
        let s = fresh("phiq", None, None);
        if std::env::var("AI_JOIN").is_ok() {
            eprintln!("   opaque {s}: {} / {}", show_seq(&Seq(x.to_vec()), 1), show_seq(&Seq(y.to_vec()), 1));
        }
        self.omap.insert(k, s);
        match x {
            [Seg::S { src, off, .. }] if off.is_const() == Some(0) && def(*src).is_none() => {
                self.srcs.push((*src, *src, s));
            },
            _ => self.changed = true,
        }
        s
    }

    fn sub(&self, l: &Lin, side: bool) -> Lin {
        let mut r = Lin::k(l.c);
        for &(s, c) in &l.t {
            match self.pairs.iter().find(|p| p.2 == s) {
                Some(p) => r = r.lc(1, if side { &p.1 } else { &p.0 }, c),
                None => r = r.lc(1, &Lin::s(s), c),
            }
        }
        r
    }
    fn both_ge(&self, l: &Lin) -> bool {
        self.a.facts.prove_ge(&self.sub(l, false)) && self.b.facts.prove_ge(&self.sub(l, true))
    }
    /// rewrite a fact of one side over the joined symbols
    fn rev(&self, f: &Lin, side: bool) -> Vec<Lin> {
        let mut out = vec![f.clone()];
        let mut full = f.clone();
        let mut ch = false;
        for &(s, _) in &f.t {
            let mut n = 0;
            for p in &self.pairs {
                let e = if side { &p.1 } else { &p.0 };
                if e.t.len() == 1 && e.t[0] == (s, 1) {
                    // s = phi - c
                    let rep = Lin { c: -e.c, t: vec![(p.2, 1)] };
                    out.push(f.subst(s, &rep));
                    if n == 0 {
                        full = full.subst(s, &rep);
                        ch = true;
                    }
                    n += 1;
                    if n > 2 {
                        break;
                    }
                }
            }
        }
        if ch {
            out.push(full);
        }
        // expressions with several symbols: f = e + rest  =>  phi + rest
        for p in &self.pairs {
            let e = if side { &p.1 } else { &p.0 };
            if e.t.len() >= 2 && e.t.iter().all(|t| f.coef(t.0) != 0) {
                let k = f.coef(e.t[0].0);
                if k % e.t[0].1 == 0 {
                    let k = k / e.t[0].1;
                    if e.t.iter().all(|t| f.coef(t.0) == t.1 * k) {
                        let r = f.lc(1, e, -k).lc(1, &Lin::s(p.2), k);
                        out.push(r);
                    }
                }
            }
        }
        out
    }

    fn facts(&mut self, out: &mut State, templates: bool) {
        let (a, b) = (self.a, self.b);
        let mut cand: Vec<Lin> = vec![];
        let fa = a.facts.all_ge();
        let fb = b.facts.all_ge();
        let mut seen: HashSet<Lin> = HashSet::new();
        let sa: HashSet<&Lin> = fa.iter().collect();
        let mut keep = vec![];
        for f in &fb {
            if sa.contains(f) {
                keep.push(f.clone());
                seen.insert(f.clone());
            }
        }
        for (fs, side) in [(&fa, false), (&fb, true)] {
            for f in fs {
                for r in self.rev(f, side) {
                    if seen.insert(r.clone()) {
                        cand.push(r);
                    }
                }
            }
        }
        if templates {
            let mut t: Vec<Lin> = vec![];
            let n = self.pairs.len();
            let exprs: Vec<Lin> = self.exprs.iter().cloned().collect();
            for i in 0..n {
                let (x, y, s) = self.pairs[i].clone();
                let ph = Lin::s(s);
                let (al, ah) = a.facts.interval(&x);
                let (bl, bh) = b.facts.interval(&y);
                if let (Some(p), Some(q)) = (al, bl) {
                    t.push(ph.addk(-p.min(q)));
                }
                if let (Some(p), Some(q)) = (ah, bh) {
                    t.push(ph.neg().addk(p.max(q)));
                }
                for e in &exprs {
                    let d = e.sub(&ph);
                    t.push(d.clone());
                    t.push(d.neg());
                }
                // the two sides' own expressions when they are common symbols
                for e in [&x, &y] {
                    let d = e.sub(&ph);
                    if !d.t.is_empty() {
                        t.push(d.clone());
                        t.push(d.neg());
                    }
                }
                for j in 0..i {
                    let (x2, y2, s2) = self.pairs[j].clone();
                    let p2 = Lin::s(s2);
                    let di = y.sub(&x);
                    let dj = y2.sub(&x2);
                    for k in [1, -1] {
                        let e = di.lc(1, &dj, -k);
                        if e.is_const() == Some(0) || b.facts.prove_eq(&b.n(&e)) {
                            // phi_i - k phi_j = x - k x2
                            let rem = x.lc(1, &x2, -k);
                            let l = ph.lc(1, &p2, -k).sub(&rem);
                            t.push(l.clone());
                            t.push(l.neg());
                        }
                    }
                    let d = ph.sub(&p2);
                    t.push(d.clone());
                    t.push(d.neg());
                    let d2 = ph.add(&p2);
                    for e in exprs.iter().take(if n > 5 { 0 } else { 30 }) {
                        let l = e.sub(&d2);
                        t.push(l.clone());
                        t.push(l.neg());
                    }
                }
            }
            for l in t {
                if !l.t.is_empty() && seen.insert(l.clone()) {
                    cand.push(l);
                }
            }
        }
        for n in &self.lens {
            for i in &self.ints {
                let l = n.sub(i);
                if l.t.len() > 1 && seen.insert(l.clone()) {
                    cand.push(l);
                }
            }
        }
        if std::env::var("AI_JOIN").is_ok() {
            eprintln!("join: {} pairs {} exprs {} cand {} keep {} / {} facts", self.pairs.len(), self.exprs.len(), cand.len(), keep.len(), fa.len(), fb.len());
        }
        for l in &self.eqs {
            out.facts.assume_eq(l);
        }
        for l in keep {
            out.facts.assume_ge(&l);
        }
        for l in cand {
            if l.t.is_empty() {
                continue;
            }
            if self.both_ge(&l) {
                out.facts.assume_ge(&l);
            }
        }
        let mut ne: Vec<Lin> = vec![];
        for (fs, side) in [(&a.facts.ne, false), (&b.facts.ne, true)] {
            for f in fs.iter() {
                ne.extend(self.rev(f, side));
            }
        }
        for l in ne {
            if self.a.facts.prove_ne(&self.sub(&l, false)) && self.b.facts.prove_ne(&self.sub(&l, true)) {
                out.facts.assume_ne(&l);
            }
        }
    }
}

/// Join two states of the same shape. None when b is an instance of a (nothing new).
pub fn widen(cx: &mut In, a: &State, b: &State, n: u32) -> Option<State> {
    let mut j = Joiner {
        a,
        b,
        pairs: vec![],
        map: HashMap::new(),
        srcs: vec![],
        smap: HashMap::new(),
        omap: HashMap::new(),
        exprs: HashSet::new(),
        lens: HashSet::new(),
        eqs: vec![],
        ints: HashSet::new(),
        collapse: n >= 14,
        coarse: n >= 1,
        changed: false,
    };
    let inst = b;
    let _ = inst;
    let mut out = State::new();
    out.nheap = a.nheap.max(b.nheap);
    let mut mem = BTreeMap::new();
    for (o, v) in a.mem.iter() {
        let r = match b.mem.get(o) {
            Some(w) => {
                if Rc::ptr_eq(v, w) {
                    note(&mut j, v);
                    v.clone()
                } else {
                    match j.val(v, w) {
                        Some(x) => Rc::new(x),
                        None => Rc::new(Val::Top),
                    }
                }
            },
            None => Rc::new(Val::Undef),
        };
        mem.insert(*o, r);
    }
    for v in mem.values() {
        measures(v, &mut j.lens, &mut j.ints);
    }
    out.mem = Rc::new(mem);
    let mut gh = BTreeMap::new();
    for (o, v) in a.ghost.iter() {
        let w = b.ghost.get(o).cloned().unwrap_or(Val::Undef);
        let r = match j.val(v, &w) {
            Some(x) => x,
            None => {
                cx.event("imprecise", &format!("ghost {o} lost at a join"), Some(b));
                Val::Top
            },
        };
        gh.insert(*o, r);
    }
    out.ghost = Rc::new(gh);
    let mut at = BTreeMap::new();
    for (k, v) in a.atoms.iter() {
        if b.atoms.get(k) == Some(v) {
            at.insert(*k, *v);
        }
    }
    // facts about joined sources (which keys are not zero)
    let zero = |m: &BTreeMap<Sym, bool>, o: &BTreeMap<Sym, bool>| -> Vec<(Sym, bool)> {
        m.iter()
            .filter(|(k, v)| o.get(k) != Some(v) && def(**k).map_or(false, |d| &*d.op == "is_zero"))
            .map(|(k, v)| (*k, *v))
            .collect()
    };
    if !j.collapse {
        let (za, zb) = (zero(&a.atoms, &b.atoms), zero(&b.atoms, &a.atoms));
        for (k, v) in &za {
            for (l, w) in &zb {
                if v != w {
                    continue;
                }
                let save = (j.pairs.clone(), j.map.clone(), j.srcs.clone(), j.smap.clone(), j.omap.clone(), j.eqs.clone(), j.changed);
                let s = j.sym(*k, *l, 8);
                if j.pairs.len() == save.0.len() && j.srcs.len() == save.2.len() && def(s).map_or(false, |d| &*d.op == "is_zero") {
                    at.insert(s, *v);
                    break;
                }
                (j.pairs, j.map, j.srcs, j.smap, j.omap, j.eqs, j.changed) = save;
            }
        }
    }
    out.atoms = Rc::new(at);
    j.facts(&mut out, n < 4);
    let dbg = std::env::var("AI_INST").is_ok();
    if dbg {
        eprintln!("widen n={n} changed={} atoms {} {}", j.changed, out.atoms.len(), a.atoms.len());
        for (x, y, s) in &j.pairs {
            eprintln!("   pair {} / {} -> {}", show_lin(x, 3), show_lin(y, 3), show_sym(*s, 1));
        }
        for (x, y, s) in &j.srcs {
            eprintln!("   src {} / {} -> {}", show_sym(*x, 3), show_sym(*y, 3), show_sym(*s, 1));
        }
    }
    // is b an instance of a?
    if !j.changed && out.atoms.len() == a.atoms.len() {
        let mut inj: HashMap<Sym, Sym> = HashMap::new();
        let mut ok = true;
        for (x, _, s) in &j.pairs {
            match x.single() {
                Some(h) => {
                    if inj.insert(h, *s).is_some() {
                        ok = false;
                    }
                },
                None => ok = false,
            }
        }
        for (x, _, s) in &j.srcs {
            if def(*x).is_some() || inj.insert(*x, *s).is_some() {
                ok = false;
            }
        }
        if ok {
            // bound symbols must not occur elsewhere
            let live = out.live_syms();
            ok = inj.keys().all(|h| !live.contains(h));
            if dbg && !ok {
                eprintln!("   bound symbol live");
            }
        }
        if ok {
            for f in a.facts.all_ge() {
                let mut g = f.clone();
                for (h, s) in &inj {
                    g = g.subst(*h, &Lin::s(*s));
                }
                if !out.facts.prove_ge(&g) {
                    if dbg {
                        eprintln!("   lost {}", show_lin(&f, 3));
                    }
                    ok = false;
                    break;
                }
            }
        }
        if ok {
            for f in a.facts.ne.iter() {
                let mut g = f.clone();
                for (h, s) in &inj {
                    g = g.subst(*h, &Lin::s(*s));
                }
                if !out.facts.prove_ne(&g) {
                    ok = false;
                    break;
                }
            }
        }
        if ok {
            return None;
        }
    }
    out.gc();
    Some(out)
}

fn note(j: &mut Joiner, v: &Val) {
    match v {
        Val::Int(l) => {
            let l = j.a.n(l);
            if !l.t.is_empty() && l.t.len() <= 2 {
                j.exprs.insert(l);
            }
        },
        Val::Ptr(p) => {
            for l in [&p.off, &p.len].into_iter().flatten() {
                let l = j.a.n(l);
                if !l.t.is_empty() {
                    j.exprs.insert(l);
                }
            }
        },
        Val::Adt(_, f) => f.iter().for_each(|x| note(j, x)),
        Val::Seq(q) => {
            let q = j.a.nseq(q);
            q.0.iter().for_each(|s| j.note_seg(s));
        },
        _ => {},
    }
}

/// merge states of equal shape
pub fn reduce(cx: &mut In, states: Vec<State>) -> Vec<State> {
    let mut groups: BTreeMap<u64, State> = BTreeMap::new();
    for s in states {
        let (mut k, s) = canon(cx, s);
        if fine() {
            k ^= ghost_key(&s);
        }
        match groups.get(&k) {
            None => {
                groups.insert(k, s);
            },
            Some(h) => {
                cx.joins += 1;
                if let Some(j) = widen(cx, h, &s, 0) {
                    groups.insert(k, j);
                }
            },
        }
    }
    groups.into_values().collect()
}

pub fn reduce_outs(cx: &mut In, outs: Outs) -> Outs {
    let v: Vec<State> = outs
        .into_iter()
        .map(|(mut s, v)| {
            s.gset("__ret", v);
            s
        })
        .collect();
    reduce(cx, v)
        .into_iter()
        .map(|mut s| {
            let v = s.g("__ret");
            Rc::make_mut(&mut s.ghost).remove("__ret");
            (s, v)
        })
        .collect()
}

/// lengths of byte sequences and integer values stored in memory
fn measures(v: &Val, lens: &mut HashSet<Lin>, ints: &mut HashSet<Lin>) {
    match v {
        Val::Int(l) => {
            if !l.t.is_empty() && l.t.len() <= 2 && ints.len() < 40 {
                ints.insert(l.clone());
            }
        },
        Val::Seq(q) => {
            let l = q.len();
            if !l.t.is_empty() && lens.len() < 12 {
                lens.insert(l);
            }
        },
        Val::Adt(_, f) => f.iter().for_each(|x| measures(x, lens, ints)),
        _ => {},
    }
}
