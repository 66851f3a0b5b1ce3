//! Abstract states and the byte-sequence domain.
use crate::facts::Facts;
use crate::term::*;
use std::collections::{BTreeMap, HashSet};
use std::rc::Rc;

#[derive(Clone)]
pub struct State {
    pub mem: Rc<BTreeMap<ObjId, Rc<Val>>>,
    pub facts: Facts,
    pub atoms: Rc<BTreeMap<Sym, bool>>,
    /// specification state ("ghost" variables), joined like program variables
    pub ghost: Rc<BTreeMap<&'static str, Val>>,
    pub nheap: u64,
}

/// Why a transfer function could not proceed on this state.
#[derive(Debug)]
pub enum Fork {
    /// partition the state on this condition and retry
    Split(Cond),
    /// partition into the given alternatives: replace object contents
    Alt(Vec<(ObjId, Vec<PE>, Val)>),
    /// the state is infeasible
    Dead,
    /// possible out-of-range access not guarded by a check
    Oob(String),
}
pub type R<T> = Result<T, Fork>;

impl State {
    pub fn new() -> State {
        State {
            mem: Rc::new(BTreeMap::new()),
            facts: Facts::default(),
            atoms: Rc::new(BTreeMap::new()),
            ghost: Rc::new(BTreeMap::new()),
            nheap: 0,
        }
    }
    pub fn bad(&self) -> bool {
        self.facts.bad
    }
    pub fn n(&self, l: &Lin) -> Lin {
        self.facts.norm(l)
    }
    pub fn g(&self, k: &'static str) -> Val {
        self.ghost.get(k).cloned().unwrap_or(Val::Undef)
    }
    pub fn glin(&self, k: &'static str) -> Lin {
        match self.ghost.get(k) {
            Some(Val::Int(l)) => self.n(l),
            x => panic!("ghost {k} is not an integer: {x:?}"),
        }
    }
    pub fn gk(&self, k: &'static str) -> Z {
        match self.ghost.get(k) {
            Some(Val::En(l, _)) => self.n(l).is_const().expect("ghost enum not constant"),
            x => panic!("ghost {k} is not an enum: {x:?}"),
        }
    }
    pub fn gseq(&self, k: &'static str) -> Seq {
        match self.ghost.get(k) {
            Some(Val::Seq(l)) => (**l).clone(),
            x => panic!("ghost {k} is not a sequence: {x:?}"),
        }
    }
    pub fn gset(&mut self, k: &'static str, v: Val) {
        Rc::make_mut(&mut self.ghost).insert(k, v);
    }
    pub fn gsetk(&mut self, k: &'static str, v: Z) {
        self.gset(k, Val::En(Lin::k(v), 8));
    }
    pub fn obj(&self, o: ObjId) -> Option<&Rc<Val>> {
        self.mem.get(&o)
    }
    pub fn set_obj(&mut self, o: ObjId, v: Val) {
        Rc::make_mut(&mut self.mem).insert(o, Rc::new(v));
    }
    pub fn alloc(&mut self, v: Val) -> ObjId {
        let o = HEAP0 + self.nheap;
        self.nheap += 1;
        self.set_obj(o, v);
        o
    }

    // ------------------------------------------------------------ conditions
    pub fn eval(&self, c: &Cond) -> Option<bool> {
        match c {
            Cond::T => Some(true),
            Cond::F => Some(false),
            Cond::Ge(l) => {
                if self.facts.prove_ge(l) {
                    Some(true)
                } else if self.facts.prove_ge(&l.neg().addk(-1)) {
                    Some(false)
                } else {
                    None
                }
            },
            Cond::Eq(l) => {
                if self.facts.prove_eq(l) {
                    Some(true)
                } else if self.facts.prove_ne(l) {
                    Some(false)
                } else {
                    None
                }
            },
            Cond::Atom(s) => self.atoms.get(s).cloned(),
            Cond::Not(c) => self.eval(c).map(|b| !b),
            Cond::And(v) => {
                let mut all = true;
                for c in v.iter() {
                    match self.eval(c) {
                        Some(false) => return Some(false),
                        None => all = false,
                        _ => {},
                    }
                }
                if all {
                    Some(true)
                } else {
                    None
                }
            },
            Cond::Or(v) => {
                let mut none = true;
                for c in v.iter() {
                    match self.eval(c) {
                        Some(true) => return Some(true),
                        None => none = false,
                        _ => {},
                    }
                }
                if none {
                    Some(false)
                } else {
                    None
                }
            },
        }
    }

    /// assume a condition; a disjunction yields several states
    pub fn assume(&self, c: &Cond) -> Vec<State> {
        let mut s = self.clone();
        match c {
            Cond::T => return vec![s],
            Cond::F => return vec![],
            Cond::Ge(l) => s.facts.assume_ge(l),
            Cond::Eq(l) => s.facts.assume_eq(l),
            Cond::Atom(a) => match s.atoms.get(a) {
                Some(true) => {},
                Some(false) => return vec![],
                None => {
                    Rc::make_mut(&mut s.atoms).insert(*a, true);
                },
            },
            Cond::And(v) => {
                let mut cur = vec![s];
                for c in v.iter() {
                    cur = cur.iter().flat_map(|s| s.assume(c)).collect();
                }
                return cur;
            },
            Cond::Or(v) => {
                // disjoint partition: c1, !c1 & c2, ...
                let mut cur = vec![s];
                let mut out = vec![];
                for c in v.iter() {
                    for s in &cur {
                        out.extend(s.assume(c));
                    }
                    let nc = c.not();
                    cur = cur.iter().flat_map(|s| s.assume(&nc)).collect();
                }
                return out;
            },
            Cond::Not(n) => match &**n {
                Cond::Eq(l) => s.facts.assume_ne(l),
                Cond::Atom(a) => match s.atoms.get(a) {
                    Some(false) => {},
                    Some(true) => return vec![],
                    None => {
                        Rc::make_mut(&mut s.atoms).insert(*a, false);
                    },
                },
                Cond::And(v) => {
                    return self.assume(&Cond::Or(Rc::new(v.iter().map(|c| c.not()).collect())))
                },
                Cond::Or(v) => {
                    return self.assume(&Cond::And(Rc::new(v.iter().map(|c| c.not()).collect())))
                },
                c => return self.assume(&c.not()),
            },
        }
        if s.bad() {
            vec![]
        } else {
            vec![s]
        }
    }

    pub fn decide(&self, c: &Cond) -> R<bool> {
        match self.eval(c) {
            Some(b) => Ok(b),
            None => Err(Fork::Split(c.clone())),
        }
    }
    pub fn dge(&self, l: &Lin) -> R<bool> {
        self.decide(&Cond::ge(l.clone()))
    }

    // ------------------------------------------------------------ sequences
    pub fn nseg(&self, s: &Seg) -> Seg {
        match s {
            Seg::C(_) => s.clone(),
            Seg::Fill(b, l) => Seg::Fill(*b, self.n(l)),
            Seg::B(l) => Seg::B(self.n(l)),
            Seg::Enc { be, v, hi, lo } => Seg::Enc { be: *be, v: self.n(v), hi: *hi, lo: *lo },
            Seg::S { src, off, len } => Seg::S { src: *src, off: self.n(off), len: self.n(len) },
        }
    }

    pub fn nseq(&self, q: &Seq) -> Seq {
        let mut out: Vec<Seg> = Vec::with_capacity(q.0.len());
        for s in &q.0 {
            let mut s = self.nseg(s);
            if s.len().is_const() == Some(0) {
                continue;
            }
            // canonical forms
            match &s {
                Seg::Fill(b, l) => {
                    if let Some(n) = l.is_const() {
                        if n <= 512 {
                            s = Seg::C(vec![*b; n as usize].into());
                        }
                    }
                },
                Seg::B(l) => {
                    if let Some(c) = l.is_const() {
                        s = Seg::C(vec![c as u8].into());
                    } else if let Some((src, off)) = as_byte_at(l) {
                        s = Seg::S { src, off: self.n(&off), len: Lin::k(1) };
                    } else if let Some((v, k)) = as_byteof(l) {
                        s = Seg::Enc { be: true, v: self.n(&v), hi: k, lo: k };
                    }
                },
                Seg::Enc { be, v, hi, lo } => {
                    if let Some(b) = Seq(vec![s.clone()]).as_const() {
                        s = Seg::C(b.into());
                    } else if *lo == 0 && *hi == 0 && self.small(v) {
                        s = match as_byte_at(v) {
                            Some((src, off)) => Seg::S { src, off: self.n(&off), len: Lin::k(1) },
                            None => Seg::B(v.clone()),
                        };
                    } else if let Some(q) = dec_source(v, *be, *hi, *lo) {
                        for x in self.nseq(&q).0 {
                            push_merge(self, &mut out, x);
                        }
                        continue;
                    } else if let Some(n) = self.top_zero(v, *hi, *lo) {
                        // leading significances provably zero: split so equal encodings coincide
                        let z = Seg::C(vec![0; n as usize].into());
                        let rest = Seg::Enc { be: *be, v: v.clone(), hi: hi - n, lo: *lo };
                        if *be {
                            push_merge(self, &mut out, z);
                            push_merge(self, &mut out, rest);
                        } else {
                            push_merge(self, &mut out, rest);
                            push_merge(self, &mut out, z);
                        }
                        continue;
                    }
                },
                Seg::S { src, off, len } => {
                    // a locatable range of a named content
                    if let Some(d) = def(*src).filter(|d| &*d.op == "bytes") {
                        if let Arg::Q(b) = &d.args[0] {
                            match b.as_const() {
                                Some(b) => {
                                    if let (Some(o), Some(n)) = (off.is_const(), len.is_const()) {
                                        if o >= 0 && n >= 0 && (o + n) as usize <= b.len() {
                                            s = Seg::C(b[o as usize..(o + n) as usize].into());
                                        }
                                    } else if let Some(e) = self.n(&off.add(len)).is_const() {
                                        if e >= 0 && (e as usize) < b.len() {
                                            let b = Seq::bytes(&b[..e as usize]);
                                            let src = term("bytes", vec![Arg::Q(Rc::new(b))], None, None);
                                            s = Seg::S { src, off: off.clone(), len: len.clone() };
                                        }
                                    }
                                },
                                None if b.0.len() > 1 => {
                                    if let Ok(q) = self.seq_sub(b, off, len) {
                                        for x in self.nseq(&q).0 {
                                            push_merge(self, &mut out, x);
                                        }
                                        continue;
                                    }
                                    s = self.named_slice(b, off, len);
                                },
                                None => {},
                            }
                        }
                    }
                },
                _ => {},
            }
            push_merge(self, &mut out, s);
        }
        Seq(out)
    }

    fn small(&self, v: &Lin) -> bool {
        let (lo, hi) = self.facts.interval(v);
        lo.map_or(false, |x| x >= 0) && hi.map_or(false, |x| x < 256)
            || (self.facts.prove_ge(v) && self.facts.prove_ge(&v.neg().addk(255)))
    }

    fn top_zero(&self, v: &Lin, hi: u32, lo: u32) -> Option<u32> {
        if hi == lo || hi > 14 {
            return None;
        }
        // value bound from the interval only (cheap)
        let (l, h) = self.facts.interval(v);
        let (Some(l), Some(h)) = (l, h) else { return None };
        if l < 0 {
            return None;
        }
        let mut n = 0;
        while hi - n > lo && h < (1i128 << (8 * (hi - n))) {
            n += 1;
        }
        if n > 0 {
            Some(n)
        } else {
            None
        }
    }

    pub fn seq_cat(&self, a: &Seq, b: &Seq) -> Seq {
        let mut v = a.0.clone();
        v.extend(b.0.iter().cloned());
        self.nseq(&Seq(v))
    }

    /// a segment as a slice of a source naming its content
    fn seg_src(&self, s: &Seg) -> Sym {
        match s {
            Seg::S { src, off, .. } if off.is_const() == Some(0) => *src,
            s => term("bytes", vec![Arg::Q(Rc::new(Seq(vec![s.clone()])))], None, None),
        }
    }

    pub fn cut(&self, s: &Seg, at: &Lin) -> (Seg, Seg) {
        let len = s.len();
        let rest = self.n(&len.sub(at));
        match s {
            Seg::Fill(b, _) => (Seg::Fill(*b, at.clone()), Seg::Fill(*b, rest)),
            Seg::S { src, off, .. } => (
                Seg::S { src: *src, off: off.clone(), len: at.clone() },
                Seg::S { src: *src, off: self.n(&off.add(at)), len: rest },
            ),
            Seg::C(b) => {
                if let Some(k) = at.is_const() {
                    let k = k as usize;
                    return (Seg::C(b[..k].into()), Seg::C(b[k..].into()));
                }
                if b.iter().all(|x| *x == b[0]) {
                    return (Seg::Fill(b[0], at.clone()), Seg::Fill(b[0], rest));
                }
                let src = self.seg_src(s);
                (
                    Seg::S { src, off: Lin::k(0), len: at.clone() },
                    Seg::S { src, off: at.clone(), len: rest },
                )
            },
            Seg::Enc { be, v, hi, lo } if at.is_const().is_some() => {
                let k = at.is_const().unwrap() as u32;
                if *be {
                    (
                        Seg::Enc { be: true, v: v.clone(), hi: *hi, lo: hi - k + 1 },
                        Seg::Enc { be: true, v: v.clone(), hi: hi - k, lo: *lo },
                    )
                } else {
                    (
                        Seg::Enc { be: false, v: v.clone(), hi: lo + k - 1, lo: *lo },
                        Seg::Enc { be: false, v: v.clone(), hi: *hi, lo: lo + k },
                    )
                }
            },
            s => {
                let src = term("bytes", vec![Arg::Q(Rc::new(Seq(vec![s.clone()])))], None, None);
                (
                    Seg::S { src, off: Lin::k(0), len: at.clone() },
                    Seg::S { src, off: at.clone(), len: rest },
                )
            },
        }
    }

    /// split a sequence at a position (0 <= at <= len must hold)
    pub fn seq_split(&self, q: &Seq, at: &Lin) -> R<(Seq, Seq)> {
        let at = self.n(at);
        let mut pos = Lin::k(0);
        let mut a = vec![];
        for (i, s) in q.0.iter().enumerate() {
            let rel = self.n(&at.sub(&pos));
            let n = self.n(&s.len());
            if rel.is_const() == Some(0) {
                return Ok((Seq(a), Seq(q.0[i..].to_vec())));
            }
            if rel == n || self.facts.prove_ge(&rel.sub(&n)) {
                a.push(s.clone());
                pos = pos.add(&n);
                continue;
            }
            // rel < n possible
            if !self.facts.prove_ge(&rel) {
                // at < pos? then we are out of range (negative) - cannot happen after earlier decisions
                return Err(Fork::Split(Cond::ge(rel)));
            }
            if self.facts.prove_ge(&n.sub(&rel)) {
                if self.facts.prove_eq(&rel) {
                    return Ok((Seq(a), Seq(q.0[i..].to_vec())));
                }
                let (x, y) = self.cut(s, &rel);
                a.push(x);
                let mut b = vec![y];
                b.extend(q.0[i + 1..].iter().cloned());
                return Ok((Seq(a), Seq(b)));
            }
            return Err(Fork::Split(Cond::ge(rel.sub(&n))));
        }
        let rel = at.sub(&pos);
        if self.facts.prove_eq(&rel) {
            Ok((Seq(a), Seq::empty()))
        } else {
            Err(Fork::Oob(format!("out of bounds: position {} beyond end {}", show_lin(&at, 1), show_lin(&pos, 1))))
        }
    }

    pub fn seq_sub(&self, q: &Seq, off: &Lin, len: &Lin) -> R<Seq> {
        let off = self.n(off);
        let len = self.n(len);
        if off.is_const() == Some(0) && self.n(&q.len()) == len {
            return Ok(q.clone());
        }
        let (_, b) = self.seq_split(q, &off)?;
        let (x, _) = self.seq_split(&b, &len)?;
        Ok(x)
    }

    /// like `seq_sub`, but a range whose ends cannot be located among the segments is expressed as a
    /// slice of the whole content instead of partitioning the state
    pub fn seq_slice(&self, q: &Seq, off: &Lin, len: &Lin) -> R<Seq> {
        match self.seq_sub(q, off, len) {
            Err(Fork::Split(c)) => {
                let total = self.n(&q.len());
                let end = off.add(len);
                let fixed = |l: &Lin| l.is_const().is_some() || self.n(l) == total;
                if q.0.len() > 2
                    && !(fixed(off) && fixed(&end))
                    && self.facts.prove_ge(off)
                    && self.facts.prove_ge(len)
                    && self.facts.prove_ge(&total.sub(&end))
                {
                    return Ok(Seq(vec![self.named_slice(q, &self.n(off), &self.n(len))]));
                }
                Err(Fork::Split(c))
            },
            r => r,
        }
    }

    /// the range as a slice of the shortest locatable content
    fn named_slice(&self, q: &Seq, off: &Lin, len: &Lin) -> Seg {
        let mut q = self.nseq(q);
        let mut off = off.clone();
        let end = self.n(&off.add(len));
        if self.n(&q.len()) != end {
            if let Ok((x, _)) = self.seq_split(&q, &end) {
                q = self.nseq(&x);
            }
        }
        if off.is_const() != Some(0) {
            if let Ok((_, y)) = self.seq_split(&q, &off) {
                q = self.nseq(&y);
                off = Lin::k(0);
            }
        }
        let src = term("bytes", vec![Arg::Q(Rc::new(q))], None, None);
        Seg::S { src, off, len: len.clone() }
    }

    pub fn seq_write(&self, q: &Seq, off: &Lin, new: &Seq) -> R<Seq> {
        let n = self.n(&new.len());
        let (a, b) = self.seq_split(q, off)?;
        let c = match self.seq_split(&b, &n) {
            Ok((_, c)) => c,
            Err(Fork::Split(c)) => {
                // the end of the written range cannot be located among the old segments: the part of
                // the old content between the possible positions becomes unknown
                let total = self.n(&b.len());
                if !(self.facts.prove_ge(&n) && self.facts.prove_ge(&total.sub(&n))) {
                    return Err(Fork::Split(c));
                }
                let mut keep: Vec<Seg> = vec![];
                let mut klen = Lin::k(0);
                for s in b.0.iter().rev() {
                    let l = klen.add(&s.len());
                    // does this segment start at or after the written end?
                    if self.facts.prove_ge(&total.sub(&l).sub(&n)) {
                        keep.push(s.clone());
                        klen = l;
                    } else {
                        break;
                    }
                }
                keep.reverse();
                let gap = self.n(&total.sub(&klen).sub(&n));
                let mut v = vec![Seg::S { src: fresh("stale", None, None), off: Lin::k(0), len: gap }];
                v.extend(keep);
                Seq(v)
            },
            Err(e) => return Err(e),
        };
        let mut v = a.0;
        v.extend(new.0.iter().cloned());
        v.extend(c.0);
        Ok(self.nseq(&Seq(v)))
    }

    pub fn seq_at(&self, q: &Seq, idx: &Lin) -> R<Lin> {
        let (_, b) = self.seq_split(q, idx)?;
        for s in &b.0 {
            let n = self.n(&s.len());
            match n.is_const() {
                Some(0) => continue,
                Some(_) => {},
                None => {
                    if !self.dge(&n.addk(-1))? {
                        continue;
                    }
                },
            }
            return Ok(match s {
                Seg::C(b) => Lin::k(b[0] as Z),
                Seg::Fill(b, _) => Lin::k(*b as Z),
                Seg::B(l) => l.clone(),
                Seg::Enc { be, v, hi, lo } => self.byteof(v, if *be { *hi } else { *lo }),
                Seg::S { src, off, .. } => byte_at(*src, &self.n(off)),
            });
        }
        Err(Fork::Oob(format!("out of bounds: index {} out of range", show_lin(idx, 1))))
    }

    pub fn byteof(&self, v: &Lin, k: u32) -> Lin {
        let v = self.n(v);
        if let Some(c) = v.is_const() {
            return Lin::k(((c as u128) >> (8 * k)) as u8 as Z);
        }
        let (lo, hi) = self.facts.interval(&v);
        if lo.map_or(false, |x| x >= 0) {
            if let Some(h) = hi {
                if k < 16 && h < (1i128 << (8 * k).min(126)) {
                    return Lin::k(0);
                }
                if k == 0 && h < 256 {
                    return v;
                }
            }
        }
        if let Some(q) = dec_source(&v, true, k, k) {
            if let Ok(l) = self.seq_at(&q, &Lin::k(0)) {
                return l;
            }
        }
        Lin::s(term("byteof", vec![Arg::L(v), Arg::L(Lin::k(k as Z))], Some(0), Some(255)))
    }

    /// the unsigned integer encoded by the sequence (w bytes)
    pub fn decode(&self, q: &Seq, w: u32, be: bool) -> R<Lin> {
        let q = self.nseq(q);
        if let Some(b) = q.as_const() {
            let mut b = b;
            if !be {
                b.reverse();
            }
            let mut v: u128 = 0;
            for x in &b {
                v = (v << 8) | *x as u128;
            }
            if v < (1u128 << 126) {
                return Ok(Lin::k(v as Z));
            }
            return Ok(Lin::s(term("big", vec![Arg::Q(Rc::new(Seq::bytes(&b)))], Some(1 << 126), None)));
        }
        // exact inverse of an encoding
        if q.0.len() == 1 {
            if let Seg::Enc { be: e, v, hi, lo: 0 } = &q.0[0] {
                if *e == be && *hi + 1 == w && w <= 15 {
                    if self.facts.prove_ge(v) && self.facts.prove_ge(&v.neg().addk((1i128 << (8 * w)) - 1)) {
                        return Ok(v.clone());
                    }
                }
            }
        }
        if w <= 4 || q.0.len() > 1 && w <= 8 && q.0.iter().all(|s| !matches!(s, Seg::S { len, .. } if len.is_const().map_or(true, |n| n > 4))) {
            let mut r = Lin::k(0);
            for i in 0..w {
                let b = self.seq_at(&q, &Lin::k(i as Z))?;
                let k = if be { w - 1 - i } else { i };
                r = r.lc(1, &b, 1i128 << (8 * k));
            }
            // 256*byteof(v,1)+byteof(v,0) recombination happens through dec/enc terms only
            return Ok(self.n(&r));
        }
        let hi = if w < 16 { Some((1i128 << (8 * w)) - 1) } else { None };
        Ok(Lin::s(term(
            if be { "decbe" } else { "decle" },
            vec![Arg::Q(Rc::new(q)), Arg::L(Lin::k(w as Z))],
            Some(0),
            hi,
        )))
    }

    /// w-byte encoding of an unsigned value
    pub fn encode(&self, v: &Lin, w: u32, be: bool) -> Seq {
        self.nseq(&Seq(vec![Seg::Enc { be, v: self.n(v), hi: w - 1, lo: 0 }]))
    }

    // ------------------------------------------------------------ equality of sequences
    /// semantic comparison by aligned walking; Some(cond) when decidable down to a condition
    pub fn seq_eq(&self, a: &Seq, b: &Seq) -> Cond {
        let a = self.canon(a);
        let b = self.canon(b);
        if a == b {
            return Cond::T;
        }
        if let (Some(x), Some(y)) = (a.as_const(), b.as_const()) {
            return if x == y { Cond::T } else { Cond::F };
        }
        // walk
        let mut x: Vec<Seg> = a.0.iter().rev().cloned().collect();
        let mut y: Vec<Seg> = b.0.iter().rev().cloned().collect();
        let mut conds = vec![];
        loop {
            match (x.pop(), y.pop()) {
                (None, None) => return Cond::and(conds),
                (Some(s), None) | (None, Some(s)) => {
                    let n = self.n(&s.len());
                    if self.facts.prove_eq(&n) {
                        continue;
                    }
                    if self.facts.prove_ge(&n.addk(-1)) {
                        return Cond::F;
                    }
                    break;
                },
                (Some(s), Some(t)) => {
                    let (n, m) = (self.n(&s.len()), self.n(&t.len()));
                    if n.is_const() == Some(0) {
                        y.push(t);
                        continue;
                    }
                    if m.is_const() == Some(0) {
                        x.push(s);
                        continue;
                    }
                    let (s, t) = if self.facts.prove_eq(&n.sub(&m)) {
                        (s, t)
                    } else if self.facts.prove_ge(&m.sub(&n)) {
                        let (t1, t2) = self.cut(&t, &n);
                        y.push(t2);
                        (s, t1)
                    } else if self.facts.prove_ge(&n.sub(&m)) {
                        let (s1, s2) = self.cut(&s, &m);
                        x.push(s2);
                        (s1, t)
                    } else {
                        break;
                    };
                    match self.seg_eq(&s, &t) {
                        Some(c) => conds.push(c),
                        None => break,
                    }
                },
            }
        }
        let (p, q) = if format!("{a:?}") <= format!("{b:?}") { (a, b) } else { (b, a) };
        Cond::Atom(term("seqeq", vec![Arg::Q(Rc::new(p)), Arg::Q(Rc::new(q))], None, None))
    }

    fn seg_eq(&self, s: &Seg, t: &Seg) -> Option<Cond> {
        if s == t {
            return Some(Cond::T);
        }
        let n = self.n(&s.len()).is_const();
        match (s, t) {
            (Seg::S { src: a, off: o, .. }, Seg::S { src: b, off: p, .. }) if a == b => {
                if self.facts.prove_eq(&o.sub(p)) {
                    return Some(Cond::T);
                }
            },
            (Seg::Enc { be, v, hi, lo }, Seg::Enc { be: be2, v: v2, hi: h2, lo: l2 })
                if be == be2 && hi == h2 && lo == l2 && *lo == 0 =>
            {
                if self.facts.prove_eq(&v.sub(v2)) {
                    return Some(Cond::T);
                }
            },
            (Seg::Fill(a, _), Seg::Fill(b, _)) if a == b => return Some(Cond::T),
            (Seg::C(a), Seg::Fill(b, _)) | (Seg::Fill(b, _), Seg::C(a)) => {
                return Some(if a.iter().all(|x| x == b) { Cond::T } else { Cond::F });
            },
            _ => {},
        }
        if let Some(k) = n {
            if k <= 8 {
                let mut v = vec![];
                for i in 0..k {
                    let x = self.seq_at(&Seq(vec![s.clone()]), &Lin::k(i)).ok()?;
                    let y = self.seq_at(&Seq(vec![t.clone()]), &Lin::k(i)).ok()?;
                    v.push(Cond::eq(&self.n(&x), &self.n(&y)));
                }
                return Some(Cond::and(v));
            }
        }
        None
    }

    /// is the sequence equality entailed?
    pub fn seq_same(&self, a: &Seq, b: &Seq) -> bool {
        self.eval(&self.seq_eq(a, b)) == Some(true)
    }

    /// normalise, including the arguments of terms, under the current equalities
    pub fn canon(&self, q: &Seq) -> Seq {
        let mut v = vec![];
        for s in &q.0 {
            v.push(match s {
                Seg::S { src, off, len } => Seg::S {
                    src: self.csym(*src, 6),
                    off: self.clin(off, 6),
                    len: self.clin(len, 6),
                },
                Seg::B(l) => Seg::B(self.clin(l, 6)),
                Seg::Enc { be, v, hi, lo } => Seg::Enc { be: *be, v: self.clin(v, 6), hi: *hi, lo: *lo },
                s => self.nseg(s),
            });
        }
        self.nseq(&Seq(v))
    }
    pub fn clin(&self, l: &Lin, d: u32) -> Lin {
        let l = self.n(l);
        if d == 0 || self.facts.eq.is_empty() {
            return l;
        }
        let mut r = Lin::k(l.c);
        let mut ch = false;
        for &(s, c) in &l.t {
            let t = self.csym(s, d - 1);
            ch |= t != s;
            r = r.lc(1, &Lin::s(t), c);
        }
        if ch {
            self.n(&r)
        } else {
            l
        }
    }
    pub fn csym(&self, s: Sym, d: u32) -> Sym {
        if d == 0 || self.facts.eq.is_empty() {
            return s;
        }
        let Some(k) = def(s) else { return s };
        if k.op.contains("::") {
            return s;
        }
        let mut ch = false;
        let args: Vec<Arg> = k
            .args
            .iter()
            .map(|a| {
                let b = self.carg(a, d - 1);
                ch |= b != *a;
                b
            })
            .collect();
        if !ch {
            return s;
        }
        let (lo, hi) = bounds(s);
        term(&k.op, args, lo, hi)
    }
    fn carg(&self, a: &Arg, d: u32) -> Arg {
        match a {
            Arg::L(l) => Arg::L(self.clin(l, d)),
            Arg::T(s) => Arg::T(self.csym(*s, d)),
            Arg::Q(q) => {
                let mut v = vec![];
                for s in &q.0 {
                    v.push(match s {
                        Seg::S { src, off, len } => Seg::S {
                            src: self.csym(*src, d),
                            off: self.clin(off, d),
                            len: self.clin(len, d),
                        },
                        Seg::B(l) => Seg::B(self.clin(l, d)),
                        Seg::Enc { be, v, hi, lo } => {
                            Seg::Enc { be: *be, v: self.clin(v, d), hi: *hi, lo: *lo }
                        },
                        s => self.nseg(s),
                    });
                }
                Arg::Q(Rc::new(self.nseq(&Seq(v))))
            },
            Arg::V(v) => Arg::V(self.cval(v, d)),
            a => a.clone(),
        }
    }
    pub fn cval(&self, v: &Val, d: u32) -> Val {
        match v {
            Val::Int(l) => Val::Int(self.clin(l, d)),
            Val::En(l, n) => Val::En(self.clin(l, d), *n),
            Val::Term(s) => Val::Term(self.csym(*s, d)),
            Val::Seq(q) => Val::seq(self.canon(q)),
            Val::Adt(n, f) => Val::adt(*n, f.iter().map(|x| self.cval(x, d)).collect()),
            Val::Arr(f) => Val::Arr(Rc::new(f.iter().map(|x| self.cval(x, d)).collect())),
            v => v.clone(),
        }
    }

    pub fn live_syms(&self) -> HashSet<Sym> {
        let mut s = HashSet::new();
        for v in self.mem.values() {
            syms_val(v, &mut s, 2);
        }
        for v in self.ghost.values() {
            syms_val(v, &mut s, 3);
        }
        s
    }
    pub fn gc(&mut self) {
        let live = self.live_syms();
        self.facts.retain_relevant(&live);
        // atoms about dead terms are kept only if all their argument symbols are live or constant
        if self.atoms.len() > 40 {
            let l2 = live;
            Rc::make_mut(&mut self.atoms).retain(|a, _| {
                let mut s = HashSet::new();
                syms_sym(*a, &mut s, 3);
                s.iter().any(|x| l2.contains(x))
            });
        }
    }
    pub fn show(&self, d: u32) -> String {
        let mut o = String::new();
        for (k, v) in self.mem.iter() {
            o.push_str(&format!("  {} = {}\n", k, show_val(v, d)));
        }
        for (k, v) in self.ghost.iter() {
            o.push_str(&format!("  ghost {} = {}\n", k, show_val(v, d)));
        }
        o.push_str(&self.show_facts(d));
        o
    }
    pub fn show_facts(&self, d: u32) -> String {
        let mut o = String::new();
        for (s, e) in self.facts.eq.iter() {
            o.push_str(&format!("  {} == {}\n", show_sym(*s, d), show_lin(e, d)));
        }
        for f in self.facts.ge.iter() {
            o.push_str(&format!("  {} >= 0\n", show_lin(f, d)));
        }
        for f in self.facts.ne.iter() {
            o.push_str(&format!("  {} != 0\n", show_lin(f, d)));
        }
        for (s, (a, b)) in self.facts.bnd.iter() {
            o.push_str(&format!("  {} in {:?}..{:?}\n", show_sym(*s, d), a, b));
        }
        for (s, b) in self.atoms.iter() {
            o.push_str(&format!("  {} is {}\n", show_sym(*s, d), b));
        }
        o
    }
}

fn push_merge(st: &State, out: &mut Vec<Seg>, s: Seg) {
    if let Some(last) = out.last_mut() {
        match (&*last, &s) {
            (Seg::C(a), Seg::C(b)) => {
                let mut v = a.to_vec();
                v.extend_from_slice(b);
                *last = Seg::C(v.into());
                return;
            },
            (Seg::Fill(a, l), Seg::Fill(b, m)) if a == b => {
                *last = Seg::Fill(*a, st.n(&l.add(m)));
                return;
            },
            (Seg::S { src, off, len }, Seg::S { src: s2, off: o2, len: l2 }) if src == s2 => {
                let end = st.n(&off.add(len));
                if end == *o2 || st.facts.prove_eq(&end.sub(o2)) {
                    *last = Seg::S { src: *src, off: off.clone(), len: st.n(&len.add(l2)) };
                    return;
                }
            },
            (Seg::Enc { be, v, hi, lo }, Seg::Enc { be: b2, v: v2, hi: h2, lo: l2 }) if v == v2 => {
                // single bytes are stored as big-endian; allow either orientation to grow
                let single_a = hi == lo;
                let single_b = h2 == l2;
                if (*be || single_a) && (*b2 || single_b) && *lo == h2 + 1 {
                    *last = Seg::Enc { be: true, v: v.clone(), hi: *hi, lo: *l2 };
                    return;
                }
                if (!*be || single_a) && (!*b2 || single_b) && *l2 == hi + 1 {
                    *last = Seg::Enc { be: false, v: v.clone(), hi: *h2, lo: *lo };
                    return;
                }
            },
            _ => {},
        }
        // C byte followed by Enc low bytes etc. stay separate
    }
    out.push(s);
}

pub fn as_byte_at(l: &Lin) -> Option<(Sym, Lin)> {
    let s = l.single()?;
    let k = def(s)?;
    if &*k.op == "byte" {
        if let (Arg::T(src), Arg::L(off)) = (&k.args[0], &k.args[1]) {
            return Some((*src, off.clone()));
        }
    }
    None
}
pub fn as_byteof(l: &Lin) -> Option<(Lin, u32)> {
    let s = l.single()?;
    let k = def(s)?;
    if &*k.op == "byteof" {
        if let (Arg::L(v), Arg::L(n)) = (&k.args[0], &k.args[1]) {
            return Some((v.clone(), n.c as u32));
        }
    }
    None
}
/// if v is exactly decode(q), the bytes hi..=lo of v in the requested order
fn dec_source(v: &Lin, be: bool, hi: u32, lo: u32) -> Option<Seq> {
    let s = v.single()?;
    let k = def(s)?;
    let src_be = match &*k.op {
        "decbe" => true,
        "decle" => false,
        _ => return None,
    };
    let (Arg::Q(q), Arg::L(w)) = (&k.args[0], &k.args[1]) else { return None };
    let w = w.c as u32;
    if src_be != be && hi != lo {
        return None;
    }
    let st = State::new();
    let (a, n) = if src_be { (w - 1 - hi, hi - lo + 1) } else { (lo, hi - lo + 1) };
    st.seq_sub(q, &Lin::k(a as Z), &Lin::k(n as Z)).ok()
}

pub fn byte_at(src: Sym, off: &Lin) -> Lin {
    if let (Some(d), Some(o)) = (def(src), off.is_const()) {
        if &*d.op == "bytes" {
            if let Arg::Q(q) = &d.args[0] {
                let st = State::new();
                if let Ok(l) = st.seq_at(q, &Lin::k(o)) {
                    if as_byte_at(&l).map_or(true, |x| x.0 != src) {
                        return l;
                    }
                }
            }
        }
    }
    Lin::s(term("byte", vec![Arg::T(src), Arg::L(off.clone())], Some(0), Some(255)))
}

pub fn syms_sym(s: Sym, o: &mut HashSet<Sym>, d: u32) {
    if !o.insert(s) || d == 0 {
        return;
    }
    if let Some(k) = def(s) {
        for a in &k.args {
            match a {
                Arg::L(l) => l.t.iter().for_each(|x| syms_sym(x.0, o, d - 1)),
                Arg::T(t) => syms_sym(*t, o, d - 1),
                Arg::Q(q) => syms_seq(q, o, d - 1),
                Arg::V(v) => syms_val(v, o, d - 1),
                _ => {},
            }
        }
    }
}
pub fn syms_lin(l: &Lin, o: &mut HashSet<Sym>, d: u32) {
    for x in &l.t {
        syms_sym(x.0, o, d);
    }
}
pub fn syms_seq(q: &Seq, o: &mut HashSet<Sym>, d: u32) {
    for s in &q.0 {
        match s {
            Seg::C(_) => {},
            Seg::Fill(_, l) | Seg::B(l) => syms_lin(l, o, d),
            Seg::Enc { v, .. } => syms_lin(v, o, d),
            Seg::S { src, off, len } => {
                syms_sym(*src, o, d);
                syms_lin(off, o, d);
                syms_lin(len, o, d);
            },
        }
    }
}
pub fn syms_cond(c: &Cond, o: &mut HashSet<Sym>, d: u32) {
    match c {
        Cond::Ge(l) | Cond::Eq(l) => syms_lin(l, o, d),
        Cond::Atom(s) => syms_sym(*s, o, d),
        Cond::Not(c) => syms_cond(c, o, d),
        Cond::And(v) | Cond::Or(v) => v.iter().for_each(|c| syms_cond(c, o, d)),
        _ => {},
    }
}
pub fn syms_val(v: &Val, o: &mut HashSet<Sym>, d: u32) {
    match v {
        Val::Int(l) | Val::En(l, _) | Val::Addr(l) => syms_lin(l, o, d),
        Val::Bool(c) => syms_cond(c, o, d),
        Val::Ptr(p) => {
            if let Some(l) = &p.off {
                syms_lin(l, o, d)
            }
            if let Some(l) = &p.len {
                syms_lin(l, o, d)
            }
        },
        Val::Adt(_, f) | Val::Arr(f) => f.iter().for_each(|v| syms_val(v, o, d)),
        Val::Seq(q) => syms_seq(q, o, d),
        Val::Term(s) => syms_sym(*s, o, d),
        _ => {},
    }
}
