//! The numeric abstract domain: conjunctions of linear (in)equalities and disequalities over
//! symbols, with an entailment test by interval reasoning and Fourier-Motzkin elimination with
//! integer tightening. "Not entailed" is always a sound answer.
use crate::lp::{self, Feas, Model, Rat};
use crate::term::*;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::rc::Rc;

#[derive(Clone, Default)]
pub struct Facts {
    /// solved equalities: symbol = expression over non-solved symbols
    pub eq: Rc<BTreeMap<Sym, Lin>>,
    /// expressions known to be >= 0
    pub ge: Rc<Vec<Lin>>,
    /// expressions known to be != 0
    pub ne: Rc<Vec<Lin>>,
    /// tightened bounds
    pub bnd: Rc<BTreeMap<Sym, (Option<Z>, Option<Z>)>>,
    pub bad: bool,
    /// points satisfying all the facts, used to reject entailments cheaply
    pub models: RefCell<Vec<Rc<Model>>>,
}

fn near0(b: (Option<Z>, Option<Z>)) -> Z {
    match b {
        (Some(l), _) if l > 0 => l,
        (_, Some(h)) if h < 0 => h,
        _ => 0,
    }
}

fn gcd(a: Z, b: Z) -> Z {
    let (mut a, mut b) = (a.abs(), b.abs());
    while b != 0 {
        let t = a % b;
        a = b;
        b = t;
    }
    a
}

fn div_floor(a: Z, b: Z) -> Z {
    let q = a / b;
    if (a % b != 0) && ((a < 0) != (b < 0)) {
        q - 1
    } else {
        q
    }
}

/// divide L >= 0 by the gcd of its coefficients, tightening the constant
fn tighten(l: Lin) -> Lin {
    let mut g = 0;
    for &(_, c) in &l.t {
        g = gcd(g, c);
        if g == 1 {
            return l;
        }
    }
    if g <= 1 {
        return l;
    }
    Lin { c: div_floor(l.c, g), t: l.t.iter().map(|&(s, c)| (s, c / g)).collect() }
}

const BIG: Z = 1 << 100;

impl Facts {
    pub fn bounds(&self, s: Sym) -> (Option<Z>, Option<Z>) {
        match self.bnd.get(&s) {
            Some(b) => *b,
            None => bounds(s),
        }
    }

    fn mval(&self, m: &Model, s: Sym) -> Rat {
        match m.get(&s) {
            Some(r) => *r,
            None => Rat::k(near0(self.bounds(s))),
        }
    }
    fn meval(&self, m: &Model, l: &Lin) -> Option<Rat> {
        let mut r = Rat::k(l.c);
        for &(s, c) in &l.t {
            r = r.add(self.mval(m, s).mul(Rat::k(c))?)?;
        }
        Some(r)
    }
    fn add_model(&self, m: Model) {
        let mut v = self.models.borrow_mut();
        if v.len() >= 12 {
            v.remove(0);
        }
        v.push(Rc::new(m));
    }
    /// a fact was added: keep the points that satisfy it
    fn filter_models(&mut self, l: &Lin) {
        let v = std::mem::take(&mut *self.models.borrow_mut());
        let w: Vec<Rc<Model>> =
            v.into_iter().filter(|m| self.meval(m, l).map_or(false, |x| x.sign() >= 0)).collect();
        *self.models.borrow_mut() = w;
    }
    fn filter_models_bnd(&mut self, s: Sym, old: (Option<Z>, Option<Z>)) {
        let (lo, hi) = self.bounds(s);
        let v = std::mem::take(&mut *self.models.borrow_mut());
        let w: Vec<Rc<Model>> = v
            .into_iter()
            .filter_map(|m| {
                let x = match m.get(&s) {
                    Some(x) => *x,
                    None => Rat::k(near0(old)),
                };
                if lo.map_or(true, |l| x.lt(Rat::k(l)) == Some(false))
                    && hi.map_or(true, |h| Rat::k(h).lt(x) == Some(false))
                {
                    if m.contains_key(&s) {
                        return Some(m);
                    }
                    let mut n = (*m).clone();
                    n.insert(s, x);
                    return Some(Rc::new(n));
                }
                None
            })
            .collect();
        *self.models.borrow_mut() = w;
    }

    pub fn norm(&self, l: &Lin) -> Lin {
        if self.eq.is_empty() || !l.t.iter().any(|x| self.eq.contains_key(&x.0)) {
            return l.clone();
        }
        let mut r = Lin { c: l.c, t: l.t.iter().filter(|x| !self.eq.contains_key(&x.0)).cloned().collect() };
        for &(s, c) in &l.t {
            if let Some(e) = self.eq.get(&s) {
                r = r.lc(1, e, c);
            }
        }
        r
    }

    fn lower(&self, l: &Lin) -> Option<Z> {
        let mut r = l.c;
        for &(s, c) in &l.t {
            let (lo, hi) = self.bounds(s);
            let b = if c > 0 { lo? } else { hi? };
            r = r.checked_add(c.checked_mul(b)?)?;
        }
        Some(r)
    }

    /// interval of an expression (constants only)
    pub fn interval(&self, l: &Lin) -> (Option<Z>, Option<Z>) {
        let l = self.norm(l);
        (self.lower(&l), self.lower(&l.neg()).map(|x| -x))
    }

    /// interval, refined with relational facts by binary probing of entailment
    pub fn lo_of(&self, l: &Lin) -> Option<Z> {
        let l = self.norm(l);
        self.lower(&l)
    }

    pub fn prove_ge(&self, l: &Lin) -> bool {
        if self.bad {
            return true;
        }
        let l = self.norm(l);
        if let Some(c) = l.is_const() {
            return c >= 0;
        }
        if let Some(b) = self.lower(&l) {
            if b >= 0 {
                return true;
            }
        }
        for f in self.ge.iter() {
            // l - f >= 0 ?
            if f.t.iter().any(|x| l.coef(x.0) != 0) {
                let d = l.sub(f);
                if let Some(b) = self.lower(&d) {
                    if b >= 0 {
                        return true;
                    }
                }
            }
        }
        self.refute(&l.neg().addk(-1))
    }

    pub fn prove_eq(&self, l: &Lin) -> bool {
        if self.bad {
            return true;
        }
        let l = self.norm(l);
        match l.is_const() {
            Some(c) => c == 0,
            None => {
                // quick reject through gcd / intervals
                let (lo, hi) = (self.lower(&l), self.lower(&l.neg()).map(|x| -x));
                if lo.map_or(false, |x| x > 0) || hi.map_or(false, |x| x < 0) {
                    return false;
                }
                if self.ge.is_empty() {
                    return false;
                }
                self.prove_ge(&l) && self.prove_ge(&l.neg())
            },
        }
    }

    pub fn same(&self, a: &Lin, b: &Lin) -> bool {
        a == b || self.prove_eq(&a.sub(b))
    }

    pub fn prove_ne(&self, l: &Lin) -> bool {
        if self.bad {
            return true;
        }
        let l = self.norm(l);
        if let Some(c) = l.is_const() {
            return c != 0;
        }
        let m = l.neg();
        if self.ne.iter().any(|f| *f == l || *f == m) {
            return true;
        }
        self.prove_ge(&l.addk(-1)) || self.prove_ge(&m.addk(-1))
    }

    /// Is `goal >= 0` inconsistent with the facts?
    fn refute(&self, goal: &Lin) -> bool {
        for m in self.models.borrow().iter() {
            if self.meval(m, goal).map_or(false, |x| x.sign() >= 0) {
                return false;
            }
        }
        // relevant facts: transitive closure over shared symbols
        let mut syms: HashSet<Sym> = goal.t.iter().map(|x| x.0).collect();
        let mut used = vec![false; self.ge.len()];
        let mut cons: Vec<Lin> = vec![goal.clone()];
        loop {
            let mut add = vec![];
            for (i, f) in self.ge.iter().enumerate() {
                if !used[i] && f.t.iter().any(|x| syms.contains(&x.0)) {
                    used[i] = true;
                    cons.push(f.clone());
                    add.extend(f.t.iter().map(|x| x.0));
                }
            }
            if add.is_empty() {
                break;
            }
            syms.extend(add);
        }
        match lp::feasible(&cons, &|s| self.bounds(s)) {
            Feas::No => true,
            Feas::Unknown => fm(cons, |s| self.bounds(s)),
            Feas::Yes(m) => {
                let whole = m.values().all(|v| v.1 == 1);
                if !whole && cons.len() <= 60 && fm(cons, |s| self.bounds(s)) {
                    return true;
                }
                // complete the point with any point of the other components
                let old = self.models.borrow().last().cloned();
                if used.iter().all(|u| *u) {
                    self.add_model(m);
                } else if let Some(o) = old {
                    let mut x = (*o).clone();
                    x.extend(m);
                    self.add_model(x);
                } else {
                    let rest: Vec<Lin> =
                        self.ge.iter().zip(used.iter()).filter(|x| !x.1).map(|x| x.0.clone()).collect();
                    if let Feas::Yes(mut x) = lp::feasible(&rest, &|s| self.bounds(s)) {
                        x.extend(m);
                        self.add_model(x);
                    }
                }
                false
            },
        }
    }

    pub fn assume_ge(&mut self, l: &Lin) {
        if self.bad {
            return;
        }
        let l = tighten(self.norm(l));
        if let Some(c) = l.is_const() {
            if c < 0 {
                self.bad = true;
            }
            return;
        }
        if let Some(b) = self.lower(&l) {
            if b >= 0 {
                return;
            }
        }
        let m = l.neg();
        if let Some(b) = self.lower(&m) {
            if b > 0 {
                self.bad = true;
                return;
            }
            if b == 0 {
                // l <= 0 and l >= 0
                self.assume_eq(&l);
                return;
            }
        }
        if self.prove_ge(&m.addk(-1)) {
            self.bad = true;
            return;
        }
        if l.t.len() == 1 {
            let (s, c) = l.t[0];
            self.tighten_bnd(s, c, l.c);
        } else {
            if self.ge.contains(&l) {
                return;
            }
            if self.prove_ge(&l) {
                return;
            }
            // opposite fact present => equality
            if self.ge.contains(&m) {
                self.assume_eq(&l);
                return;
            }
            Rc::make_mut(&mut self.ge).push(l.clone());
            self.filter_models(&l);
        }
        self.recheck_ne(&l);
    }

    fn tighten_bnd(&mut self, s: Sym, c: Z, k: Z) {
        // c*s + k >= 0
        let old = self.bounds(s);
        let (mut lo, mut hi) = old;
        if c > 0 {
            let b = -div_floor(k, c);
            if lo.map_or(true, |x| x < b) {
                lo = Some(b);
            }
        } else {
            let b = div_floor(k, -c);
            if hi.map_or(true, |x| x > b) {
                hi = Some(b);
            }
        }
        if let (Some(a), Some(b)) = (lo, hi) {
            if a > b {
                self.bad = true;
                return;
            }
            if a == b {
                Rc::make_mut(&mut self.bnd).insert(s, (lo, hi));
                self.filter_models_bnd(s, old);
                self.assume_eq(&Lin { c: -a, t: vec![(s, 1)] });
                return;
            }
        }
        Rc::make_mut(&mut self.bnd).insert(s, (lo, hi));
        self.filter_models_bnd(s, old);
    }

    fn recheck_ne(&mut self, l: &Lin) {
        if self.ne.is_empty() || self.bad {
            return;
        }
        let hits: Vec<Lin> = self
            .ne
            .iter()
            .filter(|n| n.t.iter().any(|x| l.coef(x.0) != 0))
            .cloned()
            .collect();
        for n in hits {
            if self.bad {
                return;
            }
            self.try_ne(&n);
        }
    }

    /// returns true when the disequality has been turned into an inequality
    fn try_ne(&mut self, n: &Lin) -> bool {
        let n = self.norm(n);
        if let Some(c) = n.is_const() {
            if c == 0 {
                self.bad = true;
            }
            return true;
        }
        let m = n.neg();
        if self.prove_ge(&n) {
            self.drop_ne(&n);
            self.assume_ge(&n.addk(-1));
            return true;
        }
        if self.prove_ge(&m) {
            self.drop_ne(&n);
            self.assume_ge(&m.addk(-1));
            return true;
        }
        false
    }

    fn drop_ne(&mut self, n: &Lin) {
        let m = n.neg();
        let s = self.clone();
        Rc::make_mut(&mut self.ne).retain(|x| {
            let x = s.norm(x);
            x != *n && x != m
        });
    }

    pub fn assume_ne(&mut self, l: &Lin) {
        if self.bad {
            return;
        }
        let l = self.norm(l);
        if self.try_ne(&l) {
            return;
        }
        let m = l.neg();
        if !self.ne.iter().any(|x| *x == l || *x == m) {
            Rc::make_mut(&mut self.ne).push(l);
        }
    }

    pub fn assume_eq(&mut self, l: &Lin) {
        if self.bad {
            return;
        }
        let l = self.norm(l);
        if let Some(c) = l.is_const() {
            if c != 0 {
                self.bad = true;
            }
            return;
        }
        // gcd test
        let mut g = 0;
        for &(_, c) in &l.t {
            g = gcd(g, c);
        }
        if l.c % g != 0 {
            self.bad = true;
            return;
        }
        let l = Lin { c: l.c / g, t: l.t.iter().map(|&(s, c)| (s, c / g)).collect() };
        // contradiction?
        let (lo, hi) = (self.lower(&l), self.lower(&l.neg()).map(|x| -x));
        if lo.map_or(false, |x| x > 0) || hi.map_or(false, |x| x < 0) {
            self.bad = true;
            return;
        }
        // choose a symbol with coefficient +-1; prefer the newest one
        let pick = l.t.iter().rev().find(|x| x.1.abs() == 1).cloned();
        let Some((s, c)) = pick else {
            // keep as two inequalities
            if self.prove_ge(&l.addk(-1)) || self.prove_ge(&l.neg().addk(-1)) {
                self.bad = true;
                return;
            }
            let ge = Rc::make_mut(&mut self.ge);
            let m = l.neg();
            if !ge.contains(&l) {
                ge.push(l.clone());
            }
            if !ge.contains(&m) {
                ge.push(m.clone());
            }
            self.filter_models(&l);
            self.filter_models(&m);
            self.recheck_ne(&l);
            return;
        };
        // s = e
        let e = l.without(s).mul(-c);
        let (lo, hi) = self.bounds(s);
        {
            let eq = Rc::make_mut(&mut self.eq);
            for v in eq.values_mut() {
                if v.coef(s) != 0 {
                    *v = v.subst(s, &e);
                }
            }
            eq.insert(s, e.clone());
        }
        let mut again: Vec<Lin> = vec![];
        if self.ge.iter().any(|f| f.coef(s) != 0) {
            let ge = Rc::make_mut(&mut self.ge);
            let mut keep = Vec::with_capacity(ge.len());
            for f in ge.drain(..) {
                if f.coef(s) != 0 {
                    again.push(f.subst(s, &e));
                } else {
                    keep.push(f);
                }
            }
            *ge = keep;
        }
        let mut nes: Vec<Lin> = vec![];
        if self.ne.iter().any(|f| f.coef(s) != 0) {
            let ne = Rc::make_mut(&mut self.ne);
            let mut keep = Vec::with_capacity(ne.len());
            for f in ne.drain(..) {
                if f.coef(s) != 0 {
                    nes.push(f.subst(s, &e));
                } else {
                    keep.push(f);
                }
            }
            *ne = keep;
        }
        if let Some(lo) = lo {
            again.push(e.addk(-lo));
        }
        if let Some(hi) = hi {
            again.push(e.neg().addk(hi));
        }
        for f in again {
            self.assume_ge(&f);
            if self.bad {
                return;
            }
        }
        for f in nes {
            self.assume_ne(&f);
            if self.bad {
                return;
            }
        }
        let e2 = e;
        self.recheck_ne(&e2);
    }

    /// all facts as a list of expressions >= 0 (used when joining)
    pub fn all_ge(&self) -> Vec<Lin> {
        let mut v: Vec<Lin> = self.ge.iter().cloned().collect();
        for (s, e) in self.eq.iter() {
            let d = e.sub(&Lin::s(*s));
            v.push(d.neg());
            v.push(d);
        }
        for (s, (lo, hi)) in self.bnd.iter() {
            if self.eq.contains_key(s) {
                continue;
            }
            let (l0, h0) = bounds(*s);
            if let Some(l) = lo {
                if l0 != Some(*l) {
                    v.push(Lin { c: -l, t: vec![(*s, 1)] });
                }
            }
            if let Some(h) = hi {
                if h0 != Some(*h) {
                    v.push(Lin { c: *h, t: vec![(*s, -1)] });
                }
            }
        }
        v
    }

    /// project the facts onto the given symbols (an over-approximation of the projection)
    pub fn retain_relevant(&mut self, live: &HashSet<Sym>) {
        let mut memo: HashMap<Sym, bool> = HashMap::new();
        let mut is_live = |s: Sym| -> bool {
            if live.contains(&s) {
                return true;
            }
            if let Some(b) = memo.get(&s) {
                return *b;
            }
            // a term over live symbols can be built again
            let b = def(s).is_some() && {
                let mut o = HashSet::new();
                crate::state::syms_sym(s, &mut o, 4);
                o.iter().all(|x| *x == s || live.contains(x) || def(*x).is_some())
            };
            memo.insert(s, b);
            b
        };
        // equalities
        let mut repivot = vec![];
        let mut drop = vec![];
        for (s, e) in self.eq.iter() {
            if !is_live(*s) {
                drop.push(*s);
            } else if let Some(d) = e.t.iter().find(|x| x.1.abs() == 1 && !is_live(x.0)) {
                repivot.push((*s, d.0, d.1));
            }
        }
        if !drop.is_empty() {
            let eq = Rc::make_mut(&mut self.eq);
            for s in drop {
                eq.remove(&s);
            }
        }
        for (s, d, _) in repivot {
            let Some(e) = self.eq.get(&s).cloned() else { continue };
            let k = e.coef(d);
            if k.abs() != 1 {
                continue;
            }
            // s = e  =>  d = (s - rest) / k
            let r = Lin::s(s).sub(&e.without(d)).mul(k);
            Rc::make_mut(&mut self.eq).remove(&s);
            let (lo, hi) = self.bounds(d);
            Rc::make_mut(&mut self.bnd).remove(&d);
            let sub = |l: &Lin| l.subst(d, &r);
            let eq: BTreeMap<Sym, Lin> = self.eq.iter().map(|(x, e)| (*x, sub(e))).collect();
            self.eq = Rc::new(eq);
            let mut ge: Vec<Lin> = self.ge.iter().map(|l| tighten(sub(l))).collect();
            if let Some(l) = lo {
                ge.push(r.addk(-l));
            }
            if let Some(h) = hi {
                ge.push(r.neg().addk(h));
            }
            self.ge = Rc::new(vec![]);
            self.models.borrow_mut().clear();
            let ne: Vec<Lin> = self.ne.iter().map(|l| sub(l)).collect();
            self.ne = Rc::new(ne);
            for l in ge {
                self.assume_ge(&l);
            }
        }
        if self.ne.iter().any(|f| f.t.iter().any(|x| !is_live(x.0))) {
            Rc::make_mut(&mut self.ne).retain(|f| f.t.iter().all(|x| is_live(x.0)));
        }
        // inequalities
        let mut n = 0;
        loop {
            let mut cnt: BTreeMap<Sym, (usize, usize)> = BTreeMap::new();
            for f in self.ge.iter() {
                for &(s, k) in &f.t {
                    if !is_live(s) {
                        let e = cnt.entry(s).or_default();
                        if k > 0 {
                            e.0 += 1
                        } else {
                            e.1 += 1
                        }
                    }
                }
            }
            let Some((d, _)) = cnt.into_iter().min_by_key(|(s, (p, n))| (p * n, *s)) else { break };
            n += 1;
            let (mut pos, mut neg) = (vec![], vec![]);
            let mut rest = vec![];
            for f in self.ge.iter() {
                match f.coef(d) {
                    0 => rest.push(f.clone()),
                    k if k > 0 => pos.push(f.clone()),
                    _ => neg.push(f.clone()),
                }
            }
            let (lo, hi) = self.bounds(d);
            if let Some(l) = lo {
                pos.push(Lin { c: -l, t: vec![(d, 1)] });
            }
            if let Some(h) = hi {
                neg.push(Lin { c: h, t: vec![(d, -1)] });
            }
            self.ge = Rc::new(rest);
            if pos.len() * neg.len() > 60 || n > 60 {
                continue;
            }
            for p in &pos {
                for q in &neg {
                    let (kp, kn) = (p.coef(d), -q.coef(d));
                    if kp.abs() > 16 || kn.abs() > 16 {
                        continue;
                    }
                    let l = tighten(p.lc(kn, q, kp));
                    if l.t.is_empty() || l.t.len() > 6 || l.t.iter().any(|x| x.1.abs() > 1 << 20) {
                        continue;
                    }
                    self.assume_ge(&l);
                }
            }
        }
        if self.bnd.keys().any(|s| !is_live(*s)) {
            Rc::make_mut(&mut self.bnd).retain(|s, _| is_live(*s));
        }
    }
}

/// Fourier-Motzkin: are the constraints (all >= 0) together with symbol bounds inconsistent?
fn fm(mut cons: Vec<Lin>, bnds: impl Fn(Sym) -> (Option<Z>, Option<Z>)) -> bool {
    let mut syms: HashSet<Sym> = HashSet::new();
    for c in &cons {
        syms.extend(c.t.iter().map(|x| x.0));
    }
    for &s in &syms {
        let (lo, hi) = bnds(s);
        if let Some(l) = lo {
            cons.push(Lin { c: -l, t: vec![(s, 1)] });
        }
        if let Some(h) = hi {
            cons.push(Lin { c: h, t: vec![(s, -1)] });
        }
    }
    let mut steps = 0;
    loop {
        // constants
        let mut i = 0;
        while i < cons.len() {
            if cons[i].t.is_empty() {
                if cons[i].c < 0 {
                    return true;
                }
                cons.swap_remove(i);
            } else {
                i += 1;
            }
        }
        if cons.is_empty() {
            return false;
        }
        // dedupe by direction, keeping the strongest constant
        let mut m: HashMap<Vec<(Sym, Z)>, Z> = HashMap::with_capacity(cons.len());
        for c in cons.drain(..) {
            let e = m.entry(c.t).or_insert(c.c);
            if c.c < *e {
                *e = c.c;
            }
        }
        // direct contradiction between opposite directions
        for (t, c) in &m {
            if t[0].1 > 0 {
                let o: Vec<(Sym, Z)> = t.iter().map(|x| (x.0, -x.1)).collect();
                if let Some(d) = m.get(&o) {
                    if c + d < 0 {
                        return true;
                    }
                }
            }
        }
        cons = m.into_iter().map(|(t, c)| Lin { c, t }).collect();
        // choose variable
        let mut cnt: HashMap<Sym, (usize, usize)> = HashMap::new();
        for c in &cons {
            for &(s, k) in &c.t {
                let e = cnt.entry(s).or_insert((0, 0));
                if k > 0 {
                    e.0 += 1
                } else {
                    e.1 += 1
                }
            }
        }
        let (s, (p, n)) = cnt
            .into_iter()
            .min_by_key(|(s, (p, n))| ((p * n) as i64 - (*p as i64) - (*n as i64), *s))
            .unwrap();
        steps += 1;
        if p * n > 600 || cons.len() > 700 || steps > 200 {
            return false;
        }
        let mut pos = vec![];
        let mut neg = vec![];
        let mut rest = vec![];
        for c in cons {
            let k = c.coef(s);
            if k > 0 {
                pos.push((k, c))
            } else if k < 0 {
                neg.push((-k, c))
            } else {
                rest.push(c)
            }
        }
        for (kp, cp) in &pos {
            for (kn, cn) in &neg {
                let g = gcd(*kp, *kn);
                let (a, b) = (kn / g, kp / g);
                if a > BIG || b > BIG {
                    continue;
                }
                if cp.t.iter().chain(cn.t.iter()).any(|x| x.1.abs() > BIG / a.max(b).max(1))
                    || cp.c.abs() > BIG / a.max(1)
                    || cn.c.abs() > BIG / b.max(1)
                {
                    continue;
                }
                rest.push(tighten(cp.lc(a, cn, b)));
            }
        }
        cons = rest;
    }
}

#[cfg(test)]
mod tests {
    use super::*;
    #[test]
    fn basic() {
        let x = fresh("x", Some(0), Some(100));
        let y = fresh("y", Some(0), Some(100));
        let mut f = Facts::default();
        f.assume_ge(&Lin::s(x).sub(&Lin::s(y)));
        assert!(f.prove_ge(&Lin::s(x).sub(&Lin::s(y)).addk(1)));
        assert!(!f.prove_ge(&Lin::s(y).sub(&Lin::s(x))));
        f.assume_ne(&Lin::s(x).sub(&Lin::s(y)));
        assert!(f.prove_ge(&Lin::s(x).sub(&Lin::s(y)).addk(-1)));
        let z = fresh("z", Some(0), None);
        f.assume_eq(&Lin::s(z).sub(&Lin::s(x).mul(2)));
        assert!(f.prove_ge(&Lin::s(z).sub(&Lin::s(y).mul(2)).addk(-2)));
    }
}
