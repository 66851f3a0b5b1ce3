//! Exact rational simplex (bounded variables, Bland's rule): feasibility of a conjunction of linear
//! inequalities, with a satisfying point when there is one.
use crate::term::*;
use std::collections::{BTreeMap, HashMap};

#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Rat(pub Z, pub Z);

fn gcd(a: Z, b: Z) -> Z {
    let (mut a, mut b) = (a.unsigned_abs(), b.unsigned_abs());
    while b != 0 {
        let t = a % b;
        a = b;
        b = t;
    }
    a as Z
}

impl Rat {
    pub fn k(c: Z) -> Rat {
        Rat(c, 1)
    }
    fn mk(n: Z, d: Z) -> Rat {
        if d == 1 {
            return Rat(n, 1);
        }
        let g = gcd(n, d).max(1);
        if d < 0 {
            Rat(-n / g, -d / g)
        } else {
            Rat(n / g, d / g)
        }
    }
    pub fn add(self, o: Rat) -> Option<Rat> {
        if self.1 == 1 && o.1 == 1 {
            return Some(Rat(self.0.checked_add(o.0)?, 1));
        }
        Some(Rat::mk(
            self.0.checked_mul(o.1)?.checked_add(o.0.checked_mul(self.1)?)?,
            self.1.checked_mul(o.1)?,
        ))
    }
    pub fn neg(self) -> Rat {
        Rat(-self.0, self.1)
    }
    pub fn sub(self, o: Rat) -> Option<Rat> {
        self.add(o.neg())
    }
    pub fn mul(self, o: Rat) -> Option<Rat> {
        if self.1 == 1 && o.1 == 1 {
            return Some(Rat(self.0.checked_mul(o.0)?, 1));
        }
        Some(Rat::mk(self.0.checked_mul(o.0)?, self.1.checked_mul(o.1)?))
    }
    pub fn div(self, o: Rat) -> Option<Rat> {
        if o.1 == 1 && (o.0 == 1 || o.0 == -1) {
            return Some(Rat(self.0 * o.0, self.1));
        }
        Some(Rat::mk(self.0.checked_mul(o.1)?, self.1.checked_mul(o.0)?))
    }
    pub fn sign(self) -> i32 {
        self.0.signum() as i32
    }
    pub fn lt(self, o: Rat) -> Option<bool> {
        if self.1 == 1 && o.1 == 1 {
            return Some(self.0 < o.0);
        }
        Some(self.sub(o)?.sign() < 0)
    }
}

pub type Model = HashMap<Sym, Rat>;

pub enum Feas {
    No,
    Yes(Model),
    Unknown,
}

pub fn feasible(cons: &[Lin], bnds: &dyn Fn(Sym) -> (Option<Z>, Option<Z>)) -> Feas {
    match run(cons, bnds) {
        Some(f) => f,
        None => Feas::Unknown,
    }
}

fn run(cons: &[Lin], bnds: &dyn Fn(Sym) -> (Option<Z>, Option<Z>)) -> Option<Feas> {
    let mut ix: BTreeMap<Sym, usize> = BTreeMap::new();
    for c in cons {
        for &(s, _) in &c.t {
            let n = ix.len();
            ix.entry(s).or_insert(n);
        }
    }
    let n = ix.len();
    let mut lo = vec![None; n];
    let mut hi = vec![None; n];
    let mut val = vec![Rat::k(0); n];
    for (&s, &i) in &ix {
        let (l, h) = bnds(s);
        lo[i] = l.map(Rat::k);
        hi[i] = h.map(Rat::k);
    }
    for c in cons {
        if c.t.is_empty() {
            if c.c < 0 {
                return Some(Feas::No);
            }
            continue;
        }
        if c.t.len() == 1 {
            // bound
            let (s, k) = c.t[0];
            let i = ix[&s];
            let b = Rat::k(-c.c).div(Rat::k(k))?;
            // integer rounding
            if k > 0 {
                let b = Rat::k(-(b.0.checked_neg()?.div_euclid(b.1)));
                if lo[i].map_or(true, |x: Rat| x.lt(b) == Some(true)) {
                    lo[i] = Some(b);
                }
            } else {
                let b = Rat::k(b.0.div_euclid(b.1));
                if hi[i].map_or(true, |x| b.lt(x) == Some(true)) {
                    hi[i] = Some(b);
                }
            }
        }
    }
    for i in 0..n {
        if let (Some(l), Some(h)) = (lo[i], hi[i]) {
            if h.lt(l)? {
                return Some(Feas::No);
            }
        }
        val[i] = match (lo[i], hi[i]) {
            (Some(l), _) if l.0 > 0 => l,
            (_, Some(h)) if h.0 < 0 => h,
            _ => Rat::k(0),
        };
    }
    // dense tableau: one column per nonbasic variable, one row per basic one
    let zero = Rat::k(0);
    let mut cols: Vec<usize> = (0..n).collect();
    let mut basic: Vec<usize> = vec![];
    let mut rows: Vec<Vec<Rat>> = vec![];
    for c in cons {
        if c.t.len() < 2 {
            continue;
        }
        let mut row = vec![zero; n];
        let mut v = zero;
        for &(s, k) in &c.t {
            let i = ix[&s];
            row[i] = Rat::k(k);
            v = v.add(val[i].mul(Rat::k(k))?)?;
        }
        basic.push(lo.len());
        lo.push(Some(Rat::k(-c.c)));
        hi.push(None);
        val.push(v);
        rows.push(row);
    }
    let mut steps = 0;
    loop {
        steps += 1;
        if steps > 2000 {
            return None;
        }
        // smallest violated basic variable
        let mut pick: Option<(usize, usize, bool)> = None;
        for (r, &b) in basic.iter().enumerate() {
            if pick.map_or(false, |p| p.1 < b) {
                continue;
            }
            if let Some(l) = lo[b] {
                if val[b].lt(l)? {
                    pick = Some((r, b, true));
                    continue;
                }
            }
            if let Some(h) = hi[b] {
                if h.lt(val[b])? {
                    pick = Some((r, b, false));
                }
            }
        }
        let Some((r, b, below)) = pick else {
            let m = ix.iter().map(|(&s, &i)| (s, val[i])).collect();
            return Some(Feas::Yes(m));
        };
        let target = if below { lo[b].unwrap() } else { hi[b].unwrap() };
        let mut enter: Option<usize> = None;
        for (k, &j) in cols.iter().enumerate() {
            let a = rows[r][k];
            if a.0 == 0 || enter.map_or(false, |e| cols[e] < j) {
                continue;
            }
            let up = (a.sign() > 0) == below;
            let ok = if up {
                match hi[j] {
                    None => true,
                    Some(h) => val[j].lt(h)?,
                }
            } else {
                match lo[j] {
                    None => true,
                    Some(l) => l.lt(val[j])?,
                }
            };
            if ok {
                enter = Some(k);
            }
        }
        let Some(e) = enter else { return Some(Feas::No) };
        // pivot: b leaves, j enters
        let j = cols[e];
        let a = rows[r][e];
        let theta = target.sub(val[b])?.div(a)?;
        val[b] = target;
        val[j] = val[j].add(theta)?;
        // x_j = (x_b - sum_{k != j} a_k x_k) / a
        let inv = Rat::k(1).div(a)?;
        let mut nr = std::mem::take(&mut rows[r]);
        for (k, x) in nr.iter_mut().enumerate() {
            if k == e {
                *x = inv;
            } else if x.0 != 0 {
                *x = x.neg().mul(inv)?;
            }
        }
        for (q, row) in rows.iter_mut().enumerate() {
            if q == r {
                continue;
            }
            let c = row[e];
            if c.0 == 0 {
                continue;
            }
            let i = basic[q];
            val[i] = val[i].add(c.mul(theta)?)?;
            row[e] = zero;
            for (k, &v) in nr.iter().enumerate() {
                if v.0 != 0 {
                    row[k] = row[k].add(c.mul(v)?)?;
                    if row[k].0 == 0 {
                        row[k] = zero;
                    }
                }
            }
        }
        rows[r] = nr;
        basic[r] = j;
        cols[e] = b;
    }
}
