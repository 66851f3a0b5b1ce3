//! Abstract interpretation of monomorphic MIR: transfer functions, calls, regions and loops.
use crate::join;
use crate::prog::*;
use crate::state::*;
use crate::term::*;
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;

pub type Outs = Vec<(State, Val)>;

/// representation of a type in the value domain
#[derive(Clone, Debug, PartialEq)]
pub enum Rep {
    Zst,
    Peel(u32, TyId),
    Struct(Vec<TyId>),
    Enum,
    /// field-less enum
    En,
    Byte(bool),
    Bytes(u64),
    Arr(TyId, u64),
    Int(bool, u32),
    Bool,
    Ptr(TyId),
    FnPtr,
    Slice(TyId),
    Other,
}

#[derive(Clone, Debug)]
pub struct Loc {
    pub obj: ObjId,
    pub path: Vec<PE>,
    pub off: Option<Lin>,
    pub len: Option<Lin>,
    pub ty: TyId,
    pub unk: bool,
}

#[derive(Clone, Debug)]
pub struct Event {
    pub kind: String,
    /// innermost function of an analysed crate on the call stack
    pub site: String,
    pub msg: String,
    pub line: String,
    pub detail: String,
    pub stack: Vec<String>,
}

/// Summaries of functions that are not analysed through their body, and observation points.
pub trait Hooks {
    /// None: analyse the body
    fn call(&self, cx: &mut In, st: &State, f: FnId, args: &[Val]) -> Option<R<Outs>>;
    /// call of a callback supplied by the application
    fn tok(&self, cx: &mut In, st: &State, name: &str, args: &[Val], ret: TyId) -> R<Outs>;
    /// observation at function return (after the body was analysed)
    fn ret(&self, _cx: &mut In, _f: FnId, _args: &[Val], outs: Outs) -> Outs {
        outs
    }
}

pub struct In<'a> {
    pub p: &'a Prog,
    pub h: Rc<dyn Hooks + 'a>,
    pub stack: Vec<FnId>,
    pub lines: Vec<(usize, u32)>,
    pub events: BTreeMap<(String, String, String), Event>,
    pub reps: HashMap<TyId, Rep>,
    pub consts: HashMap<(usize, TyId, u64, Z), ObjId>,
    pub cvals: HashMap<ObjId, Rc<Val>>,
    /// fork on overflow / out-of-range casts (otherwise opaque terms)
    pub exact: bool,
    /// number of states kept apart at a merge point
    pub limit: usize,
    pub visited: BTreeMap<FnId, u64>,
    pub calls: u64,
    pub stmts: u64,
    pub loops: u64,
    pub joins: u64,
    pub checks: BTreeMap<String, u64>,
    pub quiet: bool,
    tloop: bool,
    /// unknowns made by the current transfer function
    syms: (Vec<Sym>, usize),
    pub details: bool,
    pub trace: bool,
    pub tracefn: Option<String>,
    pub user: Vec<&'static str>,
    pub prof: bool,
    short: HashMap<(FnId, usize), (u32, u32)>,
    pub t0: std::time::Instant,
    /// the time for the analysis is up; what was established so far counts
    pub expired: bool,
    limit_s: u64,
}

pub const EMPTY: ObjId = ALLOC0 - 1;

fn irange(signed: bool, bits: u32) -> (Z, Z) {
    if signed {
        if bits >= 127 {
            (-(1 << 126), 1 << 126)
        } else {
            (-(1i128 << (bits - 1)), (1i128 << (bits - 1)) - 1)
        }
    } else if bits >= 127 {
        (0, i128::MAX >> 1)
    } else {
        (0, (1i128 << bits) - 1)
    }
}

pub enum Next {
    Goto(B, State),
    Ret(State, Val),
}

impl<'a> In<'a> {
    pub fn new(p: &'a Prog, h: Rc<dyn Hooks + 'a>) -> In<'a> {
        In {
            p,
            h,
            stack: vec![],
            lines: vec![],
            events: BTreeMap::new(),
            reps: HashMap::new(),
            consts: HashMap::new(),
            cvals: HashMap::new(),
            exact: true,
            limit: 6,
            visited: BTreeMap::new(),
            calls: 0,
            stmts: 0,
            loops: 0,
            joins: 0,
            checks: BTreeMap::new(),
            quiet: false,
            syms: (vec![], 0),
            tloop: std::env::var("AI_LOOP").is_ok(),
            details: std::env::var("AI_EV").is_ok(),
            trace: false,
            tracefn: std::env::var("AI_TF").ok(),
            user: vec!["turtls", "crylib"],
            short: HashMap::new(),
            prof: std::env::var("AI_PROF").is_ok(),
            t0: std::time::Instant::now(),
            expired: false,
            limit_s: std::env::var("AI_LIMIT").ok().and_then(|x| x.parse().ok()).unwrap_or(3000),
        }
    }

    // ------------------------------------------------------------ diagnostics
    pub fn site(&self) -> (String, String) {
        for (i, f) in self.stack.iter().enumerate().rev() {
            let f = &self.p.fns[*f];
            if self.user.iter().any(|u| **u == *f.krate) {
                let (fi, li) = self.lines[i];
                return (f.def.to_string(), format!("{}:{}", self.p.file(fi), li));
            }
        }
        ("?".into(), "?".into())
    }
    pub fn event(&mut self, kind: &str, msg: &str, st: Option<&State>) {
        self.event2(kind, msg, &String::new, st)
    }
    pub fn event2(&mut self, kind: &str, msg: &str, what: &dyn Fn() -> String, st: Option<&State>) {
        if self.quiet {
            return;
        }
        let (site, line) = self.site();
        let key = (kind.to_string(), site.clone(), msg.to_string());
        if self.events.contains_key(&key) {
            return;
        }
        let stack = self.stack.iter().map(|f| self.p.fns[*f].def.to_string()).collect();
        let detail = if self.details { format!("{}\n{}", what(), st.map(|s| s.show_facts(3)).unwrap_or_default()) } else { String::new() };
        if self.prof {
            eprintln!("EVENT {kind} {msg} @ {site} {line}\n{detail}\n  mem:\n{}", st.map(|s| s.show(3)).unwrap_or_default());
        }
        self.events.insert(
            key,
            Event { kind: kind.into(), site, msg: msg.into(), line, detail, stack },
        );
    }
    pub fn count(&mut self, k: &str) {
        *self.checks.entry(k.to_string()).or_default() += 1;
    }

    // ------------------------------------------------------------ representation
    pub fn is_zst(&mut self, t: TyId) -> bool {
        matches!(self.rep(t), Rep::Zst)
    }
    pub fn rep(&mut self, t: TyId) -> Rep {
        if let Some(r) = self.reps.get(&t) {
            return r.clone();
        }
        let r = self.rep0(t);
        self.reps.insert(t, r.clone());
        r
    }
    fn fields_rep(&mut self, fs: &[TyId]) -> Rep {
        let nz: Vec<usize> = (0..fs.len()).filter(|&i| !self.is_zst(fs[i])).collect();
        match nz.len() {
            0 => Rep::Zst,
            1 => Rep::Peel(nz[0] as u32, fs[nz[0]]),
            _ => Rep::Struct(fs.to_vec()),
        }
    }
    fn rep0(&mut self, t: TyId) -> Rep {
        let p = self.p;
        if p.types[t].size == Some(0) {
            return Rep::Zst;
        }
        match p.ty(t) {
            TK::Bool => Rep::Bool,
            TK::Char => Rep::Int(false, 32),
            TK::Int { signed, bits: 8, .. } => Rep::Byte(*signed),
            TK::Int { signed, bits, .. } => Rep::Int(*signed, *bits),
            TK::Adt { kind: AdtKind::Struct, vs, .. } => {
                let fs: Vec<TyId> = vs[0].fields.iter().map(|x| x.1).collect();
                self.fields_rep(&fs)
            },
            TK::Adt { kind: AdtKind::Union, vs, .. } => {
                let mut best = None;
                for (i, f) in vs[0].fields.iter().enumerate() {
                    if !self.is_zst(f.1) {
                        best = Some((i as u32, f.1));
                    }
                }
                match best {
                    None => Rep::Zst,
                    Some((i, t)) => Rep::Peel(i, t),
                }
            },
            TK::Adt { kind: AdtKind::Enum, vs, .. } => {
                if vs.iter().all(|v| v.fields.is_empty()) {
                    Rep::En
                } else {
                    Rep::Enum
                }
            },
            TK::Array(e, n) => {
                let (e, n) = (*e, *n);
                if n == 0 {
                    return Rep::Zst;
                }
                match self.peel(e).1 {
                    Rep::Zst => Rep::Zst,
                    Rep::Byte(_) => Rep::Bytes(n),
                    _ => Rep::Arr(e, n),
                }
            },
            TK::Slice(e) => Rep::Slice(*e),
            TK::Str => Rep::Slice(usize::MAX),
            TK::Ptr(e, _) | TK::Ref(e, _) => Rep::Ptr(*e),
            TK::FnDef(..) => Rep::Zst,
            TK::FnPtr(..) => Rep::FnPtr,
            TK::Closure(_, up, _) => {
                let up = up.clone();
                self.fields_rep(&up)
            },
            TK::Tuple(es) => {
                let es = es.clone();
                self.fields_rep(&es)
            },
            TK::Never => Rep::Zst,
            TK::Other => Rep::Other,
        }
    }
    /// strip transparent wrappers
    pub fn peel(&mut self, t: TyId) -> (TyId, Rep) {
        let mut t = t;
        loop {
            match self.rep(t) {
                Rep::Peel(_, u) => t = u,
                r => return (t, r),
            }
        }
    }
    pub fn elem_ty(&self, t: TyId) -> Option<TyId> {
        match self.p.ty(t) {
            TK::Array(e, _) | TK::Slice(e) => Some(*e),
            _ => None,
        }
    }
    pub fn int_of(&mut self, t: TyId) -> Option<(bool, u32)> {
        match self.peel(t).1 {
            Rep::Byte(s) => Some((s, 8)),
            Rep::Int(s, b) => Some((s, b)),
            _ => None,
        }
    }
    pub fn pointee(&mut self, t: TyId) -> Option<TyId> {
        match self.peel(t).1 {
            Rep::Ptr(e) => Some(e),
            _ => None,
        }
    }
    pub fn is_byteslice(&mut self, e: TyId) -> bool {
        e == usize::MAX || matches!(self.peel(e).1, Rep::Byte(_))
    }

    /// an unconstrained value of a type
    pub fn havoc(&mut self, t: TyId, name: &str) -> Val {
        let (t, r) = self.peel(t);
        match r {
            Rep::Zst => Val::unit(),
            Rep::Bool => Val::Bool(Cond::Atom(fresh(name, None, None))),
            Rep::Byte(s) => {
                let (a, b) = irange(s, 8);
                Val::Int(Lin::s(fresh(name, Some(a), Some(b))))
            },
            Rep::Int(s, n) => {
                let (a, b) = irange(s, n);
                Val::Int(Lin::s(fresh(name, Some(a), Some(b))))
            },
            Rep::En => {
                let TK::Adt { vs, .. } = self.p.ty(t) else { unreachable!() };
                let lo = vs.iter().map(|v| v.discr).min().unwrap();
                let hi = vs.iter().map(|v| v.discr).max().unwrap();
                Val::En(Lin::s(fresh(name, Some(lo), Some(hi))), vs.len() as u32)
            },
            Rep::Bytes(n) => Val::seq(Seq::src(fresh(name, None, None), Lin::k(n as Z))),
            Rep::Arr(e, n) => {
                if n <= 4096 {
                    Val::Arr(Rc::new((0..n).map(|_| self.havoc(e, name)).collect()))
                } else {
                    Val::Top
                }
            },
            Rep::Struct(fs) => Val::adt(0, fs.iter().map(|f| self.havoc(*f, name)).collect()),
            _ => Val::Top,
        }
    }
    /// shape of an uninitialised value
    pub fn undef(&mut self, t: TyId) -> Val {
        let (_, r) = self.peel(t);
        match r {
            Rep::Zst => Val::unit(),
            Rep::Bytes(n) => Val::seq(Seq::src(fresh("uninit", None, None), Lin::k(n as Z))),
            Rep::Arr(e, n) if n <= 4096 => {
                Val::Arr(Rc::new((0..n).map(|_| self.undef(e)).collect()))
            },
            Rep::Struct(fs) => Val::adt(0, fs.iter().map(|f| self.undef(*f)).collect()),
            _ => Val::Undef,
        }
    }

    // ------------------------------------------------------------ memory
    fn getobj(&self, st: &State, o: ObjId) -> Option<Rc<Val>> {
        if let Some(v) = st.mem.get(&o) {
            return Some(v.clone());
        }
        if o == EMPTY {
            return Some(Rc::new(Val::seq(Seq::empty())));
        }
        self.cvals.get(&o).cloned()
    }
    pub fn peek(&self, st: &State, o: ObjId, path: &[PE]) -> Val {
        let Some(v) = self.getobj(st, o) else { return Val::Undef };
        let mut v: &Val = &v;
        for e in path {
            match (e, v) {
                (PE::F(i), Val::Adt(_, f)) => match f.get(*i as usize) {
                    Some(x) => v = x,
                    None => return Val::Top,
                },
                (PE::I(i), Val::Arr(f)) => match f.get(*i as usize) {
                    Some(x) => v = x,
                    None => return Val::Top,
                },
                (_, Val::Undef) => return Val::Undef,
                _ => return Val::Top,
            }
        }
        v.clone()
    }
    pub fn poke(&mut self, st: &mut State, o: ObjId, path: &[PE], new: Val) {
        if path.is_empty() {
            st.set_obj(o, new);
            return;
        }
        let Some(v) = self.getobj(st, o) else { return };
        let mut v = (*v).clone();
        if poke_in(&mut v, path, new) {
            st.set_obj(o, v);
        } else {
            // writing below an unknown value: the container becomes unknown
            st.set_obj(o, Val::Top);
        }
    }
    /// make the value at a location structured according to its type
    fn ensure(&mut self, st: &mut State, l: &Loc) {
        if l.unk || l.off.is_some() {
            return;
        }
        let v = self.peek(st, l.obj, &l.path);
        let n = match v {
            Val::Undef => self.undef(l.ty),
            Val::Top => self.havoc(l.ty, "top"),
            _ => return,
        };
        if !matches!(n, Val::Top | Val::Undef) {
            self.poke(st, l.obj, &l.path, n);
        }
    }

    pub fn base(&self) -> u64 {
        (self.stack.len() as u64) * 4096
    }

    pub fn ptr_loc(&mut self, v: &Val, ty: TyId) -> R<Loc> {
        match v {
            Val::Ptr(p) => Ok(Loc {
                obj: p.obj,
                path: p.path.clone(),
                off: p.off.clone(),
                len: p.len.clone(),
                ty,
                unk: false,
            }),
            Val::Addr(_) => {
                if self.is_zst(ty) {
                    Ok(Loc { obj: EMPTY, path: vec![], off: None, len: None, ty, unk: true })
                } else {
                    Err(Fork::Oob("invalid pointer: dereference of a null or dangling pointer".into()))
                }
            },
            Val::Top | Val::Undef | Val::Term(_) => {
                if self.is_zst(ty) {
                    Ok(Loc { obj: EMPTY, path: vec![], off: None, len: None, ty, unk: true })
                } else {
                    Err(Fork::Oob("dereference of an unknown pointer".into()))
                }
            },
            v => Err(Fork::Oob(format!("dereference of a non-pointer {}", show_val(v, 1)))),
        }
    }

    pub fn walk(&mut self, st: &mut State, pl: &Place) -> R<Loc> {
        let b = self.base();
        let f = *self.stack.last().unwrap();
        let ty = self.p.fns[f].body.as_ref().unwrap().locals[pl.l];
        let mut l = Loc { obj: b + pl.l as u64, path: vec![], off: None, len: None, ty, unk: false };
        let mut variant: Option<u32> = None;
        for e in &pl.p {
            match e {
                Pj::Deref => {
                    let v = self.load(st, &l)?;
                    let e = match self.peel(l.ty).1 {
                        Rep::Ptr(e) => e,
                        r => return Err(Fork::Oob(format!("deref of non-pointer type {r:?}"))),
                    };
                    l = self.ptr_loc(&v, e)?;
                    variant = None;
                },
                Pj::F(i, t) => {
                    if !l.unk && !self.is_zst(*t) {
                        match self.rep(l.ty) {
                            Rep::Peel(k, _) => {
                                if k != *i && !matches!(self.p.ty(l.ty), TK::Adt { kind: AdtKind::Union, .. }) {
                                    l.unk = true;
                                }
                            },
                            Rep::Struct(_) => {
                                if l.off.is_some() {
                                    self.index_path(st, &mut l);
                                }
                                self.ensure(st, &l);
                                l.path.push(PE::F(*i));
                            },
                            Rep::Enum => {
                                if l.off.is_some() {
                                    self.index_path(st, &mut l);
                                }
                                if let (Val::Top, Some(v)) = (self.peek(st, l.obj, &l.path), variant) {
                                    let nv = self.variant_havoc(l.ty, v);
                                    self.poke(st, l.obj, &l.path.clone(), nv);
                                }
                                l.path.push(PE::F(*i));
                            },
                            _ => l.unk = true,
                        }
                    }
                    l.ty = *t;
                    if self.p.size_of(*t).is_some() {
                        l.len = None;
                    }
                    variant = None;
                },
                Pj::D(v) => variant = Some(*v),
                Pj::Ix(i) => {
                    let b = self.base();
                    let iv = self.peek(st, b + *i as u64, &[]);
                    let iv = match iv {
                        Val::Int(x) => x,
                        _ => Lin::s(fresh("index", Some(0), None)),
                    };
                    self.index(st, &mut l, iv)?;
                },
                Pj::CI(o, from_end) => {
                    let iv = if *from_end {
                        let n = self.loc_len(&l).ok_or(Fork::Oob("length".into()))?;
                        n.addk(-(*o as Z))
                    } else {
                        Lin::k(*o as Z)
                    };
                    self.index(st, &mut l, iv)?;
                },
                Pj::SS(from, to, from_end) => {
                    let n = self.loc_len(&l).ok_or(Fork::Oob("length".into()))?;
                    let hi = if *from_end { n.addk(-(*to as Z)) } else { Lin::k(*to as Z) };
                    let o = l.off.clone().unwrap_or(Lin::k(0)).addk(*from as Z);
                    let len = st.n(&hi.addk(-(*from as Z)));
                    if self.elem_ty(l.ty).is_some() && matches!(self.p.ty(l.ty), TK::Slice(_)) {
                        l.len = Some(len);
                    } else {
                        l.len = None;
                    }
                    l.off = Some(o);
                },
                Pj::O => {},
            }
        }
        Ok(l)
    }

    fn loc_len(&self, l: &Loc) -> Option<Lin> {
        match self.p.ty(l.ty) {
            TK::Array(_, n) => Some(Lin::k(*n as Z)),
            _ => l.len.clone(),
        }
    }
    /// turn a constant element offset into a path element
    fn index_path(&mut self, st: &State, l: &mut Loc) {
        if let Some(o) = &l.off {
            match st.n(o).is_const() {
                Some(c) if c >= 0 => {
                    l.path.push(PE::I(c as u64));
                    l.off = None;
                },
                _ => l.unk = true,
            }
        }
    }
    fn index(&mut self, st: &mut State, l: &mut Loc, i: Lin) -> R<()> {
        let Some(e) = self.elem_ty(l.ty) else { return Err(Fork::Oob("index of non-array".into())) };
        if l.unk {
            l.ty = e;
            return Ok(());
        }
        if matches!(self.peel(e).1, Rep::Byte(_)) {
            self.ensure(st, l);
            let o = l.off.clone().unwrap_or(Lin::k(0));
            l.off = Some(st.n(&o.add(&i)));
            l.len = None;
            l.ty = e;
            return Ok(());
        }
        self.ensure(st, l);
        // array whose own position is an element offset (pointer to [T;N] inside [T])
        let o = l.off.clone().unwrap_or(Lin::k(0));
        // is the container an array of arrays addressed by offset?
        let x = st.n(&o.add(&i));
        l.len = None;
        l.ty = e;
        match x.is_const() {
            Some(c) if c >= 0 => {
                l.path.push(PE::I(c as u64));
                l.off = None;
            },
            _ => l.off = Some(x),
        }
        Ok(())
    }

    pub fn variant_havoc(&mut self, ty: TyId, v: u32) -> Val {
        let TK::Adt { vs, .. } = self.p.ty(ty) else { return Val::Top };
        let fs: Vec<TyId> = vs[v as usize].fields.iter().map(|x| x.1).collect();
        let f = fs.iter().map(|t| self.havoc(*t, "field")).collect();
        Val::adt(v, f)
    }

    pub fn load(&mut self, st: &State, l: &Loc) -> R<Val> {
        if self.is_zst(l.ty) {
            return Ok(Val::unit());
        }
        if l.unk {
            return Ok(self.havoc(l.ty, "unknown"));
        }
        let v = self.peek(st, l.obj, &l.path);
        let (_, r) = self.peel(l.ty);
        match &l.off {
            None => Ok(match (v, &r) {
                (Val::Top, Rep::Enum | Rep::Ptr(_) | Rep::FnPtr | Rep::Slice(_) | Rep::Other) => Val::Top,
                (Val::Top, _) => self.havoc(l.ty, "top"),
                (Val::Arr(a), r) if !matches!(r, Rep::Arr(..) | Rep::Slice(_) | Rep::Struct(_)) && a.len() >= 1 => {
                    // pointer to the first element of an array used as an element pointer
                    a[0].clone()
                },
                (Val::Seq(q), Rep::Byte(_)) => Val::Int(st.seq_at(&q, &Lin::k(0))?),
                (Val::Seq(q), Rep::Int(false, b)) => Val::Int(st.decode(&q, b / 8, false)?),
                (v, _) => v,
            }),
            Some(o) => match (&v, &r) {
                (Val::Seq(q), Rep::Byte(s)) => {
                    let b = st.seq_at(q, o)?;
                    if *s {
                        if st.dge(&Lin::k(127).sub(&b))? {
                            return Ok(Val::Int(b));
                        }
                        return Ok(Val::Int(b.addk(-256)));
                    }
                    Ok(Val::Int(b))
                },
                (Val::Seq(q), Rep::Bytes(n)) => Ok(Val::seq(st.seq_sub(q, o, &Lin::k(*n as Z))?)),
                (Val::Seq(q), Rep::Int(false, b)) => {
                    let s = st.seq_sub(q, o, &Lin::k((*b / 8) as Z))?;
                    Ok(Val::Int(st.decode(&s, b / 8, false)?))
                },
                (Val::Seq(q), Rep::Slice(_)) => {
                    let n = l.len.clone().ok_or(Fork::Oob("unsized load".into()))?;
                    Ok(Val::seq(st.seq_sub(q, o, &n)?))
                },
                (Val::Arr(a), Rep::Arr(_, n)) if a.len() as u64 >= *n => match st.n(o).is_const() {
                    Some(c) if c >= 0 && c as u64 + n <= a.len() as u64 => {
                        // sub-array of scalars, or an element that is itself an array
                        if matches!(a[c as usize], Val::Arr(_)) && self.elem_is_array(l.ty, &a[c as usize]) {
                            return Ok(a[c as usize].clone());
                        }
                        Ok(Val::Arr(Rc::new(a[c as usize..(c as u64 + n) as usize].to_vec())))
                    },
                    Some(_) => Err(Fork::Oob("array element".into())),
                    None => Ok(self.havoc(l.ty, "elem")),
                },
                (Val::Arr(a), _) => match st.n(o).is_const() {
                    Some(c) if c >= 0 && (c as usize) < a.len() => match (&a[c as usize], &r) {
                        (Val::Top, _) => Ok(self.havoc(l.ty, "elem")),
                        (x, _) => Ok(x.clone()),
                    },
                    Some(_) => Err(Fork::Oob("out of bounds: array element out of range".into())),
                    None => {
                        let n = a.len() as Z;
                        let ok = st.facts.prove_ge(o) && st.facts.prove_ge(&Lin::k(n - 1).sub(o));
                        if !ok {
                            return Err(Fork::Oob("out of bounds: array index may be out of range".into()));
                        }
                        if a.iter().all(|x| *x == a[0]) && !matches!(a[0], Val::Top) {
                            return Ok(a[0].clone());
                        }
                        // table lookup as an uninterpreted read
                        if let (Some((s, b)), true) = (self.int_of(l.ty), a.iter().all(|x| matches!(x, Val::Int(_)))) {
                            let (lo, hi) = irange(s, b);
                            return Ok(Val::Int(Lin::s(term(
                                "select",
                                vec![Arg::V(v.clone()), Arg::L(st.n(o))],
                                Some(lo),
                                Some(hi),
                            ))));
                        }
                        Ok(self.havoc(l.ty, "elem"))
                    },
                },
                (Val::Undef, _) => Ok(Val::Undef),
                (Val::Top, _) => Ok(self.havoc(l.ty, "elem")),
                (x, _) => {
                    if st.n(o).is_const() == Some(0) {
                        return Ok(x.clone());
                    }
                    Err(Fork::Oob("offset into a scalar".into()))
                },
            },
        }
    }
    fn elem_is_array(&mut self, t: TyId, v: &Val) -> bool {
        match (self.peel(t).1, v) {
            (Rep::Arr(_, n), Val::Arr(a)) => a.len() as u64 == n,
            _ => false,
        }
    }

    pub fn to_bytes(&mut self, st: &State, v: &Val, n: u64) -> Seq {
        match v {
            Val::Seq(q) => (**q).clone(),
            Val::Int(l) if n == 1 => {
                // i8 values are stored as their byte
                if st.facts.lo_of(l).map_or(true, |x| x < 0) && !st.facts.prove_ge(l) {
                    Seq::src(fresh("i8", None, None), Lin::k(1))
                } else {
                    Seq(vec![Seg::B(l.clone())])
                }
            },
            Val::Int(l) => st.encode(l, n as u32, false),
            _ => Seq::src(fresh("bytes", None, None), Lin::k(n as Z)),
        }
    }

    pub fn store(&mut self, st: &mut State, l: &Loc, v: Val) -> R<()> {
        if self.is_zst(l.ty) || l.unk {
            return Ok(());
        }
        match &l.off {
            None => {
                let cur = if l.path.is_empty() && l.obj < HEAP0 { Val::Undef } else { self.peek(st, l.obj, &l.path) };
                let (_, r) = self.peel(l.ty);
                match (&cur, &r) {
                    (Val::Seq(q), Rep::Byte(_)) => {
                        let b = self.to_bytes(st, &v, 1);
                        let w = st.seq_write(q, &Lin::k(0), &b)?;
                        self.poke(st, l.obj, &l.path.clone(), Val::seq(w));
                    },
                    (Val::Arr(_), r) if !matches!(r, Rep::Arr(..) | Rep::Bytes(_) | Rep::Struct(_)) && !matches!(v, Val::Arr(_)) => {
                        let mut p = l.path.clone();
                        p.push(PE::I(0));
                        self.poke(st, l.obj, &p, v);
                    },
                    _ => self.poke(st, l.obj, &l.path.clone(), v),
                }
                Ok(())
            },
            Some(o) => {
                let cur = self.peek(st, l.obj, &l.path);
                let (_, r) = self.peel(l.ty);
                match cur {
                    Val::Seq(q) => {
                        let b = match &r {
                            Rep::Byte(_) => self.to_bytes(st, &v, 1),
                            Rep::Bytes(n) => self.to_bytes(st, &v, *n),
                            Rep::Int(_, b) => self.to_bytes(st, &v, (*b / 8) as u64),
                            Rep::Slice(_) => self.to_bytes(st, &v, 0),
                            _ => {
                                let n = self.p.size_of(l.ty).unwrap_or(1);
                                Seq::src(fresh("bytes", None, None), Lin::k(n as Z))
                            },
                        };
                        let w = st.seq_write(&q, o, &b)?;
                        self.poke(st, l.obj, &l.path.clone(), Val::seq(w));
                        Ok(())
                    },
                    Val::Arr(a) => {
                        let mut a = (*a).clone();
                        match st.n(o).is_const() {
                            Some(c) => {
                                let c = c as usize;
                                match (&v, &r) {
                                    (Val::Arr(x), Rep::Arr(_, n))
                                        if x.len() as u64 == *n && !matches!(a.get(c), Some(Val::Arr(_))) =>
                                    {
                                        if c + x.len() > a.len() {
                                            return Err(Fork::Oob("array store".into()));
                                        }
                                        for (i, y) in x.iter().enumerate() {
                                            a[c + i] = y.clone();
                                        }
                                    },
                                    _ => {
                                        if c >= a.len() {
                                            return Err(Fork::Oob("out of bounds: array store out of range".into()));
                                        }
                                        a[c] = v;
                                    },
                                }
                            },
                            None => {
                                let n = a.len() as Z;
                                if !(st.facts.prove_ge(o) && st.facts.prove_ge(&Lin::k(n - 1).sub(o))) {
                                    return Err(Fork::Oob("out of bounds: array store may be out of range".into()));
                                }
                                for x in a.iter_mut() {
                                    if *x != v {
                                        *x = self.havoc(l.ty, "weak");
                                    }
                                }
                            },
                        }
                        self.poke(st, l.obj, &l.path.clone(), Val::Arr(Rc::new(a)));
                        Ok(())
                    },
                    Val::Top => Ok(()),
                    _ => {
                        if st.n(o).is_const() == Some(0) {
                            self.poke(st, l.obj, &l.path.clone(), v);
                            return Ok(());
                        }
                        Err(Fork::Oob("store through an offset pointer into a scalar".into()))
                    },
                }
            },
        }
    }

    /// pointer to a location
    pub fn loc_ptr(&mut self, l: &Loc) -> Val {
        if l.unk {
            if self.is_zst(l.ty) {
                return Val::Addr(Lin::k(1));
            }
            return Val::Top;
        }
        Val::Ptr(Rc::new(Ptr {
            obj: l.obj,
            path: l.path.clone(),
            off: l.off.clone(),
            len: match self.p.ty(l.ty) {
                TK::Slice(_) | TK::Str => l.len.clone(),
                TK::Adt { .. } if self.p.size_of(l.ty).is_none() => l.len.clone(),
                _ => None,
            },
        }))
    }

    /// content of the region a pointer designates, as bytes
    /// the constant string `v` points to
    pub fn const_str(&mut self, st: &State, v: &Val) -> Option<String> {
        let Val::Ptr(p) = v else { return None };
        let n = p.len.clone()?;
        let q = self.bytes_at(st, v, &n).ok()?;
        match &q.0[..] {
            [Seg::C(c)] => Some(String::from_utf8_lossy(c).to_string()),
            _ => None,
        }
    }
    pub fn bytes_at(&mut self, st: &State, ptr: &Val, len: &Lin) -> R<Seq> {
        if st.n(len).is_const() == Some(0) {
            return Ok(Seq::empty());
        }
        match ptr {
            Val::Ptr(p) => {
                let v = self.peek(st, p.obj, &p.path);
                let o = p.off.clone().unwrap_or(Lin::k(0));
                match v {
                    Val::Seq(q) => st.seq_slice(&q, &o, len),
                    Val::Int(l) if st.n(len).is_const() == Some(1) => Ok(Seq(vec![Seg::B(l)])),
                    _ => Ok(Seq::src(fresh("opaque", None, None), len.clone())),
                }
            },
            _ => Err(Fork::Oob("read through an invalid pointer".into())),
        }
    }
    pub fn set_bytes(&mut self, st: &mut State, ptr: &Val, new: &Seq) -> R<()> {
        let n = st.n(&new.len());
        if n.is_const() == Some(0) {
            return Ok(());
        }
        match ptr {
            Val::Ptr(p) => {
                let v = self.peek(st, p.obj, &p.path);
                let o = p.off.clone().unwrap_or(Lin::k(0));
                match v {
                    Val::Seq(q) => {
                        let w = st.seq_write(&q, &o, new)?;
                        self.poke(st, p.obj, &p.path.clone(), Val::seq(w));
                        Ok(())
                    },
                    _ => {
                        self.poke(st, p.obj, &p.path.clone(), Val::Top);
                        Ok(())
                    },
                }
            },
            _ => Err(Fork::Oob("write through an invalid pointer".into())),
        }
    }

    // ------------------------------------------------------------ constants
    fn const_obj(&mut self, a: usize, ty: TyId, off: u64, n: Z) -> ObjId {
        if let Some(o) = self.consts.get(&(a, ty, off, n)) {
            return *o;
        }
        let id = ALLOC0 + self.consts.len() as u64;
        self.consts.insert((a, ty, off, n), id);
        let v = match &self.p.allocs[a] {
            GAlloc::Mem(m) | GAlloc::Static(_, _, Some(m)) => {
                let m = m.clone();
                if n >= 0 {
                    // slice of n elements
                    if self.is_byteslice(ty) {
                        Val::seq(Seq::bytes(&m.bytes[off as usize..(off as i128 + n) as usize]))
                    } else {
                        let sz = self.p.size_of(ty).unwrap_or(0);
                        Val::Arr(Rc::new(
                            (0..n as u64).map(|i| self.decode(&m, off + i * sz, ty)).collect(),
                        ))
                    }
                } else {
                    self.decode(&m, off, ty)
                }
            },
            GAlloc::Static(..) => self.havoc(ty, "static"),
            _ => Val::Top,
        };
        self.cvals.insert(id, Rc::new(v));
        id
    }
    fn rd(&self, m: &Alloc, off: u64, n: u64) -> Option<u128> {
        let mut v: u128 = 0;
        for i in (0..n).rev() {
            let k = (off + i) as usize;
            if k >= m.bytes.len() || m.undef[k] {
                return None;
            }
            v = (v << 8) | m.bytes[k] as u128;
        }
        Some(v)
    }
    pub fn decode(&mut self, m: &Rc<Alloc>, off: u64, ty: TyId) -> Val {
        match self.rep(ty) {
            Rep::Zst => Val::unit(),
            Rep::Peel(k, t) => {
                let o = self.field_off(ty, None, k);
                self.decode(m, off + o, t)
            },
            Rep::Struct(fs) => {
                let mut v = vec![];
                for (i, f) in fs.iter().enumerate() {
                    let o = self.field_off(ty, None, i as u32);
                    v.push(self.decode(m, off + o, *f));
                }
                Val::adt(0, v)
            },
            Rep::Bool => match self.rd(m, off, 1) {
                Some(x) => Val::Bool(if x != 0 { Cond::T } else { Cond::F }),
                None => Val::Undef,
            },
            Rep::Byte(s) => match self.rd(m, off, 1) {
                Some(x) => Val::k(if s { x as u8 as i8 as Z } else { x as Z }),
                None => Val::Undef,
            },
            Rep::Int(s, bits) => match self.rd(m, off, (bits / 8) as u64) {
                Some(x) => {
                    if bits >= 128 && x >> 126 != 0 {
                        let b: Vec<u8> = (0..16).rev().map(|k| (x >> (8 * k)) as u8).collect();
                        return Val::Int(Lin::s(term(
                            "big",
                            vec![Arg::Q(Rc::new(Seq::bytes(&b)))],
                            Some(0),
                            Some(i128::MAX >> 1),
                        )));
                    }
                    let mut z = x as Z;
                    if s && bits < 128 && z >> (bits - 1) != 0 {
                        z -= 1i128 << bits;
                    }
                    Val::k(z)
                },
                None => {
                    // integer holding a pointer (usize transmuted)
                    Val::Undef
                },
            },
            Rep::Bytes(n) => {
                let a = off as usize;
                let e = a + n as usize;
                if m.undef[a..e].iter().any(|x| *x) {
                    return Val::seq(Seq::src(fresh("undef", None, None), Lin::k(n as Z)));
                }
                Val::seq(Seq::bytes(&m.bytes[a..e]))
            },
            Rep::Arr(e, n) => {
                let sz = self.p.size_of(e).unwrap_or(0);
                Val::Arr(Rc::new((0..n).map(|i| self.decode(m, off + i * sz, e)).collect()))
            },
            Rep::Ptr(e) => {
                let tgt = m.ptrs.iter().find(|x| x.0 == off).map(|x| x.1);
                let addend = self.rd(m, off, 8).unwrap_or(0) as u64;
                match tgt {
                    None => {
                        if matches!(self.p.ty(e), TK::Slice(_) | TK::Str) {
                            return Val::Ptr(Rc::new(Ptr {
                                obj: EMPTY,
                                path: vec![],
                                off: Some(Lin::k(0)),
                                len: Some(Lin::k(self.rd(m, off + 8, 8).unwrap_or(0) as Z)),
                            }));
                        }
                        Val::Addr(Lin::k(addend as Z))
                    },
                    Some(a) => {
                        if let GAlloc::Fn(f) = &self.p.allocs[a] {
                            return Val::Fn(*f as u32);
                        }
                        match self.p.ty(e).clone() {
                            TK::Slice(t) => {
                                let n = self.rd(m, off + 8, 8).unwrap_or(0) as Z;
                                let o = self.const_obj(a, t, addend, n);
                                Val::Ptr(Rc::new(Ptr { obj: o, path: vec![], off: Some(Lin::k(0)), len: Some(Lin::k(n)) }))
                            },
                            TK::Str => {
                                let n = self.rd(m, off + 8, 8).unwrap_or(0) as Z;
                                let o = self.const_obj(a, usize::MAX, addend, n);
                                Val::Ptr(Rc::new(Ptr { obj: o, path: vec![], off: Some(Lin::k(0)), len: Some(Lin::k(n)) }))
                            },
                            TK::Adt { ref def, .. } if def.ends_with("::CStr") => {
                                let n = self.rd(m, off + 8, 8).unwrap_or(0) as Z;
                                let o = self.const_obj(a, usize::MAX, addend, n);
                                Val::Ptr(Rc::new(Ptr { obj: o, path: vec![], off: Some(Lin::k(0)), len: Some(Lin::k(n)) }))
                            },
                            _ => {
                                if matches!(self.peel(e).1, Rep::Byte(_)) {
                                    // pointer to a byte: the whole allocation
                                    if let GAlloc::Mem(mm) = &self.p.allocs[a] {
                                        let n = mm.bytes.len() as Z;
                                        let o = self.const_obj(a, usize::MAX, 0, n);
                                        return Val::Ptr(Rc::new(Ptr {
                                            obj: o,
                                            path: vec![],
                                            off: Some(Lin::k(addend as Z)),
                                            len: None,
                                        }));
                                    }
                                }
                                let o = self.const_obj(a, e, addend, -1);
                                Val::Ptr(Rc::new(Ptr { obj: o, path: vec![], off: None, len: None }))
                            },
                        }
                    },
                }
            },
            Rep::FnPtr => {
                let tgt = m.ptrs.iter().find(|x| x.0 == off).map(|x| x.1);
                match tgt.map(|a| &self.p.allocs[a]) {
                    Some(GAlloc::Fn(f)) => Val::Fn(*f as u32),
                    _ => Val::Top,
                }
            },
            Rep::En | Rep::Enum => self.decode_enum(m, off, ty),
            _ => Val::Top,
        }
    }
    fn field_off(&self, ty: TyId, variant: Option<usize>, i: u32) -> u64 {
        let l = &self.p.types[ty].layout;
        if let Some(v) = variant {
            let vs = l.get("variants");
            if vs.at(0).str() == "m" {
                return vs.at(3).at(v).at(i as usize).opt().unwrap_or(0) as u64;
            }
        }
        l.get("fields").at(1).at(i as usize).opt().unwrap_or(0) as u64
    }
    fn decode_enum(&mut self, m: &Rc<Alloc>, off: u64, ty: TyId) -> Val {
        let p = self.p;
        let l = &p.types[ty].layout;
        let vs = l.get("variants");
        let TK::Adt { vs: vars, .. } = p.ty(ty) else { return Val::Top };
        let idx: usize = match vs.at(0).str() {
            "s" => vs.at(1).us(),
            "m" => {
                let tag = vs.at(1);
                let tf = vs.at(2).us();
                let toff = l.get("fields").at(1).at(tf).opt().unwrap_or(0) as u64;
                // size of the tag: distance to the layout is unknown; try by encoding
                match tag.at(0).str() {
                    "d" => {
                        let sz = self.tag_size(ty);
                        let Some(t) = self.rd(m, off + toff, sz) else { return Val::Undef };
                        let mask = if sz >= 16 { u128::MAX } else { (1u128 << (8 * sz)) - 1 };
                        match vars.iter().position(|v| (v.discr as u128) & mask == t) {
                            Some(i) => i,
                            None => return Val::Top,
                        }
                    },
                    _ => {
                        // niche: [n, untagged, first, last, start]
                        let untagged = tag.at(1).us();
                        let (a, b) = (tag.at(2).us(), tag.at(3).us());
                        let start = tag.at(4).opt().unwrap_or(0) as u128;
                        let is_ptr = m.ptrs.iter().any(|x| x.0 == off + toff);
                        if is_ptr {
                            untagged
                        } else {
                            let sz = self.tag_size(ty);
                            let Some(t) = self.rd(m, off + toff, sz) else { return Val::Undef };
                            let d = t.wrapping_sub(start) & if sz >= 16 { u128::MAX } else { (1u128 << (8 * sz)) - 1 };
                            if d <= (b - a) as u128 {
                                a + d as usize
                            } else {
                                untagged
                            }
                        }
                    },
                }
            },
            _ => return Val::Top,
        };
        if matches!(self.rep(ty), Rep::En) {
            return Val::En(Lin::k(vars[idx].discr), vars.len() as u32);
        }
        let fs: Vec<TyId> = vars[idx].fields.iter().map(|x| x.1).collect();
        let mut v = vec![];
        for (i, f) in fs.iter().enumerate() {
            let o = self.field_off(ty, Some(idx), i as u32);
            v.push(self.decode(m, off + o, *f));
        }
        Val::adt(idx as u32, v)
    }
    fn tag_size(&self, ty: TyId) -> u64 {
        let t = &self.p.types[ty];
        if let Some(n) = t.layout.get("tag_size").opt() {
            return n as u64;
        }
        // fall back: field-less enums have the size of their tag; otherwise the smallest payload offset
        if let TK::Adt { vs, .. } = &t.k {
            if vs.iter().all(|v| v.fields.is_empty()) {
                return t.size.unwrap_or(1);
            }
        }
        let mut m = t.size.unwrap_or(8).min(8);
        for v in t.layout.get("variants").at(3).arr() {
            for f in v.arr() {
                let o = f.opt().unwrap_or(0) as u64;
                if o > 0 {
                    m = m.min(o);
                }
            }
        }
        m.next_power_of_two().min(8).min(t.align.max(1))
    }

    // ------------------------------------------------------------ operands
    pub fn op_ty(&self, o: &Op) -> Option<TyId> {
        match o {
            Op::C(p) | Op::M(p) => self.place_ty(p),
            Op::K(t, _) => Some(*t),
            Op::RC(_) => None,
        }
    }
    pub fn place_ty(&self, p: &Place) -> Option<TyId> {
        let f = *self.stack.last().unwrap();
        let mut t = self.p.fns[f].body.as_ref().unwrap().locals[p.l];
        for e in &p.p {
            t = match e {
                Pj::Deref => match self.p.ty(t) {
                    TK::Ptr(e, _) | TK::Ref(e, _) => *e,
                    TK::Adt { is_box: true, args, .. } => match args[0] {
                        TArg::T(x) => x,
                        _ => return None,
                    },
                    _ => return None,
                },
                Pj::F(_, t) => *t,
                Pj::Ix(_) | Pj::CI(..) => self.elem_ty(t)?,
                _ => t,
            };
        }
        Some(t)
    }
    pub fn operand(&mut self, st: &mut State, o: &Op) -> R<Val> {
        match o {
            Op::C(p) | Op::M(p) => {
                let l = self.walk(st, p)?;
                let v = self.load(st, &l)?;
                let v = match v {
                    Val::Bool(c) => match st.eval(&c) {
                        Some(true) => Val::Bool(Cond::T),
                        Some(false) => Val::Bool(Cond::F),
                        None => Val::Bool(c),
                    },
                    v => v,
                };
                if matches!(o, Op::M(_)) && p.p.is_empty() {
                    let b = self.base();
                    st.set_obj(b + p.l as u64, Val::Undef);
                }
                Ok(v)
            },
            Op::K(t, a) => {
                match self.p.ty(*t) {
                    TK::FnDef(_, Some(f)) => return Ok(Val::Fn(*f as u32)),
                    _ => {},
                }
                match a {
                    Some(a) => {
                        let a = a.clone();
                        Ok(self.decode(&a, 0, *t))
                    },
                    None => Ok(Val::unit()),
                }
            },
            Op::RC(n) => Ok(Val::Bool(if &**n == "OverflowChecks" { Cond::T } else { Cond::F })),
        }
    }

    pub fn wrap(&mut self, st: &State, l: Lin, signed: bool, bits: u32) -> R<Lin> {
        let l = st.n(&l);
        let (lo, hi) = irange(signed, bits);
        if let Some(c) = l.is_const() {
            if c >= lo && c <= hi {
                return Ok(l);
            }
            if bits < 127 {
                let m = 1i128 << bits;
                let mut r = c.rem_euclid(m);
                if signed && r > hi {
                    r -= m;
                }
                return Ok(Lin::k(r));
            }
        }
        let (a, b) = st.facts.interval(&l);
        if a.map_or(false, |x| x >= lo) && b.map_or(false, |x| x <= hi) {
            return Ok(l);
        }
        if st.facts.prove_ge(&l.addk(-lo)) && st.facts.prove_ge(&l.neg().addk(hi)) {
            return Ok(l);
        }
        if self.exact && bits < 127 {
            // partition: in range / above / below
            let inr = Cond::and(vec![Cond::ge(l.addk(-lo)), Cond::ge(l.neg().addk(hi))]);
            match st.eval(&inr) {
                Some(true) => return Ok(l),
                None => return Err(Fork::Split(inr)),
                Some(false) => {},
            }
            // one modulus above or below
            let m = 1i128 << bits;
            for d in [m, -m] {
                let s = l.addk(d);
                if st.facts.prove_ge(&s.addk(-lo)) && st.facts.prove_ge(&s.neg().addk(hi)) {
                    return Ok(s);
                }
            }
        }
        Ok(Lin::s(term(
            if signed { "wraps" } else { "wrap" },
            vec![Arg::L(l), Arg::L(Lin::k(bits as Z))],
            Some(lo),
            Some(hi),
        )))
    }

    /// quotient by a positive constant, with its defining inequalities
    pub fn divk(&mut self, st: &mut State, x: &Lin, k: Z) -> Lin {
        let x = st.n(x);
        if let Some(c) = x.is_const() {
            return Lin::k(c.div_euclid(k));
        }
        if x.c % k == 0 && x.t.iter().all(|t| t.1 % k == 0) {
            return Lin { c: x.c / k, t: x.t.iter().map(|t| (t.0, t.1 / k)).collect() };
        }
        let (lo, hi) = st.facts.interval(&x);
        if let (Some(l), Some(h)) = (lo, hi) {
            if l >= 0 && h < k {
                return Lin::k(0);
            }
        }
        let q = Lin::s(term("div", vec![Arg::L(x.clone()), Arg::L(Lin::k(k))], Some(0), bounds_div(&x, k)));
        if self.exact {
            let r = x.sub(&q.mul(k));
            st.facts.assume_ge(&r);
            st.facts.assume_ge(&r.neg().addk(k - 1));
        }
        q
    }

    /// bits of a narrow symbolic value
    fn bits_of(&mut self, st: &mut State, x: &Lin, n: u32) -> Vec<Lin> {
        let bs: Vec<Lin> = (0..n)
            .map(|k| Lin::s(term("bit", vec![Arg::L(x.clone()), Arg::L(Lin::k(k as Z))], Some(0), Some(1))))
            .collect();
        let mut s = Lin::k(0);
        for (k, b) in bs.iter().enumerate() {
            s = s.add(&b.mul(1 << k));
        }
        st.facts.assume_eq(&x.sub(&s));
        bs.iter().map(|b| st.n(b)).collect()
    }

    pub fn count_ones(&mut self, st: &mut State, x: &Lin, bits: u32) -> Lin {
        let x = st.n(x);
        if let Some(c) = x.is_const() {
            return Lin::k((c as u128).count_ones() as Z);
        }
        if bits <= 16 && self.exact {
            let key = self.bitkey(st, &x);
            let bs = self.bits_of(st, &key, bits);
            let mut s = Lin::k(0);
            for b in bs {
                s = s.add(&b);
            }
            return st.n(&s);
        }
        Lin::s(term("popcount", vec![Arg::L(x)], Some(0), Some(bits as Z)))
    }
    /// when x is already expressed over its own bits, return the original expression
    fn bitkey(&self, _st: &State, x: &Lin) -> Lin {
        for &(s, _) in &x.t {
            if let Some(k) = def(s) {
                if &*k.op == "bit" {
                    if let Arg::L(l) = &k.args[0] {
                        if _st.n(l) == *x {
                            return l.clone();
                        }
                    }
                }
            }
        }
        x.clone()
    }

    pub fn bitop(&mut self, st: &mut State, op: &str, a: &Lin, b: &Lin, signed: bool, bits: u32) -> R<Lin> {
        let (a, b) = (st.n(a), st.n(b));
        let (lo, hi) = irange(signed, bits);
        if let (Some(x), Some(y)) = (a.is_const(), b.is_const()) {
            return Ok(Lin::k(match op {
                "and" => x & y,
                "or" => x | y,
                _ => x ^ y,
            }));
        }
        let (a, b) = if a.is_const().is_some() { (b, a) } else { (a, b) };
        let full = if bits < 127 { (1i128 << bits) - 1 } else { -2 };
        if let Some(k) = b.is_const() {
            if k == 0 {
                return Ok(if op == "and" { Lin::k(0) } else { a });
            }
            if op == "and" && k == full {
                return Ok(a);
            }
            if op == "and" && !signed && k > 0 {
                // the low bits are constant when every coefficient is a multiple of a power of two
                let m = 1i128 << (128 - (k as u128).leading_zeros());
                if a.t.iter().all(|t| t.1 % m == 0) {
                    return Ok(Lin::k(a.c.rem_euclid(m) & k));
                }
            }
            if op == "xor" && (k == full || k == -1) {
                return Ok(if signed { a.neg().addk(-1) } else { a.neg().addk(full) });
            }
            if op == "and" && !signed && k > 0 && (k & (k + 1)) == 0 && bits > 16 {
                let q = self.divk(st, &a, k + 1);
                return Ok(st.n(&a.sub(&q.mul(k + 1))));
            }
            if bits <= 16 && !signed && self.exact && !(op == "xor" && crate::join::fine()) {
                let key = self.bitkey(st, &a);
                let bs = self.bits_of(st, &key, bits);
                let mut s = Lin::k(0);
                for (i, x) in bs.iter().enumerate() {
                    let set = (k >> i) & 1 == 1;
                    let e = match (op, set) {
                        ("and", true) => x.clone(),
                        ("and", false) => Lin::k(0),
                        ("or", true) => Lin::k(1),
                        ("or", false) => x.clone(),
                        (_, true) => x.neg().addk(1),
                        (_, false) => x.clone(),
                    };
                    s = s.add(&e.mul(1 << i));
                }
                return Ok(st.n(&s));
            }
        }
        if op == "or" || op == "xor" {
            // disjoint bit ranges
            for (x, y) in [(&a, &b), (&b, &a)] {
                let (l, h) = st.facts.interval(y);
                if let (Some(l), Some(h)) = (l, h) {
                    if l >= 0 && h > 0 {
                        let m = ((h as u128 + 1).next_power_of_two()) as Z;
                        if x.c % m == 0 && x.t.iter().all(|t| t.1 % m == 0) && st.facts.lo_of(x).map_or(false, |v| v >= 0) {
                            return Ok(st.n(&x.add(y)));
                        }
                    }
                }
            }
        }
        if a == b {
            return Ok(match op {
                "xor" => Lin::k(0),
                _ => a,
            });
        }
        if op == "xor" {
            let mut v = vec![];
            for x in [&a, &b] {
                match x.single().and_then(def) {
                    Some(k) if &*k.op == "xor" => v.extend(k.args.iter().cloned()),
                    _ => v.push(Arg::L(x.clone())),
                }
            }
            // cancel equal operands
            let mut out: Vec<Arg> = vec![];
            for x in v {
                if let Some(i) = out.iter().position(|y| *y == x) {
                    out.remove(i);
                } else {
                    out.push(x);
                }
            }
            if out.is_empty() {
                return Ok(Lin::k(0));
            }
            if out.len() == 1 {
                if let Arg::L(l) = &out[0] {
                    return Ok(l.clone());
                }
            }
            out.sort_by_key(|x| format!("{x:?}"));
            return Ok(Lin::s(term("xor", out, Some(lo), Some(hi))));
        }
        let mut args = vec![Arg::L(a.clone()), Arg::L(b.clone())];
        args.sort_by_key(|x| format!("{x:?}"));
        let mut hi2 = hi;
        if op == "and" {
            for x in [&a, &b] {
                let (l, h) = st.facts.interval(x);
                if let (Some(l), Some(h)) = (l, h) {
                    if l >= 0 {
                        hi2 = hi2.min(h);
                    }
                }
            }
        }
        Ok(Lin::s(term(op, args, Some(if signed { lo } else { 0 }), Some(hi2))))
    }

    pub fn binop(&mut self, st: &mut State, op: &str, a: &Val, b: &Val, aty: TyId, checked: bool) -> R<Val> {
        // pointers
        if let (Val::Ptr(p), "Offset") = (a, op) {
            let Val::Int(n) = b else { return Ok(Val::Top) };
            let e = self.pointee(aty).unwrap_or(0);
            return Ok(self.ptr_add(st, p, n, e));
        }
        if op == "Offset" {
            return Ok(match (a, b) {
                (Val::Addr(x), Val::Int(n)) => Val::Addr(st.n(&x.add(n))),
                _ => Val::Top,
            });
        }
        match (a, b) {
            (Val::Ptr(_) | Val::Addr(_), Val::Ptr(_) | Val::Addr(_)) => return self.ptrcmp(st, op, a, b),
            (Val::Bool(x), Val::Bool(y)) => {
                let c = match op {
                    "BitAnd" => Cond::and(vec![x.clone(), y.clone()]),
                    "BitOr" => Cond::or(vec![x.clone(), y.clone()]),
                    "Eq" | "Ne" | "BitXor" => {
                        let bx = st.decide(x)?;
                        let by = st.decide(y)?;
                        if (bx == by) == (op == "Eq") {
                            Cond::T
                        } else {
                            Cond::F
                        }
                    },
                    "Lt" | "Gt" | "Le" | "Ge" => {
                        let (bx, by) = (st.decide(x)?, st.decide(y)?);
                        let r = match op {
                            "Lt" => !bx & by,
                            "Gt" => bx & !by,
                            "Le" => bx <= by,
                            _ => bx >= by,
                        };
                        if r {
                            Cond::T
                        } else {
                            Cond::F
                        }
                    },
                    _ => return Ok(Val::Top),
                };
                return Ok(Val::Bool(match st.eval(&c) {
                    Some(true) => Cond::T,
                    Some(false) => Cond::F,
                    None => c,
                }));
            },
            _ => {},
        }
        let (signed, bits) = self.int_of(aty).unwrap_or((false, 64));
        let (lo, hi) = irange(signed, bits);
        let cmpop = matches!(op, "Eq" | "Ne" | "Lt" | "Le" | "Gt" | "Ge" | "Cmp");
        let mut getl = |v: &Val| -> Option<Lin> {
            match v {
                Val::Int(l) | Val::En(l, _) => Some(l.clone()),
                Val::Top | Val::Undef => Some(Lin::s(fresh("top", Some(lo), Some(hi)))),
                Val::Term(s) => Some(Lin::s(*s)),
                _ => None,
            }
        };
        let (Some(x), Some(y)) = (getl(a), getl(b)) else {
            if cmpop && op != "Cmp" {
                return Ok(Val::Bool(Cond::Atom(fresh("cmp", None, None))));
            }
            return Ok(if checked {
                Val::adt(0, vec![Val::Top, Val::Bool(Cond::F)])
            } else {
                Val::Top
            });
        };
        let (x, y) = (st.n(&x), st.n(&y));
        if cmpop {
            let d = x.sub(&y);
            let c = match op {
                "Eq" => Cond::eq(&x, &y),
                "Ne" => Cond::eq(&x, &y).not(),
                "Lt" => Cond::ge(d.neg().addk(-1)),
                "Le" => Cond::ge(d.neg()),
                "Gt" => Cond::ge(d.addk(-1)),
                "Ge" => Cond::ge(d),
                _ => {
                    if st.decide(&Cond::eq(&x, &y))? {
                        return Ok(Val::En(Lin::k(0), 3));
                    }
                    return Ok(if st.dge(&d)? { Val::En(Lin::k(1), 3) } else { Val::En(Lin::k(255), 3) });
                },
            };
            return Ok(Val::Bool(match st.eval(&c) {
                Some(true) => Cond::T,
                Some(false) => Cond::F,
                None => c,
            }));
        }
        let r = match op {
            "Add" | "AddUnchecked" => x.add(&y),
            "Sub" | "SubUnchecked" => x.sub(&y),
            "Mul" | "MulUnchecked" => {
                let lin = if let Some(k) = y.is_const() {
                    x.checked_mul(k)
                } else if let Some(k) = x.is_const() {
                    y.checked_mul(k)
                } else {
                    None
                };
                match lin {
                    Some(l) => l,
                    None => {
                        let (xl, xh) = st.facts.interval(&x);
                        let (yl, yh) = st.facts.interval(&y);
                        let (mut l, mut h) = (None, None);
                        if let (Some(a), Some(b), Some(c), Some(d)) = (xl, xh, yl, yh) {
                            let ps: Vec<Option<Z>> =
                                [(a, c), (a, d), (b, c), (b, d)].iter().map(|(p, q)| p.checked_mul(*q)).collect();
                            if ps.iter().all(|p| p.is_some()) {
                                l = ps.iter().map(|p| p.unwrap()).min();
                                h = ps.iter().map(|p| p.unwrap()).max();
                            }
                        }
                        let mut args = vec![Arg::L(x.clone()), Arg::L(y.clone())];
                        args.sort_by_key(|x| format!("{x:?}"));
                        // bounds differ between states: keep them as facts of this state
                        let t = Lin::s(term("mul", args, None, None));
                        if let Some(l) = l {
                            st.facts.assume_ge(&t.addk(-l));
                        }
                        if let Some(h) = h {
                            st.facts.assume_ge(&t.neg().addk(h));
                        }
                        t
                    },
                }
            },
            "Div" | "Rem" => {
                let k = y.is_const().filter(|k| *k > 0);
                let pos = st.facts.prove_ge(&x);
                match k {
                    Some(k) if pos => {
                        let q = self.divk(st, &x, k);
                        if op == "Div" {
                            q
                        } else {
                            x.sub(&q.mul(k))
                        }
                    },
                    _ => Lin::s(term(
                        if op == "Div" { "sdiv" } else { "srem" },
                        vec![Arg::L(x.clone()), Arg::L(y.clone())],
                        Some(lo),
                        Some(hi),
                    )),
                }
            },
            "BitAnd" => return Ok(Val::Int(self.bitop(st, "and", &x, &y, signed, bits)?)),
            "BitOr" => return Ok(Val::Int(self.bitop(st, "or", &x, &y, signed, bits)?)),
            "BitXor" => return Ok(Val::Int(self.bitop(st, "xor", &x, &y, signed, bits)?)),
            "Shl" | "ShlUnchecked" => match y.is_const() {
                Some(k) if k >= 0 && k < 100 => {
                    if self.exact {
                        let m = x.mul(1i128 << k);
                        // bits shifted out are discarded silently
                        let l = if bits < 127 && !(st.facts.prove_ge(&m.neg().addk(hi)) && st.facts.prove_ge(&m.addk(-lo))) {
                            Lin::s(term("shl", vec![Arg::L(x), Arg::L(Lin::k(k)), Arg::L(Lin::k(bits as Z))], Some(lo), Some(hi)))
                        } else {
                            m
                        };
                        return Ok(Val::Int(l));
                    }
                    if let Some(c) = x.is_const() {
                        if bits < 127 {
                            return Ok(Val::k((c << k) & ((1i128 << bits) - 1)));
                        }
                    }
                    return Ok(Val::Int(Lin::s(term(
                        "shl",
                        vec![Arg::L(x), Arg::L(Lin::k(k)), Arg::L(Lin::k(bits as Z))],
                        Some(lo),
                        Some(hi),
                    ))));
                },
                _ => Lin::s(term("shlv", vec![Arg::L(x), Arg::L(y)], Some(lo), Some(hi))),
            },
            "Shr" | "ShrUnchecked" => match y.is_const() {
                Some(k) if k >= 0 && k < 100 => {
                    if let Some(c) = x.is_const() {
                        return Ok(Val::k(c >> k));
                    }
                    if !signed && k < 100 {
                        if self.exact {
                            let q = self.divk(st, &x, 1i128 << k);
                            return Ok(Val::Int(q));
                        }
                        return Ok(Val::Int(Lin::s(term(
                            "shr",
                            vec![Arg::L(x), Arg::L(Lin::k(k))],
                            Some(0),
                            Some(hi >> k),
                        ))));
                    }
                    Lin::s(term("sar", vec![Arg::L(x), Arg::L(Lin::k(k))], Some(lo), Some(hi)))
                },
                _ => Lin::s(term(
                    "shrv",
                    vec![Arg::L(x), Arg::L(y)],
                    Some(if signed { lo } else { 0 }),
                    Some(hi),
                )),
            },
            _ => Lin::s(fresh(op, Some(lo), Some(hi))),
        };
        let r = st.n(&r);
        if checked {
            let c = Cond::and(vec![Cond::ge(r.addk(-lo)), Cond::ge(r.neg().addk(hi))]).not();
            let c = match st.eval(&c) {
                Some(true) => Cond::T,
                Some(false) => Cond::F,
                None => c,
            };
            let f = *self.stack.last().unwrap();
            let user = self.user.iter().any(|u| **u == *self.p.fns[f].krate);
            if !user && c != Cond::F {
                let w = self.wrap(st, r, signed, bits)?;
                return Ok(Val::adt(0, vec![Val::Int(w), Val::Bool(c)]));
            }
            return Ok(Val::adt(0, vec![Val::Int(r), Val::Bool(c)]));
        }
        Ok(Val::Int(self.wrap(st, r, signed, bits)?))
    }

    pub fn ptr_add(&mut self, st: &State, p: &Ptr, n: &Lin, e: TyId) -> Val {
        let v = self.peek(st, p.obj, &p.path);
        let sz = self.p.size_of(e).unwrap_or(1).max(1) as Z;
        let scale = match v {
            Val::Seq(_) => sz,
            Val::Arr(_) => match (&v, self.peel(e).1) {
                (Val::Arr(a), Rep::Arr(_, k)) if !matches!(a.first(), Some(Val::Arr(_))) => k as Z,
                _ => 1,
            },
            _ => 1,
        };
        let o = p.off.clone().unwrap_or(Lin::k(0));
        Val::Ptr(Rc::new(Ptr { obj: p.obj, path: p.path.clone(), off: Some(st.n(&o.add(&n.mul(scale)))), len: p.len.clone() }))
    }

    fn ptrcmp(&mut self, st: &State, op: &str, a: &Val, b: &Val) -> R<Val> {
        let z = Lin::k(0);
        let c = match (a, b) {
            (Val::Ptr(p), Val::Ptr(q)) => {
                if p.obj == q.obj && p.path == q.path {
                    let (x, y) = (p.off.as_ref().unwrap_or(&z), q.off.as_ref().unwrap_or(&z));
                    let d = st.n(&x.sub(y));
                    match op {
                        "Eq" => Cond::eq(&d, &z),
                        "Ne" => Cond::eq(&d, &z).not(),
                        "Lt" => Cond::ge(d.neg().addk(-1)),
                        "Le" => Cond::ge(d.neg()),
                        "Gt" => Cond::ge(d.addk(-1)),
                        "Ge" => Cond::ge(d),
                        _ => return Ok(Val::Top),
                    }
                } else {
                    match op {
                        "Eq" => Cond::F,
                        "Ne" => Cond::T,
                        _ => Cond::Atom(fresh("ptrcmp", None, None)),
                    }
                }
            },
            (Val::Addr(x), Val::Addr(y)) => match op {
                "Eq" => Cond::eq(x, y),
                "Ne" => Cond::eq(x, y).not(),
                _ => Cond::Atom(fresh("ptrcmp", None, None)),
            },
            _ => match op {
                "Eq" => Cond::F,
                "Ne" => Cond::T,
                _ => Cond::Atom(fresh("ptrcmp", None, None)),
            },
        };
        Ok(Val::Bool(match st.eval(&c) {
            Some(true) => Cond::T,
            Some(false) => Cond::F,
            None => c,
        }))
    }

    // ------------------------------------------------------------ casts
    pub fn cast(&mut self, st: &mut State, kind: &str, v: Val, from: TyId, to: TyId) -> R<Val> {
        match kind {
            "IntToInt" => {
                let Some((s, b)) = self.int_of(to) else { return Ok(Val::Top) };
                match v {
                    Val::Int(l) | Val::En(l, _) => Ok(Val::Int(self.wrap(st, l, s, b)?)),
                    Val::Bool(c) => {
                        if let Some(x) = st.eval(&c) {
                            return Ok(Val::k(x as Z));
                        }
                        if self.exact {
                            return Ok(Val::k(st.decide(&c)? as Z));
                        }
                        Ok(Val::Int(Lin::s(term("b2i", vec![Arg::C(c)], Some(0), Some(1)))))
                    },
                    Val::Term(s) => Ok(Val::Int(Lin::s(s))),
                    _ => Ok(self.havoc(to, "cast")),
                }
            },
            "PC:Unsize" => {
                // &[T;N] -> &[T]
                let pf = self.pointee(from);
                let pt = self.pointee(to);
                if let (Some(a), Some(b)) = (pf, pt) {
                    if let (TK::Array(_, n), TK::Slice(_)) = (self.p.ty(a), self.p.ty(b)) {
                        let n = Lin::k(*n as Z);
                        return Ok(match v {
                            Val::Ptr(p) => Val::Ptr(Rc::new(Ptr {
                                obj: p.obj,
                                path: p.path.clone(),
                                off: Some(p.off.clone().unwrap_or(Lin::k(0))),
                                len: Some(n),
                            })),
                            Val::Addr(_) => Val::Ptr(Rc::new(Ptr {
                                obj: EMPTY,
                                path: vec![],
                                off: Some(Lin::k(0)),
                                len: Some(Lin::k(0)),
                            })),
                            v => v,
                        });
                    }
                }
                Ok(v)
            },
            "PC:ReifyFnPointer" | "PC:ClosureFnPointer" => match self.p.ty(from) {
                TK::FnDef(_, Some(f)) | TK::Closure(_, _, Some(f)) => Ok(Val::Fn(*f as u32)),
                _ => Ok(v),
            },
            "PtrToPtr" | "BoxDerefTransmute" => Ok(self.ptr_cast(v, from, to)),
            "Transmute" => self.transmute(st, v, from, to),
            _ if kind.starts_with("PC:") => Ok(v),
            _ => Ok(self.havoc(to, "cast")),
        }
    }
    fn ptr_cast(&mut self, v: Val, from: TyId, to: TyId) -> Val {
        let (Some(a), Some(b)) = (self.pointee(from), self.pointee(to)) else { return v };
        match v {
            Val::Ptr(p) => {
                let unsized_to = matches!(self.p.ty(b), TK::Slice(_) | TK::Str);
                let mut q = (*p).clone();
                if !unsized_to {
                    q.len = None;
                }
                // pointer to array -> pointer to its first element
                if let TK::Array(e, _) = self.p.ty(a) {
                    let e = *e;
                    if !matches!(self.p.ty(b), TK::Array(..)) && (self.peel(b).0 == self.peel(e).0 || matches!(self.peel(b).1, Rep::Byte(_))) && q.off.is_none() {
                        q.off = Some(Lin::k(0));
                    }
                }
                Val::Ptr(Rc::new(q))
            },
            v => v,
        }
    }
    pub fn transmute(&mut self, st: &mut State, v: Val, from: TyId, to: TyId) -> R<Val> {
        let (tf, rf) = self.peel(from);
        let (tt, rt) = self.peel(to);
        if tf == tt {
            return Ok(v);
        }
        Ok(match (&rf, &rt, v) {
            (_, Rep::Zst, _) => Val::unit(),
            (Rep::Ptr(_), Rep::Ptr(_), v) => self.ptr_cast(v, tf, tt),
            (Rep::Ptr(_), Rep::Int(..), Val::Ptr(p)) => Val::Ptr(p),
            (Rep::Ptr(_), Rep::Int(..), Val::Addr(l)) => Val::Int(l),
            (Rep::Int(..), Rep::Ptr(_), Val::Int(l)) => Val::Addr(l),
            (Rep::Int(..), Rep::Ptr(_), v) => v,
            (Rep::Byte(_) | Rep::Int(..), Rep::En, Val::Int(l)) => {
                let TK::Adt { vs, .. } = self.p.ty(tt) else { unreachable!() };
                Val::En(l, vs.len() as u32)
            },
            (Rep::En, Rep::Byte(_) | Rep::Int(..), Val::En(l, _)) => Val::Int(l),
            (Rep::Byte(_), Rep::Byte(s), Val::Int(l)) => Val::Int(self.wrap(st, l, *s, 8)?),
            (Rep::Int(..), Rep::Int(s, b), Val::Int(l)) => Val::Int(self.wrap(st, l, *s, *b)?),
            (Rep::Bytes(a), Rep::Bytes(b), v) if a == b => v,
            (Rep::Bytes(n), Rep::Arr(e, k), Val::Seq(q)) => {
                let Some((false, bits)) = self.int_of(*e) else { return Ok(self.havoc(to, "transmute")) };
                let w = bits as u64 / 8;
                if w * k != *n {
                    return Ok(self.havoc(to, "transmute"));
                }
                let mut o = vec![];
                for i in 0..*k {
                    let s = st.seq_sub(&q, &Lin::k((i * w) as Z), &Lin::k(w as Z))?;
                    o.push(Val::Int(st.decode(&s, w as u32, false)?));
                }
                Val::Arr(Rc::new(o))
            },
            (Rep::Arr(e, k), Rep::Bytes(n), Val::Arr(a)) => {
                let Some((_, bits)) = self.int_of(*e) else { return Ok(self.havoc(to, "transmute")) };
                let w = bits / 8;
                if w as u64 * k != *n {
                    return Ok(self.havoc(to, "transmute"));
                }
                let mut q = Seq::empty();
                for x in a.iter() {
                    let Val::Int(l) = x else { return Ok(self.havoc(to, "transmute")) };
                    q = st.seq_cat(&q, &st.encode(l, w, false));
                }
                Val::seq(q)
            },
            (Rep::Int(false, b), Rep::Bytes(n), Val::Int(l)) if (*b / 8) as u64 == *n => {
                Val::seq(st.encode(&l, b / 8, false))
            },
            (Rep::Bytes(n), Rep::Int(false, b), Val::Seq(q)) if (*b / 8) as u64 == *n => {
                Val::Int(st.decode(&q, b / 8, false)?)
            },
            (Rep::Arr(_, a), Rep::Arr(_, b), v) if a == b => v,
            (Rep::Struct(a), Rep::Struct(b), v) if a.len() == b.len() => v,
            (Rep::Enum, Rep::Enum, v) => {
                // Option<NonNull<T>> <-> Option<&T> and the like
                v
            },
            (Rep::Enum, Rep::Ptr(_), Val::Adt(n, f)) => {
                if n == 0 || f.is_empty() {
                    Val::Addr(Lin::k(0))
                } else {
                    f[0].clone()
                }
            },
            (Rep::Ptr(_), Rep::Enum, v) => match v {
                Val::Ptr(_) => Val::adt(1, vec![v]),
                Val::Addr(_) => Val::adt(0, vec![]),
                _ => Val::Top,
            },
            (Rep::FnPtr, Rep::FnPtr, v) => v,
            _ => self.havoc(to, "transmute"),
        })
    }

    // ------------------------------------------------------------ rvalues
    fn rvalue(&mut self, st: &mut State, r: &Rv, to: TyId) -> R<Val> {
        match r {
            Rv::Use(o) => self.operand(st, o),
            Rv::Ref(_, p) | Rv::Addr(p) => {
                let l = self.walk(st, p)?;
                self.ensure(st, &l);
                Ok(self.loc_ptr(&l))
            },
            Rv::Agg(k, ops) => {
                let mut v = vec![];
                for o in ops {
                    v.push(self.operand(st, o)?);
                }
                self.aggregate(st, k, v, to)
            },
            Rv::Bin(op, a, b) => {
                let t = self.op_ty(a).unwrap_or(to);
                let x = self.operand(st, a)?;
                let y = self.operand(st, b)?;
                self.binop(st, op, &x, &y, t, false)
            },
            Rv::CBin(op, a, b) => {
                let t = self.op_ty(a).unwrap_or(to);
                let x = self.operand(st, a)?;
                let y = self.operand(st, b)?;
                self.binop(st, op, &x, &y, t, true)
            },
            Rv::Cast(k, o, t) => {
                let from = self.op_ty(o).unwrap_or(*t);
                let v = self.operand(st, o)?;
                self.cast(st, k, v, from, *t)
            },
            Rv::Discr(p) => {
                let mut l = self.walk(st, p)?;
                if l.off.is_some() {
                    self.index_path(st, &mut l);
                }
                self.discr(st, &l)
            },
            Rv::Len(p) => {
                let l = self.walk(st, p)?;
                match self.loc_len(&l) {
                    Some(n) => Ok(Val::Int(n)),
                    None => Ok(self.havoc(to, "len")),
                }
            },
            Rv::Repeat(o, n) => {
                let v = self.operand(st, o)?;
                let (_, r) = self.peel(to);
                match (r, &v) {
                    (Rep::Zst, _) => Ok(Val::unit()),
                    (Rep::Bytes(_), Val::Int(l)) => match l.is_const() {
                        Some(c) => Ok(Val::seq(st.nseq(&Seq(vec![Seg::Fill(c as u8, Lin::k(*n as Z))])))),
                        None if *n <= 512 => {
                            Ok(Val::seq(st.nseq(&Seq((0..*n).map(|_| Seg::B(l.clone())).collect()))))
                        },
                        None => Ok(self.havoc(to, "repeat")),
                    },
                    (Rep::Bytes(_), _) => Ok(self.undef(to)),
                    (Rep::Arr(..), _) if *n <= 4096 => Ok(Val::Arr(Rc::new(vec![v; *n as usize]))),
                    _ => Ok(Val::Top),
                }
            },
            Rv::Un(op, o) => {
                let t = self.op_ty(o).unwrap_or(to);
                let v = self.operand(st, o)?;
                match (&**op, v) {
                    ("Not", Val::Bool(c)) => Ok(Val::Bool(c.not())),
                    ("Not", Val::Int(l)) => {
                        let (s, b) = self.int_of(t).unwrap_or((false, 64));
                        if s {
                            Ok(Val::Int(st.n(&l.neg().addk(-1))))
                        } else if b < 127 {
                            Ok(Val::Int(st.n(&l.neg().addk((1i128 << b) - 1))))
                        } else {
                            Ok(Val::Int(Lin::s(term("not", vec![Arg::L(l)], Some(0), Some(irange(false, b).1)))))
                        }
                    },
                    ("Neg", Val::Int(l)) => {
                        let (s, b) = self.int_of(t).unwrap_or((true, 64));
                        Ok(Val::Int(self.wrap(st, l.neg(), s, b)?))
                    },
                    ("PtrMetadata", Val::Ptr(p)) => match &p.len {
                        Some(n) => Ok(Val::Int(st.n(n))),
                        None => {
                            // length of an array behind a fat pointer cast
                            match self.pointee(t).map(|e| self.p.ty(e).clone()) {
                                Some(TK::Array(_, n)) => Ok(Val::k(n as Z)),
                                _ => Ok(self.havoc(to, "meta")),
                            }
                        },
                    },
                    ("PtrMetadata", Val::Addr(_)) => Ok(Val::k(0)),
                    _ => Ok(self.havoc(to, "unop")),
                }
            },
            Rv::Other(_) => Ok(self.havoc(to, "rvalue")),
        }
    }

    pub fn discr(&mut self, st: &mut State, l: &Loc) -> R<Val> {
        let (ty, r) = self.peel(l.ty);
        let v = if l.unk { self.havoc(l.ty, "discr") } else { self.peek(st, l.obj, &l.path) };
        let TK::Adt { vs, .. } = self.p.ty(ty) else { return Ok(Val::k(0)) };
        match v {
            Val::En(d, _) => Ok(Val::Int(st.n(&d))),
            Val::Adt(i, _) if matches!(r, Rep::Enum) => Ok(Val::k(vs[i as usize].discr)),
            Val::Top | Val::Undef => {
                if l.unk {
                    let lo = vs.iter().map(|v| v.discr).min().unwrap_or(0);
                    let hi = vs.iter().map(|v| v.discr).max().unwrap_or(0);
                    return Ok(Val::Int(Lin::s(fresh("discr", Some(lo), Some(hi)))));
                }
                if let Rep::En = r {
                    let x = self.havoc(ty, "enum");
                    self.poke(st, l.obj, &l.path.clone(), x.clone());
                    let Val::En(d, _) = x else { unreachable!() };
                    return Ok(Val::Int(d));
                }
                let n = vs.len();
                let mut alts = vec![];
                for i in 0..n {
                    let x = self.variant_havoc(ty, i as u32);
                    alts.push((l.obj, l.path.clone(), x));
                }
                Err(Fork::Alt(alts))
            },
            _ => Ok(self.havoc(ty, "discr")),
        }
    }

    fn aggregate(&mut self, st: &mut State, k: &Agg, v: Vec<Val>, to: TyId) -> R<Val> {
        match k {
            Agg::Array(_) => {
                let (_, r) = self.peel(to);
                Ok(match r {
                    Rep::Zst => Val::unit(),
                    Rep::Bytes(_) => {
                        let mut q = vec![];
                        for x in &v {
                            q.extend(self.to_bytes(st, x, 1).0);
                        }
                        Val::seq(st.nseq(&Seq(q)))
                    },
                    _ => Val::Arr(Rc::new(v)),
                })
            },
            Agg::RawPtr(_) => {
                let meta = v[1].clone();
                Ok(match (v[0].clone(), meta) {
                    (Val::Ptr(p), Val::Int(n)) => {
                        let mut q = (*p).clone();
                        q.off = Some(q.off.unwrap_or(Lin::k(0)));
                        q.len = Some(st.n(&n));
                        Val::Ptr(Rc::new(q))
                    },
                    (Val::Addr(_), Val::Int(n)) => {
                        if st.facts.prove_eq(&n) {
                            Val::Ptr(Rc::new(Ptr { obj: EMPTY, path: vec![], off: Some(Lin::k(0)), len: Some(Lin::k(0)) }))
                        } else {
                            Val::Top
                        }
                    },
                    (p, _) => p,
                })
            },
            Agg::Adt(t, variant, active) => {
                let t = *t;
                match self.rep(t) {
                    Rep::Zst => Ok(Val::unit()),
                    Rep::Peel(i, _) => {
                        if active.is_some() {
                            // union
                            return Ok(v.into_iter().next().map(|x| if x == Val::unit() { Val::Undef } else { x }).unwrap_or(Val::Undef));
                        }
                        Ok(v[i as usize].clone())
                    },
                    Rep::En => {
                        let TK::Adt { vs, .. } = self.p.ty(t) else { unreachable!() };
                        Ok(Val::En(Lin::k(vs[*variant as usize].discr), vs.len() as u32))
                    },
                    _ => Ok(Val::adt(*variant, v)),
                }
            },
            Agg::Tuple | Agg::Closure(_) => match self.rep(to) {
                Rep::Zst => Ok(Val::unit()),
                Rep::Peel(i, _) => Ok(v[i as usize].clone()),
                _ => Ok(Val::adt(0, v)),
            },
        }
    }

    // ------------------------------------------------------------ execution
    /// run a transfer function, partitioning the state when it asks for it
    pub fn forked<T>(&mut self, st: State, f: &mut dyn FnMut(&mut In<'a>, State) -> R<Vec<T>>) -> Vec<T> {
        let mut work = vec![(st, 0)];
        let mut out = vec![];
        let outer = std::mem::take(&mut self.syms);
        while let Some((s, d)) = work.pop() {
            self.syms.1 = 0;
            if s.bad() {
                continue;
            }
            if d > 24 {
                self.event("imprecise", "partitioning did not terminate", Some(&s));
                continue;
            }
            match f(self, s.clone()) {
                Ok(v) => out.extend(v),
                Err(Fork::Split(c)) => {
                    if d > 12 && self.tloop {
                        eprintln!("split {d} {}\n{}", show_cond(&c, 2), s.show_facts(2));
                    }
                    for t in s.assume(&c) {
                        work.push((t, d + 1));
                    }
                    for t in s.assume(&c.not()) {
                        work.push((t, d + 1));
                    }
                },
                Err(Fork::Alt(v)) => {
                    for (o, p, x) in v {
                        let mut t = s.clone();
                        self.poke(&mut t, o, &p, x);
                        work.push((t, d + 1));
                    }
                },
                Err(Fork::Dead) => {},
                Err(Fork::Oob(m)) => {
                    match m.split_once(": ") {
                        Some((class @ ("out of bounds" | "invalid pointer"), d)) => {
                            self.event2("memory", class, &|| d.to_string(), Some(&s))
                        },
                        _ => self.event("imprecise", &m, Some(&s)),
                    }
                },
            }
        }
        self.syms = outer;
        out
    }

    /// a new unknown, the same one when a transfer function is repeated on a partition
    pub fn unknown(&mut self, name: &str, lo: Option<Z>, hi: Option<Z>) -> Sym {
        let i = self.syms.1;
        if i == self.syms.0.len() {
            self.syms.0.push(fresh(name, lo, hi));
        }
        self.syms.1 += 1;
        self.syms.0[i]
    }

    fn stmt(&mut self, mut st: State, s: &St) -> R<Vec<State>> {
        match s {
            St::Assign(p, r) => {
                let to = self.place_ty(p).unwrap_or(0);
                let v = self.rvalue(&mut st, r, to)?;
                if self.tracefn.as_ref().map_or(false, |t| self.stack.last().map_or(false, |f| self.p.fns[*f].name.contains(&**t))) {
                    eprintln!("TR {} {:?} = {}", p.l, p.p.len(), show_val(&v, 4));
                }
                if p.p.is_empty() {
                    let b = self.base();
                    st.set_obj(b + p.l as u64, v);
                } else {
                    let l = self.walk(&mut st, p)?;
                    self.store(&mut st, &l, v)?;
                }
            },
            St::SetDiscr(p, v) => {
                let l = self.walk(&mut st, p)?;
                let cur = self.peek(&st, l.obj, &l.path);
                let n = match (self.rep(l.ty), cur) {
                    (Rep::En, _) => {
                        let TK::Adt { vs, .. } = self.p.ty(l.ty) else { unreachable!() };
                        Val::En(Lin::k(vs[*v as usize].discr), vs.len() as u32)
                    },
                    (_, Val::Adt(_, f)) => Val::Adt(*v, f),
                    _ => self.variant_havoc(l.ty, *v),
                };
                self.poke(&mut st, l.obj, &l.path.clone(), n);
            },
            St::Dead(l) | St::Live(l) => {
                let o = self.base() + *l as u64;
                if st.mem.contains_key(&o) {
                    Rc::make_mut(&mut st.mem).remove(&o);
                }
            },
            St::Assume(o) => {
                if let Val::Bool(c) = self.operand(&mut st, o)? {
                    return Ok(st.assume(&c));
                }
            },
            St::Cno(a, b, n) => {
                let t = self.op_ty(a).and_then(|t| self.pointee(t)).unwrap_or(0);
                let src = self.operand(&mut st, a)?;
                let dst = self.operand(&mut st, b)?;
                let n = self.operand(&mut st, n)?;
                self.copy(&mut st, &src, &dst, &n, t)?;
            },
            St::Nop => {},
        }
        Ok(vec![st])
    }

    /// copy n elements of type t
    pub fn copy(&mut self, st: &mut State, src: &Val, dst: &Val, n: &Val, t: TyId) -> R<()> {
        let Val::Int(n) = n else { return Err(Fork::Oob("copy of unknown length".into())) };
        let sz = self.p.size_of(t).unwrap_or(1) as Z;
        if st.n(n).is_const() == Some(0) || sz == 0 {
            return Ok(());
        }
        if let (Val::Ptr(a), Val::Ptr(b)) = (src, dst) {
            let x = self.peek(st, a.obj, &a.path);
            let y = self.peek(st, b.obj, &b.path);
            match (&x, &y) {
                (Val::Seq(_), Val::Seq(_)) => {
                    let q = self.bytes_at(st, src, &n.mul(sz))?;
                    return self.set_bytes(st, dst, &q);
                },
                (Val::Arr(p), Val::Arr(q)) => {
                    let o = st.n(a.off.as_ref().unwrap_or(&Lin::k(0))).is_const();
                    let d = st.n(b.off.as_ref().unwrap_or(&Lin::k(0))).is_const();
                    if let (Some(o), Some(d), Some(n)) = (o, d, st.n(n).is_const()) {
                        let (o, d, n) = (o as usize, d as usize, n as usize);
                        if o + n <= p.len() && d + n <= q.len() {
                            let mut r = (**q).clone();
                            for i in 0..n {
                                r[d + i] = p[o + i].clone();
                            }
                            self.poke(st, b.obj, &b.path.clone(), Val::Arr(Rc::new(r)));
                            return Ok(());
                        }
                        return Err(Fork::Oob("out of bounds: copy out of range".into()));
                    }
                    let r: Vec<Val> = q.iter().map(|_| self.havoc(t, "copy")).collect();
                    self.poke(st, b.obj, &b.path.clone(), Val::Arr(Rc::new(r)));
                    return Ok(());
                },
                _ => {
                    if st.n(n).is_const() == Some(1) {
                        let l = self.ptr_loc(src, t)?;
                        let v = self.load(st, &l)?;
                        let l = self.ptr_loc(dst, t)?;
                        return self.store(st, &l, v);
                    }
                },
            }
        }
        if std::env::var("AI_EV").is_ok() {
            if let (Val::Ptr(a), Val::Ptr(b)) = (src, dst) {
                eprintln!("COPY {} / {}", show_val(&self.peek(st, a.obj, &a.path), 2), show_val(&self.peek(st, b.obj, &b.path), 2));
            }
            eprintln!("COPY {} -> {}", show_val(src, 2), show_val(dst, 2));
        }
        Err(Fork::Oob("copy through unknown pointers".into()))
    }

    fn block(&mut self, f: FnId, b: B, st: State) -> Vec<Next> {
        let p = self.p;
        let body = p.fns[f].body.as_ref().unwrap();
        let bl = &body.blocks[b];
        let mut states = vec![st];
        for (line, s) in &bl.st {
            let d = self.lines.len() - 1;
            self.lines[d] = (body.span.0, *line);
            let mut out = vec![];
            for st in states {
                self.stmts += 1;
                out.extend(self.forked(st, &mut |cx, st| cx.stmt(st, s)));
            }
            states = out;
        }
        let d = self.lines.len() - 1;
        self.lines[d] = (body.span.0, bl.span.1);
        let mut next = vec![];
        for st in states {
            next.extend(self.forked(st, &mut |cx, st| cx.terminator(f, st, &bl.tm)));
        }
        next
    }

    fn terminator(&mut self, _f: FnId, mut st: State, t: &Tm) -> R<Vec<Next>> {
        match t {
            Tm::Goto(b) => Ok(vec![Next::Goto(*b, st)]),
            Tm::Ret => {
                let b = self.base();
                let v = self.peek(&st, b, &[]);
                Ok(vec![Next::Ret(st, v)])
            },
            Tm::Switch(o, cases, other) => {
                let v = self.operand(&mut st, o)?;
                match v {
                    Val::Bool(c) => {
                        let mut out = vec![];
                        // values 0/1
                        let mut tgt = [*other, *other];
                        for (k, b) in cases {
                            tgt[*k as usize] = *b;
                        }
                        match st.eval(&c) {
                            Some(x) => out.push(Next::Goto(tgt[x as usize], st)),
                            None => {
                                for s in st.assume(&c) {
                                    out.push(Next::Goto(tgt[1], s));
                                }
                                for s in st.assume(&c.not()) {
                                    out.push(Next::Goto(tgt[0], s));
                                }
                            },
                        }
                        Ok(out)
                    },
                    Val::Int(l) | Val::En(l, _) => {
                        let ty = self.op_ty(o).unwrap_or(0);
                        let (signed, bits) = self.int_of(ty).unwrap_or((false, 64));
                        let mut out = vec![];
                        let mut cur = vec![st];
                        for (k, b) in cases {
                            let mut k = *k;
                            if signed && bits < 127 && k > irange(true, bits).1 {
                                k -= 1i128 << bits;
                            }
                            let c = Cond::eq(&l, &Lin::k(k));
                            let mut rest = vec![];
                            for s in cur {
                                match s.eval(&c) {
                                    Some(true) => out.push(Next::Goto(*b, s)),
                                    Some(false) => rest.push(s),
                                    None => {
                                        for t in s.assume(&c) {
                                            out.push(Next::Goto(*b, t));
                                        }
                                        rest.extend(s.assume(&c.not()));
                                    },
                                }
                            }
                            cur = rest;
                        }
                        for s in cur {
                            out.push(Next::Goto(*other, s));
                        }
                        Ok(out)
                    },
                    _ => {
                        let mut out: Vec<Next> = cases.iter().map(|(_, b)| Next::Goto(*b, st.clone())).collect();
                        out.push(Next::Goto(*other, st));
                        Ok(out)
                    },
                }
            },
            Tm::Unreachable => {
                // the compiler relies on this being unreachable (e.g. exhaustive matches)
                Ok(vec![])
            },
            Tm::Resume => Ok(vec![]),
            Tm::Drop(p, b, _) => {
                let _ = p;
                Ok(vec![Next::Goto(*b, st)])
            },
            Tm::Assert(o, expect, kind, _, b) => {
                if kind.contains("Pointer") || kind.contains("Reference") {
                    return Ok(vec![Next::Goto(*b, st)]);
                }
                let v = self.operand(&mut st, o)?;
                self.count("assertions examined");
                let Val::Bool(c) = v else {
                    self.event("panic", kind, Some(&st));
                    return Ok(vec![Next::Goto(*b, st)]);
                };
                let c = if *expect { c } else { c.not() };
                match st.eval(&c) {
                    Some(true) => Ok(vec![Next::Goto(*b, st)]),
                    Some(false) => {
                        self.event("panic", kind, Some(&st));
                        Ok(vec![])
                    },
                    None => {
                        let bad = st.assume(&c.not());
                        if let Some(s) = bad.first() {
                            self.event("panic", kind, Some(s));
                        }
                        Ok(st.assume(&c).into_iter().map(|s| Next::Goto(*b, s)).collect())
                    },
                }
            },
            Tm::Call(callee, args, dest, tgt) => {
                let mut av = vec![];
                let mut tys = vec![];
                for a in args {
                    tys.push(self.op_ty(a).unwrap_or(0));
                    av.push(self.operand(&mut st, a)?);
                }
                let dty = self.place_ty(dest).unwrap_or(0);
                let outs = match callee {
                    Callee::I(g) => self.call(st, *g, av)?,
                    Callee::P(o) => {
                        let fv = self.operand(&mut st, o)?;
                        match fv {
                            Val::Fn(g) => self.call(st, g as usize, av)?,
                            Val::Tok(n) => {
                                let h = self.h.clone();
                                h.tok(self, &st, &n, &av, dty)?
                            },
                            _ => {
                                self.event("imprecise", "call through an unknown function pointer", Some(&st));
                                vec![]
                            },
                        }
                    },
                    Callee::Unknown(n) => {
                        self.event("imprecise", &format!("unresolved call {n}"), Some(&st));
                        vec![]
                    },
                };
                let Some(t) = tgt else { return Ok(vec![]) };
                let mut next = vec![];
                for (s, v) in outs {
                    let r = self.forked(s, &mut |cx, mut s| {
                        let l = cx.walk(&mut s, dest)?;
                        if dest.p.is_empty() {
                            s.set_obj(l.obj, v.clone());
                        } else {
                            cx.store(&mut s, &l, v.clone())?;
                        }
                        Ok(vec![s])
                    });
                    next.extend(r.into_iter().map(|s| Next::Goto(*t, s)));
                }
                Ok(next)
            },
            Tm::Other => Ok(vec![]),
        }
    }

    pub fn call(&mut self, st: State, f: FnId, args: Vec<Val>) -> R<Outs> {
        self.calls += 1;
        let h = self.h.clone();
        if let Some(r) = h.call(self, &st, f, &args) {
            return r;
        }
        if let Some(r) = crate::models::call(self, &st, f, &args) {
            return r;
        }
        let func = &self.p.fns[f];
        if func.div {
            let msg = match args.first() {
                Some(v) if func.def.ends_with("panicking::panic") => self.const_str(&st, v),
                Some(Val::Adt(_, f)) => match f.first() {
                    Some(Val::Tok(t)) => t.strip_prefix("fmt:").map(|m| m.to_string()),
                    _ => None,
                },
                _ => None,
            };
            let what = match msg {
                Some(m) if m.starts_with("not yet implemented") => m,
                _ => format!("call of {}", func.def),
            };
            self.event("panic", &what, Some(&st));
            return Ok(vec![]);
        }
        if func.body.is_none() {
            self.event("imprecise", &format!("no model for {}", func.def), None);
            let v = self.havoc(func.sig.1, "extern");
            return Ok(vec![(st, v)]);
        }
        if self.stack.len() > 60 || self.stack.iter().filter(|g| **g == f).count() > 3 {
            self.event("imprecise", &format!("recursion in {}", func.def), None);
            return Ok(vec![]);
        }
        let outs = self.run(st, f, args.clone());
        Ok(h.ret(self, f, &args, outs))
    }

    pub fn run(&mut self, mut st: State, f: FnId, args: Vec<Val>) -> Outs {
        let p = self.p;
        let func = &p.fns[f];
        let body = func.body.as_ref().unwrap();
        *self.visited.entry(f).or_default() += 1;
        if self.prof {
            eprintln!("{}> {} {:?}", " ".repeat(self.stack.len()), func.name, self.t0.elapsed());
        }
        self.stack.push(f);
        self.lines.push(body.span);
        let b = self.base();
        let mut args = args;
        // rust-call ABI: untuple
        if let Some(sp) = body.spread {
            // locals 1..sp-1 are plain, local sp collects the rest as a tuple
            let rest: Vec<Val> = args.split_off(sp - 1);
            let t = body.locals[sp];
            let v = if rest.len() == 1 && matches!(self.p.ty(t), TK::Tuple(_)) {
                let TK::Tuple(es) = self.p.ty(t).clone() else { unreachable!() };
                let _ = es;
                rest[0].clone()
            } else {
                match self.rep(t) {
                    Rep::Zst => Val::unit(),
                    Rep::Peel(i, _) => rest[i as usize].clone(),
                    _ => Val::adt(0, rest),
                }
            };
            args.push(v);
        } else if args.len() != body.argc {
            // closure called with a tuple of arguments
            if let Some(last) = args.pop() {
                let n = body.argc - args.len();
                match last {
                    Val::Adt(_, fs) if n != 1 && fs.len() == n => args.extend(fs.iter().cloned()),
                    v if n == 1 => args.push(v),
                    Val::Adt(_, _) if n == 0 => {},
                    // a tuple with a single field of non-zero size
                    v if (0..n).filter(|i| !self.is_zst(body.locals[args.len() + 1 + i])).count() == 1 => {
                        for _ in 0..n {
                            let x = if self.is_zst(body.locals[args.len() + 1]) { Val::unit() } else { v.clone() };
                            args.push(x);
                        }
                    },
                    _ => {
                        for _ in 0..n {
                            args.push(Val::Top);
                        }
                    },
                }
            }
        } else if args.len() == 2 && matches!(&*func.kind, "closure") {
            // one-argument closure: a 1-tuple is transparent
        }
        {
            let m = Rc::make_mut(&mut st.mem);
            for (i, v) in args.into_iter().enumerate() {
                m.insert(b + 1 + i as u64, Rc::new(v));
            }
        }
        if body.irreducible {
            self.event("imprecise", "irreducible control flow", None);
        }
        let (_, _, rets) = self.region(f, None, 0, vec![st]);
        self.stack.pop();
        self.lines.pop();
        let lo = b;
        let hi = b + 4096;
        let mut outs: Outs = vec![];
        for (mut s, v) in rets {
            let dead: Vec<ObjId> = s.mem.range(lo..hi).map(|x| *x.0).collect();
            let m = Rc::make_mut(&mut s.mem);
            for d in dead {
                m.remove(&d);
            }
            outs.push((s, v));
        }
        if outs.len() > self.limit {
            outs = join::reduce_outs(self, outs);
        }
        outs
    }

    /// drop values of dead locals of the current frame
    fn prune(&mut self, f: FnId, b: B, st: &mut State) {
        let p = self.p;
        let body = p.fns[f].body.as_ref().unwrap();
        let base = self.base();
        let dead: Vec<ObjId> = st
            .mem
            .range(base..base + 4096)
            .map(|x| *x.0)
            .filter(|o| {
                let l = (*o - base) as usize;
                !body.live_in[b][l] && !body.addr_taken[l]
            })
            .collect();
        if !dead.is_empty() {
            let m = Rc::make_mut(&mut st.mem);
            for d in dead {
                m.remove(&d);
            }
        }
    }

    fn region(
        &mut self,
        f: FnId,
        reg: Option<usize>,
        entry: B,
        init: Vec<State>,
    ) -> (BTreeMap<B, Vec<State>>, Vec<State>, Outs) {
        let p = self.p;
        let body = p.fns[f].body.as_ref().unwrap();
        let mut num = vec![usize::MAX; body.blocks.len()];
        for (i, b) in body.rpo.iter().enumerate() {
            num[*b] = i;
        }
        let mut exits: BTreeMap<B, Vec<State>> = BTreeMap::new();
        let mut back = vec![];
        let mut rets: Outs = vec![];
        let mut pend: BTreeMap<usize, Vec<State>> = BTreeMap::new();
        pend.insert(num[entry], init);
        let mut first = true;
        while let Some((&k, _)) = pend.iter().next() {
            if self.expired || self.t0.elapsed().as_secs() > self.limit_s {
                self.expired = true;
                return (BTreeMap::new(), vec![], vec![]);
            }
            let mut states = pend.remove(&k).unwrap();
            let b = body.rpo[k];
            if states.len() > self.limit {
                for s in states.iter_mut() {
                    self.prune(f, b, s);
                }
                states = join::reduce(self, states);
            }
            let inner = body.loops.iter().position(|l| l.header == b);
            let is_inner = inner.is_some() && (inner != reg || !first);
            first = false;
            if is_inner && inner != reg {
                let (ex, rs) = self.solve_loop(f, inner.unwrap(), states);
                rets.extend(rs);
                for (t, ss) in ex {
                    self.dispatch(reg, body, &num, t, ss, &mut exits, &mut back, &mut pend);
                }
                continue;
            }
            for st in states {
                for n in self.block(f, b, st) {
                    match n {
                        Next::Ret(s, v) => rets.push((s, v)),
                        Next::Goto(t, s) => {
                            self.dispatch(reg, body, &num, t, vec![s], &mut exits, &mut back, &mut pend)
                        },
                    }
                }
            }
        }
        (exits, back, rets)
    }

    fn dispatch(
        &mut self,
        reg: Option<usize>,
        body: &Body,
        num: &[usize],
        t: B,
        ss: Vec<State>,
        exits: &mut BTreeMap<B, Vec<State>>,
        back: &mut Vec<State>,
        pend: &mut BTreeMap<usize, Vec<State>>,
    ) {
        if let Some(r) = reg {
            let l = &body.loops[r];
            if t == l.header {
                back.extend(ss);
                return;
            }
            if !l.blocks.contains(&t) {
                exits.entry(t).or_default().extend(ss);
                return;
            }
        }
        pend.entry(num[t]).or_default().extend(ss);
    }

    /// whether following the loop for a few iterations is worth an attempt
    fn short_loop(&self, f: FnId, l: usize) -> bool {
        let (ok, no) = self.short.get(&(f, l)).copied().unwrap_or((0, 0));
        crate::join::fine() && (no < 3 || ok >= no)
    }

    fn solve_loop(&mut self, f: FnId, l: usize, entry: Vec<State>) -> (BTreeMap<B, Vec<State>>, Outs) {
        self.loops += 1;
        let p = self.p;
        let body = p.fns[f].body.as_ref().unwrap();
        let header = body.loops[l].header;
        let mut exits: BTreeMap<B, Vec<State>> = BTreeMap::new();
        let mut rets: Outs = vec![];
        let mut todo: Vec<State> = vec![];
        // phase 1: unroll while the exit decision is determined
        for st in entry {
            let mut cur = st.clone();
            let mut n = 0;
            loop {
                let (ex, back, rs) = self.region(f, Some(l), header, vec![cur.clone()]);
                let nex: usize = ex.values().map(|v| v.len()).sum::<usize>() + rs.len();
                if back.is_empty() {
                    for (b, s) in ex {
                        exits.entry(b).or_default().extend(s);
                    }
                    rets.extend(rs);
                    break;
                }
                if self.tloop {
                    eprintln!("{}unroll {} {n}: {nex} exits, {} back, {} terms", " ".repeat(self.stack.len()), p.fns[f].name, back.len(), node_count());
                }
                if (nex > 0 || back.len() > 1) && n < 8 && back.len() <= 2000 && self.short_loop(f, l) {
                    // a few iterations may be all there are
                    let mut ex1 = ex.clone();
                    let mut rs1 = rs.clone();
                    let mut cur = back.clone();
                    let mut ok = false;
                    for _ in 0..16 {
                        let (ex, back, rs) = self.region(f, Some(l), header, cur);
                        for (b, s) in ex {
                            ex1.entry(b).or_default().extend(s);
                        }
                        rs1.extend(rs);
                        if back.is_empty() {
                            ok = true;
                            break;
                        }
                        if back.len() > 2000 {
                            break;
                        }
                        cur = back;
                    }
                    let e = self.short.entry((f, l)).or_default();
                    if ok {
                        e.0 += 1;
                        for (b, s) in ex1 {
                            exits.entry(b).or_default().extend(s);
                        }
                        rets.extend(rs1);
                        break;
                    }
                    e.1 += 1;
                }
                if nex > 0 || back.len() > 1 || n > 2100 {
                    if n < 2 || nex > 0 && n < 4 {
                        todo.push(st);
                    } else {
                        todo.push(cur);
                    }
                    break;
                }
                cur = back.into_iter().next().unwrap();
                n += 1;
            }
        }
        if todo.is_empty() {
            return (exits, rets);
        }
        let events = self.events.clone();
        let r = self.fixpoint(f, l, todo.clone());
        if self.expired {
            // an unfinished attempt may be too coarse
            self.events = events;
            return (BTreeMap::new(), vec![]);
        }
        let res = match r {
            Some(r) => r,
            None => {
                // phase 3: no convergence; follow every iteration
                let failed = std::mem::replace(&mut self.events, events);
                match self.peel_loop(f, l, todo) {
                    Some(r) => r,
                    None => {
                        self.events = failed;
                        self.event("imprecise", "loop analysis did not converge", None);
                        vec![]
                    },
                }
            },
        };
        for (ex, rs) in res {
            for (b, s) in ex {
                exits.entry(b).or_default().extend(s);
            }
            rets.extend(rs);
        }
        (exits, rets)
    }

    /// phase 2 of loops: fixpoint per shape
    fn fixpoint(&mut self, f: FnId, l: usize, entry: Vec<State>) -> Option<Vec<(BTreeMap<B, Vec<State>>, Outs)>> {
        let p = self.p;
        let header = p.fns[f].body.as_ref().unwrap().loops[l].header;
        let mut heads: BTreeMap<u64, (State, u32)> = BTreeMap::new();
        let mut res: BTreeMap<u64, (BTreeMap<B, Vec<State>>, Outs)> = BTreeMap::new();
        let mut work: Vec<u64> = vec![];
        let mut incoming = entry;
        let mut rounds = 0;
        loop {
            for mut s in std::mem::take(&mut incoming) {
                self.prune(f, header, &mut s);
                let (key, s) = join::canon(self, s);
                match heads.get(&key) {
                    None => {
                        heads.insert(key, (s, 0));
                        if !work.contains(&key) {
                            work.push(key);
                        }
                    },
                    Some((h, n)) => {
                        let n = *n;
                        self.joins += 1;
                        match join::widen(self, h, &s, n) {
                            None => {},
                            Some(j) => {
                                if self.trace {
                                    eprintln!("join#{n} in {}\n{}", p.fns[f].def, j.show(3));
                                }
                                if n > 24 {
                                    return None;
                                }
                                heads.insert(key, (j, n + 1));
                                if !work.contains(&key) {
                                    work.push(key);
                                }
                            },
                        }
                    },
                }
            }
            let Some(k) = work.pop() else { break };
            rounds += 1;
            if rounds > 400 || heads.len() > 200 {
                return None;
            }
            let h = heads[&k].0.clone();
            let (ex, back, rs) = self.region(f, Some(l), header, vec![h]);
            if self.tloop {
                eprintln!("{}round {rounds} {} {k:x}.{}: {} exits, {} back, {} heads, {} terms", " ".repeat(self.stack.len()), p.fns[f].name, heads[&k].1, ex.values().map(|v| v.len()).sum::<usize>() + rs.len(), back.len(), heads.len(), node_count());
            }
            res.insert(k, (ex, rs));
            incoming = back;
        }
        Some(res.into_values().collect())
    }

    fn peel_loop(&mut self, f: FnId, l: usize, entry: Vec<State>) -> Option<Vec<(BTreeMap<B, Vec<State>>, Outs)>> {
        let header = self.p.fns[f].body.as_ref().unwrap().loops[l].header;
        let mut out = vec![];
        let mut cur = entry;
        for i in 0..16 {
            if cur.is_empty() {
                return Some(out);
            }
            let mut next = vec![];
            for mut s in cur {
                self.prune(f, header, &mut s);
                let (ex, back, rs) = self.region(f, Some(l), header, vec![s]);
                out.push((ex, rs));
                next.extend(back);
            }
            if self.tloop {
                eprintln!("{}peel {i} {}: {} back, {} terms", " ".repeat(self.stack.len()), self.p.fns[f].name, next.len(), node_count());
            }
            if next.len() > 64 {
                return None;
            }
            cur = next;
        }
        None
    }
}

fn bounds_div(x: &Lin, k: Z) -> Option<Z> {
    // type-level upper bound only (terms are shared between states)
    let mut h = x.c;
    for &(s, c) in &x.t {
        let (lo, hi) = bounds(s);
        let b = if c > 0 { hi? } else { lo? };
        h = h.checked_add(c.checked_mul(b)?)?;
    }
    Some(h.div_euclid(k).max(0))
}

pub fn poke_in(v: &mut Val, path: &[PE], new: Val) -> bool {
    if path.is_empty() {
        *v = new;
        return true;
    }
    match (&path[0], v) {
        (PE::F(i), Val::Adt(_, f)) => {
            let f = Rc::make_mut(f);
            match f.get_mut(*i as usize) {
                Some(x) => poke_in(x, &path[1..], new),
                None => false,
            }
        },
        (PE::I(i), Val::Arr(f)) => {
            let f = Rc::make_mut(f);
            match f.get_mut(*i as usize) {
                Some(x) => poke_in(x, &path[1..], new),
                None => false,
            }
        },
        _ => false,
    }
}
