//! Most-general-client analysis of the TLS library: every exported operation, in every order, with
//! every configuration, every peer and every behaviour of the I/O callbacks.
use crate::interp::*;
use crate::join;
use crate::mon;
use crate::prog::*;
use crate::state::*;
use crate::term::*;
use std::collections::BTreeMap;
use std::rc::Rc;

/// What the client, the transport and the configuration may do in one analysis.
#[derive(Clone)]
pub struct Mode {
    /// configurations the application may choose, see `set_config`
    pub cfgs: Vec<u64>,
    /// write callbacks may fail or accept a part of the data
    pub partial_writes: bool,
    /// 0: the analysis ends at the first read, 1: read callbacks fail or deliver all that is asked
    /// for, 2: they may also deliver a part
    pub reads: u32,
    /// the application closes and reuses connections
    pub reuse: bool,
}

pub const DEFAULT_CFG: u64 = 15;

impl Mode {
    /// flags: partial writes, reads, reuse; then the configurations
    pub fn parse(s: &str) -> Mode {
        let (f, c) = s.split_once(':').unwrap_or((s, ""));
        let d = |i: usize| f.as_bytes().get(i).map_or(0, |c| (c - b'0') as u32);
        let mut cfgs: Vec<u64> = c.split(',').filter_map(|x| x.parse().ok()).collect();
        if cfgs.is_empty() {
            cfgs.push(DEFAULT_CFG);
        }
        Mode { cfgs, partial_writes: d(0) > 0, reads: d(1), reuse: d(2) > 0 }
    }
}

pub struct Tls {
    pub m: Mode,
}

/// the interpreter for a mode; with messages of any content, iterators over byte strings of unknown
/// length are represented by an arbitrary result, and are analysed by themselves (parse.rs)
pub fn interpreter(p: &'static Prog, m: &Mode) -> In<'static> {
    if m.reads == 7 {
        let mut cx = In::new(p, Rc::new(Tls { m: m.clone() }));
        let iters = crate::parse::iterators(p, &mut cx);
        In::new(p, Rc::new(crate::parse::Parse { t: Tls { m: m.clone() }, iters, search: true, known: true, range: None }))
    } else {
        In::new(p, Rc::new(Tls { m: m.clone() }))
    }
}

pub fn check(p: &'static Prog, mode: &str, rep: &mut crate::rep::Rep) {
    let m = Mode::parse(mode);
    let mut cx = interpreter(p, &m);
    match analyse(&mut cx, &m) {
        Ok(s) => {
            rep.stat("client_states", s.states as i128);
            rep.stat("runs", s.runs as i128);
        },
        Err(e) => rep.fail("analysis", &e, ""),
    }
    for (k, n) in &cx.checks {
        rep.stat(k, *n as i128);
    }
    rep.stat("functions", cx.visited.keys().filter(|f| &*p.fns[**f].krate == "turtls").count() as i128);
    for e in cx.events.values() {
        // unimplemented parts are identified by their message
        let site = if e.msg.starts_with("not yet implemented") { "" } else { &e.site };
        rep.fail(&format!("{}:{}:{}", e.kind, site, e.msg), &format!("{} [{}]", e.msg, e.stack.join(" > ")), &e.line);
    }
}

impl Hooks for Tls {
    fn call(&self, cx: &mut In, st: &State, f: FnId, args: &[Val]) -> Option<R<Outs>> {
        let fu = &cx.p.fns[f];
        if &*fu.def == "getrandom::getrandom" {
            let r = crate::models::call(cx, st, f, args)?;
            return Some(r.map(|outs| {
                outs.into_iter()
                    .map(|(mut s, v)| {
                        if let (Val::Adt(0, _), Val::Ptr(p)) = (&v, &args[0]) {
                            let n = p.len.clone().unwrap_or(Lin::k(0));
                            if let Ok(q) = cx.bytes_at(&s, &args[0], &n) {
                                mon::draw(&mut s, &q);
                            }
                        }
                        (s, v)
                    })
                    .collect()
            }));
        }
        if &*fu.krate != "crylib" {
            return None;
        }
        if self.m.reads > 0 {
            if let Some(r) = crate::ideal::call(cx, st, f, args) {
                return Some(r);
            }
        }
        if transparent(&fu.def) {
            return None;
        }
        if let Some(r) = crylib(cx, st, f, args) {
            return Some(r);
        }
        Some(uf(cx, st, f, args))
    }
    fn tok(&self, cx: &mut In, st: &State, name: &str, args: &[Val], _ret: TyId) -> R<Outs> {
        match name {
            "read_fn" => {
                let mut st = st.clone();
                mon::read(cx, &mut st)?;
                if self.m.reads == 0 {
                    return Ok(vec![]);
                }
                let amt = args[1].lin().cloned().unwrap_or(Lin::k(0));
                let mut outs = vec![];
                let bad = cx.unknown("read_err", Some(-(1 << 63)), Some(0));
                // in the detailed modes deliveries fail between records only
                if crate::ideal::Reads::of(self.m.reads).brief || st.gk("hpos") == 0 {
                    let mut s = st.clone();
                    s.gsetk("io", mon::READ_FAILED);
                    outs.push((s, Val::Int(Lin::s(bad))));
                }
                if st.dge(&amt.addk(-1))? {
                    st.gsetk("io", mon::READ_OK);
                    outs.extend(crate::ideal::read(cx, &st, &args[0], &amt, crate::ideal::Reads::of(self.m.reads))?);
                }
                Ok(outs)
            },
            "write_fn" => {
                let mut st = st.clone();
                let amt = st.n(&args[1].lin().cloned().unwrap_or(Lin::k(0)));
                let q = cx.bytes_at(&st, &args[0], &amt)?;
                mon::write(cx, &mut st, &q, &amt)?;
                let mut outs = vec![];
                if self.m.partial_writes {
                    let bad = cx.unknown("write_err", Some(-(1 << 63)), Some(0));
                    let mut s = st.clone();
                    mon::refused(&mut s, &q);
                    outs.push((s, Val::Int(Lin::s(bad))));
                    if st.dge(&amt.addk(-2))? {
                        let n = Lin::s(cx.unknown("nwritten", Some(1), Some((1 << 63) - 1)));
                        let mut s = st.clone();
                        s.gsetk("io", mon::WRITE_OK);
                        s.facts.assume_ge(&amt.sub(&n).addk(-1));
                        mon::accepted(cx, &mut s, &q, &n, &amt)?;
                        outs.push((s, Val::Int(n)));
                    }
                }
                st.gsetk("io", mon::WRITE_OK);
                mon::accepted(cx, &mut st, &q, &amt, &amt)?;
                outs.push((st, Val::Int(amt)));
                Ok(outs)
            },
            "close_fn" => {
                let mut st = st.clone();
                mon::closing(cx, &mut st);
                Ok(vec![(st, Val::unit())])
            },
            n => Err(Fork::Oob(format!("call of unknown callback {n}"))),
        }
    }
}

/// accessors and representation changes: analysed through their bodies
fn transparent(def: &str) -> bool {
    let last = def.rsplit("::").next().unwrap_or("");
    matches!(
        last,
        "into_inner" | "deref" | "as_ref" | "x" | "y" | "new_unchecked" | "as_projective" | "clone" | "resize" | "borrow"
    )
}

/// the limbs of a number or a point coordinate
pub fn limbs(v: &Val) -> Option<Vec<Lin>> {
    match v {
        Val::Arr(a) => a.iter().map(|x| x.lin().cloned()).collect(),
        Val::Adt(0, f) if f.len() == 1 => limbs(&f[0]),
        _ => None,
    }
}

fn zero_atom(l: &[Lin]) -> Cond {
    if l.iter().all(|x| x.is_const() == Some(0)) {
        return Cond::T;
    }
    if l.iter().any(|x| x.is_const().map_or(false, |c| c != 0)) {
        return Cond::F;
    }
    Cond::Atom(term("is_zero", l.iter().map(|x| Arg::L(x.clone())).collect(), None, None))
}

/// the scalar of a point known to be a multiple of a finite point of the prime-order group
fn scalar_of(v: &Val) -> Option<Vec<Lin>> {
    let Val::Adt(_, f) = v else { return None };
    let l = limbs(&f[0])?;
    let d = def(l.first()?.single()?)?;
    if !d.op.contains("::mul_scalar") {
        return None;
    }
    let a: Vec<Val> = d.args.iter().filter_map(|a| if let Arg::V(v) = a { Some(v.clone()) } else { None }).collect();
    if a.len() != 2 || !finite(&a[0]) {
        return None;
    }
    limbs(&a[1])
}

/// a point that is a validated affine point or the (constant) base point
fn finite(v: &Val) -> bool {
    let Val::Adt(_, f) = v else { return false };
    if f.len() != 3 {
        return false;
    }
    let (Some(x), Some(z)) = (limbs(&f[0]), limbs(&f[2])) else { return false };
    if z.iter().enumerate().any(|(i, l)| l.is_const() != Some((i == 0) as Z)) {
        return false;
    }
    if x.iter().all(|l| l.is_const().is_some()) {
        return true;
    }
    match x[0].single().and_then(def) {
        Some(d) => d.op.contains("AffinePoint") && d.op.contains("::new!"),
        None => false,
    }
}

/// facts about the crypto library the analysis of its callers relies on
fn crylib(cx: &mut In, st: &State, f: FnId, args: &[Val]) -> Option<R<Outs>> {
    let p = cx.p;
    let fu = &p.fns[f];
    let d: &str = &fu.def;
    let last = d.rsplit("::").next().unwrap_or("");
    let arg = |cx: &mut In, i: usize| content(cx, st, &args[i], fu.sig.0[i], 3);
    if (d.contains("UBigInt<") || d.contains("FieldElement<")) && (last == "eq" || last == "ne") && args.len() == 2 {
        let (a, b) = match (arg(cx, 0), arg(cx, 1)) {
            (Ok(a), Ok(b)) => (a, b),
            (Err(e), _) | (_, Err(e)) => return Some(Err(e)),
        };
        let (Some(a), Some(b)) = (limbs(&a), limbs(&b)) else { return None };
        let z = |l: &[Lin]| l.iter().all(|x| x.is_const() == Some(0));
        let c = if z(&a) {
            zero_atom(&b)
        } else if z(&b) {
            zero_atom(&a)
        } else {
            return None;
        };
        return Some(Ok(vec![(st.clone(), Val::Bool(if last == "eq" { c } else { c.not() }))]));
    }
    if last == "as_affine" && args.len() == 1 {
        let v = match arg(cx, 0) {
            Ok(v) => v,
            Err(e) => return Some(Err(e)),
        };
        if let Some(k) = scalar_of(&v) {
            if st.eval(&zero_atom(&k)) == Some(false) {
                // a non-zero multiple of a finite point of a group of prime order is finite
                let (rt, _) = cx.peel(fu.sig.1);
                let TK::Adt { vs, .. } = p.ty(rt).clone() else { return None };
                let some = vs.iter().position(|v| v.fields.len() == 1)?;
                let x = build(cx, vs[some].fields[0].1, &short(&fu.name), &[Arg::V(v)], "!1.0");
                return Some(Ok(vec![(st.clone(), Val::adt(some as u32, vec![x]))]));
            }
        }
    }
    None
}

/// canonical content of an argument, references followed
pub fn content(cx: &mut In, st: &State, v: &Val, t: TyId, depth: u32) -> R<Val> {
    let (t, r) = cx.peel(t);
    match (&r, v) {
        (Rep::Ptr(e), Val::Ptr(p)) if depth > 0 => {
            let e = *e;
            let slice = if e == usize::MAX {
                None
            } else {
                match cx.p.ty(e) {
                    TK::Slice(x) => Some(*x),
                    TK::Str => Some(usize::MAX),
                    _ => None,
                }
            };
            match slice {
                Some(x) if cx.is_byteslice(x) => {
                    let n = p.len.clone().unwrap_or(Lin::k(0));
                    Ok(Val::seq(st.canon(&cx.bytes_at(st, v, &n)?)))
                },
                Some(_) => Ok(Val::Term(fresh("slice", None, None))),
                None => {
                    let l = cx.ptr_loc(v, e)?;
                    let x = cx.load(st, &l)?;
                    content(cx, st, &x, e, depth - 1)
                },
            }
        },
        (Rep::Struct(fs), Val::Adt(n, f)) if fs.len() == f.len() => {
            let mut o = vec![];
            for (x, t) in f.iter().zip(fs.iter()) {
                o.push(content(cx, st, x, *t, depth)?);
            }
            Ok(Val::adt(*n, o))
        },
        (_, Val::Bool(c)) => Ok(match st.eval(c) {
            Some(true) => Val::k(1),
            Some(false) => Val::k(0),
            None => Val::Bool(c.clone()),
        }),
        (_, Val::Undef | Val::Top) => Ok(Val::Term(fresh("unknown", None, None))),
        _ => {
            let _ = t;
            Ok(st.cval(v, 8))
        },
    }
}

/// short name of a library function: generic path without crate internals
pub fn short(d: &str) -> String {
    d.replace("crylib::", "").replace(' ', "")
}

/// a value of type `t` whose leaves are the given pure function of `args`
pub fn build(cx: &mut In, t: TyId, op: &str, args: &[Arg], path: &str) -> Val {
    let (t, r) = cx.peel(t);
    let nm = format!("{op}{path}");
    match r {
        Rep::Zst => Val::unit(),
        Rep::Bool => Val::Bool(Cond::Atom(term(&nm, args.to_vec(), None, None))),
        Rep::Byte(s) | Rep::Int(s, _) => {
            let bits = if let Rep::Int(_, b) = r { b } else { 8 };
            let (lo, hi) = if s {
                (-(1i128 << (bits.min(126) - 1)), (1i128 << (bits.min(126) - 1)) - 1)
            } else {
                (0, if bits >= 127 { i128::MAX >> 1 } else { (1i128 << bits) - 1 })
            };
            Val::Int(Lin::s(term(&nm, args.to_vec(), Some(lo), Some(hi))))
        },
        Rep::En => {
            let TK::Adt { vs, .. } = cx.p.ty(t) else { return Val::Top };
            let lo = vs.iter().map(|v| v.discr).min().unwrap();
            let hi = vs.iter().map(|v| v.discr).max().unwrap();
            Val::En(Lin::s(term(&nm, args.to_vec(), Some(lo), Some(hi))), vs.len() as u32)
        },
        Rep::Bytes(n) => Val::seq(Seq::src(term(&nm, args.to_vec(), None, None), Lin::k(n as Z))),
        Rep::Arr(e, n) if n <= 64 => Val::Arr(Rc::new(
            (0..n).map(|i| build(cx, e, op, args, &format!("{path}[{i}]"))).collect(),
        )),
        Rep::Struct(fs) => Val::adt(
            0,
            fs.iter().enumerate().map(|(i, f)| build(cx, *f, op, args, &format!("{path}.{i}"))).collect(),
        ),
        _ => Val::Term(term(&nm, args.to_vec(), None, None)),
    }
}

/// uninterpreted pure function: the result and the content behind exclusive references depend
/// only on the argument contents
pub fn uf(cx: &mut In, st: &State, f: FnId, args: &[Val]) -> R<Outs> {
    let fu = &cx.p.fns[f];
    let (tys, ret) = fu.sig.clone();
    let op = short(&fu.name);
    let mut av = vec![];
    for (v, t) in args.iter().zip(tys.iter()) {
        let c = content(cx, st, v, *t, 3)?;
        av.push(match c {
            Val::Int(l) => Arg::L(l),
            Val::Seq(q) => Arg::Q(q),
            v => Arg::V(v),
        });
    }
    let mut s = st.clone();
    // new content behind &mut
    for (i, (v, t)) in args.iter().zip(tys.iter()).enumerate() {
        let (t, _) = cx.peel(*t);
        if let (TK::Ref(e, true) | TK::Ptr(e, true), Val::Ptr(p)) = (cx.p.ty(t).clone(), v) {
            let nm = format!("{op}#{i}");
            match cx.p.ty(e).clone() {
                TK::Slice(_) => {
                    let n = s.n(&p.len.clone().unwrap_or(Lin::k(0)));
                    let q = Seq::src(term(&nm, av.clone(), None, None), n);
                    cx.set_bytes(&mut s, v, &q)?;
                },
                _ => {
                    let x = build(cx, e, &nm, &av, "");
                    let l = cx.ptr_loc(v, e)?;
                    cx.store(&mut s, &l, x)?;
                },
            }
        }
    }
    let (rt, rep) = cx.peel(ret);
    if let (Rep::Enum, TK::Adt { vs, .. }) = (&rep, cx.p.ty(rt).clone()) {
        if vs.len() == 2 {
            // Option / Result
            let atom = term(&format!("{op}?"), av.clone(), None, None);
            let b = s.decide(&Cond::Atom(atom))?;
            let good = if vs[1].fields.is_empty() || vs[0].fields.is_empty() && vs[1].fields.len() == 1 {
                // Option: Some is the variant with a field
                if vs[1].fields.len() == 1 { 1 } else { 0 }
            } else {
                0
            };
            let k = if b { good } else { 1 - good };
            let fs = vs[k].fields.iter().map(|x| x.1).collect::<Vec<_>>();
            let v = fs
                .iter()
                .enumerate()
                .map(|(i, t)| build(cx, *t, &op, &av, &format!("!{k}.{i}")))
                .collect();
            return Ok(vec![(s, Val::adt(k as u32, v))]);
        }
    }
    if let Rep::Ptr(_) = rep {
        // returns a reference into its arguments: analyse the body
        let outs = cx.run(st.clone(), f, args.to_vec());
        return Ok(outs);
    }
    let v = build(cx, ret, &op, &av, "");
    Ok(vec![(s, v)])
}

pub struct Api {
    pub new: FnId,
    pub free: FnId,
    pub connect: FnId,
    pub close: FnId,
    pub error: FnId,
    pub alert: FnId,
    pub config: FnId,
    pub proto: FnId,
}

pub fn api(p: &Prog) -> Result<Api, String> {
    let f = |n: &str| {
        p.fns
            .iter()
            .position(|f| f.def.rsplit("::").next() == Some(n) && &*f.krate == "turtls")
            .ok_or(format!("exported function {n} not found"))
    };
    Ok(Api {
        new: f("turtls_new")?,
        free: f("turtls_free")?,
        connect: f("turtls_connect")?,
        close: f("turtls_close")?,
        error: f("turtls_get_error")?,
        alert: f("turtls_get_tls_error")?,
        config: f("turtls_get_config")?,
        proto: f("turtls_app_proto")?,
    })
}

fn io_value(cx: &mut In, t: TyId) -> Val {
    let TK::Adt { vs, .. } = cx.p.ty(t).clone() else { return Val::Top };
    let mut v = vec![];
    for (n, ft) in &vs[0].fields {
        v.push(match cx.peel(*ft).1 {
            Rep::FnPtr => Val::Tok(n.clone().into()),
            Rep::Ptr(_) => Val::Addr(Lin::s(fresh("ctx", Some(0), None))),
            _ => cx.havoc(*ft, "io"),
        });
    }
    Val::adt(0, v)
}

/// Configuration number `c`: bits 0-1 the cipher suites, 2 the group, 3 the signature algorithm,
/// 4 a server name, 5 application protocols (a null list with an arbitrary length otherwise), 6 any
/// flags the library does not know, 7 an empty protocol list; 8-23 the length of the server name, 24 and
/// up that of the protocol list (arbitrary if zero).
fn set_config(cx: &mut In, st: &State, cfg: &Val, t: TyId, c: u64) -> Result<State, String> {
    let Val::Ptr(p) = cfg else { return Err("the configuration accessor returns no pointer".into()) };
    let mut s = st.clone();
    s.gsetk("c_suites", (c & 3) as Z);
    s.gsetk("c_groups", (c >> 2 & 1) as Z);
    s.gsetk("c_sigs", (c >> 3 & 1) as Z);
    s.gsetk("c_named", (c >> 4 & 1) as Z);
    s.gsetk("c_alpn", (c >> 5 & 1) as Z);
    s.gset("c_name", Val::seq(Seq::empty()));
    s.gset("c_protos", Val::seq(Seq::empty()));
    let v = cfg_val(cx, &mut s, t, c)?;
    cx.poke(&mut s, p.obj, &p.path, v);
    Ok(s)
}

fn cfg_val(cx: &mut In, s: &mut State, t: TyId, c: u64) -> Result<Val, String> {
    let (t, r) = cx.peel(t);
    let Rep::Struct(_) = r else { return Err("the configuration is not a structure".into()) };
    let TK::Adt { vs, .. } = cx.p.ty(t).clone() else { return Err("the configuration is not a structure".into()) };
    let flags = |k: u64, bits: u32, max: Z| -> Val {
        let k = (k & ((1 << bits) - 1)) as Z;
        if c >> 6 & 1 == 0 {
            return Val::k(k);
        }
        let h = Lin::s(term("unknown_flags", vec![Arg::L(Lin::k(max))], Some(0), Some(((max + 1) >> bits) - 1)));
        Val::Int(h.mul(1 << bits).addk(k))
    };
    let heap = |s: &mut State, q: Seq| {
        let ob = s.alloc(Val::seq(q));
        Val::Ptr(Rc::new(Ptr { obj: ob, path: vec![], off: Some(Lin::k(0)), len: None }))
    };
    let plen =
        if c >> 24 != 0 { Lin::k((c >> 24) as Z) } else { Lin::s(term("protos_len", vec![], Some(1), Some((1 << 62) - 1))) };
    let mut o = vec![];
    let mut known = 0;
    for (n, ft) in &vs[0].fields {
        let r = cx.peel(*ft).1;
        known += 1;
        o.push(match &**n {
            "server_name" if c >> 4 & 1 == 1 => {
                let n = if c >> 8 & 0xffff != 0 { Lin::k((c >> 8 & 0xffff) as Z) } else { Lin::s(term("name_len", vec![], Some(1), Some((1 << 62) - 1))) };
                let seg = Seg::S { src: term("server_name", vec![Arg::L(Lin::k(c as Z))], None, None), off: Lin::k(0), len: n };
                s.gset("c_name", Val::seq(Seq(vec![seg.clone()])));
                heap(s, Seq(vec![seg, Seg::C(vec![0].into())]))
            },
            "app_protos" if c >> 5 & 1 == 1 => {
                let q = Seq::src(term("app_protos", vec![Arg::L(Lin::k(c as Z))], None, None), plen.clone());
                s.gset("c_protos", Val::seq(q.clone()));
                heap(s, q)
            },
            "app_protos" if c >> 7 & 1 == 1 => heap(s, Seq::empty()),
            "server_name" | "app_protos" => Val::Addr(Lin::k(0)),
            "app_protos_len" if c >> 5 & 1 == 1 => Val::Int(plen.clone()),
            "app_protos_len" if c >> 7 & 1 == 1 => Val::k(0),
            "app_protos_len" => Val::Int(Lin::s(fresh("no_protos_len", Some(0), Some(u64::MAX as Z)))),
            "sup_groups" => flags(c >> 2, 1, 0xffff),
            "sig_algs" => flags(c >> 3, 1, 0xffff),
            "cipher_suites" => flags(c, 2, 0xff),
            _ if matches!(r, Rep::Struct(_)) => {
                known -= 1;
                cfg_val(cx, s, *ft, c)?
            },
            n => return Err(format!("configuration field {n} is not known")),
        });
    }
    let _ = known;
    Ok(Val::adt(0, o))
}

const KEPT: u64 = 8;

/// `v` where it is as on a new object (`i`), anything elsewhere
fn forget(cx: &mut In, st: &State, v: &Val, i: &Val, t: TyId) -> Val {
    if v == i {
        return v.clone();
    }
    let (t, r) = cx.peel(t);
    match (r, v) {
        (_, Val::Term(_)) => Val::Term(fresh("earlier", None, None)),
        (Rep::Struct(fs), Val::Adt(_, w)) if fs.len() == w.len() => {
            let none = vec![];
            let o = match i {
                Val::Adt(_, o) => o,
                _ => &none,
            };
            let w = fs.iter().enumerate().map(|(k, f)| forget(cx, st, &w[k], o.get(k).unwrap_or(&Val::Undef), *f)).collect();
            Val::adt(0, w)
        },
        (Rep::Enum, Val::Adt(n, w)) => {
            let TK::Adt { vs, .. } = cx.p.ty(t).clone() else { return v.clone() };
            let Some(x) = vs.get(*n as usize).filter(|x| x.fields.len() == w.len()) else { return v.clone() };
            let none = vec![];
            let o = match i {
                Val::Adt(m, o) if m == n => o,
                _ => &none,
            };
            let w =
                x.fields.iter().enumerate().map(|(k, f)| forget(cx, st, &w[k], o.get(k).unwrap_or(&Val::Undef), f.1)).collect();
            Val::adt(*n, w)
        },
        // of a buffer only the constants at its beginning
        (Rep::Bytes(n), Val::Seq(q)) if n > KEPT => {
            let mut o = vec![];
            for k in 0..KEPT {
                let c = match st.seq_slice(q, &Lin::k(k as Z), &Lin::k(1)).map(|x| x.0) {
                    Ok(x) => match &x[..] {
                        [Seg::C(c)] => Some(c.clone()),
                        _ => None,
                    },
                    _ => None,
                };
                o.push(match c {
                    Some(c) => Seg::C(c),
                    None => Seg::B(Lin::s(fresh("earlier", Some(0), Some(255)))),
                });
            }
            o.push(Seg::S { src: fresh("earlier", None, None), off: Lin::k(0), len: Lin::k((n - KEPT) as Z) });
            Val::seq(Seq(o))
        },
        (Rep::Int(..) | Rep::Byte(_) | Rep::Bool | Rep::En | Rep::Bytes(_), _) => cx.havoc(t, "earlier"),
        (Rep::Arr(e, _), Val::Arr(w)) => {
            let none = vec![];
            let o = match i {
                Val::Arr(o) => o,
                _ => &none,
            };
            let w = w.iter().enumerate().map(|(k, x)| forget(cx, st, x, o.get(k).unwrap_or(&Val::Undef), e)).collect();
            Val::Arr(Rc::new(w))
        },
        _ => v.clone(),
    }
}

pub struct Summary {
    pub states: usize,
    pub runs: usize,
}

pub fn analyse(cx: &mut In, m: &Mode) -> Result<Summary, String> {
    crate::join::FINE.store(m.reads > 0, std::sync::atomic::Ordering::Relaxed);
    let a = api(cx.p)?;
    let iot = cx.p.fns[a.new].sig.0[0];
    let io = io_value(cx, iot);
    let cfgt = match cx.p.ty(cx.p.fns[a.config].sig.1).clone() {
        TK::Ptr(t, _) => t,
        _ => return Err("configuration accessor does not return a pointer".into()),
    };
    let mut st = State::new();
    st.gsetk("phase", 2);
    mon::reset(&mut st);
    let init = cx.run(st, a.new, vec![io]);
    let mut map: BTreeMap<u64, (State, u32)> = BTreeMap::new();
    let mut work: Vec<u64> = vec![];
    let mut incoming: Vec<State> = vec![];
    // the object as it is made, and its type
    let mut fresh_obj = None;
    for (mut s, v) in init {
        if let (Val::Ptr(p), TK::Ptr(t, _)) = (&v, cx.p.ty(cx.p.fns[a.new].sig.1).clone()) {
            fresh_obj = s.mem.get(&p.obj).map(|o| (p.obj, t, (**o).clone()));
        }
        s.gset("conn", v);
        s.gsetk("again", 0);
        s.gsetk("used", 0);
        incoming.push(s);
    }
    let mut runs = 0;
    loop {
        for mut s in std::mem::take(&mut incoming) {
            // idle after a connection with incoming data: only what is as on a new object is known
            if let (true, 0, true, Some((o, t, init))) = (m.reuse && m.reads > 0, s.gk("phase"), s.gk("used") != 0, &fresh_obj) {
                if let Some(v) = s.mem.get(o).cloned() {
                    let v = forget(cx, &s, &v, init, *t);
                    Rc::make_mut(&mut s.mem).insert(*o, Rc::new(v));
                }
                s.gsetk("again", 1);
                s.gsetk("used", 0);
                s.gsetk("phase", 2);
                s.gc();
            }
            let (mut k, s) = join::canon(cx, s);
            if m.reads > 0 && s.gk("phase") == 1 {
                k ^= join::ghost_key(&s);
            }
            match map.get(&k) {
                None => {
                    if let Ok(d) = std::env::var("AI_DUMP") {
                        let _ = std::fs::write(format!("{d}/{k:x}.0"), s.show(3));
                    }
                    map.insert(k, (s, 0));
                    work.push(k);
                },
                Some((h, n)) => {
                    let n = *n;
                    if let Some(j) = join::widen(cx, h, &s, n) {
                        if n > 30 {
                            return Err("client analysis did not converge".into());
                        }
                        if let Ok(d) = std::env::var("AI_DUMP") {
                            let _ = std::fs::write(format!("{d}/{k:x}.{}.in", n + 1), s.show(3));
                            let _ = std::fs::write(format!("{d}/{k:x}.{}", n + 1), j.show(3));
                        }
                        map.insert(k, (j, n + 1));
                        if !work.contains(&k) {
                            work.push(k);
                        }
                    }
                },
            }
        }
        if work.is_empty() {
            break;
        }
        let k = work.remove(0);
        let s0 = map[&k].0.clone();
        runs += 1;
        let t0 = std::time::Instant::now();
        let conn = s0.g("conn");
        // phase 2: a new object, not configured yet; 0: idle; 1: connecting
        let phase = s0.gk("phase");
        if phase != 1 {
            for (mut s, cfg) in cx.run(s0.clone(), a.config, vec![conn.clone()]) {
                s.gsetk("phase", 0);
                for c in &m.cfgs {
                    incoming.push(set_config(cx, &s, &cfg, cfgt, *c)?);
                }
            }
        }
        if phase != 2 {
            for (s, r) in cx.run(s0.clone(), a.connect, vec![conn.clone()]) {
                for (s, e) in cx.run(s, a.error, vec![conn.clone()]) {
                    for (s, al) in cx.run(s, a.alert, vec![conn.clone()]) {
                        let et = cx.p.fns[a.error].sig.1;
                        let at = cx.p.fns[a.alert].sig.1;
                        let before = (s.gk("msgs"), s.gk("alpn"), s.gseq("alpn_name"));
                        let mut s = mon::connected(cx, s, &r, (e.clone(), et), (al, at));
                        if m.reads > 0 {
                            for (s, p) in cx.run(s.clone(), a.proto, vec![conn.clone()]) {
                                mon::protocol(cx, &s, &p, &before);
                            }
                        }
                        let ph = if s.gk("open") != 0 { 1 } else { 0 };
                        s.gsetk("phase", ph);
                        s.gsetk("used", 1);
                        if m.reuse || ph != 0 {
                            incoming.push(s);
                        }
                    }
                }
            }
        }
        if m.reuse {
            for (s, _r) in cx.run(s0.clone(), a.close, vec![conn.clone()]) {
                let mut s = mon::closed(cx, &s0, s);
                if phase != 2 {
                    s.gsetk("phase", 0);
                    s.gsetk("used", phase);
                }
                incoming.push(s);
            }
            let _ = cx.run(s0.clone(), a.free, vec![conn.clone()]);
        }
        if std::env::var("AI_TIME").is_ok() {
            eprintln!("run {runs} {k:x}.{}: {:?}, {} states, {} incoming, {} nodes", map[&k].1, t0.elapsed(), map.len(), incoming.len(), node_count());
        }
        if cx.expired {
            return Err("the time for the analysis is up".into());
        }
        if runs > 500 {
            return Err("too many client states".into());
        }
    }
    Ok(Summary { states: map.len(), runs })
}
