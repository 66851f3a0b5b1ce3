//! Panic-freedom of the certificate parsers on arbitrary input. The functions of the certificate
//! modules that the rest of the library calls, and the caller that hands them the message, are analysed
//! on arbitrary byte strings of arbitrary length; iterators over a byte string are analysed by
//! themselves and are represented by an arbitrary result where they are used.
use crate::interp::*;
use crate::prog::*;
use crate::state::*;
use crate::term::*;
use std::collections::BTreeSet;
use std::rc::Rc;

const LONGEST: Z = 0x20000;

pub struct Parse {
    pub t: crate::tls::Tls,
    /// `next` functions that are analysed by themselves
    pub iters: BTreeSet<FnId>,
    /// searches through byte strings have an arbitrary result
    pub search: bool,
    /// iterators over slices of known length are not represented by an arbitrary result
    pub known: bool,
    /// which range check of a number fails
    pub range: Option<usize>,
}

thread_local! {
    /// range checks met, numbers made into field elements without one
    static CHECKS: std::cell::RefCell<(Vec<String>, usize)> = const { std::cell::RefCell::new((vec![], 0)) };
}

impl Hooks for Parse {
    fn call(&self, cx: &mut In, st: &State, f: FnId, args: &[Val]) -> Option<R<Outs>> {
        if self.iters.contains(&f) && !cx.stack.is_empty() && !(self.known && self.exact(cx, st, f, args)) {
            return Some(self.next(cx, st, f, args));
        }
        let d = &cx.p.fns[f].def;
        if self.range.is_some() && d.contains("FieldElement") && &*cx.p.fns[f].krate != "turtls" {
            match d.rsplit("::").next().unwrap_or("") {
                "try_new" | "try_from" => {
                    let a = format!("{:?}", crate::tls::content(cx, st, &args[0], cx.p.fns[f].sig.0[0], 3).ok());
                    let n = CHECKS.with_borrow_mut(|c| {
                        c.0.iter().position(|b| *b == a).unwrap_or_else(|| {
                            c.0.push(a);
                            c.0.len() - 1
                        })
                    });
                    let t = cx.p.fns[f].sig.1;
                    if self.range == Some(n) {
                        if let TK::Adt { vs, .. } = cx.p.ty(t).clone() {
                            let k = if vs[0].fields.is_empty() { 0 } else { 1 };
                            let v = vs[k].fields.iter().map(|x| cx.havoc(x.1, "number")).collect();
                            return Some(Ok(vec![(st.clone(), Val::adt(k as u32, v))]));
                        }
                    }
                },
                "new" | "new_unchecked" => CHECKS.with_borrow_mut(|c| c.1 += 1),
                _ => {},
            }
        }
        if self.search && (d.ends_with("::Iterator>::any") || d.ends_with("::Iterator>::all")) {
            // the closure runs on arbitrary elements, the result is arbitrary
            if let Some(r) = self.search(cx, st, f) {
                return Some(r);
            }
        }
        self.t.call(cx, st, f, args)
    }
    fn tok(&self, cx: &mut In, st: &State, n: &str, a: &[Val], t: TyId) -> R<Outs> {
        self.t.tok(cx, st, n, a, t)
    }
}

impl Parse {
    fn next(&self, cx: &mut In, st: &State, f: FnId, args: &[Val]) -> R<Outs> {
        let mut st = st.clone();
        let (ins, out) = cx.p.fns[f].sig.clone();
        let me = cx.pointee(ins[0]).unwrap();
        let v = arbitrary(cx, &mut st, me).unwrap_or(Val::Top);
        let l = cx.ptr_loc(&args[0], me)?;
        cx.store(&mut st, &l, v)?;
        let item = item(cx, out).unwrap();
        let mut outs = vec![];
        for i in 0..8 {
            let mut s = st.clone();
            match variant(cx, &mut s, item, i) {
                Some(v) => outs.push((s, Val::adt(1, vec![v]))),
                None => break,
            }
        }
        outs.push((st, Val::adt(0, vec![])));
        Ok(outs)
    }

    /// the lengths of the slices in an iterator are known
    fn exact(&self, cx: &mut In, st: &State, f: FnId, args: &[Val]) -> bool {
        let me = match cx.pointee(cx.p.fns[f].sig.0[0]) {
            Some(t) => t,
            None => return false,
        };
        let Ok(l) = cx.ptr_loc(&args[0], me) else { return false };
        let Ok(v) = cx.load(st, &l) else { return false };
        fn all(st: &State, v: &Val) -> bool {
            match v {
                Val::Ptr(p) => p.len.as_ref().map_or(false, |l| st.n(l).is_const().is_some()),
                Val::Adt(_, f) => f.iter().all(|v| all(st, v)),
                _ => true,
            }
        }
        all(st, &v)
    }
}

impl Parse {
    fn search(&self, cx: &mut In, st: &State, f: FnId) -> Option<R<Outs>> {
        let TArg::T(clo) = cx.p.fns[f].args.iter().rev().find(|a| matches!(a, TArg::T(_)))?.clone() else { return None };
        let TK::Closure(_, up, Some(body)) = cx.p.ty(clo).clone() else { return None };
        if !up.is_empty() {
            return None;
        }
        let mut st = st.clone();
        let mut a = vec![];
        for t in cx.p.fns[body].body.as_ref()?.locals[1..].iter().take(2) {
            let (_, r) = cx.peel(*t);
            a.push(match r {
                Rep::Ptr(e) => match cx.peel(e).1 {
                    Rep::Byte(_) => {
                        let q = Seq::src(cx.unknown("element", None, None), Lin::k(1));
                        let o = st.alloc(Val::seq(q));
                        Val::Ptr(Rc::new(Ptr { obj: o, path: vec![], off: Some(Lin::k(0)), len: None }))
                    },
                    Rep::Zst => {
                        let o = st.alloc(Val::unit());
                        Val::Ptr(Rc::new(Ptr { obj: o, path: vec![], off: None, len: None }))
                    },
                    _ => return None,
                },
                Rep::Byte(_) => cx.havoc(*t, "element"),
                Rep::Zst => Val::unit(),
                _ => return None,
            });
        }
        cx.run(st.clone(), body, a);
        let b = cx.unknown("found", None, None);
        Some(Ok(vec![(st, Val::Bool(Cond::Atom(b)))]))
    }
}

/// T of Option<T>
fn item(cx: &mut In, t: TyId) -> Option<TyId> {
    match cx.p.ty(t) {
        TK::Adt { def, vs, .. } if &**def == "std::option::Option" => vs[1].fields.first().map(|x| x.1),
        _ => None,
    }
}

/// an arbitrary value of a type made of byte slices and integers; only such values have no invariant
/// that the parsers could rely on
pub fn arbitrary(cx: &mut In, st: &mut State, t: TyId) -> Option<Val> {
    let (t, r) = cx.peel(t);
    Some(match r {
        Rep::Ptr(e) => {
            let v = match cx.peel(e).1 {
                Rep::Slice(b) if cx.is_byteslice(b) => {
                    let n = Lin::s(cx.unknown("len", Some(0), Some(LONGEST)));
                    let q = Seq::src(cx.unknown("data", None, None), n.clone());
                    let o = st.alloc(Val::seq(q));
                    Ptr { obj: o, path: vec![], off: Some(Lin::k(0)), len: Some(n) }
                },
                _ => {
                    let v = arbitrary(cx, st, e)?;
                    let o = st.alloc(v);
                    Ptr { obj: o, path: vec![], off: None, len: None }
                },
            };
            Val::Ptr(Rc::new(v))
        },
        Rep::Struct(fs) => {
            let mut v = vec![];
            for f in fs {
                v.push(arbitrary(cx, st, f)?);
            }
            Val::adt(0, v)
        },
        Rep::Byte(_) | Rep::Bytes(_) | Rep::Bool => cx.havoc(t, "any"),
        Rep::Zst => Val::unit(),
        _ => return None,
    })
}

/// an arbitrary value; one for every variant of an enum
fn variant(cx: &mut In, st: &mut State, t: TyId, i: usize) -> Option<Val> {
    let (t, r) = cx.peel(t);
    match (r, cx.p.ty(t).clone()) {
        (Rep::Enum, TK::Adt { vs, .. }) => {
            let mut v = vec![];
            for f in &vs.get(i)?.fields {
                v.push(match cx.peel(f.1).1 {
                    Rep::En => cx.havoc(f.1, "any"),
                    _ => arbitrary(cx, st, f.1)?,
                });
            }
            Some(Val::adt(i as u32, v))
        },
        _ if i == 0 => arbitrary(cx, st, t),
        _ => None,
    }
}

/// only slices: every value of the type is possible
fn slices(cx: &mut In, t: TyId) -> bool {
    let (_, r) = cx.peel(t);
    match r {
        Rep::Ptr(e) => matches!(cx.peel(e).1, Rep::Slice(b) if cx.is_byteslice(b)),
        Rep::Struct(fs) => fs.iter().all(|f| slices(cx, *f)),
        Rep::Zst => true,
        _ => false,
    }
}

fn calls(p: &Prog, f: FnId) -> Vec<FnId> {
    let mut v = vec![];
    if let Some(b) = &p.fns[f].body {
        for k in &b.blocks {
            if let Tm::Call(Callee::I(g), ..) = k.tm {
                v.push(g);
            }
        }
    }
    v
}

/// iterators of the library over a byte string
pub fn iterators(p: &'static Prog, cx: &mut In) -> BTreeSet<FnId> {
    let mut iters = BTreeSet::new();
    for f in 0..p.fns.len() {
        let fu = &p.fns[f];
        if &*fu.krate != "turtls" || fu.body.is_none() {
            continue;
        }
        let (ins, out) = fu.sig.clone();
        if fu.name.ends_with("::next") && ins.len() == 1 && item(cx, out).is_some() {
            let me = cx.pointee(ins[0]).unwrap_or(ins[0]);
            let it = item(cx, out).unwrap();
            let mut st = State::new();
            if slices(cx, me) && variant(cx, &mut st, it, 0).is_some() {
                iters.insert(f);
            }
        }
    }
    iters
}

pub fn check(p: &'static Prog, rep: &mut crate::rep::Rep) {
    let cert = |f: FnId| {
        let f = &p.fns[f];
        &*f.krate == "turtls" && p.file(f.span.0).contains("certificates")
    };
    let parse = |iters| Parse {
        t: crate::tls::Tls { m: crate::tls::Mode::parse("010") },
        iters,
        search: true,
        known: false,
        range: None,
    };
    let mut cx = In::new(p, Rc::new(parse(BTreeSet::new())));
    let iters = iterators(p, &mut cx);
    let mut roots = iters.clone();
    for f in 0..p.fns.len() {
        let fu = &p.fns[f];
        if &*fu.krate != "turtls" || fu.body.is_none() || cert(f) {
            continue;
        }
        let g: Vec<FnId> = calls(p, f).into_iter().filter(|g| cert(*g)).collect();
        let mut st = State::new();
        let ok = |cx: &mut In, st: &mut State, f: FnId| p.fns[f].sig.0.iter().all(|t| arbitrary(cx, st, *t).is_some());
        if g.is_empty() {
            continue;
        }
        // the caller itself if it takes a message, otherwise what it calls
        if ok(&mut cx, &mut st, f) {
            roots.insert(f);
        } else {
            for h in g {
                if ok(&mut cx, &mut st, h) && !p.fns[h].sig.0.is_empty() {
                    roots.insert(h);
                }
            }
        }
    }
    for f in roots.iter() {
        // an iterator is not represented by itself in its own analysis
        let mut cx = In::new(p, Rc::new(parse(iters.clone())));
        let mut st = State::new();
        let args: Vec<Val> = p.fns[*f].sig.0.iter().map(|t| arbitrary(&mut cx, &mut st, *t).unwrap()).collect();
        let outs = cx.run(st, *f, args);
        rep.stat("outcomes", outs.len() as i128);
        for (k, n) in &cx.checks {
            rep.stat(k, *n as i128);
        }
        rep.stat("functions", cx.visited.keys().filter(|f| &*p.fns[**f].krate == "turtls").count() as i128);
        let name = &p.fns[*f].def;
        rep.ob(&format!("parser:{name}"), !outs.is_empty() || !cx.events.is_empty(), &format!("{name} never returns"), &p.site(*f));
        for e in cx.events.values() {
            rep.fail(
                &format!("{}:{}:{}", e.kind, e.site, e.msg),
                &format!("{} on arbitrary input [{}]", e.msg, e.stack.join(" > ")),
                &e.line,
            );
        }
        if cx.expired {
            rep.fail("analysis", "the time for the analysis is up", "");
        }
    }
    rep.stat("parsers", roots.len() as i128);
}

// ------------------------------------------------------------ what the parsers return

use crate::ideal::{be, cat, other, raw};

fn src(cx: &mut In, n: Lin) -> Seq {
    Seq::src(cx.unknown("content", None, None), n)
}

/// fields of the item of an iterator: (tag, data, extensions)
fn fields(cx: &mut In, t: TyId) -> Option<[Option<usize>; 3]> {
    let TK::Adt { vs, .. } = cx.p.ty(t).clone() else { return None };
    let mut o = [None; 3];
    for (i, (n, t)) in vs[0].fields.iter().enumerate() {
        match (&**n, cx.peel(*t).1) {
            ("tag", Rep::Byte(false)) => o[0] = Some(i),
            ("data", Rep::Ptr(_)) => o[1] = Some(i),
            ("extensions", Rep::Ptr(_)) => o[2] = Some(i),
            _ => {},
        }
    }
    Some(o)
}

struct Case {
    st: State,
    input: Seq,
    /// tag, data, extensions, rest; None: nothing may be returned
    want: Option<(Lin, Seq, Seq, Seq)>,
    note: String,
}

fn slice(st: &mut State, q: &Seq) -> Val {
    let n = st.n(&q.len());
    let o = st.alloc(Val::seq(q.clone()));
    Val::Ptr(Rc::new(Ptr { obj: o, path: vec![], off: Some(Lin::k(0)), len: Some(n) }))
}

fn bytes(cx: &mut In, st: &State, v: &Val) -> Option<Seq> {
    let Val::Ptr(p) = v else { return None };
    cx.bytes_at(st, v, &p.len.clone()?).ok()
}

const LENS: &[Z] = &[0, 1, 2, 127, 128, 200, 255, 256, 257, 300, 0x1234, 0xffff, 0x10000, 0x10203];

fn der_cases(cx: &mut In) -> Vec<Case> {
    let mut v = vec![];
    let tag = |cx: &mut In, st: &mut State| {
        // a single-byte tag
        let t = Lin::s(cx.unknown("tag", Some(0), Some(254)));
        for k in (0x1f..0xff).step_by(0x20) {
            st.facts.assume_ne(&t.addk(-k));
        }
        t
    };
    // the length forms, with data behind the element
    for form in 0..5u32 {
        for l in LENS {
            if form == 0 && *l > 127 || form > 0 && *l >= 1 << (8 * form).min(40) {
                continue;
            }
            let head = if form == 0 { be(*l, 1) } else { cat(&State::new(), &[raw(&[0x80 + form as u8]), be(*l, form)]) };
            let mut st = State::new();
            let t = tag(cx, &mut st);
            let body = src(cx, Lin::k(*l));
            let rest = src(cx, Lin::k(1000));
            let tb = st.encode(&t, 1, true);
            let input = cat(&st, &[tb.clone(), head.clone(), body.clone(), rest.clone()]);
            v.push(Case {
                st: st.clone(),
                input,
                want: Some((t.clone(), body, Seq::empty(), rest)),
                note: format!("an element of {l} bytes with a length of {} bytes", form.max(1)),
            });
            // nothing behind it, and one byte missing
            if *l > 0 {
                let body = src(cx, Lin::k(*l));
                let input = cat(&st, &[tb.clone(), head.clone(), body.clone()]);
                v.push(Case {
                    st: st.clone(),
                    input,
                    want: Some((t.clone(), body, Seq::empty(), Seq::empty())),
                    note: format!("a last element of {l} bytes with a length of {} bytes", form.max(1)),
                });
                let body = src(cx, Lin::k(*l - 1));
                let input = cat(&st, &[tb.clone(), head.clone(), body]);
                v.push(Case { st: st.clone(), input, want: None, note: format!("an element of {l} bytes of which one is missing") });
            }
        }
    }
    // any short length
    let mut st = State::new();
    let t = tag(cx, &mut st);
    let l = Lin::s(cx.unknown("len", Some(0), Some(127)));
    let body = src(cx, l.clone());
    let n = Lin::s(cx.unknown("rest", Some(0), Some(LONGEST)));
    let rest = src(cx, n);
    let input = cat(&st, &[st.encode(&t, 1, true), st.encode(&l, 1, true), body.clone(), rest.clone()]);
    v.push(Case { st, input, want: Some((t, body, Seq::empty(), rest)), note: "an element of any length up to 127".into() });
    // truncated headers and tags of several bytes
    for h in [&[][..], &[0x30], &[0x30, 0x81], &[0x30, 0x82, 1], &[0x30, 0x84, 0, 0, 0], &[0x30, 0x84, 0xff, 0xff, 0xff, 0xff], &[0x1f, 1, 0], &[0xbf, 1, 0], &[0x30, 0x82, 0xff, 0xff, 0]] {
        v.push(Case { st: State::new(), input: raw(h), want: None, note: format!("the bytes {h:02x?}") });
    }
    v
}

fn entry_cases(cx: &mut In) -> Vec<Case> {
    let mut v = vec![];
    for l in LENS {
        for e in [0, 1, 255, 256, 0x1234] {
            let st = State::new();
            let (d, x, rest) = (src(cx, Lin::k(*l)), src(cx, Lin::k(e)), src(cx, Lin::k(77)));
            let input = cat(&st, &[be(*l, 3), d.clone(), be(e, 2), x.clone(), rest.clone()]);
            v.push(Case { st: st.clone(), input, want: Some((Lin::k(0), d, x, rest)), note: format!("an entry of {l} and {e} bytes") });
            let (d, x) = (src(cx, Lin::k(*l)), src(cx, Lin::k(e)));
            let input = cat(&st, &[be(*l, 3), d.clone(), be(e, 2), x.clone()]);
            v.push(Case { st: st.clone(), input, want: Some((Lin::k(0), d.clone(), x, Seq::empty())), note: format!("a last entry of {l} and {e} bytes") });
            if e > 0 {
                let x = src(cx, Lin::k(e - 1));
                let input = cat(&st, &[be(*l, 3), d.clone(), be(e, 2), x]);
                v.push(Case { st: st.clone(), input, want: None, note: format!("an entry of {l} and {e} bytes of which one is missing") });
            }
        }
        let st = State::new();
        let input = cat(&st, &[be(*l, 3), src(cx, Lin::k(*l)), raw(&[0])]);
        v.push(Case { st, input, want: None, note: format!("an entry of {l} bytes with half a length of its extensions") });
    }
    v
}

fn der(tag: Z, parts: &[Seq]) -> Seq {
    let st = State::new();
    let body = cat(&st, parts);
    let n = body.len().is_const().unwrap_or(0);
    let head = match n {
        0..=127 => be(n, 1),
        128..=255 => cat(&st, &[raw(&[0x81]), be(n, 1)]),
        _ => cat(&st, &[raw(&[0x82]), be(n, 2)]),
    };
    cat(&st, &[be(tag, 1), head, body])
}

const OID: &[u8] = &[0x2a, 0x86, 0x48, 0xce, 0x3d, 4, 3, 2];

/// the parts of a certificate that the parser looks at
#[derive(Clone)]
struct Cert {
    outer: Seq,
}

fn cert(cx: &mut In, st: &mut State, what: &str) -> Cert {
    let w = |s: &str| what == s;
    let mut other_tag = |s: &str, t: Z| -> Seq {
        if what == s {
            // another universal tag of one byte
            let l = other(cx, st, "tag", &[t, 0x1f, 0x3f, 0x5f, 0x7f, 0x9f, 0xbf, 0xdf, 0xff, 0xa0]);
            st.encode(&l, 1, true)
        } else {
            be(t, 1)
        }
    };
    let retag = |tag: Seq, q: Seq| -> Seq {
        // replaces the tag of an element
        let n = q.len().addk(-1);
        let body = State::new().seq_sub(&q, &Lin::k(1), &n).unwrap();
        cat(&State::new(), &[tag, body])
    };
    let t_outer = other_tag("the certificate is not a SEQUENCE", 0x30);
    let t_tbs = other_tag("the body is not a SEQUENCE", 0x30);
    let t_alg = other_tag("the algorithm is not a SEQUENCE", 0x30);
    let t_oid = other_tag("the algorithm is not named by an OBJECT IDENTIFIER", 6);
    let t_sig = other_tag("the signature is not a BIT STRING", 3);
    let t_seq = other_tag("the signature does not hold a SEQUENCE", 0x30);
    let t_r = other_tag("r is not an INTEGER", 2);
    let t_s = other_tag("s is not an INTEGER", 2);
    let t_ver = other_tag("the version is not an INTEGER", 2);
    let t_val = other_tag("the validity is not a SEQUENCE", 0x30);
    let int = |cx: &mut In, st: &mut State, bad: bool, empty: bool, long: bool| -> Seq {
        if empty {
            return raw(&[]);
        }
        // 0x00 and 32 bytes, or 32 bytes that do not start with a set bit
        let b = Lin::s(cx.unknown("first", Some(if bad { 0x80 } else { 1 }), Some(if bad { 0xff } else { 0x7f })));
        let q = cat(st, &[st.encode(&b, 1, true), src(cx, Lin::k(if long { 32 } else { 31 }))]);
        q
    };
    let r = int(cx, st, w("r is negative"), w("r is empty"), w("r is longer than 256 bits"));
    let s = int(cx, st, w("s is negative"), w("s is empty"), w("s is longer than 256 bits"));
    let r = retag(t_r, der(2, &[r]));
    let s = retag(t_s, der(2, &[s]));
    let s = if w("s is missing") { Seq::empty() } else { s };
    let seq = retag(t_seq, der(0x30, &[r, s]));
    let unused = if w("unused bits in the signature") { 1 } else { 0 };
    let sig = if w("an empty signature") { der(3, &[]) } else { der(3, &[be(unused, 1), seq]) };
    let sig = retag(t_sig, sig);
    let oid = if w("another algorithm") {
        let b = other(cx, st, "oid", &[2]);
        cat(st, &[raw(&OID[..7]), st.encode(&b, 1, true)])
    } else {
        raw(OID)
    };
    let alg = |o: Seq| der(0x30, &[o]);
    let oid = retag(t_oid, der(6, &[oid]));
    let alg1 = retag(t_alg, alg(oid));
    let ver = if w("another version") { other(cx, st, "version", &[2]) } else { Lin::k(2) };
    let vb = st.encode(&ver, 1, true);
    let vb = if w("a version of two bytes") { cat(st, &[raw(&[0]), vb]) } else { vb };
    let ver = der(0xa0, &[retag(t_ver, der(2, &[vb]))]);
    let ver = if w("no version") { Seq::empty() } else { ver };
    let time = |t: Z, cx: &mut In| der(t, &[src(cx, Lin::k(13))]);
    let t1 = if w("not_before is not a time") { 0x02 } else { 0x17 };
    let t2 = if w("not_after is not a time") { 0x02 } else if w("a GeneralizedTime") { 0x18 } else { 0x17 };
    let val = der(0x30, &[time(t1, cx), time(t2, cx)]);
    let val = if w("no not_after") { der(0x30, &[time(0x17, cx)]) } else { val };
    let val = retag(t_val, val);
    let name = |cx: &mut In| der(0x30, &[src(cx, Lin::k(60))]);
    let serial = der(2, &[src(cx, Lin::k(9))]);
    let (issuer, subject) = (name(cx), name(cx));
    let key = der(0x30, &[src(cx, Lin::k(89))]);
    let exts = der(0xa3, &[src(cx, Lin::k(200))]);
    let mut parts = vec![ver, serial, alg(der(6, &[raw(OID)])), issuer, val, subject, key, exts];
    if w("a body cut before the key") {
        parts.truncate(6);
    }
    let tbs = retag(t_tbs, der(0x30, &parts));
    let mut outer = vec![tbs, alg1, sig];
    if w("no signature") {
        outer.truncate(2);
    }
    if w("no algorithm") {
        outer.truncate(1);
    }
    let mut outer = retag(t_outer, der(0x30, &outer));
    if w("a truncated certificate") {
        outer = State::new().seq_sub(&outer, &Lin::k(0), &outer.len().addk(-1)).unwrap();
    }
    if w("an empty certificate") {
        outer = Seq::empty();
    }
    Cert { outer }
}

const GOOD: &[&str] = &["a certificate", "a GeneralizedTime"];
const BAD: &[&str] = &[
    "the certificate is not a SEQUENCE",
    "the body is not a SEQUENCE",
    "the algorithm is not a SEQUENCE",
    "the algorithm is not named by an OBJECT IDENTIFIER",
    "the signature is not a BIT STRING",
    "the signature does not hold a SEQUENCE",
    "r is not an INTEGER",
    "s is not an INTEGER",
    "the version is not an INTEGER",
    "the validity is not a SEQUENCE",
    "r is negative",
    "r is empty",
    "r is longer than 256 bits",
    "s is negative",
    "s is empty",
    "s is longer than 256 bits",
    "s is missing",
    "unused bits in the signature",
    "an empty signature",
    "another algorithm",
    "another version",
    "a version of two bytes",
    "no version",
    "not_before is not a time",
    "not_after is not a time",
    "no not_after",
    "a body cut before the key",
    "no signature",
    "no algorithm",
    "a truncated certificate",
    "an empty certificate",
];

fn result(cx: &mut In, t: TyId) -> bool {
    let _ = cx;
    matches!(cx.p.ty(t), TK::Adt { def, .. } if &**def == "std::result::Result")
}

pub fn shapes(p: &'static Prog, rep: &mut crate::rep::Rep) {
    let certf = |f: FnId| {
        let f = &p.fns[f];
        &*f.krate == "turtls" && p.file(f.span.0).contains("certificates")
    };
    let hooks = || Parse { t: crate::tls::Tls { m: crate::tls::Mode::parse("010") }, iters: BTreeSet::new(), search: false, known: false, range: None };
    let mut ders = 0;
    let mut entries = 0;
    let mut certs = 0;
    for f in 0..p.fns.len() {
        let fu = &p.fns[f];
        if &*fu.krate != "turtls" || fu.body.is_none() || !certf(f) {
            continue;
        }
        let (ins, out) = fu.sig.clone();
        let mut cx = In::new(p, Rc::new(hooks()));
        if fu.name.ends_with("::next") && ins.len() == 1 && item(&mut cx, out).is_some() {
            let it = item(&mut cx, out).unwrap();
            let me = cx.pointee(ins[0]).unwrap_or(ins[0]);
            let one = matches!(cx.peel(me).1, Rep::Ptr(_));
            let (cases, at) = match fields(&mut cx, it) {
                Some([Some(t), Some(d), None]) if one => {
                    ders += 1;
                    (der_cases(&mut cx), [Some(t), Some(d), None])
                },
                Some([None, Some(d), Some(e)]) if one => {
                    entries += 1;
                    (entry_cases(&mut cx), [None, Some(d), Some(e)])
                },
                _ => {
                    rep.stat("iterators not understood", 1);
                    continue;
                },
            };
            for c in cases {
                let mut cx = In::new(p, Rc::new(hooks()));
                let mut st = c.st.clone();
                let v = slice(&mut st, &c.input);
                let o = st.alloc(v);
                let a = Val::Ptr(Rc::new(Ptr { obj: o, path: vec![], off: None, len: None }));
                let outs = cx.run(st, f, vec![a]);
                rep.stat("elements", 1);
                let mut bad = None;
                let mut open = outs.is_empty() || !cx.events.is_empty();
                for (s, v) in &outs {
                    let (k, fs) = match v {
                        Val::Adt(k, fs) => (*k, fs.clone()),
                        _ => {
                            open = true;
                            continue;
                        },
                    };
                    let Some((t, d, x, rest)) = &c.want else {
                        if k == 1 {
                            bad = Some("is not refused".to_string());
                        }
                        continue;
                    };
                    if k == 0 {
                        bad = Some("is refused".to_string());
                        continue;
                    }
                    let field = |i: usize| match fs.first() {
                        Some(Val::Adt(_, g)) => at[i].and_then(|i| g.get(i).cloned()),
                        _ => None,
                    };
                    let mut claim = |c: Option<Cond>, m: &str| match c.map(|c| s.eval(&c)) {
                        Some(Some(true)) => {},
                        Some(Some(false)) => bad = Some(m.to_string()),
                        _ => open = true,
                    };
                    if at[0].is_some() {
                        claim(field(0).and_then(|v| v.lin().cloned()).map(|l| Cond::eq(&s.n(&l), &s.n(t))), "is returned with another tag");
                    }
                    let q = field(1).and_then(|v| bytes(&mut cx, s, &v));
                    claim(q.map(|q| s.seq_eq(&q, d)), "is not returned as it is");
                    if at[2].is_some() {
                        let q = field(2).and_then(|v| bytes(&mut cx, s, &v));
                        claim(q.map(|q| s.seq_eq(&q, x)), "is returned with other extensions");
                    }
                    let left = s.obj(o).map(|v| (**v).clone()).and_then(|v| bytes(&mut cx, s, &v));
                    claim(left.map(|q| s.seq_eq(&q, rest)), "is followed by other bytes than those behind it");
                }
                if open && bad.is_none() {
                    rep.stat("undecided elements", 1);
                }
                let m = bad.map(|b| format!("{} {b} by {}", c.note, fu.def)).unwrap_or_default();
                rep.ob(&format!("element:{}:{}", fu.def, c.note), m.is_empty(), &m, &p.site(f));
            }
        } else if ins.len() == 1 && result(&mut cx, out) && {
            let q = cx.pointee(ins[0]);
            matches!(q.map(|q| cx.peel(q).1), Some(Rep::Slice(b)) if cx.is_byteslice(b))
        } && (0..p.fns.len()).any(|g| &*p.fns[g].krate == "turtls" && !certf(g) && calls(p, g).contains(&f))
        {
            certs += 1;
            for (good, what) in GOOD.iter().map(|w| (true, *w)).chain(BAD.iter().map(|w| (false, *w))) {
                let mut cx = In::new(p, Rc::new(hooks()));
                let mut st = State::new();
                let c = cert(&mut cx, &mut st, what);
                let v = slice(&mut st, &c.outer);
                let outs = cx.run(st, f, vec![v]);
                rep.stat("certificates", 1);
                let ok = outs.iter().any(|(_, v)| matches!(v, Val::Adt(0, _)));
                let unclear = outs.is_empty() || !cx.events.is_empty() || outs.iter().any(|(_, v)| !matches!(v, Val::Adt(..)));
                if unclear {
                    rep.stat("undecided certificates", 1);
                }
                let fine = unclear || ok == good;
                let m = if good { "is refused" } else { "is accepted" };
                rep.ob(&format!("certificate:{what}"), fine, &format!("{what}: the certificate {m} by {}", fu.def), &p.site(f));
            }
            // a good certificate, except that the n-th range check of a number fails
            for n in 0..2 {
                let hooks = Parse { range: Some(n), ..hooks() };
                CHECKS.set((vec![], 0));
                let mut cx = In::new(p, Rc::new(hooks));
                let mut st = State::new();
                let c = cert(&mut cx, &mut st, GOOD[0]);
                let v = slice(&mut st, &c.outer);
                let outs = cx.run(st, f, vec![v]);
                let (seen, reduced) = CHECKS.with_borrow(|c| (c.0.len(), c.1));
                let ok = outs.iter().any(|(_, v)| matches!(v, Val::Adt(0, _)));
                let open = outs.is_empty() || !cx.events.is_empty() || outs.iter().any(|(_, v)| !matches!(v, Val::Adt(..)));
                let what = ["first", "second"][n];
                let bad = !open && ok && (seen > n || reduced > 0);
                if open || (seen <= n && !bad) {
                    rep.stat("undecided certificates", 1);
                }
                rep.ob(
                    &format!("range:{what}"),
                    !bad,
                    &format!("a certificate is accepted by {} although the {what} number of its signature is not in range", fu.def),
                    &p.site(f),
                );
            }
        }
    }
    rep.stat("DER iterators", ders);
    rep.stat("entry iterators", entries);
    rep.stat("certificate parsers", certs);
}
