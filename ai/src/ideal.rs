//! Ideal cryptography and the peer: operations of the crypto library on values of the TLS 1.3 key
//! schedule give named tokens, and what the peer sends is a constructive stream of records, so that
//! what the client computes can be compared with what the protocol prescribes.
use crate::interp::*;
use crate::mon::bad;
use crate::prog::*;
use crate::state::*;
use crate::term::*;
use crate::tls::{content, limbs, uf};

fn none() -> String {
    String::new()
}

/// record being received: nothing known, plaintext handshake, protected, anything else
pub const K_NONE: Z = 0;
pub const K_HS: Z = 1;
pub const K_PROT: Z = 2;
pub const K_OTHER: Z = 3;

pub fn reset(st: &mut State) {
    st.gsetk("hpos", 0);
    st.gset("hdr", Val::seq(Seq::empty()));
    st.gsetk("kind", K_NONE);
    st.gset("rlen", Val::k(0));
    st.gset("rpos", Val::k(0));
    st.gsetk("parts", 0);
    st.gset("pay", Val::seq(Seq::empty()));
    // what a protected record contains
    st.gset("inner", Val::seq(Seq::empty()));
    // handshake data delivered and not yet in the transcript; not yet sent
    st.gset("mq", Val::seq(Seq::empty()));
    st.gset("rest", Val::seq(Seq::empty()));
    // the current message must be refused
    st.gsetk("reject", 0);
    st.gset("note", Val::k(0));
    st.gsetk("ccs", 0);
    st.gsetk("case", 0);
    // whether a record was read in this call
    st.gsetk("recs", 0);
    st.gsetk("toolong", 0);
    st.gset("palert", Val::k(-1));
    st.gsetk("suite", 0);
    st.gset("ch", Val::seq(Seq::empty()));
    st.gsetk("keys", 0);
    st.gsetk("late", 0);
    st.gset("wseq", Val::k(0));
    st.gset("rseq", Val::k(0));
    st.gset("sealed", Val::seq(Seq::empty()));
    st.gset("sealed_ad", Val::seq(Seq::empty()));
    st.gset("priv", Val::k(0));
    // why the handshake must fail now: 0 it need not, otherwise the alert that must be sent, plus 1
    st.gsetk("must", 0);
    // type of the last message of the transcript, to be confirmed before anything else is read
    st.gset("mtype", Val::k(0));
    st.gsetk("msgs", 0);
    // the application protocol of EncryptedExtensions
    st.gsetk("alpn", 0);
    st.gset("alpn_name", Val::seq(Seq::empty()));
}

fn eqk(st: &State, l: &Lin, k: &Lin) -> bool {
    st.facts.prove_eq(&l.sub(k))
}

// ------------------------------------------------------------------------------------------- peer

/// alerts an incoming record or a failed decryption demands
const RECORD_OVERFLOW: Z = 22;
const BAD_RECORD_MAC: Z = 20;
/// any fatal alert: the record is not protected although keys are established
const UNAUTHENTIC: Z = 300;

fn must(cx: &mut In, st: &State) -> bool {
    match st.gk("must") - 1 {
        RECORD_OVERFLOW => bad(cx, "C20", "the client goes on although a record is too long", &none, st),
        BAD_RECORD_MAC => bad(cx, "C04", "the client goes on although a record is not authentic", &none, st),
        UNAUTHENTIC => bad(cx, "C04", "the client goes on after a record without protection", &none, st),
        _ => return true,
    }
    false
}

/// the record about to be sent by the peer
struct Rec {
    kind: Z,
    hdr: Seq,
    /// what the record carries, as far as the length goes
    len: Lin,
    pay: Seq,
    must: Z,
}

/// two length bytes the analysis knows nothing about, and their value
fn len2(cx: &mut In, what: &str) -> (Seq, Lin) {
    let h = Lin::s(cx.unknown(&format!("{what}_hi"), Some(0), Some(255)));
    let l = Lin::s(cx.unknown(&format!("{what}_lo"), Some(0), Some(255)));
    (Seq(vec![Seg::B(h.clone()), Seg::B(l.clone())]), h.mul(256).add(&l))
}

pub fn raw(b: &[u8]) -> Seq {
    Seq::bytes(b)
}
pub fn cat(st: &State, parts: &[Seq]) -> Seq {
    parts.iter().fold(Seq::empty(), |a, b| st.seq_cat(&a, b))
}
pub fn be(n: Z, w: u32) -> Seq {
    Seq::bytes(&(0..w).rev().map(|i| (n >> (8 * i)) as u8).collect::<Vec<_>>())
}

/// a byte other than those given
pub fn other(cx: &mut In, st: &mut State, what: &str, not: &[Z]) -> Lin {
    let t = Lin::s(cx.unknown(what, Some(0), Some(255)));
    for k in not {
        st.facts.assume_ne(&t.addk(-k));
    }
    t
}

/// a handshake message the server may send next; `reject` if the client must refuse it
struct Msg {
    st: State,
    data: Seq,
    reject: Z,
    note: &'static str,
}

/// messages with a body of every shape of a fixed list and arbitrary field values
fn messages(cx: &mut In, st: &State, mode: Reads) -> R<Vec<Msg>> {
    let k = st.gk("msgs").max(1);
    let want = expected(k + 1);
    let mut v: Vec<Msg> = vec![];
    // more than a message
    let mut joined: Vec<Msg> = vec![];
    let mut push = |st: State, ty: Z, body: Seq, reject: Z, note: &'static str| {
        let n = body.len().is_const().unwrap_or(0);
        let h = cat(&st, &[raw(&[ty as u8]), be(n, 3), body]);
        v.push(Msg { st, data: h, reject, note });
    };
    if mode.any {
        let mut s = st.clone();
        let n = Lin::s(cx.unknown("any_len", Some(0), Some(0x3e00)));
        let body = Seq::src(cx.unknown("any", None, None), n.clone());
        let len = s.encode(&n, 3, true);
        let data = cat(&s, &[raw(&[want as u8]), len, body]);
        // the first acceptable message to go on with, and one with any content
        match want {
            2 => {
                let (body, reject) = server_hello(cx, &mut s, 0, 0x1303, SHAPES[0]);
                push(s, 2, body, reject, SHAPES[0]);
            },
            8 => push(s, 8, raw(&[0, 0]), 0, "empty"),
            _ => (),
        }
        v.push(Msg { st: st.clone(), data, reject: 3, note: "any" });
        return Ok(v);
    }
    match want {
        2 => {
            // keys change after a ServerHello, nothing may follow it in its record
            let mut s = st.clone();
            let (body, _) = server_hello(cx, &mut s, 32, 0x1303, SHAPES[0]);
            let body = cat(&s, &[body, raw(&[8, 0, 0, 2, 0, 0])]);
            let n = body.len().is_const().unwrap_or(0) - 6;
            let data = cat(&s, &[raw(&[2]), be(n, 3), body]);
            joined.push(Msg { st: s, data, reject: 1, note: "data after a ServerHello" });
            let suites: &[Z] = &[0x1301, 0x1303, 0];
            for (i, shape) in SHAPES.iter().enumerate() {
                for sid in [32, 0] {
                    for suite in suites {
                        if (i > 0 || mode.brief) && (sid == 0 || *suite != 0x1303) || mode.brief && i > 1 {
                            continue;
                        }
                        let mut s = st.clone();
                        let (body, reject) = server_hello(cx, &mut s, sid, *suite, *shape);
                        push(s, 2, body, reject, shape);
                    }
                }
            }
        },
        8 => {
            let ext = |t: Z, d: &[u8]| cat(st, &[be(t, 2), be(d.len() as Z, 2), raw(d)]);
            let list = |q: &Seq| cat(st, &[be(q.len().is_const().unwrap_or(0), 2), q.clone()]);
            push(st.clone(), 8, list(&Seq::empty()), 0, "empty");
            let two = |t: u8| raw(&[8, 0, 0, 2, 0, 0, t, 0, 0, 4, 0, 0, 0, 0]);
            joined.push(Msg { st: st.clone(), data: two(11), reject: 0, note: "with a Certificate" });
            joined.push(Msg { st: st.clone(), data: two(20), reject: 1, note: "with a Finished" });
            if !mode.brief {
                // extensions that may answer those of the hello
                match st.gk("c_named") {
                    0 => push(st.clone(), 8, list(&ext(0, &[])), 1, UNASKED[2]),
                    _ => push(st.clone(), 8, list(&ext(0, &[])), 0, "server_name"),
                }
                if st.gk("c_alpn") == 0 {
                    push(st.clone(), 8, list(&ext(16, &[0, 4, 3, b'a', b'b', b'c'])), 1, UNASKED[3]);
                } else {
                    for n in [3, 1, 255] {
                        let mut s = st.clone();
                        let name = Seq::src(cx.unknown("protocol", None, None), Lin::k(n));
                        let q = cat(&s, &[be(16, 2), be(n + 3, 2), be(n + 1, 2), raw(&[n as u8]), name.clone()]);
                        s.gsetk("alpn", 1);
                        s.gset("alpn_name", Val::seq(name));
                        push(s, 8, list(&q), 0, "protocol");
                    }
                    for (d, note) in PROTOCOLS {
                        push(st.clone(), 8, list(&ext(16, d)), 1, note);
                    }
                }
                push(st.clone(), 8, list(&ext(10, &[0, 2, 0, 23])), 0, "groups");
                push(st.clone(), 8, cat(st, &[be(3, 2), ext(0, &[])]), 1, "short list");
                // longer than a record and than the first buffer
                let q = Seq::src(cx.unknown("groups", None, None), Lin::k(29998));
                push(st.clone(), 8, list(&cat(st, &[be(10, 2), be(30000, 2), be(29998, 2), q])), 0, "long groups");
                let q = Seq::src(cx.unknown("body", None, None), Lin::k(100));
                let data = cat(st, &[raw(&[8]), be(0x20001, 3), q]);
                joined.push(Msg { st: st.clone(), data, reject: 1, note: TOO_LONG });
                push(st.clone(), 8, cat(st, &[be(5, 2), ext(0, &[])]), 1, "long list");
                push(st.clone(), 8, list(&ext(51, &[])), 1, UNASKED[0]);
                let mut s = st.clone();
                let t = other(cx, &mut s, "ext_type", &[0, 10, 16]);
                let e = cat(&s, &[raw(&[0]), Seq(vec![Seg::B(t)]), be(1, 2), raw(&[7])]);
                push(s, 8, list(&e), 1, UNASKED[1]);
                push(st.clone(), 8, cat(st, &[be(4, 2), be(0, 2), be(1, 2)]), 1, "extension beyond the list");
                push(st.clone(), 8, Seq::empty(), 1, "no list");
            }
        },
        11 => {
            push(st.clone(), 11, raw(&[0, 0, 0, 0]), 0, "no certificate");
            if !mode.brief {
                push(st.clone(), 11, raw(&[0, 0, 0, 1]), 1, "list too long");
                push(st.clone(), 11, raw(&[]), 1, "no context");
            }
        },
        _ => {
            let q = Seq::src(cx.unknown("body", None, None), Lin::k(32));
            push(st.clone(), want, q, 0, "opaque");
        },
    }
    // another type
    let mut s = st.clone();
    let t = other(cx, &mut s, "shake_type", &[want]);
    let data = match v.first() {
        Some(m) => {
            let n = s.n(&m.data.len());
            let rest = s.seq_slice(&m.data, &Lin::k(1), &n.addk(-1))?;
            cat(&s, &[Seq(vec![Seg::B(t)]), rest])
        },
        None => Seq::empty(),
    };
    v.push(Msg { st: s, data, reject: 2, note: "another type" });
    v.extend(joined);
    Ok(v)
}

const SHAPES: &[&str] = &[
    "versions, key_share",
    "key_share, versions",
    "no key_share",
    "no versions",
    "two versions",
    "two key_shares",
    "unknown extension",
    "another version",
    "another group",
    "another form",
    "short key_share",
    "long key_share",
    "short list",
    "long list",
    "no extensions",
    "cut",
    "inner length",
    "short inner length",
    "short version",
    "long version",
    "empty key_share",
    "server_name in ServerHello",
];

/// messages of EncryptedExtensions that must be refused for what they negotiate
const UNASKED: &[&str] = &[
    "key_share in EncryptedExtensions",
    "an unknown extension in EncryptedExtensions",
    "server_name that was not sent",
    "a protocol although none was offered",
];

/// answers to the protocols offered that are not well-formed
const PROTOCOLS: &[(&[u8], &str)] = &[
    (&[], "no protocol list"),
    (&[0, 0], "no protocol"),
    (&[0, 1, 0], "an empty protocol"),
    (&[0, 5, 3, b'a', b'b', b'c'], "a long protocol list"),
    (&[0, 3, 3, b'a', b'b', b'c'], "a short protocol list"),
    (&[0, 4, 2, b'a', b'b', b'c'], "a short protocol"),
    (&[0, 4, 4, b'a', b'b', b'c'], "a long protocol"),
    (&[0, 6, 3, b'a', b'b', b'c', 1, b'd'], "two protocols"),
    (&[0, 4, 3, b'a', b'b', b'c', 0], "data after the protocols"),
];

/// a ServerHello body and whether it must be refused
fn server_hello(cx: &mut In, st: &mut State, sid: Z, suite: Z, shape: &str) -> (Seq, Z) {
    let mut reject = 0;
    let rnd = Seq::src(cx.unknown("server_random", None, None), Lin::k(32));
    let id = Seq::src(cx.unknown("session_id", None, None), Lin::k(sid));
    let on = st.gk("c_suites");
    let suite_q = if suite != 0 {
        if !(suite == 0x1301 && on & 2 != 0 || suite == 0x1303 && on & 1 != 0) {
            reject = 1;
        }
        be(suite, 2)
    } else {
        reject = 1;
        let h = Lin::s(cx.unknown("suite_hi", Some(0), Some(255)));
        let l = Lin::s(cx.unknown("suite_lo", Some(0), Some(255)));
        // any number but the two
        let v = h.mul(256).add(&l);
        st.facts.assume_ne(&v.addk(-0x1301));
        st.facts.assume_ne(&v.addk(-0x1303));
        Seq(vec![Seg::B(h), Seg::B(l)])
    };
    st.gsetk("suite", suite);
    if st.gk("c_groups") == 0 {
        reject = 1;
    }
    let ext = |st: &State, t: Z, d: Seq| cat(st, &[be(t, 2), be(d.len().is_const().unwrap_or(0), 2), d]);
    let point = Seq::src(term("peer_point", vec![], None, None), Lin::k(64));
    let share = |st: &State, group: Seq, form: Seq, p: Seq, more: Z| {
        let n = p.len().is_const().unwrap_or(0) + form.len().is_const().unwrap_or(0);
        ext(st, 51, cat(st, &[group, be(n + more, 2), form, p]))
    };
    let ver = ext(st, 43, raw(&[3, 4]));
    let ks = share(st, be(23, 2), raw(&[4]), point.clone(), 0);
    let exts = match shape {
        "versions, key_share" => vec![ver, ks],
        "key_share, versions" => vec![ks, ver],
        "no key_share" => vec![ver],
        "no versions" => vec![ks],
        "two versions" => vec![ver.clone(), ks, ver],
        "two key_shares" => vec![ver, ks.clone(), ks],
        "unknown extension" => vec![ver, ks, ext(st, 0xfe00, raw(&[1]))],
        "another version" => {
            let l = other(cx, st, "version", &[4]);
            let v = ext(st, 43, Seq(vec![Seg::C(vec![3].into()), Seg::B(l)]));
            vec![v, ks]
        },
        "another group" => {
            let l = other(cx, st, "group", &[23]);
            let s = share(st, Seq(vec![Seg::C(vec![0].into()), Seg::B(l)]), raw(&[4]), point, 0);
            vec![ver, s]
        },
        "another form" => {
            let l = other(cx, st, "form", &[4]);
            let s = share(st, be(23, 2), Seq(vec![Seg::B(l)]), point, 0);
            vec![ver, s]
        },
        "short key_share" => {
            let p = Seq::src(term("peer_point", vec![], None, None), Lin::k(63));
            let s = share(st, be(23, 2), raw(&[4]), p, 0);
            vec![ver, s]
        },
        "long key_share" => {
            let p = cat(st, &[point, raw(&[0])]);
            let s = share(st, be(23, 2), raw(&[4]), p, 0);
            vec![ver, s]
        },
        "inner length" => {
            let s = share(st, be(23, 2), raw(&[4]), point, 1);
            vec![ver, s]
        },
        "short inner length" => {
            let s = share(st, be(23, 2), raw(&[4]), point, -1);
            vec![ver, s]
        },
        "short version" => vec![ext(st, 43, raw(&[3])), ks],
        "long version" => vec![ext(st, 43, raw(&[3, 4, 0])), ks],
        "empty key_share" => vec![ver, ext(st, 51, raw(&[]))],
        "server_name in ServerHello" => vec![ver, ks, ext(st, 0, raw(&[]))],
        "no extensions" => vec![],
        _ => vec![ver, ks],
    };
    let exts = cat(st, &exts);
    let n = exts.len().is_const().unwrap_or(0);
    let (n, short) = match shape {
        "short list" => (n - 1, 0),
        "long list" => (n + 1, 0),
        "cut" => (n, 1),
        _ => (n, 0),
    };
    if !matches!(shape, "versions, key_share" | "key_share, versions") {
        reject = 1;
    }
    let exts = st.seq_slice(&exts, &Lin::k(0), &exts.len().addk(-short)).unwrap_or(Seq::empty());
    let comp = raw(&[0]);
    (cat(st, &[raw(&[3, 3]), rnd, be(sid, 1), id, suite_q, comp, be(n, 2), exts]), reject)
}

/// what the records of the peer are like
#[derive(Clone, Copy)]
pub struct Reads {
    /// a delivery may be shorter than requested
    pub partial: bool,
    /// handshake messages come in two records
    pub split: bool,
    /// only acceptable messages
    pub brief: bool,
    /// any number of records was processed before
    pub late: bool,
    /// messages with any content
    pub any: bool,
}

impl Reads {
    pub fn of(n: u32) -> Reads {
        Reads { partial: n == 2 || n == 4, split: n == 3 || n == 4, brief: n >= 3, late: n == 6, any: n == 7 }
    }
}

/// records the peer may send now
fn records(cx: &mut In, st: &State, mode: Reads) -> R<Vec<(State, Rec)>> {
    let mut v = vec![];
    let keys = st.gk("keys") != 0;
    let legacy = Seq::src(cx.unknown("legacy", None, None), Lin::k(2));
    let hdr = |st: &State, t: Seq, n: Seq| cat(st, &[t, legacy.clone(), n]);
    let whole = |st: &State, t: Z, q: Seq| {
        let n = q.len().is_const().unwrap_or(0);
        Rec { kind: K_OTHER, hdr: hdr(st, raw(&[t as u8]), be(n, 2)), len: Lin::k(n), pay: q, must: 0 }
    };
    // the rest of a message the first part of which was sent
    let rest = st.gseq("rest");
    let msgs = if rest.0.is_empty() {
        messages(cx, st, mode)?
    } else {
        vec![Msg { st: st.clone(), data: rest.clone(), reject: st.gk("reject"), note: "second part" }]
    };
    let first = msgs.first().filter(|m| m.reject == 0 && !mode.brief && rest.0.is_empty()).map(|m| (m.st.clone(), m.data.clone()));
    for m in msgs {
        let mut s = m.st;
        s.gsetk("reject", m.reject);
        s.gset("note", Val::Tok(m.note.into()));
        let n = s.n(&m.data.len());
        if n.is_const().is_none() {
            let part = m.data.clone();
            s.gset("rest", Val::seq(Seq::empty()));
            if !keys {
                s.gset("inner", Val::seq(part.clone()));
                let l = s.encode(&n, 2, true);
                let h = hdr(&s, raw(&[22]), l);
                v.push((s, Rec { kind: K_HS, hdr: h, len: n, pay: part, must: 0 }));
            } else {
                let q = cat(&s, &[part, raw(&[22])]);
                let r = protected(cx, &mut s, &legacy, q);
                v.push((s, r));
            }
            continue;
        }
        let n = n.is_const().unwrap_or(0);
        let cuts: Vec<Z> = if mode.split && rest.0.is_empty() { vec![1, 4, 5, n] } else { vec![n.min(0x3ffe)] };
        for c in cuts {
            let mut s = s.clone();
            let part = s.seq_slice(&m.data, &Lin::k(0), &Lin::k(c))?;
            let left = s.seq_slice(&m.data, &Lin::k(c), &Lin::k(n - c))?;
            s.gset("rest", Val::seq(left));
            if !keys {
                s.gset("inner", Val::seq(part.clone()));
                let mut r = whole(&s, 22, part);
                r.kind = K_HS;
                v.push((s, r));
                continue;
            }
            for pad in if mode.brief { vec![0] } else { vec![0, 2] } {
                let mut s = s.clone();
                let q = cat(&s, &[part.clone(), raw(&[22]), raw(&vec![0; pad])]);
                v.push((s.clone(), protected(cx, &mut s, &legacy, q)));
                v.last_mut().unwrap().0 = s;
            }
        }
    }
    if mode.brief {
        return Ok(v);
    }
    // what looks like the next message in a record that does not carry handshake data
    if let Some((s, data)) = first {
        let mut s = s;
        s.gsetk("reject", 1);
        s.gset("note", Val::Tok("a message in a record of another type".into()));
        let t = other(cx, &mut s, "record_type", &[22]);
        if keys {
            let q = cat(&s, &[data, Seq(vec![Seg::B(t.clone())])]);
            s.facts.assume_ne(&t);
            let r = protected(cx, &mut s, &legacy, q);
            v.push((s, r));
        } else {
            let n = s.n(&data.len()).is_const().unwrap_or(0);
            let mut r = whole(&s, 0, data);
            r.hdr = hdr(&s, Seq(vec![Seg::B(t)]), be(n, 2));
            v.push((s, r));
        }
    }
    // an alert
    let mut s = st.clone();
    let a = Lin::s(cx.unknown("peer_alert", Some(0), Some(255)));
    let q = Seq(vec![Seg::C(vec![2].into()), Seg::B(a.clone())]);
    let mut p = s.clone();
    if keys {
        p.gset("palert", Val::Int(a.clone()));
        let q = cat(&p, &[q.clone(), raw(&[21])]);
        let r = protected(cx, &mut p, &legacy, q);
        v.push((p, r));
    }
    let mut r = whole(&s, 21, q);
    if keys {
        r.must = UNAUTHENTIC + 1;
    } else {
        s.gset("palert", Val::Int(a));
    }
    v.push((s, r));
    // an alert of the wrong size
    let mut s = st.clone();
    s.gsetk("reject", 1);
    let mut r = whole(&s, 21, raw(&[2]));
    if keys {
        r.must = UNAUTHENTIC + 1;
    }
    v.push((s, r));
    // change_cipher_spec; inside a handshake message it may be dropped or refused
    if rest.0.is_empty() && st.gk("ccs") == 0 && st.gk("msgs") <= 2 {
        let mut s = st.clone();
        s.gsetk("ccs", 1);
        let r = whole(&s, 20, raw(&[1]));
        v.push((s, r));
    }
    // any other type
    let mut s = st.clone();
    s.gsetk("reject", 1);
    let t = other(cx, &mut s, "record_type", &[20, 21, 22, 23]);
    let mut r = whole(&s, 0, raw(&[1, 2, 3]));
    r.hdr = hdr(&s, Seq(vec![Seg::B(t)]), be(3, 2));
    if keys {
        r.must = UNAUTHENTIC + 1;
    }
    v.push((s, r));
    // an empty record
    let mut s = st.clone();
    s.gsetk("reject", 1);
    let mut r = whole(&s, 22, Seq::empty());
    if keys {
        r.must = UNAUTHENTIC + 1;
    }
    v.push((s, r));
    // too long
    for t in [22, 23] {
        let mut s = st.clone();
        let (q, n) = len2(cx, "long");
        let max = if t == 23 { 0x4100 } else { 0x4000 };
        s.facts.assume_ge(&n.addk(-max - 1));
        let h = hdr(&s, raw(&[t]), q);
        let pay = Seq::src(cx.unknown("payload", None, None), n.clone());
        v.push((s, Rec { kind: K_OTHER, hdr: h, len: n, pay, must: RECORD_OVERFLOW + 1 }));
    }
    if keys {
        // handshake data without protection
        let s = st.clone();
        let mut r = whole(&s, 22, raw(&[8, 0, 0, 2, 0, 0]));
        r.must = UNAUTHENTIC + 1;
        v.push((s, r));
        // protected records: no content type, another one, too short for one
        for (c, what) in [(vec![0, 0], 0), (vec![1, 23], 0), (vec![1, 20, 0], 0), (vec![], 1), (vec![5, 77], 0), (vec![22], 0)] {
            let mut s = st.clone();
            s.gsetk("reject", 1);
            let mut r = protected(cx, &mut s, &legacy, raw(&c));
            if what == 1 {
                r.kind = K_OTHER;
                r.must = UNAUTHENTIC + 1;
            }
            v.push((s, r));
        }
        let mut s = st.clone();
        let mut r = protected(cx, &mut s, &legacy, Seq::empty());
        r.pay = Seq::src(cx.unknown("payload", None, None), Lin::k(15));
        r.len = Lin::k(15);
        r.hdr = hdr(&s, raw(&[23]), be(15, 2));
        r.kind = K_OTHER;
        r.must = UNAUTHENTIC + 1;
        v.push((s, r));
        // a plaintext longer than allowed
        let mut s = st.clone();
        let (q, n) = len2(cx, "long");
        s.facts.assume_ge(&n.addk(-0x4002 - 16));
        s.facts.assume_ge(&Lin::k(0x4100).sub(&n));
        let pay = Seq::src(cx.unknown("payload", None, None), n.clone());
        let long = Seq::src(cx.unknown("long", None, None), n.addk(-16));
        s.gset("inner", Val::seq(long));
        let h = hdr(&s, raw(&[23]), q);
        s.gsetk("toolong", 1);
        v.push((s, Rec { kind: K_PROT, hdr: h, len: n, pay, must: 0 }));
    } else {
        let mut s = st.clone();
        s.gsetk("reject", 1);
        let pay = Seq::src(cx.unknown("payload", None, None), Lin::k(40));
        let r = whole(&s, 23, pay);
        v.push((s, r));
    }
    Ok(v)
}

/// a protected record with the plaintext `q`
fn protected(cx: &mut In, st: &mut State, legacy: &Seq, q: Seq) -> Rec {
    let n = st.n(&q.len().addk(16));
    st.gset("inner", Val::seq(q));
    let pay = Seq::src(cx.unknown("payload", None, None), n.clone());
    let l = match n.is_const() {
        Some(n) => be(n, 2),
        None => st.encode(&n, 2, true),
    };
    Rec { kind: K_PROT, hdr: cat(st, &[raw(&[23]), legacy.clone(), l]), len: n, pay, must: 0 }
}

/// the client calls the read callback for `amt` bytes; the deliveries possible
pub fn read(cx: &mut In, st: &State, buf: &Val, amt: &Lin, mode: Reads) -> R<Outs> {
    let mut st = st.clone();
    let h = st.gk("hpos");
    let mut outs = vec![];
    if h == 0 {
        if !boundary(cx, &st) {
            return Ok(vec![]);
        }
        if mode.late {
            later(cx, &mut st);
        }
        // in the detailed modes every call reads one record
        if !mode.brief && st.gk("recs") != 0 {
            return Ok(vec![]);
        }
        let recs = records(cx, &st, mode)?;
        for (i, (mut s, r)) in recs.into_iter().enumerate() {
            s.gsetk("case", i as Z + 1);
            s.gset("hdr", Val::seq(r.hdr));
            s.gsetk("kind", r.kind);
            s.gset("rlen", Val::Int(r.len));
            s.gset("rpos", Val::k(0));
            s.gset("pay", Val::seq(r.pay));
            s.gsetk("must", r.must);
            s.gsetk("recs", 1);
            outs.extend(header(cx, &s, buf, amt, mode)?);
        }
        return Ok(outs);
    }
    if h < 5 {
        return header(cx, &st, buf, amt, mode);
    }
    if st.gk("must") - 1 == RECORD_OVERFLOW {
        must(cx, &st);
    }
    let pos = st.glin("rpos");
    let rest = st.n(&st.glin("rlen").sub(&pos));
    if !st.facts.prove_ge(&rest.sub(amt)) && !st.dge(&rest.sub(amt))? {
        bad(cx, "C20", "the client reads beyond a record", &|| format!("{} of {}", show_lin(amt, 4), show_lin(&rest, 4)), &st);
        return Ok(vec![]);
    }
    let pay = st.gseq("pay");
    // every record is delivered in at most two parts; a second one takes all that is left
    let short = mode.partial && st.gk("parts") == 0 && st.dge(&amt.addk(-2))?;
    for part in if short { vec![true, false] } else { vec![false] } {
        let mut st = st.clone();
        let n = if part {
            st.gsetk("parts", 1);
            let n = Lin::s(cx.unknown("part", Some(1), None));
            st.facts.assume_ge(&amt.sub(&n).addk(-1));
            n
        } else {
            amt.clone()
        };
        let q = st.seq_slice(&pay, &pos, &n)?;
        cx.set_bytes(&mut st, buf, &q)?;
        let pos = st.n(&pos.add(&n));
        let left = st.n(&st.glin("rlen").sub(&pos));
        st.gset("rpos", Val::Int(pos));
        let mut z = st.clone();
        z.facts.assume_eq(&left);
        if !z.bad() {
            received(&mut z);
            outs.push((z, Val::Int(n.clone())));
        }
        st.facts.assume_ge(&left.addk(-1));
        if !st.bad() {
            outs.push((st, Val::Int(n)));
        }
    }
    Ok(outs)
}

fn has_aead(v: &Val) -> bool {
    match v {
        Val::Term(s) => def(*s).map_or(false, |d| &*d.op == "aead"),
        Val::Adt(_, f) => f.iter().any(has_aead),
        _ => false,
    }
}

/// the counters of the innermost structure that holds both keys
fn counters(v: &Val, n: &Lin, found: &mut u32) -> Val {
    let Val::Adt(k, f) = v else { return v.clone() };
    if !has_aead(v) {
        return v.clone();
    }
    let zero = |x: &Val| matches!(x, Val::Int(l) if l.is_const() == Some(0));
    if f.iter().filter(|x| zero(x)).count() == 2 {
        *found += 1;
        return Val::adt(*k, f.iter().map(|x| if zero(x) { Val::Int(n.clone()) } else { x.clone() }).collect());
    }
    Val::adt(*k, f.iter().map(|x| counters(x, n, found)).collect())
}

/// what holds for the first records holds for later ones: start from any number of records, the same
/// in both directions
fn later(cx: &mut In, st: &mut State) {
    if st.gk("keys") == 0 || st.gk("late") != 0 {
        return;
    }
    st.gsetk("late", 1);
    if st.glin("rseq").is_const() != Some(0) || st.glin("wseq").is_const() != Some(0) {
        return;
    }
    let n = Lin::s(cx.unknown("records_before", Some(0), Some(1 << 24)));
    let mut found = 0;
    let mem: std::collections::BTreeMap<_, _> =
        st.mem.iter().map(|(o, v)| (*o, if has_aead(v) { std::rc::Rc::new(counters(v, &n, &mut found)) } else { v.clone() })).collect();
    if found == 1 {
        st.mem = std::rc::Rc::new(mem);
        st.gset("rseq", Val::Int(n.clone()));
        st.gset("wseq", Val::Int(n));
        cx.count("generalised_counters");
    }
}

const TOO_LONG: &str = "message too long";

/// the client goes on to the next record
fn boundary(cx: &mut In, st: &State) -> bool {
    if !must(cx, st) {
        return false;
    }
    confirm(cx, st);
    if st.gk("reject") == 3 {
        return false;
    }
    if st.gk("reject") != 0 && st.gseq("rest").0.is_empty() {
        let note = match st.g("note") {
            Val::Tok(t) => t.to_string(),
            _ => String::new(),
        };
        if note == TOO_LONG {
            bad(cx, "C20", "the client goes on after the header of a message that is too long", &none, st);
        } else {
            bad(cx, "C05", "the client goes on after a message or record that is not acceptable", &|| note.clone(), st);
            if PROTOCOLS.iter().any(|x| x.1 == note) {
                bad(cx, "C22", "the client goes on after a malformed answer to its protocols", &|| note.clone(), st);
            }
            if SHAPES.contains(&&*note) || UNASKED.contains(&&*note) {
                bad(cx, "C09", "the client goes on after parameters that are not acceptable", &|| note.clone(), st);
            }
        }
        return false;
    }
    if !matches!(st.g("palert"), Val::Undef) && st.glin("palert").is_const() != Some(-1) {
        bad(cx, "C15", "the client goes on after an alert", &none, st);
        return false;
    }
    true
}

/// header bytes of the current record
fn header(cx: &mut In, st: &State, buf: &Val, amt: &Lin, mode: Reads) -> R<Outs> {
    let h = st.gk("hpos");
    let Some(n) = st.n(amt).is_const().filter(|n| *n <= 5 - h) else {
        bad(cx, "C20", "the client reads beyond a record header", &|| show_lin(amt, 4), st);
        return Ok(vec![]);
    };
    let mut outs = vec![];
    for k in if mode.partial && st.gk("parts") == 0 { 1 } else { n }..=n {
        let mut s = st.clone();
        if k < n {
            s.gsetk("parts", 1);
        }
        let hdr = s.gseq("hdr");
        let q = s.seq_slice(&hdr, &Lin::k(h), &Lin::k(k))?;
        cx.set_bytes(&mut s, buf, &q)?;
        s.gsetk("hpos", h + k);
        if h + k == 5 && s.glin("rlen").is_const() == Some(0) {
            received(&mut s);
        }
        outs.push((s, Val::k(k)));
    }
    Ok(outs)
}

/// the record has been delivered
fn received(s: &mut State) {
    s.gsetk("hpos", 0);
    s.gsetk("parts", 0);
    if s.gk("kind") == K_HS {
        let q = s.seq_cat(&s.gseq("mq"), &s.gseq("inner"));
        s.gset("mq", Val::seq(q));
    }
}

/// the last handshake message was the expected one if the client goes on
pub fn confirm(cx: &mut In, st: &State) {
    let k = st.gk("msgs");
    if k < 2 {
        return;
    }
    let want = expected(k);
    let t = st.glin("mtype");
    if t.is_const() != Some(want) {
        bad(cx, "C05", "the client goes on after a handshake message of the wrong type", &|| show_lin(&t, 4), st);
    }
}

/// the client returns to be resumed: between records, the last one is done with
pub fn waiting(st: &mut State) {
    st.gsetk("recs", 0);
    if st.gk("hpos") == 0 && st.gk("must") == 0 && st.gk("kind") != K_PROT {
        st.gsetk("kind", K_NONE);
        st.gsetk("case", 0);
        st.gset("hdr", Val::seq(Seq::empty()));
        st.gset("pay", Val::seq(Seq::empty()));
        st.gset("inner", Val::seq(Seq::empty()));
        st.gset("note", Val::k(0));
        st.gset("rlen", Val::k(0));
        st.gset("rpos", Val::k(0));
    st.gsetk("parts", 0);
    }
}

/// turtls_connect reports error `e`
pub fn ended(cx: &mut In, st: &State, e: &str, alert: Option<&Lin>) {
    let al = alert.and_then(|l| st.n(l).is_const());
    let note = match st.g("note") {
        Val::Tok(t) => t.to_string(),
        _ => String::new(),
    };
    let w = || format!("error {e}, alert {al:?}, message {note}");
    // nothing was received, or only a part
    let resumed = st.gk("hpos") != 0 && st.gk("must") - 1 != RECORD_OVERFLOW;
    if st.gk("hello") == 0 || resumed || st.glin("rpos").is_const() == Some(0) && st.gk("hpos") == 0 && st.gk("kind") == K_NONE {
        return;
    }
    let m = st.gk("must") - 1;
    if m >= 0 {
        let (p, what) = match m {
            RECORD_OVERFLOW => ("C20", "a record that is too long is not answered with record_overflow"),
            UNAUTHENTIC => ("C04", "a record without protection is not answered with an alert"),
            _ => ("C04", "a record that is not authentic is not answered with bad_record_mac"),
        };
        if e != "Tls" || m != UNAUTHENTIC && al != Some(m) {
            bad(cx, p, what, &w, st);
        }
        return;
    }
    let pa = st.glin("palert");
    if pa.is_const() != Some(-1) {
        if e != "TlsPeer" {
            bad(cx, "C15", "an alert of the peer is not reported as one", &w, st);
        } else if let Some(l) = alert {
            const KNOWN: [Z; 26] = [
                0, 10, 20, 22, 40, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 70, 71, 86, 90, 109, 110, 112, 113, 115, 116, 120,
            ];
            // internal_error also stands for codes that are not known
            let unknown = al == Some(80) && KNOWN.iter().all(|c| st.facts.prove_ne(&st.n(&pa.addk(-c))));
            if al.is_some() && !unknown && !eqk(st, l, &pa) {
                let l = l.clone();
                bad(cx, "C15", "an alert of the peer is reported as another", &|| format!("{} for {}", show_lin(&l, 3), show_lin(&pa, 3)), st);
            }
        }
        return;
    }
    match st.gk("reject") {
        0 => {
            // the values the peer chose may still be refused
            if al != Some(47) {
                bad(cx, "C09", "an acceptable message is refused", &w, st);
            }
        },
        3 => (),
        r => {
            if e != "Tls" {
                bad(cx, "C05", "a message or record that is not acceptable is not answered with an alert", &w, st);
            } else if r == 2 && al != Some(10) {
                bad(cx, "C05", "a message of another type than expected is not answered with unexpected_message", &w, st);
            }
        },
    }
}

fn expected(k: Z) -> Z {
    match k {
        2 => 2,
        3 => 8,
        4 => 11,
        5 => 15,
        _ => 20,
    }
}

// ----------------------------------------------------------------------------------------- tokens

fn tok(op: &str, args: Vec<Arg>, n: Z) -> Val {
    Val::seq(Seq::src(term(op, args, None, None), Lin::k(n)))
}

/// the token a byte string is, with its arguments
fn which(st: &State, q: &Seq) -> Option<(String, Vec<Arg>)> {
    let q = st.nseq(q);
    match &q.0[..] {
        [Seg::S { src, off, .. }] if off.is_const() == Some(0) => {
            let d = def(*src)?;
            Some((d.op.to_string(), d.args.clone()))
        },
        _ => None,
    }
}

fn karg(a: &[Arg], i: usize) -> Option<Z> {
    match a.get(i) {
        Some(Arg::L(l)) => l.is_const(),
        _ => None,
    }
}

fn bytes(st: &State, v: &Val) -> Option<Seq> {
    match v {
        Val::Seq(q) => Some(st.nseq(q)),
        _ => None,
    }
}

fn zeros(q: &Seq) -> bool {
    q.0.iter().all(|s| match s {
        Seg::C(c) => c.iter().all(|b| *b == 0),
        Seg::Fill(b, _) => *b == 0,
        _ => false,
    })
}

pub fn call(cx: &mut In, st: &State, f: FnId, args: &[Val]) -> Option<R<Outs>> {
    let fu = &cx.p.fns[f];
    let d: &str = &fu.def;
    let last = d.rsplit("::").next().unwrap_or("");
    let sig = fu.sig.clone();
    let has = |s: &str| d.contains(s);
    let buf_hasher = has("hash::BufHasher") && !has("hmac::") || has("hash::Sha256 as");
    if buf_hasher {
        return match last {
            "new" => {
                let v = Val::Term(term("transcript", vec![Arg::L(Lin::k(0)), Arg::L(Lin::k(0))], None, None));
                Some(Ok(vec![(st.clone(), v)]))
            },
            "clone" => Some(one(cx, st, &args[0], sig.0[0])),
            "update_with" | "update" => Some(update(cx, st, args, &sig.0)),
            "get" | "finish" => Some(digest(cx, st, &args[0], sig.0[0])),
            "hash" => Some(hash(cx, st, f, args)),
            _ => None,
        };
    }
    match last {
        "extract" if has("hkdf::") => Some(extract(cx, st, args, &sig.0)),
        "expand" if has("hkdf::") => Some(expand(cx, st, args, &sig.0)),
        "new" if has("aead::") && (has("Gcm::<") || has("ChaCha20Poly1305")) => {
            let alg = if has("Gcm::<") { 0x1301 } else { 0x1303 };
            Some(aead_new(cx, st, args, &sig.0, alg))
        },
        "encrypt_inline" if has("as crylib::aead::Aead") => Some(encrypt(cx, st, args, &sig.0)),
        "decrypt_inline" if has("as crylib::aead::Aead") => Some(decrypt(cx, st, args, &sig)),
        "mul_scalar" | "mul_scalar_assign" if has("ProjectivePoint") => {
            let p = match content(cx, st, &args[0], sig.0[0], 3) {
                Ok(v) => v,
                Err(e) => return Some(Err(e)),
            };
            if !constant(&p) {
                return None;
            }
            let k = match content(cx, st, &args[1], sig.0[1], 3) {
                Ok(v) => v,
                Err(e) => return Some(Err(e)),
            };
            let mut s = st.clone();
            s.gset("priv", k);
            Some(uf(cx, &s, f, args))
        },
        _ => None,
    }
}

fn constant(p: &Val) -> bool {
    match p {
        Val::Adt(_, f) | Val::Arr(f) => f.iter().all(constant),
        Val::Int(l) => l.is_const().is_some(),
        Val::Seq(q) => q.as_const().is_some(),
        _ => false,
    }
}

fn one(cx: &mut In, st: &State, v: &Val, t: TyId) -> R<Outs> {
    let (t, _) = cx.peel(t);
    let e = match cx.p.ty(t) {
        TK::Ref(e, _) | TK::Ptr(e, _) => *e,
        _ => return Ok(vec![(st.clone(), v.clone())]),
    };
    let l = cx.ptr_loc(v, e)?;
    let x = cx.load(st, &l)?;
    Ok(vec![(st.clone(), x)])
}

// ------------------------------------------------------------------------------------- transcript

fn hasher(st: &State, v: &Val) -> Option<(Z, Lin)> {
    let Val::Term(s) = v else { return None };
    let d = def(*s)?;
    if &*d.op != "transcript" {
        return None;
    }
    let Arg::L(pos) = &d.args[1] else { return None };
    Some((karg(&d.args, 0)?, st.n(pos)))
}

fn bad_hasher() -> Val {
    Val::Term(term("bad_transcript", vec![], None, None))
}

fn update(cx: &mut In, st: &State, args: &[Val], tys: &[TyId]) -> R<Outs> {
    let h = content(cx, st, &args[0], tys[0], 2)?;
    let m = content(cx, st, &args[1], tys[1], 2)?;
    let mut s = st.clone();
    let (t, _) = cx.peel(tys[0]);
    let e = cx.pointee(t).unwrap_or(t);
    let l = cx.ptr_loc(&args[0], e)?;
    let v = match (hasher(st, &h), bytes(st, &m)) {
        (Some((k, pos)), Some(q)) => absorb(cx, &mut s, k, &pos, &q)?,
        _ => bad_hasher(),
    };
    cx.store(&mut s, &l, v)?;
    Ok(vec![(s, Val::unit())])
}

/// message `k` (0 ClientHello, 1 ServerHello, ...) of which `pos` bytes were absorbed is continued
fn absorb(cx: &mut In, st: &mut State, k: Z, pos: &Lin, q: &Seq) -> R<Val> {
    // messages with any content are sent to find panics only
    if st.gk("reject") == 3 {
        return Ok(bad_hasher());
    }
    cx.count("transcript_updates");
    let n = st.n(&q.len());
    let (whole, total, name) = if k == 0 {
        let m = if st.gk("hello") == 0 { st.gseq("hs") } else { st.gseq("ch") };
        let n = st.n(&m.len());
        (m, n, "the ClientHello as sent")
    } else {
        let mq = st.gseq("mq");
        let have = st.n(&mq.len());
        if !st.facts.prove_ge(&have.addk(-4)) {
            bad(cx, "C06", "the transcript is continued with something other than the next handshake message as received", &|| show_seq(q, 5), st);
            return Ok(bad_hasher());
        }
        let len = st.decode(&st.seq_slice(&mq, &Lin::k(1), &Lin::k(3))?, 3, true)?;
        let total = st.n(&len.addk(4));
        if *pos == Lin::k(0) {
            confirm(cx, st);
        }
        if !st.facts.prove_ge(&have.sub(&total)) {
            bad(cx, "C06", "the transcript is continued with something other than the next handshake message as received", &|| show_seq(q, 5), st);
            return Ok(bad_hasher());
        }
        (st.seq_slice(&mq, &Lin::k(0), &total)?, total, "the next handshake message as received")
    };
    let s0 = st.clone();
    let w = || format!("message {k} from {}: {}\nabsorbed {}", show_lin(pos, 4), show_seq(&s0.canon(&whole), 5), show_seq(&s0.canon(q), 5));
    let end = st.n(&pos.add(&n));
    if !st.facts.prove_ge(&total.sub(&end)) || !st.seq_same(q, &st.seq_slice(&whole, pos, &n)?) {
        bad(cx, "C06", &format!("the transcript is continued with something other than {name}"), &w, st);
        return Ok(bad_hasher());
    }
    if !eqk(st, &end, &total) {
        return Ok(Val::Term(term("transcript", vec![Arg::L(Lin::k(k)), Arg::L(end)], None, None)));
    }
    if k > 0 {
        let mq = st.gseq("mq");
        let t = st.n(&st.seq_at(&mq, &Lin::k(0))?);
        st.gset("mtype", Val::Int(t));
        let n = st.n(&mq.len().sub(&total));
        let mq = st.seq_slice(&mq, &total, &n)?;
        st.gset("mq", Val::seq(mq));
        st.gsetk("ccs", 0);
        if !st.facts.prove_ge(&Lin::k(0x20004).sub(&total)) {
            bad(cx, "C20", "a handshake message of more than 128 KiB is accepted", &w, st);
        }
    }
    st.gsetk("msgs", k + 1);
    Ok(Val::Term(term("transcript", vec![Arg::L(Lin::k(k + 1)), Arg::L(Lin::k(0))], None, None)))
}

fn digest(cx: &mut In, st: &State, h: &Val, t: TyId) -> R<Outs> {
    let h = content(cx, st, h, t, 2)?;
    let v = match hasher(st, &h) {
        Some((0, p)) if p == Lin::k(0) => tok("empty_hash", vec![], 32),
        Some((k, p)) => tok("transcript_hash", vec![Arg::L(Lin::k(k)), Arg::L(p)], 32),
        None => tok("bad_hash", vec![], 32),
    };
    Ok(vec![(st.clone(), v)])
}

fn hash(cx: &mut In, st: &State, f: FnId, args: &[Val]) -> R<Outs> {
    let t = cx.p.fns[f].sig.0[0];
    let m = content(cx, st, &args[0], t, 2)?;
    if let Some(q) = bytes(st, &m) {
        if st.n(&q.len()).is_const() == Some(0) {
            return Ok(vec![(st.clone(), tok("empty_hash", vec![], 32))]);
        }
    }
    uf(cx, st, f, args)
}

// ----------------------------------------------------------------------------------- key schedule

fn secret(name: &str, n: Z) -> Val {
    tok(&format!("secret {name}"), vec![], n)
}
fn bad_secret(n: Z) -> Val {
    tok("bad_secret", vec![], n)
}
fn is_bad(w: &Option<(String, Vec<Arg>)>) -> bool {
    w.as_ref().map_or(false, |w| w.0 == "bad_secret" || w.0 == "bad_hash")
}

fn extract(cx: &mut In, st: &State, args: &[Val], tys: &[TyId]) -> R<Outs> {
    cx.count("hkdf_extract");
    let ikm = content(cx, st, &args[0], tys[0], 2)?;
    let salt = content(cx, st, &args[1], tys[1], 2)?;
    let (Some(ikm), Some(salt)) = (bytes(st, &ikm), bytes(st, &salt)) else {
        return Ok(vec![(st.clone(), bad_secret(32))]);
    };
    let v = if zeros(&ikm) && zeros(&salt) && eqk(st, &ikm.len(), &Lin::k(32)) && st.facts.prove_ge(&Lin::k(64).sub(&salt.len())) {
        secret("early", 32)
    } else {
        let s = which(st, &salt);
        if is_bad(&s) || is_bad(&which(st, &ikm)) {
            bad_secret(32)
        } else if s.as_ref().map_or(false, |s| s.0 == "secret derived") {
            match shared(cx, st, &ikm) {
                Ok(()) => secret("handshake", 32),
                Err(why) => {
                    let w = || show_seq(&ikm, 14);
                    bad(cx, "C10", &why, &w, st);
                    bad_secret(32)
                },
            }
        } else {
            let w = || format!("ikm {}\nsalt {}", show_seq(&ikm, 6), show_seq(&salt, 6));
            bad(cx, "C07", "a secret is extracted that is not in the key schedule", &w, st);
            bad_secret(32)
        }
    };
    Ok(vec![(st.clone(), v)])
}

fn expand(cx: &mut In, st: &State, args: &[Val], tys: &[TyId]) -> R<Outs> {
    cx.count("hkdf_expand");
    let n = match &args[0] {
        Val::Ptr(p) => st.n(&p.len.clone().unwrap_or(Lin::k(0))),
        _ => Lin::k(0),
    };
    let prk = content(cx, st, &args[1], tys[1], 2)?;
    let info = content(cx, st, &args[2], tys[2], 2)?;
    let mut s = st.clone();
    let (Some(prk), Some(info)) = (bytes(st, &prk), bytes(st, &info)) else {
        let q = Seq::src(term("bad_secret", vec![], None, None), n);
        cx.set_bytes(&mut s, &args[0], &q)?;
        return Ok(vec![(s, Val::unit())]);
    };
    let w = which(st, &prk);
    let name = if is_bad(&w) { None } else { Some(label(st, w.as_ref().map(|w| &*w.0), n.is_const(), &info)?) };
    let q = match name {
        Some(Some(name)) => Seq::src(term(&format!("secret {name}"), vec![], None, None), n),
        Some(None) => {
            let d = || format!("from {}\nlength {}\ninfo {}", show_seq(&prk, 6), show_lin(&n, 3), show_seq(&info, 6));
            bad(cx, "C07", "a secret is derived that is not in the key schedule", &d, st);
            Seq::src(term("bad_secret", vec![], None, None), n)
        },
        None => Seq::src(term("bad_secret", vec![], None, None), n),
    };
    cx.set_bytes(&mut s, &args[0], &q)?;
    Ok(vec![(s, Val::unit())])
}

/// the secret HKDF-Expand-Label gives
fn label(st: &State, from: Option<&str>, n: Option<Z>, info: &Seq) -> R<Option<String>> {
    let Some(n) = n else { return Ok(None) };
    let Some(from) = from.and_then(|f| f.strip_prefix("secret ")) else { return Ok(None) };
    let len = st.n(&info.len());
    if !st.facts.prove_ge(&len.addk(-4)) {
        return Ok(None);
    }
    let out = st.n(&st.decode(&st.seq_slice(info, &Lin::k(0), &Lin::k(2))?, 2, true)?);
    if out.is_const() != Some(n) {
        return Ok(None);
    }
    let Some(l) = st.n(&st.seq_at(info, &Lin::k(2))?).is_const() else { return Ok(None) };
    if l < 7 || !st.facts.prove_ge(&len.addk(-4 - l)) {
        return Ok(None);
    }
    let Some(lab) = st.seq_slice(info, &Lin::k(3), &Lin::k(l))?.as_const() else { return Ok(None) };
    let Some(c) = st.n(&st.seq_at(info, &Lin::k(3 + l))?).is_const() else { return Ok(None) };
    if !eqk(st, &len, &Lin::k(4 + l + c)) {
        return Ok(None);
    }
    let ctx = st.seq_slice(info, &Lin::k(4 + l), &Lin::k(c))?;
    let ctx = if c == 0 { Some((String::new(), vec![])) } else { which(st, &ctx) };
    let Some((cn, ca)) = ctx else { return Ok(None) };
    let Some(lab) = lab.strip_prefix(b"tls13 ") else { return Ok(None) };
    let hello = cn == "transcript_hash" && c == 32 && karg(&ca, 0) == Some(2) && karg(&ca, 1) == Some(0);
    let empty = cn == "empty_hash" && c == 32;
    Ok(match (from, lab, n) {
        ("early", b"derived", 32) if empty => Some("derived".into()),
        ("handshake", b"c hs traffic", 32) if hello => Some("client".into()),
        ("handshake", b"s hs traffic", 32) if hello => Some("server".into()),
        ("client" | "server", b"key", 16 | 32) if c == 0 => Some(format!("{from} key {n}")),
        ("client" | "server", b"iv", 12) if c == 0 => Some(format!("{from} iv")),
        ("client" | "server", b"finished", 32) if c == 0 => Some(format!("{from} finished")),
        ("handshake", b"derived", 32) if empty => Some("derived2".into()),
        _ => None,
    })
}

fn values(d: &NodeKey) -> Vec<Val> {
    d.args
        .iter()
        .map(|a| match a {
            Arg::V(v) => v.clone(),
            Arg::L(l) => Val::Int(l.clone()),
            Arg::Q(q) => Val::seq((**q).clone()),
            _ => Val::Top,
        })
        .collect()
}

/// the operation all limbs of a number come from
fn origin(v: &Val) -> Option<std::rc::Rc<NodeKey>> {
    let l = limbs(v)?;
    let d = def(l.first()?.single()?)?;
    let stem = |s: &str| s.rsplit_once('[').map_or(s.to_string(), |x| x.0.to_string());
    for (i, x) in l.iter().enumerate() {
        let e = def(x.single()?)?;
        if stem(&e.op) != stem(&d.op) || e.args != d.args || !e.op.contains(&format!("[{i}]")) {
            return None;
        }
    }
    Some(d)
}

fn field(v: &Val, i: usize) -> Option<Val> {
    match v {
        Val::Adt(0, f) => f.get(i).cloned(),
        _ => None,
    }
}

/// the x coordinate of the private key times a validated point the peer sent
fn shared(cx: &mut In, st: &State, ikm: &Seq) -> Result<(), String> {
    cx.count("shared_secrets");
    let not = |s: &str| Err(s.to_string());
    const A: &str = "the shared secret is not the encoded x coordinate of a point";
    let Some((op, a)) = which(st, ikm) else { return not(A) };
    if !op.contains("::to_be_bytes") || !eqk(st, &ikm.len(), &Lin::k(32)) {
        return not(A);
    }
    let v = match &a[..] {
        [Arg::V(v)] => v.clone(),
        _ => return not(A),
    };
    let Some(d) = origin(&v) else { return not(A) };
    if !d.op.contains("::as_affine!") {
        return not(A);
    }
    let stem = d.op.rsplit_once('[').map_or("", |x| x.0);
    if !stem.contains("as_affine!1.0.0") {
        return not("the shared secret is not the x coordinate of the shared point");
    }
    const B: &str = "the shared point is not a multiple of a point the peer sent";
    let p = values(&d);
    let [p] = &p[..] else { return not(B) };
    let Some(m) = field(p, 0).and_then(|x| origin(&x)) else { return not(B) };
    if !m.op.contains("::mul_scalar") {
        return not(B);
    }
    let mv = values(&m);
    let [pt, k] = &mv[..] else { return not(B) };
    let private = st.g("priv");
    if !same(st, k, &private) {
        return not("the shared secret is not computed with the private key of the key share sent");
    }
    let Some(n) = field(pt, 0).and_then(|x| origin(&x)) else { return not("the point the peer sent is not checked to be on the curve") };
    if !(n.op.contains("AffinePoint") && n.op.contains("::new!")) {
        return not("the point the peer sent is not checked to be on the curve");
    }
    let c = values(&n);
    const C: &str = "the coordinates of the peer's point are not those it sent";
    let [x, y] = &c[..] else { return not(C) };
    let (Some(x), Some(y)) = (coordinate(st, x), coordinate(st, y)) else { return not(C) };
    let peer = term("peer_point", vec![], None, None);
    if x.0 != peer || y.0 != peer || x.1.is_const() != Some(0) || y.1.is_const() != Some(32) {
        return not(C);
    }
    Ok(())
}

fn same(st: &State, a: &Val, b: &Val) -> bool {
    match (limbs(a), limbs(b)) {
        (Some(a), Some(b)) => a.len() == b.len() && a.iter().zip(&b).all(|(x, y)| eqk(st, x, y)),
        _ => false,
    }
}

/// where the peer sent the number
fn coordinate(st: &State, v: &Val) -> Option<(Sym, Lin)> {
    let mut d = origin(v)?;
    if d.op.contains("try_from") {
        d = origin(values(&d).first()?)?;
    }
    if !d.op.contains("::from_be_bytes") {
        return None;
    }
    let a = values(&d);
    let Some(Val::Seq(q)) = a.first() else { return None };
    match &st.nseq(q).0[..] {
        [Seg::S { src, off, len }] if len.is_const() == Some(32) => Some((*src, off.clone())),
        _ => None,
    }
}

// ------------------------------------------------------------------------------------------- AEAD

const CLIENT: Z = 0;
const SERVER: Z = 1;

fn aead_new(cx: &mut In, st: &State, args: &[Val], tys: &[TyId], alg: Z) -> R<Outs> {
    cx.count("aead_keys");
    let key = content(cx, st, &args[0], tys[0], 2)?;
    let size = if alg == 0x1301 { 16 } else { 32 };
    let q = bytes(st, &key).unwrap_or(Seq::empty());
    let w = which(st, &q);
    let side = match w.as_ref().map(|w| &*w.0) {
        Some(n) if n == format!("secret client key {size}") => CLIENT,
        Some(n) if n == format!("secret server key {size}") => SERVER,
        _ => {
            if !is_bad(&w) {
                let d = || show_seq(&q, 6);
                bad(cx, "C07", "a record key is not one of the key schedule", &d, st);
            }
            return Ok(vec![(st.clone(), Val::Term(term("bad_aead", vec![], None, None)))]);
        },
    };
    let mut s = st.clone();
    confirm(cx, &s);
    negotiated(cx, &s, alg)?;
    s.gsetk("keys", 1);
    let v = Val::Term(term("aead", vec![Arg::L(Lin::k(side)), Arg::L(Lin::k(alg))], None, None));
    Ok(vec![(s, v)])
}

/// the suite in use is offered and selected by the ServerHello
fn negotiated(cx: &mut In, st: &State, alg: Z) -> R<()> {
    cx.count("negotiated_suites");
    let on = st.gk("c_suites");
    let offered = alg == 0x1301 && on & 2 != 0 || alg == 0x1303 && on & 1 != 0;
    if !offered {
        bad(cx, "C09", "a cipher suite is used that was not offered", &none, st);
    }
    let suite = Lin::k(st.gk("suite"));
    if suite.is_const() != Some(alg) {
        let d = || show_lin(&suite, 5);
        bad(cx, "C09", "a cipher suite is used that the ServerHello does not select", &d, st);
    }
    Ok(())
}

/// what the nonce of record number `seq` must be
fn nonce(cx: &mut In, st: &State, side: Z, seq: &Lin) -> R<Seq> {
    let iv = term(if side == CLIENT { "secret client iv" } else { "secret server iv" }, vec![], None, None);
    let mut v = vec![Seg::S { src: iv, off: Lin::k(0), len: Lin::k(4) }];
    for i in 0..8 {
        let a = byte_at(iv, &Lin::k(4 + i));
        let b = st.n(&st.byteof(seq, 7 - i as u32));
        let mut s = st.clone();
        v.push(Seg::B(cx.bitop(&mut s, "xor", &a, &b, false, 8)?));
    }
    Ok(st.nseq(&Seq(v)))
}

fn aead_of(st: &State, v: &Val) -> Option<(Z, Z)> {
    let _ = st;
    let Val::Term(s) = v else { return None };
    let d = def(*s)?;
    if &*d.op != "aead" {
        return None;
    }
    Some((karg(&d.args, 0)?, karg(&d.args, 1)?))
}

fn check_nonce(cx: &mut In, st: &State, side: Z, seq: &Lin, iv: &Val) -> R<()> {
    let want = nonce(cx, st, side, seq)?;
    let got = bytes(st, iv).unwrap_or(Seq::empty());
    if !st.seq_same(&want, &got) {
        let w = || format!("expected {}\ngot {}", show_seq(&want, 5), show_seq(&got, 5));
        bad(cx, "C02", "a record is not processed with the nonce of its number", &w, st);
    }
    Ok(())
}

fn encrypt(cx: &mut In, st: &State, args: &[Val], tys: &[TyId]) -> R<Outs> {
    cx.count("encryptions");
    let key = content(cx, st, &args[0], tys[0], 2)?;
    let ad = content(cx, st, &args[2], tys[2], 2)?;
    let iv = content(cx, st, &args[3], tys[3], 2)?;
    let n = match &args[1] {
        Val::Ptr(p) => st.n(&p.len.clone().unwrap_or(Lin::k(0))),
        _ => Lin::k(0),
    };
    let msg = cx.bytes_at(st, &args[1], &n)?;
    let seq = st.glin("wseq");
    match aead_of(st, &key) {
        Some((CLIENT, _)) => {},
        Some(_) => bad(cx, "C07", "a record is encrypted with the key of the server", &none, st),
        None => {},
    }
    check_nonce(cx, st, CLIENT, &seq, &iv)?;
    let mut s = st.clone();
    s.gset("sealed", Val::seq(msg));
    s.gset("sealed_ad", Val::seq(bytes(st, &ad).unwrap_or(Seq::empty())));
    let q = Seq::src(term("ciphertext", vec![Arg::L(seq.clone())], None, None), n);
    cx.set_bytes(&mut s, &args[1], &q)?;
    s.gset("wseq", Val::Int(st.n(&seq.addk(1))));
    let tag = tok("tag", vec![Arg::L(seq)], 16);
    Ok(vec![(s, tag)])
}

/// the plaintext of a protected record handed to the transport
pub fn unseal(cx: &mut In, st: &mut State, record: &Seq) -> R<Option<Seq>> {
    let inner = st.gseq("sealed");
    let n = st.n(&record.len());
    let seq = st.n(&st.glin("wseq").addk(-1));
    let ct = Seq::src(term("ciphertext", vec![Arg::L(seq.clone())], None, None), st.n(&inner.len()));
    let tag = Seq::src(term("tag", vec![Arg::L(seq)], None, None), Lin::k(16));
    let want = st.seq_cat(&ct, &tag);
    let got = st.seq_slice(record, &Lin::k(5), &n.addk(-5))?;
    let w = || format!("expected {}\ngot {}", show_seq(&want, 5), show_seq(&got, 5));
    if !st.seq_same(&want, &got) {
        bad(cx, "C02", "a protected record is not the one just encrypted", &w, st);
        return Ok(None);
    }
    let hdr = st.seq_slice(record, &Lin::k(0), &Lin::k(5))?;
    let ad = st.gseq("sealed_ad");
    if !st.seq_same(&hdr, &ad) {
        let w = || format!("header {}\nauthenticated {}", show_seq(&hdr, 5), show_seq(&ad, 5));
        bad(cx, "C02", "the header of a protected record is not authenticated with it", &w, st);
    }
    st.gset("sealed", Val::seq(Seq::empty()));
    Ok(Some(inner))
}

fn decrypt(cx: &mut In, st: &State, args: &[Val], sig: &(Vec<TyId>, TyId)) -> R<Outs> {
    cx.count("decryptions");
    let tys = &sig.0;
    must(cx, st);
    let key = content(cx, st, &args[0], tys[0], 2)?;
    let ad = content(cx, st, &args[2], tys[2], 2)?;
    let iv = content(cx, st, &args[3], tys[3], 2)?;
    let tag = content(cx, st, &args[4], tys[4], 2)?;
    let n = match &args[1] {
        Val::Ptr(p) => st.n(&p.len.clone().unwrap_or(Lin::k(0))),
        _ => Lin::k(0),
    };
    let msg = cx.bytes_at(st, &args[1], &n)?;
    match aead_of(st, &key) {
        Some((SERVER, _)) => {},
        Some(_) => bad(cx, "C07", "a record is decrypted with the key of the client", &none, st),
        None => {},
    }
    let mut s = st.clone();
    let seq = st.glin("rseq");
    check_nonce(cx, st, SERVER, &seq, &iv)?;
    s.gset("rseq", Val::Int(st.n(&seq.addk(1))));
    // what is authenticated is the record received
    let rec = s.gseq("pay");
    let hdr = s.gseq("hdr");
    let whole = s.seq_cat(&msg, &bytes(st, &tag).unwrap_or(Seq::empty()));
    let ad = bytes(st, &ad).unwrap_or(Seq::empty());
    let w = || format!("record {} {}\ngot {} {}", show_seq(&hdr, 5), show_seq(&rec, 5), show_seq(&ad, 5), show_seq(&whole, 5));
    if !s.seq_same(&whole, &rec) || !s.seq_same(&ad, &hdr) || s.gk("kind") != K_PROT {
        bad(cx, "C04", "what is decrypted is not the protected record received", &w, st);
    }
    let (rt, _) = cx.peel(sig.1);
    let TK::Adt { vs, .. } = cx.p.ty(rt).clone() else { return Ok(vec![]) };
    let ok = vs.iter().position(|v| &*v.name == "Ok").unwrap_or(0) as u32;
    let val = |k: u32| Val::adt(k, vs[k as usize].fields.iter().map(|_| Val::unit()).collect());
    let mut outs = vec![];
    // not authentic
    let mut e = s.clone();
    e.gsetk("must", BAD_RECORD_MAC + 1);
    let junk = Seq::src(cx.unknown("junk", None, None), n.clone());
    cx.set_bytes(&mut e, &args[1], &junk)?;
    e.gsetk("kind", K_OTHER);
    outs.push((e, val(1 - ok)));
    let inner = s.gseq("inner");
    if !eqk(&s, &inner.len(), &n) {
        // reported above
        return Ok(outs);
    }
    if s.gk("toolong") != 0 {
        s.gsetk("toolong", 0);
        s.gsetk("must", RECORD_OVERFLOW + 1);
    }
    cx.set_bytes(&mut s, &args[1], &inner)?;
    // handshake data, without the type and the padding
    if let Some(c) = handshake_data(&s, &inner)? {
        let q = s.seq_cat(&s.gseq("mq"), &c);
        s.gset("mq", Val::seq(q));
    }
    s.gsetk("kind", K_NONE);
    outs.push((s, val(ok)));
    Ok(outs)
}

fn handshake_data(st: &State, q: &Seq) -> R<Option<Seq>> {
    let Some(mut n) = st.n(&q.len()).is_const() else { return Ok(None) };
    while n > 0 {
        match st.n(&st.seq_at(q, &Lin::k(n - 1))?).is_const() {
            Some(0) => n -= 1,
            Some(22) => return Ok(Some(st.seq_slice(q, &Lin::k(0), &Lin::k(n - 1))?)),
            _ => return Ok(None),
        }
    }
    Ok(None)
}
