//! Specification monitors: ghost variables that follow what the application and the transport
//! observe, and the obligations on it. A failed obligation is an event named after its property.
use crate::ideal;
use crate::interp::*;
use crate::prog::*;
use crate::state::*;
use crate::term::*;
use std::rc::Rc;

/// ghost "io": result of the last transport call
pub const NONE: Z = 0;
pub const READ_OK: Z = 1;
pub const READ_FAILED: Z = 2;
pub const WRITE_OK: Z = 3;
pub const WRITE_FAILED: Z = 4;

/// no connection attempt is under way; the next transport call belongs to a fresh transport
pub fn reset(st: &mut State) {
    st.gsetk("open", 0);
    st.gsetk("io", NONE);
    st.gsetk("closed", 0);
    // alert passed to the transport: 0 none, 1 attempted
    st.gsetk("alerted", 0);
    st.gset("alert", Val::k(0));
    // record being written
    st.gsetk("mid", 0);
    st.gset("wpos", Val::k(0));
    st.gset("full", Val::seq(Seq::empty()));
    // handshake bytes written in complete records
    st.gset("hs", Val::seq(Seq::empty()));
    st.gsetk("hello", 0);
    // random strings drawn in this attempt
    st.gsetk("draws", 0);
    st.gset("draw1", Val::seq(Seq::empty()));
    st.gset("draw2", Val::seq(Seq::empty()));
    ideal::reset(st);
}

fn none() -> String {
    String::new()
}

pub fn bad(cx: &mut In, prop: &str, msg: &str, what: &dyn Fn() -> String, st: &State) {
    // content the analysis itself lost at a join proves nothing
    let d = what();
    if d.contains("phiq#") {
        cx.event2("imprecise", &format!("undecided: {msg}"), &|| d.clone(), Some(st));
        return;
    }
    cx.event2(prop, msg, &|| d.clone(), Some(st));
}

fn byte(st: &State, q: &Seq, i: Z) -> R<Option<Z>> {
    Ok(st.n(&st.seq_at(q, &Lin::k(i))?).is_const())
}

fn eqk(st: &State, l: &Lin, k: &Lin) -> bool {
    st.facts.prove_eq(&l.sub(k))
}

/// obligations on the bytes handed to the write callback
pub fn write(cx: &mut In, st: &mut State, q: &Seq, amt: &Lin) -> R<()> {
    cx.count("writes");
    if st.gk("closed") != 0 {
        bad(cx, "C11", "data is written after the connection was closed", &none, st);
    }
    if !st.facts.prove_ge(&amt.addk(-1)) {
        if !st.dge(&amt.addk(-1))? {
            bad(cx, "C19", "the write callback is called without data", &none, st);
            return Ok(());
        }
    }
    if st.gk("mid") != 0 {
        let full = st.gseq("full");
        let pos = st.glin("wpos");
        let n = st.n(&full.len().sub(&pos));
        let rest = st.seq_slice(&full, &pos, &n)?;
        if !eqk(st, &n, amt) || !st.seq_same(q, &rest) {
            let w = || format!("expected {}\ngot {}", show_seq(&st.canon(&rest), 5), show_seq(&st.canon(q), 5));
            bad(cx, "C12", "a partly written record is not continued with its remaining bytes", &w, st);
        }
        return Ok(());
    }
    // a new record
    if st.gk("alerted") != 0 {
        bad(cx, "C11", "a record is written after an alert", &none, st);
    }
    cx.count("records");
    let w = || show_seq(&st.canon(q), 5);
    if !st.facts.prove_ge(&amt.addk(-6)) {
        bad(cx, "C19", "the write callback gets less than a whole record", &w, st);
        return Ok(());
    }
    let t = byte(st, q, 0)?;
    let (lo, hi) = match t {
        Some(20..=22) => (1, 1 << 14),
        Some(23) => (17, (1 << 14) + 256),
        _ => {
            bad(cx, "C19", "a record has no known content type", &w, st);
            return Ok(());
        },
    };
    if byte(st, q, 1)? != Some(3) || !matches!(byte(st, q, 2)?, Some(1 | 3)) {
        bad(cx, "C19", "a record does not have the legacy version", &w, st);
    }
    let len = st.decode(&st.seq_sub(q, &Lin::k(3), &Lin::k(2))?, 2, true)?;
    if !eqk(st, &len.addk(5), amt) {
        bad(cx, "C19", "the length field of a record is not the length of its data", &w, st);
    }
    if !st.facts.prove_ge(&amt.addk(-5 - lo)) || !st.facts.prove_ge(&Lin::k(hi + 5).sub(amt)) {
        bad(cx, "C19", "a record is empty or longer than the protocol allows", &w, st);
    }
    if t == Some(21) {
        if st.gk("keys") != 0 {
            bad(cx, "C04", "an alert is sent unprotected although keys are established", &w, st);
        }
        alert(cx, st, &st.seq_sub(q, &Lin::k(5), &amt.addk(-5))?)?;
    }
    if t == Some(23) {
        if let Some(inner) = ideal::unseal(cx, st, q)? {
            let n = st.n(&inner.len());
            let m = st.seq_slice(&inner, &Lin::k(0), &n.addk(-1))?;
            let ct = st.n(&st.seq_at(&inner, &n.addk(-1))?).is_const();
            match ct {
                Some(21) => alert(cx, st, &m)?,
                Some(22 | 23) => {},
                _ => bad(cx, "C19", "a protected record has no known content type", &|| show_seq(&inner, 5), st),
            }
        }
    }
    st.gset("full", Val::seq(q.clone()));
    Ok(())
}

/// an alert is about to be sent
pub fn alert(cx: &mut In, st: &mut State, m: &Seq) -> R<()> {
    let w = || show_seq(&st.canon(m), 5);
    if !eqk(st, &m.len(), &Lin::k(2)) || byte(st, m, 0)? != Some(2) {
        bad(cx, "C11", "an alert is not a fatal level and a description", &w, st);
        return Ok(());
    }
    let c = st.n(&st.seq_at(m, &Lin::k(1))?);
    st.gsetk("alerted", 1);
    st.gset("alert", Val::Int(c));
    Ok(())
}

/// `n` bytes were accepted (n <= amt)
pub fn accepted(cx: &mut In, st: &mut State, q: &Seq, n: &Lin, amt: &Lin) -> R<()> {
    let _ = q;
    let all = st.n(&amt.sub(n));
    let done = if all.is_const() == Some(0) { true } else { !st.dge(&all.addk(-1))? };
    if !done {
        let pos = st.n(&st.glin("wpos").add(n));
        st.gsetk("mid", 1);
        st.gset("wpos", Val::Int(pos));
        return Ok(());
    }
    let full = st.gseq("full");
    st.gsetk("mid", 0);
    st.gset("wpos", Val::k(0));
    st.gset("full", Val::seq(Seq::empty()));
    if full.0.is_empty() {
        return Ok(());
    }
    if byte(st, &full, 0)? == Some(22) {
        let (_, m) = st.seq_split(&full, &Lin::k(5))?;
        let h = st.gseq("hs");
        let h = st.seq_cat(&h, &m);
        st.gset("hs", Val::seq(h));
    }
    let _ = cx;
    Ok(())
}

/// the transport took nothing of `q`
pub fn refused(st: &mut State, q: &Seq) {
    st.gsetk("io", WRITE_FAILED);
    let _ = q;
    st.gsetk("mid", 1);
}

/// the client waits for the server
pub fn read(cx: &mut In, st: &mut State) -> R<()> {
    cx.count("reads");
    if st.gk("closed") != 0 {
        bad(cx, "C11", "data is read after the connection was closed", &none, st);
    }
    if st.gk("alerted") != 0 {
        bad(cx, "C11", "data is read after an alert", &none, st);
    }
    if st.gk("mid") != 0 {
        bad(cx, "C12", "the client waits for the server before a record is completely written", &none, st);
    }
    if st.gk("hello") == 0 {
        let m = st.gseq("hs");
        client_hello(cx, st, &m)?;
        st.gsetk("hello", 1);
        st.gset("ch", Val::seq(m));
        st.gset("hs", Val::seq(Seq::empty()));
    } else if !st.gseq("hs").0.is_empty() {
        bad(cx, "C05", "the client sends a handshake message it must not send", &none, st);
    }
    Ok(())
}

pub fn closing(cx: &mut In, st: &mut State) {
    if st.gk("closed") != 0 {
        bad(cx, "C11", "the connection is closed twice", &none, st);
    }
    st.gsetk("closed", 1);
}

/// 256-bit strings drawn from the system's generator
pub fn draw(st: &mut State, q: &Seq) {
    match st.gk("draws") {
        0 => {
            st.gsetk("draws", 1);
            st.gset("draw1", Val::seq(q.clone()));
        },
        1 => {
            st.gsetk("draws", 2);
            st.gset("draw2", Val::seq(q.clone()));
        },
        _ => st.gsetk("draws", 3),
    }
}

pub struct Cfg {
    pub suites: u8,
    pub groups: bool,
    pub sigs: bool,
    pub name: Option<Seq>,
    pub protos: Option<Seq>,
}

struct Cur {
    q: Seq,
}
impl Cur {
    fn take(&mut self, st: &State, n: &Lin) -> R<Seq> {
        let (a, b) = st.seq_split(&self.q, n)?;
        self.q = b;
        Ok(a)
    }
    fn int(&mut self, st: &State, w: u32) -> R<Lin> {
        let a = self.take(st, &Lin::k(w as Z))?;
        Ok(st.n(&st.decode(&a, w, true)?))
    }
    fn len(&self, st: &State) -> Lin {
        st.n(&self.q.len())
    }
    /// a vector with a length field, if its length is provably within the rest
    fn vec(&mut self, cx: &mut In, st: &State, w: u32, name: &str) -> R<Option<Cur>> {
        if !st.facts.prove_ge(&self.len(st).addk(-(w as Z))) {
            bad(cx, "C08", &format!("the ClientHello ends within the length of {name}"), &|| show_seq(&st.canon(&self.q), 5), st);
            return Ok(None);
        }
        let n = self.int(st, w)?;
        if !st.facts.prove_ge(&self.len(st).sub(&n)) || !st.facts.prove_ge(&n) {
            bad(cx, "C08", &format!("the length of {name} in the ClientHello exceeds the data"), &|| show_seq(&st.canon(&self.q), 5), st);
            return Ok(None);
        }
        let q = self.take(st, &n)?;
        Ok(Some(Cur { q }))
    }
    fn is(&self, st: &State, b: &[u8]) -> bool {
        st.seq_same(&self.q, &Seq::bytes(b))
    }
}

/// the handshake bytes written before the client first waits must be one ClientHello
pub fn client_hello(cx: &mut In, st: &State, m: &Seq) -> R<()> {
    cx.count("client_hellos");
    let no = |cx: &mut In, msg: &str| -> R<()> {
        bad(cx, "C08", msg, &|| show_seq(&st.canon(m), 5), st);
        Ok(())
    };
    let mut c = Cur { q: m.clone() };
    if !st.facts.prove_ge(&c.len(st).addk(-44)) {
        return no(cx, "the client waits for the server without having sent a ClientHello");
    }
    if c.int(st, 1)?.is_const() != Some(1) {
        return no(cx, "the first handshake message is not a ClientHello");
    }
    let n = c.int(st, 3)?;
    if !eqk(st, &n, &c.len(st)) {
        return no(cx, "the length of the ClientHello is not the length of its data");
    }
    if c.int(st, 2)?.is_const() != Some(0x303) {
        return no(cx, "the ClientHello does not have the legacy version");
    }
    let random = c.take(st, &Lin::k(32))?;
    randomness(cx, st, &random);
    let Some(sid) = c.vec(cx, st, 1, "the session id")? else { return Ok(()) };
    if !st.facts.prove_ge(&Lin::k(32).sub(&sid.len(st))) {
        return no(cx, "the session id is too long");
    }
    let Some(mut suites) = c.vec(cx, st, 2, "the cipher suites")? else { return Ok(()) };
    let mut offered = vec![];
    while st.n(&suites.len(st)).is_const() != Some(0) {
        if !st.facts.prove_ge(&suites.len(st).addk(-2)) {
            return no(cx, "the cipher suites are not a list of two-byte values");
        }
        match suites.int(st, 2)?.is_const() {
            Some(x) => offered.push(x),
            None => return no(cx, "an offered cipher suite is not a known code"),
        }
    }
    let Some(comp) = c.vec(cx, st, 1, "the compression methods")? else { return Ok(()) };
    if !comp.is(st, &[0]) {
        return no(cx, "the compression methods are not just null");
    }
    let Some(mut exts) = c.vec(cx, st, 2, "the extensions")? else { return Ok(()) };
    if !eqk(st, &c.len(st), &Lin::k(0)) {
        return no(cx, "the extensions do not end with the ClientHello");
    }
    let mut seen: Vec<(Z, Cur)> = vec![];
    while !eqk(st, &exts.len(st), &Lin::k(0)) {
        if seen.len() > 16 || !st.facts.prove_ge(&exts.len(st).addk(-4)) {
            return no(cx, "the extensions are not a list of extensions");
        }
        let Some(t) = exts.int(st, 2)?.is_const() else { return no(cx, "an extension has no known type") };
        let Some(d) = exts.vec(cx, st, 2, &format!("extension {t}"))? else { return Ok(()) };
        if seen.iter().any(|s| s.0 == t) {
            return no(cx, &format!("extension {t} is sent twice"));
        }
        seen.push((t, d));
    }
    let cfg = config(cx, st);
    // what the configuration enables is what is offered
    let mut want = vec![];
    if cfg.suites & 1 != 0 {
        want.push(0x1303);
    }
    if cfg.suites & 2 != 0 {
        want.push(0x1301);
    }
    offered.sort();
    want.sort();
    if offered != want {
        no(cx, &format!("the offered cipher suites {offered:x?} are not the enabled ones {want:x?}"))?;
    }
    let mut exp = vec![43];
    if cfg.groups {
        exp.extend([10, 51]);
    }
    if cfg.sigs {
        exp.push(13);
    }
    if cfg.name.is_some() {
        exp.push(0);
    }
    if cfg.protos.is_some() {
        exp.push(16);
    }
    exp.sort();
    let mut got: Vec<Z> = seen.iter().map(|s| s.0).collect();
    got.sort();
    if got != exp {
        return no(cx, &format!("the extensions {got:?} are sent, the configuration asks for {exp:?}"));
    }
    for (t, mut d) in seen {
        let ok = match t {
            43 => d.is(st, &[2, 3, 4]),
            10 => d.is(st, &[0, 2, 0, 0x17]),
            13 => d.is(st, &[0, 2, 4, 3]),
            51 => {
                let ok = eqk(st, &d.len(st), &Lin::k(71))
                    && d.int(st, 2)?.is_const() == Some(69)
                    && d.int(st, 2)?.is_const() == Some(0x17)
                    && d.int(st, 2)?.is_const() == Some(65)
                    && d.int(st, 1)?.is_const() == Some(4);
                if ok {
                    share(cx, st, &d.q);
                }
                ok
            },
            0 => {
                let name = cfg.name.clone().unwrap();
                let n = name.len();
                eqk(st, &d.len(st), &n.addk(5))
                    && eqk(st, &d.int(st, 2)?, &n.addk(3))
                    && d.int(st, 1)?.is_const() == Some(0)
                    && eqk(st, &d.int(st, 2)?, &n)
                    && st.seq_same(&d.q, &name)
            },
            16 => {
                let p = cfg.protos.clone().unwrap();
                let n = p.len();
                eqk(st, &d.len(st), &n.addk(2)) && eqk(st, &d.int(st, 2)?, &n) && st.seq_same(&d.q, &p)
            },
            _ => true,
        };
        if !ok {
            no(cx, &format!("the content of extension {t} is not what the configuration asks for"))?;
        }
        cx.count("extensions");
    }
    Ok(())
}

/// the sources a value is computed from
fn sources(q: &Seq) -> std::collections::HashSet<Sym> {
    let mut o = std::collections::HashSet::new();
    syms_seq(q, &mut o, 64);
    o
}

fn src_of(q: &Seq) -> Option<Sym> {
    match &q.0[..] {
        [Seg::S { src, off, len }] if off.is_const() == Some(0) && len.is_const() == Some(32) => Some(*src),
        _ => None,
    }
}

fn randomness(cx: &mut In, st: &State, random: &Seq) {
    let (a, b) = (st.gseq("draw1"), st.gseq("draw2"));
    let w = || format!("random {} draws {} {}", show_seq(random, 4), show_seq(&a, 4), show_seq(&b, 4));
    let from = [&a, &b].iter().position(|d| !d.0.is_empty() && st.seq_same(random, d));
    if from.is_none() {
        bad(cx, "C18", "the random of the ClientHello is not 32 bytes drawn for this connection", &w, st);
    }
}

fn share(cx: &mut In, st: &State, point: &Seq) {
    let (a, b) = (st.gseq("draw1"), st.gseq("draw2"));
    let s = sources(&st.canon(point));
    let w = || format!("share {} draws {} {}", show_seq(point, 12), show_seq(&a, 4), show_seq(&b, 4));
    let used: Vec<bool> = [&a, &b]
        .iter()
        .map(|d| src_of(&st.canon(d)).map_or(false, |x| s.contains(&x)))
        .collect();
    if used.iter().filter(|x| **x).count() != 1 {
        bad(cx, "C18", "the key share is not computed from one string drawn for this connection", &w, st);
    }
}

/// the configuration in force, as the application set it
pub fn config(cx: &mut In, st: &State) -> Cfg {
    let _ = cx;
    let n = |k: &'static str| st.gk(k);
    let q = |k: &'static str, on: &'static str| if n(on) != 0 { Some(st.gseq(k)) } else { None };
    Cfg {
        suites: n("c_suites") as u8,
        groups: n("c_groups") != 0,
        sigs: n("c_sigs") != 0,
        name: q("c_name", "c_named"),
        protos: q("c_protos", "c_alpn"),
    }
}

/// the code behind an enumeration value and its name
pub fn variant(cx: &mut In, st: &State, v: &Val, t: TyId) -> Option<(Z, String)> {
    let (t, _) = cx.peel(t);
    let c = st.n(v.lin()?).is_const()?;
    let TK::Adt { vs, .. } = cx.p.ty(t) else { return None };
    vs.iter().find(|v| v.discr == c).map(|v| (c, v.name.to_string()))
}

/// obligations when turtls_connect returns
pub fn connected(cx: &mut In, mut s: State, r: &Val, err: (Val, TyId), alert: (Val, TyId)) -> State {
    cx.count("connect_returns");
    let r = r.lin().and_then(|l| s.n(l).is_const());
    match r {
        Some(1) => return s,
        Some(-1) => {},
        _ => {
            bad(cx, "C11", "turtls_connect returns neither success nor an error", &none, &s);
            return s;
        },
    }
    let e = variant(cx, &s, &err.0, err.1);
    let Some((_, e)) = e else {
        bad(cx, "C11", "the reported error is undetermined", &|| show_val(&err.0, 4), &s);
        return s;
    };
    let w = || format!("error {e}, alert {}", show_val(&alert.0, 3));
    let closed = s.gk("closed");
    if matches!(&*e, "WantRead" | "WantWrite") {
        let io = if e == "WantRead" { READ_FAILED } else { WRITE_FAILED };
        if s.gk("io") != io {
            bad(cx, "C11", &format!("{e} is reported although that operation did not fail"), &w, &s);
        }
        if closed != 0 || s.gk("alerted") != 0 {
            bad(cx, "C11", &format!("the connection is closed although {e} can be resumed"), &w, &s);
        }
        s.gsetk("open", 1);
        s.gsetk("io", NONE);
        ideal::waiting(&mut s);
        return s;
    }
    if closed == 0 {
        bad(cx, "C11", &format!("the connection is not closed after {e}"), &w, &s);
    }
    ideal::ended(cx, &s, &e, alert.0.lin());
    match &*e {
        "Tls" => {
            if s.gk("alerted") == 0 {
                if s.gk("io") != WRITE_FAILED {
                    bad(cx, "C11", "the peer is not alerted of a protocol error", &w, &s);
                }
            } else {
                let c = s.glin("alert");
                match alert.0.lin() {
                    Some(l) if eqk(&s, l, &c) => {},
                    _ => bad(cx, "C11", "the alert sent is not the alert reported", &w, &s),
                }
            }
        },
        "TlsPeer" => {
            if s.gk("alerted") != 0 {
                bad(cx, "C11", "an alert is answered with an alert", &w, &s);
            }
        },
        "Rng" | "PrivKeyIsZero" | "MissingExtensions" | "ExtensionsTooLong" => {
            if s.gk("hello") != 0 || !s.gseq("hs").0.is_empty() || s.gk("alerted") != 0 || s.gk("mid") != 0 {
                bad(cx, "C11", &format!("{e} is reported after the handshake has started"), &w, &s);
            }
        },
        _ => {},
    }
    reset(&mut s);
    s
}

/// obligations when turtls_close returns
pub fn closed(cx: &mut In, before: &State, mut s: State) -> State {
    cx.count("close_returns");
    let open = before.gk("open") != 0;
    let w = &none;
    if !open {
        if s.gk("closed") != 0 || s.gk("alerted") != 0 || s.gk("io") != NONE {
            bad(cx, "C11", "closing an idle connection uses the transport", w, &s);
        }
    } else {
        if s.gk("closed") == 0 {
            bad(cx, "C11", "turtls_close does not close the connection", w, &s);
        }
        if s.gk("alerted") == 0 {
            if s.gk("io") != WRITE_FAILED {
                bad(cx, "C11", "turtls_close does not send close_notify", w, &s);
            }
        } else if s.glin("alert").is_const() != Some(0) {
            bad(cx, "C11", "turtls_close sends an alert other than close_notify", w, &s);
        }
    }
    reset(&mut s);
    s
}

pub fn seq_ptr(cx: &In, st: &State, v: &Val) -> Option<Seq> {
    match v {
        Val::Ptr(p) => match cx.peek(st, p.obj, &p.path) {
            Val::Seq(q) => Some((*q).clone()),
            _ => None,
        },
        _ => None,
    }
}

pub type Rcs = Rc<Seq>;

/// what turtls_app_proto reports after turtls_connect returned: messages in the transcript, and whether and
/// which protocol is in the last message the server sent
pub fn protocol(cx: &mut In, s: &State, p: &Val, (msgs, alpn, name): &(Z, Z, Seq)) {
    let (on, want) = match (*alpn != 0 && *msgs >= 3, s.gk("open") != 0) {
        (true, true) => (true, name.clone()),
        (true, false) => return,
        // no connection was made
        (false, false) if *msgs == 0 => return,
        _ => (false, Seq::empty()),
    };
    cx.count("protocols");
    let n = want.len();
    match cx.bytes_at(s, p, &n.addk(1)) {
        Err(e) => bad(cx, "C22", "the protocol reported is no string", &|| format!("{e:?}"), s),
        Ok(q) => {
            let w = s.seq_cat(&want, &Seq::bytes(&[0]));
            if !s.seq_same(&q, &w) {
                let f = || format!("{} for {}", show_seq(&q, 4), show_seq(&w, 4));
                let what = match on {
                    true => "the protocol reported is not the one the server selected",
                    false => "a protocol is reported although the server has selected none",
                };
                bad(cx, "C22", what, &f, s);
                if !on {
                    bad(cx, "C13", what, &f, s);
                }
            }
        },
    }
}
