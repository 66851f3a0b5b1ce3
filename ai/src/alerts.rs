//! Decoding and naming of alerts: abstract interpretation of the two total functions over their
//! whole input domain, case split on the finite set of codes.
use crate::interp::*;
use crate::prog::*;
use crate::rep::Rep as Report;
use crate::state::*;
use crate::term::*;
use std::collections::BTreeMap;
use std::rc::Rc;

pub struct Plain;
impl Hooks for Plain {
    fn call(&self, _: &mut In, _: &State, _: FnId, _: &[Val]) -> Option<R<Outs>> {
        None
    }
    fn tok(&self, _: &mut In, _: &State, n: &str, _: &[Val], _: TyId) -> R<Outs> {
        Err(Fork::Oob(format!("call of unknown callback {n}")))
    }
}

pub fn check(p: &Prog, rep: &mut Report) {
    let mut cx = In::new(p, Rc::new(Plain));
    cx.limit = 512;
    let is_alert = |t: TyId| matches!(p.ty(t), TK::Adt { def, .. } if def.ends_with("::TurtlsAlert"));
    let mut dec = 0;
    for (f, fu) in p.fns.iter().enumerate() {
        if &*fu.krate != "turtls" || fu.body.is_none() {
            continue;
        }
        let (ins, out) = fu.sig.clone();
        if ins.len() == 1 && is_alert(out) && matches!(p.ty(ins[0]), TK::Int { bits: 8, .. }) {
            dec += 1;
            let TK::Adt { vs, .. } = p.ty(cx.peel(out).0).clone() else { continue };
            let codes: Vec<Z> = vs.iter().map(|v| v.discr).collect();
            let x = Lin::s(fresh("byte", Some(0), Some(255)));
            let st = State::new();
            let outs = cx.run(st, f, vec![Val::Int(x.clone())]);
            let mut seen: BTreeMap<Z, Z> = BTreeMap::new();
            let mut ok_shape = true;
            for (s, v) in &outs {
                let Some(r) = v.lin().map(|l| s.n(l)) else {
                    ok_shape = false;
                    continue;
                };
                for b in 0..256 {
                    let mut t = s.clone();
                    t.facts.assume_eq(&x.addk(-b));
                    if t.bad() || t.eval(&Cond::eq(&x, &Lin::k(b))) == Some(false) {
                        continue;
                    }
                    match t.n(&r).is_const() {
                        Some(c) => {
                            if let Some(o) = seen.insert(b, c) {
                                if o != c {
                                    ok_shape = false;
                                }
                            }
                        },
                        None => ok_shape = false,
                    }
                }
            }
            rep.ob("decode:shape", ok_shape, "the decoded alert is not a function of the byte", &p.site(f));
            for b in 0..256 {
                let c = seen.get(&b).copied();
                if codes.contains(&b) {
                    rep.ob(&format!("decode:{b}"), c == Some(b), &format!("alert byte {b} is decoded as {c:?}"), &p.site(f));
                } else {
                    rep.ob(
                        &format!("decode:{b}"),
                        c.map_or(false, |c| codes.contains(&c) && c != 0),
                        &format!("unassigned alert byte {b} is decoded as {c:?}"),
                        &p.site(f),
                    );
                }
            }
        }
    }
    rep.stat("alert_decoders", dec);
    rep.ob("decode:anchor", dec > 0, "no function decodes an alert byte", "");
    // names
    let name = p.fns.iter().position(|f| &*f.sym == "turtls_stringify_alert");
    let Some(f) = name else {
        rep.fail("names:anchor", "turtls_stringify_alert is not exported", "");
        return;
    };
    let at = p.fns[f].sig.0[0];
    let TK::Adt { vs, .. } = p.ty(cx.peel(at).0).clone() else {
        rep.fail("names:anchor", "turtls_stringify_alert does not take an alert", "");
        return;
    };
    let mut names: BTreeMap<Vec<u8>, Z> = BTreeMap::new();
    for v in &vs {
        let outs = cx.run(State::new(), f, vec![Val::En(Lin::k(v.discr), vs.len() as u32)]);
        let key = format!("name:{}", v.discr);
        let mut n = None;
        if std::env::var("AI_EV").is_ok() {
            for (s, v) in &outs {
                if let Val::Ptr(q) = v { eprintln!("{}", show_val(&cx.peek(s, q.obj, &q.path), 4)); }
            }
        }
        if let [(s, Val::Ptr(q))] = &outs[..] {
            if q.obj >= ALLOC0 {
                if let Some(b) = static_bytes(&mut cx, s, q) {
                    if let Some(e) = b.iter().position(|c| *c == 0) {
                        n = Some(b[..e].to_vec());
                    }
                }
            }
        }
        match n {
            Some(n) => {
                let txt = String::from_utf8_lossy(&n).to_string();
                let dup = names.insert(n.clone(), v.discr);
                rep.ob(&key, !n.is_empty() && dup.is_none(), &format!("{} has the text {txt:?}, also used for {dup:?}", v.name), &p.site(f));
                rep.samples.push(format!("{} -> {txt:?}", v.name));
            },
            None => rep.fail(&key, &format!("{} has no terminated static text", v.name), &p.site(f)),
        }
    }
    rep.stat("alert_names", names.len() as i128);
    for e in cx.events.values() {
        rep.fail(&format!("event:{}:{}:{}", e.kind, e.site, e.msg), &e.msg, &e.line);
    }
}

/// bytes of the immutable static allocation behind a pointer, from the pointer on
fn static_bytes(cx: &mut In, st: &State, q: &Ptr) -> Option<Vec<u8>> {
    for n in (1..80).rev() {
        if let Ok(b) = cx.bytes_at(st, &Val::Ptr(Rc::new(q.clone())), &Lin::k(n)) {
            if let Some(b) = b.as_const() {
                return Some(b);
            }
        }
    }
    None
}
