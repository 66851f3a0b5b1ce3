//! Models of standard-library primitives whose bodies are intrinsics, or whose meaning is needed
//! exactly (byte-order conversions, C strings, slice comparison, boxes). Everything else in the
//! standard library is analysed through its own MIR.
use crate::interp::*;
use crate::prog::*;
use crate::state::*;
use crate::term::*;
use std::rc::Rc;

fn one(st: &State, v: Val) -> Option<R<Outs>> {
    Some(Ok(vec![(st.clone(), v)]))
}
fn some<T>(r: R<T>, f: impl FnOnce(T) -> Outs) -> Option<R<Outs>> {
    Some(r.map(f))
}

/// all-zero value of a type
pub fn zero(cx: &mut In, t: TyId) -> Val {
    let (_, r) = cx.peel(t);
    match r {
        Rep::Zst => Val::unit(),
        Rep::Bool => Val::Bool(Cond::F),
        Rep::Byte(_) | Rep::Int(..) => Val::k(0),
        Rep::Bytes(n) => Val::seq(Seq::bytes(&vec![0; n as usize])),
        Rep::Arr(e, n) => {
            let z = zero(cx, e);
            Val::Arr(Rc::new(vec![z; n as usize]))
        },
        Rep::Struct(fs) => Val::adt(0, fs.iter().map(|f| zero(cx, *f)).collect()),
        Rep::En => {
            let TK::Adt { vs, .. } = cx.p.ty(cx.peel(t).0) else { return Val::Top };
            let n = vs.len() as u32;
            Val::En(Lin::k(0), n)
        },
        Rep::Ptr(_) => Val::Addr(Lin::k(0)),
        _ => Val::Top,
    }
}

pub fn slice_bytes(cx: &mut In, st: &State, v: &Val) -> R<Seq> {
    match v {
        Val::Ptr(p) => {
            let x = cx.peek(st, p.obj, &p.path);
            match (&x, &p.len) {
                (Val::Seq(q), Some(n)) => {
                    st.seq_slice(q, &p.off.clone().unwrap_or(Lin::k(0)), n)
                },
                (Val::Seq(q), None) if p.off.is_none() => Ok((**q).clone()),
                (_, Some(n)) if st.n(n).is_const() == Some(0) => Ok(Seq::empty()),
                (_, Some(n)) => Ok(Seq::src(fresh("opaque", None, None), n.clone())),
                _ => Err(Fork::Oob("slice".into())),
            }
        },
        _ => Err(Fork::Oob("slice through an invalid pointer".into())),
    }
}

fn val_eq(cx: &mut In, st: &State, a: &Val, b: &Val) -> Cond {
    match (a, b) {
        (Val::Int(x), Val::Int(y)) => Cond::eq(&st.n(x), &st.n(y)),
        (Val::En(x, _), Val::En(y, _)) => Cond::eq(&st.n(x), &st.n(y)),
        (Val::Seq(x), Val::Seq(y)) => st.seq_eq(x, y),
        (Val::Arr(x), Val::Arr(y)) if x.len() == y.len() => {
            let mut v = vec![];
            for i in 0..x.len() {
                v.push(val_eq(cx, st, &x[i], &y[i]));
            }
            Cond::and(v)
        },
        (Val::Adt(0, x), Val::Adt(0, y)) if x.len() == y.len() => {
            let mut v = vec![];
            for i in 0..x.len() {
                v.push(val_eq(cx, st, &x[i], &y[i]));
            }
            Cond::and(v)
        },
        (a, b) if a == b && !matches!(a, Val::Top | Val::Undef) => Cond::T,
        _ => Cond::Atom(fresh("eq", None, None)),
    }
}

fn load_through(cx: &mut In, st: &State, p: &Val, t: TyId) -> R<Val> {
    let l = cx.ptr_loc(p, t)?;
    cx.load(st, &l)
}

/// the container behind a C string pointer, and the position of its terminator
fn cstr(cx: &mut In, st: &State, v: &Val) -> R<(Ptr, Lin)> {
    let Val::Ptr(p) = v else { return Err(Fork::Oob("C string through an invalid pointer".into())) };
    let x = cx.peek(st, p.obj, &p.path);
    let Val::Seq(q) = x else { return Err(Fork::Oob("not a C string".into())) };
    let off = p.off.clone().unwrap_or(Lin::k(0));
    Ok(((**p).clone(), st.n(&q.len().sub(&off))))
}

pub fn call(cx: &mut In, st: &State, f: FnId, a: &[Val]) -> Option<R<Outs>> {
    let func = &cx.p.fns[f];
    let krate = &*func.krate;
    if krate != "core" && krate != "std" && krate != "alloc" && krate != "getrandom" {
        return None;
    }
    let d = func.def.clone();
    let d: &str = &d;
    let targ = |i: usize| -> Option<TyId> {
        func.args.iter().filter_map(|x| if let TArg::T(t) = x { Some(*t) } else { None }).nth(i)
    };
    if let Some(rest) = d.strip_prefix("core::num::<impl ") {
        if let Some((ty, m)) = rest.split_once(">::") {
            let bits: u32 = match ty {
                "usize" | "isize" => 64,
                t => t[1..].parse().unwrap_or(64),
            };
            let signed = ty.starts_with('i');
            match m {
                "from_be_bytes" | "from_le_bytes" | "from_ne_bytes" => {
                    let v = if bits == 8 { a[0].clone() } else { a[0].clone() };
                    let q = match &v {
                        Val::Seq(q) => (**q).clone(),
                        Val::Int(l) => Seq(vec![Seg::B(l.clone())]),
                        _ => Seq::src(fresh("opaque", None, None), Lin::k((bits / 8) as Z)),
                    };
                    return some(st.decode(&q, bits / 8, m == "from_be_bytes"), |l| {
                        vec![(st.clone(), Val::Int(l))]
                    });
                },
                "to_be_bytes" | "to_le_bytes" | "to_ne_bytes" if !signed => {
                    let Val::Int(l) = &a[0] else {
                        return one(st, Val::seq(Seq::src(fresh("opaque", None, None), Lin::k((bits / 8) as Z))));
                    };
                    return one(st, Val::seq(st.encode(l, bits / 8, m == "to_be_bytes")));
                },
                "count_ones" => {
                    let mut s = st.clone();
                    if let Val::Int(l) = &a[0] {
                        let r = cx.count_ones(&mut s, l, bits);
                        return Some(Ok(vec![(s, Val::Int(r))]));
                    }
                    return one(st, Val::Int(Lin::s(fresh("popcount", Some(0), Some(bits as Z)))));
                },
                "leading_zeros" => {
                    if let Val::Int(l) = &a[0] {
                        let l = st.n(l);
                        if let Some(c) = l.is_const() {
                            let n = (c as u128).leading_zeros() as Z - (128 - bits as Z);
                            return one(st, Val::k(n));
                        }
                        return one(st, Val::Int(Lin::s(term("clz", vec![Arg::L(l)], Some(0), Some(bits as Z)))));
                    }
                    return one(st, Val::Int(Lin::s(fresh("clz", Some(0), Some(bits as Z)))));
                },
                "rotate_left" | "rotate_right" => {
                    if let (Val::Int(x), Val::Int(n)) = (&a[0], &a[1]) {
                        let (x, n) = (st.n(x), st.n(n));
                        if let (Some(x), Some(n)) = (x.is_const(), n.is_const()) {
                            if bits <= 64 {
                                let mask = if bits == 64 { u64::MAX as u128 } else { (1u128 << bits) - 1 };
                                let n = (n as u32) % bits;
                                let n = if m == "rotate_left" { n } else { (bits - n) % bits };
                                let v = ((x as u128) << n | (x as u128) >> (bits - n)) & mask;
                                let v = if n == 0 { x as u128 } else { v };
                                return one(st, Val::k(v as Z));
                            }
                        }
                        let n = if m == "rotate_left" { n } else { st.n(&Lin::k(bits as Z).sub(&n)) };
                        let hi = if bits < 127 { Some((1i128 << bits) - 1) } else { None };
                        return one(
                            st,
                            Val::Int(Lin::s(term("rotl", vec![Arg::L(x), Arg::L(n), Arg::L(Lin::k(bits as Z))], Some(0), hi))),
                        );
                    }
                    return None;
                },
                _ => {},
            }
        }
    }
    match d {
        "std::ptr::drop_glue" => return one(st, Val::unit()),
        "std::ptr::const_ptr::<impl *const T>::is_null" | "std::ptr::mut_ptr::<impl *mut T>::is_null" => {
            return match &a[0] {
                Val::Ptr(_) | Val::Fn(_) | Val::Tok(_) => one(st, Val::Bool(Cond::F)),
                Val::Addr(l) => one(st, Val::Bool(Cond::eq(&st.n(l), &Lin::k(0)))),
                _ => one(st, Val::Bool(Cond::Atom(fresh("null", None, None)))),
            };
        },
        _ if d.ends_with("_ptr::<impl *const T>::is_aligned")
            || d.ends_with("_ptr::<impl *mut T>::is_aligned")
            || d.ends_with("::is_aligned_to") =>
        {
            // alignment of caller-supplied pointers is part of the C contract
            return one(st, Val::Bool(Cond::T));
        },
        "std::boxed::Box::<T>::new" => {
            let mut s = st.clone();
            let o = s.alloc(a[0].clone());
            return Some(Ok(vec![(s, Val::Ptr(Rc::new(Ptr { obj: o, path: vec![], off: None, len: None })))]));
        },
        "std::boxed::Box::<[T]>::new_uninit_slice" | "std::boxed::Box::<[T]>::new_zeroed_slice" => {
            let Val::Int(n) = &a[0] else { return None };
            let t = targ(0)?;
            let mut s = st.clone();
            if !cx.is_byteslice(t) {
                return None;
            }
            let q = if d.ends_with("zeroed_slice") {
                Seq(vec![Seg::Fill(0, n.clone())])
            } else {
                Seq::src(fresh("uninit", None, None), n.clone())
            };
            let q = s.nseq(&q);
            let o = s.alloc(Val::seq(q));
            return Some(Ok(vec![(
                s,
                Val::Ptr(Rc::new(Ptr { obj: o, path: vec![], off: Some(Lin::k(0)), len: Some(n.clone()) })),
            )]));
        },
        "std::boxed::Box::<[std::mem::MaybeUninit<T>], A>::assume_init"
        | "std::boxed::Box::<std::mem::MaybeUninit<T>, A>::assume_init"
        | "std::boxed::Box::<T, A>::leak"
        | "std::boxed::Box::<T>::into_raw"
        | "std::boxed::Box::<T>::from_raw" => return one(st, a[0].clone()),
        "std::ffi::CStr::from_ptr" => {
            return some(cstr(cx, st, &a[0]), |(mut p, n)| {
                p.off = Some(p.off.unwrap_or(Lin::k(0)));
                p.len = Some(n);
                vec![(st.clone(), Val::Ptr(Rc::new(p)))]
            });
        },
        "std::ffi::CStr::count_bytes" => {
            if let Val::Ptr(p) = &a[0] {
                if let Some(n) = &p.len {
                    return one(st, Val::Int(st.n(&n.addk(-1))));
                }
            }
            return None;
        },
        "std::ffi::CStr::to_bytes" => {
            if let Val::Ptr(p) = &a[0] {
                if let Some(n) = &p.len {
                    let mut q = (**p).clone();
                    q.len = Some(st.n(&n.addk(-1)));
                    return one(st, Val::Ptr(Rc::new(q)));
                }
            }
            return None;
        },
        "core::ffi::c_str::strlen::runtime::strlen" | "core::ffi::c_str::strlen" => {
            return some(cstr(cx, st, &a[0]), |(_, n)| vec![(st.clone(), Val::Int(n.addk(-1)))]);
        },
        "core::slice::<impl [T]>::fill" => {
            let t = targ(0)?;
            if cx.is_byteslice(t) {
                if let (Val::Ptr(p), Val::Int(v)) = (&a[0], &a[1]) {
                    let n = p.len.clone()?;
                    let mut s = st.clone();
                    let q = match st.n(v).is_const() {
                        Some(c) => Seq(vec![Seg::Fill(c as u8, n)]),
                        None => Seq::src(term("rep", vec![Arg::L(v.clone())], None, None), n),
                    };
                    let q = s.nseq(&q);
                    return some(cx.set_bytes(&mut s, &a[0], &q).map(|_| s), |s| vec![(s, Val::unit())]);
                }
            }
            return None;
        },
        "<T as std::array::equality::SpecArrayEq<U, N>>::spec_eq"
        | "<T as std::array::equality::SpecArrayEq<U, N>>::spec_ne"
        | "std::intrinsics::raw_eq" => {
            let t = cx.pointee(func.sig.0[0])?;
            let ne = d.ends_with("spec_ne");
            let r = (|| {
                let x = load_through(cx, st, &a[0], t)?;
                let y = load_through(cx, st, &a[1], t)?;
                Ok(val_eq(cx, st, &x, &y))
            })();
            return some(r, |c| vec![(st.clone(), Val::Bool(if ne { c.not() } else { c }))]);
        },
        "core::slice::cmp::<impl std::cmp::PartialEq<[U]> for [T]>::eq" => {
            let t = targ(0)?;
            if cx.is_byteslice(t) {
                let r = (|| {
                    let x = slice_bytes(cx, st, &a[0])?;
                    let y = slice_bytes(cx, st, &a[1])?;
                    if !st.decide(&Cond::eq(&st.n(&x.len()), &st.n(&y.len())))? {
                        return Ok(Cond::F);
                    }
                    Ok(st.seq_eq(&x, &y))
                })();
                return some(r, |c| vec![(st.clone(), Val::Bool(c))]);
            }
            return None;
        },
        "<T as std::array::SpecArrayClone>::clone" | "std::array::<impl std::clone::Clone for [T; N]>::clone" => {
            let t = func.sig.1;
            return some(load_through(cx, st, &a[0], t), |v| vec![(st.clone(), v)]);
        },
        "std::mem::size_of" | "std::mem::align_of" => {
            let t = targ(0)?;
            let n = if d.ends_with("size_of") { cx.p.size_of(t)? } else { cx.p.types[t].align };
            return one(st, Val::k(n as Z));
        },
        "std::mem::size_of_val" | "std::intrinsics::size_of_val" => {
            let t = targ(0)?;
            let n = match (cx.p.ty(t).clone(), &a[0]) {
                (TK::Slice(e), Val::Ptr(p)) => p.len.clone()?.mul(cx.p.size_of(e)? as Z),
                (TK::Str, Val::Ptr(p)) => p.len.clone()?,
                _ => Lin::k(cx.p.size_of(t)? as Z),
            };
            return one(st, Val::Int(st.n(&n)));
        },
        "std::intrinsics::align_of_val" => return one(st, Val::k(1)),
        "std::mem::MaybeUninit::<T>::zeroed" => {
            let z = zero(cx, func.sig.1);
            return one(st, z);
        },
        "std::intrinsics::write_bytes" | "std::ptr::write_bytes" => {
            let t = targ(0)?;
            let (Val::Int(v), Val::Int(n)) = (&a[1], &a[2]) else { return None };
            let mut s = st.clone();
            if cx.is_byteslice(t) {
                let c = st.n(v).is_const()?;
                let q = s.nseq(&Seq(vec![Seg::Fill(c as u8, n.clone())]));
                return some(cx.set_bytes(&mut s, &a[0], &q).map(|_| s), |s| vec![(s, Val::unit())]);
            }
            if st.n(v).is_const() == Some(0) && st.n(n).is_const() == Some(1) {
                let z = zero(cx, t);
                let r = (|| {
                    let l = cx.ptr_loc(&a[0], t)?;
                    cx.store(&mut s, &l, z)
                })();
                return some(r.map(|_| s), |s| vec![(s, Val::unit())]);
            }
            return None;
        },
        "std::intrinsics::saturating_sub" => {
            if let (Val::Int(x), Val::Int(y)) = (&a[0], &a[1]) {
                let r = x.sub(y);
                return some(st.dge(&r), |b| vec![(st.clone(), if b { Val::Int(st.n(&r)) } else { Val::k(0) })]);
            }
            return None;
        },
        "std::intrinsics::saturating_add" => {
            let (_, bits) = cx.int_of(targ(0)?)?;
            if let (Val::Int(x), Val::Int(y), false, true) = (&a[0], &a[1], cx.int_of(targ(0)?)?.0, bits <= 64) {
                let max = Lin::k((1i128 << bits) - 1);
                let r = x.add(y);
                return some(st.dge(&max.sub(&r)), |b| vec![(st.clone(), if b { Val::Int(st.n(&r)) } else { Val::Int(max.clone()) })]);
            }
            return None;
        },
        "std::intrinsics::ptr_offset_from_unsigned" | "std::ptr::const_ptr::<impl *const T>::offset_from_unsigned" => {
            let t = targ(0)?;
            let _ = t;
            return match (&a[0], &a[1]) {
                (Val::Ptr(p), Val::Ptr(q)) if p.obj == q.obj && p.path == q.path => {
                    let z = Lin::k(0);
                    let l = p.off.as_ref().unwrap_or(&z).sub(q.off.as_ref().unwrap_or(&z));
                    one(st, Val::Int(st.n(&l)))
                },
                (Val::Addr(x), Val::Addr(y)) => one(st, Val::Int(st.n(&x.sub(y)))),
                _ => None,
            };
        },
        "std::intrinsics::ctpop" | "std::intrinsics::ctlz" => return None,
        "std::intrinsics::assert_inhabited" | "std::intrinsics::cold_path" => return one(st, Val::unit()),
        "core::panicking::todo_default_msg" | "core::panicking::unreachable_default_msg" => {
            return one(st, Val::Top)
        },
        "std::fmt::Arguments::<'a>::from_str" | "std::fmt::Arguments::<'a>::from_str_nonconst" => {
            // the message is kept in place of the pointer to it
            return match a.first().and_then(|v| cx.const_str(st, v)) {
                Some(m) => one(st, Val::adt(0, vec![Val::Tok(format!("fmt:{m}").into()), Val::Top])),
                None => one(st, Val::Top),
            };
        },
        "getrandom::getrandom" => {
            let Val::Ptr(p) = &a[0] else { return Some(Err(Fork::Oob("getrandom buffer".into()))) };
            let n = p.len.clone().unwrap_or(Lin::k(0));
            let mut ok = st.clone();
            let q = ok.nseq(&Seq::src(fresh("random", None, None), n));
            if let Err(e) = cx.set_bytes(&mut ok, &a[0], &q) {
                return Some(Err(e));
            }
            let err = Val::Int(Lin::s(fresh("rngerr", Some(1), Some(u32::MAX as Z))));
            return Some(Ok(vec![
                (ok, Val::adt(0, vec![Val::unit()])),
                (st.clone(), Val::adt(1, vec![err])),
            ]));
        },
        _ => {},
    }
    None
}
