//! Models of slices, their iterators and vectors.
//!
//! A slice is `slice(base, lo, hi)`. A vector is `vec(parts...)` with the parts
//! `el(pointer)` and `rng(base, lo, hi)`; its elements live in cells of their
//! own. A slice of a vector has the place of the vector as its base.

use crate::engine::*;
use crate::state::*;
use crate::strings;
use crate::val::*;
use rustc_public::ty::*;
use rustc_public::CrateDef;

pub fn slice(base: Val, lo: Lin, hi: Lin) -> Val {
    Val::T("slice", vec![base, Val::Int(lo), Val::Int(hi)])
}

pub fn parts(v: &Val) -> Option<(Val, Lin, Lin)> {
    match v.targs("slice") {
        Some([b, Val::Int(l), Val::Int(h)]) => Some((b.clone(), l.clone(), h.clone())),
        _ => None,
    }
}

fn part_len(p: &Val) -> R<Lin> {
    match p {
        Val::T("el", _) => Ok(Lin::k(1)),
        Val::T("rng", a) => match (&a[1], &a[2]) {
            (Val::Int(l), Val::Int(h)) => Ok(h.sub(l)),
            _ => unknown("range"),
        },
        _ => unknown(format!("part of a vector {p:?}")),
    }
}

pub fn vec_len(segs: &[Val]) -> R<Lin> {
    let mut n = Lin::k(0);
    for p in segs {
        n = n.add(&part_len(p)?);
    }
    Ok(n)
}

/// The pointer to an element of a vector.
pub fn vec_elem(e: &mut Engine, st: &mut State, segs: &[Val], i: &Lin) -> R<Val> {
    let mut at = i.clone();
    for p in segs {
        let n = part_len(p)?;
        if st.decide_ge(&n.sub(&at).plus(-1))? {
            return part_elem(e, st, p, &at);
        }
        at = at.sub(&n);
    }
    unknown("index beyond a vector")
}

fn part_elem(e: &mut Engine, st: &mut State, p: &Val, at: &Lin) -> R<Val> {
    match p {
        Val::T("el", a) => Ok(a[0].clone()),
        Val::T("rng", a) => {
            let tg = e.target;
            let i = a[1].lin().unwrap().add(at);
            tg.elem(e, st, &a[0].clone(), &i)
        }
        _ => unknown("part of a vector"),
    }
}

/// Removes the first or last element and gives its value.
fn take(e: &mut Engine, st: &mut State, segs: &mut Vec<Val>, back: bool) -> R<Option<Val>> {
    loop {
        let Some(p) = (if back { segs.last() } else { segs.first() }).cloned() else {
            return Ok(None);
        };
        let n = part_len(&p)?;
        let at = if back { segs.len() - 1 } else { 0 };
        if !st.decide_ge(&n.plus(-1))? {
            segs.remove(at);
            continue;
        }
        let off = if back { n.plus(-1) } else { Lin::k(0) };
        let ep = part_elem(e, st, &p, &off)?;
        let v = st.rd(&ep)?;
        match &p {
            Val::T("rng", a) => {
                let (l, h) = (a[1].lin().unwrap().clone(), a[2].lin().unwrap().clone());
                let (l, h) = if back { (l, h.plus(-1)) } else { (l.plus(1), h) };
                if st.proves_eq(&h.sub(&l)) {
                    segs.remove(at);
                } else {
                    segs[at] = Val::T("rng", vec![a[0].clone(), Val::Int(l), Val::Int(h)]);
                }
            }
            _ => {
                segs.remove(at);
            }
        }
        return Ok(Some(v));
    }
}

/// The parts before and from an index that is within the vector.
fn split(st: &mut State, segs: &[Val], at: &Lin) -> R<(Vec<Val>, Vec<Val>)> {
    let mut left: Vec<Val> = vec![];
    let mut done = Lin::k(0);
    for (i, p) in segs.iter().enumerate() {
        let n = part_len(p)?;
        let off = at.sub(&done);
        if !st.decide_ge(&off.plus(-1))? {
            return Ok((left, segs[i..].to_vec()));
        }
        if !st.decide_ge(&off.sub(&n))? {
            let Val::T("rng", a) = p else { return unknown("part of a vector") };
            let m = a[1].lin().unwrap().add(&off);
            left.push(Val::T("rng", vec![a[0].clone(), a[1].clone(), Val::Int(m.clone())]));
            let mut right = vec![Val::T("rng", vec![a[0].clone(), Val::Int(m), a[2].clone()])];
            right.extend_from_slice(&segs[i + 1..]);
            return Ok((left, right));
        }
        done = done.add(&n);
        left.push(p.clone());
    }
    Ok((left, vec![]))
}

pub fn helper(name: &str, tys: &[Ty]) -> R<rustc_public::mir::mono::Instance> {
    for f in rustc_public::local_crate().fn_defs() {
        if f.name().rsplit("::").next() == Some(name) {
            let args = GenericArgs(tys.iter().map(|t| GenericArgKind::Type(*t)).collect());
            if let Ok(i) = rustc_public::mir::mono::Instance::resolve(f, &args) {
                return Ok(i);
            }
        }
    }
    unknown(format!("no {name}"))
}

/// Operations of iterators that do not go through `next` by themselves.
fn through(
    st: &State,
    last: &str,
    a: &[Val],
    cx: &CallCx,
) -> R<Option<rustc_public::mir::mono::Instance>> {
    let is = |v: &Val| matches!(v, Val::T("iter" | "vinto", _));
    let owned = a.first().is_some_and(is);
    let Some(t0) = cx.arg_tys.first().copied() else { return Ok(None) };
    if !owned && !(pointee(t0).is_some() && a.first().is_some_and(|p| st.rd(p).is_ok_and(|v| is(&v)))) {
        return Ok(None);
    }
    let i = if owned { t0 } else { pointee(t0).unwrap() };
    let t = |k: usize| cx.arg_tys[k];
    let (f, tys) = match (last, owned) {
        ("find_map", false) => ("model_find_map", vec![i, t(1), ty_args(cx.ret_ty)[0]]),
        ("find", false) => ("model_find", vec![i, t(1)]),
        ("any", false) => ("model_any", vec![i, t(1)]),
        ("all", false) => ("model_all", vec![i, t(1)]),
        ("position", false) => ("model_position", vec![i, t(1)]),
        ("rposition", false) => ("model_rposition", vec![i, t(1)]),
        ("for_each", true) => ("model_for_each", vec![i, t(1)]),
        ("fold", true) => ("model_fold", vec![i, t(1), t(2)]),
        ("last", true) => ("model_last", vec![i]),
        _ => return Ok(None),
    };
    Ok(Some(helper(f, &tys)?))
}

fn is_vec(t: Ty) -> bool {
    adt_name(t) == "Vec"
}

/// A copy of an aggregate given directly or through a pointer.
fn arg_slice(st: &State, v: &Val) -> Option<(Val, Lin, Lin)> {
    match v {
        Val::T("slice", _) => parts(v),
        Val::Ptr(..) => match st.rd(v) {
            Ok(Val::T("vec", s)) => Some((v.clone(), Lin::k(0), vec_len(&s).ok()?)),
            Ok(Val::Agg(0, f)) => Some((v.clone(), Lin::k(0), Lin::k(f.len() as i128))),
            _ => None,
        },
        _ => None,
    }
}

pub fn call(e: &mut Engine, st: &mut State, n: &str, a: &[Val], cx: &CallCx) -> R<Option<Act>> {
    let krate = cx.inst.def.krate().name;
    if !matches!(krate.as_str(), "core" | "alloc" | "std") {
        return Ok(None);
    }
    let last = n.rsplit("::").next().unwrap_or("");
    if is_vec(cx.ret_ty) {
        let none = match last {
            "new" | "default" => true,
            "with_capacity" => a.len() == 1,
            _ => false,
        };
        if none {
            return Ok(Some(Act::Ret(Val::T("vec", vec![]))));
        }
        let item = ty_args(cx.ret_ty)[0];
        if matches!(last, "collect" | "from_iter") && a.len() == 1 {
            let f = helper("model_collect", &[cx.arg_tys[0], item])?;
            return Ok(Some(Act::Call(f, a.to_vec())));
        }
        if matches!(last, "to_vec" | "to_owned" | "into_vec" | "from" | "box_assume_init_into_vec_unsafe")
            || (last == "clone" && matches!(st.rd(&a[0]), Ok(Val::T("vec", _))))
        {
            return whole_vec(st, last, a, cx, item);
        }
    }
    if matches!(last, "from_ref" | "from_mut") && a.len() == 1 && n.contains("slice::from_") {
        return Ok(Some(Act::Ret(slice(Val::T("one", vec![a[0].clone()]), Lin::k(0), Lin::k(1)))));
    }
    if last == "new_uninit" && cx.arg_tys.is_empty() && adt_name(cx.ret_ty) == "Box" {
        let p = st.alloc(Val::Uninit);
        return Ok(Some(Act::Ret(wrap_ptr(cx.ret_ty, p))));
    }
    if last == "extend" && a.len() == 2 && matches!(st.rd(&a[0]), Ok(Val::T("vec", _))) {
        let item = pointee(cx.arg_tys[0]).map(|t| ty_args(t)[0]);
        if let Some(item) = item {
            let f = helper("model_extend", &[cx.arg_tys[1], item])?;
            return Ok(Some(Act::Call(f, a.to_vec())));
        }
    }
    if last == "extend_from_slice" && matches!(st.rd(&a[0]), Ok(Val::T("vec", _))) {
        if let Some(t) = pointee(cx.arg_tys[0]).map(|t| ty_args(t)[0]) {
            let f = helper("model_extend_from_slice", &[t])?;
            return Ok(Some(Act::Call(f, a.to_vec())));
        }
    }
    if let Some(f) = through(st, last, a, cx)? {
        return Ok(Some(Act::Call(f, a.to_vec())));
    }
    let r = if let Some(Val::T("vec" | "vinto", _)) = a.first() {
        owned(e, st, last, a)?
    } else if let Some(Val::T("iter", _)) = a.first() {
        match last {
            "into_iter" => Some(a[0].clone()),
            "into_slice" => a[0].targs("iter").map(|x| x[0].clone()),
            "count" => {
                let Some((_, l, h)) = a[0].targs("iter").and_then(|x| parts(&x[0])) else {
                    return Ok(None);
                };
                Some(Val::Int(h.sub(&l)))
            }
            _ => None,
        }
    } else {
        None
    };
    if let Some(v) = r {
        return Ok(Some(Act::Ret(v)));
    }
    let Some(p @ Val::Ptr(..)) = a.first() else {
        let r = match a.first() {
            Some(s @ Val::T("slice", _)) => on_slice(e, st, last, s, a, cx)?,
            _ => None,
        };
        return Ok(r.map(Act::Ret));
    };
    let r = match st.rd(p) {
        Ok(Val::T("vec", s)) => on_vec(e, st, last, p, s, a, cx)?,
        Ok(Val::T("vinto", s)) => {
            let mut s = s;
            match last {
                "next" | "next_back" => {
                    let r = take(e, st, &mut s, last == "next_back")?;
                    st.wr(p, Val::T("vinto", s))?;
                    Some(r.map_or(none(), some))
                }
                "len" => Some(Val::Int(vec_len(&s)?)),
                "size_hint" => {
                    let l = Val::Int(vec_len(&s)?);
                    Some(tup(vec![l.clone(), some(l)]))
                }
                _ => None,
            }
        }
        Ok(Val::T("iter", s)) => on_iter(e, st, last, p, &s, a)?,
        Ok(Val::Agg(0, f)) if is_array(pointee(cx.arg_tys[0])) => {
            let s = slice(p.clone(), Lin::k(0), Lin::k(f.len() as i128));
            match last {
                "as_slice" | "as_mut_slice" | "borrow" | "borrow_mut" | "as_ref" | "as_mut" => {
                    match pointee(cx.ret_ty).map(|t| t.kind()) {
                        Some(TyKind::RigidTy(RigidTy::Slice(_))) => Some(s),
                        _ => None,
                    }
                }
                "index" | "index_mut" | "into_iter" => on_slice(e, st, last, &s, a, cx)?,
                _ => None,
            }
        }
        _ => None,
    };
    Ok(r.map(Act::Ret))
}

fn whole_vec(st: &mut State, last: &str, a: &[Val], cx: &CallCx, item: Ty) -> R<Option<Act>> {
    match last {
        "clone" => {
            let f = helper("model_vec_clone", &[item])?;
            Ok(Some(Act::Call(f, a.to_vec())))
        }
        "to_vec" | "to_owned" => match arg_slice(st, &a[0]) {
            Some((b, l, h)) => {
                let f = helper("model_to_vec", &[item])?;
                Ok(Some(Act::Call(f, vec![slice(b, l, h)])))
            }
            None => Ok(None),
        },
        _ => {
            // A boxed or plain array.
            let v = match &a[0] {
                Val::Agg(0, f) if is_array(Some(cx.arg_tys[0])) => Val::Agg(0, f.clone()),
                b if adt_name(cx.arg_tys[0]) == "Box" => match unwrap_ptr(b) {
                    Some(p @ Val::Ptr(..)) => st.rd(&p)?,
                    Some(s @ Val::T("slice", _)) => match parts(&s) {
                        Some((p, _, _)) => st.rd(&p)?,
                        None => return Ok(None),
                    },
                    _ => return Ok(None),
                },
                _ => return Ok(None),
            };
            let ty = match adt_name(cx.arg_tys[0]).as_str() {
                "Box" => ty_args(cx.arg_tys[0])[0],
                _ => cx.arg_tys[0],
            };
            let Some(f) = array_items(&v, ty) else { return Ok(None) };
            let segs = f.into_iter().map(|x| Val::T("el", vec![st.alloc(x)])).collect();
            Ok(Some(Act::Ret(Val::T("vec", segs))))
        }
    }
}

/// The items of an array, possibly inside `MaybeUninit` and the like.
fn array_items(v: &Val, ty: Ty) -> Option<Vec<Val>> {
    match v {
        Val::Agg(_, f) if adt_name(ty) == "MaybeUninit" => array_items(f.get(1)?, *field_tys(ty, 0).get(1)?),
        Val::Agg(_, f) if matches!(adt_name(ty).as_str(), "ManuallyDrop" | "MaybeDangling") => {
            array_items(f.first()?, *field_tys(ty, 0).first()?)
        }
        Val::Agg(0, f) => Some(f.clone()),
        _ => None,
    }
}

fn pointee(t: Ty) -> Option<Ty> {
    t.kind().builtin_deref(true).map(|x| x.ty)
}

fn is_array(t: Option<Ty>) -> bool {
    matches!(t.map(|t| t.kind()), Some(TyKind::RigidTy(RigidTy::Array(..))))
}

fn owned(_e: &mut Engine, _st: &mut State, last: &str, a: &[Val]) -> R<Option<Val>> {
    Ok(match (last, &a[0]) {
        ("into_iter", Val::T("vec", s)) => Some(Val::T("vinto", s.clone())),
        ("into_iter", v) => Some(v.clone()),
        _ => None,
    })
}

fn on_vec(
    e: &mut Engine,
    st: &mut State,
    last: &str,
    p: &Val,
    segs: Vec<Val>,
    a: &[Val],
    cx: &CallCx,
) -> R<Option<Val>> {
    let mut segs = segs;
    let n = vec_len(&segs)?;
    let whole = || slice(p.clone(), Lin::k(0), n.clone());
    Ok(Some(match last {
        "len" => Val::Int(n),
        "is_empty" => Val::Bool(!st.decide_ge(&n.plus(-1))?),
        "deref" | "deref_mut" | "as_slice" | "as_mut_slice" | "as_ref" | "as_mut" | "borrow"
        | "borrow_mut" => match pointee(cx.ret_ty).map(|t| t.kind()) {
            Some(TyKind::RigidTy(RigidTy::Slice(_))) => whole(),
            _ => p.clone(),
        },
        "into_iter" => Val::T("iter", vec![whole()]),
        "index" | "index_mut" => return on_slice(e, st, last, &whole(), a, cx),
        "push" => {
            let el = Val::T("el", vec![st.alloc(a[1].clone())]);
            segs.push(el);
            st.wr(p, Val::T("vec", segs))?;
            unit()
        }
        "insert" => {
            let el = Val::T("el", vec![st.alloc(a[2].clone())]);
            let Val::Int(i) = &a[1] else { return unknown("index") };
            if i.is_const() && i.c == 0 {
                segs.insert(0, el);
            } else if st.decide_ge(&i.sub(&n).plus(-1))? {
                return Err(Stop::Panic("insertion beyond the end of a vector".into()));
            } else {
                let (l, r) = split(st, &segs, i)?;
                segs = l;
                segs.push(el);
                segs.extend(r);
            }
            st.wr(p, Val::T("vec", segs))?;
            unit()
        }
        "remove" | "swap_remove" => {
            let Val::Int(i) = &a[1] else { return unknown("index") };
            if !st.decide_ge(&n.sub(i).plus(-1))? {
                return Err(Stop::Panic("removal from beyond the end of a vector".into()));
            }
            let (mut l, mut r) = split(st, &segs, i)?;
            let Some(v) = take(e, st, &mut r, false)? else { return unknown("removal") };
            if last == "swap_remove" {
                if let Some(x) = take(e, st, &mut r, true)? {
                    l.push(Val::T("el", vec![st.alloc(x)]));
                }
            }
            l.extend(r);
            st.wr(p, Val::T("vec", l))?;
            v
        }
        "truncate" | "split_off" => {
            let Val::Int(i) = &a[1] else { return unknown("index") };
            if !st.decide_ge(&n.sub(i))? {
                if last == "truncate" {
                    return Ok(Some(unit()));
                }
                return Err(Stop::Panic("a vector is split beyond its end".into()));
            }
            let (l, r) = split(st, &segs, i)?;
            st.wr(p, Val::T("vec", l))?;
            if last == "truncate" {
                unit()
            } else {
                Val::T("vec", r)
            }
        }
        "pop" => {
            let r = take(e, st, &mut segs, true)?;
            st.wr(p, Val::T("vec", segs))?;
            r.map_or(none(), some)
        }
        "append" => {
            let Ok(Val::T("vec", o)) = st.rd(&a[1]) else { return unknown("append") };
            segs.extend(o);
            st.wr(&a[1], Val::T("vec", vec![]))?;
            st.wr(p, Val::T("vec", segs))?;
            unit()
        }
        "clear" => {
            st.wr(p, Val::T("vec", vec![]))?;
            unit()
        }
        "drain" if adt_name(cx.arg_tys[1]) == "RangeFull" => {
            st.wr(p, Val::T("vec", vec![]))?;
            Val::T("vinto", segs)
        }
        "reserve" | "reserve_exact" | "shrink_to_fit" => unit(),
        "capacity" => Val::Top,
        "retain" | "dedup" | "resize" | "drain" => {
            return unknown(format!("Vec::{last}"))
        }
        _ => return Ok(None),
    }))
}

fn on_slice(
    e: &mut Engine,
    st: &mut State,
    last: &str,
    s: &Val,
    a: &[Val],
    cx: &CallCx,
) -> R<Option<Val>> {
    let Some((b, l, h)) = parts(s) else { return Ok(None) };
    let n = h.sub(&l);
    Ok(Some(match last {
        "len" => Val::Int(n),
        "is_empty" => Val::Bool(!st.decide_ge(&n.plus(-1))?),
        "iter" | "iter_mut" | "into_iter" => Val::T("iter", vec![s.clone()]),
        "as_ref" | "as_mut" | "borrow" | "borrow_mut" => s.clone(),
        "split_at" | "split_at_mut" => {
            let Val::Int(i) = &a[1] else { return unknown("index") };
            if !st.decide_ge(&n.sub(i))? {
                return Err(Stop::Panic("a slice is split beyond its end".into()));
            }
            let m = l.add(i);
            tup(vec![slice(b.clone(), l, m.clone()), slice(b, m, h)])
        }
        "get" | "get_mut" | "index" | "index_mut" | "get_unchecked" | "get_unchecked_mut" => {
            let opt = last.starts_with("get") && !last.contains("unchecked");
            let bad = |m: &str| {
                if opt {
                    Ok(Some(none()))
                } else {
                    Err(Stop::Panic(m.to_string()))
                }
            };
            let v = match &a[1] {
                Val::Int(i) => {
                    if !st.decide_ge(&n.sub(i).plus(-1))? {
                        return bad("index out of bounds");
                    }
                    e.slice_elem(st, s, i)?
                }
                r => {
                    let Some((x, y)) = strings::bounds(cx.arg_tys[1], r, &n)? else {
                        return unknown(format!("range {r:?}"));
                    };
                    if !st.decide_ge(&y.sub(&x))? || !st.decide_ge(&n.sub(&y))? {
                        return bad("range out of bounds");
                    }
                    slice(b, l.add(&x), l.add(&y))
                }
            };
            if opt {
                some(v)
            } else {
                v
            }
        }
        _ => return Ok(None),
    }))
}

fn on_iter(e: &mut Engine, st: &mut State, last: &str, p: &Val, s: &[Val], a: &[Val]) -> R<Option<Val>> {
    let Some((b, l, h)) = parts(&s[0]) else { return Ok(None) };
    let n = h.sub(&l);
    let mk = |l: Lin, h: Lin| Val::T("iter", vec![slice(b.clone(), l, h)]);
    Ok(Some(match last {
        "next" | "next_back" => {
            if !st.decide_ge(&n.plus(-1))? {
                return Ok(Some(none()));
            }
            st.moved();
            let back = last == "next_back";
            let v = e.slice_elem(st, &s[0], &if back { n.plus(-1) } else { Lin::k(0) })?;
            let (_, l, h) = parts(&match st.rd(p)? {
                Val::T("iter", s) => s[0].clone(),
                _ => return unknown("iterator"),
            })
            .unwrap();
            st.wr(p, if back { mk(l, h.plus(-1)) } else { mk(l.plus(1), h) })?;
            some(v)
        }
        "nth" => {
            let Val::Int(k) = &a[1] else { return unknown("index") };
            if !st.decide_ge(&n.sub(k).plus(-1))? {
                st.wr(p, mk(h.clone(), h))?;
                return Ok(Some(none()));
            }
            let v = e.slice_elem(st, &s[0], k)?;
            st.wr(p, mk(l.add(k).plus(1), h))?;
            some(v)
        }
        "len" => Val::Int(n),
        "is_empty" => Val::Bool(!st.decide_ge(&n.plus(-1))?),
        "size_hint" => tup(vec![Val::Int(n.clone()), some(Val::Int(n))]),
        "clone" => Val::T("iter", s.to_vec()),
        "as_slice" | "as_mut_slice" | "as_ref" => s[0].clone(),
        "__iterator_get_unchecked" => {
            let Val::Int(k) = &a[1] else { return unknown("index") };
            e.slice_elem(st, &s[0], k)?
        }
        _ => return Ok(None),
    }))
}
