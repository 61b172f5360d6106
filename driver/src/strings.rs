//! Abstract strings and characters.
//!
//! A source is a symbol with the attribute "len", its length in bytes. What is
//! stored somewhere is a range of a source: a `str` is `str(storage, lo, hi)`
//! with the storage `st(m, S, off)`, where `m` identifies the allocation and
//! its byte x is the byte off + x of S. A character is `ch(S, b, w)`: the one
//! of width w at byte b of S.

use crate::engine::*;
use crate::state::*;
use crate::val::*;
use rustc_public::ty::*;
use rustc_public::CrateDef;

pub fn lit(s: &str) -> Val {
    Val::T("str", vec![name(&format!("lit:{s}")), int(0), int(s.len() as i128)])
}

pub fn new_source(st: &mut State) -> Val {
    let s = st.new_sym();
    let l = st.new_int();
    st.set_attr(s, "len", l);
    Val::Sym(s)
}

pub fn src_len(st: &State, s: &Val) -> R<Lin> {
    let Val::Sym(x) = s else { return unknown(format!("length of source {s:?}")) };
    match st.attr(*x, "len") {
        Some(Val::Int(l)) => Ok(l),
        _ => unknown("source of unknown length"),
    }
}

/// All of a source, in an allocation of its own.
pub fn whole(st: &mut State, s: &Val) -> R<Val> {
    let l = src_len(st, s)?;
    let m = st.new_id();
    Ok(Val::T("str", vec![Val::T("st", vec![m, s.clone(), int(0)]), int(0), Val::Int(l)]))
}

pub fn str_len(v: &Val) -> R<Lin> {
    match v.targs("str") {
        Some([_, Val::Int(a), Val::Int(b)]) => Ok(b.sub(a)),
        _ => unknown(format!("length of {v:?}")),
    }
}

/// The literal's text, if it is one.
pub fn literal(v: &Val) -> Option<String> {
    let [Val::Name(n), a, b] = v.targs("str")? else { return None };
    let s = n.strip_prefix("lit:")?;
    s.get(a.konst()? as usize..b.konst()? as usize).map(|s| s.to_string())
}

/// The ranges of sources that make up a string: `rng(m, S, lo, hi)` each.
pub fn ranges(st: &State, v: &Val) -> R<Vec<Val>> {
    match v {
        Val::T("str", a) => {
            let (Val::Int(lo), Val::Int(hi)) = (&a[1], &a[2]) else {
                return unknown(format!("content of {v:?}"));
            };
            if st.proves_eq(&hi.sub(lo)) {
                return Ok(vec![]);
            }
            match &a[0] {
                Val::T("st", s) => {
                    let off = s[2].lin().unwrap();
                    Ok(vec![Val::T(
                        "rng",
                        vec![s[0].clone(), s[1].clone(), Val::Int(off.add(lo)), Val::Int(off.add(hi))],
                    )])
                }
                Val::T("cat", rs) if lo.is_const() && lo.c == 0 => Ok(rs.clone()),
                Val::Name(_) => match literal(v) {
                    Some(s) => Ok(vec![Val::T("text", vec![name(&s)])]),
                    None => unknown("part of a literal"),
                },
                o => unknown(format!("content of {o:?}")),
            }
        }
        Val::T("string", rs) => Ok(rs[1..].to_vec()),
        _ => unknown(format!("content of {v:?}")),
    }
}

/// Like `ranges` but in a new allocation.
fn copied(st: &mut State, v: &Val) -> R<Val> {
    let m = st.new_id();
    let rs = ranges(st, v)?;
    Ok(string(m, rs))
}

pub fn string(m: Val, rs: Vec<Val>) -> Val {
    let rs = rs.into_iter().map(|r| match r {
        Val::T("rng", mut a) => {
            a[0] = m.clone();
            Val::T("rng", a)
        }
        o => o,
    });
    let mut v = vec![m.clone()];
    v.extend(rs);
    Val::T("string", v)
}

/// Appends a range, extending the last one where they are contiguous.
pub fn append(st: &State, rs: &mut Vec<Val>, r: Val) {
    if let (Some(Val::T("rng", a)), Val::T("rng", b)) = (rs.last_mut(), &r) {
        if a[0] == b[0] && a[1] == b[1] && st.same(&a[3], &b[2]) {
            a[3] = b[3].clone();
            return;
        }
    }
    rs.push(r)
}

/// The `str` that a `String` holds.
pub fn string_str(v: &Val) -> R<Val> {
    let Some(a) = v.targs("string") else { return unknown(format!("str of {v:?}")) };
    match &a[1..] {
        [] => Ok(Val::T("str", vec![Val::T("st", vec![a[0].clone(), Val::Uninit, int(0)]), int(0), int(0)])),
        [Val::T("rng", r)] => {
            let n = r[3].lin().unwrap().sub(r[2].lin().unwrap());
            let s = Val::T("st", vec![a[0].clone(), r[1].clone(), r[2].clone()]);
            Ok(Val::T("str", vec![s, int(0), Val::Int(n)]))
        }
        [Val::T("text", t)] => match &t[0] {
            Val::Name(n) => Ok(lit(n)),
            _ => unknown("literal"),
        },
        rs => {
            let mut n = Lin::k(0);
            for r in rs {
                match r {
                    Val::T("rng", r) => n = n.add(&r[3].lin().unwrap().sub(r[2].lin().unwrap())),
                    Val::T("text", t) => match &t[0] {
                        Val::Name(x) => n = n.plus(x.len() as i128),
                        _ => return unknown("literal"),
                    },
                    Val::T("ch", c) => n = n.add(c[2].lin().unwrap()),
                    o => return unknown(format!("length of {o:?}")),
                }
            }
            Ok(Val::T("str", vec![Val::T("cat", rs.to_vec()), int(0), Val::Int(n)]))
        }
    }
}

/// The width of the character at byte `b` of a source.
pub fn width(st: &mut State, s: &Val, b: &Lin) -> R<Lin> {
    let key = Val::T("w", vec![s.clone(), Val::Int(b.clone())]);
    if let Some(Val::Int(w)) = st.memo.get(&key) {
        return Ok(w.clone());
    }
    let known = st.memo.iter().find_map(|(k, v)| match (k, v) {
        (Val::T("w", a), Val::Int(w)) if a[0] == *s && st.same(&a[1], &Val::Int(b.clone())) => {
            Some(w.clone())
        }
        _ => None,
    });
    if let Some(w) = known {
        return Ok(w);
    }
    let l = src_len(st, s)?;
    if st.forgot && !ahead(st, s, b) {
        st.imprecise.get_or_insert("a width that was forgotten".into());
    }
    let w = st.new_int();
    let w = w.lin().unwrap().clone();
    st.assume_ge(&w.plus(-1))?;
    st.assume_ge(&l.sub(b).sub(&w))?;
    st.memo.insert(key, Val::Int(w.clone()));
    st.memo.insert(Val::T("bd", vec![s.clone(), Val::Int(b.clone())]), Val::Bool(true));
    st.memo.insert(Val::T("bd", vec![s.clone(), Val::Int(b.add(&w))]), Val::Bool(true));
    Ok(w)
}

/// Whether a place is not before the one that the specification is at.
pub fn ahead(st: &State, s: &Val, b: &Lin) -> bool {
    match (st.g("cur"), st.g("rest")) {
        (Val::T("pc", p), _) if p[1] == *s => st.facts.proves(&b.sub(p[2].lin().unwrap())),
        (_, rest) => {
            let mut hit = false;
            let mut p = rest;
            for _ in 0..16 {
                p.visit(&mut |v| hit |= v == s);
                p = match p {
                    Val::Sym(x) => st.attr(x, "nx").unwrap_or(Val::Uninit),
                    Val::T("nx", a) => a[1].clone(),
                    _ => break,
                };
            }
            hit
        }
    }
}

pub fn ch(s: &Val, b: &Lin, w: &Lin) -> Val {
    Val::T("ch", vec![s.clone(), Val::Int(b.clone()), Val::Int(w.clone())])
}

/// The first character of a `str`, with the rest.
pub fn first(st: &mut State, v: &Val) -> R<Option<(Val, Lin, Val)>> {
    let Some([storage, Val::Int(lo), Val::Int(hi)]) = v.targs("str") else {
        return unknown(format!("characters of {v:?}"));
    };
    let (storage, lo, hi) = (storage.clone(), lo.clone(), hi.clone());
    if !st.decide_ge(&hi.sub(&lo).plus(-1))? {
        return Ok(None);
    }
    let rest = |n: &Lin| {
        Val::T("str", vec![storage.clone(), Val::Int(lo.add(n)), Val::Int(hi.clone())])
    };
    if let Some(s) = literal(v) {
        let c = s.chars().next().unwrap();
        let n = Lin::k(c.len_utf8() as i128);
        return Ok(Some((int(c as i128), n.clone(), rest(&n))));
    }
    match &storage {
        Val::T("st", s) => {
            let b = s[2].lin().unwrap().add(&lo);
            let w = width(st, &s[1], &b)?;
            st.assume_ge(&hi.sub(&lo).sub(&w))?;
            let r = rest(&w);
            Ok(Some((ch(&s[1], &b, &w), w, r)))
        }
        o => unknown(format!("characters of {o:?}")),
    }
}

/// Whether the byte offset `x` of a `str` is on a character boundary (and not
/// beyond its end).
pub fn boundary(st: &mut State, v: &Val, x: &Lin) -> R<bool> {
    let n = str_len(v)?;
    if !st.decide_ge(&n.sub(x))? {
        return Ok(false);
    }
    if st.proves_eq(x) || st.proves_eq(&n.sub(x)) {
        return Ok(true);
    }
    if let (Some(s), true) = (literal(v), x.is_const()) {
        return Ok(s.is_char_boundary(x.c as usize));
    }
    let Some([Val::T("st", s), Val::Int(lo), _]) = v.targs("str") else {
        return unknown(format!("boundary in {v:?}"));
    };
    let (s, p) = (s[1].clone(), s[2].lin().unwrap().add(lo).add(x));
    let keys: Vec<Val> = st.memo.keys().cloned().collect();
    for k in &keys {
        if let Val::T("bd", a) = k {
            if a[0] == s && st.same(&a[1], &Val::Int(p.clone())) {
                return Ok(true);
            }
        }
    }
    if st.decide_eq(x)? || st.decide_eq(&n.sub(x))? {
        return Ok(true);
    }
    for k in &keys {
        if let (Val::T("w", a), Some(Val::Int(w))) = (k, st.memo.get(k).cloned()) {
            let b = a[1].lin().unwrap();
            if a[0] == s && st.facts.proves(&p.sub(b).plus(-1)) {
                match st.decide_cmp(&p.sub(b).sub(&w))? {
                    std::cmp::Ordering::Less => return Ok(false),
                    std::cmp::Ordering::Equal => return Ok(true),
                    _ => {}
                }
            }
        }
    }
    if st.exact && st.imprecise.is_none() {
        // Nothing says so, which makes both possible.
        let yes = st.choose(2)? == 0;
        if yes {
            st.memo.insert(Val::T("bd", vec![s, Val::Int(p)]), Val::Bool(true));
        }
        return Ok(yes);
    }
    unknown(format!("whether {p:?} is a character boundary of {s:?}"))
}

/// A sub-slice, or none if the range is not valid.
pub fn sub(st: &mut State, v: &Val, lo: &Lin, hi: &Lin) -> R<Option<Val>> {
    if !st.decide_ge(&hi.sub(lo))? || !boundary(st, v, lo)? || !boundary(st, v, hi)? {
        return Ok(None);
    }
    let Some([storage, Val::Int(a), _]) = v.targs("str") else {
        return unknown(format!("slice of {v:?}"));
    };
    Ok(Some(Val::T("str", vec![storage.clone(), Val::Int(a.add(lo)), Val::Int(a.add(hi))])))
}

/// A `str` without some characters at its ends, which ones being unknown.
fn trimmed(st: &mut State, v: &Val, start: bool, end: bool) -> R<Val> {
    let mut v = v.clone();
    for (on, front) in [(start, true), (end, false)] {
        let n = str_len(&v)?;
        if !on || !st.decide_ge(&n.plus(-1))? || st.choose(2)? == 0 {
            continue;
        }
        let Some([Val::T("st", s), ..]) = v.targs("str") else {
            return unknown(format!("characters at the ends of {v:?}"));
        };
        // Once something is known about the characters it may contradict.
        let known = Val::T("trimmed", vec![s[1].clone(), Val::Bool(front)]);
        if st.memo.keys().any(|k| *k == known || !matches!(k, Val::T("w" | "bd" | "trimmed", _))) {
            st.imprecise.get_or_insert("characters left out".into());
        }
        st.memo.insert(known, Val::Bool(true));
        let k = st.new_int().lin().unwrap().clone();
        st.assume_ge(&k.plus(-1))?;
        st.assume_ge(&n.sub(&k))?;
        let (lo, hi) = if front { (k, n) } else { (Lin::k(0), n.sub(&k)) };
        match sub(st, &v, &lo, &hi)? {
            Some(r) => v = r,
            None => return Err(Stop::Infeasible),
        }
    }
    Ok(v)
}

/// The bounds of a range value of a range type.
pub fn bounds(ty: Ty, r: &Val, n: &Lin) -> R<Option<(Lin, Lin)>> {
    let f = |i: usize| match r.agg() {
        Some((_, fs)) => fs.get(i).and_then(|v| v.lin()).cloned(),
        None => None,
    };
    let some = |a: Option<Lin>, b: Option<Lin>| Ok(a.zip(b));
    match adt_name(ty).as_str() {
        "Range" => some(f(0), f(1)),
        "RangeFrom" => some(f(0), Some(n.clone())),
        "RangeTo" => some(Some(Lin::k(0)), f(0)),
        "RangeFull" => some(Some(Lin::k(0)), Some(n.clone())),
        "RangeInclusive" => some(f(0), f(1).map(|l| l.plus(1))),
        "RangeToInclusive" => some(Some(Lin::k(0)), f(0).map(|l| l.plus(1))),
        _ => Ok(None),
    }
}

fn is_str(t: Ty) -> bool {
    matches!(t.kind(), TyKind::RigidTy(RigidTy::Str))
}
fn pointee(t: Ty) -> Option<Ty> {
    t.kind().builtin_deref(true).map(|x| x.ty)
}
pub fn is_shared(t: Ty) -> bool {
    matches!(adt_name(t).as_str(), "Rc" | "Arc")
}

fn ownable(ty: Ty) -> bool {
    matches!(adt_name(ty).as_str(), "String" | "Box" | "Rc" | "Arc")
}

/// A string's content as a value of the given owning type.
pub fn own(st: &mut State, ty: Ty, v: &Val) -> R<Val> {
    let s = match v {
        Val::T("string", _) => v.clone(),
        Val::T("str", _) => copied(st, v)?,
        _ => return unknown(format!("string of {v:?}")),
    };
    own_as(st, ty, s)
}

fn own_as(st: &mut State, ty: Ty, s: Val) -> R<Val> {
    match adt_name(ty).as_str() {
        "String" => Ok(s),
        "Box" if ty_args(ty).first().is_some_and(|t| is_str(*t)) => {
            Ok(wrap_ptr(ty, string_str(&s)?))
        }
        "Rc" | "Arc" => {
            let t = ty_args(ty)[0];
            if is_str(t) {
                // The characters move to the shared allocation.
                let m = st.new_id();
                let v = string_str(&string(m, s.targs("string").unwrap()[1..].to_vec()))?;
                return Ok(Val::T("rc", vec![v]));
            }
            let v = own_as(st, t, s)?;
            Ok(Val::T("rc", vec![st.alloc(tup(vec![int(1), int(1), v]))]))
        }
        n => unknown(format!("string as {n}")),
    }
}

/// An owning string of the given type that holds the given `str` itself.
pub fn own_whole(st: &mut State, ty: Ty, v: &Val) -> R<Val> {
    let t = ty_args(ty)[0];
    Ok(Val::T(
        "rc",
        vec![if is_str(t) {
            v.clone()
        } else if adt_name(t) == "Box" {
            st.alloc(tup(vec![int(1), int(1), wrap_ptr(t, v.clone())]))
        } else {
            let Some([Val::T("st", s), _, Val::Int(hi)]) = v.targs("str") else {
                return unknown("string");
            };
            let r = Val::T("rng", vec![s[0].clone(), s[1].clone(), int(0), Val::Int(hi.clone())]);
            st.alloc(tup(vec![int(1), int(1), Val::T("string", vec![s[0].clone(), r])]))
        }],
    ))
}

/// What a reference-counted pointer points to.
pub fn rc_target(v: &Val) -> R<Val> {
    match v {
        Val::T("rc", a) => Ok(match &a[0] {
            Val::Ptr(c, p) => {
                let mut p = p.clone();
                p.push(2);
                Val::Ptr(*c, p)
            }
            o => o.clone(),
        }),
        _ => unknown(format!("target of {v:?}")),
    }
}

fn self_ty(cx: &CallCx) -> Option<Ty> {
    cx.arg_tys.first().copied()
}

/// The standard library's operations on strings and shared strings.
pub fn call(e: &mut Engine, st: &mut State, n: &str, a: &[Val], cx: &CallCx) -> R<Option<Val>> {
    let krate = cx.inst.def.krate().name;
    if !matches!(krate.as_str(), "core" | "alloc" | "std") {
        return Ok(None);
    }
    let last = n.rsplit("::").next().unwrap_or("");
    let arg0 = a.first();
    let s0 = match arg0 {
        Some(v @ Val::T("str", _)) => Some(v.clone()),
        _ => None,
    };
    // Methods of str.
    if let Some(s) = &s0 {
        if self_ty(cx).and_then(pointee).is_some_and(is_str) {
            match last {
                "len" => return Ok(Some(Val::Int(str_len(s)?))),
                "is_empty" => {
                    let l = str_len(s)?;
                    return Ok(Some(Val::Bool(!st.decide_ge(&l.plus(-1))?)));
                }
                "chars" => return Ok(Some(Val::T("chars", vec![s.clone()]))),
                "char_indices" => {
                    return Ok(Some(Val::T("chidx", vec![s.clone(), int(0)])));
                }
                "is_char_boundary" => {
                    let Val::Int(x) = &a[1] else { return unknown("boundary") };
                    return Ok(Some(Val::Bool(boundary(st, s, x)?)));
                }
                "split_at" => {
                    let Val::Int(x) = &a[1] else { return unknown("split") };
                    let l = str_len(s)?;
                    return match (sub(st, s, &Lin::k(0), x)?, sub(st, s, x, &l)?) {
                        (Some(p), Some(q)) => Ok(Some(tup(vec![p, q]))),
                        _ => Err(Stop::Panic("split of a string".into())),
                    };
                }
                "index" | "get" if a.len() == 2 => {
                    let Some(rt) = cx.arg_tys.get(1) else { return Ok(None) };
                    let l = str_len(s)?;
                    let Some((lo, hi)) = bounds(*rt, &a[1], &l)? else { return Ok(None) };
                    let r = sub(st, s, &lo, &hi)?;
                    return match (last, r) {
                        ("get", Some(r)) => Ok(Some(some(r))),
                        ("get", None) => Ok(Some(none())),
                        (_, Some(r)) => Ok(Some(r)),
                        (_, None) => Err(Stop::Panic(format!(
                            "slice {lo:?}..{hi:?} of a string of length {l:?}"
                        ))),
                    };
                }
                "trim" | "trim_start" | "trim_end" | "trim_matches" | "trim_start_matches"
                | "trim_end_matches" => {
                    return Ok(Some(trimmed(st, s, !last.contains("end"), !last.contains("start"))?));
                }
                "as_ref" | "borrow" | "as_str" | "deref" => return Ok(Some(s.clone())),
                "to_owned" | "to_string" | "into" | "from" | "to_string_inner"
                    if ownable(cx.ret_ty) =>
                {
                    return Ok(Some(own(st, cx.ret_ty, s)?));
                }
                _ => {}
            }
        }
        if last == "from" && ownable(cx.ret_ty) {
            return Ok(Some(own(st, cx.ret_ty, s)?));
        }
    }
    // Characters.
    if last == "len_utf8" {
        return Ok(Some(match arg0 {
            Some(Val::T("ch", c)) => c[2].clone(),
            Some(Val::Int(l)) if l.is_const() => {
                int(char::from_u32(l.c as u32).map_or(1, |c| c.len_utf8()) as i128)
            }
            _ => return Ok(None),
        }));
    }
    if last == "len_utf16" {
        return Ok(Some(match arg0 {
            Some(Val::T("ch", c)) => match &c[2] {
                Val::Int(w) => int(if st.decide_ge(&w.plus(-4))? { 2 } else { 1 }),
                _ => return Ok(None),
            },
            Some(Val::Int(l)) if l.is_const() => {
                int(char::from_u32(l.c as u32).map_or(1, |c| c.len_utf16()) as i128)
            }
            _ => return Ok(None),
        }));
    }
    // Iterators over characters.
    if let Some(p @ Val::Ptr(..)) = arg0 {
        match st.rd(p) {
            Ok(Val::T("chars", c)) => match last {
                "next" => {
                    let r = first(st, &c[0])?;
                    return Ok(Some(match r {
                        None => none(),
                        Some((x, _, rest)) => {
                            st.moved();
                            st.wr(p, Val::T("chars", vec![rest]))?;
                            some(x)
                        }
                    }));
                }
                "clone" => return Ok(Some(Val::T("chars", c))),
                "as_str" => return Ok(Some(c[0].clone())),
                _ => {}
            },
            Ok(Val::T("chidx", c)) => match last {
                "next" => {
                    let r = first(st, &c[0])?;
                    return Ok(Some(match r {
                        None => none(),
                        Some((x, w, rest)) => {
                            st.moved();
                            let off = c[1].lin().unwrap().clone();
                            st.wr(p, Val::T("chidx", vec![rest, Val::Int(off.add(&w))]))?;
                            some(tup(vec![Val::Int(off), x]))
                        }
                    }));
                }
                "clone" => return Ok(Some(Val::T("chidx", c))),
                "offset" => return Ok(Some(c[1].clone())),
                "as_str" => return Ok(Some(c[0].clone())),
                _ => {}
            },
            Ok(v @ Val::T("string", _)) => match last {
                "deref" | "as_str" | "as_ref" | "borrow" => return Ok(Some(string_str(&v)?)),
                "len" => return Ok(Some(Val::Int(str_len(&string_str(&v)?)?))),
                "is_empty" => {
                    let l = str_len(&string_str(&v)?)?;
                    return Ok(Some(Val::Bool(!st.decide_ge(&l.plus(-1))?)));
                }
                "clone" => return Ok(Some(copied(st, &v)?)),
                "clear" => {
                    let m = v.targs("string").unwrap()[0].clone();
                    st.wr(p, Val::T("string", vec![m]))?;
                    return Ok(Some(unit()));
                }
                "shrink_to_fit" | "reserve" | "reserve_exact" => return Ok(Some(unit())),
                "push" => {
                    let Val::T("string", mut rs) = v else { unreachable!() };
                    match &a[1] {
                        Val::T("ch", c) => {
                            let hi = c[1].lin().unwrap().add(c[2].lin().unwrap());
                            let r = vec![rs[0].clone(), c[0].clone(), c[1].clone(), Val::Int(hi)];
                            append(st, &mut rs, Val::T("rng", r));
                        }
                        o => return unknown(format!("push of {o:?}")),
                    }
                    st.wr(p, Val::T("string", rs))?;
                    return Ok(Some(unit()));
                }
                "push_str" | "extend" if matches!(a[1], Val::T("str", _)) => {
                    let Val::T("string", mut rs) = v else { unreachable!() };
                    let m = rs[0].clone();
                    let add = string(m, ranges(st, &a[1])?);
                    for r in &add.targs("string").unwrap()[1..] {
                        append(st, &mut rs, r.clone());
                    }
                    st.wr(p, Val::T("string", rs))?;
                    return Ok(Some(unit()));
                }
                "insert" | "insert_str" | "remove" | "pop" | "truncate" => {
                    return unknown(format!("String::{last}"));
                }
                _ => {}
            },
            Ok(v @ Val::T("rc", _)) if last == "deref" || last == "as_ref" || last == "borrow" => {
                return Ok(Some(rc_target(&v)?));
            }
            Ok(v @ Val::T("rc", _)) if last == "clone" => return Ok(Some(e.rc_clone(st, v)?)),
            _ => {}
        }
    }
    // String values.
    if let Some(v @ Val::T("string", _)) = arg0 {
        match last {
            "into_boxed_str" => return Ok(Some(wrap_ptr(cx.ret_ty, string_str(v)?))),
            "leak" => return Ok(Some(string_str(v)?)),
            "from" | "into" if ownable(cx.ret_ty) => return Ok(Some(own(st, cx.ret_ty, v)?)),
            _ => {}
        }
    }
    if adt_name(cx.ret_ty) == "String" && matches!(last, "from" | "into" | "to_string") {
        let c = match arg0 {
            Some(p @ Val::Ptr(..)) => st.rd(p)?,
            Some(v) => v.clone(),
            None => Val::Uninit,
        };
        if let Val::T("ch", c) = c {
            let m = st.new_id();
            let hi = c[1].lin().unwrap().add(c[2].lin().unwrap());
            let r = Val::T("rng", vec![m.clone(), c[0].clone(), c[1].clone(), Val::Int(hi)]);
            return Ok(Some(Val::T("string", vec![m, r])));
        }
    }
    if adt_name(cx.ret_ty) == "String" && matches!(last, "new" | "with_capacity" | "default") {
        let m = st.new_id();
        return Ok(Some(Val::T("string", vec![m])));
    }
    Ok(None)
}
