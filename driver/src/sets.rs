//! Sets of numbers as intervals.

use crate::state::*;
use crate::val::*;

fn ivs(v: &Val) -> Vec<(Lin, Lin)> {
    match v {
        Val::T("set", a) => a
            .iter()
            .filter_map(|x| match x.targs("iv") {
                Some([Val::Int(l), Val::Int(h)]) => Some((l.clone(), h.clone())),
                _ => None,
            })
            .collect(),
        _ => vec![],
    }
}

fn mk(v: Vec<(Lin, Lin)>) -> Val {
    let mut v: Vec<Val> =
        v.into_iter().map(|(l, h)| Val::T("iv", vec![Val::Int(l), Val::Int(h)])).collect();
    v.sort();
    Val::T("set", v)
}

pub fn empty() -> Val {
    Val::T("set", vec![])
}

/// Adds `lo..hi`.
pub fn insert(st: &State, set: &Val, lo: &Lin, hi: &Lin) -> Val {
    let (mut lo, mut hi) = (lo.clone(), hi.clone());
    let mut v = ivs(set);
    loop {
        let Some(i) = v.iter().position(|(l, h)| {
            st.proves_eq(&l.sub(&hi)) || st.proves_eq(&h.sub(&lo))
        }) else {
            break;
        };
        let (l, h) = v.remove(i);
        if st.proves_eq(&l.sub(&hi)) {
            hi = h
        } else {
            lo = l
        }
    }
    v.push((lo, hi));
    mk(v)
}

pub fn contains(st: &mut State, set: &Val, i: &Lin) -> R<bool> {
    for (l, h) in ivs(set) {
        if st.decide_ge(&i.sub(&l))? && st.decide_ge(&h.sub(i).plus(-1))? {
            return Ok(true);
        }
    }
    Ok(false)
}

/// Whether an interval has a number in common with it.
pub fn meets(st: &mut State, set: &Val, lo: &Lin, hi: &Lin) -> R<bool> {
    if !st.decide_ge(&hi.sub(lo).plus(-1))? {
        return Ok(false);
    }
    for (l, h) in ivs(set) {
        if st.decide_ge(&h.sub(&l).plus(-1))?
            && st.decide_ge(&h.sub(lo).plus(-1))?
            && st.decide_ge(&hi.sub(&l).plus(-1))?
        {
            return Ok(true);
        }
    }
    Ok(false)
}

/// Whether it has all of `lo..hi`.
pub fn covers(st: &mut State, set: &Val, lo: &Lin, hi: &Lin) -> R<bool> {
    let mut at = lo.clone();
    let mut v = ivs(set);
    loop {
        if st.decide_ge(&at.sub(hi))? {
            return Ok(true);
        }
        let mut hit = None;
        for (i, (l, h)) in v.iter().enumerate() {
            if st.decide_ge(&at.sub(l))? && st.decide_ge(&h.sub(&at).plus(-1))? {
                hit = Some(i);
                break;
            }
        }
        match hit {
            Some(i) => at = v.remove(i).1,
            None => return Ok(false),
        }
    }
}
