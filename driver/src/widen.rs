//! Reached states, with widening along the way a state was reached: if it has
//! the shape of earlier ones and differs in numbers only, the difference is
//! taken any number of times. That keeps every linear relation between the
//! numbers that both have.

use crate::facts::Facts;
use crate::state::*;
use crate::val::*;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Default)]
pub struct Wide(HashMap<Key, Vec<(Facts, bool)>>);

pub struct Hist {
    shape: Rc<Key>,
    key: Key,
    facts: Facts,
    prev: Option<Rc<Hist>>,
}

impl Drop for Hist {
    fn drop(&mut self) {
        let mut p = self.prev.take();
        while let Some(rc) = p {
            match Rc::try_unwrap(rc) {
                Ok(mut n) => p = n.prev.take(),
                Err(_) => break,
            }
        }
    }
}

fn strip(v: &Val) -> Val {
    v.map(&mut |v| match v {
        Val::Int(l) => Val::Int(Lin { c: 0, t: l.t }),
        o => o,
    })
}

fn shape(k: &Key) -> Key {
    Key {
        frames: k.frames.clone(),
        cells: k.cells.iter().map(strip).collect(),
        ghosts: k.ghosts.iter().map(|(n, v)| (*n, strip(v))).collect(),
        attrs: k
            .attrs
            .iter()
            .map(|(s, m)| (*s, m.iter().map(|(n, v)| (*n, strip(v))).collect()))
            .collect(),
        memo: k.memo.iter().map(|(a, b)| (strip(a), strip(b))).collect(),
        anchors: k.anchors.iter().map(strip).collect(),
    }
}

/// `a + t * (b - a) / d` where the two differ in constants only.
fn line(a: &Val, b: &Val, t: SymId, d: i128) -> Val {
    match (a, b) {
        (Val::Int(x), Val::Int(y)) => Val::Int(x.addk(&Lin::s(t), (y.c - x.c) / d)),
        (Val::Agg(i, x), Val::Agg(_, y)) => {
            Val::Agg(*i, x.iter().zip(y).map(|(p, q)| line(p, q, t, d)).collect())
        }
        (Val::T(i, x), Val::T(_, y)) => {
            Val::T(i, x.iter().zip(y).map(|(p, q)| line(p, q, t, d)).collect())
        }
        _ => b.clone(),
    }
}

fn ints(k: &Key) -> Vec<Lin> {
    let mut r = vec![];
    let mut f = |v: &Val| {
        v.visit(&mut |v| {
            if let Val::Int(l) = v {
                r.push(l.clone())
            }
        })
    };
    k.cells.iter().for_each(&mut f);
    k.ghosts.iter().for_each(|x| f(&x.1));
    k.attrs.iter().for_each(|x| x.1.iter().for_each(|y| f(&y.1)));
    k.memo.iter().for_each(|x| {
        f(&x.0);
        f(&x.1)
    });
    k.anchors.iter().for_each(&mut f);
    r
}

/// The number of steps from one to the other, where a step changes every
/// number by at most one and makes no plain number smaller.
fn step(a: &Key, b: &Key) -> Option<i128> {
    let ds: Vec<(i128, bool)> = ints(a)
        .into_iter()
        .zip(ints(b))
        .map(|(x, y)| (y.c - x.c, x.is_const()))
        .collect();
    let g = ds.iter().fold(0, |g, d| crate::facts::gcd(g, d.0));
    (g > 0 && ds.iter().all(|d| d.0.abs() <= g && !(d.1 && d.0 < 0))).then_some(g)
}

/// Whether one of them has the same and more instances. What nothing was given
/// up of is covered by such only.
fn covered(e: &[(Facts, bool)], st: &State) -> bool {
    e.iter().any(|(f, sure)| {
        (*sure || st.imprecise.is_some()) && f.ge.iter().all(|l| st.facts.proves(l))
    })
}

impl Wide {
    /// Canonicalises and possibly widens; true if the state is new. The first
    /// `after` states of a shape are kept as they are.
    pub fn add(&mut self, st: &mut State, after: usize) -> bool {
        for _ in 0..4 {
            let key = st.canon(false);
            if let Some(e) = self.0.get(&key) {
                if covered(e, st) {
                    return false;
                }
            }
            let sh = Rc::new(shape(&key));
            let mut n = 0;
            let mut near: Option<Rc<Hist>> = None;
            let mut p = st.hist.clone();
            while let Some(h) = p {
                if h.shape == sh && h.key != key {
                    n += 1;
                    if near.is_none() && step(&h.key, &key).is_some() {
                        near = Some(h.clone());
                    }
                }
                p = h.prev.clone();
            }
            if let (Some(h), true) = (near, n >= after) {
                let t = st.new_sym();
                let old = &h.key;
                let d = step(old, &key).unwrap_or(1);
                let vs = |a: &[Val], b: &[Val]| -> Vec<Val> {
                    a.iter().zip(b).map(|(x, y)| line(x, y, t, d)).collect()
                };
                st.cells = vs(&old.cells, &key.cells);
                st.anchors = vs(&old.anchors, &key.anchors);
                for ((k, x), (_, y)) in old.ghosts.iter().zip(&key.ghosts) {
                    st.ghosts.insert(k, line(x, y, t, d));
                }
                for ((s, x), (_, y)) in old.attrs.iter().zip(&key.attrs) {
                    for ((k, x), (_, y)) in x.iter().zip(y) {
                        st.set_attr(*s, k, line(x, y, t, d));
                    }
                }
                st.memo = old
                    .memo
                    .iter()
                    .zip(&key.memo)
                    .map(|((a, b), (c, e))| (line(a, c, t, d), line(b, e, t, d)))
                    .collect();
                // What holds for both.
                let mut f = Facts::default();
                f.ge.extend(h.facts.ge.iter().filter(|l| st.facts.proves(l)).cloned());
                f.ge.extend(st.facts.ge.iter().filter(|l| h.facts.proves(l)).cloned());
                for (x, y) in ints(old).into_iter().zip(ints(&key)) {
                    if y.c < x.c && h.facts.proves(&x) && st.facts.proves(&y) {
                        f.ge.push(x.addk(&Lin::s(t), (y.c - x.c) / d));
                    }
                }
                f.ge.sort();
                f.ge.dedup();
                st.facts = f;
                st.tr("(repeated any number of times)");
                st.imprecise = Some("generalised from repetitions".into());
                continue;
            }
            if std::env::var_os("KULV_STATES").is_some() {
                eprintln!("STATE {:?}\n  {:?}\n  {:?} {:?} {:?}\n  {:?}", st.trace_tail(8), key.cells, key.ghosts, key.attrs, key.memo, st.facts);
            }
            let sure = st.imprecise.is_none();
            self.0.entry(key.clone()).or_default().push((st.facts.clone(), sure));
            st.hist = Some(Rc::new(Hist {
                shape: sh,
                key,
                facts: st.facts.clone(),
                prev: st.hist.take(),
            }));
            return true;
        }
        // Give up on relations.
        st.exact = false;
        st.imprecise = Some("generalised".into());
        let key = st.canon(true);
        st.exact = true;
        let e = self.0.entry(key).or_default();
        if covered(e, st) {
            return false;
        }
        e.push((st.facts.clone(), false));
        true
    }
}
