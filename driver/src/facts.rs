//! The linear-inequality domain: a conjunction of `L >= 0` constraints over
//! non-negative integer symbols.

use crate::val::{Lin, SymId};
use std::collections::BTreeSet;

#[derive(Clone, Debug, Default, PartialEq, Eq, Hash)]
pub struct Facts {
    pub ge: Vec<Lin>,
    /// Symbols replaced since the last step; values read before still have
    /// them.
    pub gone: Vec<(SymId, Lin)>,
}

pub fn gcd(a: i128, b: i128) -> i128 {
    if b == 0 { a.abs() } else { gcd(b, a % b) }
}

/// Divides by the gcd of the coefficients, rounding the constant down.
fn norm(l: &Lin) -> Lin {
    let g = l.t.iter().fold(0, |g, x| gcd(g, x.1));
    if g <= 1 {
        return l.clone();
    }
    Lin { c: l.c.div_euclid(g), t: l.t.iter().map(|(s, k)| (*s, k / g)).collect() }
}

fn syms(ls: &[Lin]) -> BTreeSet<SymId> {
    ls.iter().flat_map(|l| l.t.iter().map(|x| x.0)).collect()
}

/// Eliminates one symbol (which is itself >= 0).
fn eliminate(ls: &[Lin], s: SymId) -> Vec<Lin> {
    let mut pos: Vec<Lin> = vec![Lin::s(s)];
    let mut neg = vec![];
    let mut out: BTreeSet<Lin> = BTreeSet::new();
    for l in ls {
        let k = l.coef(s);
        if k > 0 {
            pos.push(l.clone())
        } else if k < 0 {
            neg.push(l.clone())
        } else {
            out.insert(l.clone());
        }
    }
    for n in &neg {
        let kn = -n.coef(s);
        for p in &pos {
            let kp = p.coef(s);
            let l = norm(&p.scale(kn).addk(n, kp));
            if l.is_const() && l.c >= 0 {
                continue;
            }
            if l.t.iter().all(|x| x.1 > 0) && l.c >= 0 {
                continue;
            }
            out.insert(l);
        }
    }
    out.into_iter().collect()
}

fn unsat(ls: Vec<Lin>) -> bool {
    let mut ls = ls;
    loop {
        if ls.iter().any(|l| l.is_const() && l.c < 0) {
            return true;
        }
        // A symbol is >= 0, so a constraint with only negative terms and a
        // negative constant is contradictory.
        if ls.iter().any(|l| l.c < 0 && l.t.iter().all(|x| x.1 < 0)) {
            return true;
        }
        let ss = syms(&ls);
        let Some(s) = ss.iter().copied().min_by_key(|s| {
            let p = ls.iter().filter(|l| l.coef(*s) > 0).count() + 1;
            let n = ls.iter().filter(|l| l.coef(*s) < 0).count();
            p * n
        }) else {
            return false;
        };
        ls = eliminate(&ls, s);
        if ls.len() > 300 {
            return false;
        }
    }
}

impl Facts {
    /// Whether `l >= 0` follows.
    pub fn proves(&self, l: &Lin) -> bool {
        if !self.gone.is_empty() {
            return self.follows(&self.current(l));
        }
        self.follows(l)
    }
    /// With the symbols that were replaced meanwhile replaced.
    pub fn current(&self, l: &Lin) -> Lin {
        self.gone.iter().fold(l.clone(), |l, (s, e)| if l.coef(*s) != 0 { l.subst(*s, e) } else { l })
    }
    fn follows(&self, l: &Lin) -> bool {
        if l.is_const() {
            return l.c >= 0;
        }
        if l.c >= 0 && l.t.iter().all(|x| x.1 > 0) {
            return true;
        }
        if self.ge.iter().any(|f| f.t == l.t && f.c <= l.c) {
            return true;
        }
        // Only the constraints connected to l matter.
        let mut ss: BTreeSet<SymId> = l.t.iter().map(|x| x.0).collect();
        let mut used = vec![false; self.ge.len()];
        loop {
            let mut ch = false;
            for (i, f) in self.ge.iter().enumerate() {
                if !used[i] && f.t.iter().any(|x| ss.contains(&x.0)) {
                    used[i] = true;
                    ch = true;
                    ss.extend(f.t.iter().map(|x| x.0));
                }
            }
            if !ch {
                break;
            }
        }
        let mut ls: Vec<Lin> =
            self.ge.iter().zip(&used).filter(|x| *x.1).map(|x| x.0.clone()).collect();
        ls.push(norm(&l.neg().plus(-1)));
        unsat(ls)
    }
    pub fn infeasible(&self) -> bool {
        unsat(self.ge.clone())
    }
    pub fn add(&mut self, l: &Lin) {
        let l = norm(&self.current(l));
        if !self.ge.contains(&l) && !self.proves(&l) {
            self.ge.push(l);
        }
    }
    pub fn subst(&mut self, s: SymId, e: &Lin) {
        // The symbol's own non-negativity carries over to the expression.
        let mut v: Vec<Lin> = self.ge.iter().map(|l| norm(&l.subst(s, e))).collect();
        v.push(e.clone());
        self.gone.push((s, e.clone()));
        self.ge.clear();
        for l in v {
            self.add(&l);
        }
    }
    /// Projects onto the given symbols; false if that was too much.
    pub fn project(&mut self, keep: &BTreeSet<SymId>) -> bool {
        let mut all = true;
        loop {
            let dead: Vec<SymId> =
                syms(&self.ge).into_iter().filter(|s| !keep.contains(s)).collect();
            let Some(s) = dead.into_iter().min_by_key(|s| {
                let p = self.ge.iter().filter(|l| l.coef(*s) > 0).count() + 1;
                let n = self.ge.iter().filter(|l| l.coef(*s) < 0).count();
                p * n
            }) else {
                break;
            };
            self.ge = eliminate(&self.ge, s);
            if self.ge.len() > 120 {
                self.ge.retain(|l| l.t.len() <= 2);
                self.ge.truncate(120);
                all = false;
            }
        }
        all
    }
    /// Weakens big constants, drops implied constraints, sorts.
    pub fn normalise(&mut self, clip: i128) {
        let mut v: Vec<Lin> = vec![];
        for l in &self.ge {
            let mut l = norm(l);
            if l.c < -clip {
                l.c = -clip
            }
            if l.t.iter().all(|x| x.1 < 0) && l.c > 8 && clip < 1 << 40 {
                continue;
            }
            if l.c > clip * 4 || l.t.iter().any(|x| x.1.abs() > 6) {
                continue;
            }
            if l.is_const() && l.c >= 0 {
                continue;
            }
            v.push(l)
        }
        v.sort();
        v.dedup();
        // Remove redundant ones, the largest first.
        v.sort_by_key(|l| (std::cmp::Reverse(l.t.len()), l.clone()));
        let mut i = 0;
        while i < v.len() {
            let l = v.remove(i);
            let f = Facts { ge: v.clone(), gone: vec![] };
            if !f.proves(&l) {
                v.insert(i, l);
                i += 1;
            }
        }
        v.sort();
        self.ge = v;
    }
}
