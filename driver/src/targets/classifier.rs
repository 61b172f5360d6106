//! The default character classifier, for a character about which nothing is
//! known.

use super::Done;
use crate::engine::*;
use crate::state::*;
use crate::val::*;

struct Tg;
impl Target for Tg {
    fn stub(&self, _: &mut Engine, _: &mut State, n: &str, _: &[Val], _: &CallCx) -> R<Val> {
        unknown(format!("stub {n}"))
    }
    fn model(&self, _: &mut Engine, st: &mut State, n: &str, a: &[Val], _: &CallCx) -> R<Act> {
        if is_ws_fn(n) {
            if let Some(Val::Int(c)) = a.first() {
                let c = c.clone();
                for (lo, hi) in WS {
                    if !st.decide_ge(&c.plus(-(*lo as i128)))? {
                        return Ok(Act::Ret(Val::Bool(false)));
                    }
                    if st.decide_ge(&Lin::k(*hi as i128).sub(&c))? {
                        return Ok(Act::Ret(Val::Bool(true)));
                    }
                }
                return Ok(Act::Ret(Val::Bool(false)));
            }
        }
        Ok(Act::Body)
    }
}

pub fn is_ws_fn(n: &str) -> bool {
    n.ends_with("::is_whitespace") && n.contains("char")
}

/// Unicode's White_Space, in ascending order.
const WS: &[(u32, u32)] = &[
    (9, 13),
    (0x20, 0x20),
    (0x85, 0x85),
    (0xA0, 0xA0),
    (0x1680, 0x1680),
    (0x2000, 0x200A),
    (0x2028, 0x2029),
    (0x202F, 0x202F),
    (0x205F, 0x205F),
    (0x3000, 0x3000),
];
const MAX: i128 = 0x10FFFF;

/// The characters a path is about.
fn interval(st: &State, l: &Lin) -> (i128, i128) {
    let (mut lo, mut hi) = (0, MAX);
    let (mut a, mut b) = (0, MAX);
    while a < b {
        let m = (a + b + 1) / 2;
        if st.facts.proves(&l.plus(-m)) {
            a = m
        } else {
            b = m - 1
        }
    }
    lo = lo.max(a);
    let (mut a, mut b) = (0, MAX);
    while a < b {
        let m = (a + b) / 2;
        if st.facts.proves(&Lin::k(m).sub(l)) {
            b = m
        } else {
            a = m + 1
        }
    }
    hi = hi.min(b);
    (lo, hi)
}

pub fn run() -> Vec<Done> {
    let tg = Tg;
    let mut e = Engine::new(&tg, "classifier");
    let fns: [(&str, Vec<(u32, u32)>); 4] = [
        ("entry_cc_start", vec![('{' as u32, '{' as u32)]),
        ("entry_cc_end", vec![('}' as u32, '}' as u32)]),
        ("entry_cc_escape", vec![('\\' as u32, '\\' as u32)]),
        ("entry_cc_whitespace", WS.to_vec()),
    ];
    for (f, class) in &fns {
        let i = entry(f);
        let mut st = State::new();
        st.exact = true;
        let recv = st.alloc(unit());
        let ch = st.new_int();
        st.facts.add(&Lin::k(MAX).sub(ch.lin().unwrap()));
        st.set("ch", ch.clone());
        for mut o in e.run_call(st, i, vec![recv, ch]) {
            let ch = o.st.g("ch");
            let (lo, hi) = interval(&o.st, ch.lin().unwrap());
            let got = o.ret.clone();
            // A character of the path's interval for which the answer is wrong.
            let mut wrong = None;
            let mut c = lo;
            while c <= hi {
                if (0xD800..0xE000).contains(&c) {
                    c = 0xE000;
                    continue;
                }
                let want = class.iter().any(|(a, b)| c >= *a as i128 && c <= *b as i128);
                if got != Val::Bool(want) {
                    wrong = Some(c);
                    break;
                }
                // On to the next place where the expected answer can change.
                let next = class
                    .iter()
                    .flat_map(|(a, b)| [*a as i128, *b as i128 + 1])
                    .filter(|x| *x > c)
                    .chain([0xE000i128].into_iter().filter(|x| *x > c))
                    .min()
                    .unwrap_or(hi + 1);
                c = next;
            }
            let good = wrong.is_none() && matches!(got, Val::Bool(_));
            e.conclude(&mut o.st, "class-exact", good, || {
                let w = wrong.unwrap_or(lo) as u32;
                format!("answers {got:?} for the characters {lo:#x}..={hi:#x}, wrong for U+{w:04X}")
            });
        }
    }
    vec![Done::of(e)]
}
