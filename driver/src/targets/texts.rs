//! The operations of texts: concatenation, iteration over chunks, emptiness,
//! comparison, hashing and encoding.
//!
//! A text "a" or "b" is of any number of chunks, each of any number of
//! characters. Chunk `k` with the characters `lo..hi` of the whole text is
//! `ck(side,k,lo,hi)`; chunks come into being when they are looked at. Per side
//! "k" is the number of chunks looked at, "up" that of their characters, "n"
//! that of all chunks as far as it is known, and "at" that of the characters
//! that were taken.
//!
//! In a text as it can be built by the public interface today, either there is
//! at most one chunk or no chunk is empty. That is assumed as long as
//! concatenations keep it up ("full").

use super::Done;
use crate::engine::*;
use crate::slices::{parts, slice};
use crate::state::*;
use crate::val::*;
use rustc_public::ty::{RigidTy, Ty, TyKind};
use rustc_public::CrateDef;
use std::cell::{Cell, RefCell};
use std::cmp::Ordering;
use std::collections::BTreeMap;

/// How far texts are followed without generalising.
const GEN: i128 = 2;

struct Tg<'a> {
    op: &'static str,
    /// What is fed to a hasher after a number of characters, and whether there
    /// are more.
    fed: &'a RefCell<BTreeMap<(i128, bool), Val>>,
    /// Whether a concatenation gives a text that is not "full".
    loose: &'a Cell<bool>,
}

fn key(side: &Val, what: &str) -> &'static str {
    let a = *side == name("a");
    match (what, a) {
        ("k", true) => "k.a",
        ("k", _) => "k.b",
        ("up", true) => "up.a",
        ("up", _) => "up.b",
        ("n", true) => "n.a",
        ("n", _) => "n.b",
        ("at", true) => "at.a",
        ("at", _) => "at.b",
        ("cur", true) => "cur.a",
        ("cur", _) => "cur.b",
        ("loose", true) => "loose.a",
        ("loose", _) => "loose.b",
        (_, true) => "full.a",
        (_, false) => "full.b",
    }
}
fn num(st: &State, side: &Val, what: &str) -> Lin {
    st.g(key(side, what)).lin().cloned().unwrap_or(Lin::k(0))
}
fn put(st: &mut State, side: &Val, what: &str, l: Lin) {
    st.set(key(side, what), Val::Int(l))
}
fn full(st: &State, side: &Val) -> bool {
    st.g(key(side, "full")) == Val::Bool(true)
}
fn ck(side: &Val, k: &Lin, lo: &Lin, hi: &Lin) -> Val {
    Val::T("ck", vec![side.clone(), Val::Int(k.clone()), Val::Int(lo.clone()), Val::Int(hi.clone())])
}

/// The next chunk of a text.
fn chunk(st: &mut State, side: &Val) -> R<Val> {
    let (k, up) = (num(st, side, "k"), num(st, side, "up"));
    let hi = st.new_int().lin().unwrap().clone();
    st.assume_ge(&hi.sub(&up).plus(-(full(st, side) as i128)))?;
    st.progress();
    put(st, side, "k", k.plus(1));
    put(st, side, "up", hi.clone());
    Ok(Val::Agg(0, vec![ck(side, &k, &up, &hi)]))
}
fn next_of(side: &Val, k: &Lin) -> Val {
    Val::T("nxt", vec![side.clone(), Val::Int(k.clone())])
}

/// Whether there are no chunks beyond those looked at.
fn no_more(st: &mut State, side: &Val) -> bool {
    match st.g(key(side, "n")) {
        Val::Int(n) => st.proves_eq(&n.sub(&num(st, side, "k"))),
        // Nothing follows an empty chunk.
        _ => {
            st.g(key(side, "loose")) == Val::Bool(false)
                && st.proves_eq(&num(st, side, "k").plus(-1))
                && st.proves_eq(&num(st, side, "up"))
        }
    }
}
/// Whether there are characters beyond the first so many: yes, no, or both.
fn beyond(st: &mut State, side: &Val, at: &Lin) -> R<Option<bool>> {
    let up = num(st, side, "up");
    if st.decide_ge(&up.sub(at).plus(-1))? {
        return Ok(Some(true));
    }
    if no_more(st, side) {
        return Ok(Some(false));
    }
    if full(st, side) {
        if let Val::Int(n) = st.g(key(side, "n")) {
            if st.facts.proves(&n.sub(&num(st, side, "k")).plus(-1)) {
                return Ok(Some(true));
            }
        }
    }
    Ok(None)
}

fn is_chunk(t: Ty) -> bool {
    adt_name(t) == "AChunk"
}

/// The texts of a type.
fn builds(st: &State, side: &Val, ty: Ty, loose: bool) -> Result<Vec<(State, Val)>, String> {
    if is_chunk(ty) {
        let mut s = st.clone();
        let c = chunk(&mut s, side).map_err(|_| "chunk".to_string())?;
        if s.g(key(side, "n")) == Val::Uninit {
            s.set(key(side, "n"), int(1));
        }
        return Ok(vec![(s, c)]);
    }
    match adt_name(ty).as_str() {
        "Vec" if is_chunk(ty_args(ty)[0]) => {
            let base = Val::T("chunks", vec![side.clone()]);
            let mut out = vec![];
            let mut s = st.clone();
            s.set(key(side, "n"), int(0));
            out.push((s, Val::T("vec", vec![])));
            let mut s = st.clone();
            let n = s.new_int();
            s.assume_ge(&n.lin().unwrap().plus(if loose { -1 } else { -2 }))
                .map_err(|_| "length".to_string())?;
            s.set(key(side, "n"), n.clone());
            s.set(key(side, "full"), Val::Bool(!loose));
            out.push((s, Val::T("vec", vec![Val::T("rng", vec![base, int(0), n])])));
            return Ok(out);
        }
        "Option" if adt_name(ty_args(ty)[0]) == "DatumMutRef" => {
            let mut s = st.clone();
            s.set(key(side, "n"), Val::Uninit);
            s.set(key(side, "loose"), Val::Bool(loose));
            let k = num(&s, side, "k");
            return Ok(vec![(s, next_of(side, &k))]);
        }
        _ => {}
    }
    let TyKind::RigidTy(RigidTy::Adt(d, _)) = ty.kind() else { return Err(format!("a text with {ty}")) };
    if !is_repo(&d.krate().name) {
        return Err(format!("a text with {ty}"));
    }
    let mut out = vec![];
    for v in 0..variants(ty) {
        let mut part = vec![(st.clone(), vec![])];
        for t in field_tys(ty, v) {
            let mut more = vec![];
            for (s, fs) in part {
                for (s, x) in builds(&s, side, t, loose)? {
                    let mut fs: Vec<Val> = fs.clone();
                    fs.push(x);
                    more.push((s, fs));
                }
            }
            part = more;
        }
        out.extend(part.into_iter().map(|(s, fs)| (s, Val::Agg(v as u32, fs))));
    }
    Ok(out)
}

/// A range of chunks of a text, or the rest of one.
#[derive(Debug)]
enum Seg {
    Span(Val, Lin, Lin),
    Rest(Val, Lin),
    Other(Val),
}

/// The chunks of a text, from its representation.
fn chunks_of(st: &State, v: &Val, out: &mut Vec<Seg>) -> R<()> {
    match v {
        Val::Agg(_, fs) => fs.iter().try_for_each(|x| chunks_of(st, x, out)),
        Val::Ptr(..) => chunks_of(st, &st.rd(v)?, out),
        Val::T("vec", ps) => ps.iter().try_for_each(|x| chunks_of(st, x, out)),
        Val::T("el", x) => chunks_of(st, &x[0], out),
        Val::T("rng", r) if r[0].tag() == "chunks" => {
            let Val::T(_, b) = &r[0] else { return unknown("chunks") };
            out.push(Seg::Span(b[0].clone(), r[1].lin().unwrap().clone(), r[2].lin().unwrap().clone()));
            Ok(())
        }
        Val::T("ck", c) => {
            let k = c[1].lin().unwrap();
            out.push(Seg::Span(c[0].clone(), k.clone(), k.plus(1)));
            Ok(())
        }
        Val::T("cks", c) => {
            out.push(Seg::Span(c[0].clone(), c[1].lin().unwrap().clone(), c[2].lin().unwrap().clone()));
            Ok(())
        }
        Val::T("nxt", c) => {
            out.push(Seg::Rest(c[0].clone(), c[1].lin().unwrap().clone()));
            Ok(())
        }
        Val::T("none", _) => {
            out.push(Seg::Other(v.clone()));
            Ok(())
        }
        o => unknown(format!("a text of {o:?}")),
    }
}

impl Tg<'_> {
    /// The text "a" is followed by the text "b", apart from what is empty.
    fn concatenated(&self, e: &mut Engine, st: &mut State, v: &Val) -> R<()> {
        let mut segs = vec![];
        chunks_of(st, v, &mut segs)?;
        let shown = format!("{segs:?}");
        let mut sides = 0;
        let mut tight = true;
        let mut it = segs.into_iter().peekable();
        for side in [name("a"), name("b")] {
            let mut at = Lin::k(0);
            let mut any = false;
            let mut open = false;
            loop {
                match it.peek() {
                    Some(Seg::Span(s, l, h)) if *s == side => {
                        let good = st.proves_eq(&l.sub(&at)) && !open;
                        e.check(st, "order", good, || {
                            format!("chunk {l:?} of text {s:?} where {at:?} belongs: {shown}")
                        })?;
                        at = h.clone();
                    }
                    Some(Seg::Rest(s, l)) if *s == side => {
                        let good = st.proves_eq(&l.sub(&at)) && !open;
                        e.check(st, "order", good, || {
                            format!("chunk {l:?} of text {s:?} where {at:?} belongs: {shown}")
                        })?;
                        open = true;
                    }
                    _ => break,
                }
                any = true;
                it.next();
            }
            if any {
                let whole = open
                    || match st.g(key(&side, "n")) {
                        Val::Int(n) => st.proves_eq(&n.sub(&at)),
                        _ => false,
                    };
                e.check(st, "content", whole, || {
                    format!("not all chunks of text {side:?} are kept: {shown}")
                })?;
                // A single chunk that may be empty.
                tight &= full(st, &side) || st.facts.proves(&num(st, &side, "up").plus(-1));
                sides += 1;
            } else {
                let up = num(st, &side, "up");
                let empty = no_more(st, &side) && st.proves_eq(&up);
                e.check(st, "content", empty, || {
                    format!("text {side:?} is left out although it may have characters: {shown}")
                })?;
                e.reach(st, "empty part");
            }
        }
        let rest = it.next();
        e.check(st, "order", rest.is_none(), || format!("something else follows: {shown}"))?;
        if sides > 1 && !tight {
            self.loose.set(true);
        }
        e.reach(st, "concatenated");
        Ok(())
    }

    /// A word that was fed to the hasher after so many characters.
    fn word(&self, e: &mut Engine, st: &mut State, more: bool, end: bool) -> R<()> {
        let at = num(st, &name("a"), "at");
        let mut w = match st.g("word") {
            Val::T(_, w) => w,
            _ => vec![],
        };
        if end {
            w.push(name("end"));
        }
        let w = Val::T("w", w);
        let k = if at.is_const() && at.c <= GEN { at.c } else { i128::MAX };
        let old = self.fed.borrow_mut().entry((k, more)).or_insert_with(|| w.clone()).clone();
        e.check(st, "fed", old == w, || {
            format!("after {at:?} characters {w:?} is fed to the hasher, elsewhere {old:?}")
        })
    }

    /// The order of two characters.
    fn chars(&self, st: &mut State, a: &[Val], b: &[Val]) -> R<Ordering> {
        let (i, j) = (a[1].lin().unwrap().clone(), b[1].lin().unwrap().clone());
        let pick = |st: &mut State| {
            Ok(match st.choose(3)? {
                0 => Ordering::Equal,
                1 => Ordering::Less,
                _ => Ordering::Greater,
            })
        };
        if a[0] == b[0] {
            return if st.decide_eq(&i.sub(&j))? { Ok(Ordering::Equal) } else { pick(st) };
        }
        if a[0] != name("a") {
            return Ok(self.chars(st, b, a)?.reverse());
        }
        if !st.decide_eq(&i.sub(&j))? {
            // Unrelated ones.
            return pick(st);
        }
        let same = st.g("same").lin().unwrap().clone();
        if st.decide_ge(&same.sub(&i).plus(-1))? {
            return Ok(Ordering::Equal);
        }
        if let Val::T("diff", d) = st.g("diff") {
            if st.decide_eq(&d[0].lin().unwrap().sub(&i))? {
                return Ok(if d[1] == int(0) { Ordering::Less } else { Ordering::Greater });
            }
            return pick(st);
        }
        let o = pick(st)?;
        match o {
            Ordering::Equal => {
                if st.proves_eq(&same.sub(&i)) {
                    st.set("same", Val::Int(i.plus(1)));
                }
            }
            _ => st.set("diff", Val::T("diff", vec![Val::Int(i), int((o != Ordering::Less) as i128)])),
        }
        Ok(o)
    }

    /// The order of the texts, as far as it is known, and whether that of all
    /// characters.
    fn known(&self, st: &mut State) -> R<Option<Ordering>> {
        let same = st.g("same").lin().unwrap().clone();
        if let Val::T("diff", d) = st.g("diff") {
            if st.proves_eq(&d[0].lin().unwrap().sub(&same)) {
                return Ok(Some(if d[1] == int(0) { Ordering::Less } else { Ordering::Greater }));
            }
            return Ok(None);
        }
        let a = beyond(st, &name("a"), &same)?;
        let b = beyond(st, &name("b"), &same)?;
        Ok(match (a, b) {
            (Some(false), Some(false)) => Some(Ordering::Equal),
            (Some(false), Some(true)) => Some(Ordering::Less),
            (Some(true), Some(false)) => Some(Ordering::Greater),
            _ => None,
        })
    }
    fn unequal(&self, st: &mut State) -> R<bool> {
        if let Val::T("diff", _) = st.g("diff") {
            return Ok(true);
        }
        // Of different lengths.
        for (x, y) in [("a", "b"), ("b", "a")] {
            let l = num(st, &name(x), "up");
            if no_more(st, &name(x)) && beyond(st, &name(y), &l)? == Some(true) {
                return Ok(true);
            }
        }
        Ok(false)
    }

    fn compared(&self, e: &mut Engine, st: &mut State, ret: &Val) -> R<()> {
        let known = self.known(st)?;
        let eq = |e: &mut Engine, st: &mut State, b: bool, tg: &Self| {
            if b {
                e.reach(st, "equal");
                let n = st.g("same");
                e.check(st, "equality", known == Some(Ordering::Equal), || {
                    format!("equal although only the first {n:?} characters are known to be")
                })
            } else {
                let un = tg.unequal(st)?;
                e.reach(st, "not equal");
                e.check(st, "equality", un, || "not equal without a difference".into())
            }
        };
        match (self.op, ret) {
            ("eq" | "text_eq", Val::Bool(b)) => eq(e, st, *b, self),
            ("ne", Val::Bool(b)) => eq(e, st, !*b, self),
            ("partial_cmp", Val::Agg(1, o)) => self.ordered(e, st, &o[0], known),
            ("partial_cmp", Val::Agg(0, _)) => {
                e.check(st, "ordering", false, || "the texts are not ordered at all".into())
            }
            ("cmp" | "text_cmp", o) => self.ordered(e, st, o, known),
            _ => unknown(format!("result {ret:?}")),
        }
    }
    fn ordered(&self, e: &mut Engine, st: &mut State, o: &Val, known: Option<Ordering>) -> R<()> {
        let got = match o.agg() {
            Some((0, _)) => Ordering::Less,
            Some((1, _)) => Ordering::Equal,
            Some((2, _)) => Ordering::Greater,
            _ => return unknown(format!("order {o:?}")),
        };
        e.reach(st, match got {
            Ordering::Less => "less",
            Ordering::Equal => "equal",
            Ordering::Greater => "greater",
        });
        e.check(st, "ordering", known == Some(got), || {
            format!("{got:?} where the characters tell {known:?}")
        })
    }

    fn encoded(&self, e: &mut Engine, st: &mut State, ret: &Val) -> R<()> {
        let (enc, encn) = (st.g("enc").lin().unwrap().clone(), st.g("encn").lin().unwrap().clone());
        let n = st.g("buf").lin().unwrap().clone();
        let a = name("a");
        let Some((v, [s])) = ret.agg() else { return unknown(format!("result {ret:?}")) };
        let Some([_, Val::Int(l), Val::Int(h)]) = s.targs("str") else {
            return unknown(format!("result {ret:?}"));
        };
        let whole = st.proves_eq(l) && st.proves_eq(&h.sub(&enc));
        e.check(st, "prefix", whole, || {
            format!("the bytes {l:?}..{h:?} are returned of 0..{enc:?} encoded ones")
        })?;
        if v == 0 {
            e.reach(st, "all fits");
            let all = beyond(st, &a, &encn)? == Some(false);
            e.check(st, "complete", all, || {
                format!("success with {encn:?} characters although there may be more")
            })
        } else {
            e.reach(st, "not all fits");
            let next = st.proves_eq(&num(st, &a, "at").sub(&encn).plus(-1));
            let w = st.g("width").lin().cloned().unwrap_or(Lin::k(0));
            let over = next && st.facts.proves(&enc.add(&w).sub(&n).plus(-1));
            e.check(st, "longest", over, || {
                format!("given up after {enc:?} of {n:?} bytes, where the next character may fit")
            })
        }
    }
}

impl Target for Tg<'_> {
    fn stub(&self, e: &mut Engine, st: &mut State, n: &str, a: &[Val], cx: &CallCx) -> R<Val> {
        let of = |st: &State, p: &Val| -> R<Val> {
            match st.rd(p)?.agg() {
                Some((_, [x])) => Ok(x.clone()),
                _ => unknown(format!("chunk {:?}", st.rd(p)?)),
            }
        };
        Ok(match n.rsplit("::").next().unwrap_or("") {
            "stub_chunk_empty" => Val::Agg(0, vec![Val::T("ck", vec![name("none"), int(0), int(0), int(0)])]),
            "stub_chunk_is_empty" => match of(st, &a[0])? {
                Val::T("ck", c) => {
                    let d = c[3].lin().unwrap().sub(c[2].lin().unwrap());
                    Val::Bool(!st.decide_ge(&d.plus(-1))?)
                }
                o => return unknown(format!("emptiness of {o:?}")),
            },
            "stub_chunk_clone" => st.rd(&a[0])?,
            "stub_chunk_strm" => match of(st, &a[0])? {
                Val::T("ck", c) => {
                    Val::Agg(0, vec![Val::T("cs", vec![c[0].clone(), c[2].clone(), c[3].clone()])])
                }
                o => return unknown(format!("characters of {o:?}")),
            },
            "stub_strm_next" => {
                let Val::T("cs", c) = of(st, &a[0])? else { return unknown("stream") };
                let (side, pos, hi) = (c[0].clone(), c[1].lin().unwrap().clone(), c[2].lin().unwrap().clone());
                if !st.decide_ge(&hi.sub(&pos).plus(-1))? {
                    return Ok(none());
                }
                let at = num(st, &side, "at");
                if !st.decide_ge(&pos.sub(&at))? {
                    return unknown("characters again");
                }
                if self.op.ends_with("hash") {
                    self.word(e, st, true, false)?;
                    st.set("word", Val::T("w", vec![]));
                }
                if self.op == "chars" {
                    let left = st.g("got") == Val::Bool(true);
                    e.check(st, "characters", !left, || "a character is left out".into())?;
                    st.set("got", Val::Bool(true));
                }
                st.progress();
                put(st, &side, "at", pos.plus(1));
                st.wr(&a[0], Val::Agg(0, vec![Val::T("cs", vec![
                    side.clone(), Val::Int(pos.plus(1)), Val::Int(hi)])]))?;
                let w = if self.op == "encode" {
                    let w = st.new_int();
                    st.assume_ge(&w.lin().unwrap().plus(-1))?;
                    st.assume_ge(&Lin::k(4).sub(w.lin().unwrap()))?;
                    st.set("width", w.clone());
                    w
                } else {
                    int(0)
                };
                let p = Val::T("pos", vec![side.clone(), Val::Int(pos.clone())]);
                some(tup(vec![Val::T("ch", vec![side, Val::Int(pos), w]), p]))
            }
            "stub_visit" => {
                let Val::T("ck", c) = of(st, &a[0])? else { return unknown("chunk") };
                let (seen, k) = (st.g("seen").lin().unwrap().clone(), c[1].lin().unwrap().clone());
                let good = st.proves_eq(&seen.sub(&k));
                e.check(st, "iteration", good, || format!("chunk {k:?} is visited as chunk {seen:?}"))?;
                e.reach(st, "visited");
                st.set("seen", Val::Int(seen.plus(1)));
                unit()
            }
            "stub_show" => {
                let Val::T("ch", c) = &a[0] else { return unknown(format!("character {:?}", a[0])) };
                let d = num(st, &c[0], "at").sub(c[1].lin().unwrap()).plus(-1);
                let good = st.g("got") == Val::Bool(true) && st.proves_eq(&d);
                e.check(st, "characters", good, || format!("{:?} comes out of turn", a[0]))?;
                e.reach(st, "shown");
                st.set("got", Val::Bool(false));
                unit()
            }
            "stub_new_datum" => {
                if st.choose(2)? == 1 {
                    st.set("failed", Val::Bool(true));
                    return Ok(err(Val::Agg(0, vec![])));
                }
                let p = st.alloc(a[0].clone());
                let t = ty_args(cx.ret_ty)[0];
                Val::Agg(0, vec![wrap_ptr(t, p)])
            }
            "stub_feed" => {
                let at = num(st, &name("a"), "at");
                let v = match &a[1] {
                    p @ Val::Ptr(..) => st.rd(p)?,
                    o => return unknown(format!("feeding {o:?}")),
                };
                let x = match &v {
                    Val::T("ch", c) => {
                        let d = c[1].lin().unwrap().sub(&at);
                        if !d.is_const() {
                            return unknown("feeding some character");
                        }
                        name(&format!("character {}", d.c))
                    }
                    Val::Int(l) if l.is_const() => name(&format!("{}", l.c)),
                    Val::Int(l) => {
                        let d = l.sub(&at);
                        e.check(st, "fed", d.is_const(), || {
                            format!("the hasher is fed {l:?}, which the characters do not tell")
                        })?;
                        name(&format!("number {:+}", d.c))
                    }
                    o => return unknown(format!("feeding {o:?}")),
                };
                let mut w = match st.g("word") {
                    Val::T(_, w) => w,
                    _ => vec![],
                };
                w.push(tup(vec![name(&format!("{:?}", a[0])), x]));
                st.set("word", Val::T("w", w));
                unit()
            }
            _ => return unknown(format!("stub {n}")),
        })
    }
    fn on_drop(&self, _: &mut Engine, _: &mut State, _: Ty, _: &Val) -> R<bool> {
        Ok(true)
    }
    fn order(&self, st: &mut State, a: &Val, b: &Val) -> R<Option<Ordering>> {
        Ok(match (a, b) {
            (Val::T("ch", x), Val::T("ch", y)) => Some(self.chars(st, x, y)?),
            // Letter case is told by nothing but the character, but neither the
            // order nor a difference of characters remains.
            (Val::T("cased", x), Val::T("cased", y)) if x[0] == y[0] => {
                let (Some(c), Some(d)) = (x[1].targs("ch"), y[1].targs("ch")) else { return Ok(None) };
                let (c, d) = (c.to_vec(), d.to_vec());
                match self.chars(st, &c, &d)? {
                    Ordering::Equal => Some(Ordering::Equal),
                    _ => Some([Ordering::Equal, Ordering::Less, Ordering::Greater][st.choose(3)?]),
                }
            }
            // Any position.
            (Val::T("pos", _), Val::T("pos", _)) => {
                Some([Ordering::Equal, Ordering::Less, Ordering::Greater][st.choose(3)?])
            }
            _ => None,
        })
    }
    fn elem(&self, _: &mut Engine, st: &mut State, b: &Val, i: &Lin) -> R<Val> {
        let Some([side]) = b.targs("chunks") else { return unknown(format!("element of {b:?}")) };
        if let Some((_, [Val::Int(j), p])) = st.g(key(side, "cur")).agg() {
            if st.proves_eq(&j.sub(i)) {
                return Ok(p.clone());
            }
        }
        let k = num(st, side, "k");
        if !st.decide_ge(&i.sub(&k))? {
            return unknown("a chunk again");
        }
        if !st.proves_eq(&i.sub(&k)) {
            // Some are passed over.
            let up = num(st, side, "up");
            let lo = st.new_int().lin().unwrap().clone();
            let d = if full(st, side) { i.sub(&k) } else { Lin::k(0) };
            st.assume_ge(&lo.sub(&up).sub(&d))?;
            put(st, side, "k", i.clone());
            put(st, side, "up", lo);
        }
        let c = chunk(st, side)?;
        let p = st.alloc(c);
        st.set(key(side, "cur"), tup(vec![Val::Int(i.clone()), p.clone()]));
        Ok(p)
    }
    fn expand(&self, _: &mut Engine, st: &mut State, v: &Val, ty: Ty) -> R<Val> {
        let Some([side, k]) = v.targs("nxt") else { return unknown(format!("discriminant of {v:?}")) };
        if st.choose(2)? == 0 {
            st.set(key(side, "n"), k.clone());
            return Ok(none());
        }
        if st.g(key(side, "loose")) != Val::Bool(true) {
            let up = num(st, side, "up");
            st.assume_ge(&up.plus(-1))?;
            st.set(key(side, "full"), Val::Bool(true));
        }
        let c = chunk(st, side)?;
        let dr = ty_args(ty)[0];
        let Some(text) = ty_args(dr).into_iter().find(|t| adt_name(*t) == "TextDatumList") else {
            return unknown("the type of the list");
        };
        let rest = next_of(side, &k.lin().unwrap().plus(1));
        let node = mk_struct(text, &mut |t| if is_chunk(t) { c.clone() } else { rest.clone() });
        let p = st.alloc(Val::Agg(self.text_variant(dr)?, vec![node]));
        Ok(some(wrap_ptr(dr, p)))
    }
    fn model(&self, e: &mut Engine, st: &mut State, n: &str, a: &[Val], cx: &CallCx) -> R<Act> {
        let last = n.rsplit("::").next().unwrap_or("");
        let krate = cx.inst.def.krate().name;
        if krate != "core" && krate != "alloc" && krate != "std" {
            return Ok(Act::Body);
        }
        let buf = |v: &Val| match parts(v) {
            Some((Val::T("buf", _), l, h)) => Some((l, h)),
            _ => None,
        };
        if matches!(last, "to_ascii_lowercase" | "to_ascii_uppercase") {
            if let Some(p @ Val::Ptr(..)) = a.first() {
                if let c @ Val::T("ch", _) = st.rd(p)? {
                    return Ok(Act::Ret(Val::T("cased", vec![name(last), c])));
                }
            }
        }
        if last == "encode_utf8" {
            let (Val::T("ch", c), Some((l, h))) = (&a[0], buf(&a[1])) else {
                return unknown(format!("encoding into {:?}", a[1]));
            };
            let w = c[2].lin().unwrap();
            if !st.decide_ge(&h.sub(&l).sub(w))? {
                return Err(Stop::Panic("a character is encoded where it does not fit".into()));
            }
            let (enc, encn) = (st.g("enc").lin().unwrap().clone(), st.g("encn").lin().unwrap().clone());
            let good = st.proves_eq(&enc.sub(&l)) && st.proves_eq(&encn.sub(c[1].lin().unwrap()));
            e.check(st, "place", good, || {
                format!("character {:?} is written at {l:?}, where character {encn:?} belongs at {enc:?}", c[1])
            })?;
            st.set("enc", Val::Int(enc.add(w)));
            st.set("encn", Val::Int(encn.plus(1)));
            return Ok(Act::Ret(Val::T("str", vec![
                Val::T("bufst", vec![]), Val::Int(l.clone()), Val::Int(l.add(w))])));
        }
        if matches!(last, "from_utf8" | "from_utf8_mut") {
            let Some((l, h)) = buf(&a[0]) else { return unknown(format!("string of {:?}", a[0])) };
            let enc = st.g("enc").lin().unwrap().clone();
            let s = Val::T("str", vec![Val::T("bufst", vec![]), Val::Int(l.clone()), Val::Int(h.clone())]);
            if st.proves_eq(&l) && (st.proves_eq(&h.sub(&enc)) || st.proves_eq(&h)) {
                return Ok(Act::Ret(Val::Agg(0, vec![s])));
            }
            if !st.decide_ge(&h.sub(&enc).plus(-1))? && st.imprecise.is_none() {
                st.imprecise = Some("part of what was encoded".into());
            }
            return Ok(Act::Ret(if st.choose(2)? == 0 {
                Val::Agg(0, vec![s])
            } else {
                Val::Agg(1, vec![Val::Top])
            }));
        }
        Ok(Act::Body)
    }
    fn fold(&self, st: &mut State) {
        if self.op == "concat" {
            self.join(st);
        }
        for d in [Dim::Chars, Dim::Chunks("a"), Dim::Chunks("b")] {
            rebase(st, d, if self.op == "concat" { 2 * GEN } else { GEN });
        }
    }
    fn judge(&self, e: &mut Engine, st: &mut State, ret: &Val) -> R<()> {
        let a = name("a");
        match self.op {
            "concat" => match ret.agg() {
                Some((0, [v])) => {
                    let v = v.clone();
                    self.concatenated(e, st, &v)
                }
                Some((1, _)) => {
                    let failed = st.g("failed") == Val::Bool(true);
                    e.reach(st, "allocation fails");
                    e.check(st, "no-spurious-error", failed, || "an error without a failure".into())
                }
                _ => unknown(format!("result {ret:?}")),
            },
            "is_empty" => {
                let up = num(st, &a, "up");
                match ret {
                    Val::Bool(true) => {
                        e.reach(st, "empty");
                        let none = no_more(st, &a) && st.proves_eq(&up);
                        e.check(st, "emptiness", none, || "a text with characters is empty".into())
                    }
                    Val::Bool(false) => {
                        e.reach(st, "not empty");
                        let some = beyond(st, &a, &Lin::k(0))? == Some(true);
                        e.check(st, "emptiness", some, || "a text without characters is not empty".into())
                    }
                    _ => unknown(format!("result {ret:?}")),
                }
            }
            "chunks" => {
                let seen = st.g("seen").lin().unwrap().clone();
                let all = no_more(st, &a) && st.proves_eq(&seen.sub(&num(st, &a, "k")));
                e.reach(st, "all visited");
                e.check(st, "iteration", all, || format!("the iteration ends after {seen:?} chunks"))
            }
            "chars" => {
                let at = num(st, &a, "at");
                let left = st.g("got") == Val::Bool(true);
                e.reach(st, "all shown");
                match beyond(st, &a, &at)? {
                    Some(m) => e.check(st, "characters", !m && !left, || {
                        format!("the characters end after {at:?}")
                    }),
                    None => unknown("whether characters are left"),
                }
            }
            "empty" | "from" | "from_chunkish" => {
                let mut segs = vec![];
                chunks_of(st, ret, &mut segs)?;
                segs.retain(|s| !matches!(s, Seg::Span(n, ..) if *n == name("none")));
                let good = match (&segs[..], self.op) {
                    ([], "empty") => true,
                    ([Seg::Span(s, l, h)], "from" | "from_chunkish") => {
                        *s == a && *l == Lin::k(0) && *h == Lin::k(1)
                    }
                    _ => false,
                };
                if let Val::Agg(..) = ret {
                    let mut one = false;
                    ret.visit(&mut |x| one |= matches!(x, Val::T("vec", p) if !p.is_empty()));
                    if one {
                        self.loose.set(true);
                    }
                }
                e.reach(st, "made");
                e.check(st, "content", good, || format!("a text of {segs:?} is made"))
            }
            "hash" | "text_hash" => {
                let at = num(st, &a, "at");
                let m = beyond(st, &a, &at)?;
                e.reach(st, "hashed");
                if m != Some(false) {
                    self.word(e, st, true, true)?;
                }
                if m != Some(true) {
                    self.word(e, st, false, true)?;
                }
                Ok(())
            }
            "encode" => self.encoded(e, st, ret),
            _ => self.compared(e, st, ret),
        }
    }
}

impl Tg<'_> {
    /// Puts nodes of a list that are passed together.
    fn join(&self, st: &mut State) {
        let refs = st.gc();
        for c in 0..st.cells.len() {
            let cells = &st.cells;
            st.cells[c] = st.cells[c].map(&mut |v| match v {
                Val::T("vec", ps) => Val::T("vec", run_of(cells, &refs, ps)),
                o => o,
            });
        }
        let live: Vec<_> = st.frames.iter().flat_map(|f| f.locals.iter().flatten().copied()).collect();
        for c in 0..st.cells.len() {
            loop {
                let Some((s, k0, k1, lo, _, p)) = node(&st.cells[c]) else { break };
                let Some(Val::Ptr(d, path)) = unwrap_ptr(&p) else { break };
                if !path.is_empty() || live.contains(&d) || live.contains(&(c as u32)) {
                    break;
                }
                // The one is only known by what is before it, the other only
                // by the one.
                if refs.get(&d) != Some(&1) || refs.get(&(c as u32)) != Some(&1) {
                    break;
                }
                let Some((s2, l0, l1, _, hi, q)) = node(&st.cells[d as usize]) else { break };
                if s != s2 || !st.proves_eq(&k1.sub(&l0)) {
                    break;
                }
                let m = Val::T("cks", vec![s, Val::Int(k0), Val::Int(l1), Val::Int(lo), Val::Int(hi)]);
                st.cells[c] = st.cells[c].map(&mut |x| match x {
                    Val::T("ck" | "cks", _) => m.clone(),
                    Val::Ptr(..) => q.clone(),
                    o => o,
                });
                st.cells[d as usize] = Val::Uninit;
            }
        }
    }

    /// The variant of datums that is a text.
    fn text_variant(&self, dr: Ty) -> R<u32> {
        let Some(t) = field_tys(dr, 0).into_iter().find_map(|t| t.kind().builtin_deref(true)) else {
            return unknown("the type of the datum");
        };
        let TyKind::RigidTy(RigidTy::Adt(d, _)) = t.ty.kind() else { return unknown("the datum") };
        match d.variants().iter().position(|v| v.name().ends_with("Text")) {
            Some(i) => Ok(i as u32),
            None => unknown("the text variant"),
        }
    }
}

/// What numbers count.
#[derive(Clone, Copy, PartialEq)]
enum Dim {
    Chars,
    Chunks(&'static str),
}

/// Whose chunks a slice or vector has, if those of a whole text.
fn of_chunks(cells: &[Val], v: &Val) -> Option<Val> {
    match v {
        Val::T("chunks", s) => Some(s[0].clone()),
        Val::Ptr(c, path) => {
            let mut v = cells.get(*c as usize)?;
            for p in path.iter() {
                v = v.agg()?.1.get(*p as usize)?;
            }
            of_chunks(cells, v)
        }
        Val::T("vec", ps) => match &ps[..] {
            [Val::T("rng", r)] if r[1] == int(0) => of_chunks(cells, &r[0]),
            _ => None,
        },
        _ => None,
    }
}

/// Applies a function to the numbers of a kind in a value.
fn counts(cells: &[Val], d: Dim, v: &Val, f: &mut dyn FnMut(&Lin) -> Lin) -> Val {
    let side = |x: &Val| match d {
        Dim::Chars => false,
        Dim::Chunks(s) => *x == name(s),
    };
    let on = |f: &mut dyn FnMut(&Lin) -> Lin, x: &Val, yes: bool| match x {
        Val::Int(l) if yes => Val::Int(f(l)),
        o => o.clone(),
    };
    let ch = d == Dim::Chars;
    match v {
        Val::T("ck", c) => {
            let k = side(&c[0]);
            Val::T("ck", vec![c[0].clone(), on(f, &c[1], k), on(f, &c[2], ch), on(f, &c[3], ch)])
        }
        Val::T("cks", c) => {
            let k = side(&c[0]);
            Val::T("cks", vec![
                c[0].clone(), on(f, &c[1], k), on(f, &c[2], k), on(f, &c[3], ch), on(f, &c[4], ch)])
        }
        Val::T("cs", c) => Val::T("cs", vec![c[0].clone(), on(f, &c[1], ch), on(f, &c[2], ch)]),
        Val::T("ch", c) => Val::T("ch", vec![c[0].clone(), on(f, &c[1], ch), c[2].clone()]),
        Val::T("pos", c) => Val::T("pos", vec![c[0].clone(), on(f, &c[1], ch)]),
        Val::T("nxt", c) => Val::T("nxt", vec![c[0].clone(), on(f, &c[1], side(&c[0]))]),
        Val::T("diff", c) => Val::T("diff", vec![on(f, &c[0], ch), c[1].clone()]),
        Val::T(t @ ("slice" | "rng"), c) if c.len() == 3 => {
            let k = of_chunks(cells, &c[0]).is_some_and(|s| side(&s));
            Val::T(t, vec![c[0].clone(), on(f, &c[1], k), on(f, &c[2], k)])
        }
        Val::T(t, c) => Val::T(t, c.iter().map(|x| counts(cells, d, x, f)).collect()),
        Val::Agg(i, c) => Val::Agg(*i, c.iter().map(|x| counts(cells, d, x, f)).collect()),
        o => o.clone(),
    }
}

/// Expresses the numbers of a kind by how far one has got, once that is far.
fn rebase(st: &mut State, d: Dim, gen: i128) {
    let own: &[&'static str] = match d {
        Dim::Chars => &["at.a", "at.b", "up.a", "up.b", "same", "encn"],
        Dim::Chunks("a") => &["k.a", "n.a", "seen"],
        Dim::Chunks(_) => &["k.b", "n.b"],
    };
    let far = own
        .iter()
        .filter(|g| !g.starts_with("up") && !g.starts_with('n'))
        .filter_map(|g| st.g(g).lin().filter(|l| l.is_const()).map(|l| l.c))
        .max()
        .unwrap_or(0);
    if far <= gen {
        return;
    }
    let s = st.new_int().lin().unwrap().clone();
    // Numbers of the kind, and what they have to do with each other.
    let mut syms: Vec<SymId> = vec![];
    let mut put = |l: &Lin| {
        if l.is_const() {
            if l.c < 2 { l.clone() } else { s.plus(l.c - far) }
        } else {
            if l.t.len() == 1 && l.t[0].1 == 1 {
                syms.push(l.t[0].0);
            }
            l.clone()
        }
    };
    let cells = st.cells.clone();
    st.cells = cells.iter().map(|v| counts(&cells, d, v, &mut put)).collect();
    let ghosts: Vec<(&'static str, Val)> = st.ghosts.iter().map(|(k, v)| (*k, v.clone())).collect();
    for (k, v) in ghosts {
        let v = match (&v, d) {
            (Val::Int(l), _) if own.contains(&k) => Val::Int(put(l)),
            (Val::Agg(0, c), Dim::Chunks(x)) if k == key(&name(x), "cur") => match &c[0] {
                Val::Int(l) => tup(vec![Val::Int(put(l)), c[1].clone()]),
                _ => v,
            },
            _ => counts(&cells, d, &v, &mut put),
        };
        st.ghosts.insert(k, v);
    }
    let mut more = vec![s.plus(-gen - 1)];
    for l in &st.facts.ge {
        let m: i128 = l.t.iter().map(|x| x.1).sum();
        if m != 0 && l.t.iter().all(|x| syms.contains(&x.0)) {
            more.push(l.plus(m * far).addk(&s, -m));
        }
    }
    st.facts.ge.extend(more);
    if st.imprecise.is_none() {
        st.imprecise = Some("generalised from repetitions".into());
    }
}

/// Puts elements of a vector that are chunks next to each other together.
fn run_of(cells: &[Val], refs: &BTreeMap<CellId, usize>, ps: Vec<Val>) -> Vec<Val> {
    let mut out: Vec<Val> = vec![];
    for p in ps {
        let p = match &p {
            Val::T("el", x) => match &x[0] {
                Val::Ptr(c, path) if path.is_empty() && refs.get(c) == Some(&1) => {
                    match cells[*c as usize].agg() {
                        Some((_, [Val::T("ck", k)])) => {
                            let i = k[1].lin().unwrap();
                            let b = Val::T("chunks", vec![k[0].clone()]);
                            Val::T("rng", vec![b, k[1].clone(), Val::Int(i.plus(1))])
                        }
                        _ => p,
                    }
                }
                _ => p,
            },
            _ => p,
        };
        if let (Some(Val::T("rng", a)), Val::T("rng", b)) = (out.last_mut(), &p) {
            if a[0] == b[0] && a[2] == b[1] {
                a[2] = b[2].clone();
                continue;
            }
        }
        out.push(p);
    }
    out
}

/// The parts of a list's node that has a successor.
fn node(v: &Val) -> Option<(Val, Lin, Lin, Lin, Lin, Val)> {
    let (mut span, mut ptr, mut others) = (None, None, 0);
    v.visit(&mut |x| match x {
        Val::T("ck", c) => {
            let k = c[1].lin().unwrap();
            others += span.is_some() as u32;
            span = Some((c[0].clone(), k.clone(), k.plus(1), c[2].lin().unwrap().clone(), c[3].lin().unwrap().clone()));
        }
        Val::T("cks", c) => {
            let l = |i: usize| c[i].lin().unwrap().clone();
            others += span.is_some() as u32;
            span = Some((c[0].clone(), l(1), l(2), l(3), l(4)));
        }
        Val::Ptr(..) => {
            others += ptr.is_some() as u32;
            ptr = Some(x.clone());
        }
        Val::Agg(..) | Val::Int(_) | Val::Name(_) => {}
        _ => others += 1,
    });
    if others > 0 {
        return None;
    }
    let (a, b, c, d, e) = span?;
    Some((a, b, c, d, e, ptr?))
}
const MAKE: [&str; 4] = ["concat", "empty", "from", "from_chunkish"];
const PAIR: [&str; 5] = ["eq", "ne", "text_eq", "partial_cmp", "text_cmp"];
const ONE: [&str; 6] = ["is_empty", "chunks", "chars", "hash", "text_hash", "encode"];

pub fn run(pairs: bool) -> Vec<Done> {
    let name = if pairs { "text-pairs" } else { "texts" };
    let kinds = ["v", "l"];
    let mut ops: Vec<(String, &'static str)> = vec![];
    for k in kinds {
        ops.extend(MAKE.iter().map(|o| (k.to_string(), *o)));
    }
    for k in kinds {
        if pairs {
            ops.push((k.into(), "cmp"));
            for j in kinds {
                ops.extend(PAIR.iter().map(|o| (format!("{k}{j}"), *o)));
            }
        } else {
            ops.extend(ONE.iter().map(|o| (k.to_string(), *o)));
        }
    }
    let fed = RefCell::new(BTreeMap::new());
    let loose = Cell::new(false);
    let mut out = vec![];
    for weak in [false, true] {
        if weak && !loose.get() {
            break;
        }
        for (m, op) in &ops {
            let tg = Tg { op, fed: &fed, loose: &loose };
            let w = if weak { "-loose" } else { "" };
            let mut e = Engine::new(&tg, &format!("{name}/{m}-{op}{w}"));
            start(&mut e, m, op, weak);
            out.push(Done::of(e));
        }
    }
    out
}

fn start(e: &mut Engine, m: &str, op: &'static str, loose: bool) {
    let f = entry(&format!("{m}::entry_{op}"));
    let tys = f.fn_abi().map(|a| a.args.iter().map(|x| x.ty).collect::<Vec<_>>()).unwrap_or_default();
    let mut st = State::new();
    st.exact = true;
    st.gen = 8;
    for s in ["a", "b"] {
        for w in ["k", "up", "at"] {
            st.set(key(&name(s), w), int(0));
        }
    }
    for g in ["same", "seen", "enc", "encn"] {
        st.set(g, int(0));
    }
    let mut ways = vec![(st, vec![])];
    for (i, t) in tys.iter().enumerate() {
        let side = name(if i == 0 { "a" } else { "b" });
        let inner = t.kind().builtin_deref(true).map(|t| t.ty);
        let of = inner.unwrap_or(*t);
        let mut more = vec![];
        for (mut s, args) in ways {
            let mut args: Vec<Val> = args;
            if matches!(adt_name(of).as_str(), "AAlloc" | "AHasher") {
                args.push(s.alloc(Val::Agg(0, vec![Val::T("leaf", vec![])])));
                more.push((s, args));
                continue;
            }
            if matches!(of.kind(), TyKind::RigidTy(RigidTy::Slice(_))) {
                let n = s.new_int();
                s.set("buf", n.clone());
                args.push(slice(Val::T("buf", vec![]), Lin::k(0), n.lin().unwrap().clone()));
                more.push((s, args));
                continue;
            }
            match builds(&s, &side, of, loose) {
                Ok(ways) => {
                    for (mut s, v) in ways {
                        let mut args = args.clone();
                        args.push(if inner.is_some() { s.alloc(v) } else { v });
                        more.push((s, args));
                    }
                }
                Err(w) => {
                    *e.rep.unknowns.entry(w).or_default() += 1;
                    return;
                }
            }
        }
        ways = more;
    }
    for (s, args) in ways {
        e.run_call(s, f, args);
    }
}
