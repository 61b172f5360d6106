//! The functions that parse everything there is.
//!
//! What the parse iterator returns is given: any number of datums, then an
//! error or the end. Form `i` is `dat(i)`. "n" is the number of datums that
//! were returned, "end" tells what comes next: 0 anything, 1 the end, 2 nothing
//! as an error was returned.

use super::Done;
use crate::engine::*;
use crate::state::*;
use crate::strings::*;
use crate::val::*;
use rustc_public::ty::Ty;
use rustc_public::CrateDef;

struct Tg;

fn dat(i: &Lin) -> Val {
    Val::T("dat", vec![Val::Int(i.clone())])
}
fn list(v: &Val) -> Vec<Val> {
    v.targs("q").map(|x| x.to_vec()).unwrap_or_default()
}
fn given(n: &str) -> Val {
    Val::T("given", vec![name(n)])
}

/// Everything reachable from a value.
fn reachable(st: &State, v: &Val) -> Vec<Val> {
    let mut out: Vec<Val> = vec![];
    let mut cells = std::collections::BTreeSet::new();
    let mut todo = vec![v.clone()];
    while let Some(v) = todo.pop() {
        v.visit(&mut |x| {
            if let Val::Ptr(c, _) = x {
                if cells.insert(*c) {
                    todo.push(st.cells[*c as usize].clone());
                }
            }
            if let Val::T(..) = x {
                out.push(x.clone());
            }
        });
    }
    out
}

impl Tg {
    /// The iterator is one over the given source, with the given parser.
    fn subject(&self, e: &mut Engine, st: &mut State, it: &Val) -> R<()> {
        let all = reachable(st, &st.rd(it)?);
        let b = st.g("bindings");
        if b != Val::Uninit {
            let other = all.iter().find(|x| x.tag() == "map" || x.tag() == "given");
            let has = all.contains(&b);
            if !has && other.is_none() {
                return unknown("the bindings of the parser");
            }
            e.check(st, "bindings", has, || format!("the parser does not have the bindings {b:?}"))?;
        }
        for k in ["slots", "pairs"] {
            let b = st.g(k);
            let Some((_, _, n)) = crate::slices::parts(&b) else { continue };
            if st.decide_ge(&n.plus(-1))? {
                e.check(st, "parser-parts", all.contains(&b), || {
                    format!("the parser does not have all of the given {b:?}")
                })?;
            }
        }
        let src = st.g("input");
        let srcs: Vec<&Val> = all.iter().filter(|x| x.tag() == "srcstrm").collect();
        let [Val::T(_, s)] = &srcs[..] else {
            return unknown("the source of the parser");
        };
        let inner = reachable(st, &s[0]);
        if src.tag() == "str" {
            let part = inner.iter().find(|x| x.tag() == "str").cloned();
            if part.is_none() {
                return unknown("the source string of the parser");
            }
            let whole = inner.iter().any(|x| x.tag() == "str" && st.same(x, &src));
            return e.check(st, "input", whole, || {
                format!("what is parsed is {part:?} instead of {src:?}")
            });
        }
        e.check(st, "input", inner.contains(&src), || format!("what is parsed is not {src:?}"))
    }
    fn result(&self, e: &mut Engine, st: &mut State, ret: &Val) -> R<()> {
        let n = st.g("n").lin().unwrap().clone();
        let n0 = st.g("n0").lin().unwrap().clone();
        let (before, calls) = (st.g("end0"), st.g("calls"));
        let want = if before == int(2) {
            none()
        } else if n != n0 {
            some(Val::Agg(0, vec![dat(&n0)]))
        } else if st.g("end") == int(2) {
            some(Val::Agg(1, vec![Val::T("err", vec![])]))
        } else {
            none()
        };
        let asked = before == int(2) || before == int(1) || calls != int(0);
        e.check(st, "all-forms", asked, || "nothing is returned before the end".into())?;
        e.check(st, "one-at-a-time", st.proves_eq(&n0.plus(1).sub(&n)) || st.proves_eq(&n0.sub(&n)), || {
            "more than one form is taken".into()
        })?;
        e.agree(st, "results", ret, &want, "the result")?;
        e.reach(st, if want == none() { "nothing left" } else { "form" });
        Ok(())
    }
}

impl Target for Tg {
    fn stub(&self, e: &mut Engine, st: &mut State, n: &str, a: &[Val], _: &CallCx) -> R<Val> {
        match n.rsplit("::").next().unwrap_or("") {
            "stub_more" => {
                let more = st.choose(2)? == 0;
                if more {
                    // The caller's own repetition.
                    st.progress();
                    st.set("n0", st.g("n"));
                    st.set("end0", st.g("end"));
                    st.set("calls", int(0));
                }
                Ok(Val::Bool(more))
            }
            "stub_result" => {
                self.result(e, st, &a[0])?;
                Ok(unit())
            }
            // Not empty ones, as leaving those out makes no difference.
            "stub_strs_next" => {
                let given = list(&st.g("strs"));
                if st.g("no more") == Val::Bool(true) || st.choose(2)? == 0 {
                    st.set("no more", Val::Bool(true));
                    return Ok(none());
                }
                st.progress();
                let s = new_source(st);
                let v = whole(st, &s)?;
                let l = src_len(st, &s)?;
                st.assume_ge(&l.plus(-1))?;
                st.set("strs", Val::T("q", [given, vec![s]].concat()));
                let Some([Val::T("st", x), ..]) = v.targs("str") else { unreachable!() };
                let r = Val::T("rng", vec![x[0].clone(), x[1].clone(), int(0), Val::Int(l)]);
                Ok(some(Val::T("string", vec![x[0].clone(), r])))
            }
            "stub_pulled" => {
                let given = list(&st.g("strs"));
                let k = st.g("pulled").lin().unwrap().c as usize;
                st.set("pulled", int(k as i128 + 1));
                let is_some = matches!(a[0].agg(), Some((1, _)));
                if !is_some {
                    let all = st.g("no more") == Val::Bool(true) && given.len() <= k;
                    e.check(st, "input", all, || "not all of the strings are parsed".into())?;
                    e.reach(st, "strings end");
                    return Ok(unit());
                }
                let got: Vec<Val> =
                    reachable(st, &a[0]).into_iter().filter(|x| matches!(x.tag(), "rng" | "text" | "ch")).collect();
                let [Val::T("rng", r)] = &got[..] else { return unknown("the content of a string") };
                let whole = match given.get(k) {
                    Some(s) => {
                        let l = src_len(st, s)?;
                        r[1] == *s && st.same(&r[2], &int(0)) && st.same(&r[3], &Val::Int(l))
                    }
                    None => false,
                };
                e.check(st, "input", whole, || format!("string {k} is parsed as {r:?}"))?;
                e.reach(st, "string");
                Ok(unit())
            }
            "stub_strings" => Ok(Val::T("srcstrm", vec![a[0].clone()])),
            _ => unknown(format!("stub {n}")),
        }
    }
    fn on_drop(&self, _: &mut Engine, _: &mut State, _: Ty, _: &Val) -> R<bool> {
        Ok(true)
    }
    fn elem(&self, _: &mut Engine, st: &mut State, b: &Val, i: &Lin) -> R<Val> {
        if b.tag() != "res" {
            return unknown(format!("element of {b:?}"));
        }
        Ok(st.alloc(Val::Agg(0, vec![dat(i)])))
    }
    fn model(&self, e: &mut Engine, st: &mut State, n: &str, a: &[Val], cx: &CallCx) -> R<Act> {
        let last = n.rsplit("::").next().unwrap_or("");
        let repo = is_repo(&cx.inst.def.krate().name);
        let ret = adt_name(cx.ret_ty);
        if repo && last == "next" {
            let of = cx.arg_tys[0].kind().builtin_deref(true).map(|t| adt_name(t.ty));
            if of.as_deref() == Some("ParseIter") {
                let n = st.g("n").lin().unwrap().clone();
                let end = st.g("end");
                e.check(st, "after-error", end != int(2), || {
                    "parsing goes on after the first error".into()
                })?;
                if end == int(0) {
                    self.subject(e, st, &a[0])?;
                }
                st.set("calls", int(1));
                return Ok(Act::Ret(match if end == int(1) { 2 } else { st.choose(3)? } {
                    0 => {
                        st.progress();
                        st.set("n", Val::Int(n.plus(1)));
                        some(Val::Agg(0, vec![dat(&n)]))
                    }
                    1 => {
                        st.set("end", int(2));
                        some(Val::Agg(1, vec![Val::T("err", vec![])]))
                    }
                    _ => {
                        st.set("end", int(1));
                        none()
                    }
                }));
            }
        }
        if repo && last == "new" && ret == "StrishIterSourceStream" {
            return Ok(Act::Call(crate::slices::helper("probe", &[cx.arg_tys[0]])?, a.to_vec()));
        }
        // Whether and where something is trimmed is up to the characters.
        if last.starts_with("trim") && matches!(a[0], Val::T("str", _)) {
            let (mem, lo, hi) = match a[0].targs("str") {
                Some([m, Val::Int(l), Val::Int(h)]) => (m.clone(), l.clone(), h.clone()),
                _ => return unknown("string"),
            };
            let front = !last.contains("end") && !last.contains("right") && st.choose(2)? == 1;
            let back = !last.contains("start") && !last.contains("left") && st.choose(2)? == 1;
            let (mut l, mut h) = (lo.clone(), hi.clone());
            if front {
                l = st.new_int().lin().unwrap().clone();
                st.assume_ge(&l.sub(&lo).plus(-1))?;
            }
            if back {
                h = st.new_int().lin().unwrap().clone();
                st.assume_ge(&hi.sub(&h).plus(-1))?;
            }
            st.assume_ge(&h.sub(&l))?;
            return Ok(Act::Ret(Val::T("str", vec![mem, Val::Int(l), Val::Int(h)])));
        }
        if repo && last == "iter" && ret == "Iter" {
            let v = match &a[0] {
                p @ Val::Ptr(..) => st.rd(p)?,
                v => v.clone(),
            };
            return Ok(Act::Ret(Val::T("srcstrm", vec![v])));
        }
        if ret == "HashMap" && matches!(last, "new" | "default" | "with_hasher") {
            return Ok(Act::Ret(Val::T("map", vec![])));
        }
        Ok(Act::Body)
    }
    /// Elements of vectors become ranges of what the iterator returned.
    fn fold(&self, st: &mut State) {
        for c in 0..st.cells.len() {
            let mut hit = false;
            st.cells[c].visit(&mut |x| hit |= x.tag() == "vec");
            if hit {
                let s = &*st;
                let v = s.cells[c].map(&mut |x| match x {
                    Val::T("vec", p) => Val::T("vec", ranges_of(s, &p)),
                    o => o,
                });
                st.cells[c] = v;
            }
        }
        let r = st.g("\u{1}ret");
        if let Val::T("vec", p) = r {
            let v = Val::T("vec", ranges_of(st, &p));
            st.set("\u{1}ret", v);
        }
    }
    fn judge(&self, e: &mut Engine, st: &mut State, ret: &Val) -> R<()> {
        let Val::T("vec", p) = ret else { return Ok(()) };
        let got = ranges_of(st, p);
        let n = st.g("n").lin().unwrap().clone();
        let end = st.g("end");
        e.check(st, "all-forms", end != int(0), || "what is left is not parsed".into())?;
        let mut want = vec![];
        if !st.proves_eq(&n) {
            want.push(rng(&Lin::k(0), &n));
        }
        if end == int(2) {
            want.push(Val::T("el", vec![Val::Agg(1, vec![Val::T("err", vec![])])]));
            e.reach(st, "error");
        } else {
            e.reach(st, "end");
        }
        if got.iter().any(|x| x.tag() == "?") {
            return unknown(format!("results {ret:?}"));
        }
        let (got, want) = (Val::T("vec", got), Val::T("vec", want));
        e.agree(st, "results", &got, &want, "the list of results")
    }
}

fn rng(l: &Lin, h: &Lin) -> Val {
    Val::T("rng", vec![Val::T("res", vec![]), Val::Int(l.clone()), Val::Int(h.clone())])
}

fn ranges_of(st: &State, parts: &[Val]) -> Vec<Val> {
    let mut out: Vec<Val> = vec![];
    for p in parts {
        let x = match p {
            Val::T("el", a) => {
                let v = if let Val::Ptr(..) = a[0] { st.rd(&a[0]).unwrap_or(Val::Top) } else { a[0].clone() };
                match v.agg() {
                    Some((0, [Val::T("dat", i)])) => {
                        let i = i[0].lin().unwrap();
                        rng(i, &i.plus(1))
                    }
                    Some((1, [Val::T("err", _)])) => Val::T("el", vec![v]),
                    _ => Val::T("?", vec![v]),
                }
            }
            o => o.clone(),
        };
        if let (Some(Val::T("rng", a)), Val::T("rng", b)) = (out.last(), &x) {
            if st.same(&a[2], &b[1]) {
                let r = rng(a[1].lin().unwrap(), b[2].lin().unwrap());
                *out.last_mut().unwrap() = r;
                continue;
            }
        }
        out.push(x);
    }
    out
}

pub fn run() -> Vec<Done> {
    let mut out = vec![];
    for (f, arg) in
        [("str", 0), ("str_with", 0), ("stream", 1), ("stream_with", 1), ("text::text", 2), ("text::parser", 3)]
    {
        let tg = Tg;
        let short = f.rsplit("::").next().unwrap();
        let mut e = Engine::new(&tg, &format!("collect/{short}"));
        let mut st = State::new();
        st.exact = true;
        st.gen = 8;
        st.set("n", int(0));
        st.set("end", int(0));
        let mut args = vec![];
        match arg {
            0 => {
                let s = new_source(&mut st);
                let v = whole(&mut st, &s).unwrap_or(Val::Top);
                st.set("input", v.clone());
                args.push(v);
            }
            1 => {
                st.set("input", given("strings"));
                st.set("pulled", int(0));
                args.push(Val::Agg(0, vec![given("strings")]));
            }
            _ => {
                st.set("input", given("text"));
                args.push(st.alloc(given("text")));
                if arg == 2 {
                    args.push(st.alloc(given("bindings")));
                    st.set("bindings", given("bindings"));
                } else {
                    for k in ["slots", "pairs"] {
                        let n = st.new_int();
                        let s = crate::slices::slice(given(k), Lin::k(0), n.lin().unwrap().clone());
                        st.set(k, s.clone());
                        args.push(s);
                    }
                }
            }
        }
        if f.ends_with("with") {
            args.push(Val::Agg(0, vec![given("bindings"), unit()]));
            st.set("bindings", given("bindings"));
        } else if arg < 2 {
            st.set("bindings", Val::T("map", vec![]));
        }
        let (m, f) = f.rsplit_once("::").unwrap_or(("collect", f));
        e.run_call(st, entry(&format!("{m}::entry_{f}")), args);
        out.push(Done::of(e));
    }
    out
}
