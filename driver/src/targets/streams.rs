//! Source streams: a most general client of every kind of stream, against a
//! specification that knows only the source.

use super::Done;
use crate::engine::*;
use crate::state::*;
use crate::strings::*;
use crate::val::*;
use crate::widen::Wide;
use rustc_public::mir::mono::Instance;
use rustc_public::ty::*;

/// What an item's position is made of.
#[derive(Clone, Copy, PartialEq)]
enum Pos {
    /// The source, the byte offset and the character index.
    Str,
    /// The character index.
    Char,
    /// Whatever the underlying chunk reported.
    Chunk,
}

struct Tg {
    pos: Pos,
}

/// What the source has next.
enum Next {
    Char { m: Val, s: Val, g: Lin },
    End,
    /// Nothing is known: the source was not asked.
    Unasked,
}

fn piece(m: &Val, s: &Val, lo: Lin, hi: Lin) -> Val {
    Val::T("pc", vec![m.clone(), s.clone(), Val::Int(lo), Val::Int(hi)])
}
fn end() -> Val {
    Val::T("end", vec![])
}
fn list(v: &Val) -> Vec<Val> {
    match v {
        Val::T("q" | "acc" | "txt" | "may", a) => a.clone(),
        _ => vec![],
    }
}

/// What a symbolic chunk state continues with: `nx(piece, rest)` or the end.
fn next_of(st: &mut State, s: SymId) -> R<Val> {
    if let Some(v) = st.attr(s, "nx") {
        return Ok(v);
    }
    let v = match st.choose(3)? {
        0 => end(),
        k => {
            let src = st.new_sym();
            if k == 1 {
                st.set_attr(src, "len", int(0));
            } else {
                let l = st.new_int();
                st.assume_ge(&l.lin().unwrap().plus(-1))?;
                st.set_attr(src, "len", l);
            }
            let l = src_len(st, &Val::Sym(src))?;
            let rest = if st.choose(2)? == 0 { end() } else { st.new_id() };
            Val::T("nx", vec![piece(&Val::Sym(src), &Val::Sym(src), Lin::k(0), l), rest])
        }
    };
    st.set_attr(s, "nx", v.clone());
    Ok(v)
}

impl Tg {
    /// The next character of the source according to the specification.
    fn expect(&self, st: &mut State) -> R<Next> {
        loop {
            if let Val::T("pc", p) = st.g("cur") {
                let (g, hi) = (p[2].lin().unwrap().clone(), p[3].lin().unwrap().clone());
                if st.decide_ge(&hi.sub(&g).plus(-1))? {
                    return Ok(Next::Char { m: p[0].clone(), s: p[1].clone(), g });
                }
            }
            match st.g("rest") {
                Val::T("q", q) => {
                    if q.is_empty() {
                        return Ok(if st.g("end") == Val::Bool(true) {
                            Next::End
                        } else {
                            Next::Unasked
                        });
                    }
                    st.set("cur", q[0].clone());
                    st.set("rest", Val::T("q", q[1..].to_vec()));
                }
                Val::Sym(s) => match st.attr(s, "nx") {
                    None => return Ok(Next::Unasked),
                    Some(Val::T("nx", a)) => {
                        st.set("cur", a[0].clone());
                        st.set("rest", a[1].clone());
                    }
                    Some(v) => st.set("rest", v),
                },
                _ => return Ok(Next::End),
            }
        }
    }

    /// Judges an optional item; its width if there is one.
    fn item(&self, e: &mut Engine, st: &mut State, op: &str, v: &Val) -> R<Option<Val>> {
        let Some((k, fs)) = v.agg() else { return unknown(format!("item {v:?}")) };
        let next = self.expect(st)?;
        if k == 0 {
            let good = matches!(next, Next::End);
            e.check(st, "stream-end", good, || {
                format!("{op} reports the end although the source has not ended")
            })?;
            e.reach(st, format!("{op} end"));
            return Ok(None);
        }
        let Some((_, f)) = fs[0].agg() else { return unknown(format!("item {v:?}")) };
        let Next::Char { m, s, g } = next else {
            e.check(st, "stream-items", false, || {
                format!("{op} returns {:?} after the end of the source", f[0])
            })?;
            return Ok(None);
        };
        let Val::T("ch", c) = &f[0] else {
            e.check(st, "stream-items", !matches!(f[0], Val::Int(_)), || {
                format!("{op} returns the character {:?}, which is not from the source", f[0])
            })?;
            return unknown(format!("character {:?}", f[0]));
        };
        e.agree(
            st,
            "stream-items",
            &tup(vec![c[0].clone(), c[1].clone()]),
            &tup(vec![s.clone(), Val::Int(g.clone())]),
            &format!("the source and byte of the character returned by {op}"),
        )?;
        let k = st.g("k");
        let want = match self.pos {
            Pos::Str => tup(vec![st.g("all"), Val::Int(g.clone()), k]),
            Pos::Char => tup(vec![k]),
            Pos::Chunk => tup(vec![Val::T("pos", vec![s.clone(), Val::Int(g.clone())])]),
        };
        e.agree(
            st,
            "item-position",
            &tup(f[1..].to_vec()),
            &want,
            &format!("the position returned by {op}"),
        )?;
        e.reach(st, format!("{op} item"));
        if m != st.g("lastm") && st.g("lastm") != Val::Uninit && st.g("k").konst() != Some(0) {
            e.reach(st, format!("{op} item of a later piece"));
        }
        Ok(Some(c[2].clone()))
    }

    /// The specification's advance over the current character.
    fn advance(&self, st: &mut State, w: &Val, accum: bool) {
        let Val::T("pc", p) = st.g("cur") else { return };
        let g = p[2].lin().unwrap().clone();
        let to = g.add(w.lin().unwrap());
        st.set("cur", piece(&p[0], &p[1], to.clone(), p[3].lin().unwrap().clone()));
        st.set("lastm", p[0].clone());
        let k = st.g("k");
        if accum {
            let mut acc = list(&st.g("acc"));
            let mut done = false;
            if let Some(Val::T("sg", a)) = acc.last_mut() {
                if a[1] == p[1] && st.same(&a[3], &Val::Int(g.clone())) {
                    a[3] = Val::Int(to.clone());
                    done = true;
                }
            }
            if !done {
                let pos = match self.pos {
                    Pos::Chunk => Val::T("pos", vec![p[1].clone(), Val::Int(g.clone())]),
                    _ => k.clone(),
                };
                acc.push(Val::T(
                    "sg",
                    vec![p[0].clone(), p[1].clone(), Val::Int(g.clone()), Val::Int(to), pos],
                ));
            }
            st.set("acc", Val::T("acc", acc));
        } else {
            st.set("acc", Val::T("acc", vec![]));
        }
        if let Val::Int(k) = k {
            st.set("k", Val::Int(k.plus(1)));
        }
    }

    /// Compares what an accumulation returned with what was accumulated.
    fn accumulated(
        &self,
        e: &mut Engine,
        st: &mut State,
        got: Vec<Val>,
        zero_copy: bool,
    ) -> R<()> {
        let want = match st.g("acc") {
            Val::T("may", v) => {
                if got.is_empty() {
                    vec![]
                } else {
                    v
                }
            }
            v => list(&v),
        };
        st.set("acc", Val::T("acc", want.clone()));
        let part = |l: &[Val], r: std::ops::Range<usize>| {
            tup(l.iter()
                .map(|s| match s {
                    Val::T("sg", a) => tup(a[r.clone()].to_vec()),
                    o => o.clone(),
                })
                .collect())
        };
        e.agree(
            st,
            "accumulated",
            &part(&got, 1..4),
            &part(&want, 1..4),
            "what finishing the accumulation returned",
        )?;
        e.agree(
            st,
            "chunk-position",
            &part(&got, 4..5),
            &part(&want, 4..5),
            "the position of the accumulated text",
        )?;
        if zero_copy {
            let ms = |l: &[Val]| part(l, 0..1);
            e.agree(st, "zero-copy", &ms(&got), &ms(&want), "the storage of the accumulated text")?;
        }
        e.reach(st, if want.is_empty() { "accumulated nothing" } else { "accumulated" });
        if want.len() > 1 {
            e.reach(st, "accumulated over pieces");
        }
        Ok(())
    }

    /// A string with a position as segments.
    fn segments(&self, st: &State, v: &Val, pos: &Val) -> R<Vec<Val>> {
        Ok(ranges(st, v)?
            .into_iter()
            .map(|r| match r {
                Val::T("rng", mut a) => {
                    a.push(pos.clone());
                    Val::T("sg", a)
                }
                o => o,
            })
            .collect())
    }
}

impl Target for Tg {
    fn on_drop(&self, _: &mut Engine, _: &mut State, _: Ty, _: &Val) -> R<bool> {
        Ok(true)
    }

    fn stub(&self, e: &mut Engine, st: &mut State, n: &str, a: &[Val], cx: &CallCx) -> R<Val> {
        let txt = |v: Vec<Val>| Val::Agg(0, vec![Val::T("txt", v)]);
        let of = |v: &Val| match v.agg() {
            Some((_, [x])) => Ok(x.clone()),
            _ => unknown(format!("abstract value {v:?}")),
        };
        Ok(match n {
            "stub_ref" => st.alloc(a[0].clone()),
            // An iterator of characters.
            "stub_chars_next" => {
                let Val::T("pc", p) = st.g("fed") else { return unknown("no source") };
                let (g, hi) = (p[2].lin().unwrap().clone(), p[3].lin().unwrap().clone());
                if st.decide_ge(&hi.sub(&g).plus(-1))? {
                    let w = width(st, &p[1], &g)?;
                    st.set("fed", piece(&p[0], &p[1], g.add(&w), hi));
                    st.progress();
                    some(ch(&p[1], &g, &w))
                } else {
                    none()
                }
            }
            // An iterator of strings.
            "stub_strs_next" => {
                if st.g("end") == Val::Bool(true) {
                    return Ok(none());
                }
                if st.choose(2)? == 0 {
                    st.set("end", Val::Bool(true));
                    st.tr("the iterator of strings ends");
                    return Ok(none());
                }
                st.progress();
                let s = new_source(st);
                let v = whole(st, &s)?;
                let l = src_len(st, &s)?;
                if st.decide_ge(&l.plus(-1))? {
                    let Some([Val::T("st", x), ..]) = v.targs("str") else { unreachable!() };
                    let mut q = list(&st.g("rest"));
                    q.push(piece(&x[0], &s, Lin::k(0), l));
                    st.set("rest", Val::T("q", q));
                    st.tr("the iterator of strings yields a string");
                } else {
                    st.tr("the iterator of strings yields an empty string");
                    e.reach(st, "empty piece");
                }
                some(own_whole(st, ty_args(cx.ret_ty)[0], &v)?)
            }
            // A text of chunks.
            "stub_text_state" => {
                let Val::T("srct", t) = of(&st.rd(&a[0])?)? else {
                    return unknown("chunks of an accumulated text");
                };
                let Val::Sym(s) = t[0] else { return unknown("text") };
                let nx = match st.attr(s, "nx") {
                    Some(v) => v,
                    None => {
                        // Either no state at all or one with whatever.
                        let v = if st.choose(2)? == 0 {
                            end()
                        } else {
                            st.new_id()
                        };
                        st.set_attr(s, "nx", v.clone());
                        v
                    }
                };
                match nx {
                    Val::Sym(_) => some(st.alloc(Val::Agg(0, vec![nx]))),
                    _ => none(),
                }
            }
            "stub_state_next" => {
                let Val::Sym(s) = of(&st.rd(&a[0])?)? else { return unknown("state") };
                match next_of(st, s)? {
                    Val::T("nx", x) => {
                        st.moved();
                        let Val::T("pc", p) = &x[0] else { return unknown("piece") };
                        if src_len(st, &p[1])? == Lin::k(0) {
                            e.reach(st, "empty piece");
                        }
                        let c = st.alloc(Val::Agg(0, vec![Val::T("ck", vec![p[1].clone()])]));
                        let r = match &x[1] {
                            s @ Val::Sym(_) => some(st.alloc(Val::Agg(0, vec![s.clone()]))),
                            _ => none(),
                        };
                        some(tup(vec![c, r]))
                    }
                    _ => none(),
                }
            }
            "stub_chunk_strm" => {
                let Val::T("ck", c) = of(&st.rd(&a[0])?)? else { return unknown("chunk") };
                Val::Agg(0, vec![Val::T("cs", vec![c[0].clone(), int(0), Val::Uninit])])
            }
            "stub_strm_next" | "stub_strm_peek" | "stub_strm_next_accum" => {
                let Val::T("cs", c) = of(&st.rd(&a[0])?)? else { return unknown("stream") };
                let (s, b) = (c[0].clone(), c[1].lin().unwrap().clone());
                let l = src_len(st, &s)?;
                let acc = if n == "stub_strm_next" { Val::Uninit } else { c[2].clone() };
                if !st.decide_ge(&l.sub(&b).plus(-1))? {
                    let v = Val::T("cs", vec![s, Val::Int(b), acc]);
                    st.wr(&a[0], Val::Agg(0, vec![v]))?;
                    return Ok(none());
                }
                let w = width(st, &s, &b)?;
                let it = tup(vec![ch(&s, &b, &w), Val::T("pos", vec![s.clone(), Val::Int(b.clone())])]);
                if n != "stub_strm_peek" {
                    st.moved();
                    let acc = match (n, acc) {
                        ("stub_strm_next_accum", Val::Uninit) => Val::Int(b.clone()),
                        (_, a) => a,
                    };
                    let v = Val::T("cs", vec![s, Val::Int(b.add(&w)), acc]);
                    st.wr(&a[0], Val::Agg(0, vec![v]))?;
                }
                some(it)
            }
            "stub_strm_accum_done" => {
                let Val::T("cs", c) = of(&st.rd(&a[0])?)? else { return unknown("stream") };
                let v = Val::T("cs", vec![c[0].clone(), c[1].clone(), Val::Uninit]);
                st.wr(&a[0], Val::Agg(0, vec![v]))?;
                let seg = match &c[2] {
                    lo @ Val::Int(_) => vec![Val::T(
                        "sg",
                        vec![
                            c[0].clone(),
                            c[0].clone(),
                            lo.clone(),
                            c[1].clone(),
                            Val::T("pos", vec![c[0].clone(), lo.clone()]),
                        ],
                    )],
                    _ => vec![],
                };
                Val::Agg(0, vec![Val::T("cks", seg)])
            }
            "stub_chunk_of" => {
                let v = self.segments(st, &a[0], &a[1])?;
                Val::Agg(0, vec![Val::T("cks", v)])
            }
            "stub_chunk_empty" => Val::Agg(0, vec![Val::T("cks", vec![])]),
            "stub_chunk_is_empty" => match of(&st.rd(&a[0])?)? {
                Val::T("cks", v) => Val::Bool(v.is_empty()),
                Val::T("ck", c) => {
                    let l = src_len(st, &c[0])?;
                    Val::Bool(!st.decide_ge(&l.plus(-1))?)
                }
                o => return unknown(format!("chunk {o:?}")),
            },
            "stub_text_empty" => txt(vec![]),
            "stub_text_is_empty" => match of(&st.rd(&a[0])?)? {
                Val::T("txt", v) => Val::Bool(v.is_empty()),
                o => return unknown(format!("text {o:?}")),
            },
            "stub_text_from" => match of(&a[0])? {
                Val::T("cks", v) => txt(v),
                o => return unknown(format!("chunk {o:?}")),
            },
            "stub_text_concat" => {
                let (Val::T("txt", mut x), Val::T("txt", y)) = (of(&a[0])?, of(&a[1])?) else {
                    return unknown("concatenation");
                };
                if st.choose(2)? == 1 {
                    st.tr("a concatenation fails");
                    st.set("failed", Val::Bool(true));
                    return Ok(err(Val::Agg(0, vec![])));
                }
                for s in y {
                    if let (Some(Val::T("sg", p)), Val::T("sg", q)) = (x.last_mut(), &s) {
                        if p[0] == q[0] && p[1] == q[1] && st.same(&p[3], &q[2]) {
                            p[3] = q[3].clone();
                            continue;
                        }
                    }
                    x.push(s);
                }
                ok(txt(x))
            }
            _ => return unknown(format!("stub {n}")),
        })
    }

    fn fold(&self, st: &mut State) {
        // Closed pieces that are adjacent wherever they occur.
        for _ in 0..8 {
            let acc = list(&st.g("acc"));
            if acc.len() < 3 {
                break;
            }
            let (x, y) = (acc[0].clone(), acc[1].clone());
            let mut good = true;
            let vals = || st.cells.iter().chain(st.ghosts.values());
            for v in vals() {
                v.visit(&mut |v| {
                    if let Val::T("txt" | "cks" | "acc" | "may", l) = v {
                        let i = l.iter().position(|s| st.same(s, &x));
                        let j = l.iter().position(|s| st.same(s, &y));
                        good &= match (i, j) {
                            (None, None) => true,
                            (Some(i), Some(j)) => i == 0 && j == 1,
                            _ => false,
                        };
                    }
                });
            }
            if !good {
                break;
            }
            let pos = match &x {
                Val::T("sg", a) => a[4].clone(),
                Val::T("bl", a) => a[1].clone(),
                _ => break,
            };
            // The position matters only while it is compared; it is kept.
            let b = Val::T("bl", vec![st.new_id(), pos]);
            let s2 = st.clone();
            let f = |v: &Val| {
                v.map(&mut |v| match v {
                    Val::T(t @ ("txt" | "cks" | "acc" | "may"), l)
                        if l.len() > 1 && s2.same(&l[0], &x) && s2.same(&l[1], &y) =>
                    {
                        let mut n = vec![b.clone()];
                        n.extend(l[2..].iter().cloned());
                        Val::T(t, n)
                    }
                    o => o,
                })
            };
            st.cells = st.cells.iter().map(f).collect();
            st.ghosts = st.ghosts.iter().map(|(k, v)| (*k, f(v))).collect();
        }
        // Long runs of empty pieces ahead.
        let syms: Vec<SymId> = st.attrs.keys().copied().collect();
        for s in syms {
            let mut run = vec![];
            let mut p = s;
            while let Some(Val::T("nx", a)) = st.attr(p, "nx") {
                let Val::T("pc", c) = &a[0] else { break };
                if src_len(st, &c[1]).ok() != Some(Lin::k(0)) {
                    break;
                }
                run.push(p);
                let Val::Sym(n) = a[1] else { break };
                p = n;
            }
            if run.len() >= 3 {
                // Drop the middle one if nothing else refers to it.
                let mid = run[1];
                let mut refs = 0;
                let mut count = |v: &Val| {
                    v.visit(&mut |x| {
                        if *x == Val::Sym(mid) {
                            refs += 1
                        }
                    })
                };
                st.cells.iter().for_each(&mut count);
                st.ghosts.values().for_each(&mut count);
                st.attrs.values().flat_map(|m| m.values()).for_each(&mut count);
                if refs == 1 {
                    if let Some(v) = st.attr(mid, "nx") {
                        st.set_attr(s, "nx", v);
                        st.attrs.remove(&mid);
                    }
                }
            }
        }
    }

    fn judge(&self, e: &mut Engine, st: &mut State, ret: &Val) -> R<()> {
        let Val::Name(op) = st.g("op") else { return Ok(()) };
        let mut ret = ret.clone();
        let text = self.pos == Pos::Chunk || st.g("text") == Val::Bool(true);
        if text && matches!(&*op, "next_accum" | "accum_done") {
            let Some((k, f)) = ret.agg().map(|(k, f)| (k, f.to_vec())) else {
                return unknown(format!("result {ret:?}"));
            };
            let failed = st.g("failed") == Val::Bool(true);
            if k == 1 {
                e.check(st, "no-spurious-error", failed, || {
                    format!("{op} fails although nothing failed")
                })?;
                st.set("dead", Val::Bool(true));
                return Ok(());
            }
            e.check(st, "failure-reported", !failed, || {
                format!("{op} succeeds although a concatenation failed")
            })?;
            ret = f[0].clone();
        }
        match &*op {
            "peek" => {
                self.item(e, st, "peek", &ret)?;
            }
            "next" => match self.item(e, st, "next", &ret)? {
                Some(w) => self.advance(st, &w, false),
                None => {
                    let acc = list(&st.g("acc"));
                    let t = if acc.is_empty() { "acc" } else { "may" };
                    st.set("acc", Val::T(t, acc));
                }
            },
            "next_accum" => {
                if let Some(w) = self.item(e, st, "next_accum", &ret)? {
                    self.advance(st, &w, true)
                }
            }
            "accum_done" if text => {
                let Some((_, [Val::T("txt", v)])) = ret.agg() else {
                    return unknown(format!("accumulated text {ret:?}"));
                };
                let v = v.clone();
                self.accumulated(e, st, v, st.g("copies") != Val::Bool(true))?;
                st.set("acc", Val::T("acc", vec![]));
            }
            "accum_done" | "clone" => {}
            "observe" => {
                let Some((_, f)) = ret.agg() else { return unknown("observation") };
                let f = f.to_vec();
                let pos = f.last().unwrap().clone();
                let segs = self.segments(st, &f[0], &pos)?;
                let empty = segs.is_empty();
                self.accumulated(e, st, segs, true)?;
                if self.pos == Pos::Str && !empty {
                    let acc = list(&st.g("acc"));
                    let Some(Val::T("sg", a)) = acc.first() else { return unknown("segment") };
                    let want = tup(vec![st.g("all"), a[2].clone()]);
                    e.agree(
                        st,
                        "chunk-position",
                        &tup(f[1..3].to_vec()),
                        &want,
                        "the source and byte offset of the accumulated text",
                    )?;
                }
            }
            "is_empty" => {
                let acc = list(&st.g("acc"));
                let may = matches!(st.g("acc"), Val::T("may", _));
                let want = Val::Bool(acc.is_empty());
                if !may {
                    e.agree(st, "empty", &ret, &want, "whether the accumulated text is empty")?;
                }
            }
            o => return unknown(format!("operation {o}")),
        }
        Ok(())
    }
}

struct Client<'a, 't> {
    e: &'a mut Engine<'t>,
    level: String,
    seen: Wide,
    todo: std::collections::VecDeque<State>,
}

impl Client<'_, '_> {
    fn f(&self, n: &str) -> Instance {
        entry(&format!("{}::entry_{n}", self.level))
    }
    fn call(&mut self, st: &State, op: &str, args: Vec<Val>) -> Vec<Outcome> {
        let mut s = st.clone();
        s.set("op", name(op));
        s.tr(format!("{op}()"));
        let f = self.f(op);
        self.e.run_call(s, f, args)
    }
    fn add(&mut self, mut st: State) {
        st.set("op", Val::Uninit);
        if st.g("dead") == Val::Bool(true) {
            return;
        }
        self.e.target.fold(&mut st);
        prune(&mut st);
        if self.seen.add(&mut st, 1) {
            self.e.rep.states += 1;
            self.todo.push_back(st);
        }
    }
    /// Makes a stream out of what `entry_new` takes.
    fn start(&mut self, st: State, args: Vec<Val>) {
        let f = self.f("new");
        let mut st = st;
        st.set("op", Val::Uninit);
        for mut o in self.e.run_call(st, f, args) {
            let p = o.st.alloc(o.ret.clone());
            o.st.set("self", p);
            self.add(o.st);
        }
    }
    fn run(&mut self, chunks: bool) {
        let mut limit = usize::MAX;
        while let Some(st) = self.todo.pop_front() {
            if !self.e.rep.violations.is_empty() && limit == usize::MAX {
                limit = 2 * self.e.rep.states + 100;
            }
            if self.e.rep.states > limit {
                self.e.give_up("stopped after violations");
            } else if st.next_sym > 60 {
                self.e.give_up("states that keep growing");
            }
            if self.e.exhausted {
                return;
            }
            let this = st.g("self");
            for op in ["peek", "next", "next_accum", "accum_done"] {
                let mut st = st.clone();
                let mut args = vec![this.clone()];
                if !chunks && matches!(op, "next_accum" | "accum_done") {
                    args.push(st.alloc(unit()));
                }
                for o in self.call(&st, op, args) {
                    if chunks && op == "accum_done" {
                        self.chunk(o);
                    } else {
                        self.add(o.st);
                    }
                }
            }
        }
    }
    /// Looks at a chunk that was returned, and continues with it as well.
    fn chunk(&mut self, o: Outcome) {
        let mut st = o.st;
        let c = st.alloc(o.ret);
        st.set("chunk", c.clone());
        for x in self.call(&st, "is_empty", vec![c.clone()]) {
            drop(x)
        }
        for x in self.call(&st, "clone", vec![c]) {
            let mut s = x.st;
            let c = s.alloc(x.ret);
            for mut y in self.call(&s, "observe", vec![c]) {
                let chunk = y.st.g("chunk");
                let acc = list(&y.st.g("acc"));
                let mut s = y.st.clone();
                if let (Some(Val::T("sg", a)), false) = (acc.first(), s.g("part") == Val::Bool(true)) {
                    // A stream over that part of the source.
                    for k in ["chunk", "self", "acc", "lastm"] {
                        s.ghosts.remove(k);
                    }
                    s.set("cur", piece(&a[0], &a[1], a[2].lin().unwrap().clone(), a[3].lin().unwrap().clone()));
                    s.set("k", a[4].clone());
                    s.set("part", Val::Bool(true));
                    s.set("acc", Val::T("acc", vec![]));
                    s.tr("a stream over the accumulated text");
                    let f = &mut *self.e;
                    f.reach(&mut s, "stream over a part");
                    f.flush(&mut s);
                    self.start(s, vec![chunk]);
                }
                y.st.ghosts.remove("chunk");
                y.st.set("acc", Val::T("acc", vec![]));
                self.add(y.st);
            }
        }
    }
}

/// Forgets widths of characters that are not ahead.
fn prune(st: &mut State) {
    let mut at: Vec<Val> = vec![];
    let mut f = |v: &Val| {
        v.visit(&mut |v| match v {
            Val::T("ch" | "cs", a) => at.push(a[1].clone()),
            Val::T("pc", a) => at.push(a[2].clone()),
            _ => {}
        })
    };
    st.cells.iter().for_each(&mut f);
    st.ghosts.values().for_each(&mut f);
    let memo = std::mem::take(&mut st.memo);
    let n = memo.len();
    st.memo = memo
        .into_iter()
        .filter(|(k, _)| match k {
            Val::T("w", a) => {
                at.iter().any(|x| st.same(x, &a[1])) || ahead(st, &a[0], a[1].lin().unwrap())
            }
            Val::T("bd", a) => a[1].konst().is_none(),
            _ => true,
        })
        .collect();
    st.forgot |= st.memo.len() < n;
}

fn base() -> State {
    let mut st = State::new();
    st.exact = true;
    st.set("acc", Val::T("acc", vec![]));
    st.set("rest", end());
    st.set("k", int(0));
    st
}

const KINDS: [&str; 6] = ["rc_str", "rc_box", "rc_string", "arc_str", "arc_box", "arc_string"];

fn explore(level: &str, tg: &Tg, name: &str, setup: impl FnOnce(&mut Client) -> bool) -> Done {
    let mut e = Engine::new(tg, name);
    e.max_call = 150;
    let mut c = Client { e: &mut e, level: level.into(), seen: Wide::default(), todo: Default::default() };
    let chunks = setup(&mut c);
    c.run(chunks);
    Done::of(e)
}

pub fn chunks() -> Vec<Done> {
    let mut out = vec![];
    let tg = Tg { pos: Pos::Str };
    out.push(explore("posstr", &tg, "chunk-streams/posstr", |c| {
        // All of a string, and any part of one.
        for part in [false, true] {
            let mut st = base();
            let s = new_source(&mut st);
            let v = whole(&mut st, &s).unwrap_or(Val::Top);
            let Some([store @ Val::T("st", x), _, Val::Int(l)]) = v.targs("str") else { return true };
            let x = x[0].clone();
            st.set("all", v.clone());
            let (f, args) = if part {
                let (b, n, k) = (st.new_int(), st.new_int(), st.new_int());
                let lo = b.lin().unwrap().clone();
                let hi = lo.add(n.lin().unwrap());
                if st.assume_ge(&l.sub(&hi)).is_err() {
                    return true;
                }
                for p in [&lo, &hi] {
                    let k = Val::T("bd", vec![s.clone(), Val::Int(p.clone())]);
                    st.memo.insert(k, Val::Bool(true));
                }
                st.set("cur", piece(&x, &s, lo.clone(), hi.clone()));
                st.set("k", k.clone());
                let val = Val::T("str", vec![store.clone(), b.clone(), Val::Int(hi)]);
                (c.f("part"), vec![val, v.clone(), b, k])
            } else {
                st.set("cur", piece(&x, &s, Lin::k(0), l.clone()));
                (c.f("chunk"), vec![v.clone()])
            };
            st.set("part", Val::Bool(true));
            for mut o in c.e.run_call(st, f, args) {
                let p = o.st.alloc(o.ret.clone());
                c.start(o.st, vec![p]);
            }
        }
        true
    }));
    let tg = Tg { pos: Pos::Char };
    for level in KINDS {
        out.push(explore(level, &tg, &format!("chunk-streams/{level}"), |c| {
            let mut st = base();
            let s = new_source(&mut st);
            let v = whole(&mut st, &s).unwrap_or(Val::Top);
            let l = src_len(&st, &s).unwrap_or(Lin::k(0));
            let Some([Val::T("st", x), ..]) = v.targs("str") else { return true };
            st.set("cur", piece(&x[0], &s, Lin::k(0), l));
            let k = st.new_int();
            st.set("k", k.clone());
            let f = c.f("chunk");
            let ty = c.e.body(f).map(|b| b.tys[1]);
            let Some(Ok(arg)) = ty.map(|t| own_whole(&mut st, t, &v)) else { return true };
            for mut o in c.e.run_call(st, f, vec![arg, k]) {
                let p = o.st.alloc(o.ret.clone());
                c.start(o.st, vec![p]);
            }
            // One that is made from a plain string, which it has a copy of.
            let mut st = base();
            let s = new_source(&mut st);
            let v = whole(&mut st, &s).unwrap_or(Val::Top);
            let l = src_len(&st, &s).unwrap_or(Lin::k(0));
            st.set("cur", piece(&unit(), &s, Lin::k(0), l));
            let (f, g) = (c.f("from"), c.f("observe"));
            for mut o in c.e.run_call(st, f, vec![v]) {
                let p = o.st.alloc(o.ret.clone());
                o.st.set("chunk", p.clone());
                for mut x in c.e.run_call(o.st, g, vec![p]) {
                    let m = match x.ret.agg().map(|a| &a.1[0]).and_then(|v| v.targs("str")) {
                        Some([Val::T("st", a), ..]) => a[0].clone(),
                        _ => x.st.new_id(),
                    };
                    if let Val::T("pc", mut c) = x.st.g("cur") {
                        c[0] = m;
                        x.st.set("cur", Val::T("pc", c));
                    }
                    c.e.reach(&mut x.st, "stream over a copy");
                    c.e.flush(&mut x.st);
                    let p = x.st.g("chunk");
                    x.st.ghosts.remove("chunk");
                    c.start(x.st, vec![p]);
                }
            }
            true
        }));
    }
    out
}

pub fn chars() -> Vec<Done> {
    let tg = Tg { pos: Pos::Char };
    let mut out = vec![];
    for k in KINDS {
        out.push(explore(&format!("chars_{k}"), &tg, &format!("char-streams/{k}"), |c| {
            let mut st = base();
            let s = new_source(&mut st);
            let l = src_len(&st, &s).unwrap_or(Lin::k(0));
            let m = st.new_id();
            st.set("cur", piece(&m, &s, Lin::k(0), l.clone()));
            st.set("fed", piece(&m, &s, Lin::k(0), l));
            st.set("text", Val::Bool(true));
            st.set("copies", Val::Bool(true));
            c.start(st, vec![Val::Agg(0, vec![Val::T("leaf", vec![])])]);
            false
        }));
    }
    out
}

pub fn strs() -> Vec<Done> {
    let tg = Tg { pos: Pos::Char };
    let mut out = vec![];
    for k in KINDS {
        out.push(explore(&format!("strs_{k}"), &tg, &format!("string-streams/{k}"), |c| {
            let mut st = base();
            st.set("rest", Val::T("q", vec![]));
            st.set("end", Val::Bool(false));
            st.set("text", Val::Bool(true));
            c.start(st, vec![Val::Agg(0, vec![Val::T("leaf", vec![]), unit()])]);
            false
        }));
    }
    out
}

pub fn texts() -> Vec<Done> {
    let tg = Tg { pos: Pos::Chunk };
    vec![explore("text_iter", &tg, "text-streams", |c| {
        let mut st = base();
        let t = st.new_id();
        st.set("rest", t.clone());
        st.set("k", unit());
        let p = st.alloc(Val::Agg(0, vec![Val::T("srct", vec![t])]));
        c.start(st, vec![p]);
        false
    })]
}
