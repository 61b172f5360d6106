//! The allocator that hands out slots of a slice, and the operator bindings.

use super::Done;
use crate::engine::*;
use crate::sets;
use crate::slices::*;
use crate::state::*;
use crate::val::*;
use crate::widen::Wide;
use rustc_public::ty::Ty;

fn base() -> State {
    let mut st = State::new();
    st.exact = true;
    st.gen = 8;
    st
}

// ---- Slots -----------------------------------------------------------------

/// The slice has the base `slots()` and "n" elements. "cells" are the slots
/// that were touched by the operation, as pairs of index and pointer, and
/// "given" is the set of those that were handed out before.
struct Slots;

fn old(i: &Lin) -> Val {
    Val::T("old", vec![Val::Int(i.clone())])
}

impl Slots {
    /// The slots that the operation wrote to, apart from one.
    fn untouched(&self, e: &mut Engine, st: &mut State, but: Option<&Val>) -> R<()> {
        let cells = match st.g("cells") {
            Val::T(_, c) => c,
            _ => vec![],
        };
        for c in cells {
            let Some((_, [Val::Int(i), p])) = c.agg() else { return unknown("slots") };
            if but != Some(p) {
                let v = st.rd(p)?;
                e.agree(st, "other-slots", &v, &old(i), "the content of another slot")?;
            }
        }
        Ok(())
    }
}

impl Target for Slots {
    fn stub(&self, _: &mut Engine, _: &mut State, n: &str, _: &[Val], _: &CallCx) -> R<Val> {
        unknown(format!("stub {n}"))
    }
    fn on_drop(&self, _: &mut Engine, _: &mut State, _: Ty, _: &Val) -> R<bool> {
        Ok(true)
    }
    fn elem(&self, _: &mut Engine, st: &mut State, b: &Val, i: &Lin) -> R<Val> {
        if b.targs("slots").is_none() {
            return unknown(format!("element of {b:?}"));
        }
        let mut cells = match st.g("cells") {
            Val::T(_, c) => c,
            _ => vec![],
        };
        for c in &cells {
            let Some((_, [Val::Int(j), p])) = c.agg() else { return unknown("slots") };
            if st.decide_eq(&j.sub(i))? {
                return Ok(p.clone());
            }
        }
        let p = st.alloc(old(i));
        cells.push(tup(vec![Val::Int(i.clone()), p.clone()]));
        st.set("cells", Val::T("cells", cells));
        Ok(p)
    }
    fn variant(&self, st: &mut State, v: &Val, ty: Ty) -> R<Option<u32>> {
        Ok(match v {
            Val::T("old", _) if adt_name(ty) == "Datum" => Some(st.memo_variant(v, variants(ty))?),
            _ => None,
        })
    }
    fn judge(&self, e: &mut Engine, st: &mut State, ret: &Val) -> R<()> {
        let n = st.g("n").lin().unwrap().clone();
        let given = st.g("given");
        let Val::Name(op) = st.g("op") else { return Ok(()) };
        match &*op {
            "new" => self.untouched(e, st, None)?,
            "new_datum" => match ret.agg() {
                Some((0, [r])) => {
                    let Some(p) = unwrap_ptr(r) else { return unknown(format!("reference {r:?}")) };
                    let cells = match st.g("cells") {
                        Val::T(_, c) => c,
                        _ => vec![],
                    };
                    let at = cells.iter().find_map(|c| match c.agg() {
                        Some((_, [Val::Int(i), q])) if *q == p => Some(i.clone()),
                        _ => None,
                    });
                    e.check(st, "slot", at.is_some(), || {
                        format!("the allocation returns {p:?}, which is no slot of the slice")
                    })?;
                    let at = at.unwrap();
                    let inside = st.facts.proves(&n.sub(&at).plus(-1));
                    e.check(st, "slot", inside, || {
                        format!("slot {at:?} of {n:?} is handed out")
                    })?;
                    let twice = sets::contains(st, &given, &at)?;
                    e.check(st, "distinct", !twice, || {
                        format!("slot {at:?} is handed out again ({given:?})")
                    })?;
                    let v = st.rd(&p)?;
                    let want = st.g("datum");
                    e.agree(st, "content", &v, &want, "the content of the slot")?;
                    self.untouched(e, st, Some(&p))?;
                    let s = sets::insert(st, &given, &at, &at.plus(1));
                    st.set("given", s);
                    e.reach(st, "allocated");
                }
                Some((1, _)) => {
                    let all = sets::covers(st, &given, &Lin::k(0), &n)?;
                    e.check(st, "all-slots", all, || {
                        format!("exhausted with {given:?} of {n:?} slots handed out")
                    })?;
                    self.untouched(e, st, None)?;
                    e.reach(st, "exhausted");
                }
                _ => return unknown(format!("result {ret:?}")),
            },
            "unused" => {
                let rest = match ret.agg() {
                    Some((1, [s])) => Some(s.clone()),
                    Some((0, [])) => None,
                    _ => return unknown(format!("result {ret:?}")),
                };
                let mut whole = given.clone();
                if let Some(s) = rest {
                    let Some((b, l, h)) = parts(&s) else { return unknown(format!("slice {s:?}")) };
                    if b.targs("slots").is_none() {
                        return unknown(format!("slice {s:?}"));
                    }
                    let m = sets::meets(st, &given, &l, &h)?;
                    e.check(st, "unused", !m, || {
                        format!("the unused slots {l:?}..{h:?} include some of {given:?}")
                    })?;
                    whole = sets::insert(st, &given, &l, &h);
                    e.reach(st, "unused");
                }
                let all = sets::covers(st, &whole, &Lin::k(0), &n)?;
                e.check(st, "unused", all, || {
                    format!("unused slots are missing: only {whole:?} of {n:?} are accounted for")
                })?;
            }
            _ => {}
        }
        Ok(())
    }
}

pub fn slots() -> Vec<Done> {
    let tg = Slots;
    let mut e = Engine::new(&tg, "slots");
    let mut seen = Wide::default();
    let mut todo = std::collections::VecDeque::new();
    let add = |e: &mut Engine, todo: &mut std::collections::VecDeque<State>, seen: &mut Wide, mut st: State| {
        for k in ["op", "cells", "datum"] {
            st.set(k, Val::Uninit);
        }
        st.memo.clear();
        if seen.add(&mut st, 1) {
            e.rep.states += 1;
            todo.push_back(st);
        }
    };
    let call = |e: &mut Engine, st: &State, op: &str, args: Vec<Val>| {
        let mut s = st.clone();
        s.set("op", name(op));
        s.tr(format!("{op}()"));
        e.run_call(s, entry(&format!("slots::entry_{op}")), args)
    };
    let mut st = base();
    let n = st.new_int();
    st.set("n", n.clone());
    st.set("given", sets::empty());
    let s = slice(Val::T("slots", vec![]), Lin::k(0), n.lin().unwrap().clone());
    for mut o in call(&mut e, &st, "new", vec![s]) {
        let p = o.st.alloc(o.ret.clone());
        o.st.set("self", p);
        add(&mut e, &mut todo, &mut seen, o.st);
    }
    while let Some(st) = todo.pop_front() {
        if e.rep.states > 200 || st.next_sym > 12 {
            e.give_up("states that keep growing");
        }
        if e.exhausted {
            break;
        }
        let this = st.g("self");
        let mut s = st.clone();
        let d = s.new_id();
        s.set("datum", d.clone());
        for o in call(&mut e, &s, "new_datum", vec![this.clone(), d]) {
            add(&mut e, &mut todo, &mut seen, o.st);
        }
        if let Ok(v) = st.rd(&this) {
            call(&mut e, &st, "unused", vec![v]);
        }
    }
    vec![Done::of(e)]
}

// ---- Bindings --------------------------------------------------------------

/// Key `i` is `key(i)`, bound to `comb(i)`; what is looked up is `op()`. "ne"
/// is the set of keys it was compared unequal to, "eq" of those it equals.
struct Bindings;

fn what(st: &State, p: &Val) -> R<Val> {
    let mut v = p.clone();
    for _ in 0..4 {
        match v {
            Val::Ptr(..) if v == st.g("operator") => return Ok(Val::T("op", vec![])),
            Val::Ptr(..) => v = st.rd(&v)?,
            _ => break,
        }
    }
    Ok(v)
}

impl Target for Bindings {
    fn stub(&self, _: &mut Engine, _: &mut State, n: &str, _: &[Val], _: &CallCx) -> R<Val> {
        unknown(format!("stub {n}"))
    }
    fn on_drop(&self, _: &mut Engine, _: &mut State, _: Ty, _: &Val) -> R<bool> {
        Ok(true)
    }
    fn elem(&self, _: &mut Engine, st: &mut State, b: &Val, i: &Lin) -> R<Val> {
        if b.targs("pairs").is_none() {
            return unknown(format!("element of {b:?}"));
        }
        let i = Val::Int(i.clone());
        Ok(st.alloc(tup(vec![Val::T("key", vec![i.clone()]), Val::T("comb", vec![i])])))
    }
    fn model(&self, e: &mut Engine, st: &mut State, n: &str, a: &[Val], cx: &CallCx) -> R<Act> {
        let last = n.rsplit("::").next().unwrap_or("");
        let of = |i: usize| {
            cx.arg_tys.get(i).and_then(|t| t.kind().builtin_deref(true)).map(|t| adt_name(t.ty))
        };
        if matches!(last, "eq" | "ne") && of(0).as_deref() == Some("Datum") {
            let (x, y) = (what(st, &a[0])?, what(st, &a[1])?);
            let i = match (&x, &y) {
                (Val::T("op", _), Val::T("key", k)) | (Val::T("key", k), Val::T("op", _)) => {
                    k[0].lin().unwrap().clone()
                }
                _ => return unknown(format!("comparison of {x:?} and {y:?}")),
            };
            let (ne, eq) = (st.g("ne"), st.g("eq"));
            let r = if sets::contains(st, &ne, &i)? {
                false
            } else if sets::contains(st, &eq, &i)? {
                true
            } else if st.choose(2)? == 0 {
                let s = sets::insert(st, &eq, &i, &i.plus(1));
                st.set("eq", s);
                true
            } else {
                let s = sets::insert(st, &ne, &i, &i.plus(1));
                st.set("ne", s);
                false
            };
            e.reach(st, "compared");
            return Ok(Act::Ret(Val::Bool(r == (last == "eq"))));
        }
        if of(0).as_deref() == Some("HashMap") || adt_name(cx.ret_ty) == "HashMap" {
            return self.map(e, st, last, a);
        }
        Ok(Act::Body)
    }
    fn expand(&self, _: &mut Engine, st: &mut State, v: &Val, ty: Ty) -> R<Val> {
        self.form(st, v, ty)
    }
    fn judge(&self, e: &mut Engine, st: &mut State, ret: &Val) -> R<()> {
        if st.g("op") != name("lookup") {
            return Ok(());
        }
        let got = match ret.agg() {
            Some((0, [])) => None,
            Some((1, [p])) => Some(what(st, p)?),
            _ => return unknown(format!("result {ret:?}")),
        };
        let (ne, eq) = (st.g("ne"), st.g("eq"));
        let n = match st.g("n") {
            Val::Int(n) => n,
            _ => return self.judge_map(e, st, got),
        };
        match got {
            None => {
                let all = sets::covers(st, &ne, &Lin::k(0), &n)?;
                e.check(st, "none-bound", all, || {
                    format!("nothing is returned although only {ne:?} of {n:?} keys are unequal")
                })?;
                e.reach(st, "not found");
            }
            Some(Val::T("comb", k)) => {
                let i = k[0].lin().unwrap().clone();
                let hit = sets::contains(st, &eq, &i)?;
                e.check(st, "equal-key", hit, || {
                    format!("combiner {i:?} is returned, whose key was not found equal ({eq:?})")
                })?;
                let first = sets::covers(st, &ne, &Lin::k(0), &i)?;
                e.check(st, "first-pair", first, || {
                    format!("combiner {i:?} is returned, with only {ne:?} of the keys before unequal")
                })?;
                e.reach(st, "found");
            }
            Some(v) => return unknown(format!("combiner {v:?}")),
        }
        Ok(())
    }
}

impl Bindings {
    /// An operator of some variant.
    fn form(&self, st: &mut State, v: &Val, ty: Ty) -> R<Val> {
        if v.tag() != "op" || adt_name(ty) != "Datum" {
            return unknown(format!("discriminant of {v:?}"));
        }
        let k = st.choose(variants(ty))?;
        let fs = field_tys(ty, k);
        Ok(Val::Agg(k as u32, fs.iter().map(|_| Val::T("part", vec![st.new_id()])).collect()))
    }
    /// Operations of hash maps. "ans" is what the map has for the operator.
    fn map(&self, e: &mut Engine, st: &mut State, last: &str, a: &[Val]) -> R<Act> {
        let empty = st.g("void") == Val::Bool(true);
        let r = match last {
            "new" | "default" | "with_hasher" | "with_capacity_and_hasher" | "with_capacity" => {
                st.set("void", Val::Bool(true));
                Val::T("map", vec![])
            }
            "get" | "contains_key" | "get_key_value" | "index" => {
                let k = st.g("operator");
                e.check(st, "right-key", a[1] == k, || {
                    format!("{:?} is looked up instead of the operator {k:?}", a[1])
                })?;
                let found = match st.g("ans") {
                    Val::Bool(b) => b,
                    _ => {
                        let b = !empty && st.choose(2)? == 0;
                        st.set("ans", Val::Bool(b));
                        b
                    }
                };
                e.reach(st, "asked");
                let c = st.alloc(Val::T("comb", vec![]));
                match last {
                    "contains_key" => Val::Bool(found),
                    "index" if !found => return Err(Stop::Panic("no such key".into())),
                    "index" => c,
                    _ if !found => none(),
                    "get" => some(c),
                    _ => some(tup(vec![st.alloc(Val::Top), c])),
                }
            }
            "is_empty" => {
                let b = empty || st.memo_bool(name("map is empty"))?;
                if b {
                    if st.g("ans") == Val::Bool(true) {
                        return Err(Stop::Infeasible);
                    }
                    st.set("ans", Val::Bool(false));
                }
                Val::Bool(b)
            }
            "borrow" | "as_ref" | "deref" => a[0].clone(),
            _ => return unknown(format!("HashMap::{last}")),
        };
        Ok(Act::Ret(r))
    }
    fn judge_map(&self, e: &mut Engine, st: &mut State, got: Option<Val>) -> R<()> {
        let ans = st.g("ans");
        match got {
            None => {
                e.check(st, "none-bound", ans == Val::Bool(false), || {
                    "nothing is returned although the map may have the operator".into()
                })?;
                e.reach(st, "not found");
            }
            Some(v) => {
                e.check(st, "equal-key", ans == Val::Bool(true) && v == Val::T("comb", vec![]), || {
                    format!("{v:?} is returned instead of what the map has")
                })?;
                e.reach(st, "found");
            }
        }
        Ok(())
    }
}

fn lookups(kind: &str, ctor: &str, setup: impl FnOnce(&mut State) -> Vec<Val>) -> Done {
    let tg = Bindings;
    let mut e = Engine::new(&tg, &format!("bindings/{kind}-{ctor}"));
    let mut st = base();
    let args = setup(&mut st);
    let mut now: Vec<State> = vec![];
    for mut o in e.run_call(st, entry(&format!("{kind}::entry_{ctor}")), args) {
        let p = o.st.alloc(o.ret.clone());
        o.st.set("self", p);
        now.push(o.st);
    }
    // One lookup after another, each of some operator.
    for _ in 0..2 {
        let mut next: Vec<State> = vec![];
        let mut seen = Seen::default();
        for st in now {
            let mut s = st;
            s.set("op", name("lookup"));
            s.set("ne", sets::empty());
            s.set("eq", sets::empty());
            s.set("ans", Val::Uninit);
            s.memo.clear();
            s.tr("lookup()");
            let op = s.alloc(Val::T("op", vec![]));
            s.set("operator", op.clone());
            let this = s.g("self");
            for mut o in e.run_call(s, entry(&format!("{kind}::entry_lookup")), vec![this, op]) {
                for k in ["op", "ne", "eq", "ans", "operator"] {
                    o.st.set(k, Val::Uninit);
                }
                o.st.memo.clear();
                o.st.imprecise = None;
                if seen.add(&mut o.st) {
                    next.push(o.st);
                }
            }
        }
        now = next;
    }
    Done::of(e)
}

pub fn bindings() -> Vec<Done> {
    let pairs = |st: &mut State| {
        let n = st.new_int();
        st.set("n", n.clone());
        let n = n.lin().unwrap().clone();
        (Val::T("pairs", vec![]), n)
    };
    vec![
        lookups("slice_pairs", "new", |st| {
            let (b, n) = pairs(st);
            vec![slice(b, Lin::k(0), n)]
        }),
        lookups("vec_pairs", "new", |st| {
            let (b, n) = pairs(st);
            vec![Val::T("vec", vec![Val::T("rng", vec![b, int(0), Val::Int(n)])])]
        }),
        lookups("default_pairs", "new", |st| {
            st.set("n", int(0));
            vec![unit()]
        }),
        lookups("empty", "new", |st| {
            st.set("n", int(0));
            vec![unit()]
        }),
        lookups("maps", "new", |_| vec![Val::T("map", vec![])]),
        lookups("maps", "default", |_| vec![]),
    ]
}
