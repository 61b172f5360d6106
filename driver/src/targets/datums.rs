//! Datums, errors and references to datums.
//!
//! A datum that was not looked at yet is `dat(id,class,path,mark)`: any datum of the
//! class ("branch", "leaf" or ""), reached by the path of fields, with nodes in
//! it that were restructured before if the mark is "m". Looking at it gives it a
//! variant. A reference refers to a cell: `rc(cell)` for the counted
//! ones, with the cell (strong, weak, datum), and a pointer to a cell with the
//! datum for the others. What a text, an extra, a position or a combiner's
//! error consists of is not known: `leaf(id,path)`.
//!
//! Comparing: "rel" holds the pairs whose equality matters, with what is known
//! about each. A comparison of sub-datums is taken to be right for them, which
//! makes the result an induction over their size.
//!
//! Hashing: "fed" is what the hasher got, "shape" the variants looked at.

use super::Done;
use crate::engine::*;
use crate::state::*;
use crate::val::*;
use rustc_public::ty::*;
use rustc_public::CrateDef;
use std::cell::RefCell;
use std::collections::BTreeMap;

type Fed = (BTreeMap<String, i128>, Vec<String>);

struct Tg<'a> {
    kind: &'a str,
    op: &'a str,
    /// Others use their references concurrently.
    racy: bool,
    hashes: RefCell<Vec<Fed>>,
}

fn pointee(t: Ty) -> Option<Ty> {
    t.kind().builtin_deref(true).map(|x| x.ty)
}
fn list(v: &Val) -> Vec<Val> {
    v.targs("q").map(|x| x.to_vec()).unwrap_or_default()
}
fn push(st: &mut State, k: &'static str, v: Val) {
    let mut l = list(&st.g(k));
    l.push(v);
    st.set(k, Val::T("q", l));
}
pub fn is_counted(t: Ty) -> bool {
    matches!(adt_name(t).as_str(), "Rc" | "Arc")
}
fn is_ref(t: Ty) -> bool {
    matches!(adt_name(t).as_str(), "DatumBox" | "DatumRc" | "DatumArc" | "DatumMutRef" | "ARef" | "BRef")
}
fn field(p: &Val, i: u32) -> Val {
    match p {
        Val::Ptr(c, path) => {
            let mut path = path.clone();
            path.push(i);
            Val::Ptr(*c, path)
        }
        o => o.clone(),
    }
}

/// The pointer to the datum that a reference refers to.
pub fn referent(v: &Val) -> Option<Val> {
    let mut r = None;
    v.visit(&mut |x| {
        if let Val::T("rc", a) = x {
            r = Some(field(&a[0], 2));
        }
    });
    r.or_else(|| match unwrap_ptr(v) {
        Some(p @ Val::Ptr(..)) => Some(p),
        _ => None,
    })
}

/// A datum that was not looked at.
fn opaque(st: &mut State, class: &str, path: &str) -> Val {
    Val::T("dat", vec![st.new_id(), name(class), name(path), name("")])
}

/// A reference of the given type to a datum.
fn reference(st: &mut State, ty: Ty, content: Val) -> R<Val> {
    let mut made = false;
    let fs: Vec<Val> = field_tys(ty, 0)
        .into_iter()
        .map(|t| {
            let of = adt_name(t);
            if is_counted(t) {
                made = true;
                let (s, w) = (st.new_int(), st.new_int());
                st.facts.ge.push(s.lin().unwrap().plus(-1));
                Val::T("rc", vec![st.alloc(tup(vec![s, w, content.clone()]))])
            } else if of == "Box" {
                made = true;
                let p = st.alloc(content.clone());
                wrap_ptr(t, p)
            } else if pointee(t).is_some() || is_ref(ty) && of.is_empty() && !made {
                made = true;
                st.alloc(content.clone())
            } else {
                inhabit(t)
            }
        })
        .collect();
    if !made {
        return unknown(format!("a reference of type {ty:?}"));
    }
    Ok(Val::Agg(0, fs))
}

/// The name of a variant's field.
fn field_name(ty: Ty, v: usize, i: usize) -> String {
    match ty.kind() {
        TyKind::RigidTy(RigidTy::Adt(d, _)) => {
            d.variants()[v].fields().get(i).map(|f| f.name.to_string()).unwrap_or_default()
        }
        _ => String::new(),
    }
}

fn text(v: &Val) -> String {
    match v {
        Val::Name(n) => n.to_string(),
        o => format!("{o:?}"),
    }
}

/// What is noted about nodes.
const MARKS: [&str; 3] = ["taken", "failed", "twice"];

/// Whether a type owns datums.
fn holds(t: Ty) -> bool {
    pointee(t).is_none() && format!("{t:?}").contains("Datum")
}

const BRANCHES: [&str; 2] = ["List", "Combination"];
pub fn is_branch(ty: Ty, v: u32) -> bool {
    BRANCHES.iter().any(|b| variant(ty, b) == Some(v))
}

// What is known about pairs: "open", "eq" or "ne".

fn pair(a: &Val, b: &Val, role: &str, known: &str) -> Val {
    Val::T("pr", vec![a.clone(), b.clone(), name(role), name(known)])
}

/// Replaces pairs whose both sides were looked at by the pairs of their parts.
fn settle(st: &mut State) {
    let mut todo = list(&st.g("rel"));
    let mut done: Vec<Val> = vec![];
    todo.reverse();
    while let Some(p) = todo.pop() {
        let Val::T(_, x) = &p else { continue };
        if text(&x[3]) != "open" {
            done.push(p);
            continue;
        }
        let (a, b) = (&x[0], &x[1]);
        let val = |st: &State, v: &Val| match v {
            Val::Ptr(..) => st.rd(v).unwrap_or(Val::Top),
            o => o.clone(),
        };
        let (va, vb) = (val(st, a), val(st, b));
        match (&va, &vb) {
            (Val::Agg(i, _), Val::Agg(j, _)) if i != j => {
                st.set("differ", Val::Bool(true));
            }
            (Val::Agg(_, f), Val::Agg(_, g)) if f.len() == g.len() => {
                for k in (0..f.len()).rev() {
                    let role = match (referent(&f[k]), f.len()) {
                        (Some(_), 2) => ["first", "second"][k],
                        _ => "part",
                    };
                    let role = match &va {
                        Val::Agg(v, _) => format!("{v}.{role}"),
                        _ => String::new(),
                    };
                    match (referent(&f[k]), referent(&g[k])) {
                        (Some(p), Some(q)) => todo.push(pair(&p, &q, &role, "open")),
                        _ => {
                            let at = |p: &Val, v: &Val| match v {
                                Val::T("leaf", _) => v.clone(),
                                _ => field(p, k as u32),
                            };
                            todo.push(pair(&at(a, &f[k]), &at(b, &g[k]), &role, "open"))
                        }
                    }
                }
            }
            _ => {
                // What a leaf is is told by its identity.
                let q = match (&va, &vb) {
                    (Val::T("leaf", _), Val::T("leaf", _)) => pair(&va, &vb, &text(&x[2]), "open"),
                    _ => p.clone(),
                };
                if !done.contains(&q) {
                    done.push(q);
                }
            }
        }
    }
    st.set("rel", Val::T("q", done));
}

/// Whether the two are equal, as far as that is still free.
fn compare(st: &mut State, a: &Val, b: &Val) -> R<(bool, String)> {
    settle(st);
    let mut l = list(&st.g("rel"));
    let at = l.iter().position(|p| p.targs("pr").is_some_and(|x| x[0] == *a && x[1] == *b));
    let (role, known) = match at {
        Some(i) => {
            let x = l[i].targs("pr").unwrap();
            (text(&x[2]), text(&x[3]))
        }
        None => ("other".into(), "open".into()),
    };
    let eq = match known.as_str() {
        "eq" => true,
        "ne" => false,
        _ => st.choose(2)? == 0,
    };
    let new = pair(a, b, &role, if eq { "eq" } else { "ne" });
    match at {
        Some(i) => l[i] = new,
        None => l.push(new),
    }
    st.set("rel", Val::T("q", l));
    if !eq && role != "other" {
        st.set("differ", Val::Bool(true));
    }
    Ok((eq, role))
}

fn open(st: &State) -> bool {
    list(&st.g("rel")).iter().any(|p| p.targs("pr").is_some_and(|x| text(&x[3]) == "open"))
}

/// Where something is, for messages and for comparing paths.
fn place(st: &State, v: &Val) -> String {
    if let Some([_, p]) = v.targs("leaf") {
        return text(p);
    }
    for w in list(&st.g("where")) {
        if let Some([p, n]) = w.targs("at") {
            if p == v {
                return text(n);
            }
        }
    }
    match st.rd(v) {
        Ok(Val::T("dat", x)) => text(&x[2]),
        _ => format!("{v:?}"),
    }
}

impl Tg<'_> {
    fn feed(&self, st: &mut State, w: Val) {
        push(st, "fed", w);
        if list(&st.g("fed")).len() > 8 && st.imprecise.is_none() {
            st.imprecise = Some("generalised from repetitions".into());
        }
    }
    fn hash_datum(&self, st: &mut State, p: &Val) {
        let w = name(&format!("the datum {}", place(st, p)));
        self.feed(st, Val::T("h", vec![w]));
    }
    fn leaf_of(&self, st: &State, p: &Val) -> R<Val> {
        match st.rd(p)? {
            Val::Agg(0, f) if f.len() == 1 && f[0].tag() == "leaf" => Ok(f[0].clone()),
            v => unknown(format!("leaf {v:?}")),
        }
    }
    /// A comparison of two datums by the analysed code.
    fn recursion(&self, e: &mut Engine, st: &mut State, a: &Val, b: &Val) -> R<bool> {
        settle(st);
        let (eq, role) = compare(st, a, b)?;
        let l = self.roles();
        e.check(st, "stack", !l.contains(&role), || {
            format!("the comparison recurses into {}", if role == l[0] { "the rest of a list" } else { "an operator" })
        })?;
        if self.kind == "datum" {
            e.reach(st, "recursion");
        }
        Ok(eq)
    }
    /// The roles of the rest of a list and of an operator.
    fn roles(&self) -> [String; 2] {
        let Some(d) = datum_ty() else { return Default::default() };
        let f = |v: &str, n: &str| {
            let i = variant(d, v).unwrap_or(99);
            let k = (0..2).find(|k| field_name(d, i as usize, *k) == n).unwrap_or(0);
            format!("{i}.{}", ["first", "second"][k])
        };
        [f("List", "next"), f("Combination", "operator")]
    }
    fn judge_eq(&self, e: &mut Engine, st: &mut State, ret: &Val) -> R<()> {
        settle(st);
        let Val::Bool(r) = ret else { return unknown(format!("the result {ret:?}")) };
        let said = *r != (self.op == "ne");
        let differ = st.g("differ") == Val::Bool(true);
        let rule = if matches!(self.kind, "datum" | "error") { "equality" } else { "as-datum" };
        if said {
            e.check(st, rule, !differ, || "told to be equal although something differs".into())?;
            let l = list(&st.g("rel"));
            e.check(st, rule, !open(st), || {
                let p = l.iter().find(|p| p.targs("pr").is_some_and(|x| text(&x[3]) == "open"));
                let p = p.and_then(|p| p.targs("pr").map(|x| x[2].clone()));
                format!("told to be equal without having compared {p:?}")
            })?;
        } else {
            e.check(st, rule, differ, || "told to differ although nothing does".into())?;
        }
        e.reach(st, if said { "equal" } else { "not equal" });
        Ok(())
    }
    fn judge_hash(&self, e: &mut Engine, st: &mut State) -> R<()> {
        let fed: Vec<String> = list(&st.g("fed")).iter().map(|w| format!("{w:?}")).collect();
        if self.kind != "datum" {
            e.check(st, "as-datum", fed == ["h('the datum ')"], || {
                format!("the hasher is fed {fed:?} instead of what the datum feeds")
            })?;
            e.reach(st, "hashed");
            return Ok(());
        }
        if st.imprecise.is_none() {
            let shape: BTreeMap<String, i128> = list(&st.g("shape"))
                .iter()
                .filter_map(|x| x.targs("is").map(|x| (text(&x[0]), x[1].konst().unwrap_or(-1))))
                .collect();
            let clash = self.hashes.borrow().iter().find_map(|(s, f)| {
                let same = s.iter().all(|(k, v)| shape.get(k).is_none_or(|w| w == v));
                (same && *f != fed).then(|| f.clone())
            });
            e.check(st, "same-data", clash.is_none(), || {
                format!("for equal datums the hasher can be fed {fed:?} and {clash:?}")
            })?;
            self.hashes.borrow_mut().push((shape, fed));
        }
        e.reach(st, "hashed");
        Ok(())
    }

    fn counts(&self, st: &State, rc: &Val) -> R<(Lin, Lin)> {
        let Val::T("rc", a) = rc else { return unknown(format!("counts of {rc:?}")) };
        match (st.rd(&field(&a[0], 0))?, st.rd(&field(&a[0], 1))?) {
            (Val::Int(s), Val::Int(w)) => Ok((s, w)),
            x => unknown(format!("counts {x:?}")),
        }
    }
    fn set_counts(&self, st: &mut State, rc: &Val, s: Lin, w: Lin) -> R<()> {
        let a = rc.targs("rc").unwrap().to_vec();
        st.wr(&field(&a[0], 0), Val::Int(s))?;
        st.wr(&field(&a[0], 1), Val::Int(w))
    }
    /// What others do to their references before the next access.
    fn others(&self, st: &mut State, rc: &Val) -> R<()> {
        if !self.racy {
            return Ok(());
        }
        let (s, w) = self.counts(st, rc)?;
        if st.proves_eq(&s.plus(-1)) && st.proves_eq(&w) {
            return Ok(());
        }
        let (s, w) = (st.new_int(), st.new_int());
        let own = 1 + list(&st.g("twice")).contains(&referent(rc).unwrap()) as i128;
        st.facts.ge.push(s.lin().unwrap().plus(-own));
        self.set_counts(st, rc, s.lin().unwrap().clone(), w.lin().unwrap().clone())
    }
    /// Whether this is the only strong reference.
    fn only(&self, st: &mut State, rc: &Val) -> R<bool> {
        let (s, _) = self.counts(st, rc)?;
        Ok(!st.decide_ge(&s.plus(-2))?)
    }
    /// Whether there is a weak reference besides the only strong one.
    fn weak(&self, st: &mut State, rc: &Val) -> R<bool> {
        let (_, w) = self.counts(st, rc)?;
        let weak = st.decide_ge(&w.plus(-1))?;
        if !weak {
            self.set_counts(st, rc, Lin::k(1), Lin::k(0))?;
        }
        Ok(weak)
    }

    /// The operations of counted references.
    fn counted(&self, e: &mut Engine, st: &mut State, last: &str, a: &[Val], cx: &CallCx) -> R<Option<Act>> {
        let krate = cx.inst.def.krate().name;
        if !matches!(krate.as_str(), "core" | "alloc" | "std") {
            return Ok(None);
        }
        let ret = |v| Ok(Some(Act::Ret(v)));
        if last == "new" && a.len() == 1 && adt_name(cx.ret_ty) == "Box" {
            let p = st.alloc(a[0].clone());
            return ret(wrap_ptr(cx.ret_ty, p));
        }
        if last == "new" && a.len() == 1 && is_counted(cx.ret_ty) {
            let c = st.alloc(tup(vec![int(1), int(0), a[0].clone()]));
            if self.op == "drop" {
                // It takes the place of one taken.
                push(st, "taken", field(&c, 2));
            }
            return ret(Val::T("rc", vec![c]));
        }
        let Some(t) = cx.arg_tys.first() else { return Ok(None) };
        if is_counted(*t) {
            let rc = a[0].clone();
            return match last {
                "try_unwrap" | "into_inner" => {
                    self.others(st, &rc)?;
                    let p = referent(&rc).unwrap();
                    if self.only(st, &rc)? {
                        let v = st.rd(&p)?;
                        self.taken(e, st, &p, &v)?;
                        st.wr(&p, Val::Uninit)?;
                        return ret(if last == "into_inner" { some(v) } else { ok(v) });
                    }
                    self.failed(st, &p);
                    if last == "try_unwrap" {
                        return ret(err(rc));
                    }
                    let (s, w) = self.counts(st, &rc)?;
                    self.set_counts(st, &rc, s.plus(-1), w)?;
                    ret(none())
                }
                "into_raw" | "leak" => {
                    self.kept(e, st, &rc, last)?;
                    unknown(format!("{last} of a counted reference"))
                }
                _ => Ok(None),
            };
        }
        let Some(t) = pointee(*t).filter(|t| is_counted(*t)) else { return Ok(None) };
        let rc = st.rd(&a[0])?;
        if rc.tag() != "rc" {
            return unknown(format!("{last} of {rc:?}"));
        }
        let p = referent(&rc).unwrap();
        match last {
            "deref" | "as_ref" | "borrow" | "as_ptr" => ret(p),
            "clone" => {
                let (s, w) = self.counts(st, &rc)?;
                self.set_counts(st, &rc, s.plus(1), w)?;
                ret(rc)
            }
            "strong_count" | "weak_count" => {
                self.others(st, &rc)?;
                if self.racy && last == "strong_count" && !self.only(st, &rc)? {
                    self.failed(st, &p);
                }
                let (s, w) = self.counts(st, &rc)?;
                ret(Val::Int(if last == "strong_count" { s } else { w }))
            }
            "get_mut" => {
                self.others(st, &rc)?;
                if !self.only(st, &rc)? {
                    self.failed(st, &p);
                    return ret(none());
                }
                ret(if self.weak(st, &rc)? { none() } else { some(p) })
            }
            "ptr_eq" => ret(Val::Bool(st.rd(&a[1])? == rc)),
            "eq" | "ne" if a.len() == 2 => {
                let Some(q) = referent(&st.rd(&a[1])?) else { return unknown("comparison") };
                let r = self.recursion(e, st, &p, &q)?;
                ret(Val::Bool(r == (last == "eq")))
            }
            "hash" => {
                self.hash_datum(st, &p);
                ret(unit())
            }
            _ if cx.name.contains("mem::") => Ok(None),
            _ => unknown(format!("{last} of a {}", adt_name(t))),
        }
    }

    /// Something is not going to be dropped by this owner.
    fn kept(&self, e: &mut Engine, st: &mut State, v: &Val, how: &str) -> R<()> {
        if self.op != "drop" {
            return Ok(());
        }
        let mut rest = st.clone();
        for g in MARKS {
            rest.set(g, Val::Uninit);
        }
        let live = rest.gc();
        let mut lost = false;
        let mut some = false;
        v.visit(&mut |x| {
            if let Val::Ptr(c, _) = x {
                some = true;
                lost |= !live.contains_key(c);
            }
        });
        if some {
            e.check(st, "freed", !lost, || format!("{how} gives up what would have to be freed"))?;
            st.imprecise.get_or_insert("ownership is handled by hand".into());
        }
        Ok(())
    }
    /// Taking over the datum failed as there are other references.
    fn failed(&self, st: &mut State, p: &Val) {
        let l = list(&st.g("failed"));
        if self.racy && !l.contains(p) {
            push(st, "failed", p.clone());
        }
    }
    /// A node's datum is taken out of it.
    fn taken(&self, e: &mut Engine, st: &mut State, p: &Val, v: &Val) -> R<()> {
        if self.op != "drop" {
            return Ok(());
        }
        if let Val::Ptr(c, path) = p {
            if let (Val::Agg(0, f), [2]) = (&st.cells[*c as usize].clone(), &path[..]) {
                if let Val::Int(s) = &f[0] {
                    let shared = st.decide_ge(&s.plus(-2))?;
                    e.check(st, "respects-sharing", !shared, || {
                        "the datum of a node that has other strong references is taken".into()
                    })?;
                    if f[1].lin().is_some_and(|w| st.facts.proves(&w.plus(-1))) {
                        e.reach(st, "taken despite weak references");
                    }
                }
            }
        }
        let Some(d) = datum_ty() else { return unknown("the type of datums") };
        // Those that cannot hold references are left out.
        let branch = match v {
            Val::Agg(i, _) => is_branch(d, *i),
            Val::T("dat", x) => text(&x[1]) != "leaf",
            _ => false,
        };
        if !branch {
            return Ok(());
        }
        // All nodes once and one twice before the next reference is dropped.
        if list(&st.g("taken")).contains(p) {
            let again = st.g("again") == Val::Bool(true);
            e.check(st, "terminates", !again, || {
                "nodes are taken again and again without a reference being dropped".into()
            })?;
            st.set("again", Val::Bool(true));
        } else {
            push(st, "taken", p.clone());
        }
        st.progress();
        e.reach(st, "taken");
        Ok(())
    }
    /// A reference is dropped, not by the analysed operation itself.
    fn dropped(&self, e: &mut Engine, st: &mut State, v: &Val, wrapped: bool) -> R<()> {
        let Some(p) = referent(v) else { return unknown(format!("drop of {v:?}")) };
        let Some(d) = datum_ty() else { return unknown("the type of datums") };
        let mut rc = None;
        v.visit(&mut |x| {
            if x.tag() == "rc" {
                rc = Some(x.clone())
            }
        });
        if wrapped {
            st.progress();
            st.set("taken", Val::T("q", vec![]));
            st.set("again", Val::Bool(false));
            for c in &mut st.cells {
                *c = c.map(&mut |x| match x {
                    Val::T("dat", y) if text(&y[3]) == "m" => {
                        Val::T("dat", vec![y[0].clone(), y[1].clone(), y[2].clone(), name("")])
                    }
                    o => o,
                });
            }
        }
        if let Some(rc) = rc.clone() {
            if wrapped {
                self.others(st, &rc)?;
            }
            let twice = list(&st.g("twice"));
            st.set("twice", Val::T("q", twice.into_iter().filter(|x| *x != p).collect()));
            if !self.only(st, &rc)? {
                let (s, w) = self.counts(st, &rc)?;
                e.reach(st, "shared");
                return self.set_counts(st, &rc, s.plus(-1), w);
            }
        }
        let c = st.rd(&p)?;
        if c == Val::Uninit {
            return Ok(());
        }
        e.discr(st, c, d)?;
        let Val::Agg(i, f) = st.rd(&p)? else { return unknown("the datum dropped") };
        let branch = is_branch(d, i);
        if wrapped {
            // By then all others may have dropped theirs.
            let excused = self.racy && list(&st.g("failed")).contains(&p);
            let weak = match rc {
                Some(rc) if branch => self.weak(st, &rc)?,
                _ => false,
            };
            let rule = if weak { "weak-iterative" } else { "no-recursion" };
            e.check(st, rule, !branch || excused, || {
                "a branch that could have been taken over is dropped recursively".into()
            })?;
            e.reach(st, "freed");
        } else if branch {
            for x in f {
                self.dropped(e, st, &x, true)?;
            }
        }
        st.wr(&p, Val::Uninit)
    }
}

/// The type of datums that is dropped.
fn datum_ty() -> Option<Ty> {
    let f = entry("datum::entry_hash");
    let t = f.fn_abi().ok()?.args.first()?.ty;
    pointee(t)
}

fn kind_of(t: Ty) -> (bool, Ty) {
    match pointee(t) {
        Some(t) => (true, t),
        None => (false, t),
    }
}

impl Target for Tg<'_> {
    fn stub(&self, e: &mut Engine, st: &mut State, n: &str, a: &[Val], _: &CallCx) -> R<Val> {
        match n.rsplit("::").next().unwrap_or("") {
            "stub_leaf_eq" => {
                let (x, y) = (self.leaf_of(st, &a[0])?, self.leaf_of(st, &a[1])?);
                settle(st);
                Ok(Val::Bool(compare(st, &x, &y)?.0))
            }
            "stub_leaf_hash" => {
                let x = self.leaf_of(st, &a[0])?;
                let w = name(&format!("the leaf {}", place(st, &x)));
                self.feed(st, Val::T("h", vec![w]));
                Ok(unit())
            }
            "stub_leaf_clone" => st.rd(&a[0]),
            "stub_target" => match referent(&st.rd(&a[0])?) {
                Some(p) => Ok(p),
                None => unknown("what a reference refers to"),
            },
            "stub_target_hash" => {
                let Some(p) = referent(&st.rd(&a[0])?) else { return unknown("hash of a reference") };
                self.hash_datum(st, &p);
                Ok(unit())
            }
            "stub_feed" => {
                let v = match &a[1] {
                    Val::T("slice" | "str", _) => return unknown(format!("the hasher is fed {:?}", a[1])),
                    p => st.rd(p)?,
                };
                if v.has_top() {
                    return unknown(format!("the hasher is fed {v:?}"));
                }
                let good = v.konst().is_some() || matches!(v, Val::Bool(_));
                e.check(st, "same-data", good, || {
                    format!("the hasher is fed {v:?}, which equal datums need not have in common")
                })?;
                let k = a[0].clone();
                self.feed(st, Val::T("w", vec![k, v]));
                Ok(unit())
            }
            _ => unknown(format!("stub {n}")),
        }
    }

    fn expand(&self, e: &mut Engine, st: &mut State, v: &Val, ty: Ty) -> R<Val> {
        let Val::T("dat", x) = v else { return unknown(format!("discriminant of {v:?}")) };
        let (class, path, marked) = (text(&x[1]), text(&x[2]), text(&x[3]) == "m");
        let all: Vec<u32> = (0..variants(ty) as u32)
            .filter(|i| match class.as_str() {
                "branch" => is_branch(ty, *i),
                "leaf" => !is_branch(ty, *i),
                _ => true,
            })
            .collect();
        let i = all[st.choose(all.len())?];
        if self.op != "drop" {
            // Nothing is looked at for the first time twice.
            st.progress();
        }
        let deep = path.matches('.').count() >= 3;
        let mut fs: Vec<Val> = vec![];
        for (k, t) in field_tys(ty, i as usize).into_iter().enumerate() {
            let sub = match self.op {
                "hash" if !deep => format!("{path}.{}", field_name(ty, i as usize, k)),
                _ => "..".into(),
            };
            if is_ref(t) {
                // Both may be references to the same datum.
                if let (true, Some(f)) = (self.op == "drop" && k == 1, fs.last().cloned()) {
                    if let Some(rc) = f.agg().and_then(|x| x.1.iter().find(|x| x.tag() == "rc")) {
                        if st.choose(2)? == 1 {
                            let (s, _) = self.counts(st, rc)?;
                            st.assume_ge(&s.plus(-2))?;
                            e.reach(st, "same datum twice");
                            push(st, "twice", referent(&f).unwrap());
                            fs.push(f);
                            continue;
                        }
                    }
                }
                let mut c = opaque(st, "", &sub);
                if let (true, Val::T(_, y)) = (marked, &mut c) {
                    y[3] = name("m");
                }
                let r = reference(st, t, c)?;
                if marked && st.choose(2)? == 1 {
                    push(st, "taken", referent(&r).unwrap());
                    if st.imprecise.is_none() {
                        st.imprecise = Some("generalised from repetitions".into());
                    }
                }
                if self.op == "hash" {
                    push(st, "where", Val::T("at", vec![referent(&r).unwrap(), name(&sub)]));
                }
                fs.push(r);
            } else if matches!(t.kind(), TyKind::RigidTy(RigidTy::Adt(d, _)) if d.kind() == AdtKind::Enum) {
                let o = opaque(st, "", &sub);
                fs.push(if variants(t) == 1 { self.expand(e, st, &o, t)? } else { o });
            } else {
                let l = Val::T("leaf", vec![st.new_id(), name(&sub)]);
                fs.push(Val::Agg(0, vec![l]));
            }
        }
        if self.op == "hash" {
            push(st, "shape", Val::T("is", vec![name(&path), int(i as i128)]));
            if deep && st.imprecise.is_none() {
                st.imprecise = Some("generalised from repetitions".into());
            }
        }
        let what = match ty.kind() {
            TyKind::RigidTy(RigidTy::Adt(d, _)) => d.variants()[i as usize].name(),
            _ => String::new(),
        };
        st.tr(format!("{path} is {}", what.rsplit("::").next().unwrap_or("")));
        Ok(Val::Agg(i, fs))
    }

    fn model(&self, e: &mut Engine, st: &mut State, n: &str, a: &[Val], cx: &CallCx) -> R<Act> {
        let last = n.rsplit("::").next().unwrap_or("");
        let krate = cx.inst.def.krate().name;
        let repo = is_repo(&krate);
        let std = matches!(krate.as_str(), "core" | "alloc" | "std");
        if let Some(x) = self.counted(e, st, last, a, cx)? {
            return Ok(x);
        }
        let datums = cx.arg_tys.iter().take_while(|t| pointee(**t).is_some_and(|t| adt_name(t) == "Datum")).count();
        if repo && datums == 2 && a.len() == 2 && matches!(cx.ret_ty.kind(), TyKind::RigidTy(RigidTy::Bool)) {
            let first = st.g("started") == Val::Uninit && self.kind == "datum";
            let again = st.frames.iter().any(|f| f.body.inst == cx.inst);
            let trait_fn = matches!(last, "eq" | "ne") && self.kind != "datum" || again;
            if first && matches!(last, "eq" | "ne") {
                st.set("started", Val::Bool(true));
            } else if trait_fn || matches!(last, "eq" | "ne") {
                let r = self.recursion(e, st, &a[0], &a[1])?;
                return Ok(Act::Ret(Val::Bool(r != (last == "ne"))));
            }
        }
        if repo && last == "hash" && datums == 1 {
            if self.kind == "datum" && st.g("started") == Val::Uninit {
                st.set("started", Val::Bool(true));
                return Ok(Act::Body);
            }
            self.hash_datum(st, &a[0]);
            return Ok(Act::Ret(unit()));
        }
        if std && matches!(last, "replace" | "take") && n.contains("mem::") && !a.is_empty() {
            if pointee(cx.arg_tys[0]).is_some_and(|t| adt_name(t) == "Datum") && a.len() == 2 {
                let v = st.rd(&a[0])?;
                self.taken(e, st, &a[0], &v)?;
                st.wr(&a[0], a[1].clone())?;
                return Ok(Act::Ret(v));
            }
        }
        if std && last == "swap" && n.contains("mem::") && a.len() == 2 {
            if pointee(cx.arg_tys[0]).is_some_and(|t| adt_name(t) == "Datum") {
                let (v, w) = (st.rd(&a[0])?, st.rd(&a[1])?);
                self.taken(e, st, &a[0], &v)?;
                self.taken(e, st, &a[1], &w)?;
            }
        }
        if std && self.op == "drop" && cx.arg_tys.first().is_some_and(|t| holds(*t)) {
            if matches!(last, "forget" | "leak" | "into_raw") {
                self.kept(e, st, &a[0], last)?;
            } else if last == "new" && adt_name(cx.ret_ty) == "ManuallyDrop" {
                st.imprecise.get_or_insert("ownership is handled by hand".into());
            }
        }
        Ok(Act::Body)
    }

    fn on_drop(&self, e: &mut Engine, st: &mut State, ty: Ty, p: &Val) -> R<bool> {
        let of = adt_name(ty);
        if matches!(of.as_str(), "ATxt" | "AExt" | "BTxt" | "BExt") {
            return Ok(true);
        }
        if self.op != "drop" {
            // What others hold is not in question here.
            return Ok(true);
        }
        let v = st.rd(p)?;
        if matches!(v, Val::Uninit | Val::Top) {
            return Ok(true);
        }
        if is_ref(ty) {
            if st.g("started") == Val::Uninit {
                st.set("started", Val::Bool(true));
                return Ok(false);
            }
            self.dropped(e, st, &v, true)?;
            st.wr(p, Val::Uninit)?;
            return Ok(true);
        }
        let of_datum = ty_args(ty).first().is_some_and(|t| adt_name(*t) == "Datum");
        if (is_counted(ty) || of == "Box") && of_datum {
            self.dropped(e, st, &v, false)?;
            return Ok(true);
        }
        Ok(false)
    }

    fn fold(&self, st: &mut State) {
        if matches!(self.op, "eq" | "ne") {
            settle(st);
            let l = list(&st.g("rel"));
            let mut rest = st.clone();
            rest.set("rel", Val::Uninit);
            let live = rest.gc();
            // What is out of sight is not compared again.
            let k = l.into_iter().filter(|p| {
                let Val::T(_, x) = p else { return false };
                text(&x[3]) == "open"
                    || x[..2].iter().all(|v| matches!(v, Val::Ptr(c, _) if live.contains_key(c)))
            });
            st.set("rel", Val::T("q", k.collect()));
        }
        if self.op != "drop" {
            return;
        }
        let Some(d) = datum_ty() else { return };
        let mut refs = st.gc();
        for g in MARKS {
            for p in list(&st.g(g)) {
                if let Val::Ptr(c, _) = p {
                    if let Some(n) = refs.get_mut(&c) {
                        *n -= 1;
                    }
                }
            }
        }
        // Nodes that nothing looks into are as good as not looked at.
        let cells: Vec<CellId> = refs.keys().copied().collect();
        loop {
            let mut some = false;
            for c in &cells {
                if refs.get(c).is_none_or(|n| *n != 1) {
                    continue;
                }
                let (path, content) = match &st.cells[*c as usize] {
                    Val::Agg(0, f) if f.len() == 3 && f[0].lin().is_some() => (vec![2], f[2].clone()),
                    o => (vec![], o.clone()),
                };
                if !self.node(st, *c) {
                    continue;
                }
                let Val::Agg(i, f) = &content else { continue };
                let kids: Option<Vec<CellId>> = f
                    .iter()
                    .filter_map(|x| referent(x))
                    .map(|p| match p {
                        Val::Ptr(k, _) => {
                            let here = f.iter().filter(|x| {
                                matches!(referent(x), Some(Val::Ptr(j, _)) if j == k)
                            });
                            (refs.get(&k) == Some(&here.count())).then_some(k)
                        }
                        _ => None,
                    })
                    .collect();
                if kids.is_none() {
                    continue;
                }
                let marks = list(&st.g("taken"));
                let under = f.iter().filter_map(referent).any(|p| {
                    marks.contains(&p) || matches!(st.rd(&p), Ok(Val::T("dat", y)) if text(&y[3]) == "m")
                });
                let mut o = opaque(st, if is_branch(d, *i) { "branch" } else { "leaf" }, "..");
                if let (true, Val::T(_, y)) = (under, &mut o) {
                    y[3] = name("m");
                }
                let _ = st.wr(&Val::Ptr(*c, path), o);
                some = true;
            }
            if !some {
                break;
            }
        }
        // Marks of what is gone.
        let mut rest = st.clone();
        for g in MARKS {
            rest.set(g, Val::Uninit);
        }
        let live = rest.gc();
        for g in MARKS {
            let mut l = list(&st.g(g));
            l.retain(|p| matches!(p, Val::Ptr(c, _) if live.contains_key(c)));
            st.set(g, Val::T("q", l));
        }
    }

    fn judge(&self, e: &mut Engine, st: &mut State, ret: &Val) -> R<()> {
        match self.op {
            "eq" | "ne" => self.judge_eq(e, st, ret),
            "hash" => self.judge_hash(e, st),
            "new" | "alloc" => {
                let given = st.g("given");
                let r = match (self.op, ret.agg()) {
                    ("new", _) => ret.clone(),
                    (_, Some((0, [r]))) => r.clone(),
                    _ => {
                        return e.check(st, "allocated", false, || "the allocation fails".into());
                    }
                };
                let Some(p) = referent(&r) else { return unknown("what was allocated") };
                let v = st.rd(&p)?;
                e.check(st, "allocated", v == given, || {
                    format!("the reference refers to {v:?} instead of the given datum")
                })?;
                self.fresh(e, st, &r)?;
                e.reach(st, "allocated");
                Ok(())
            }
            "deref" | "deref_mut" => {
                let p = st.g("target");
                e.check(st, "refers", *ret == p, || format!("it refers to {ret:?} instead of {p:?}"))?;
                self.unchanged(e, st)?;
                e.reach(st, "dereferenced");
                Ok(())
            }
            "get_mut" => {
                let (one, weak) = self.before(st);
                let p = st.g("target");
                match ret.agg() {
                    Some((1, [x])) => {
                        e.check(st, "exclusive", one && !weak, || {
                            "mutable access is given although there are other references".into()
                        })?;
                        e.check(st, "refers", *x == p, || {
                            format!("mutable access is given to {x:?} instead of {p:?}")
                        })?;
                        e.reach(st, "mutable access");
                    }
                    _ => {
                        e.check(st, "exclusive", !one || weak, || {
                            "mutable access is refused although there is no other reference".into()
                        })?;
                        e.reach(st, "no mutable access");
                    }
                }
                self.unchanged(e, st)
            }
            "clone" => {
                let p = st.g("target");
                let q = referent(ret);
                e.check(st, "refers", q.as_ref() == Some(&p), || {
                    format!("the clone refers to {q:?} instead of {p:?}")
                })?;
                e.reach(st, "cloned");
                self.unchanged(e, st)
            }
            "try_replace" => self.judge_replace(e, st, ret),
            "set" => {
                let this = st.rd(&st.g("self"))?;
                let Some(p) = referent(&this) else { return unknown("what was set") };
                let (v, given) = (st.rd(&p)?, st.g("given"));
                e.check(st, "replaced", v == given, || format!("the node holds {v:?} instead of the given datum"))?;
                e.reach(st, "set");
                Ok(())
            }
            "drop" => {
                e.reach(st, "dropped");
                Ok(())
            }
            _ => unknown(self.op.to_string()),
        }
    }
}

impl Tg<'_> {
    /// Whether a cell is one that references refer to.
    fn node(&self, st: &State, c: CellId) -> bool {
        let v = &st.cells[c as usize];
        match v {
            Val::Agg(0, f) if f.len() == 3 && f[0].lin().is_some() => true,
            Val::Agg(..) => {
                // Some reference refers to it as a whole.
                let mut hit = false;
                for x in &st.cells {
                    x.visit(&mut |y| {
                        if let Val::Agg(_, f) = y {
                            hit |= f.len() == 1
                                && matches!(f[0], Val::Agg(..))
                                && matches!(unwrap_ptr(y), Some(Val::Ptr(k, p)) if k == c && p.is_empty());
                        }
                    });
                }
                hit
            }
            _ => false,
        }
    }
    fn before(&self, st: &State) -> (bool, bool) {
        (st.g("one") == Val::Bool(true), st.g("weak") == Val::Bool(true))
    }
    /// The datum that was referred to at the start is as it was.
    fn unchanged(&self, e: &mut Engine, st: &mut State) -> R<()> {
        let (v, was) = (st.rd(&st.g("target"))?, st.g("was"));
        e.check(st, "unchanged", v == was, || format!("the datum became {v:?}"))
    }
    /// A new allocation is not shared.
    fn fresh(&self, e: &mut Engine, st: &mut State, r: &Val) -> R<()> {
        let mut rc = None;
        r.visit(&mut |x| {
            if x.tag() == "rc" {
                rc = Some(x.clone())
            }
        });
        if let Some(rc) = rc {
            let (s, w) = self.counts(st, &rc)?;
            e.check(st, "allocated", s == Lin::k(1) && w == Lin::k(0), || {
                "the new reference is not exclusive".into()
            })?;
        }
        Ok(())
    }
    fn judge_replace(&self, e: &mut Engine, st: &mut State, ret: &Val) -> R<()> {
        let (one, _) = self.before(st);
        let (given, was) = (st.g("given"), st.g("was"));
        let this = st.rd(&st.g("self"))?;
        let Some(p) = referent(&this) else { return unknown("the reference") };
        let now = st.rd(&p)?;
        match ret.agg() {
            Some((0, [old])) => {
                if !self.racy {
                    e.check(st, "takes-exclusive", one, || {
                        "a datum is taken that has other strong references".into()
                    })?;
                }
                e.check(st, "takes-content", *old == was, || format!("{old:?} is taken instead of the datum"))?;
                e.check(st, "replaced", now == given, || format!("{now:?} is left instead of the given datum"))?;
                e.reach(st, "took");
                Ok(())
            }
            Some((1, [back])) => {
                if !self.racy {
                    e.check(st, "takes-exclusive", !one, || {
                        "a datum is not taken although there is no other strong reference".into()
                    })?;
                }
                let t = st.g("target");
                e.check(st, "failed-unchanged", *back == given, || format!("{back:?} is given back"))?;
                e.check(st, "failed-unchanged", p == t, || format!("the reference now refers to {now:?}"))?;
                e.reach(st, "did not take");
                if !self.racy {
                    let mut rc = None;
                    this.visit(&mut |x| {
                        if x.tag() == "rc" {
                            rc = Some(x.clone())
                        }
                    });
                    if let Some(rc) = rc {
                        let (s, w) = self.counts(st, &rc)?;
                        let (s0, w0) = (st.g("strong"), st.g("weaks"));
                        let same = st.same(&Val::Int(s.clone()), &s0) && st.same(&Val::Int(w.clone()), &w0);
                        e.check(st, "failed-unchanged", same, || {
                            format!("there are {s:?} and {w:?} references instead of {s0:?} and {w0:?}")
                        })?;
                    }
                }
                e.check(st, "failed-unchanged", now == was, || format!("the datum became {now:?}"))
            }
            _ => unknown(format!("{ret:?}")),
        }
    }
}

fn start(e: &mut Engine, tg: &Tg, m: &str) -> R<()> {
    let f = entry(&format!("{m}::entry_{}", tg.op));
    let tys = f.fn_abi().map(|a| a.args.iter().map(|x| x.ty).collect::<Vec<_>>()).unwrap_or_default();
    let mut st = State::new();
    st.exact = true;
    let mut args: Vec<Val> = vec![];
    let mut targets: Vec<Val> = vec![];
    for t in &tys {
        let (by_ref, of) = kind_of(*t);
        let v = if is_ref(of) {
            let c = opaque(&mut st, "", "");
            let v = reference(&mut st, of, c.clone())?;
            let p = referent(&v).unwrap();
            st.set("target", p.clone());
            st.set("was", c);
            targets.push(p);
            v
        } else if matches!(adt_name(of).as_str(), "Datum" | "Error") {
            let c = opaque(&mut st, "", "");
            st.set("given", c.clone());
            c
        } else {
            inhabit(of)
        };
        if by_ref {
            let p = st.alloc(v);
            if matches!(adt_name(of).as_str(), "Datum" | "Error") {
                targets.push(p.clone());
            }
            args.push(p);
        } else {
            args.push(v);
        }
    }
    if matches!(tg.op, "eq" | "ne") {
        st.set("rel", Val::T("q", vec![pair(&targets[0], &targets[1], "root", "open")]));
    }
    st.set("self", args.first().cloned().unwrap_or(Val::Uninit));
    if matches!(tg.op, "eq" | "ne" | "hash" | "drop") {
        for g in ["self", "target", "was", "given"] {
            st.set(g, Val::Uninit);
        }
    }
    // The counts matter to what is expected.
    let mut ways = vec![st];
    let mut rc = None;
    if let Some(p @ Val::Ptr(..)) = args.first() {
        ways[0].rd(p)?.visit(&mut |x| {
            if x.tag() == "rc" {
                rc = Some(x.clone())
            }
        });
    }
    if let (Some(rc), "get_mut" | "try_replace" | "set") = (rc, tg.op) {
        let base = ways.remove(0);
        for (one, weak) in [(true, false), (true, true), (false, false), (false, true)] {
            let mut s = base.clone();
            let (n, w) = tg.counts(&s, &rc)?;
            if tg.op == "set" && (!one || weak) {
                continue;
            }
            s.set("one", Val::Bool(one));
            s.set("weak", Val::Bool(weak));
            s.set("strong", Val::Int(n.clone()));
            s.set("weaks", Val::Int(w.clone()));
            if one {
                s.assume_eq(&n.plus(-1))?;
            } else {
                s.assume_ge(&n.plus(-2))?;
            }
            if weak {
                s.assume_ge(&w.plus(-1))?;
            } else {
                s.assume_eq(&w)?;
            }
            ways.push(s);
        }
    } else {
        for s in &mut ways {
            s.set("one", Val::Bool(true));
            s.set("weak", Val::Bool(false));
        }
    }
    for s in ways {
        e.run_call(s, f, args.clone());
    }
    Ok(())
}

fn one(target: &str, m: &str, kind: &str, op: &str, racy: bool) -> Done {
    let tg = Tg { kind, op, racy, hashes: RefCell::new(vec![]) };
    let how = if racy { "-concurrent" } else { "" };
    let mut e = Engine::new(&tg, &format!("{target}/{m}-{op}{how}"));
    if let Err(Stop::Unknown(w)) = start(&mut e, &tg, m) {
        *e.rep.unknowns.entry(w).or_default() += 1;
    }
    Done::of(e)
}

pub fn run() -> Vec<Done> {
    let mut out = vec![];
    for op in ["eq", "ne", "hash"] {
        out.push(one("datums", "datum", "datum", op, false));
    }
    for op in ["eq", "ne"] {
        out.push(one("datums", "error", "error", op, false));
    }
    for m in ["boxes", "rcs", "arcs", "muts"] {
        for op in ["eq", "ne", "hash"] {
            out.push(one("datums", m, m, op, false));
        }
    }
    out
}

pub fn refs() -> Vec<Done> {
    let mut out = vec![];
    for m in ["boxes", "rcs", "arcs", "muts"] {
        for op in ["deref", "get_mut"] {
            out.push(one("refs", m, m, op, false));
        }
    }
    for m in ["box_mut", "muts"] {
        out.push(one("refs", m, m, "deref_mut", false));
    }
    for m in ["box_heap", "rc_heap", "arc_heap"] {
        for op in ["new", "alloc", "clone", "try_replace", "set"] {
            if m == "box_heap" && op == "clone" {
                continue;
            }
            out.push(one("refs", m, m, op, false));
        }
    }
    out.push(one("refs", "arc_heap", "arc_heap", "try_replace", true));
    out
}

pub fn drops() -> Vec<Done> {
    let mut out = vec![];
    for m in ["box_heap", "rc_heap", "arc_heap"] {
        out.push(one("drops", m, m, "drop", false));
    }
    out.push(one("drops", "arc_heap", "arc_heap", "drop", true));
    out
}
