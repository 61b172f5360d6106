//! The parser over an abstract source stream, classifier, text, allocator and
//! bindings, against a character-driven specification.
//!
//! The ghost state holds what the grammar says about the characters consumed
//! so far: a stack of open constructs (`sp`), the expected failure (`fail`),
//! the stream's lookahead (`nxt`) and its pending accumulation (`pend`).

use super::Done;
use crate::engine::*;
use crate::state::*;
use crate::val::*;
use rustc_public::ty::*;
use std::collections::BTreeMap;

pub struct Tg;

// Character classes.
const START: usize = 0;
const END: usize = 1;
const ESC: usize = 2;
const WS: usize = 3;
const CLS: [&str; 5] = ["start", "end", "escape", "whitespace", "other"];

// ---- Specification state ---------------------------------------------------

#[derive(Clone, PartialEq, Debug)]
enum Fr {
    /// Outside all nests; with the completed form.
    Top(Option<Val>),
    /// The bottom of a callee's view, with the forms completed on top of it.
    Hid(Vec<Val>),
    Nest { phase: Phase, op: Val, kind: Val, looked: bool, forms: Vec<Val> },
    Txt { mode: Mode, g: Vec<Val>, level: Lin, esc: bool },
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Phase {
    Head,
    /// After the head, before its separating whitespace.
    Aft,
    Ops,
    /// The end was consumed and the combiner has to be called.
    Call,
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Mode {
    Base,
    Operator,
    Operands,
}
const PHASES: [(Phase, &str); 4] =
    [(Phase::Head, "head"), (Phase::Aft, "aft"), (Phase::Ops, "ops"), (Phase::Call, "call")];
const MODES: [(Mode, &str); 3] =
    [(Mode::Base, "base"), (Mode::Operator, "operator"), (Mode::Operands, "operands")];

fn enc(fr: &Fr) -> Val {
    match fr {
        Fr::Top(None) => Val::T("top", vec![]),
        Fr::Top(Some(f)) => Val::T("top", vec![f.clone()]),
        Fr::Hid(v) => Val::T("hid", v.clone()),
        Fr::Nest { phase, op, kind, looked, forms } => Val::T(
            "nest",
            vec![
                name(PHASES.iter().find(|p| p.0 == *phase).unwrap().1),
                op.clone(),
                kind.clone(),
                Val::Bool(*looked),
                Val::T("fseq", forms.clone()),
            ],
        ),
        Fr::Txt { mode, g, level, esc } => Val::T(
            "txt",
            vec![
                name(MODES.iter().find(|p| p.0 == *mode).unwrap().1),
                Val::T("seq", g.clone()),
                Val::Int(level.clone()),
                Val::Bool(*esc),
            ],
        ),
    }
}
fn nm(v: &Val) -> &str {
    match v {
        Val::Name(n) => n,
        _ => "",
    }
}
fn dec(v: &Val) -> Fr {
    let Val::T(t, a) = v else { panic!("frame {v:?}") };
    match *t {
        "top" => Fr::Top(a.first().cloned()),
        "hid" => Fr::Hid(a.clone()),
        "nest" => Fr::Nest {
            phase: PHASES.iter().find(|p| p.1 == nm(&a[0])).unwrap().0,
            op: a[1].clone(),
            kind: a[2].clone(),
            looked: a[3] == Val::Bool(true),
            forms: a[4].targs("fseq").unwrap().to_vec(),
        },
        "txt" => Fr::Txt {
            mode: MODES.iter().find(|p| p.1 == nm(&a[0])).unwrap().0,
            g: a[1].targs("seq").unwrap().to_vec(),
            level: a[2].lin().unwrap().clone(),
            esc: a[3] == Val::Bool(true),
        },
        t => panic!("frame {t}"),
    }
}
fn sp(st: &State) -> Vec<Fr> {
    st.g("sp").targs("sp").unwrap_or(&[]).iter().map(dec).collect()
}
fn set_sp(st: &mut State, v: &[Fr]) {
    st.set("sp", Val::T("sp", v.iter().map(enc).collect()))
}
fn failed(st: &State) -> bool {
    st.ghosts.contains_key("fail")
}
/// Failed other than by the end of the source inside a nest, which does not
/// have to be noticed at once.
fn hard(st: &State) -> bool {
    failed(st) && st.g("fail").tag() != "missing"
}
fn fail(st: &mut State, e: Val) {
    st.set("fail", e);
    set_sp(st, &[]);
}
fn depth0(fr: &[Fr]) -> bool {
    !fr.iter().any(|f| matches!(f, Fr::Nest { .. } | Fr::Hid(_)))
}

/// Puts a completed form (or its removal) where it belongs.
fn attach(st: &mut State, fr: &mut Vec<Fr>, form: Option<Val>) -> R<()> {
    let _ = st;
    match fr.last_mut() {
        Some(Fr::Top(x)) => *x = form,
        Some(Fr::Hid(v)) => v.extend(form),
        Some(Fr::Nest { phase, op, forms, .. }) => {
            if let Some(f) = form {
                match phase {
                    Phase::Head => {
                        *op = f;
                        *phase = Phase::Aft;
                    }
                    _ => forms.push(f),
                }
            }
        }
        _ => return unknown("specification stack"),
    }
    Ok(())
}

fn ftext(g: &[Val]) -> Val {
    Val::T("ftext", vec![Val::T("seq", g.to_vec())])
}

// ---- Characters ------------------------------------------------------------

fn csym(c: &Val) -> R<SymId> {
    match c {
        Val::T("ch", a) => match a[0] {
            Val::Sym(s) => Ok(s),
            _ => unknown("character"),
        },
        v => unknown(format!("classification of {v:?}")),
    }
}
fn cls(st: &State, s: SymId) -> Vec<bool> {
    match st.attr(s, "cls") {
        Some(Val::T(_, v)) => v.iter().map(|b| *b == Val::Bool(true)).collect(),
        _ => vec![true; 5],
    }
}
fn set_cls(st: &mut State, s: SymId, v: Vec<bool>) {
    st.set_attr(s, "cls", Val::T("cls", v.into_iter().map(Val::Bool).collect()))
}
fn decide_class(st: &mut State, s: SymId, k: usize) -> R<bool> {
    let mut v = cls(st, s);
    if !v[k] {
        return Ok(false);
    }
    if v.iter().filter(|x| **x).count() == 1 {
        return Ok(true);
    }
    if st.choose(2)? == 0 {
        let mut n = vec![false; 5];
        n[k] = true;
        set_cls(st, s, n);
        Ok(true)
    } else {
        v[k] = false;
        set_cls(st, s, v);
        Ok(false)
    }
}
fn class_of(st: &mut State, s: SymId) -> R<usize> {
    let v = cls(st, s);
    let opts: Vec<usize> = (0..5).filter(|i| v[*i]).collect();
    let k = opts[st.choose(opts.len())?];
    let mut n = vec![false; 5];
    n[k] = true;
    set_cls(st, s, n);
    Ok(k)
}
/// Decides whether there is a next character.
fn look(st: &mut State) -> R<Option<SymId>> {
    match st.g("nxt") {
        Val::T("eof", _) => Ok(None),
        Val::T("ch", a) => match a[0] {
            Val::Sym(s) => Ok(Some(s)),
            _ => unknown("lookahead"),
        },
        _ => {
            if st.choose(2)? == 0 {
                let s = st.new_sym();
                st.set("nxt", Val::T("ch", vec![Val::Sym(s)]));
                Ok(Some(s))
            } else {
                st.set("nxt", Val::T("eof", vec![]));
                Ok(None)
            }
        }
    }
}
fn terminates(mode: Mode, k: usize) -> bool {
    match mode {
        Mode::Base => k == START || k == END,
        Mode::Operator => k == START || k == END || k == WS,
        Mode::Operands => k == END,
    }
}

/// Closes a text that the lookahead is known to end. With `force` the
/// lookahead is decided as far as needed.
fn settle(st: &mut State, fr: &mut Vec<Fr>, force: bool) -> R<()> {
    if let Some(Fr::Txt { mode, g, level, esc }) = fr.last().cloned() {
        let known = force || !matches!(st.g("nxt"), Val::Uninit);
        if !known {
            return Ok(());
        }
        let done = match look(st)? {
            None => mode != Mode::Operands,
            Some(s) => {
                let v = cls(st, s);
                let all = (0..5).filter(|i| v[*i]).all(|i| terminates(mode, i));
                let none = (0..5).filter(|i| v[*i]).all(|i| !terminates(mode, i));
                if esc {
                    false
                } else if !all && !none && force {
                    let k = class_of(st, s)?;
                    terminates(mode, k) && (mode != Mode::Operands || st.decide_eq(&level)?)
                } else {
                    all && (mode != Mode::Operands || level == Lin::k(0))
                }
            }
        };
        if done && mode != Mode::Operands {
            // A text outside all nests that an end delimiter follows belongs
            // to the failing step.
            if depth0(fr) {
                if let Some(s) = look(st)? {
                    if cls(st, s)[END] {
                        return Ok(());
                    }
                }
            }
            fr.pop();
            attach(st, fr, Some(ftext(&g)))?;
        }
    }
    Ok(())
}

/// What the grammar says about the consumption of a character.
fn consume(e: &mut Engine, st: &mut State, s: SymId) -> R<()> {
    e.check(st, "stop-after-failure", !failed(st), || {
        "consumes another character after the step has failed".into()
    })?;
    let over = matches!(sp(st).last(), Some(Fr::Top(Some(_))));
    e.check(st, "one-form-per-step", !over, || {
        "consumes characters beyond the completed form".into()
    })?;
    let k = class_of(st, s)?;
    st.tr(format!("consumes a character of class {}", CLS[k]));
    let c = Val::Sym(s);
    let mut fr = sp(st);
    let mut rounds = 0;
    loop {
        rounds += 1;
        if rounds > 8 {
            return unknown("specification does not settle");
        }
        let depth0 = depth0(&fr);
        match fr.last_mut() {
            None => return unknown("specification stack is empty"),
            Some(Fr::Top(None)) => match k {
                START => fr.push(nest()),
                END => {
                    fail(st, Val::T("unbalanced", vec![c]));
                    return Ok(());
                }
                _ => {
                    fr.push(txt(Mode::Base));
                    continue;
                }
            },
            Some(Fr::Top(Some(_))) => return unknown("specification stack"),
            Some(Fr::Hid(_)) => return unknown("consumption below the callee's view"),
            Some(Fr::Nest { phase: Phase::Head, .. }) => match k {
                WS => {}
                START => fr.push(nest()),
                END => {
                    fr.pop();
                    attach(st, &mut fr, Some(Val::T("fempty", vec![])))?;
                }
                _ => {
                    fr.push(txt(Mode::Operator));
                    continue;
                }
            },
            Some(Fr::Nest { phase: phase @ Phase::Aft, .. }) => {
                *phase = Phase::Ops;
                if k != WS {
                    continue;
                }
            }
            Some(Fr::Nest { phase: phase @ Phase::Ops, op, kind, forms, .. }) => {
                if *kind == Val::Uninit {
                    let n = choose_kind(st)?;
                    *kind = n;
                }
                match kind.tag() {
                    "opv" => {
                        fr.push(txt(Mode::Operands));
                        // An empty text is complete at once.
                        continue;
                    }
                    t => match k {
                        START => fr.push(nest()),
                        END => {
                            if t == "app" {
                                *phase = Phase::Call;
                            } else {
                                let f = Val::T(
                                    "fcomb",
                                    vec![
                                        op.clone(),
                                        Val::T("flist", vec![Val::T("fseq", forms.clone())]),
                                    ],
                                );
                                fr.pop();
                                attach(st, &mut fr, Some(f))?;
                            }
                        }
                        _ => {
                            fr.push(txt(Mode::Base));
                            continue;
                        }
                    },
                }
            }
            Some(Fr::Nest { phase: Phase::Call, .. }) => {
                return e.check(st, "combiner-called", false, || {
                    "goes on without having called the combiner of a completed nest".into()
                })
            }
            Some(Fr::Txt { mode, g, level, esc }) => {
                if *esc {
                    g.push(c);
                    *esc = false;
                } else if k == ESC {
                    *esc = true;
                } else if terminates(*mode, k)
                    && (*mode != Mode::Operands || st.decide_eq(&level.clone())?)
                {
                    let (mode, g) = (*mode, g.clone());
                    fr.pop();
                    if mode == Mode::Operands {
                        // The end of the nest.
                        if let Some(Fr::Nest { phase, forms, .. }) = fr.last_mut() {
                            *phase = Phase::Call;
                            *forms = vec![ftext(&g)];
                        } else {
                            return unknown("operand text outside of a nest");
                        }
                    } else if depth0 && k == END {
                        fail(st, Val::T("unbalanced", vec![c]));
                        return Ok(());
                    } else {
                        attach(st, &mut fr, Some(ftext(&g)))?;
                        continue;
                    }
                } else {
                    if *mode == Mode::Operands && k == START {
                        *level = level.plus(1);
                    }
                    if *mode == Mode::Operands && k == END {
                        *level = level.plus(-1);
                    }
                    g.push(c);
                }
            }
        }
        break;
    }
    set_sp(st, &fr);
    e.reach(st, format!("class {}", CLS[k]));
    Ok(())
}

fn nest() -> Fr {
    Fr::Nest {
        phase: Phase::Head,
        op: Val::Uninit,
        kind: Val::Uninit,
        looked: false,
        forms: vec![],
    }
}
fn txt(mode: Mode) -> Fr {
    Fr::Txt { mode, g: vec![], level: Lin::k(0), esc: false }
}
fn choose_kind(st: &mut State) -> R<Val> {
    Ok(match st.choose(3)? {
        0 => Val::T("unb", vec![]),
        1 => Val::T("opv", vec![st.new_id()]),
        _ => Val::T("app", vec![st.new_id()]),
    })
}

// ---- Values of the analysed code ------------------------------------------

fn text(seq: Vec<Val>) -> Val {
    Val::Agg(0, vec![Val::T("text", vec![Val::T("seq", seq)])])
}
fn text_seq(v: &Val) -> Option<Vec<Val>> {
    match v {
        Val::Agg(0, f) if f.len() == 1 => {
            f[0].targs("text").and_then(|t| t[0].targs("seq")).map(|s| s.to_vec())
        }
        _ => None,
    }
}
fn dr_cell(v: &Val) -> Option<CellId> {
    match v {
        Val::Agg(0, f) if f.len() == 1 => match f[0].targs("dr") {
            Some([Val::Ptr(c, p)]) if p.is_empty() => Some(*c),
            _ => None,
        },
        _ => None,
    }
}

/// The form that a datum value stands for.
fn denote(st: &State, v: &Val, fuel: usize) -> Option<Val> {
    if fuel == 0 {
        return None;
    }
    let at = |r: &Val| {
        let c = dr_cell(r)?;
        denote(st, &st.cells[c as usize], fuel - 1)
    };
    match v {
        Val::T("form", _) | Val::T("lost", _) => Some(v.clone()),
        Val::T("lseg", _) => list(st, v, fuel),
        Val::Agg(0, f) if f.len() == 1 => Some(ftext(&text_seq(&f[0])?)),
        Val::Agg(1, f) if f.len() == 2 => Some(Val::T("fcomb", vec![at(&f[0])?, at(&f[1])?])),
        Val::Agg(2, _) => Some(Val::T("fempty", vec![])),
        Val::Agg(3 | 4, _) => list(st, v, fuel),
        Val::Agg(5, f) => Some(Val::T("fextra", f.clone())),
        _ => None,
    }
}
fn list(st: &State, v: &Val, fuel: usize) -> Option<Val> {
    let mut v = v.clone();
    let mut out = vec![];
    for _ in 0..fuel {
        let next = match &v {
            Val::Agg(4, _) => return Some(Val::T("flist", vec![Val::T("fseq", out)])),
            Val::Agg(3, f) if f.len() == 2 => {
                let c = dr_cell(&f[0])?;
                out.push(denote(st, &st.cells[c as usize], fuel - 1)?);
                f[1].clone()
            }
            Val::T("lseg", a) => {
                out.extend(a[0].targs("fseq")?.iter().cloned());
                a[1].clone()
            }
            _ => return None,
        };
        let c = dr_cell(&next)?;
        v = st.cells[c as usize].clone();
    }
    None
}

fn show(v: &Val) -> String {
    match v {
        Val::T("ftext", a) => format!("text of {}", show(&a[0])),
        Val::T("seq", a) => format!("{} piece(s) {:?}", a.len(), a),
        v => format!("{v:?}"),
    }
}
fn mentions(v: &Val, tag: &str) -> bool {
    let mut r = false;
    v.visit(&mut |x| r |= x.tag() == tag);
    r
}
/// The text for a mismatch; marked if one side was not followed.
fn mismatch(what: &str, want: &Val, got: &Option<Val>) -> String {
    let lost = mentions(want, "lost") || got.as_ref().is_some_and(|g| mentions(g, "lost"));
    let pre = if lost || got.is_none() { "untracked: " } else { "" };
    let got = got.as_ref().map_or("something that is not followed".into(), show);
    format!("{pre}{what}: expected {}, got {got}", show(want))
}
/// The characters of a form in order.
fn chars(v: &Val) -> Vec<Val> {
    let mut out = vec![];
    v.visit(&mut |x| {
        if let Val::T("seq", a) = x {
            out.extend(a.iter().cloned())
        }
        if matches!(x, Val::T("form" | "fs", _)) {
            out.push(x.clone())
        }
    });
    out
}
/// A form that has to be the expected one: a difference breaks `rule`, and
/// `characters` as well if characters are missing, added or out of order.
fn same_form(
    e: &mut Engine,
    st: &mut State,
    rule: &'static str,
    what: &str,
    want: &Val,
    got: &Option<Val>,
) -> R<()> {
    if got.as_ref() == Some(want) {
        e.check(st, rule, true, String::new)?;
        return e.check(st, "characters", true, String::new);
    }
    if let Some(g) = got {
        if chars(g) != chars(want) {
            let _ = e.check(st, "characters", false, || mismatch(what, want, got));
            if rule_for(want, got) == "text" {
                return Err(Stop::Halt);
            }
        }
    }
    e.check(st, rule, false, || mismatch(what, want, got))
}
/// Which clause a difference between two forms breaks.
fn rule_for(want: &Val, got: &Option<Val>) -> &'static str {
    let Some(got) = got else { return "tree" };
    fn differs(a: &Val, b: &Val) -> &'static str {
        match (a, b) {
            (Val::T("ftext", x), Val::T("ftext", y)) if x != y => "text",
            (Val::T(s, x), Val::T(t, y)) if s == t && x.len() == y.len() => {
                for (p, q) in x.iter().zip(y) {
                    if p != q {
                        return differs(p, q);
                    }
                }
                "tree"
            }
            _ => "tree",
        }
    }
    differs(want, got)
}

fn fail_alloc(st: &mut State, what: &str) -> Val {
    st.tr(format!("{what} fails"));
    let a = Val::T("aerr", vec![st.new_id()]);
    fail(st, Val::T("alloc", vec![a.clone()]));
    err(a)
}

fn item(ty: Ty, s: SymId) -> Val {
    mk_struct(ty, &mut |t| match t.kind() {
        TyKind::RigidTy(RigidTy::Char) => Val::T("ch", vec![Val::Sym(s)]),
        _ => pos(s),
    })
}
fn pos(s: SymId) -> Val {
    Val::Agg(0, vec![Val::T("pos", vec![Val::Sym(s)])])
}

impl Target for Tg {
    fn stub(&self, e: &mut Engine, st: &mut State, n: &str, a: &[Val], cx: &CallCx) -> R<Val> {
        match n {
            "stub_is_start" => Ok(Val::Bool(decide_class(st, csym(&a[0])?, START)?)),
            "stub_is_end" => Ok(Val::Bool(decide_class(st, csym(&a[0])?, END)?)),
            "stub_is_escape" => Ok(Val::Bool(decide_class(st, csym(&a[0])?, ESC)?)),
            "stub_is_whitespace" => Ok(Val::Bool(decide_class(st, csym(&a[0])?, WS)?)),
            "stub_peek" => Ok(match look(st)? {
                None => none(),
                Some(s) => {
                    let ity = ty_args(ty_args(cx.ret_ty)[0])[0];
                    let it = item(ity, s);
                    some(st.alloc(it))
                }
            }),
            "stub_next" => match look(st)? {
                None => {
                    st.set("pend", Val::T("seq", vec![]));
                    Ok(none())
                }
                Some(s) => {
                    st.ghosts.remove("nxt");
                    st.set("pend", Val::T("seq", vec![]));
                    consume(e, st, s)?;
                    st.progress();
                    Ok(some(item(ty_args(cx.ret_ty)[0], s)))
                }
            },
            "stub_next_accum" => {
                if hard(st) {
                    e.check(st, "stop-after-failure", false, || {
                        "accumulates after the step has failed".into()
                    })?;
                }
                if st.choose(2)? == 1 {
                    e.reach(st, "failing accumulation");
                    st.set("pend", Val::T("seq", vec![]));
                    return Ok(fail_alloc(st, "accumulating"));
                }
                match look(st)? {
                    None => Ok(ok(none())),
                    Some(s) => {
                        st.ghosts.remove("nxt");
                        let mut p = st.g("pend").targs("seq").unwrap().to_vec();
                        p.push(Val::Sym(s));
                        st.set("pend", Val::T("seq", p));
                        consume(e, st, s)?;
                        st.progress();
                        Ok(ok(some(item(ty_args(ty_args(cx.ret_ty)[0])[0], s))))
                    }
                }
            }
            "stub_accum_done" => {
                let p = st.g("pend").targs("seq").unwrap().to_vec();
                st.set("pend", Val::T("seq", vec![]));
                if st.choose(2)? == 1 && !hard(st) {
                    e.reach(st, "failing end of accumulation");
                    return Ok(fail_alloc(st, "ending the accumulation"));
                }
                Ok(ok(text(p)))
            }
            "stub_text_empty" => Ok(text(vec![])),
            "stub_text_is_empty" => match text_seq(&st.rd(&a[0])?) {
                Some(s) if s.is_empty() => Ok(Val::Bool(true)),
                Some(_) => Ok(Val::Bool(false)),
                None => unknown("text"),
            },
            "stub_text_concat" => {
                let (Some(mut x), Some(y)) = (text_seq(&a[0]), text_seq(&a[1])) else {
                    return unknown("concatenation of untracked texts");
                };
                if st.choose(2)? == 1 && !hard(st) {
                    e.reach(st, "failing concatenation");
                    return Ok(fail_alloc(st, "concatenating"));
                }
                x.extend(y);
                Ok(ok(text(x)))
            }
            "stub_new_datum" => {
                if hard(st) {
                    e.check(st, "stop-after-failure", false, || {
                        "allocates a datum after the step has failed".into()
                    })?;
                }
                if st.choose(2)? == 1 {
                    e.reach(st, "failing allocation");
                    return Ok(fail_alloc(st, "allocating a datum"));
                }
                let c = st.new_cell(a[1].clone());
                Ok(ok(Val::Agg(0, vec![Val::T("dr", vec![ptr(c)])])))
            }
            "stub_dr_deref" => match dr_cell(&st.rd(&a[0])?) {
                Some(c) => Ok(ptr(c)),
                None => unknown("dereference of an untracked datum reference"),
            },
            "stub_dr_get_mut" => match dr_cell(&st.rd(&a[0])?) {
                Some(c) => {
                    if st.choose(2)? == 1 {
                        e.reach(st, "failing mutable access");
                        st.tr("mutable access fails");
                        if !hard(st) {
                            fail(st, Val::T("mutfail", vec![]));
                        }
                        return Ok(none());
                    }
                    Ok(some(ptr(c)))
                }
                None => unknown("mutable access to an untracked datum reference"),
            },
            "stub_or_deref" | "stub_ar_deref" => match st.rd(&a[0])? {
                Val::Agg(0, f) => Ok(f[0].clone()),
                v => unknown(format!("combiner reference {v:?}")),
            },
            "stub_lookup" => {
                if hard(st) {
                    e.check(st, "stop-after-failure", false, || {
                        "looks up a head after the step has failed".into()
                    })?;
                }
                if failed(st) {
                    return Ok(none());
                }
                let mut fr = sp(st);
                settle(st, &mut fr, true)?;
                let d = st.rd(&a[1])?;
                let got = denote(st, &d, 40);
                let Some(Fr::Nest { phase, op, kind, looked, .. }) = fr.last_mut() else {
                    return Err(e
                        .check(st, "lookup-head", false, || {
                            "looks up something that is not a completed head".into()
                        })
                        .unwrap_err());
                };
                let (want, was, ph) = (op.clone(), *looked, *phase);
                *looked = true;
                if *kind == Val::Uninit {
                    let k = choose_kind(st)?;
                    *kind = k;
                }
                let kind = kind.clone();
                if ph == Phase::Head {
                    e.check(st, "lookup-head", false, || "looks up before the head is complete".into())?;
                }
                e.check(st, "lookup-once", !was, || "looks up the same head again".into())?;
                same_form(e, st, "lookup-head", "the datum looked up is not the head", &want, &got)?;
                set_sp(st, &fr);
                e.reach(st, format!("head bound as {}", kind.tag()));
                st.tr(format!("the head is looked up: {}", match kind.tag() {
                    "unb" => "unbound",
                    "opv" => "an operative",
                    _ => "an applicative",
                }));
                let cty = ty_args(ty_args(cx.ret_ty)[0])[0];
                let (vn, tag) = match kind.tag() {
                    "unb" => return Ok(none()),
                    "opv" => ("Operative", "opfn"),
                    _ => ("Applicative", "apfn"),
                };
                let Some(vi) = variant(cty, vn) else { return unknown("combiner type") };
                let id = match &kind {
                    Val::T(_, a) => a[0].clone(),
                    _ => Val::Uninit,
                };
                let c = Val::Agg(vi, vec![Val::Agg(0, vec![Val::T(tag, vec![id])])]);
                Ok(some(st.alloc(c)))
            }
            n => unknown(format!("use of {n}")),
        }
    }

    fn virt(&self, e: &mut Engine, st: &mut State, a: &[Val], cx: &CallCx) -> R<Val> {
        let f = a[0].clone();
        if !matches!(f.tag(), "opfn" | "apfn") {
            return unknown(format!("virtual call {} on {f:?}", cx.name));
        }
        if hard(st) {
            e.check(st, "stop-after-failure", false, || {
                "calls a combiner after the step has failed".into()
            })?;
        }
        let Some((_, args)) = a.get(1).and_then(|t| t.agg()) else {
            return unknown("combiner arguments");
        };
        let args = args.to_vec();
        let mut fr = sp(st);
        let ready = matches!(fr.last(), Some(Fr::Nest { phase: Phase::Call, .. }));
        if let Some(Fr::Txt { mode: Mode::Operands, esc, level, .. }) = fr.last() {
            let here = match look(st)? {
                Some(s) => !esc && class_of(st, s)? == END && st.decide_eq(level)?,
                None => false,
            };
            if !here {
                let _ = e.check(st, "characters", false, || {
                    "calls an operative with an incomplete text".into()
                });
            }
        }
        e.check(st, "call-after-end", ready, || {
            "calls a combiner before the end of its nest was consumed, or for no nest".into()
        })?;
        let Some(Fr::Nest { op, kind, forms, .. }) = fr.pop() else { unreachable!() };
        let want_fn = if kind.tag() == "opv" { "opfn" } else { "apfn" };
        let same = f.tag() == want_fn && f.targs(want_fn) == kind.targs(kind.tag());
        e.check(st, "call-bound", same, || {
            "calls another combiner than the one bound to the head".into()
        })?;
        let got = denote(st, &args[0], 40);
        same_form(e, st, "call-head", "the combiner gets another head", &op, &got)?;
        if kind.tag() == "opv" {
            let got = text_seq(&args[1]).map(|s| ftext(&s));
            if got.as_ref() != Some(&forms[0]) {
                let _ = e.check(st, "characters", false, || {
                    mismatch("the operative gets another text", &forms[0], &got)
                });
            }
            e.check(st, "operative-text", got.as_ref() == Some(&forms[0]), || {
                mismatch("the operative gets another text", &forms[0], &got)
            })?;
        } else {
            let want = Val::T("flist", vec![Val::T("fseq", forms.clone())]);
            let got = denote(st, &args[1], 40);
            let what = "the applicative gets other operands";
            same_form(e, st, "applicative-operands", what, &want, &got)?;
        }
        match st.choose(3)? {
            0 => {
                let t = Val::T("form", vec![st.new_id(), name("any")]);
                st.tr("the combiner returns a datum");
                e.reach(st, "combiner result");
                attach(st, &mut fr, Some(t.clone()))?;
                set_sp(st, &fr);
                Ok(ok(some(t)))
            }
            1 => {
                st.tr("the combiner returns nothing");
                e.reach(st, "combiner removes");
                attach(st, &mut fr, None)?;
                set_sp(st, &fr);
                Ok(ok(none()))
            }
            _ => {
                st.tr("the combiner fails");
                e.reach(st, "combiner fails");
                let x = Val::T("cerr", vec![st.new_id()]);
                fail(st, Val::T("comb", vec![x.clone()]));
                Ok(err(x))
            }
        }
    }

    fn judge(&self, e: &mut Engine, st: &mut State, ret: &Val) -> R<()> {
        match st.ret_ty {
            Some(t) if adt_name(t) == "Option" => judge(e, st, ret, t),
            _ => Ok(()),
        }
    }

    fn variant(&self, st: &mut State, v: &Val, ty: Ty) -> R<Option<u32>> {
        if adt_name(ty) != "Datum" {
            return Ok(None);
        }
        Ok(match v.targs("form") {
            Some([_, Val::Int(k)]) => Some(k.c as u32),
            // What a combiner returned.
            Some([_, _]) => Some(st.memo_variant(v, variants(ty))?),
            // Its kind was known before.
            Some(_) => {
                if st.imprecise.is_none() {
                    st.imprecise = Some("the kind of a completed form".into());
                }
                Some(st.memo_variant(v, variants(ty))?)
            }
            None => None,
        })
    }
    fn expand(&self, e: &mut Engine, st: &mut State, v: &Val, ty: Ty) -> R<Val> {
        if v.tag() != "cerr" || adt_name(ty) != "Error" {
            return unknown(format!("discriminant of {v:?}"));
        }
        let n = variants(ty);
        let k = st.choose(n)?;
        e.reach(st, "distinguishes a combiner's errors");
        let fs = field_tys(ty, k);
        Ok(Val::Agg(
            k as u32,
            fs.iter().map(|_| Val::Agg(0, vec![Val::T("opq", vec![st.new_id()])])).collect(),
        ))
    }

    fn fold(&self, st: &mut State) {
        fold(st)
    }

    fn summary_enter(&self, st: &mut State) -> Val {
        let saved = st.g("sp");
        let fr = sp(st);
        let mut v = vec![Fr::Hid(vec![])];
        match fr.len() {
            0 => {}
            1 => v = fr.clone(),
            n => v.push(fr[n - 1].clone()),
        }
        set_sp(st, &v);
        saved
    }
    fn summary_exit(&self, st: &mut State, saved: Val) -> R<()> {
        if failed(st) {
            return Ok(());
        }
        let old: Vec<Fr> = saved.targs("sp").unwrap_or(&[]).iter().map(dec).collect();
        let cur = sp(st);
        if old.len() <= 1 {
            return Ok(());
        }
        let mut v: Vec<Fr> = old[..old.len() - 1].to_vec();
        match cur.first() {
            Some(Fr::Hid(rs)) => {
                for r in rs {
                    attach(st, &mut v, Some(r.clone()))?;
                }
            }
            _ => return unknown("callee's view"),
        }
        v.extend(cur[1..].iter().cloned());
        set_sp(st, &v);
        Ok(())
    }
}

// ---- Folding ---------------------------------------------------------------

fn each_val(st: &mut State, reach: &BTreeMap<CellId, usize>, f: &mut dyn FnMut(&Val) -> Val) {
    for c in reach.keys() {
        let v = f(&st.cells[*c as usize]);
        st.cells[*c as usize] = v;
    }
    for v in st.ghosts.values_mut() {
        *v = f(v);
    }
}

/// Rewrites the datum values inside a value of the given type.
fn typed(v: &Val, ty: Ty, f: &mut dyn FnMut(&Val) -> Val) -> Val {
    if adt_name(ty) == "Datum" {
        return f(v);
    }
    match (v, ty.kind()) {
        (Val::Agg(i, fs), TyKind::RigidTy(RigidTy::Adt(..) | RigidTy::Tuple(_))) => {
            let ts = field_tys(ty, *i as usize);
            if ts.len() != fs.len() {
                return v.clone();
            }
            Val::Agg(*i, fs.iter().zip(ts).map(|(x, t)| typed(x, t, f)).collect())
        }
        _ => v.clone(),
    }
}

/// All datum values of the analysed code, rewritten.
fn each_datum(st: &mut State, reach: &BTreeMap<CellId, usize>, f: &mut dyn FnMut(&State, &Val) -> Val) {
    let snap = st.clone();
    let mut cells = vec![];
    for c in reach.keys() {
        snap.cells[*c as usize].visit(&mut |x| {
            if let Val::T("dr", a) = x {
                if let Val::Ptr(c, p) = &a[0] {
                    if p.is_empty() && !cells.contains(c) {
                        cells.push(*c)
                    }
                }
            }
        });
    }
    for v in snap.ghosts.values() {
        v.visit(&mut |x| {
            if let Val::T("dr", a) = x {
                if let Val::Ptr(c, _) = &a[0] {
                    if !cells.contains(c) {
                        cells.push(*c)
                    }
                }
            }
        });
    }
    for c in &cells {
        let v = f(&snap, &snap.cells[*c as usize]);
        st.cells[*c as usize] = v;
    }
    for fr in &snap.frames {
        for (l, c) in fr.locals.iter().enumerate() {
            if let Some(c) = c {
                if cells.contains(c) {
                    continue;
                }
                let v = typed(&st.cells[*c as usize].clone(), fr.body.tys[l], &mut |d| f(&snap, d));
                st.cells[*c as usize] = v;
            }
        }
    }
    if let (Some(v), Some(ty)) = (snap.ghosts.get("\u{1}ret"), snap.ret_ty) {
        let nv = typed(v, ty, &mut |d| f(&snap, d));
        st.set("\u{1}ret", nv);
    }
}

/// The kind of a form matters no more when its head was looked up or when it
/// is an operand.
fn forget_kinds(st: &mut State) {
    let mut past = vec![];
    let mut of = |v: &Val| {
        v.visit(&mut |x| {
            if let Val::T("form", a) = x {
                if a.len() == 2 && !past.contains(x) {
                    past.push(x.clone());
                }
            }
        })
    };
    for f in sp(st) {
        if let Fr::Nest { op, looked, forms, .. } = f {
            forms.iter().for_each(&mut of);
            if looked {
                of(&op);
            }
        }
    }
    for x in past {
        let id = x.targs("form").unwrap()[0].clone();
        st.memo.remove(&Val::T("variant", vec![x.clone()]));
        st.replace(&x, &Val::T("form", vec![id]));
    }
}

fn fold(st: &mut State) {
    if !failed(st) {
        let mut fr = sp(st);
        if settle(st, &mut fr, false).is_ok() {
            set_sp(st, &fr);
        }
        // The end of the source inside a nest leaves one outcome.
        if st.g("nxt").tag() == "eof"
            && fr.iter().any(|f| matches!(f, Fr::Nest { .. }))
            && !matches!(fr.last(), Some(Fr::Nest { phase: Phase::Call, .. }))
        {
            fail(st, Val::T("missing", vec![]));
        } else if let (Some(Val::Agg(1, _)), Some("Result")) =
            (st.ghosts.get("\u{1}ret"), st.ret_ty.map(adt_name).as_deref())
        {
            // An error although nothing has failed.
            let called = !matches!(fr.last(), Some(Fr::Nest { phase: Phase::Call, .. }));
            fail(st, Val::T(if called { "spurious" } else { "uncalled" }, vec![]));
        }
    }
    for _ in 0..8 {
        forget_kinds(st);
        let reach = st.gc();
        let before = (st.cells.clone(), st.ghosts.clone());
        // Forms that the specification has completed and the code has built.
        let mut closed: Vec<Val> = vec![];
        st.g("sp").visit(&mut |v| {
            if let Val::T("ftext" | "fcomb" | "fempty" | "fextra", _) = v {
                closed.push(v.clone())
            }
        });
        closed.sort();
        closed.dedup();
        for x in closed {
            let mut hit = false;
            each_datum(&mut st.clone(), &reach, &mut |s, v| {
                hit |= denote(s, v, 40).as_ref() == Some(&x);
                v.clone()
            });
            if !hit {
                continue;
            }
            let k = match x.tag() {
                "ftext" => 0,
                "fcomb" => 1,
                "fempty" => 2,
                _ => 5,
            };
            let t = Val::T("form", vec![st.new_id(), int(k)]);
            each_datum(st, &reach, &mut |s, v| {
                if denote(s, v, 40).as_ref() == Some(&x) { t.clone() } else { v.clone() }
            });
            let g = st.g("sp").map(&mut |v| if v == x { t.clone() } else { v });
            st.set("sp", g);
            break;
        }
        // List cells whose element is settled, and chains of them.
        let reach = st.gc();
        let once = |r: &Val| dr_cell(r).filter(|c| reach.get(c) == Some(&1));
        each_datum(st, &reach, &mut |s, v| match v {
            Val::Agg(3, f) if f.len() == 2 => match once(&f[0]).map(|c| &s.cells[c as usize]) {
                Some(x @ Val::T("form", _)) => {
                    Val::T("lseg", vec![Val::T("fseq", vec![x.clone()]), f[1].clone()])
                }
                _ => v.clone(),
            },
            Val::T("lseg", a) => match once(&a[1]).map(|c| &s.cells[c as usize]) {
                Some(Val::T("lseg", b)) => {
                    let mut q = a[0].targs("fseq").unwrap().to_vec();
                    q.extend(b[0].targs("fseq").unwrap().iter().cloned());
                    Val::T("lseg", vec![Val::T("fseq", q), b[1].clone()])
                }
                _ => v.clone(),
            },
            _ => v.clone(),
        });
        // Equal sequences of forms become one.
        let reach = st.gc();
        let mut seqs: BTreeMap<Val, usize> = BTreeMap::new();
        each_val(st, &reach, &mut |v| {
            v.visit(&mut |x| {
                if let Val::T("fseq", a) = x {
                    if a.len() >= 2 {
                        *seqs.entry(x.clone()).or_default() += 1;
                    }
                }
            });
            v.clone()
        });
        for (s, n) in seqs {
            let len = s.targs("fseq").unwrap().len();
            if n >= 2 {
                let z = Val::T("fseq", vec![Val::T("fs", vec![st.new_id()])]);
                each_val(st, &reach, &mut |v| v.map(&mut |x| if x == s { z.clone() } else { x }));
            } else if len > 6 {
                let z = Val::T("fseq", vec![Val::T("lost", vec![])]);
                each_val(st, &reach, &mut |v| v.map(&mut |x| if x == s { z.clone() } else { x }));
            }
        }
        fold_pairs(st, &reach);
        if (&st.cells, &st.ghosts) == (&before.0, &before.1) {
            break;
        }
    }
}

/// Adjacent characters that are adjacent wherever they occur become one piece.
fn fold_pairs(st: &mut State, reach: &BTreeMap<CellId, usize>) {
    loop {
        // Symbol -> (occurrences in sequences, elsewhere, its neighbours)
        let mut inseq: BTreeMap<SymId, (usize, Option<Option<SymId>>, Option<Option<SymId>>, bool)> =
            BTreeMap::new();
        let mut total: BTreeMap<SymId, usize> = BTreeMap::new();
        each_val(st, reach, &mut |v| {
            v.visit(&mut |x| match x {
                Val::Sym(s) => *total.entry(*s).or_default() += 1,
                Val::T("seq", a) => {
                    let id = |i: Option<&Val>| match i {
                        Some(Val::Sym(s)) => Some(*s),
                        _ => None,
                    };
                    for (i, y) in a.iter().enumerate() {
                        if let Val::Sym(s) = y {
                            let prev = if i > 0 { id(a.get(i - 1)) } else { None };
                            let next = id(a.get(i + 1));
                            let e = inseq.entry(*s).or_insert((0, None, None, true));
                            e.0 += 1;
                            if *e.1.get_or_insert(prev) != prev {
                                e.1 = Some(None);
                            }
                            if *e.2.get_or_insert(next) != next {
                                e.2 = Some(None);
                            }
                        }
                    }
                }
                _ => {}
            });
            v.clone()
        });
        for (s, e) in inseq.iter_mut() {
            e.3 = total.get(s) == Some(&e.0);
            if e.3 {
                st.attrs.remove(s);
            }
        }
        let pair = inseq.iter().find_map(|(s, e)| {
            let Some(Some(n)) = e.2 else { return None };
            let f = inseq.get(&n)?;
            (e.3 && f.3 && *s != n && f.1 == Some(Some(*s))).then_some((*s, n))
        });
        let Some((x, y)) = pair else { break };
        let z = st.new_id();
        each_val(st, reach, &mut |v| {
            v.map(&mut |t| match t {
                Val::T("seq", a) => {
                    let mut o = vec![];
                    let mut i = 0;
                    while i < a.len() {
                        if a[i] == Val::Sym(x) && a.get(i + 1) == Some(&Val::Sym(y)) {
                            o.push(z.clone());
                            i += 2;
                        } else {
                            o.push(a[i].clone());
                            i += 1;
                        }
                    }
                    Val::T("seq", o)
                }
                t => t,
            })
        });
    }
    each_val(st, reach, &mut |v| {
        v.map(&mut |t| match t {
            Val::T("seq", a) if a.len() > 9 => Val::T("seq", vec![Val::T("lost", vec![])]),
            t => t,
        })
    });
}

// ---- Running ---------------------------------------------------------------

fn fresh_step(st: &mut State) {
    st.ghosts.remove("fail");
    set_sp(st, &[Fr::Top(None)]);
}

/// Judges what a step returned.
fn judge(e: &mut Engine, st: &mut State, ret: &Val, ret_ty: Ty) -> R<()> {
    let rt = ty_args(ret_ty)[0];
    let ety = ty_args(rt)[1];
    let is_err = |vn: &str, payload: Option<&Val>| -> bool {
        let Val::Agg(1, x) = ret else { return false };
        let Val::Agg(1, y) = &x[0] else { return false };
        let Val::Agg(i, z) = &y[0] else { return false };
        variant(ety, vn) == Some(*i) && payload.map_or(true, |p| z.first() == Some(p))
    };
    if failed(st) {
        let f = st.g("fail");
        let (rule, good, what): (&'static str, bool, &str) = match &f {
            Val::T("unbalanced", a) => {
                let Val::Sym(s) = a[0] else { return unknown("position") };
                ("unbalanced-end", is_err("UnbalancedEndChar", Some(&pos(s))),
                 "an unbalanced-end error with that character's position")
            }
            Val::T("missing", _) => (
                "missing-end",
                is_err("MissingEndChar", None),
                "a missing-end error, as the source ended inside a nest",
            ),
            Val::T("alloc", a) => {
                ("failure-reported", is_err("FailedAlloc", Some(&a[0])), "the allocation failure")
            }
            Val::T("mutfail", _) => {
                ("failure-reported", is_err("FailedDerefTryMut", None), "the mutable-access failure")
            }
            Val::T("comb", a) => (
                "failure-reported",
                *ret == some(err(a[0].clone())),
                "the combiner's error",
            ),
            Val::T("uncalled", _) => {
                ("combiner-called", false, "a call of the combiner of the completed nest")
            }
            Val::T("spurious", _) => ("no-spurious-error", false, "no error"),
            _ => return unknown("failure"),
        };
        e.reach(st, format!("returns failure {}", f.tag()));
        e.check(st, rule, good, || format!("expected {what}, returns {ret:?}"))?;
        return Ok(());
    }
    let mut fr = sp(st);
    settle(st, &mut fr, true)?;
    let in_nest = fr.len() > 1 && !depth0(&fr);
    if in_nest {
        if let Some(Fr::Nest { phase: Phase::Call, .. }) = fr.last() {
            e.check(st, "combiner-called", false, || {
                format!("returns {ret:?} without having called the combiner of a completed nest")
            })?;
        }
        let eof = look(st)?.is_none();
        e.check(st, "nest-complete", eof, || {
            format!("returns {ret:?} inside a nest although the source has not ended")
        })?;
        e.reach(st, "returns missing end");
        return e.check(st, "missing-end", is_err("MissingEndChar", None), || {
            format!("the source ended inside a nest: expected a missing-end error, returns {ret:?}")
        });
    }
    match fr.last() {
        Some(Fr::Top(None)) => {
            let eof = look(st)?.is_none();
            e.check(st, "end-of-source", eof, || {
                format!("returns {ret:?} although there is more source and no form was completed")
            })?;
            e.reach(st, "returns end");
            e.check(st, "end-of-source", *ret == none(), || {
                format!("the source ended outside all nests: expected the end, returns {ret:?}")
            })
        }
        Some(Fr::Top(Some(want))) => {
            let want = want.clone();
            e.reach(st, format!("returns {}", want.tag()));
            match ret {
                Val::Agg(1, x) => match &x[0] {
                    Val::Agg(0, d) => {
                        let got = denote(st, &d[0], 60);
                        same_form(e, st, "result-tree", "another form is returned", &want, &got)
                    }
                    x => e.check(st, "no-spurious-error", false, || {
                        format!("nothing failed but returns {x:?}")
                    }),
                },
                _ => e.check(st, "result-returned", false, || {
                    format!("a form was completed but returns {ret:?}")
                }),
            }
        }
        Some(Fr::Txt { .. }) => {
            e.check(st, "text-complete", false, || {
                format!("returns {ret:?} in the middle of a text")
            })
        }
        f => unknown(format!("specification state {f:?} at a return")),
    }
}

pub fn run() -> Vec<Done> {
    let tg = Tg;
    let mut e = Engine::new(&tg, "parser");
    let start = entry("entry_parse_start");
    let next = entry("entry_parse_next");
    let b = e.body(start).unwrap();
    let (pty, sty) = (ty_args(b.tys[1])[0], b.tys[2]);
    let mut st = State::new();
    let p = st.alloc(inhabit(pty));
    st.set("pend", Val::T("seq", vec![]));
    fresh_step(&mut st);
    let outs = e.run_call(st, start, vec![p, inhabit(sty)]);
    let mut seen = Seen::default();
    let mut work = vec![];
    for mut o in outs {
        let it = o.ret.clone();
        let c = o.st.alloc(it);
        o.st.set("it", c);
        if seen.add(&mut o.st) {
            work.push(o.st);
        }
    }
    e.phase = "first step";
    while let Some(st) = work.pop() {
        let it = st.g("it");
        for o in e.run_call(st, next, vec![it]) {
            let mut s = o.st;
            fresh_step(&mut s);
            fold(&mut s);
            if seen.add(&mut s) {
                work.push(s);
            }
        }
        e.phase = "later step";
    }
    vec![Done::of(e)]
}
