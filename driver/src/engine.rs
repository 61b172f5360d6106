//! The abstract interpreter over monomorphic MIR.

use crate::body::BodyInfo;
use crate::facts::Facts;
use crate::models;
use crate::slices;
use crate::state::*;
use crate::val::*;
use rustc_public::abi::{FieldsShape, Primitive, Scalar, TagEncoding, VariantsShape};
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::CrateDef;
use rustc_public::CrateDefType;
use rustc_public_bridge::IndexedVal;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::rc::Rc;

pub enum Act {
    /// The call returns this value.
    Ret(Val),
    /// This instance is run instead, and its result is the call's result.
    Call(Instance, Vec<Val>),
    /// Not modelled: run the body.
    Body,
}

pub struct CallCx {
    pub inst: Instance,
    pub name: String,
    pub ret_ty: Ty,
    pub arg_tys: Vec<Ty>,
}

/// What a family of checks provides: the meaning of the abstract leaf types
/// and the specification.
pub trait Target {
    fn stub(&self, eng: &mut Engine, st: &mut State, name: &str, args: &[Val], cx: &CallCx)
        -> R<Val>;
    fn virt(&self, _e: &mut Engine, _st: &mut State, _args: &[Val], cx: &CallCx) -> R<Val> {
        unknown(format!("virtual call {}", cx.name))
    }
    /// Replaces or supplements the standard models.
    fn model(
        &self,
        _e: &mut Engine,
        _st: &mut State,
        _name: &str,
        _args: &[Val],
        _cx: &CallCx,
    ) -> R<Act> {
        Ok(Act::Body)
    }
    /// Handles the drop of a place itself, if it returns true.
    fn on_drop(&self, _e: &mut Engine, _st: &mut State, _ty: Ty, _p: &Val) -> R<bool> {
        Ok(false)
    }
    /// A comparison of values that are not integers.
    fn cmp(&self, _e: &mut Engine, _st: &mut State, _op: BinOp, _a: &Val, _b: &Val)
        -> R<Option<bool>> {
        Ok(None)
    }
    /// The order of values that are not integers.
    fn order(&self, _st: &mut State, _a: &Val, _b: &Val) -> R<Option<std::cmp::Ordering>> {
        Ok(None)
    }
    /// An element of a symbolic slice.
    fn elem(&self, _e: &mut Engine, _st: &mut State, base: &Val, _i: &Lin) -> R<Val> {
        unknown(format!("element of {base:?}"))
    }
    /// Dereference of a symbolic pointer.
    fn deref(&self, _e: &mut Engine, _st: &mut State, v: &Val) -> R<Val> {
        unknown(format!("dereference of {v:?}"))
    }
    /// Target-specific simplification before states are compared.
    fn fold(&self, _st: &mut State) {}
    fn summary_enter(&self, _st: &mut State) -> Val {
        Val::Uninit
    }
    fn summary_exit(&self, _st: &mut State, _saved: Val) -> R<()> {
        Ok(())
    }
    /// The specification of what an analysed operation returns.
    fn judge(&self, _e: &mut Engine, _st: &mut State, _ret: &Val) -> R<()> {
        Ok(())
    }
    /// The variant of a value that otherwise stays opaque.
    fn variant(&self, _st: &mut State, _v: &Val, _ty: Ty) -> R<Option<u32>> {
        Ok(None)
    }
    /// Gives an opaque value of an enumeration one of its variants.
    fn expand(&self, _e: &mut Engine, _st: &mut State, v: &Val, _ty: Ty) -> R<Val> {
        unknown(format!("discriminant of {v:?}"))
    }
    /// Functions that are analysed once per abstract entry state.
    fn summarise(&self, _name: &str) -> bool {
        false
    }
}

pub struct Outcome {
    pub st: State,
    pub ret: Val,
}

struct Susp {
    ctx: usize,
    st: State,
    orig: Vec<Val>,
    saved: Val,
}

struct Ctx {
    exits: Vec<(State, Val)>,
    exit_keys: HashMap<(Key, Val), Vec<Facts>>,
    callers: Vec<Susp>,
    node: usize,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Violation {
    pub target: String,
    pub rule: &'static str,
    pub func: String,
    pub detail: String,
    pub site: String,
    pub trace: Vec<String>,
    /// The stage of the history in which it happens.
    pub phase: &'static str,
}

#[derive(Default)]
pub struct Report {
    pub violations: Vec<Violation>,
    pub unknowns: BTreeMap<String, usize>,
    pub checks: BTreeMap<&'static str, usize>,
    pub check_sites: BTreeSet<(&'static str, String)>,
    pub funcs: BTreeSet<(String, String)>,
    pub call_sites: BTreeSet<String>,
    pub panic_sites: BTreeSet<String>,
    pub reach: BTreeMap<String, usize>,
    pub notes: BTreeSet<String>,
    pub states: usize,
    pub steps: usize,
    pub paths: usize,
    pub forks: usize,
    pub asserts: BTreeSet<String>,
    pub loops: BTreeSet<String>,
}

/// A way from one loop head to the next.
#[derive(Default)]
struct Edge {
    /// Nothing is changed.
    same: bool,
    /// No state leaves it and nothing is consumed.
    forced: bool,
    /// Nothing is consumed.
    still: bool,
}

pub struct Engine<'t> {
    pub target: &'t dyn Target,
    pub tname: String,
    pub bodies: HashMap<Instance, Option<Rc<BodyInfo>>>,
    pub nbody: usize,
    pub fns: Vec<Instance>,
    pub rep: Report,
    ctxs: Vec<Ctx>,
    ctx_index: HashMap<(Key, Vec<Lin>), usize>,
    /// Pending paths by the number of loop heads passed, shortest first.
    work: BTreeMap<u32, Vec<(usize, State)>>,
    nwork: usize,
    first_violation: Option<(usize, usize, u64)>,
    top: HashSet<usize>,
    judged: Vec<(State, Val)>,
    visited: HashMap<(usize, Key), Vec<(Facts, usize)>>,
    nodes: Vec<String>,
    /// Nodes that stand for a state about which nothing was given up.
    real: HashSet<usize>,
    /// Ways between nodes that may go on for ever.
    edges: HashMap<(usize, usize), Edge>,
    pub max_states: usize,
    pub max_steps: usize,
    pub max_secs: u64,
    /// The limit for this analysis alone.
    pub max_own_secs: u64,
    /// States of one analysed operation, after which its further paths are
    /// left undecided.
    pub max_call: usize,
    call_end: usize,
    began: u64,
    pub exhausted: bool,
    pub panics_ok: bool,
    pub phase: &'static str,
    pub debug: bool,
    pub dbg_every: usize,
    names: HashMap<Instance, String>,
}

enum Loc {
    Mem(CellId, Vec<u32>, u32),
    /// A dereferenced fat pointer to something that has no cell.
    Fat(Val),
}

/// Seconds since the analysis began.
fn since_start() -> u64 {
    static START: std::sync::OnceLock<std::time::Instant> = std::sync::OnceLock::new();
    START.get_or_init(std::time::Instant::now).elapsed().as_secs()
}

/// The resident memory of this process.
fn rss_mb() -> usize {
    let s = std::fs::read_to_string("/proc/self/statm").unwrap_or_default();
    s.split(' ').nth(1).and_then(|x| x.parse::<usize>().ok()).unwrap_or(0) / 256
}

pub fn def_name(i: &Instance) -> String {
    i.def.name()
}

impl<'t> Engine<'t> {
    pub fn new(target: &'t dyn Target, tname: &str) -> Engine<'t> {
        Engine {
            target,
            tname: tname.into(),
            bodies: HashMap::new(),
            nbody: 0,
            fns: vec![],
            rep: Report::default(),
            ctxs: vec![],
            ctx_index: HashMap::new(),
            work: BTreeMap::new(),
            nwork: 0,
            first_violation: None,
            top: HashSet::new(),
            judged: vec![],
            visited: HashMap::new(),
            nodes: vec![],
            real: HashSet::new(),
            edges: HashMap::new(),
            max_states: 60_000,
            max_steps: 60_000_000,
            max_secs: 500,
            max_own_secs: 250,
            max_call: usize::MAX,
            call_end: usize::MAX,
            began: since_start(),
            exhausted: false,
            panics_ok: false,
            phase: "",
            debug: std::env::var_os("KULV_DEBUG").is_some(),
            dbg_every: std::env::var("KULV_EVERY").ok().and_then(|s| s.parse().ok()).unwrap_or(200),
            names: HashMap::new(),
        }
    }

    pub fn fn_id(&mut self, i: Instance) -> Val {
        let p = self.fns.iter().position(|x| *x == i).unwrap_or_else(|| {
            self.fns.push(i);
            self.fns.len() - 1
        });
        Val::Fn(p as u32)
    }

    pub fn inst_name(&mut self, i: Instance) -> String {
        self.names.entry(i).or_insert_with(|| def_name(&i)).clone()
    }

    pub fn body(&mut self, i: Instance) -> Option<Rc<BodyInfo>> {
        if let Some(b) = self.bodies.get(&i) {
            return b.clone();
        }
        let id = self.nbody;
        self.nbody += 1;
        let b = i.body().map(|b| {
            let name = i.name();
            let krate = i.def.krate().name;
            Rc::new(BodyInfo::new(id, i, name, krate, b))
        });
        self.bodies.insert(i, b.clone());
        b
    }

    /// The innermost function of the analysed crates on the stack.
    pub fn site(&self, st: &State) -> (String, String) {
        for fr in st.frames.iter().rev() {
            if is_repo(&fr.body.krate) {
                let blk = &fr.body.body.blocks[fr.bb];
                let span = if fr.stmt < blk.statements.len() {
                    blk.statements[fr.stmt].source_info.span
                } else {
                    blk.terminator.source_info.span
                };
                // For callers `bb` is already the return block: the spans are
                // close enough for a report.
                let l = span.get_lines();
                return (fr.body.name.clone(), format!("{}:{}", fname(&span), l.start_line));
            }
        }
        match &st.last_fn {
            Some(f) => (**f).clone(),
            None => ("(interface)".into(), String::new()),
        }
    }

    /// States an obligation. Returns Err(Halt) if it fails.
    pub fn check(
        &mut self,
        st: &mut State,
        rule: &'static str,
        good: bool,
        detail: impl FnOnce() -> String,
    ) -> R<()> {
        let (func, site) = self.site(st);
        if good {
            st.log.push(LogEv::Check { rule, site: format!("{func} {site}") });
            Ok(())
        } else {
            if let Some(why) = &st.imprecise {
                if self.debug {
                    dlog!("NOT DECIDED {rule} {} {:?} {:?}", detail(), st.ghosts, st.facts.ge);
                }
                return unknown(format!("{rule} not decided: {why}"));
            }
            let d = detail();
            if let Some(m) = tainted(&d) {
                return unknown(format!("{rule} not decided: {m}"));
            }
            st.log.push(LogEv::Violation { rule, func, site, detail: d });
            Err(Stop::Halt)
        }
    }

    /// States that two values are equal. If neither that nor the opposite
    /// follows the path is not decided.
    pub fn agree(&mut self, st: &mut State, rule: &'static str, got: &Val, want: &Val, what: &str) -> R<()> {
        // Where nothing was given up the facts are all there is to know.
        let sure = st.exact && st.imprecise.is_none() && st.may_differ(got, want);
        if !sure && !st.same(got, want) && !st.differ(got, want) {
            return unknown(format!("{rule} not decided: {what} is {got:?}, for {want:?}"));
        }
        self.check(st, rule, st.same(got, want), || {
            format!("{what} is {got:?} instead of {want:?}")
        })
    }

    /// An obligation about the outcome of a whole operation.
    pub fn conclude(
        &mut self,
        st: &mut State,
        rule: &'static str,
        good: bool,
        detail: impl FnOnce() -> String,
    ) -> bool {
        let r = self.check(st, rule, good, detail);
        match r {
            Ok(()) => self.flush(st),
            Err(e) => self.stopped(st, e),
        }
        good
    }

    /// Ends the exploration.
    pub fn give_up(&mut self, why: &str) {
        if !self.exhausted {
            self.exhausted = true;
            *self.rep.unknowns.entry(why.into()).or_default() += 1;
        }
    }

    pub fn flush(&mut self, st: &mut State) {
        for e in std::mem::take(&mut st.log) {
            match e {
                LogEv::Check { rule, site } => {
                    *self.rep.checks.entry(rule).or_default() += 1;
                    self.rep.check_sites.insert((rule, site));
                }
                LogEv::Violation { rule, func, site, detail } => {
                    if self.debug {
                        crate::dlog!("VIOLATION {rule} {detail} ghosts {:?} facts {:?} cells {:?}", st.ghosts, st.facts.ge, st.cells);
                    }
                    let v = Violation {
                        target: self.tname.clone(),
                        rule,
                        func,
                        detail,
                        site,
                        trace: st.trace_tail(24),
                        phase: self.phase,
                    };
                    if self.rep.violations.len() < 40
                        && !self
                            .rep
                            .violations
                            .iter()
                            .any(|w| w.rule == v.rule && w.func == v.func && w.phase == v.phase)
                    {
                        self.rep.violations.push(v);
                        self.first_violation.get_or_insert((self.rep.states, self.rep.steps, since_start()));
                    }
                }
                LogEv::Note(s) => {
                    self.rep.notes.insert(s);
                }
                LogEv::Reach(s) => *self.rep.reach.entry(s).or_default() += 1,
            }
        }
    }

    pub fn reach(&self, st: &mut State, s: impl Into<String>) {
        st.log.push(LogEv::Reach(s.into()));
    }

    // ---- Running -------------------------------------------------------

    fn new_node(&mut self, s: String) -> usize {
        self.nodes.push(s);
        self.nodes.len() - 1
    }

    /// Runs a call to completion from a state without frames.
    pub fn run_call(&mut self, mut st: State, inst: Instance, args: Vec<Val>) -> Vec<Outcome> {
        let node = self.new_node(format!("call {}", inst.name()));
        self.ctxs.push(Ctx { exits: vec![], exit_keys: HashMap::new(), callers: vec![], node });
        let c = self.ctxs.len() - 1;
        self.top.insert(c);
        st.last_node = node;
        st.prog = false;
        st.outside = false;
        st.prog_total = false;
        st.depth = 0;
        st.choices.clear();
        st.cursor = 0;
        if let Err(e) = self.push_frame(&mut st, inst, args, None) {
            self.stopped(&mut st, e);
            return vec![];
        }
        self.call_end = self.max_call.saturating_add(self.rep.states);
        self.push_work(c, st);
        self.drain();
        self.ctxs[c].exits.clear();
        std::mem::take(&mut self.judged)
            .into_iter()
            .map(|(st, ret)| Outcome { st, ret })
            .collect()
    }

    fn push_work(&mut self, c: usize, st: State) {
        self.nwork += 1;
        self.work.entry(st.depth).or_default().push((c, st));
    }
    fn pop_work(&mut self) -> Option<(usize, State)> {
        let mut e = self.work.first_entry()?;
        let r = e.get_mut().pop();
        if e.get().is_empty() {
            e.remove();
        }
        self.nwork -= 1;
        r
    }

    fn drain(&mut self) {
        let mut n = 0;
        while let Some((c, st)) = self.pop_work() {
            n += 1;
            let out = if self.rep.states > self.max_states || self.rep.steps > self.max_steps {
                Some("state budget exhausted")
            } else if since_start() > self.max_secs.min(self.began + self.max_own_secs) {
                Some("time budget exhausted")
            } else if n % 256 == 0 && rss_mb() > 7_000 {
                Some("memory budget exhausted")
            } else if self.first_violation.is_some_and(|v| {
                self.rep.states > 2 * v.0 + 3_000
                    || self.rep.steps > 2 * v.1 + 5_000_000
                    || since_start() > v.2 + 40
            }) {
                Some("stopped after violations")
            } else {
                None
            };
            if let Some(why) = out {
                self.give_up(why);
            }
            let long = self.rep.states > self.call_end;
            if long {
                *self.rep.unknowns.entry("an operation that keeps growing".into()).or_default() += 1;
            }
            if self.exhausted || long {
                self.work.clear();
                self.nwork = 0;
                return;
            }
            if self.debug && self.dbg_every == 1 {
                let fr = st.frames.last().unwrap();
                crate::dlog!(
                    "path ctx {c} of {} depth {} steps {} choices {:?} at {}[{}] {}",
                    self.ctxs.len(),
                    st.frames.len(),
                    self.rep.steps,
                    st.choices,
                    fr.bb,
                    fr.stmt,
                    fr.body.name
                );
            }
            self.run_path(c, st);
        }
    }

    fn run_path(&mut self, c: usize, mut st: State) {
        'outer: loop {
            let check = st.clone();
            st.cursor = 0;
            for _ in 0..60 {
                // Loop heads: compare with what was seen before.
                let fr = st.frames.last().unwrap();
                if fr.stmt == 0 && fr.body.heads.contains(&fr.bb) && st.cursor == st.choices.len() {
                    st.choices.clear();
                    st.cursor = 0;
                    self.flush(&mut st);
                    if !self.arrive(c, &mut st) {
                        return;
                    }
                    let mut base = st.clone();
                    match self.step(c, &mut st) {
                        Ok(true) => {}
                        Ok(false) => return,
                        Err(Stop::Fork(n)) => {
                            // The head itself needs a choice: restart from it.
                            base.log.clear();
                            self.fork_from_head(c, base, n);
                            return;
                        }
                        Err(e) => {
                            self.stopped(&mut st, e);
                            return;
                        }
                    }
                    self.flush(&mut st);
                    continue 'outer;
                }
                self.rep.steps += 1;
                match self.step(c, &mut st) {
                    Ok(true) => {}
                    Ok(false) => {
                        return;
                    }
                    Err(Stop::Fork(n)) => {
                        self.rep.forks += 1;
                        for i in (0..n).rev() {
                            let mut s = check.clone();
                            s.choices = st.choices.clone();
                            s.choices.push(i);
                            self.push_work(c, s);
                        }
                        return;
                    }
                    Err(e) => {
                        self.stopped(&mut st, e);
                        return;
                    }
                }
            }
            if st.cursor == st.choices.len() {
                st.choices.clear();
                st.cursor = 0;
                self.flush(&mut st);
            } else {
                // Unconsumed choices belong to later steps of the same
                // checkpoint; keep going without a new checkpoint.
                let rest = st.choices.split_off(st.cursor);
                st.choices = rest;
                st.cursor = 0;
                self.flush(&mut st);
            }
        }
    }

    fn fork_from_head(&mut self, c: usize, base: State, n: usize) {
        // Step over the head with the choices made explicit, without
        // comparing again.
        let mut stack: Vec<Vec<usize>> = (0..n).rev().map(|i| vec![i]).collect();
        while let Some(ch) = stack.pop() {
            let mut s = base.clone();
            s.choices = ch.clone();
            s.cursor = 0;
            match self.step(c, &mut s) {
                Ok(true) => {
                    s.choices.clear();
                    s.cursor = 0;
                    self.flush(&mut s);
                    self.push_work(c, s);
                }
                Ok(false) => {}
                Err(Stop::Fork(m)) => {
                    for i in (0..m).rev() {
                        let mut k = ch.clone();
                        k.push(i);
                        stack.push(k);
                    }
                }
                Err(e) => self.stopped(&mut s, e),
            }
        }
    }

    pub fn stopped(&mut self, st: &mut State, e: Stop) {
        match e {
            Stop::Infeasible => {
                st.log.clear();
                return;
            }
            Stop::Halt => {}
            Stop::Panic(m) => {
                let (func, site) = self.site(st);
                self.rep.panic_sites.insert(format!("{func} {site}"));
                if !self.panics_ok {
                    if let Some(why) = st.imprecise.clone() {
                        *self
                            .rep
                            .unknowns
                            .entry(format!("possible panic in {func}: {m} (imprecise: {why})"))
                            .or_default() += 1;
                    } else {
                        st.log.push(LogEv::Violation { rule: "no-panic", func, site, detail: m });
                    }
                }
            }
            Stop::Unknown(m) => {
                let (func, site) = self.site(st);
                *self.rep.unknowns.entry(format!("{m} [in {func} {site}]")).or_default() += 1;
                if self.debug {
                    crate::dlog!("UNKNOWN {m} in {func} {site}");
                    for fr in st.frames.iter().rev().take(6) {
                        crate::dlog!("    {} bb{}[{}]", fr.body.name, fr.bb, fr.stmt);
                    }
                    for t in st.trace_tail(12) {
                        crate::dlog!("    . {t}");
                    }
                }
            }
            Stop::Fork(_) => unreachable!(),
        }
        self.rep.paths += 1;
        self.flush(st);
    }

    /// Canonicalises at a loop head. False if the state is covered already.
    fn arrive(&mut self, c: usize, st: &mut State) -> bool {
        let real = st.imprecise.is_none();
        self.target.fold(st);
        let mut key = st.canon(true);
        if st.gen > 0 && st.imprecise.is_some() {
            // Must not stand for what nothing was given up of.
            key.anchors.push(Val::Top);
        }
        let fr = st.frames.last().unwrap();
        if is_repo(&fr.body.krate) {
            self.rep.loops.insert(format!("{} bb{}", fr.body.name, fr.bb));
        }
        let label = || {
            let span = fr.body.body.blocks[fr.bb].terminator.source_info.span;
            format!("{} {}:{}", fr.body.name, fname(&span), span.get_lines().start_line)
        };
        if self.debug && self.dbg_every == 1 {
            crate::dlog!("AT {} ghosts {:?} facts {:?} locals {:?} cells {:?}", label(), st.ghosts, st.facts.ge, fr.locals, st.cells);
        }
        let ent = self.visited.entry((c, key)).or_default();
        for (f, node) in ent.iter() {
            if f.ge.iter().all(|l| st.facts.proves(l)) {
                let node = *node;
                self.edge(st, node);
                if real {
                    self.real.insert(node);
                }
                return false;
            }
        }
        if ent.len() >= 3 {
            // Join with the last one by keeping what both imply.
            if st.exact {
                st.imprecise.get_or_insert("relations were given up".into());
            }
            let last = ent.last().unwrap().0.clone();
            let mut j = Facts::default();
            for l in &last.ge {
                if st.facts.proves(l) {
                    j.ge.push(l.clone())
                }
            }
            for l in &st.facts.ge {
                if last.proves(l) && !j.ge.contains(l) {
                    j.ge.push(l.clone())
                }
            }
            j.normalise(2);
            st.facts = j;
        }
        self.rep.states += 1;
        st.depth += 1;
        if self.debug && self.rep.states % self.dbg_every == 0 {
            crate::dlog!(
                "{} states, {} work, {} cells, {} facts, {}",
                self.rep.states,
                self.nwork,
                st.cells.len(),
                st.facts.ge.len(),
                label()
            );
        }
        let l = label();
        self.nodes.push(l);
        let node = self.nodes.len() - 1;
        ent.push((st.facts.clone(), node));
        self.edge(st, node);
        if real {
            self.real.insert(node);
        }
        st.last_node = node;
        st.prog = false;
        st.outside = false;
        st.forced = true;
        true
    }
    fn edge(&mut self, st: &State, node: usize) {
        let same = st.unchanged && !st.outside && st.imprecise.is_none();
        if st.last_node != usize::MAX && (same || !st.prog) {
            let e = self.edges.entry((st.last_node, node)).or_default();
            e.same |= same;
            e.forced |= !st.prog && st.forced;
            e.still |= !st.prog;
        }
    }

    /// A cycle along which nothing is consumed and which is certainly taken, if
    /// there is any: nothing changes along it, or no state leaves it.
    pub fn stuck_cycle(&self) -> Option<Vec<String>> {
        self.cycle(|x| x.same, |_| true)
            .or_else(|| self.cycle(|x| x.forced, |n| self.real.contains(&n)))
    }
    /// A cycle along which nothing is consumed, if there is any.
    pub fn possible_cycle(&self) -> Option<Vec<String>> {
        self.cycle(|x| x.still, |_| true)
    }
    fn cycle(
        &self,
        edge: impl Fn(&Edge) -> bool,
        node: impl Fn(usize) -> bool,
    ) -> Option<Vec<String>> {
        let mut adj: HashMap<usize, Vec<usize>> = HashMap::new();
        for ((a, b), x) in &self.edges {
            if edge(x) {
                adj.entry(*a).or_default().push(*b);
            }
        }
        for v in adj.values_mut() {
            v.sort();
        }
        let mut color: HashMap<usize, u8> = HashMap::new();
        let mut starts: Vec<usize> = adj.keys().copied().collect();
        starts.sort();
        for s in starts {
            if color.contains_key(&s) {
                continue;
            }
            let mut stack: Vec<(usize, usize)> = vec![(s, 0)];
            color.insert(s, 1);
            while let Some((n, i)) = stack.last_mut() {
                let next = adj.get(n).and_then(|v| v.get(*i)).copied();
                *i += 1;
                match next {
                    None => {
                        color.insert(*n, 2);
                        stack.pop();
                    }
                    Some(m) => match color.get(&m) {
                        None => {
                            color.insert(m, 1);
                            stack.push((m, 0));
                        }
                        Some(1) => {
                            let p = stack.iter().position(|x| x.0 == m).unwrap();
                            if !stack[p..].iter().any(|x| node(x.0)) {
                                continue;
                            }
                            return Some(
                                stack[p..].iter().map(|x| self.nodes[x.0].clone()).collect(),
                            );
                        }
                        _ => {}
                    },
                }
            }
        }
        None
    }
    pub fn edge_count(&self) -> (usize, usize) {
        (self.nodes.len(), self.edges.values().filter(|x| x.still).count())
    }

    // ---- Summaries -----------------------------------------------------

    fn summary_call(
        &mut self,
        c: usize,
        st: &mut State,
        inst: Instance,
        args: Vec<Val>,
        dest: Place,
    ) -> R<bool> {
        // The callee's view.
        let mut cal = st.clone();
        cal.frames.clear();
        cal.log.clear();
        cal.choices.clear();
        cal.cursor = 0;
        cal.anchors.clear();
        // Shallow calls first, so that their results are judged even if the
        // recursion has no end.
        cal.depth += 1;
        let saved = self.target.summary_enter(&mut cal);
        self.push_frame(&mut cal, inst, args, None)?;
        // Everything reachable is an anchor.
        let ncaller = st.cells.len() as u32;
        let mut seen: BTreeSet<CellId> = BTreeSet::new();
        let mut order: Vec<CellId> = vec![];
        let mut ints: Vec<Val> = vec![];
        let mut q: Vec<Val> = vec![];
        for l in cal.frames[0].locals.iter().flatten() {
            q.push(cal.cells[*l as usize].clone());
        }
        q.extend(cal.ghosts.values().cloned());
        let mut i = 0;
        while i < q.len() {
            let v = q[i].clone();
            i += 1;
            v.visit(&mut |x| match x {
                Val::Ptr(p, _) => {
                    if seen.insert(*p) {
                        order.push(*p);
                        q.push(cal.cells[*p as usize].clone());
                    }
                }
                Val::Int(_) | Val::Sym(_) => {
                    if !ints.contains(x) {
                        ints.push(x.clone())
                    }
                }
                _ => {}
            });
        }
        let mut orig: Vec<Val> = vec![];
        for p in order {
            if p < ncaller {
                orig.push(ptr(p));
            }
        }
        // Constants held in memory are generalised so that the depth of the
        // recursion does not matter.
        let mut gen: BTreeMap<i128, SymId> = BTreeMap::new();
        let mut gv = |v: &Val, cal_next: &mut SymId| {
            v.map(&mut |x| match &x {
                Val::Int(l) if l.is_const() && l.c >= 1 => {
                    let s = *gen.entry(l.c).or_insert_with(|| {
                        *cal_next += 1;
                        *cal_next - 1
                    });
                    isym(s)
                }
                _ => x,
            })
        };
        let mut next = cal.next_sym;
        let cells: Vec<Val> = cal.cells.iter().map(|v| gv(v, &mut next)).collect();
        let ghosts: BTreeMap<&'static str, Val> =
            cal.ghosts.iter().map(|(k, v)| (*k, gv(v, &mut next))).collect();
        let callee_ints: Vec<Val> = ints.iter().map(|v| gv(v, &mut next)).collect();
        cal.cells = cells;
        cal.ghosts = ghosts;
        cal.next_sym = next;
        for s in gen.values() {
            cal.facts.ge.push(Lin::s(*s).plus(-1));
        }
        cal.anchors = orig.clone();
        cal.anchors.extend(callee_ints);
        orig.extend(ints);
        self.target.fold(&mut cal);
        let key = cal.canon(true);
        let fkey = cal.facts.ge.clone();
        let d = match self.ctx_index.get(&(key.clone(), fkey.clone())) {
            Some(d) => *d,
            None => {
                let node = self.new_node(format!("call {}", cal.frames[0].body.name));
                self.ctxs.push(Ctx {
                    exits: vec![],
                    exit_keys: HashMap::new(),
                    callers: vec![],
                    node,
                });
                let d = self.ctxs.len() - 1;
                self.ctx_index.insert((key, fkey), d);
                self.rep.states += 1;
                cal.last_node = node;
                cal.prog = false;
                cal.outside = false;
                cal.prog_total = false;
                cal.trace = st.trace.clone();
                self.push_work(d, cal);
                d
            }
        };
        if st.last_node != usize::MAX && !st.prog {
            let x = Edge { same: st.imprecise.is_none(), forced: false, still: true };
            self.edges.insert((st.last_node, self.ctxs[d].node), x);
        }
        let mut sst = st.clone();
        sst.choices.clear();
        sst.cursor = 0;
        let mut log = std::mem::take(&mut sst.log);
        // What happened up to here is committed now.
        std::mem::swap(&mut st.log, &mut log);
        self.flush(st);
        // Remember where the result goes.
        sst.frames.last_mut().unwrap().dest_pending(dest);
        let susp = Susp { ctx: c, st: sst, orig, saved };
        let exits: Vec<(State, Val)> = self.ctxs[d].exits.clone();
        for (e, r) in exits {
            self.resume(&susp, e, r);
        }
        self.ctxs[d].callers.push(susp);
        Ok(false)
    }

    fn resume(&mut self, s: &Susp, e: State, ret: Val) {
        let mut st = s.st.clone();
        let r = self.resume_(&mut st, s, e, ret);
        match r {
            Ok(()) => self.push_work(s.ctx, st),
            Err(Stop::Infeasible) => {}
            Err(x) => self.stopped(&mut st, x),
        }
    }

    fn resume_(&mut self, st: &mut State, s: &Susp, e: State, ret: Val) -> R<()> {
        let base = st.next_sym;
        st.next_sym += e.next_sym;
        let mut symmap: HashMap<SymId, SymId> = HashMap::new();
        let mut cellmap: HashMap<CellId, CellId> = HashMap::new();
        for (a, o) in e.anchors.iter().zip(&s.orig) {
            match (a, o) {
                (Val::Ptr(a, _), Val::Ptr(o, _)) => {
                    cellmap.insert(*a, *o);
                }
                (Val::Sym(a), Val::Sym(o)) => {
                    symmap.insert(*a, *o);
                }
                _ => {}
            }
        }
        for c in 0..e.cells.len() as CellId {
            if !cellmap.contains_key(&c) {
                let n = st.new_cell(Val::Uninit);
                cellmap.insert(c, n);
            }
        }
        let mut rs = |x: SymId| *symmap.get(&x).unwrap_or(&(base + x));
        let mut imp = |v: &Val| {
            v.map(&mut |v| match v {
                Val::Int(l) => Val::Int(l.rename(&mut rs)),
                Val::Sym(x) => Val::Sym(rs(x)),
                Val::Ptr(c, p) => Val::Ptr(cellmap[&c], p),
                o => o,
            })
        };
        for (c, v) in e.cells.iter().enumerate() {
            let nv = imp(v);
            st.cells[cellmap[&(c as CellId)] as usize] = nv;
        }
        st.ghosts = e.ghosts.iter().map(|(k, v)| (*k, imp(v))).collect();
        let memo: Vec<(Val, Val)> = e.memo.iter().map(|(k, v)| (imp(k), imp(v))).collect();
        st.memo.extend(memo);
        let ret = imp(&ret);
        let eanch: Vec<Val> = e.anchors.iter().map(|v| imp(v)).collect();
        for (k, m) in &e.attrs {
            let nm: BTreeMap<&'static str, Val> = m.iter().map(|(a, b)| (*a, imp(b))).collect();
            let k2 = *symmap.get(k).unwrap_or(&(base + *k));
            st.attrs.insert(k2, nm);
        }
        for l in &e.facts.ge {
            let l2 = l.rename(&mut |x| *symmap.get(&x).unwrap_or(&(base + x)));
            st.assume_ge(&l2)?;
        }
        for (a, o) in eanch.iter().zip(&s.orig) {
            if let (Val::Int(_), Val::Int(_)) = (a, o) {
                // Both sides may have been rewritten by earlier equalities.
                st.anchors.push(a.clone());
                st.anchors.push(o.clone());
            }
        }
        let ka = eanch
            .iter()
            .zip(&s.orig)
            .filter(|(a, o)| matches!((a, o), (Val::Int(_), Val::Int(_))))
            .count();
        let start = st.anchors.len() - 2 * ka;
        st.ghosts.insert("\u{1}ret", ret);
        for i in 0..ka {
            let (a, o) = (st.anchors[start + 2 * i].clone(), st.anchors[start + 2 * i + 1].clone());
            let d = a.lin().unwrap().sub(o.lin().unwrap());
            st.assume_eq(&d)?;
        }
        st.anchors.truncate(start);
        if e.imprecise.is_some() {
            st.imprecise = e.imprecise.clone();
        }
        st.trace = e.trace.clone();
        st.last_fn = e.last_fn.clone();
        st.depth = st.depth.max(e.depth) + 1;
        st.forced = false;
        if e.prog_total {
            st.progress();
        }
        self.target.summary_exit(st, s.saved.clone())?;
        let ret = st.ghosts.remove("\u{1}ret").unwrap();
        let dest = st.frames.last_mut().unwrap().take_dest_pending();
        self.write_place(st, &dest, ret)?;
        Ok(())
    }

    /// Judges a result of the analysed operation as soon as it is known.
    fn top_exit(&mut self, st: &State, ret: &Val) {
        let mut todo = vec![vec![]];
        while let Some(ch) = todo.pop() {
            let mut s = st.clone();
            s.choices = ch.clone();
            s.cursor = 0;
            s.log.clear();
            let t = self.target;
            match t.judge(self, &mut s, ret) {
                Ok(()) => {
                    s.choices.clear();
                    s.cursor = 0;
                    self.flush(&mut s);
                    self.judged.push((s, ret.clone()));
                }
                Err(Stop::Fork(n)) => {
                    for i in (0..n).rev() {
                        let mut c = ch.clone();
                        c.push(i);
                        todo.push(c);
                    }
                }
                Err(x) => self.stopped(&mut s, x),
            }
        }
    }

    fn finish_ctx(&mut self, c: usize, st: &mut State, ret: Val) {
        st.frames.clear();
        st.choices.clear();
        st.cursor = 0;
        st.set("\u{1}ret", ret);
        self.target.fold(st);
        self.flush(st);
        let mut key = st.canon(!(st.gen > 0 && self.top.contains(&c)));
        self.rep.paths += 1;
        let ret = st.ghosts.remove("\u{1}ret").unwrap();
        if st.prog_total {
            // Part of the identity: it matters to the caller.
            key.anchors.push(Val::Bool(true));
        }
        if st.imprecise.is_some() {
            key.anchors.push(Val::Top);
        }
        let ent = self.ctxs[c].exit_keys.entry((key, ret.clone())).or_default();
        if ent.iter().any(|f| f.ge.iter().all(|l| st.facts.proves(l))) {
            return;
        }
        ent.push(st.facts.clone());
        if self.debug && self.dbg_every == 1 {
            crate::dlog!("EXIT {} of ctx {c} ({} callers): {ret:?} ghosts {:?} attrs {:?} facts {:?} cells {:?}", self.ctxs[c].exits.len(), self.ctxs[c].callers.len(), st.ghosts, st.attrs, st.facts.ge, st.cells);
        }
        if self.top.contains(&c) {
            self.top_exit(st, &ret);
        }
        self.ctxs[c].exits.push((st.clone(), ret.clone()));
        let callers: Vec<Susp> = std::mem::take(&mut self.ctxs[c].callers);
        for s in &callers {
            self.resume(s, st.clone(), ret.clone());
        }
        let added = std::mem::take(&mut self.ctxs[c].callers);
        self.ctxs[c].callers = callers;
        self.ctxs[c].callers.extend(added);
    }

    // ---- Steps ---------------------------------------------------------

    pub fn push_frame(
        &mut self,
        st: &mut State,
        inst: Instance,
        args: Vec<Val>,
        dest: Option<Place>,
    ) -> R<()> {
        let Some(body) = self.body(inst) else {
            return unknown(format!("no body for {}", inst.name()));
        };
        if st.frames.len() > 120 {
            return unknown(format!("call depth in {}", inst.name()));
        }
        let mut args = args;
        // Closures take their arguments untupled.
        let is_closure = inst.kind == InstanceKind::Item
            && matches!(inst.ty().kind(), TyKind::RigidTy(RigidTy::Closure(..)));
        if is_closure && args.len() == 2 {
            match args.pop().unwrap() {
                Val::Agg(_, fs) => args.extend(fs),
                v => return unknown(format!("closure arguments {v:?}")),
            }
        }
        if args.len() != body.arg_count {
            return unknown(format!(
                "argument count of {} ({} for {})",
                body.name,
                args.len(),
                body.arg_count
            ));
        }
        if is_repo(&body.krate) {
            let sp = body.body.span;
            self.rep.funcs.insert((body.name.clone(), fname(&sp)));
            let at = format!("{}:{}", fname(&sp), sp.get_lines().start_line);
            st.last_fn = Some(Rc::new((body.name.clone(), at)));
        }
        let mut locals = vec![None; body.tys.len()];
        for (i, a) in args.into_iter().enumerate() {
            locals[i + 1] = Some(st.new_cell(a));
        }
        locals[0] = Some(st.new_cell(Val::Uninit));
        st.frames.push(Frame { body, bb: 0, stmt: 0, locals, pending: vec![], dest });
        Ok(())
    }

    /// One statement or terminator. `Ok(false)` when the path is done or
    /// suspended.
    fn step(&mut self, c: usize, st: &mut State) -> R<bool> {
        st.settle();
        let fr = st.frames.last().unwrap();
        let body = fr.body.clone();
        let blk = &body.body.blocks[fr.bb];
        if fr.stmt < blk.statements.len() {
            let s = &blk.statements[fr.stmt];
            self.statement(st, s)?;
            st.frames.last_mut().unwrap().stmt += 1;
            return Ok(true);
        }
        use TerminatorKind::*;
        match &blk.terminator.kind {
            Goto { target } => self.goto(st, *target),
            SwitchInt { discr, targets } => {
                let v = self.operand(st, discr)?;
                let t = self.switch(st, v, targets, discr)?;
                self.goto(st, t)
            }
            Return => {
                let ret = self.read_local(st, 0)?;
                let f = st.frames.pop().unwrap();
                if is_repo(&f.body.krate) {
                    let sp = f.body.body.span;
                    let at = format!("{}:{}", fname(&sp), sp.get_lines().start_line);
                    st.last_fn = Some(Rc::new((f.body.name.clone(), at)));
                }
                if st.frames.is_empty() {
                    st.ret_ty = Some(f.body.tys[0]);
                    self.finish_ctx(c, st, ret);
                    return Ok(false);
                }
                if let Some(d) = f.dest {
                    self.write_place(st, &d, ret)?;
                }
            }
            Drop { place, target, .. } => {
                let t = *target;
                let ty = place.ty(body.body.locals()).unwrap();
                let p = self.place_ref(st, place)?;
                self.drop_at(st, ty, p, t)?;
            }
            Assert { cond, expected, msg, target, .. } => {
                let v = self.operand(st, cond)?;
                let (func, site) = self.site(st);
                if is_repo(&body.krate) {
                    self.rep.asserts.insert(format!("{func} {site}"));
                }
                // The validity of pointers is taken from the type system.
                let pointer = matches!(
                    msg,
                    AssertMessage::NullPointerDereference
                        | AssertMessage::MisalignedPointerDereference { .. }
                );
                match v {
                    _ if pointer => self.goto(st, *target),
                    Val::Bool(b) if b == *expected => self.goto(st, *target),
                    Val::Bool(_) => {
                        return Err(Stop::Panic(
                            msg.description().unwrap_or("assertion failed").into(),
                        ))
                    }
                    Val::Top => {
                        // Not tracked: assumed to hold, and noted.
                        st.imprecise.get_or_insert(format!("untracked assertion in {func}"));
                        self.goto(st, *target)
                    }
                    v => return unknown(format!("assert on {v:?}")),
                }
            }
            Call { func, args, destination, target, .. } => {
                let fty = func.ty(body.body.locals()).unwrap();
                let inst = match fty.kind() {
                    TyKind::RigidTy(RigidTy::FnDef(def, gargs)) => {
                        match Instance::resolve(def, &gargs) {
                            Ok(i) => i,
                            Err(e) => return unknown(format!("resolve: {e:?}")),
                        }
                    }
                    _ => match self.operand(st, func)? {
                        Val::Fn(i) => self.fns[i as usize],
                        v => return unknown(format!("call of {v:?}")),
                    },
                };
                let mut vals = vec![];
                for a in args {
                    vals.push(self.operand(st, a)?);
                }
                // A closure that captures nothing, as a function pointer.
                if !matches!(fty.kind(), TyKind::RigidTy(RigidTy::FnDef(..)))
                    && inst.name().contains("{closure")
                {
                    vals = if inst.kind == InstanceKind::Item {
                        let mut v = vec![st.alloc(unit())];
                        v.extend(vals);
                        v
                    } else {
                        vec![unit(), tup(vals)]
                    };
                }
                let ret_ty = destination.ty(body.body.locals()).unwrap();
                let arg_tys = args.iter().map(|a| a.ty(body.body.locals()).unwrap()).collect();
                return self.call(c, st, inst, vals, arg_tys, ret_ty, destination, *target);
            }
            Unreachable => return unknown("reached `unreachable` in MIR"),
            Resume | Abort => return Err(Stop::Infeasible),
            InlineAsm { .. } => return unknown("inline asm"),
        }
        Ok(true)
    }

    fn goto(&self, st: &mut State, bb: usize) {
        let f = st.frames.last_mut().unwrap();
        f.bb = bb;
        f.stmt = 0;
    }

    fn call(
        &mut self,
        c: usize,
        st: &mut State,
        inst: Instance,
        args: Vec<Val>,
        arg_tys: Vec<Ty>,
        ret_ty: Ty,
        dest: &Place,
        target: Option<usize>,
    ) -> R<bool> {
        let name = self.inst_name(inst);
        let cur = st.frames.last().unwrap();
        if is_repo(&cur.body.krate) {
            let blk = &cur.body.body.blocks[cur.bb];
            let l = blk.terminator.source_info.span.get_lines();
            self.rep.call_sites.insert(format!("{}:{}:{} {}", cur.body.name, l.start_line, l.start_col, name));
        }
        let cx = CallCx { inst, name: name.clone(), ret_ty, arg_tys };
        let stub = name.rsplit("::").next().unwrap_or("");
        let act = if stub.starts_with("stub_") {
            {
            let t = self.target;
            Act::Ret(t.stub(self, st, stub, &args, &cx)?)
        }
        } else if let InstanceKind::Virtual { .. } = inst.kind {
            {
            let t = self.target;
            Act::Ret(t.virt(self, st, &args, &cx)?)
        }
        } else {
            let t = self.target;
            match t.model(self, st, &name, &args, &cx)? {
                Act::Body => match models::call(self, st, &name, &args, &cx)? {
                    Act::Body => {
                        if target.is_none() {
                            return Err(Stop::Panic(format!("call of {name}")));
                        }
                        Act::Body
                    }
                    a => a,
                },
                a => a,
            }
        };
        let Some(t) = target else {
            return match act {
                Act::Ret(_) => Err(Stop::Panic(format!("call of {name}"))),
                _ => Err(Stop::Panic(format!("call of {name}"))),
            };
        };
        match act {
            Act::Ret(v) => {
                self.write_place(st, dest, v)?;
                self.goto(st, t);
            }
            Act::Body => {
                if inst.kind == InstanceKind::Intrinsic {
                    return unknown(format!("intrinsic {name}"));
                }
                let recursive = st.frames.iter().any(|f| f.body.inst == inst);
                self.goto(st, t);
                if recursive || self.target.summarise(&name) {
                    return self.summary_call(c, st, inst, args, dest.clone());
                }
                self.push_frame(st, inst, args, Some(dest.clone()))?;
            }
            Act::Call(i, a) => {
                self.goto(st, t);
                self.push_frame(st, i, a, Some(dest.clone()))?;
            }
        }
        Ok(true)
    }

    /// Drops what `p` points to and then continues at block `t`.
    fn drop_at(&mut self, st: &mut State, ty: Ty, p: Val, t: usize) -> R<()> {
        self.goto(st, t);
        self.drop_value(st, ty, p)
    }

    /// Another reference to the same shared value.
    pub fn rc_clone(&mut self, _st: &mut State, v: Val) -> R<Val> {
        Ok(v)
    }

    pub fn drop_value(&mut self, st: &mut State, ty: Ty, p: Val) -> R<()> {
        let inst = Instance::resolve_drop_in_place(ty);
        if inst.is_empty_shim() {
            return Ok(());
        }
        let tg = self.target;
        if tg.on_drop(self, st, ty, &p)? {
            return Ok(());
        }
        if let Ok(Val::Top | Val::Uninit) = st.rd(&p) {
            return Ok(());
        }
        match models::drop(self, st, ty, &p)? {
            Act::Ret(_) => Ok(()),
            Act::Call(i, a) => self.push_frame(st, i, a, None),
            Act::Body => self.push_frame(st, inst, vec![p], None),
        }
    }

    fn switch(&mut self, st: &mut State, v: Val, t: &SwitchTargets, _d: &Operand) -> R<usize> {
        match &v {
            Val::Bool(b) => {
                let k = *b as u128;
                Ok(t.branches().find(|x| x.0 == k).map_or(t.otherwise(), |x| x.1))
            }
            Val::Int(l) => {
                for (k, bb) in t.branches() {
                    if st.decide_eq(&l.plus(-(k as i128)))? {
                        return Ok(bb);
                    }
                }
                Ok(t.otherwise())
            }
            Val::T(..) | Val::Sym(_) => {
                for (k, bb) in t.branches() {
                    if self.scalar_eq(st, &v, &int(k as i128))? {
                        return Ok(bb);
                    }
                }
                Ok(t.otherwise())
            }
            Val::Top => {
                let (f, _) = self.site(st);
                st.imprecise.get_or_insert(format!("branch on an untracked value in {f}"));
                let all = t.all_targets();
                let i = st.choose(all.len())?;
                Ok(all[i])
            }
            _ => unknown(format!("switch on {v:?}")),
        }
    }

    /// Equality of scalars that are not plain integers.
    pub fn scalar_eq(&mut self, st: &mut State, a: &Val, b: &Val) -> R<bool> {
        if st.same(a, b) {
            return Ok(true);
        }
        let tg = self.target;
        if let Some(r) = tg.cmp(self, st, BinOp::Eq, a, b)? {
            return Ok(r);
        }
        if let Some(o) = tg.order(st, a, b)? {
            return Ok(o == std::cmp::Ordering::Equal);
        }
        if a.konst().is_some() && b.konst().is_some() {
            return Ok(false);
        }
        let (x, y) = if a <= b { (a, b) } else { (b, a) };
        // Equal to one constant excludes the others.
        if let Some(k) = x.konst().or(y.konst()) {
            let o = if x.konst().is_some() { y } else { x };
            for (mk, mv) in st.memo.iter() {
                if let (Val::T("eq", p), Val::Bool(true)) = (mk, mv) {
                    if (p[0] == *o || p[1] == *o)
                        && p.iter().any(|z| z.konst().is_some_and(|q| q != k))
                    {
                        return Ok(false);
                    }
                }
            }
        }
        st.memo_bool(Val::T("eq", vec![x.clone(), y.clone()]))
    }

    fn statement(&mut self, st: &mut State, s: &Statement) -> R<()> {
        match &s.kind {
            StatementKind::Assign(p, r) => {
                let v = self.rvalue(st, r)?;
                self.write_place(st, p, v)
            }
            StatementKind::SetDiscriminant { place, variant_index } => {
                let Loc::Mem(c, path, _) = self.place(st, place)? else {
                    return unknown("set discriminant");
                };
                let v = st.read(c, &path)?;
                let fs = match v {
                    Val::Agg(_, fs) => fs,
                    _ => vec![],
                };
                st.write(c, &path, 0, Val::Agg(variant_index.to_index() as u32, fs))
            }
            StatementKind::StorageLive(l) => {
                let c = st.new_cell(Val::Uninit);
                st.frames.last_mut().unwrap().locals[*l] = Some(c);
                Ok(())
            }
            StatementKind::StorageDead(l) => {
                st.frames.last_mut().unwrap().locals[*l] = None;
                Ok(())
            }
            StatementKind::Intrinsic(NonDivergingIntrinsic::Assume(_)) => Ok(()),
            StatementKind::Intrinsic(NonDivergingIntrinsic::CopyNonOverlapping(c)) => {
                let s = self.operand(st, &c.src)?;
                let d = self.operand(st, &c.dst)?;
                let n = self.operand(st, &c.count)?;
                if n.konst() == Some(1) {
                    let v = st.rd(&s)?;
                    st.wr(&d, v)
                } else {
                    unknown("copy_nonoverlapping")
                }
            }
            _ => Ok(()),
        }
    }

    fn local_cell(&mut self, st: &mut State, l: usize) -> CellId {
        let n = st.frames.len() - 1;
        if let Some(c) = st.frames[n].locals[l] {
            return c;
        }
        let c = st.new_cell(Val::Uninit);
        st.frames[n].locals[l] = Some(c);
        c
    }
    fn read_local(&mut self, st: &mut State, l: usize) -> R<Val> {
        let c = self.local_cell(st, l);
        let v = st.cells[c as usize].clone();
        if matches!(v, Val::Uninit) {
            // Zero-sized values are never written.
            return Ok(unit());
        }
        Ok(v)
    }

    fn place(&mut self, st: &mut State, p: &Place) -> R<Loc> {
        let c = self.local_cell(st, p.local);
        let mut loc = Loc::Mem(c, vec![], 0);
        for e in &p.projection {
            loc = match (e, loc) {
                (ProjectionElem::Deref, Loc::Mem(c, path, _)) => {
                    let v = st.read(c, &path)?;
                    self.deref(st, v)?
                }
                (ProjectionElem::Deref, Loc::Fat(_)) => return unknown("double deref"),
                (ProjectionElem::Field(i, _), Loc::Mem(c, mut path, v)) => {
                    path.push(*i as u32);
                    Loc::Mem(c, path, v)
                }
                (ProjectionElem::Downcast(v), Loc::Mem(c, path, _)) => {
                    Loc::Mem(c, path, v.to_index() as u32)
                }
                (ProjectionElem::OpaqueCast(_), l) => l,
                (ProjectionElem::Index(l), base) => {
                    let ix = self.read_local(st, *l)?;
                    let Val::Int(ix) = ix else { return unknown("index") };
                    self.index(st, base, ix)?
                }
                (ProjectionElem::ConstantIndex { offset, from_end, .. }, base) => {
                    let ix = if *from_end {
                        let n = self.len_of(st, &base)?;
                        n.plus(-(*offset as i128))
                    } else {
                        Lin::k(*offset as i128)
                    };
                    self.index(st, base, ix)?
                }
                (ProjectionElem::Subslice { from, to, from_end }, base) => {
                    let n = self.len_of(st, &base)?;
                    let (b, lo) = match &base {
                        Loc::Fat(Val::T("slice", a)) => {
                            (a[0].clone(), a[1].lin().unwrap().clone())
                        }
                        Loc::Mem(c, p, _) => (Val::Ptr(*c, p.clone()), Lin::k(0)),
                        _ => return unknown("subslice"),
                    };
                    let end = if *from_end { n.plus(-(*to as i128)) } else { Lin::k(*to as i128) };
                    Loc::Fat(Val::T(
                        "slice",
                        vec![b, Val::Int(lo.plus(*from as i128)), Val::Int(lo.add(&end))],
                    ))
                }
                (e, Loc::Fat(v)) => return unknown(format!("{e:?} of {v:?}")),
            };
        }
        Ok(loc)
    }

    fn len_of(&mut self, st: &mut State, l: &Loc) -> R<Lin> {
        match l {
            Loc::Fat(Val::T("slice", a)) => {
                Ok(a[2].lin().unwrap().sub(a[1].lin().unwrap()))
            }
            Loc::Mem(c, p, _) => match st.read(*c, p)? {
                Val::Agg(_, fs) => Ok(Lin::k(fs.len() as i128)),
                v => unknown(format!("length of {v:?}")),
            },
            Loc::Fat(v) => unknown(format!("length of {v:?}")),
        }
    }

    fn index(&mut self, st: &mut State, base: Loc, ix: Lin) -> R<Loc> {
        match base {
            Loc::Mem(c, mut path, _) => {
                if !ix.is_const() {
                    return unknown("symbolic array index");
                }
                path.push(ix.c as u32);
                Ok(Loc::Mem(c, path, 0))
            }
            Loc::Fat(v) => match self.slice_elem(st, &v, &ix)? {
                Val::Ptr(c, p) => Ok(Loc::Mem(c, p, 0)),
                v => Ok(Loc::Fat(v)),
            },
        }
    }

    /// Pointer to an element of a slice value.
    pub fn slice_elem(&mut self, st: &mut State, s: &Val, ix: &Lin) -> R<Val> {
        match s {
            Val::T("slice", a) => {
                let i = a[1].lin().unwrap().add(ix);
                match &a[0] {
                    Val::Ptr(c, p) if matches!(st.read(*c, p), Ok(Val::Agg(..))) => {
                        if !i.is_const() {
                            return unknown("symbolic index into an array");
                        }
                        let mut p = p.clone();
                        p.push(i.c as u32);
                        Ok(Val::Ptr(*c, p))
                    }
                    Val::Ptr(c, p) if matches!(st.read(*c, p), Ok(Val::T("vec", _))) => {
                        let Val::T(_, segs) = st.read(*c, p)? else { unreachable!() };
                        slices::vec_elem(self, st, &segs, &i)
                    }
                    Val::T("one", v) => Ok(v[0].clone()),
                    b => {
                        let b = b.clone();
                        let tg = self.target;
                        tg.elem(self, st, &b, &i)
                    }
                }
            }
            v => unknown(format!("index into {v:?}")),
        }
    }

    fn deref(&mut self, st: &mut State, v: Val) -> R<Loc> {
        match v {
            Val::Ptr(c, p) => Ok(Loc::Mem(c, p, 0)),
            Val::Agg(_, _) => {
                // Box and other pointer wrappers.
                match unwrap_ptr(&v) {
                    Some(Val::Ptr(c, p)) => Ok(Loc::Mem(c, p, 0)),
                    Some(o) => Ok(Loc::Fat(o)),
                    None => unknown(format!("dereference of {v:?}")),
                }
            }
            Val::T("lazy", _) => {
                let tg = self.target;
                match tg.deref(self, st, &v)? {
                    Val::Ptr(c, p) => Ok(Loc::Mem(c, p, 0)),
                    o => Ok(Loc::Fat(o)),
                }
            }
            Val::T(..) | Val::Sym(_) => Ok(Loc::Fat(v)),
            v => unknown(format!("dereference of {v:?}")),
        }
    }

    pub fn place_ref(&mut self, st: &mut State, p: &Place) -> R<Val> {
        Ok(match self.place(st, p)? {
            Loc::Mem(c, p, _) => Val::Ptr(c, p),
            Loc::Fat(v) => v,
        })
    }

    pub fn write_place(&mut self, st: &mut State, p: &Place, v: Val) -> R<()> {
        if p.projection.is_empty() {
            let c = self.local_cell(st, p.local);
            st.cells[c as usize] = v;
            return Ok(());
        }
        match self.place(st, p)? {
            Loc::Mem(c, path, var) => st.write(c, &path, var, v),
            Loc::Fat(t) => unknown(format!("write through {t:?}")),
        }
    }

    fn read_place(&mut self, st: &mut State, p: &Place) -> R<Val> {
        match self.place(st, p)? {
            Loc::Mem(c, path, _) => {
                let v = st.read(c, &path)?;
                if matches!(v, Val::Uninit) {
                    return Ok(unit());
                }
                Ok(v)
            }
            Loc::Fat(v) => unknown(format!("read of {v:?}")),
        }
    }

    pub fn operand(&mut self, st: &mut State, o: &Operand) -> R<Val> {
        match o {
            Operand::Copy(p) => self.read_place(st, p),
            Operand::Move(p) => {
                let v = self.read_place(st, p)?;
                if let Loc::Mem(c, path, var) = self.place(st, p)? {
                    if !p.projection.iter().any(|e| matches!(e, ProjectionElem::Deref)) {
                        let _ = st.write(c, &path, var, Val::Uninit);
                    }
                }
                Ok(v)
            }
            Operand::Constant(k) => self.constant(st, &k.const_),
            Operand::RuntimeChecks(RuntimeChecks::OverflowChecks) => Ok(Val::Bool(true)),
            Operand::RuntimeChecks(_) => Ok(Val::Bool(false)),
        }
    }

    pub fn constant(&mut self, st: &mut State, k: &MirConst) -> R<Val> {
        let ty = k.ty();
        match k.kind() {
            ConstantKind::ZeroSized => Ok(self.zst(ty)),
            ConstantKind::Allocated(a) => self.decode(st, a, 0, ty),
            ConstantKind::Ty(t) => match t.eval_target_usize() {
                Ok(n) => Ok(int(n as i128)),
                Err(_) => match t.kind() {
                    TyConstKind::Value(ty, a) => self.decode(st, a, 0, *ty),
                    TyConstKind::ZSTValue(ty) => Ok(self.zst(*ty)),
                    _ => unknown(format!("constant {t:?}")),
                },
            },
            o => unknown(format!("constant {o:?}")),
        }
    }

    fn zst(&mut self, ty: Ty) -> Val {
        match ty.kind() {
            TyKind::RigidTy(RigidTy::FnDef(def, args)) => {
                match Instance::resolve(def, &args) {
                    Ok(i) => self.fn_id(i),
                    Err(_) => unit(),
                }
            }
            TyKind::RigidTy(RigidTy::Tuple(ts)) => {
                Val::Agg(0, ts.iter().map(|t| self.zst(*t)).collect())
            }
            TyKind::RigidTy(RigidTy::Adt(d, a)) if d.kind() == AdtKind::Struct => Val::Agg(
                0,
                d.variants()[0].fields().iter().map(|f| self.zst(f.ty_with_args(&a))).collect(),
            ),
            _ => unit(),
        }
    }

    fn decode(&mut self, st: &mut State, a: &Allocation, off: usize, ty: Ty) -> R<Val> {
        let rd = |o: usize, n: usize| {
            a.read_partial_uint(o..o + n).map_err(|e| Stop::Unknown(format!("const: {e:?}")))
        };
        let TyKind::RigidTy(rt) = ty.kind() else { return unknown("const type") };
        let lay = ty.layout().map_err(|e| Stop::Unknown(format!("{e:?}")))?.shape();
        let size = lay.size.bytes();
        match rt {
            RigidTy::Bool => Ok(Val::Bool(rd(off, 1)? != 0)),
            RigidTy::Char => Ok(int(rd(off, 4)? as i128)),
            RigidTy::Uint(_) => {
                let v = rd(off, size)?;
                if v > i128::MAX as u128 { return Ok(Val::Top) }
                Ok(int(v as i128))
            }
            RigidTy::Int(_) => {
                let v = rd(off, size)?;
                let sh = 128 - 8 * size as u32;
                Ok(int(((v << sh) as i128) >> sh))
            }
            RigidTy::Float(_) => Ok(Val::Top),
            RigidTy::FnDef(..) => Ok(self.zst(ty)),
            RigidTy::Ref(_, t, _) | RigidTy::RawPtr(t, _) => {
                let prov = a.provenance.ptrs.iter().find(|p| p.0 == off);
                let Some((_, p)) = prov else {
                    return Ok(Val::T("addr", vec![int(rd(off, 8)? as i128)]));
                };
                let po = rd(off, 8)? as usize;
                let ga = GlobalAlloc::from(p.0);
                match ga {
                    GlobalAlloc::Memory(m) => match t.kind() {
                        TyKind::RigidTy(RigidTy::Str) => {
                            let n = rd(off + 8, 8)? as usize;
                            let b = m.raw_bytes().map_err(|e| Stop::Unknown(format!("{e:?}")))?;
                            let s = String::from_utf8_lossy(&b[po..po + n]).to_string();
                            Ok(Val::T("str", vec![name(&format!("lit:{s}")), int(0), int(n as i128)]))
                        }
                        TyKind::RigidTy(RigidTy::Slice(et)) => {
                            let n = rd(off + 8, 8)? as usize;
                            let es = et.layout().map_err(|e| Stop::Unknown(format!("{e:?}")))?;
                            let es = es.shape().size.bytes();
                            let mut v = vec![];
                            for i in 0..n {
                                v.push(self.decode(st, &m, po + i * es, et)?);
                            }
                            let c = st.new_cell(Val::Agg(0, v));
                            Ok(Val::T("slice", vec![ptr(c), int(0), int(n as i128)]))
                        }
                        TyKind::RigidTy(RigidTy::Dynamic(..)) => Ok(Val::Top),
                        _ => {
                            let v = self.decode(st, &m, po, t)?;
                            Ok(st.alloc(v))
                        }
                    },
                    GlobalAlloc::Function(i) => Ok(self.fn_id(i)),
                    GlobalAlloc::Static(s) => {
                        let m = s.eval_initializer().map_err(|e| Stop::Unknown(format!("{e:?}")))?;
                        let v = self.decode(st, &m, po, t)?;
                        Ok(st.alloc(v))
                    }
                    _ => Ok(Val::Top),
                }
            }
            RigidTy::FnPtr(_) => {
                let prov = a.provenance.ptrs.iter().find(|p| p.0 == off);
                match prov.map(|p| GlobalAlloc::from(p.1 .0)) {
                    Some(GlobalAlloc::Function(i)) => Ok(self.fn_id(i)),
                    _ => unknown("fn ptr const"),
                }
            }
            RigidTy::Tuple(ts) => {
                let FieldsShape::Arbitrary { offsets } = &lay.fields else {
                    return Ok(unit());
                };
                let mut v = vec![];
                for (i, t) in ts.iter().enumerate() {
                    v.push(self.decode(st, a, off + offsets[i].bytes(), *t)?);
                }
                Ok(Val::Agg(0, v))
            }
            RigidTy::Array(t, n) => {
                let n = n.eval_target_usize().unwrap_or(0) as usize;
                let es = t.layout().map_err(|e| Stop::Unknown(format!("{e:?}")))?.shape().size.bytes();
                let mut v = vec![];
                for i in 0..n {
                    v.push(self.decode(st, a, off + i * es, t)?);
                }
                Ok(Val::Agg(0, v))
            }
            RigidTy::Adt(d, ga) => {
                if d.kind() == AdtKind::Union {
                    return Ok(Val::Top);
                }
                let (vi, offs): (usize, Vec<usize>) = match &lay.variants {
                    VariantsShape::Empty => return unknown("empty enum"),
                    VariantsShape::Single { index } => {
                        let offs = match &lay.fields {
                            FieldsShape::Arbitrary { offsets } => {
                                offsets.iter().map(|o| o.bytes()).collect()
                            }
                            _ => vec![],
                        };
                        (index.to_index(), offs)
                    }
                    VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                        let FieldsShape::Arbitrary { offsets } = &lay.fields else {
                            return unknown("enum layout");
                        };
                        let to = off + offsets[*tag_field].bytes();
                        let (Scalar::Initialized { value: prim, .. } | Scalar::Union { value: prim }) =
                            tag;
                        let ts = match prim {
                            Primitive::Int { length, .. } => length.bits() / 8,
                            Primitive::Pointer(_) => 8,
                            _ => return unknown("tag"),
                        };
                        let vi = match tag_encoding {
                            TagEncoding::Direct => {
                                let t = rd(to, ts)?;
                                d.variants()
                                    .iter()
                                    .position(|v| d.discriminant_for_variant(v.idx()).val == t)
                                    .ok_or(Stop::Unknown("tag value".into()))?
                            }
                            TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                if a.provenance.ptrs.iter().any(|p| p.0 == to) {
                                    untagged_variant.to_index()
                                } else {
                                    let t = rd(to, ts)?;
                                    let mask = if ts == 16 { u128::MAX } else { (1u128 << (8 * ts)) - 1 };
                                    let rel = t.wrapping_sub(*niche_start) & mask;
                                    let lo = niche_variants.start().to_index();
                                    let hi = niche_variants.end().to_index();
                                    if rel <= (hi - lo) as u128 {
                                        lo + rel as usize
                                    } else {
                                        untagged_variant.to_index()
                                    }
                                }
                            }
                        };
                        (vi, variants[vi].offsets.iter().map(|o| o.bytes()).collect())
                    }
                };
                let vd = &d.variants()[vi];
                let mut v = vec![];
                for (i, f) in vd.fields().iter().enumerate() {
                    v.push(self.decode(st, a, off + offs[i], f.ty_with_args(&ga))?);
                }
                Ok(Val::Agg(vi as u32, v))
            }
            RigidTy::Closure(..) if size == 0 => Ok(unit()),
            RigidTy::Never => Ok(unit()),
            RigidTy::Pat(t, _) => self.decode(st, a, off, t),
            o => unknown(format!("const of {o:?}")),
        }
    }

    fn rvalue(&mut self, st: &mut State, r: &Rvalue) -> R<Val> {
        match r {
            Rvalue::Use(o, _) => self.operand(st, o),
            Rvalue::CopyForDeref(p) => self.read_place(st, p),
            Rvalue::Ref(_, _, p) | Rvalue::AddressOf(_, p) | Rvalue::Reborrow(_, _, p) => {
                self.place_ref(st, p)
            }
            Rvalue::Aggregate(k, os) => {
                let mut v = vec![];
                for o in os {
                    v.push(self.operand(st, o)?);
                }
                Ok(match k {
                    AggregateKind::Adt(_, vi, _, _, act) => {
                        if act.is_some() {
                            return Ok(Val::Agg(0, v));
                        }
                        Val::Agg(vi.to_index() as u32, v)
                    }
                    AggregateKind::RawPtr(_, _) => match (&v[0], &v[1]) {
                        (p, Val::Agg(_, f)) if f.is_empty() => p.clone(),
                        _ => return unknown(format!("raw pointer from {v:?}")),
                    },
                    _ => Val::Agg(0, v),
                })
            }
            Rvalue::Repeat(o, n) => {
                let v = self.operand(st, o)?;
                let n = n.eval_target_usize().map_err(|e| Stop::Unknown(format!("{e:?}")))?;
                if n > 64 {
                    return Ok(Val::T("array", vec![v, int(n as i128)]));
                }
                Ok(Val::Agg(0, vec![v; n as usize]))
            }
            Rvalue::Discriminant(p) => {
                let v = self.read_place(st, p)?;
                let fr = st.frames.last().unwrap();
                let ty = p.ty(fr.body.body.locals()).unwrap();
                self.discr(st, v, ty)
            }
            Rvalue::Len(p) => {
                let l = self.place(st, p)?;
                Ok(Val::Int(self.len_of(st, &l)?))
            }
            Rvalue::UnaryOp(op, o) => {
                let v = self.operand(st, o)?;
                match (op, v) {
                    (UnOp::Not, Val::Bool(b)) => Ok(Val::Bool(!b)),
                    (UnOp::Neg, Val::Int(l)) => Ok(Val::Int(l.neg())),
                    (UnOp::PtrMetadata, Val::T("slice", a)) => {
                        Ok(Val::Int(a[2].lin().unwrap().sub(a[1].lin().unwrap())))
                    }
                    (UnOp::PtrMetadata, Val::T("str", a)) => {
                        Ok(Val::Int(a[2].lin().unwrap().sub(a[1].lin().unwrap())))
                    }
                    (UnOp::PtrMetadata, Val::Ptr(..)) => Ok(unit()),
                    (_, Val::Top) => Ok(Val::Top),
                    (op, v) => unknown(format!("{op:?} {v:?}")),
                }
            }
            Rvalue::BinaryOp(op, a, b) => {
                let fr = st.frames.last().unwrap();
                let ty = a.ty(fr.body.body.locals()).unwrap();
                let x = self.operand(st, a)?;
                let y = self.operand(st, b)?;
                self.binop(st, *op, x, y, ty)
            }
            Rvalue::CheckedBinaryOp(op, a, b) => {
                let fr = st.frames.last().unwrap();
                let ty = a.ty(fr.body.body.locals()).unwrap();
                let x = self.operand(st, a)?;
                let y = self.operand(st, b)?;
                let (Val::Int(x), Val::Int(y)) = (&x, &y) else {
                    return Ok(tup(vec![Val::Top, Val::Bool(false)]));
                };
                let r = match op {
                    BinOp::Add => x.add(y),
                    BinOp::Sub => x.sub(y),
                    BinOp::Mul if x.is_const() => y.scale(x.c),
                    BinOp::Mul if y.is_const() => x.scale(y.c),
                    _ => return Ok(tup(vec![Val::Top, Val::Bool(false)])),
                };
                let o = self.overflows(st, &r, ty)?;
                Ok(tup(vec![if o { Val::Top } else { Val::Int(r) }, Val::Bool(o)]))
            }
            Rvalue::Cast(k, o, ty) => {
                let fr = st.frames.last().unwrap();
                let from = o.ty(fr.body.body.locals()).unwrap();
                let v = self.operand(st, o)?;
                self.cast(st, *k, v, from, *ty)
            }
            Rvalue::ThreadLocalRef(_) => unknown("thread local"),
        }
    }

    /// The discriminant of a value that may still be opaque.
    pub fn discr(&mut self, st: &mut State, v: Val, ty: Ty) -> R<Val> {
        if let Val::T(..) | Val::Sym(_) = v {
            let tg = self.target;
            if let Some(k) = tg.variant(st, &v, ty)? {
                return self.discriminant(&Val::Agg(k, vec![]), ty);
            }
            let nv = tg.expand(self, st, &v, ty)?;
            st.replace(&v, &nv);
            return self.discriminant(&nv, ty);
        }
        self.discriminant(&v, ty)
    }

    pub fn discriminant(&self, v: &Val, ty: Ty) -> R<Val> {
        match v {
            Val::Agg(i, _) => match ty.kind() {
                TyKind::RigidTy(RigidTy::Adt(d, _)) if d.kind() == AdtKind::Enum => {
                    let vs = d.variants();
                    let d = d.discriminant_for_variant(vs[*i as usize].idx());
                    Ok(int(d.val as i128))
                }
                _ => Ok(int(0)),
            },
            Val::Top => Ok(Val::Top),
            v => unknown(format!("discriminant of {v:?}")),
        }
    }

    /// Whether the result leaves the type's range. Word-sized counters are
    /// taken to be bounded by the address space from above.
    fn overflows(&mut self, st: &mut State, r: &Lin, ty: Ty) -> R<bool> {
        match ty.kind() {
            TyKind::RigidTy(RigidTy::Uint(u)) => {
                if !st.decide_ge(r)? {
                    return Ok(true);
                }
                let n = match u {
                    UintTy::Usize | UintTy::U64 | UintTy::U128 => return Ok(false),
                    u => u.num_bytes(),
                };
                let max = (1i128 << (8 * n)) - 1;
                Ok(!st.decide_ge(&Lin::k(max).sub(r))?)
            }
            _ => Ok(false),
        }
    }

    pub fn binop(&mut self, st: &mut State, op: BinOp, x: Val, y: Val, ty: Ty) -> R<Val> {
        use std::cmp::Ordering;
        if let (Val::Int(a), Val::Int(b)) = (&x, &y) {
            let d = a.sub(b);
            return Ok(match op {
                BinOp::Eq => Val::Bool(st.decide_eq(&d)?),
                BinOp::Ne => Val::Bool(!st.decide_eq(&d)?),
                BinOp::Ge => Val::Bool(st.decide_ge(&d)?),
                BinOp::Lt => Val::Bool(!st.decide_ge(&d)?),
                BinOp::Gt => Val::Bool(st.decide_ge(&d.plus(-1))?),
                BinOp::Le => Val::Bool(!st.decide_ge(&d.plus(-1))?),
                BinOp::Cmp => match st.decide_cmp(&d)? {
                    Ordering::Less => Val::Agg(0, vec![]),
                    Ordering::Equal => Val::Agg(1, vec![]),
                    Ordering::Greater => Val::Agg(2, vec![]),
                },
                BinOp::Add | BinOp::AddUnchecked => {
                    let r = a.add(b);
                    if !wrapping_safe(&r, ty) { Val::Top } else { Val::Int(r) }
                }
                BinOp::Sub | BinOp::SubUnchecked => {
                    let r = a.sub(b);
                    if is_signed(ty) {
                        Val::Int(r)
                    } else if int_size(ty) > 8 {
                        if st.facts.proves(&r) { Val::Int(r) } else { Val::Top }
                    } else if st.decide_ge(&r)? {
                        Val::Int(r)
                    } else {
                        Val::Int(r.plus(1i128 << (8 * int_size(ty))))
                    }
                }
                BinOp::Mul | BinOp::MulUnchecked if a.is_const() => Val::Int(b.scale(a.c)),
                BinOp::Mul | BinOp::MulUnchecked if b.is_const() => Val::Int(a.scale(b.c)),
                BinOp::Div if a.is_const() && b.is_const() && b.c != 0 => int(a.c / b.c),
                BinOp::Rem if a.is_const() && b.is_const() && b.c != 0 => int(a.c % b.c),
                BinOp::Div | BinOp::Rem
                    if b.is_const() && b.c > 0 && !is_signed(ty) && st.facts.proves(a) =>
                {
                    let q = Lin::s(st.new_sym());
                    let r = a.addk(&q, -b.c);
                    st.assume_ge(&r)?;
                    st.assume_ge(&Lin::k(b.c - 1).sub(&r))?;
                    Val::Int(if matches!(op, BinOp::Div) { q } else { r })
                }
                BinOp::BitAnd if a.is_const() && b.is_const() => int(a.c & b.c),
                BinOp::BitOr if a.is_const() && b.is_const() => int(a.c | b.c),
                BinOp::BitXor if a.is_const() && b.is_const() => int(a.c ^ b.c),
                BinOp::Shl | BinOp::ShlUnchecked if a.is_const() && b.is_const() => int(a.c << b.c),
                BinOp::Shr | BinOp::ShrUnchecked if a.is_const() && b.is_const() => int(a.c >> b.c),
                _ => Val::Top,
            });
        }
        if let (Val::Bool(a), Val::Bool(b)) = (&x, &y) {
            return Ok(Val::Bool(match op {
                BinOp::Eq => a == b,
                BinOp::Ne | BinOp::BitXor => a != b,
                BinOp::BitAnd => *a && *b,
                BinOp::BitOr => *a || *b,
                BinOp::Lt => !a & b,
                BinOp::Le => !a | b,
                BinOp::Gt => a & !b,
                BinOp::Ge => a | !b,
                BinOp::Cmp => {
                    return Ok(Val::Agg((*a as i32 - *b as i32 + 1) as u32, vec![]));
                }
                _ => return unknown(format!("{op:?} on bool")),
            }));
        }
        if matches!(x, Val::Top) || matches!(y, Val::Top) {
            return Ok(Val::Top);
        }
        // What is referred to is never at address 0.
        if let (Val::Ptr(..), Val::Int(l)) | (Val::Int(l), Val::Ptr(..)) = (&x, &y) {
            if *l == Lin::k(0) && matches!(op, BinOp::Eq | BinOp::Ne) {
                return Ok(Val::Bool(matches!(op, BinOp::Ne)));
            }
        }
        match op {
            BinOp::Eq => Ok(Val::Bool(self.scalar_eq(st, &x, &y)?)),
            BinOp::Ne => Ok(Val::Bool(!self.scalar_eq(st, &x, &y)?)),
            BinOp::Lt | BinOp::Le | BinOp::Gt | BinOp::Ge => {
                let tg = self.target;
                if let Some(b) = tg.cmp(self, st, op, &x, &y)? {
                    return Ok(Val::Bool(b));
                }
                // a < b, a == b or a > b, remembered as one outcome.
                let o = self.scalar_cmp(st, &x, &y)?;
                use std::cmp::Ordering::*;
                Ok(Val::Bool(match op {
                    BinOp::Lt => o == Less,
                    BinOp::Le => o != Greater,
                    BinOp::Gt => o == Greater,
                    _ => o != Less,
                }))
            }
            BinOp::Cmp => {
                let o = self.scalar_cmp(st, &x, &y)?;
                Ok(Val::Agg((o as i8 + 1) as u32, vec![]))
            }
            _ => Ok(Val::Top),
        }
    }

    pub fn scalar_cmp(&mut self, st: &mut State, x: &Val, y: &Val) -> R<std::cmp::Ordering> {
        use std::cmp::Ordering::*;
        let tg = self.target;
        if let Some(o) = tg.order(st, x, y)? {
            return Ok(o);
        }
        if self.scalar_eq(st, x, y)? {
            return Ok(Equal);
        }
        let (a, b, sw) = if x <= y { (x, y, false) } else { (y, x, true) };
        let lt = st.memo_bool(Val::T("lt", vec![a.clone(), b.clone()]))?;
        Ok(if lt != sw { Less } else { Greater })
    }

    fn cast(&mut self, st: &mut State, k: CastKind, v: Val, from: Ty, to: Ty) -> R<Val> {
        match k {
            CastKind::PointerCoercion(pc) => match pc {
                PointerCoercion::ReifyFnPointer(_) => match from.kind() {
                    TyKind::RigidTy(RigidTy::FnDef(d, a)) => {
                        let i = Instance::resolve_for_fn_ptr(d, &a)
                            .map_err(|e| Stop::Unknown(format!("{e:?}")))?;
                        Ok(self.fn_id(i))
                    }
                    _ => unknown("reify"),
                },
                PointerCoercion::ClosureFnPointer(_) => match from.kind() {
                    TyKind::RigidTy(RigidTy::Closure(d, a)) => {
                        let i = Instance::resolve_closure(d, &a, ClosureKind::FnOnce)
                            .map_err(|e| Stop::Unknown(format!("{e:?}")))?;
                        Ok(self.fn_id(i))
                    }
                    _ => unknown("closure pointer"),
                },
                PointerCoercion::Unsize => {
                    let (Some(f), Some(t)) = (from.kind().builtin_deref(true), to.kind().builtin_deref(true))
                    else {
                        return Ok(v);
                    };
                    match (f.ty.kind(), t.ty.kind()) {
                        (TyKind::RigidTy(RigidTy::Array(_, n)), TyKind::RigidTy(RigidTy::Slice(_))) => {
                            let n = n.eval_target_usize().unwrap_or(0);
                            Ok(Val::T("slice", vec![v, int(0), int(n as i128)]))
                        }
                        (TyKind::RigidTy(RigidTy::Dynamic(..)), TyKind::RigidTy(RigidTy::Dynamic(..))) => Ok(v),
                        (_, TyKind::RigidTy(RigidTy::Dynamic(..))) => Ok(Val::T("dyn", vec![v])),
                        _ => Ok(v),
                    }
                }
                _ => Ok(v),
            },
            CastKind::IntToInt => match &v {
                Val::Bool(b) => Ok(int(*b as i128)),
                Val::Int(l) => {
                    let (fs, ts) = (int_size(from), int_size(to));
                    if l.is_const() {
                        let bits = 8 * ts as u32;
                        if bits >= 127 {
                            return Ok(v);
                        }
                        let m = l.c & ((1i128 << bits) - 1);
                        let r = if is_signed(to) && (m >> (bits - 1)) & 1 == 1 {
                            m - (1i128 << bits)
                        } else {
                            m
                        };
                        return Ok(int(r));
                    }
                    if ts >= fs {
                        return Ok(v);
                    }
                    let max = (1i128 << (8 * ts - is_signed(to) as usize)) - 1;
                    if st.facts.proves(&Lin::k(max).sub(l)) {
                        return Ok(v);
                    }
                    if st.decide_ge(&Lin::k(max).sub(l))? { Ok(v) } else {
                        // Truncated.
                        let n = st.new_int();
                        st.assume_ge(&Lin::k(max).sub(n.lin().unwrap()))?;
                        Ok(n)
                    }
                }
                _ => Ok(v),
            },
            CastKind::PtrToPtr | CastKind::Subtype => Ok(v),
            CastKind::Transmute | CastKind::BoxDerefTransmute => {
                if matches!(to.kind(), TyKind::RigidTy(RigidTy::RawPtr(..) | RigidTy::Ref(..))) {
                    if let Some(p) = unwrap_ptr(&v) {
                        return Ok(p);
                    }
                }
                if let (Val::Int(_), TyKind::RigidTy(RigidTy::Char | RigidTy::Uint(_))) = (&v, to.kind()) {
                    return Ok(v);
                }
                if from == to {
                    return Ok(v);
                }
                if let Val::Int(l) = &v {
                    match adt_name(to).as_str() {
                        "NonZero" => return Ok(v),
                        "Option" if ty_args(to).first().is_some_and(|t| adt_name(*t) == "NonZero") => {
                            return Ok(if st.decide_eq(l)? { none() } else { some(v) });
                        }
                        _ => {}
                    }
                }
                if let (Val::Ptr(..) | Val::T(..), TyKind::RigidTy(RigidTy::Adt(..))) = (&v, to.kind()) {
                    return Ok(wrap_ptr(to, v));
                }
                if let (Val::Agg(..), TyKind::RigidTy(RigidTy::Adt(..))) = (&v, to.kind()) {
                    if let Some(p) = unwrap_ptr(&v) {
                        return Ok(wrap_ptr(to, p));
                    }
                    return Ok(v);
                }
                if let TyKind::RigidTy(RigidTy::Char | RigidTy::Uint(_)) = to.kind() {
                    return Ok(v);
                }
                Ok(Val::Top)
            }
            _ => Ok(Val::Top),
        }
    }
}

pub fn is_repo(k: &str) -> bool {
    k == "kul" || k == "kul_core"
}

pub fn fname(s: &Span) -> String {
    let f = s.get_filename().to_string();
    f.strip_prefix("/repo/").unwrap_or(&f).to_string()
}

fn tainted(d: &str) -> Option<&str> {
    d.strip_prefix("untracked: ")
}

fn int_size(t: Ty) -> usize {
    match t.kind() {
        TyKind::RigidTy(RigidTy::Uint(u)) => u.num_bytes(),
        TyKind::RigidTy(RigidTy::Int(u)) => u.num_bytes(),
        TyKind::RigidTy(RigidTy::Char) => 4,
        TyKind::RigidTy(RigidTy::Bool) => 1,
        _ => 8,
    }
}
fn is_signed(t: Ty) -> bool {
    matches!(t.kind(), TyKind::RigidTy(RigidTy::Int(_)))
}
fn wrapping_safe(r: &Lin, t: Ty) -> bool {
    int_size(t) >= 8 || (r.is_const() && r.c >= 0 && r.c < (1i128 << (8 * int_size(t) as u32 - 1)))
}

/// The pointer inside nested single-pointer wrappers.
pub fn unwrap_ptr(v: &Val) -> Option<Val> {
    match v {
        Val::Ptr(..) | Val::T(..) => Some(v.clone()),
        Val::Agg(_, fs) => {
            let mut r = None;
            for f in fs {
                if let Some(p) = unwrap_ptr(f) {
                    if r.is_some() {
                        return None;
                    }
                    r = Some(p);
                }
            }
            r
        }
        _ => None,
    }
}

/// Builds a pointer wrapper (Box, NonNull, ...) of the given type.
pub fn wrap_ptr(ty: Ty, p: Val) -> Val {
    fn go(ty: Ty, p: &Val, done: &mut bool) -> Val {
        match ty.kind() {
            TyKind::RigidTy(RigidTy::RawPtr(..) | RigidTy::Ref(..) | RigidTy::Pat(..)) if !*done => {
                *done = true;
                p.clone()
            }
            TyKind::RigidTy(RigidTy::Adt(d, a)) if d.kind() == AdtKind::Struct => Val::Agg(
                0,
                d.variants()[0].fields().iter().map(|f| go(f.ty_with_args(&a), p, done)).collect(),
            ),
            _ => unit(),
        }
    }
    go(ty, &p, &mut false)
}

impl Frame {
    /// The result of a suspended call goes here when it is resumed.
    fn dest_pending(&mut self, d: Place) {
        self.pending.push(d)
    }
    fn take_dest_pending(&mut self) -> Place {
        self.pending.pop().unwrap()
    }
}

pub fn find_fn(name: &str) -> Option<Instance> {
    for f in rustc_public::local_crate().fn_defs() {
        let n = f.name();
        if n == name || n.ends_with(&format!("::{name}")) {
            if let Ok(i) = Instance::resolve(f, &GenericArgs(vec![])) {
                return Some(i);
            }
        }
    }
    None
}

/// States that were explored already.
#[derive(Default)]
pub struct Seen(HashMap<Key, Vec<Facts>>);

impl Seen {
    /// Canonicalises; true if the state is new.
    pub fn add(&mut self, st: &mut State) -> bool {
        let key = st.canon(true);
        let e = self.0.entry(key).or_default();
        if e.iter().any(|f| f.ge.iter().all(|l| st.facts.proves(l))) {
            return false;
        }
        e.push(st.facts.clone());
        true
    }
}

/// The index of a variant, by name.
pub fn variant(ty: Ty, name: &str) -> Option<u32> {
    match ty.kind() {
        TyKind::RigidTy(RigidTy::Adt(d, _)) => d
            .variants()
            .iter()
            .position(|v| v.name().rsplit("::").next() == Some(name))
            .map(|i| i as u32),
        _ => None,
    }
}

/// The number of variants.
pub fn variants(ty: Ty) -> usize {
    match ty.kind() {
        TyKind::RigidTy(RigidTy::Adt(d, _)) => d.variants().len(),
        _ => 1,
    }
}

/// The generic arguments of an ADT type that are types.
pub fn ty_args(ty: Ty) -> Vec<Ty> {
    match ty.kind() {
        TyKind::RigidTy(RigidTy::Adt(_, a)) => {
            a.0.iter().filter_map(|k| if let GenericArgKind::Type(t) = k { Some(*t) } else { None }).collect()
        }
        TyKind::RigidTy(RigidTy::Ref(_, t, _)) => vec![t],
        TyKind::RigidTy(RigidTy::Tuple(ts)) => ts,
        _ => vec![],
    }
}

/// The last segment of an ADT's name.
pub fn adt_name(ty: Ty) -> String {
    match ty.kind() {
        TyKind::RigidTy(RigidTy::Adt(d, _)) => {
            d.name().rsplit("::").next().unwrap_or("").to_string()
        }
        _ => String::new(),
    }
}

/// The types of the fields of a variant.
pub fn field_tys(ty: Ty, variant: usize) -> Vec<Ty> {
    match ty.kind() {
        TyKind::RigidTy(RigidTy::Adt(d, a)) => match d.variants().get(variant) {
            Some(v) => v.fields().iter().map(|f| f.ty_with_args(&a)).collect(),
            None => vec![],
        },
        TyKind::RigidTy(RigidTy::Tuple(ts)) => ts,
        _ => vec![],
    }
}

/// Builds a struct from a value for each field type.
pub fn mk_struct(ty: Ty, f: &mut dyn FnMut(Ty) -> Val) -> Val {
    Val::Agg(0, field_tys(ty, 0).into_iter().map(|t| f(t)).collect())
}

/// A value of a type that is made of abstract leaf types of the subject crate.
pub fn inhabit(ty: Ty) -> Val {
    match ty.kind() {
        TyKind::RigidTy(RigidTy::Adt(d, _)) if d.kind() == AdtKind::Struct => {
            if d.krate().name == "kulv_subject" {
                return Val::Agg(0, vec![Val::T("leaf", vec![name(&adt_name(ty))])]);
            }
            mk_struct(ty, &mut |t| inhabit(t))
        }
        TyKind::RigidTy(RigidTy::Tuple(ts)) => tup(ts.into_iter().map(inhabit).collect()),
        _ => unit(),
    }
}

pub fn entry(name: &str) -> Instance {
    find_fn(name).unwrap_or_else(|| panic!("the subject crate has no {name}"))
}

#[allow(unused)]
pub type Set<T> = HashSet<T>;
