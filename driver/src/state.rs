//! Abstract program states and their canonical form.

use crate::body::BodyInfo;
use crate::facts::Facts;
use crate::val::*;
use rustc_public::mir::Place;
use std::collections::{BTreeMap, BTreeSet, HashMap, VecDeque};
use std::rc::Rc;

/// Why the evaluation of a step stopped.
#[derive(Debug, Clone)]
pub enum Stop {
    /// The step needs a choice among so many alternatives.
    Fork(usize),
    /// The path contradicts its facts.
    Infeasible,
    /// The analysed code panics.
    Panic(String),
    /// The analysis cannot follow the construct.
    Unknown(String),
    /// The path ends (after something was reported).
    Halt,
}
pub type R<T> = Result<T, Stop>;

pub fn unknown<T>(s: impl Into<String>) -> R<T> {
    Err(Stop::Unknown(s.into()))
}

#[derive(Clone)]
pub struct Frame {
    pub body: Rc<BodyInfo>,
    pub bb: usize,
    pub stmt: usize,
    pub locals: Vec<Option<CellId>>,
    /// Where the result of a suspended call goes.
    pub pending: Vec<Place>,
    /// Where the caller wants the result.
    pub dest: Option<Place>,
}

/// Something noticed on a path; taken over by the engine when the step that
/// noticed it is committed.
#[derive(Clone, Debug)]
pub enum LogEv {
    Check { rule: &'static str, site: String },
    Violation { rule: &'static str, func: String, site: String, detail: String },
    Note(String),
    Reach(String),
}

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Frame>,
    pub cells: Vec<Val>,
    pub facts: Facts,
    pub ghosts: BTreeMap<&'static str, Val>,
    pub attrs: BTreeMap<SymId, BTreeMap<&'static str, Val>>,
    pub memo: BTreeMap<Val, Val>,
    pub anchors: Vec<Val>,
    pub next_sym: SymId,
    // Not part of the identity of the state:
    pub choices: Vec<usize>,
    pub cursor: usize,
    pub log: Vec<LogEv>,
    pub imprecise: Option<String>,
    pub trace: Option<Rc<TraceNode>>,
    pub last_node: usize,
    /// Consumption since `last_node`, and since the context was entered.
    pub prog: bool,
    pub prog_total: bool,
    /// Something outside of the state has moved on since `last_node`.
    pub outside: bool,
    /// No choice was made since `last_node`.
    pub forced: bool,
    /// The function of the analysed crates that was entered or left last.
    pub last_fn: Option<Rc<(String, String)>>,
    /// The type of the value returned by a finished context.
    pub ret_ty: Option<rustc_public::ty::Ty>,
    /// Loop heads passed so far.
    pub depth: u32,
    /// Whether the last canonicalisation left every value as it was.
    pub unchanged: bool,
    /// Constants are never generalised.
    pub exact: bool,
    /// Constants above this are generalised all the same; what is found
    /// afterwards is not reported. 0 for none.
    pub gen: i128,
    /// Widths of characters that were passed are no longer known.
    pub forgot: bool,
    /// The explored states this one comes from.
    pub hist: Option<Rc<crate::widen::Hist>>,
}

pub struct TraceNode {
    pub what: String,
    pub prev: Option<Rc<TraceNode>>,
}

impl Drop for TraceNode {
    fn drop(&mut self) {
        let mut p = self.prev.take();
        while let Some(rc) = p {
            match Rc::try_unwrap(rc) {
                Ok(mut n) => p = n.prev.take(),
                Err(_) => break,
            }
        }
    }
}

#[derive(PartialEq, Eq, Hash, Clone, Debug)]
pub struct Key {
    pub frames: Vec<(usize, usize, usize, Vec<u32>)>,
    pub cells: Vec<Val>,
    pub ghosts: Vec<(&'static str, Val)>,
    pub attrs: Vec<(SymId, Vec<(&'static str, Val)>)>,
    pub memo: Vec<(Val, Val)>,
    pub anchors: Vec<Val>,
}

impl State {
    pub fn new() -> State {
        State {
            frames: vec![],
            cells: vec![],
            facts: Facts::default(),
            ghosts: BTreeMap::new(),
            attrs: BTreeMap::new(),
            memo: BTreeMap::new(),
            anchors: vec![],
            next_sym: 0,
            choices: vec![],
            cursor: 0,
            log: vec![],
            imprecise: None,
            trace: None,
            last_node: usize::MAX,
            forced: false,
            prog: false,
            prog_total: false,
            last_fn: None,
            ret_ty: None,
            depth: 0,
            unchanged: false,
            outside: false,
            exact: false,
            gen: 0,
            forgot: false,
            hist: None,
        }
    }
    pub fn new_cell(&mut self, v: Val) -> CellId {
        self.cells.push(v);
        (self.cells.len() - 1) as CellId
    }
    pub fn alloc(&mut self, v: Val) -> Val {
        let c = self.new_cell(v);
        ptr(c)
    }
    pub fn new_sym(&mut self) -> SymId {
        self.next_sym += 1;
        self.next_sym - 1
    }
    pub fn new_int(&mut self) -> Val {
        isym(self.new_sym())
    }
    pub fn new_id(&mut self) -> Val {
        Val::Sym(self.new_sym())
    }
    pub fn tr(&mut self, s: impl Into<String>) {
        self.trace = Some(Rc::new(TraceNode { what: s.into(), prev: self.trace.take() }));
    }
    pub fn trace_tail(&self, n: usize) -> Vec<String> {
        let mut v = vec![];
        let mut p = self.trace.clone();
        while let Some(t) = p {
            v.push(t.what.clone());
            if v.len() >= n {
                break;
            }
            p = t.prev.clone();
        }
        v.reverse();
        v
    }
    /// Something outside of the state has moved on.
    pub fn progress(&mut self) {
        self.outside = true;
        self.moved();
    }
    /// Something that is part of the state has moved on, such as an iterator.
    pub fn moved(&mut self) {
        self.prog = true;
        self.prog_total = true;
    }
    pub fn choose(&mut self, n: usize) -> R<usize> {
        if n == 1 {
            return Ok(0);
        }
        if n == 0 {
            return Err(Stop::Infeasible);
        }
        if self.cursor < self.choices.len() {
            self.cursor += 1;
            self.forced = false;
            Ok(self.choices[self.cursor - 1])
        } else {
            Err(Stop::Fork(n))
        }
    }
    pub fn g(&self, k: &'static str) -> Val {
        self.ghosts.get(k).cloned().unwrap_or(Val::Uninit)
    }
    pub fn set(&mut self, k: &'static str, v: Val) {
        self.ghosts.insert(k, v);
    }
    pub fn attr(&self, s: SymId, k: &'static str) -> Option<Val> {
        self.attrs.get(&s).and_then(|m| m.get(k)).cloned()
    }
    pub fn set_attr(&mut self, s: SymId, k: &'static str, v: Val) {
        self.attrs.entry(s).or_default().insert(k, v);
    }

    // Facts

    pub fn assume_ge(&mut self, l: &Lin) -> R<()> {
        if self.facts.proves(l) {
            return Ok(());
        }
        if self.facts.proves(&l.neg().plus(-1)) {
            return Err(Stop::Infeasible);
        }
        self.facts.add(l);
        if self.facts.proves(&l.neg()) {
            return self.assume_eq(l);
        }
        Ok(())
    }
    pub fn assume_eq(&mut self, l: &Lin) -> R<()> {
        let l = &self.facts.current(l);
        if l.is_const() {
            return if l.c == 0 { Ok(()) } else { Err(Stop::Infeasible) };
        }
        if self.facts.proves(&l.plus(-1)) || self.facts.proves(&l.neg().plus(-1)) {
            return Err(Stop::Infeasible);
        }
        // Prefer to eliminate the newest symbol.
        match l.t.iter().rev().find(|x| x.1.abs() == 1) {
            Some(&(s, k)) => {
                let mut e = l.clone();
                e.t.retain(|x| x.0 != s);
                let e = e.scale(-k);
                self.subst(s, &e);
                if self.facts.infeasible() {
                    return Err(Stop::Infeasible);
                }
            }
            None => {
                self.facts.add(l);
                self.facts.add(&l.neg());
            }
        }
        Ok(())
    }
    pub fn subst(&mut self, s: SymId, e: &Lin) {
        self.facts.subst(s, e);
        self.put(s, e);
    }
    /// Brings what was stored up to date with the symbols replaced meanwhile.
    pub fn settle(&mut self) {
        let g = std::mem::take(&mut self.facts.gone);
        for (s, e) in &g {
            self.put(*s, e);
        }
    }
    fn put(&mut self, s: SymId, e: &Lin) {
        let f = |v: &mut Val| {
            if v.mentions_int(s) {
                *v = v.subst_int(s, e)
            }
        };
        self.cells.iter_mut().for_each(f);
        self.ghosts.values_mut().for_each(f);
        self.anchors.iter_mut().for_each(f);
        self.attrs.values_mut().for_each(|m| m.values_mut().for_each(f));
        if self.memo.iter().any(|(k, v)| k.mentions_int(s) || v.mentions_int(s)) {
            self.memo = self
                .memo
                .iter()
                .map(|(k, v)| (k.subst_int(s, e), v.subst_int(s, e)))
                .collect();
        }
    }
    /// Replaces a value wherever it occurs.
    pub fn replace(&mut self, old: &Val, new: &Val) {
        let f = |v: &mut Val| {
            let mut hit = false;
            v.visit(&mut |x| hit |= x == old);
            if hit {
                *v = v.map(&mut |x| if x == *old { new.clone() } else { x })
            }
        };
        self.cells.iter_mut().for_each(f);
        self.ghosts.values_mut().for_each(f);
        self.anchors.iter_mut().for_each(f);
        self.attrs.values_mut().for_each(|m| m.values_mut().for_each(f));
        self.memo = std::mem::take(&mut self.memo)
            .into_iter()
            .map(|(mut k, mut v)| {
                f(&mut k);
                f(&mut v);
                (k, v)
            })
            .collect();
    }
    /// Splits on `l >= 0` unless it is already decided.
    pub fn decide_ge(&mut self, l: &Lin) -> R<bool> {
        if self.facts.proves(l) {
            return Ok(true);
        }
        if self.facts.proves(&l.neg().plus(-1)) {
            return Ok(false);
        }
        if self.choose(2)? == 0 {
            self.assume_ge(l)?;
            Ok(true)
        } else {
            self.assume_ge(&l.neg().plus(-1))?;
            Ok(false)
        }
    }
    /// Three-way comparison of `l` with 0, splitting as needed.
    pub fn decide_cmp(&mut self, l: &Lin) -> R<std::cmp::Ordering> {
        use std::cmp::Ordering::*;
        let l = &self.facts.current(l);
        if l.is_const() {
            return Ok(l.c.cmp(&0));
        }
        let ge = self.facts.proves(l);
        let le = self.facts.proves(&l.neg());
        if ge && le {
            self.assume_eq(l)?;
            return Ok(Equal);
        }
        let gt = self.facts.proves(&l.plus(-1));
        let lt = self.facts.proves(&l.neg().plus(-1));
        if gt {
            return Ok(Greater);
        }
        if lt {
            return Ok(Less);
        }
        let mut opts = vec![Equal];
        if !le {
            opts.push(Greater)
        }
        if !ge {
            opts.push(Less)
        }
        let o = opts[self.choose(opts.len())?];
        match o {
            Equal => self.assume_eq(l)?,
            Greater => self.assume_ge(&l.plus(-1))?,
            Less => self.assume_ge(&l.neg().plus(-1))?,
        }
        Ok(o)
    }
    pub fn decide_eq(&mut self, l: &Lin) -> R<bool> {
        if l.is_const() {
            return Ok(l.c == 0);
        }
        if self.facts.proves(&l.plus(-1)) || self.facts.proves(&l.neg().plus(-1)) {
            return Ok(false);
        }
        Ok(self.decide_cmp(l)? == std::cmp::Ordering::Equal)
    }
    pub fn proves_eq(&self, l: &Lin) -> bool {
        self.facts.proves(l) && self.facts.proves(&l.neg())
    }
    /// Whether two values are certainly equal under the facts.
    pub fn same(&self, a: &Val, b: &Val) -> bool {
        match (a, b) {
            (Val::Int(x), Val::Int(y)) => x == y || self.proves_eq(&x.sub(y)),
            (Val::Agg(i, x), Val::Agg(j, y)) => {
                i == j && x.len() == y.len() && x.iter().zip(y).all(|(p, q)| self.same(p, q))
            }
            (Val::T(i, x), Val::T(j, y)) => {
                i == j && x.len() == y.len() && x.iter().zip(y).all(|(p, q)| self.same(p, q))
            }
            (Val::Top, _) | (_, Val::Top) => false,
            _ => a == b,
        }
    }
    /// Whether two values are certainly different for some instance of the
    /// symbols.
    pub fn differ(&self, a: &Val, b: &Val) -> bool {
        match (a, b) {
            (Val::Int(x), Val::Int(y)) => {
                let d = x.sub(y);
                self.facts.proves(&d.plus(-1)) || self.facts.proves(&d.neg().plus(-1))
            }
            (Val::Agg(i, x), Val::Agg(j, y)) => {
                i != j || x.len() != y.len() || x.iter().zip(y).any(|(p, q)| self.differ(p, q))
            }
            (Val::T(i, x), Val::T(j, y)) => {
                i != j || x.len() != y.len() || x.iter().zip(y).any(|(p, q)| self.differ(p, q))
            }
            (Val::Top, _) | (_, Val::Top) => false,
            _ => a != b,
        }
    }
    /// Whether two values of the same form are different for some instance of
    /// the symbols.
    pub fn may_differ(&self, a: &Val, b: &Val) -> bool {
        match (a, b) {
            (Val::Int(x), Val::Int(y)) => x != y && !self.proves_eq(&x.sub(y)),
            (Val::Agg(i, x), Val::Agg(j, y)) => {
                i == j && x.len() == y.len() && x.iter().zip(y).any(|(p, q)| self.may_differ(p, q))
            }
            (Val::T(i, x), Val::T(j, y)) => {
                i == j && x.len() == y.len() && x.iter().zip(y).any(|(p, q)| self.may_differ(p, q))
            }
            _ => false,
        }
    }
    /// A remembered, otherwise unconstrained, truth value.
    /// One of the variants of an opaque value, the same each time.
    pub fn memo_variant(&mut self, v: &Val, n: usize) -> R<u32> {
        let key = Val::T("variant", vec![v.clone()]);
        if let Some(Val::Int(l)) = self.memo.get(&key) {
            return Ok(l.c as u32);
        }
        let k = self.choose(n)?;
        self.memo.insert(key, int(k as i128));
        Ok(k as u32)
    }
    pub fn memo_bool(&mut self, key: Val) -> R<bool> {
        if let Some(Val::Bool(b)) = self.memo.get(&key) {
            return Ok(*b);
        }
        let b = self.choose(2)? == 0;
        self.memo.insert(key, Val::Bool(b));
        Ok(b)
    }

    // Memory

    pub fn read(&self, c: CellId, path: &[u32]) -> R<Val> {
        let mut v = &self.cells[c as usize];
        for p in path {
            match v {
                Val::Agg(_, fs) => match fs.get(*p as usize) {
                    Some(f) => v = f,
                    None => return unknown(format!("field {p} of {v:?}")),
                },
                Val::Top => return Ok(Val::Top),
                Val::Uninit => return unknown("read of an uninitialized field"),
                _ => return unknown(format!("projection into {v:?}")),
            }
        }
        Ok(v.clone())
    }
    pub fn rd(&self, p: &Val) -> R<Val> {
        match p {
            Val::Ptr(c, path) => self.read(*c, path),
            _ => unknown(format!("read through {p:?}")),
        }
    }
    pub fn write(&mut self, c: CellId, path: &[u32], variant: u32, nv: Val) -> R<()> {
        let mut v = &mut self.cells[c as usize];
        for p in path {
            let p = *p as usize;
            if matches!(v, Val::Uninit) {
                *v = Val::Agg(variant, vec![]);
            }
            match v {
                Val::Agg(_, fs) => {
                    while fs.len() <= p {
                        fs.push(Val::Uninit)
                    }
                    v = &mut fs[p]
                }
                Val::Top => return Ok(()),
                _ => return unknown(format!("write into {v:?}")),
            }
        }
        *v = nv;
        Ok(())
    }
    pub fn wr(&mut self, p: &Val, v: Val) -> R<()> {
        match p {
            Val::Ptr(c, path) => {
                let path = path.clone();
                self.write(*c, &path, 0, v)
            }
            _ => unknown(format!("write through {p:?}")),
        }
    }

    /// Forgets dead locals and the cells that nothing refers to. Returns the
    /// reachable cells with the number of pointers to each.
    pub fn gc(&mut self) -> BTreeMap<CellId, usize> {
        for fr in &mut self.frames {
            let live = &fr.body.live_in[fr.bb];
            for (l, c) in fr.locals.iter_mut().enumerate() {
                if fr.stmt == 0 && !live[l] {
                    *c = None
                }
            }
        }
        let mut seen: BTreeMap<CellId, usize> = BTreeMap::new();
        let mut q: Vec<CellId> = vec![];
        let mut vs: Vec<&Val> = self.anchors.iter().chain(self.ghosts.values()).collect();
        vs.extend(self.attrs.values().flat_map(|m| m.values()));
        for v in vs {
            v.visit(&mut |x| {
                if let Val::Ptr(c, _) = x {
                    let n = seen.entry(*c).or_insert(0);
                    *n += 1;
                    if *n == 1 {
                        q.push(*c)
                    }
                }
            })
        }
        for fr in &self.frames {
            for c in fr.locals.iter().flatten() {
                let n = seen.entry(*c).or_insert(0);
                *n += 1;
                if *n == 1 {
                    q.push(*c)
                }
            }
        }
        while let Some(c) = q.pop() {
            let v = &self.cells[c as usize];
            v.visit(&mut |x| {
                if let Val::Ptr(c, _) = x {
                    let n = seen.entry(*c).or_insert(0);
                    *n += 1;
                    if *n == 1 {
                        q.push(*c)
                    }
                }
            });
        }
        for c in 0..self.cells.len() {
            if !seen.contains_key(&(c as CellId)) {
                self.cells[c] = Val::Uninit;
            }
        }
        seen
    }

    // Canonical form

    /// Collects the garbage and renames everything to a canonical form.
    pub fn canon(&mut self, widen: bool) -> Key {
        self.settle();
        let widen = widen && (self.gen > 0 || !self.exact);
        for fr in &mut self.frames {
            let live = &fr.body.live_in[fr.bb];
            for (l, c) in fr.locals.iter_mut().enumerate() {
                if fr.stmt == 0 && !live[l] {
                    *c = None
                }
            }
        }
        // A callee's destination place may need the caller's local.
        // (`live_in` of the return block covers plain locals.)
        let mut cn = Canon {
            cellmap: HashMap::new(),
            queue: VecDeque::new(),
            sub: BTreeMap::new(),
            opaque: HashMap::new(),
            next: 0,
            consts: BTreeMap::new(),
            newfacts: vec![],
            widen,
            limit: self.gen.max(2),
        };
        let anchors: Vec<Val> = self.anchors.iter().map(|v| cn.val(v)).collect();
        let mut frames = vec![];
        for fr in &mut self.frames {
            let mut ls = vec![];
            for c in fr.locals.iter_mut() {
                match c {
                    Some(id) if !matches!(self.cells[*id as usize], Val::Uninit) => {
                        let n = cn.cell(*id);
                        ls.push(n + 1);
                        *c = Some(n);
                    }
                    Some(id) => {
                        let n = cn.cell(*id);
                        ls.push(n + 1);
                        *c = Some(n);
                    }
                    None => ls.push(0),
                }
            }
            frames.push((fr.body.id, fr.bb, fr.stmt, ls));
        }
        let mut cells = vec![];
        while let Some(c) = cn.queue.pop_front() {
            let v = cn.val(&self.cells[c as usize]);
            cells.push(v);
        }
        let mut ghosts: BTreeMap<&'static str, Val> = BTreeMap::new();
        for (k, v) in &self.ghosts {
            ghosts.insert(k, cn.val(v));
        }
        while let Some(c) = cn.queue.pop_front() {
            let v = cn.val(&self.cells[c as usize]);
            cells.push(v);
        }
        // Attributes of live opaque symbols, to a fixpoint.
        let mut attrs: BTreeMap<SymId, BTreeMap<&'static str, Val>> = BTreeMap::new();
        loop {
            let mut todo: Vec<(SymId, SymId)> = cn
                .opaque
                .iter()
                .filter(|(o, n)| self.attrs.contains_key(o) && !attrs.contains_key(n))
                .map(|(o, n)| (*n, *o))
                .collect();
            todo.sort();
            if todo.is_empty() {
                break;
            }
            for (n, o) in todo {
                let m = self.attrs[&o].iter().map(|(k, v)| (*k, cn.val(v))).collect();
                attrs.insert(n, m);
            }
        }
        // Remembered facts about live things.
        let mut memo = BTreeMap::new();
        for (k, v) in &self.memo {
            if let (Some(k), Some(v)) = (cn.known(k), cn.known(v)) {
                memo.insert(k, v);
            }
        }
        self.forgot |= memo.len() < self.memo.len();
        // Values remembered in the memo table may hold cells.
        while let Some(c) = cn.queue.pop_front() {
            let v = cn.val(&self.cells[c as usize]);
            cells.push(v);
        }
        // The facts in terms of the new symbols.
        let mut facts = Facts::default();
        let mut ge: Vec<Lin> = self.facts.ge.clone();
        for s in cn.sub.keys() {
            ge.push(Lin::s(*s));
        }
        for l in ge {
            let mut r = l.clone();
            for (s, _) in &l.t {
                if let Some(e) = cn.sub.get(s) {
                    r = r.subst(*s, e);
                }
            }
            if self.gen > 0 && widen && r.c.abs() > cn.limit && !r.is_const() {
                // What is known of a number that was generalised.
                if let Some(g) = cn.general(r.c.abs()) {
                    facts.ge.push(Lin { c: 0, t: r.t.clone() }.addk(&g, r.c.signum()));
                }
            }
            if !(r.is_const() && r.c >= 0) {
                facts.ge.push(r);
            }
        }
        facts.ge.extend(cn.newfacts.iter().cloned());
        facts.ge.sort();
        facts.ge.dedup();
        let keep: BTreeSet<SymId> = (0..cn.next).map(|i| NEW + i).collect();
        let all = facts.project(&keep);
        // Down to the small names.
        let mut dn = |s: SymId| if s >= NEW { s - NEW } else { s };
        facts.ge = facts.ge.iter().map(|l| l.rename(&mut dn)).collect();
        if self.gen > 0 && !cn.consts.is_empty() && self.imprecise.is_none() {
            self.imprecise = Some("generalised from repetitions".into());
        }
        let before = self.exact.then(|| facts.clone());
        facts.normalise(if self.hist.is_some() {
            if self.imprecise.is_some() { 1 } else { 4 }
        } else if self.exact && !(self.gen > 0 && self.imprecise.is_some()) {
            i128::MAX / 8
        } else if widen {
            self.gen.max(2)
        } else {
            4
        });
        let down = |v: &Val| {
            v.map(&mut |v| match v {
                Val::Int(l) => Val::Int(l.rename(&mut |s| if s >= NEW { s - NEW } else { s })),
                Val::Sym(s) => Val::Sym(if s >= NEW { s - NEW } else { s }),
                o => o,
            })
        };
        self.anchors = anchors.iter().map(down).collect();
        self.cells = cells.iter().map(down).collect();
        self.ghosts = ghosts.iter().map(|(k, v)| (*k, down(v))).collect();
        self.attrs = attrs
            .iter()
            .map(|(k, m)| (*k - NEW, m.iter().map(|(k, v)| (*k, down(v))).collect()))
            .collect();
        self.memo = memo.iter().map(|(k, v)| (down(k), down(v))).collect();
        if let Some(before) = before.as_ref().filter(|_| self.hist.is_some()) {
            // Which numbers are positive, and that no number is negative, is
            // kept.
            let mut add: Vec<Lin> = vec![];
            let mut f = |v: &Val| {
                v.visit(&mut |v| {
                    if let Val::Int(l) = v {
                        if l.is_const() {
                            return;
                        }
                        for l in [l.plus(-1), l.clone()] {
                            if facts.proves(&l) {
                                break;
                            }
                            if before.proves(&l) {
                                add.push(l);
                                break;
                            }
                        }
                    }
                })
            };
            self.cells.iter().for_each(&mut f);
            self.ghosts.values().for_each(&mut f);
            facts.ge.extend(add);
            facts.ge.sort();
            facts.ge.dedup();
        }
        if self.imprecise.is_none() {
            if let Some(before) = before {
                if !all || before.ge.iter().any(|l| !facts.proves(l)) {
                    self.imprecise = Some("relations were given up".into());
                }
            }
        }
        self.facts = facts;
        self.unchanged = cn.consts.is_empty()
            && cn.sub.iter().all(|(s, e)| *e == Lin::s(NEW + s))
            && cn.opaque.iter().all(|(s, n)| *n == NEW + s);
        self.next_sym = cn.next;
        Key {
            frames,
            cells: self.cells.clone(),
            ghosts: self.ghosts.iter().map(|(k, v)| (*k, v.clone())).collect(),
            attrs: self
                .attrs
                .iter()
                .map(|(k, m)| (*k, m.iter().map(|(a, b)| (*a, b.clone())).collect()))
                .collect(),
            memo: self.memo.iter().map(|(k, v)| (k.clone(), v.clone())).collect(),
            anchors: self.anchors.clone(),
        }
    }
}

/// New symbols are numbered from here while renaming.
const NEW: SymId = 1 << 30;

struct Canon {
    cellmap: HashMap<CellId, CellId>,
    queue: VecDeque<CellId>,
    /// Old integer symbols in terms of new symbols (and old ones that are not
    /// yet rebased).
    sub: BTreeMap<SymId, Lin>,
    opaque: HashMap<SymId, SymId>,
    next: SymId,
    consts: BTreeMap<i128, SymId>,
    newfacts: Vec<Lin>,
    widen: bool,
    limit: i128,
}

impl Canon {
    fn cell(&mut self, c: CellId) -> CellId {
        let n = self.cellmap.len() as CellId;
        match self.cellmap.entry(c) {
            std::collections::hash_map::Entry::Occupied(o) => *o.get(),
            std::collections::hash_map::Entry::Vacant(v) => {
                v.insert(n);
                self.queue.push_back(c);
                n
            }
        }
    }
    fn fresh(&mut self) -> SymId {
        self.next += 1;
        NEW + self.next - 1
    }
    fn apply(&self, l: &Lin) -> Lin {
        let mut r = l.clone();
        for (s, _) in &l.t {
            if *s < NEW {
                if let Some(e) = self.sub.get(s) {
                    r = r.subst(*s, e)
                }
            }
        }
        r
    }
    fn int(&mut self, l: &Lin) -> Lin {
        let r = self.apply(l);
        if !r.is_const() {
            if let Some(&(s, k)) = r.t.iter().rev().find(|x| x.0 < NEW && x.1.abs() == 1) {
                let n = self.fresh();
                let mut rest = r.clone();
                rest.t.retain(|x| x.0 != s);
                // n = k*s + rest  =>  s = k*(n - rest)
                let e = Lin::s(n).sub(&rest).scale(k);
                for v in self.sub.values_mut() {
                    *v = v.subst(s, &e);
                }
                self.sub.insert(s, e);
                return Lin::s(n);
            }
        }
        if !self.widen || r.c.abs() <= self.limit {
            return r;
        }
        let g = match self.general(r.c.abs()) {
            Some(g) => g,
            None => {
                let n = self.fresh();
                self.consts.insert(r.c.abs(), n);
                self.newfacts.push(Lin::s(n).plus(-r.c.abs()));
                Lin::s(n)
            }
        };
        Lin { c: 0, t: r.t.clone() }.addk(&g, r.c.signum())
    }
    /// A constant in terms of one that was generalised before, if close.
    fn general(&self, c: i128) -> Option<Lin> {
        [0, 1, -1, 2, -2]
            .into_iter()
            .find_map(|d| self.consts.get(&(c - d)).map(|s| Lin::s(*s).plus(d)))
    }
    fn val(&mut self, v: &Val) -> Val {
        match v {
            Val::Int(l) => Val::Int(self.int(l)),
            Val::Agg(i, fs) => Val::Agg(*i, fs.iter().map(|x| self.val(x)).collect()),
            Val::T(t, fs) => Val::T(t, fs.iter().map(|x| self.val(x)).collect()),
            Val::Ptr(c, p) => Val::Ptr(self.cell(*c), p.clone()),
            Val::Sym(s) => {
                if let Some(n) = self.opaque.get(s) {
                    return Val::Sym(*n);
                }
                let n = self.fresh();
                self.opaque.insert(*s, n);
                Val::Sym(n)
            }
            o => o.clone(),
        }
    }
    /// Like `val` but only if everything in it is already known.
    fn known(&mut self, v: &Val) -> Option<Val> {
        Some(match v {
            Val::Int(l) => {
                let r = self.apply(l);
                if r.t.iter().any(|x| x.0 < NEW) {
                    return None;
                }
                if self.widen && r.c.abs() > self.limit {
                    if let Some(g) = self.general(r.c.abs()) {
                        return Some(Val::Int(
                            Lin { c: 0, t: r.t.clone() }.addk(&g, r.c.signum()),
                        ));
                    }
                }
                Val::Int(r)
            }
            Val::Agg(i, fs) => {
                Val::Agg(*i, fs.iter().map(|x| self.known(x)).collect::<Option<_>>()?)
            }
            Val::T(t, fs) => Val::T(t, fs.iter().map(|x| self.known(x)).collect::<Option<_>>()?),
            Val::Ptr(c, p) => Val::Ptr(*self.cellmap.get(c)?, p.clone()),
            Val::Sym(s) => Val::Sym(*self.opaque.get(s)?),
            o => o.clone(),
        })
    }
}
