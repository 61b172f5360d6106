//! Abstract values: linear integer expressions, aggregates, pointers and
//! domain terms.

use std::fmt;
use std::rc::Rc;

pub type SymId = u32;
pub type CellId = u32;

/// `c + sum(k * s)`; the symbols are sorted and the coefficients are non-zero.
/// Every symbol stands for a non-negative integer.
#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Lin {
    pub c: i128,
    pub t: Vec<(SymId, i128)>,
}

impl Lin {
    pub fn k(c: i128) -> Lin {
        Lin { c, t: vec![] }
    }
    pub fn s(s: SymId) -> Lin {
        Lin { c: 0, t: vec![(s, 1)] }
    }
    pub fn is_const(&self) -> bool {
        self.t.is_empty()
    }
    pub fn add(&self, o: &Lin) -> Lin {
        self.addk(o, 1)
    }
    pub fn sub(&self, o: &Lin) -> Lin {
        self.addk(o, -1)
    }
    pub fn plus(&self, c: i128) -> Lin {
        Lin { c: self.c + c, t: self.t.clone() }
    }
    pub fn neg(&self) -> Lin {
        self.scale(-1)
    }
    pub fn scale(&self, k: i128) -> Lin {
        if k == 0 {
            return Lin::k(0);
        }
        Lin { c: self.c * k, t: self.t.iter().map(|(s, c)| (*s, c * k)).collect() }
    }
    /// self + k * o
    pub fn addk(&self, o: &Lin, k: i128) -> Lin {
        let mut t = Vec::with_capacity(self.t.len() + o.t.len());
        let (mut i, mut j) = (0, 0);
        while i < self.t.len() || j < o.t.len() {
            if j == o.t.len() || (i < self.t.len() && self.t[i].0 < o.t[j].0) {
                t.push(self.t[i]);
                i += 1;
            } else if i == self.t.len() || o.t[j].0 < self.t[i].0 {
                t.push((o.t[j].0, o.t[j].1 * k));
                j += 1;
            } else {
                let v = self.t[i].1 + o.t[j].1 * k;
                if v != 0 {
                    t.push((self.t[i].0, v));
                }
                i += 1;
                j += 1;
            }
        }
        t.retain(|x| x.1 != 0);
        Lin { c: self.c + o.c * k, t }
    }
    pub fn coef(&self, s: SymId) -> i128 {
        self.t.iter().find(|x| x.0 == s).map_or(0, |x| x.1)
    }
    pub fn subst(&self, s: SymId, e: &Lin) -> Lin {
        let k = self.coef(s);
        if k == 0 {
            return self.clone();
        }
        let mut r = self.clone();
        r.t.retain(|x| x.0 != s);
        r.addk(e, k)
    }
    pub fn rename(&self, f: &mut dyn FnMut(SymId) -> SymId) -> Lin {
        let mut r = Lin::k(self.c);
        for (s, k) in &self.t {
            r = r.addk(&Lin::s(f(*s)), *k);
        }
        r
    }
}

impl fmt::Debug for Lin {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        let mut first = true;
        for (s, k) in &self.t {
            if !first {
                write!(f, "+")?;
            }
            first = false;
            if *k == 1 {
                write!(f, "s{s}")?
            } else {
                write!(f, "{k}*s{s}")?
            }
        }
        if first || self.c != 0 {
            write!(f, "{}{}", if first || self.c < 0 { "" } else { "+" }, self.c)?;
        }
        Ok(())
    }
}

#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Val {
    Uninit,
    Top,
    Int(Lin),
    Bool(bool),
    Agg(u32, Vec<Val>),
    Ptr(CellId, Vec<u32>),
    T(&'static str, Vec<Val>),
    Sym(SymId),
    /// Index into the engine's table of function instances.
    Fn(u32),
    Name(Rc<str>),
}

impl fmt::Debug for Val {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            Val::Uninit => write!(f, "_"),
            Val::Top => write!(f, "?"),
            Val::Int(l) => write!(f, "{l:?}"),
            Val::Bool(b) => write!(f, "{b}"),
            Val::Agg(v, fs) => {
                write!(f, "#{v}")?;
                if !fs.is_empty() {
                    f.debug_list().entries(fs).finish()?;
                }
                Ok(())
            }
            Val::Ptr(c, p) => {
                write!(f, "&c{c}")?;
                for x in p {
                    write!(f, ".{x}")?;
                }
                Ok(())
            }
            Val::T(t, vs) => {
                write!(f, "{t}(")?;
                for (i, v) in vs.iter().enumerate() {
                    if i > 0 {
                        write!(f, ",")?;
                    }
                    write!(f, "{v:?}")?;
                }
                write!(f, ")")
            }
            Val::Sym(s) => write!(f, "$s{s}"),
            Val::Fn(i) => write!(f, "fn{i}"),
            Val::Name(n) => write!(f, "'{n}'"),
        }
    }
}

pub fn int(c: i128) -> Val {
    Val::Int(Lin::k(c))
}
pub fn isym(s: SymId) -> Val {
    Val::Int(Lin::s(s))
}
pub fn unit() -> Val {
    Val::Agg(0, vec![])
}
pub fn some(v: Val) -> Val {
    Val::Agg(1, vec![v])
}
pub fn none() -> Val {
    Val::Agg(0, vec![])
}
pub fn ok(v: Val) -> Val {
    Val::Agg(0, vec![v])
}
pub fn err(v: Val) -> Val {
    Val::Agg(1, vec![v])
}
pub fn tup(v: Vec<Val>) -> Val {
    Val::Agg(0, v)
}
pub fn name(s: &str) -> Val {
    Val::Name(s.into())
}
pub fn ptr(c: CellId) -> Val {
    Val::Ptr(c, vec![])
}

impl Val {
    pub fn lin(&self) -> Option<&Lin> {
        match self {
            Val::Int(l) => Some(l),
            _ => None,
        }
    }
    pub fn konst(&self) -> Option<i128> {
        match self {
            Val::Int(l) if l.is_const() => Some(l.c),
            _ => None,
        }
    }
    pub fn tag(&self) -> &'static str {
        match self {
            Val::T(t, _) => t,
            _ => "",
        }
    }
    pub fn targs(&self, tag: &str) -> Option<&[Val]> {
        match self {
            Val::T(t, a) if *t == tag => Some(a),
            _ => None,
        }
    }
    pub fn agg(&self) -> Option<(u32, &[Val])> {
        match self {
            Val::Agg(v, f) => Some((*v, f)),
            _ => None,
        }
    }
    /// Bottom-up rewriting.
    pub fn map(&self, f: &mut dyn FnMut(Val) -> Val) -> Val {
        let v = match self {
            Val::Agg(i, fs) => Val::Agg(*i, fs.iter().map(|x| x.map(f)).collect()),
            Val::T(t, fs) => Val::T(t, fs.iter().map(|x| x.map(f)).collect()),
            o => o.clone(),
        };
        f(v)
    }
    pub fn visit(&self, f: &mut dyn FnMut(&Val)) {
        f(self);
        match self {
            Val::Agg(_, fs) | Val::T(_, fs) => fs.iter().for_each(|x| x.visit(f)),
            _ => {}
        }
    }
    pub fn subst_int(&self, s: SymId, e: &Lin) -> Val {
        self.map(&mut |v| match v {
            Val::Int(l) => Val::Int(l.subst(s, e)),
            o => o,
        })
    }
    pub fn mentions_int(&self, s: SymId) -> bool {
        let mut r = false;
        self.visit(&mut |v| {
            if let Val::Int(l) = v {
                r |= l.coef(s) != 0
            }
        });
        r
    }
    pub fn has_top(&self) -> bool {
        let mut r = false;
        self.visit(&mut |v| r |= matches!(v, Val::Top));
        r
    }
}
