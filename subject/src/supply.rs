//! The allocator that hands out slots of a slice, and the operator bindings.

use crate::prelude::*;
use kul::combiner::{ApFn, OpFn};
use kul::datum::{DatumMutRef, MutRefDatum};
use kul::parser::{EmptyOperatorBindings, PairOperatorBindings, SliceDatumAllocator};
use kul::text::chunk::PosStr;
use kul::text::TextVec;

pub type TT = TextVec<PosStr<'static>>;
pub type D = MutRefDatum<'static, TT, ()>;
pub type DA = SliceDatumAllocator<'static, TT, ()>;
pub type OR = Box<OpFn<DA, ()>>;
pub type AR = Box<ApFn<DA, ()>>;
pub type Cb = Combiner<OR, AR>;

pub mod slots {
    use super::*;
    pub fn entry_new(s: &'static mut [D]) -> DA {
        SliceDatumAllocator::new(s)
    }
    pub fn entry_new_datum(a: &mut DA, d: D) -> Result<DatumMutRef<'static, TT, ()>, AllocError> {
        a.new_datum(d)
    }
    pub fn entry_unused(a: DA) -> Option<&'static mut [D]> {
        a.unused()
    }
}

macro_rules! bindings {
    ($m:ident, $b:ty, $p:ty, $x:ident => $new:expr) => {
        pub mod $m {
            use super::*;
            pub fn entry_new($x: $p) -> $b {
                $new
            }
            pub fn entry_lookup<'a>(b: &'a $b, op: &D) -> Option<&'a <$b as Cbs>::C> {
                b.lookup(op)
            }
        }
    };
}

/// The combiners of some bindings.
pub trait Cbs: OperatorBindings<DA> {
    type C;
}
impl<B: OperatorBindings<DA>> Cbs for B {
    type C = Combiner<B::OR, B::AR>;
}

pub type Pairs<P> = PairOperatorBindings<P, DA, OR, AR, ()>;
bindings!(slice_pairs, Pairs<&'static [(D, Cb)]>, &'static [(D, Cb)], p => Pairs::new(p));
bindings!(vec_pairs, Pairs<Vec<(D, Cb)>>, Vec<(D, Cb)>, p => Pairs::new(p));
bindings!(default_pairs, Pairs<Vec<(D, Cb)>>, (), _p => Default::default());
bindings!(empty, EmptyOperatorBindings, (), _p => EmptyOperatorBindings);

pub mod maps {
    use super::*;
    use kul::parser::{BoxDatumAllocator, HashMapOperatorBindings};
    use std::collections::HashMap;
    pub type DA = BoxDatumAllocator<TT, ()>;
    pub type D = Datum<TT, (), <DA as DatumAllocator>::DR>;
    pub type OR = Box<OpFn<DA, ()>>;
    pub type AR = Box<ApFn<DA, ()>>;
    pub type Cb = Combiner<OR, AR>;
    pub type B = HashMapOperatorBindings<DA, OR, AR, ()>;
    pub fn entry_new(p: HashMap<D, Cb>) -> B {
        B::new(p)
    }
    pub fn entry_default() -> B {
        B::default()
    }
    pub fn entry_lookup<'a>(b: &'a B, op: &D) -> Option<&'a Cb> {
        b.lookup(op)
    }
}
