//! Datums, errors and references to datums: comparing, hashing, referring,
//! allocating and dropping.

use crate::prelude::*;
use kul::datum::*;
use kul::drop::Algo1DatumRef;
use kul::parser::{ArcDatumAllocator, BoxDatumAllocator, RcDatumAllocator};
use kul::text::chunk::PosStr;
use kul::text::TextVec;
use std::hash::{Hash, Hasher};

pub fn stub_leaf_eq<A, B>(_: &A, _: &B) -> bool {
    loop {}
}
pub fn stub_leaf_hash<A>(_: &A) {
    loop {}
}
pub fn stub_leaf_clone<A>(_: &A) -> A {
    loop {}
}
pub fn stub_target<A, B>(_: &A) -> &B {
    loop {}
}
pub fn stub_target_hash<A>(_: &A) {
    loop {}
}
pub fn stub_feed<T: ?Sized>(_: usize, _: &T) {
    loop {}
}

macro_rules! leaf {
    ($($a:ident, $b:ident;)*) => {$(
        pub struct $a(pub usize);
        pub struct $b(pub usize);
        impl PartialEq for $a {
            fn eq(&self, o: &$a) -> bool {
                stub_leaf_eq(self, o)
            }
        }
        impl Eq for $a {}
        impl PartialEq<$b> for $a {
            fn eq(&self, o: &$b) -> bool {
                stub_leaf_eq(self, o)
            }
        }
        impl Hash for $a {
            fn hash<H: Hasher>(&self, _: &mut H) {
                stub_leaf_hash(self)
            }
        }
        impl Clone for $a {
            fn clone(&self) -> $a {
                stub_leaf_clone(self)
            }
        }
        impl Drop for $a {
            fn drop(&mut self) {}
        }
    )*};
}
leaf! {
    ATxt, BTxt;
    AExt, BExt;
    APos, BPos;
    ACe, BCe;
}

macro_rules! refs {
    ($($r:ident: $t:ident, $e:ident;)*) => {$(
        pub struct $r(pub usize);
        impl Deref for $r {
            type Target = Datum<$t, $e, $r>;
            fn deref(&self) -> &Self::Target {
                stub_target(self)
            }
        }
        impl DerefTryMut for $r {
            fn get_mut(_: &mut Self) -> Option<&mut Self::Target> {
                loop {}
            }
        }
        impl Hash for $r {
            fn hash<H: Hasher>(&self, _: &mut H) {
                stub_target_hash(self)
            }
        }
    )*};
}
refs! {
    ARef: ATxt, AExt;
    BRef: BTxt, BExt;
}

pub struct AHasher(pub usize);
macro_rules! feeds {
    ($($f:ident: $t:ty = $n:literal),*) => {$(
        fn $f(&mut self, x: $t) {
            stub_feed($n, &x)
        }
    )*};
}
impl Hasher for AHasher {
    fn finish(&self) -> u64 {
        loop {}
    }
    fn write(&mut self, x: &[u8]) {
        stub_feed(0, x)
    }
    feeds! {
        write_u8: u8 = 1, write_u16: u16 = 2, write_u32: u32 = 3, write_u64: u64 = 4,
        write_u128: u128 = 5, write_usize: usize = 6, write_i8: i8 = 7, write_i16: i16 = 8,
        write_i32: i32 = 9, write_i64: i64 = 10, write_i128: i128 = 11, write_isize: isize = 12
    }
}

pub mod datum {
    use super::*;
    pub fn entry_eq(a: &Datum<ATxt, AExt, ARef>, b: &Datum<BTxt, BExt, BRef>) -> bool {
        PartialEq::eq(a, b)
    }
    pub fn entry_ne(a: &Datum<ATxt, AExt, ARef>, b: &Datum<BTxt, BExt, BRef>) -> bool {
        PartialEq::ne(a, b)
    }
    pub fn entry_hash(a: &Datum<ATxt, AExt, ARef>, h: &mut AHasher) {
        Hash::hash(a, h)
    }
}

pub mod error {
    use super::*;
    pub fn entry_eq(a: &Error<APos, ACe>, b: &Error<BPos, BCe>) -> bool {
        PartialEq::eq(a, b)
    }
    pub fn entry_ne(a: &Error<APos, ACe>, b: &Error<BPos, BCe>) -> bool {
        PartialEq::ne(a, b)
    }
}

macro_rules! kinds {
    ($($m:ident: $r:ty;)*) => {$(
        pub mod $m {
            use super::*;
            pub fn entry_eq(a: &$r, b: &$r) -> bool {
                PartialEq::eq(a, b)
            }
            pub fn entry_ne(a: &$r, b: &$r) -> bool {
                PartialEq::ne(a, b)
            }
            pub fn entry_hash(a: &$r, h: &mut AHasher) {
                Hash::hash(a, h)
            }
            pub fn entry_deref(a: &$r) -> &Datum<ATxt, AExt, $r> {
                Deref::deref(a)
            }
            pub fn entry_get_mut<'x, 'y>(a: &'x mut $r) -> Option<&'x mut Datum<ATxt, AExt, $r>> {
                DerefTryMut::get_mut(a)
            }
        }
    )*};
}
kinds! {
    boxes: DatumBox<ATxt, AExt>;
    rcs: DatumRc<ATxt, AExt>;
    arcs: DatumArc<ATxt, AExt>;
}
pub mod muts {
    use super::*;
    type R<'d> = DatumMutRef<'d, ATxt, AExt>;
    pub fn entry_eq<'d>(a: &R<'d>, b: &R<'d>) -> bool {
        PartialEq::eq(a, b)
    }
    pub fn entry_ne<'d>(a: &R<'d>, b: &R<'d>) -> bool {
        PartialEq::ne(a, b)
    }
    pub fn entry_hash(a: &R<'_>, h: &mut AHasher) {
        Hash::hash(a, h)
    }
    pub fn entry_deref<'x, 'd>(a: &'x R<'d>) -> &'x MutRefDatum<'d, ATxt, AExt> {
        Deref::deref(a)
    }
    pub fn entry_get_mut<'x, 'd>(a: &'x mut R<'d>) -> Option<&'x mut MutRefDatum<'d, ATxt, AExt>> {
        DerefTryMut::get_mut(a)
    }
    pub fn entry_deref_mut<'x, 'd>(a: &'x mut R<'d>) -> &'x mut MutRefDatum<'d, ATxt, AExt> {
        std::ops::DerefMut::deref_mut(a)
    }
}

macro_rules! heap {
    ($($m:ident, $r:ident, $al:ident;)*) => {$(
        pub mod $m {
            use super::*;
            type T = TextVec<PosStr<'static>>;
            pub fn entry_new(d: Datum<ATxt, AExt, $r<ATxt, AExt>>) -> $r<ATxt, AExt> {
                <$r<ATxt, AExt>>::new(d)
            }
            pub fn entry_alloc(
                al: &mut $al<T, AExt>,
                d: Datum<T, AExt, $r<T, AExt>>,
            ) -> Result<$r<T, AExt>, AllocError> {
                al.new_datum(d)
            }
            pub fn entry_try_replace(
                a: &mut $r<ATxt, AExt>,
                d: Datum<ATxt, AExt, $r<ATxt, AExt>>,
            ) -> Result<Datum<ATxt, AExt, $r<ATxt, AExt>>, Datum<ATxt, AExt, $r<ATxt, AExt>>> {
                Algo1DatumRef::try_replace(a, d)
            }
            pub fn entry_set(a: &mut $r<ATxt, AExt>, d: Datum<ATxt, AExt, $r<ATxt, AExt>>) {
                Algo1DatumRef::set(a, d)
            }
            pub fn entry_drop(_: $r<ATxt, AExt>) {}
            pub fn entry_clone(a: &$r<ATxt, AExt>) -> $r<ATxt, AExt> {
                Clone::clone(a)
            }
        }
    )*};
}
heap! {
    box_heap, DatumBox, BoxDatumAllocator;
    rc_heap, DatumRc, RcDatumAllocator;
    arc_heap, DatumArc, ArcDatumAllocator;
}
pub mod box_mut {
    use super::*;
    pub fn entry_deref_mut(a: &mut DatumBox<ATxt, AExt>) -> &mut BoxDatum<ATxt, AExt> {
        std::ops::DerefMut::deref_mut(a)
    }
}
