//! The operations of texts: concatenation, comparison, hashing, encoding.

use crate::prelude::*;
use kul::datum::DatumMutRef;
use kul::text::chunk::CharPos;
use kul::text::{TextDatumList, TextVec};
use std::cmp::Ordering;
use std::hash::{Hash, Hasher};

/// A chunk of some characters.
pub struct AChunk(pub usize);
pub struct AStrm(pub usize);

impl TextBase for AChunk {
    type Pos = CharPos;
    fn empty() -> Self {
        stub_chunk_empty()
    }
    fn is_empty(&self) -> bool {
        stub_chunk_is_empty(self)
    }
}
impl TextChunk for AChunk {
    type CharsSrcStrm = AStrm;
    fn src_strm(&self) -> AStrm {
        stub_chunk_strm(self)
    }
}
impl Clone for AChunk {
    fn clone(&self) -> Self {
        stub_chunk_clone(self)
    }
}
impl Iterator for AStrm {
    type Item = SourceIterItem<CharPos>;
    fn next(&mut self) -> Option<Self::Item> {
        match stub_strm_next(self) {
            Some((ch, pos)) => Some(SourceIterItem { ch, pos: CharPos(pos) }),
            None => None,
        }
    }
}
impl chunk::SourceStream<AChunk> for AStrm {
    fn peek(&mut self) -> Option<&SourceIterItem<CharPos>> {
        stub_strm_other()
    }
    fn next_accum(&mut self) -> Option<SourceIterItem<CharPos>> {
        stub_strm_other()
    }
    fn accum_done(&mut self) -> AChunk {
        stub_strm_other()
    }
}

pub fn stub_chunk_empty() -> AChunk {
    loop {}
}
pub fn stub_chunk_is_empty(_: &AChunk) -> bool {
    loop {}
}
pub fn stub_chunk_strm(_: &AChunk) -> AStrm {
    loop {}
}
pub fn stub_chunk_clone(_: &AChunk) -> AChunk {
    loop {}
}
pub fn stub_strm_next(_: &mut AStrm) -> Option<(char, usize)> {
    loop {}
}
pub fn stub_strm_other<T>() -> T {
    loop {}
}

pub type V = TextVec<AChunk>;
pub type L = TextDatumList<'static, AChunk, ()>;

/// An allocator that may fail.
pub struct AAlloc(pub usize);
impl DatumAllocator for AAlloc {
    type TT = L;
    type ET = ();
    type DR = DatumMutRef<'static, L, ()>;
    fn new_datum(&mut self, d: Datum<L, (), Self::DR>) -> Result<Self::DR, AllocError> {
        stub_new_datum(d)
    }
}
pub fn stub_new_datum(
    _: Datum<L, (), DatumMutRef<'static, L, ()>>,
) -> Result<DatumMutRef<'static, L, ()>, AllocError> {
    loop {}
}

/// A hasher that takes what it is given.
pub struct AHasher(pub usize);
pub fn stub_feed<T: ?Sized>(_: usize, _: &T) {
    loop {}
}
macro_rules! feeds {
    ($($f:ident: $t:ty = $n:literal),*) => {$(
        fn $f(&mut self, x: $t) {
            stub_feed($n, &x)
        }
    )*};
}
impl Hasher for AHasher {
    fn finish(&self) -> u64 {
        loop {}
    }
    fn write(&mut self, x: &[u8]) {
        stub_feed(0, x)
    }
    feeds! {
        write_u8: u8 = 1, write_u16: u16 = 2, write_u32: u32 = 3, write_u64: u64 = 4,
        write_u128: u128 = 5, write_usize: usize = 6, write_i8: i8 = 7, write_i16: i16 = 8,
        write_i32: i32 = 9, write_i64: i64 = 10, write_i128: i128 = 11, write_isize: isize = 12
    }
}

macro_rules! pair {
    ($m:ident, $x:ty, $y:ty) => {
        pub mod $m {
            use super::*;
            pub fn entry_eq(a: &$x, b: &$y) -> bool {
                PartialEq::eq(a, b)
            }
            pub fn entry_ne(a: &$x, b: &$y) -> bool {
                PartialEq::ne(a, b)
            }
            pub fn entry_text_eq(a: &$x, b: &$y) -> bool {
                Text::eq(a, b)
            }
            pub fn entry_partial_cmp(a: &$x, b: &$y) -> Option<Ordering> {
                PartialOrd::partial_cmp(a, b)
            }
            pub fn entry_text_cmp(a: &$x, b: &$y) -> Ordering {
                Text::cmp(a, b)
            }
        }
    };
}
pair!(vv, V, V);
pair!(vl, V, L);
pair!(lv, L, V);
pair!(ll, L, L);

macro_rules! single {
    ($m:ident, $x:ty) => {
        pub mod $m {
            use super::*;
            pub fn entry_cmp(a: &$x, b: &$x) -> Ordering {
                Ord::cmp(a, b)
            }
            pub fn entry_hash(a: &$x, h: &mut AHasher) {
                Hash::hash(a, h)
            }
            pub fn entry_text_hash(a: &$x, h: &mut AHasher) {
                Text::hash(a, h)
            }
            pub fn entry_encode<'b>(a: &$x, b: &'b mut [u8]) -> Result<&'b str, &'b str> {
                a.encode_utf8(b)
            }
            pub fn entry_is_empty(a: &$x) -> bool {
                a.is_empty()
            }
            pub fn entry_empty() -> $x {
                TextBase::empty()
            }
            pub fn entry_from(c: AChunk) -> $x {
                From::from(c)
            }
            pub fn entry_from_chunkish(c: AChunk) -> $x {
                Text::from_chunkish(c)
            }
            pub fn entry_concat(a: $x, b: $x, d: &mut AAlloc) -> Result<$x, AllocError> {
                a.concat(b, d)
            }
            pub fn entry_chunks(a: &$x) {
                for c in a.iter_chunks() {
                    stub_visit(c);
                }
            }
            pub fn entry_chars(a: &$x) {
                for c in a.chars() {
                    stub_show(c);
                }
            }
        }
    };
}
single!(v, V);
single!(l, L);

pub fn stub_visit(_: &AChunk) {
    loop {}
}
pub fn stub_show(_: char) {
    loop {}
}
