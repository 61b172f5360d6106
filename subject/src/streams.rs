//! Source streams of every level over abstract sources.
//!
//! Each module has the operations of a most general client. What they return
//! is taken apart through public fields and methods only.

use crate::prelude::*;
use kul::source_stream::*;
use kul::text::chunk::{CharPos, PosStr, PosStrish, StrPos};
use std::rc::Rc;
use std::sync::Arc;

type StrItem = (char, &'static str, usize, usize);

/// Chunks of borrowed strings.
pub mod posstr {
    use super::*;
    pub type C = PosStr<'static>;
    pub type S = <C as TextChunk>::CharsSrcStrm;

    fn item(it: &SourceIterItem<StrPos<'static>>) -> StrItem {
        (it.ch, it.pos.src, it.pos.byte_pos, it.pos.char_pos)
    }
    pub fn entry_chunk(s: &'static str) -> C {
        C::from(s)
    }
    pub fn entry_part(val: &'static str, src: &'static str, byte_pos: usize, char_pos: usize) -> C {
        PosStr { val, pos: StrPos { src, byte_pos, char_pos } }
    }
    pub fn entry_new(c: &C) -> S {
        c.src_strm()
    }
    pub fn entry_peek(s: &mut S) -> Option<StrItem> {
        chunk::SourceStream::peek(s).map(item)
    }
    pub fn entry_next(s: &mut S) -> Option<StrItem> {
        match s.next() {
            Some(it) => Some(item(&it)),
            None => None,
        }
    }
    pub fn entry_next_accum(s: &mut S) -> Option<StrItem> {
        match chunk::SourceStream::next_accum(s) {
            Some(it) => Some(item(&it)),
            None => None,
        }
    }
    pub fn entry_accum_done(s: &mut S) -> C {
        chunk::SourceStream::accum_done(s)
    }
    pub fn entry_observe(c: &C) -> (&'static str, &'static str, usize, usize) {
        (c.val, c.pos.src, c.pos.byte_pos, c.pos.char_pos)
    }
    pub fn entry_is_empty(c: &C) -> bool {
        c.is_empty()
    }
    pub fn entry_clone(c: &C) -> C {
        c.clone()
    }
}

macro_rules! strish {
    ($m:ident, $r:ty) => {
        /// Chunks of shared strings.
        pub mod $m {
            use super::*;
            pub type C = PosStrish<$r>;
            pub type S = <C as TextChunk>::CharsSrcStrm;

            pub fn entry_chunk(s: $r, k: usize) -> C {
                C::new(s, CharPos(k))
            }
            pub fn entry_from(s: &str) -> C {
                C::from(s)
            }
            pub fn entry_new(c: &C) -> S {
                c.src_strm()
            }
            pub fn entry_peek(s: &mut S) -> Option<(char, usize)> {
                chunk::SourceStream::peek(s).map(|it| (it.ch, it.pos.0))
            }
            pub fn entry_next(s: &mut S) -> Option<(char, usize)> {
                s.next().map(|it| (it.ch, it.pos.0))
            }
            pub fn entry_next_accum(s: &mut S) -> Option<(char, usize)> {
                chunk::SourceStream::next_accum(s).map(|it| (it.ch, it.pos.0))
            }
            pub fn entry_accum_done(s: &mut S) -> C {
                chunk::SourceStream::accum_done(s)
            }
            pub fn entry_observe(c: &C) -> (&str, usize) {
                (c.val.as_ref(), c.pos.0)
            }
            pub fn entry_is_empty(c: &C) -> bool {
                c.is_empty()
            }
            pub fn entry_clone(c: &C) -> C {
                c.clone()
            }
        }
    };
}
strish!(rc_str, Rc<str>);
strish!(rc_box, Rc<Box<str>>);
strish!(rc_string, Rc<String>);
strish!(arc_str, Arc<str>);
strish!(arc_box, Arc<Box<str>>);
strish!(arc_string, Arc<String>);

// ---- An abstract text ------------------------------------------------------

/// A chunk; `R` is the storage it came from.
pub struct AChunk(pub usize);
pub struct AText(pub usize);
pub struct AState(pub usize);
pub struct AStrm(pub usize);

impl TextBase for AChunk {
    type Pos = CharPos;
    fn empty() -> Self {
        stub_chunk_empty()
    }
    fn is_empty(&self) -> bool {
        stub_chunk_is_empty(self)
    }
}
impl TextChunk for AChunk {
    type CharsSrcStrm = AStrm;
    fn src_strm(&self) -> AStrm {
        stub_chunk_strm(self)
    }
}
impl Iterator for AStrm {
    type Item = SourceIterItem<CharPos>;
    fn next(&mut self) -> Option<Self::Item> {
        stub_strm_next(self).map(mk)
    }
}
fn mk((ch, pos): (char, usize)) -> SourceIterItem<CharPos> {
    SourceIterItem { ch, pos: CharPos(pos) }
}
impl chunk::SourceStream<AChunk> for AStrm {
    fn peek(&mut self) -> Option<&SourceIterItem<CharPos>> {
        match stub_strm_peek(self) {
            Some(x) => Some(stub_ref(mk(x))),
            None => None,
        }
    }
    fn next_accum(&mut self) -> Option<SourceIterItem<CharPos>> {
        stub_strm_next_accum(self).map(mk)
    }
    fn accum_done(&mut self) -> AChunk {
        stub_strm_accum_done(self)
    }
}
impl text::iter::chunks::State for AState {
    type Chunk = AChunk;
    fn next(&self) -> Option<(&AChunk, Option<&Self>)> {
        stub_state_next(self)
    }
}
impl TextBase for AText {
    type Pos = CharPos;
    fn empty() -> Self {
        stub_text_empty()
    }
    fn is_empty(&self) -> bool {
        stub_text_is_empty(self)
    }
}
impl From<AChunk> for AText {
    fn from(c: AChunk) -> Self {
        stub_text_from(c)
    }
}
impl Text for AText {
    type Chunk = AChunk;
    type IterChunksState = AState;
    fn iter_chunks_state(&self) -> Option<&AState> {
        stub_text_state(self)
    }
}
impl<D> TextConcat<D> for AText {
    fn concat(self, other: Self, _: &mut D) -> Result<Self, AllocError> {
        stub_text_concat(self, other)
    }
}
macro_rules! from_strish {
    ($($r:ty),*) => {$(
        impl From<PosStrish<$r>> for AChunk {
            fn from(c: PosStrish<$r>) -> Self {
                stub_chunk_of(c.val.as_ref(), c.pos.0)
            }
        }
    )*};
}
from_strish!(Rc<str>, Rc<Box<str>>, Rc<String>, Arc<str>, Arc<Box<str>>, Arc<String>);

pub fn stub_chunk_of(_: &str, _: usize) -> AChunk {
    loop {}
}
pub fn stub_chunk_empty() -> AChunk {
    loop {}
}
pub fn stub_chunk_is_empty(_: &AChunk) -> bool {
    loop {}
}
pub fn stub_chunk_strm(_: &AChunk) -> AStrm {
    loop {}
}
pub fn stub_strm_next(_: &mut AStrm) -> Option<(char, usize)> {
    loop {}
}
pub fn stub_strm_peek(_: &mut AStrm) -> Option<(char, usize)> {
    loop {}
}
pub fn stub_strm_next_accum(_: &mut AStrm) -> Option<(char, usize)> {
    loop {}
}
pub fn stub_strm_accum_done(_: &mut AStrm) -> AChunk {
    loop {}
}
pub fn stub_ref<'a, T>(_: T) -> &'a T {
    loop {}
}
pub fn stub_state_next(_: &AState) -> Option<(&AChunk, Option<&AState>)> {
    loop {}
}
pub fn stub_text_empty() -> AText {
    loop {}
}
pub fn stub_text_is_empty(_: &AText) -> bool {
    loop {}
}
pub fn stub_text_from(_: AChunk) -> AText {
    loop {}
}
pub fn stub_text_state(_: &AText) -> Option<&AState> {
    loop {}
}
pub fn stub_text_concat(_: AText, _: AText) -> Result<AText, AllocError> {
    loop {}
}

pub type ADatum = Datum<AText, (), ADr>;
pub struct ADr(pub usize);
impl Deref for ADr {
    type Target = ADatum;
    fn deref(&self) -> &ADatum {
        stub_dr_deref(self)
    }
}
impl DerefTryMut for ADr {
    fn get_mut(this: &mut Self) -> Option<&mut ADatum> {
        stub_dr_get_mut(this)
    }
}
pub fn stub_dr_deref(_: &ADr) -> &ADatum {
    loop {}
}
pub fn stub_dr_get_mut(_: &mut ADr) -> Option<&mut ADatum> {
    loop {}
}
pub struct ADa(pub usize);
impl DatumAllocator for ADa {
    type TT = AText;
    type ET = ();
    type DR = ADr;
    fn new_datum(&mut self, d: ADatum) -> Result<ADr, AllocError> {
        stub_new_datum(self, d)
    }
}
pub fn stub_new_datum(_: &mut ADa, _: ADatum) -> Result<ADr, AllocError> {
    loop {}
}

// ---- Streams of texts ------------------------------------------------------

macro_rules! client {
    ($s:ty) => {
        pub type S = $s;
        pub fn entry_peek(s: &mut S) -> Option<(char, usize)> {
            SourceStream::<ADa>::peek(s).map(|it| (it.ch, it.pos.0))
        }
        pub fn entry_next(s: &mut S) -> Option<(char, usize)> {
            s.next().map(|it| (it.ch, it.pos.0))
        }
        pub fn entry_next_accum(
            s: &mut S,
            d: &mut ADa,
        ) -> Result<Option<(char, usize)>, AllocError> {
            match SourceStream::<ADa>::next_accum(s, d) {
                Ok(Some(it)) => Ok(Some((it.ch, it.pos.0))),
                Ok(None) => Ok(None),
                Err(e) => Err(e),
            }
        }
        pub fn entry_accum_done(s: &mut S, d: &mut ADa) -> Result<AText, AllocError> {
            SourceStream::<ADa>::accum_done(s, d)
        }
    };
}

/// An iterator of characters.
pub struct AChars(pub usize);
impl Iterator for AChars {
    type Item = char;
    fn next(&mut self) -> Option<char> {
        stub_chars_next(self)
    }
}
pub fn stub_chars_next(_: &mut AChars) -> Option<char> {
    loop {}
}
macro_rules! chars {
    ($m:ident, $r:ty, $f:ident) => {
        pub mod $m {
            use super::*;
            client!(CharIterSourceStream<AChars, fn(String) -> $r, $r>);
            pub fn entry_new(c: AChars) -> S {
                CharIterSourceStream::new(c, $f as fn(String) -> $r)
            }
        }
    };
}
chars!(chars_rc_str, Rc<str>, to_rc_str);
chars!(chars_rc_box, Rc<Box<str>>, to_rc_box_str);
chars!(chars_rc_string, Rc<String>, to_rc_string);
chars!(chars_arc_str, Arc<str>, to_arc_str);
chars!(chars_arc_box, Arc<Box<str>>, to_arc_box_str);
chars!(chars_arc_string, Arc<String>, to_arc_string);

/// An iterator of shared strings.
pub struct AStrs<R>(pub usize, pub std::marker::PhantomData<R>);
impl<R> Iterator for AStrs<R> {
    type Item = R;
    fn next(&mut self) -> Option<R> {
        stub_strs_next(self)
    }
}
pub fn stub_strs_next<R>(_: &mut AStrs<R>) -> Option<R> {
    loop {}
}
macro_rules! strs {
    ($m:ident, $r:ty) => {
        pub mod $m {
            use super::*;
            client!(StrishIterSourceStream<AStrs<$r>, AText>);
            pub fn entry_new(c: AStrs<$r>) -> S {
                StrishIterSourceStream::new(c)
            }
        }
    };
}
strs!(strs_rc_str, Rc<str>);
strs!(strs_rc_box, Rc<Box<str>>);
strs!(strs_rc_string, Rc<String>);
strs!(strs_arc_str, Arc<str>);
strs!(strs_arc_box, Arc<Box<str>>);
strs!(strs_arc_string, Arc<String>);

/// The characters of a text of any kind.
pub mod text_iter {
    use super::*;
    client!(text::iter::Iter<'static, AText>);
    pub fn entry_new(t: &'static AText) -> S {
        t.iter()
    }
}
