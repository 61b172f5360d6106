//! The generic parser over abstract everything.

use crate::prelude::*;
use kul::combiner::{ApFn, OpFn};
use kul::ParseIter;

#[derive(Copy, Clone, PartialEq, Eq, Debug)]
pub struct APos(pub usize);
impl SourcePosition for APos {
    fn empty() -> Self {
        stub_pos_empty()
    }
}
pub fn stub_pos_empty() -> APos {
    loop {}
}

pub struct ACc(pub usize);
impl CharClassifier for ACc {
    fn is_nest_start(&self, c: char) -> bool {
        stub_is_start(c)
    }
    fn is_nest_end(&self, c: char) -> bool {
        stub_is_end(c)
    }
    fn is_nest_escape(&self, c: char) -> bool {
        stub_is_escape(c)
    }
    fn is_whitespace(&self, c: char) -> bool {
        stub_is_whitespace(c)
    }
}
pub fn stub_is_start(_: char) -> bool {
    loop {}
}
pub fn stub_is_end(_: char) -> bool {
    loop {}
}
pub fn stub_is_escape(_: char) -> bool {
    loop {}
}
pub fn stub_is_whitespace(_: char) -> bool {
    loop {}
}

/// A chunk; only there to satisfy the bounds.
#[derive(Debug)]
pub struct AChunk(pub usize);
impl TextBase for AChunk {
    type Pos = APos;
    fn empty() -> Self {
        stub_chunk_empty()
    }
    fn is_empty(&self) -> bool {
        stub_chunk_is_empty(self)
    }
}
pub struct AChunkStream(pub usize);
impl Iterator for AChunkStream {
    type Item = SourceIterItem<APos>;
    fn next(&mut self) -> Option<Self::Item> {
        stub_chunkstrm_next(self)
    }
}
impl chunk::SourceStream<AChunk> for AChunkStream {
    fn peek(&mut self) -> Option<&SourceIterItem<APos>> {
        stub_chunkstrm_peek(self)
    }
    fn next_accum(&mut self) -> Option<SourceIterItem<APos>> {
        stub_chunkstrm_next_accum(self)
    }
    fn accum_done(&mut self) -> AChunk {
        stub_chunkstrm_accum_done(self)
    }
}
impl TextChunk for AChunk {
    type CharsSrcStrm = AChunkStream;
    fn src_strm(&self) -> AChunkStream {
        stub_chunk_src_strm(self)
    }
}
pub fn stub_chunk_empty() -> AChunk {
    loop {}
}
pub fn stub_chunk_is_empty(_: &AChunk) -> bool {
    loop {}
}
pub fn stub_chunk_src_strm(_: &AChunk) -> AChunkStream {
    loop {}
}
pub fn stub_chunkstrm_next(_: &mut AChunkStream) -> Option<SourceIterItem<APos>> {
    loop {}
}
pub fn stub_chunkstrm_peek(_: &mut AChunkStream) -> Option<&SourceIterItem<APos>> {
    loop {}
}
pub fn stub_chunkstrm_next_accum(_: &mut AChunkStream) -> Option<SourceIterItem<APos>> {
    loop {}
}
pub fn stub_chunkstrm_accum_done(_: &mut AChunkStream) -> AChunk {
    loop {}
}

/// Chunk iteration state.
pub struct AState(pub usize);
impl text::iter::chunks::State for AState {
    type Chunk = AChunk;
    fn next(&self) -> Option<(&AChunk, Option<&Self>)> {
        stub_state_next(self)
    }
}
pub fn stub_state_next(_: &AState) -> Option<(&AChunk, Option<&AState>)> {
    loop {}
}

pub struct AText(pub usize);
impl TextBase for AText {
    type Pos = APos;
    fn empty() -> Self {
        stub_text_empty()
    }
    fn is_empty(&self) -> bool {
        stub_text_is_empty(self)
    }
}
impl From<AChunk> for AText {
    fn from(c: AChunk) -> Self {
        stub_text_from(c)
    }
}
impl Text for AText {
    type Chunk = AChunk;
    type IterChunksState = AState;
    fn iter_chunks_state(&self) -> Option<&AState> {
        stub_text_state(self)
    }
}
impl TextConcat<ADa> for AText {
    fn concat(self, other: Self, da: &mut ADa) -> Result<Self, AllocError> {
        stub_text_concat(self, other, da)
    }
}
impl PartialEq for AText {
    fn eq(&self, o: &Self) -> bool {
        stub_text_eq(self, o)
    }
}
impl Eq for AText {}
impl std::hash::Hash for AText {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        stub_text_hash(self, h)
    }
}
pub fn stub_text_empty() -> AText {
    loop {}
}
pub fn stub_text_is_empty(_: &AText) -> bool {
    loop {}
}
pub fn stub_text_from(_: AChunk) -> AText {
    loop {}
}
pub fn stub_text_state(_: &AText) -> Option<&AState> {
    loop {}
}
pub fn stub_text_concat(_: AText, _: AText, _: &mut ADa) -> Result<AText, AllocError> {
    loop {}
}
pub fn stub_text_eq(_: &AText, _: &AText) -> bool {
    loop {}
}
pub fn stub_text_hash<H>(_: &AText, _: &mut H) {
    loop {}
}

#[derive(PartialEq, Eq, Hash)]
pub struct AExtra(pub usize);

pub type ADatum = Datum<AText, AExtra, ADr>;

pub struct ADr(pub usize);
impl Deref for ADr {
    type Target = ADatum;
    fn deref(&self) -> &ADatum {
        stub_dr_deref(self)
    }
}
impl DerefTryMut for ADr {
    fn get_mut(this: &mut Self) -> Option<&mut ADatum> {
        stub_dr_get_mut(this)
    }
}
pub fn stub_dr_deref(_: &ADr) -> &ADatum {
    loop {}
}
pub fn stub_dr_get_mut(_: &mut ADr) -> Option<&mut ADatum> {
    loop {}
}

pub struct ADa(pub usize);
impl DatumAllocator for ADa {
    type TT = AText;
    type ET = AExtra;
    type DR = ADr;
    fn new_datum(&mut self, d: ADatum) -> Result<ADr, AllocError> {
        stub_new_datum(self, d)
    }
}
pub fn stub_new_datum(_: &mut ADa, _: ADatum) -> Result<ADr, AllocError> {
    loop {}
}

#[derive(PartialEq, Eq)]
pub struct ACe(pub usize);
pub struct AOr(pub usize);
pub struct AAr(pub usize);
impl Deref for AOr {
    type Target = OpFn<ADa, ACe>;
    fn deref(&self) -> &Self::Target {
        stub_or_deref(self)
    }
}
impl Deref for AAr {
    type Target = ApFn<ADa, ACe>;
    fn deref(&self) -> &Self::Target {
        stub_ar_deref(self)
    }
}
pub fn stub_or_deref(_: &AOr) -> &OpFn<ADa, ACe> {
    loop {}
}
pub fn stub_ar_deref(_: &AAr) -> &ApFn<ADa, ACe> {
    loop {}
}
pub struct AOb(pub usize);
impl OperatorBindings<ADa> for AOb {
    type OR = AOr;
    type AR = AAr;
    type CE = ACe;
    fn lookup(&self, d: &ADatum) -> Option<&Combiner<AOr, AAr>> {
        stub_lookup(self, d)
    }
}
pub fn stub_lookup<'a>(_: &'a AOb, _: &ADatum) -> Option<&'a Combiner<AOr, AAr>> {
    loop {}
}

pub struct AStream(pub usize);
impl Iterator for AStream {
    type Item = SourceIterItem<APos>;
    fn next(&mut self) -> Option<Self::Item> {
        stub_next(self)
    }
}
impl SourceStream<ADa> for AStream {
    fn peek(&mut self) -> Option<&SourceIterItem<APos>> {
        stub_peek(self)
    }
    fn next_accum(&mut self, da: &mut ADa) -> Result<Option<SourceIterItem<APos>>, AllocError> {
        stub_next_accum(self, da)
    }
    fn accum_done(&mut self, da: &mut ADa) -> Result<AText, AllocError> {
        stub_accum_done(self, da)
    }
}
pub fn stub_next(_: &mut AStream) -> Option<SourceIterItem<APos>> {
    loop {}
}
pub fn stub_peek(_: &mut AStream) -> Option<&SourceIterItem<APos>> {
    loop {}
}
pub fn stub_next_accum(
    _: &mut AStream,
    _: &mut ADa,
) -> Result<Option<SourceIterItem<APos>>, AllocError> {
    loop {}
}
pub fn stub_accum_done(_: &mut AStream, _: &mut ADa) -> Result<AText, AllocError> {
    loop {}
}

pub type AParser = Parser<ACc, ADa, AOb>;

pub fn entry_parse_start(p: &mut AParser, s: AStream) -> ParseIter<'_, AParser, AStream> {
    p.parse(s)
}
pub fn entry_parse_next(
    it: &mut ParseIter<'_, AParser, AStream>,
) -> Option<Result<ADatum, Error<APos, ACe>>> {
    it.next()
}
