#![allow(dead_code, unused_variables, unused_imports, unused_mut, unused_assignments)]
use core::cell::Cell;
use std::rc::Rc;
use std::sync::Arc;
use kul::common::{inmem, stream};
use kul::datum::*;
use kul::parser::*;
use kul::source_stream::*;
use kul::text::chunk::{CharPos, PosStr, PosStrIter, PosStrish, PosStrishIter, RefCntStrish, StrPos};
use kul::text::*;
use kul::premade::inmem as core_inmem;
use kul::{Combiner, Datum, DerefTryMut, Error, ParseIter, Parser, SourceIterItem, SourceStream, Text};

type TP<'s> = TextVec<PosStr<'s>>;
type TS = TextVec<PosStrish<Rc<str>>>;
type TA = TextVec<PosStrish<Arc<str>>>;
type TL<'d> = TextDatumList<'d, PosStr<'static>, u8>;

fn send<T: Send>() {}
fn sync<T: Sync>() {}
fn both<T: Send + Sync>() {}
fn cloned<T: Clone>() {}
fn copied<T: Copy>() {}
fn take<T>(_: T) {}
