//! Instantiations of the analysed crates with abstract leaf types.
//!
//! Nothing here is ever executed. The bodies of the `stub_*` functions are
//! placeholders: the analysis gives them their meaning. The `entry_*`
//! functions name the operations that the analysis starts from.
#![allow(clippy::all)]

pub mod prelude {
    pub use kul::parser::{AllocError, CharClassifier, DatumAllocator, OperatorBindings};
    pub use kul::text::chunk;
    pub use kul::*;
    pub use std::ops::Deref;
}

#[cfg(feature = "classifier")]
pub mod classifier;
#[cfg(feature = "parser")]
pub mod parser;
#[cfg(feature = "streams")]
pub mod streams;
#[cfg(feature = "collect")]
pub mod collect;
#[cfg(feature = "supply")]
pub mod supply;
#[cfg(feature = "texts")]
pub mod texts;
#[cfg(feature = "datums")]
pub mod datums;

/// What operations of the standard library do, in terms of others.
pub mod library {
    pub fn model_collect<I: IntoIterator<Item = T>, T>(it: I) -> Vec<T> {
        let mut v = Vec::new();
        for x in it {
            v.push(x);
        }
        v
    }
    pub fn model_extend<I: IntoIterator<Item = T>, T>(v: &mut Vec<T>, it: I) {
        for x in it {
            v.push(x);
        }
    }
    pub fn model_extend_from_slice<T: Clone>(v: &mut Vec<T>, s: &[T]) {
        for x in s {
            v.push(x.clone());
        }
    }
    pub fn model_vec_clone<T: Clone>(s: &Vec<T>) -> Vec<T> {
        let mut v = Vec::new();
        for x in s {
            v.push(x.clone());
        }
        v
    }
    pub fn model_to_vec<T: Clone>(s: &[T]) -> Vec<T> {
        let mut v = Vec::new();
        for x in s {
            v.push(x.clone());
        }
        v
    }
    pub fn model_find_map<I: Iterator, F: FnMut(I::Item) -> Option<B>, B>(it: &mut I, mut f: F) -> Option<B> {
        while let Some(x) = it.next() {
            if let Some(y) = f(x) {
                return Some(y);
            }
        }
        None
    }
    pub fn model_find<I: Iterator, F: FnMut(&I::Item) -> bool>(it: &mut I, mut f: F) -> Option<I::Item> {
        while let Some(x) = it.next() {
            if f(&x) {
                return Some(x);
            }
        }
        None
    }
    pub fn model_any<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool {
        while let Some(x) = it.next() {
            if f(x) {
                return true;
            }
        }
        false
    }
    pub fn model_all<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool {
        while let Some(x) = it.next() {
            if !f(x) {
                return false;
            }
        }
        true
    }
    pub fn model_position<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> Option<usize> {
        let mut n = 0;
        while let Some(x) = it.next() {
            if f(x) {
                return Some(n);
            }
            n += 1;
        }
        None
    }
    pub fn model_rposition<I: ExactSizeIterator + DoubleEndedIterator, F: FnMut(I::Item) -> bool>(
        it: &mut I,
        mut f: F,
    ) -> Option<usize> {
        let mut n = it.len();
        while let Some(x) = it.next_back() {
            n -= 1;
            if f(x) {
                return Some(n);
            }
        }
        None
    }
    pub fn model_for_each<I: Iterator, F: FnMut(I::Item)>(it: I, mut f: F) {
        let mut it = it;
        while let Some(x) = it.next() {
            f(x);
        }
    }
    pub fn model_fold<I: Iterator, B, F: FnMut(B, I::Item) -> B>(it: I, b: B, mut f: F) -> B {
        let (mut it, mut b) = (it, b);
        while let Some(x) = it.next() {
            b = f(b, x);
        }
        b
    }
    pub fn model_last<I: Iterator>(it: I) -> Option<I::Item> {
        let (mut it, mut b) = (it, None);
        while let Some(x) = it.next() {
            b = Some(x);
        }
        b
    }
}
