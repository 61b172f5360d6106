use crate::prelude::*;
use kul::parser::DefaultCharClassifier as D;

pub fn entry_cc_start(c: &D, ch: char) -> bool {
    c.is_nest_start(ch)
}
pub fn entry_cc_end(c: &D, ch: char) -> bool {
    c.is_nest_end(ch)
}
pub fn entry_cc_escape(c: &D, ch: char) -> bool {
    c.is_nest_escape(ch)
}
pub fn entry_cc_whitespace(c: &D, ch: char) -> bool {
    c.is_whitespace(ch)
}
