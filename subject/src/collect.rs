//! The functions that parse everything there is.

use kul::common::{inmem, stream};

/// Some strings.
pub struct AStrs(pub usize);
impl Iterator for AStrs {
    type Item = String;
    fn next(&mut self) -> Option<String> {
        stub_strs_next(self)
    }
}
pub fn stub_strs_next(_: &mut AStrs) -> Option<String> {
    loop {}
}

pub fn stub_pulled<T>(_: Option<T>) {
    loop {}
}
pub fn stub_strings<I>(_: I) {
    loop {}
}
/// What an iterator of strings has.
pub fn probe<I: Iterator>(mut it: I) {
    stub_pulled(it.next());
    stub_pulled(it.next());
    stub_pulled(it.next());
    stub_strings(it)
}

pub fn entry_str(s: &'static str) -> Vec<inmem::TopFormResult<'static>> {
    inmem::parse_str(s)
}
pub fn entry_str_with(
    s: &'static str,
    b: inmem::OperatorBindings<'static>,
) -> Vec<inmem::TopFormResult<'static>> {
    inmem::parse_str_with(s, b)
}
pub fn entry_stream(s: AStrs) -> Vec<stream::TopFormResult> {
    stream::parse_stream(s)
}
pub fn entry_stream_with(s: AStrs, b: stream::OperatorBindings) -> Vec<stream::TopFormResult> {
    stream::parse_stream_with(s, b)
}

pub mod text {
    use kul_core::premade::inmem::*;

    pub fn stub_more() -> bool {
        loop {}
    }
    pub fn stub_result(_: Option<TopFormResult<'static, 'static, 'static, 'static>>) {
        loop {}
    }
    pub fn entry_text(
        t: &'static Text<'static, 'static>,
        p: &'static mut Parser<'static, 'static, 'static, 'static>,
    ) {
        let mut it = parse_text_with(t, p);
        while stub_more() {
            stub_result(it.next());
        }
    }
    /// With a parser made from what one is made of.
    pub fn entry_parser(
        t: &'static Text<'static, 'static>,
        slots: DatumSlice<'static, 'static>,
        pairs: BindingsSlice<'static, 'static, 'static, 'static>,
    ) {
        let mut p = parser(slots, pairs);
        let mut it = parse_text_with(t, &mut p);
        while stub_more() {
            stub_result(it.next());
        }
    }
}
