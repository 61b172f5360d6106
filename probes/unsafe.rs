//! One of each thing that the survey looks for; it has to find all of them.
#![no_std]
extern crate alloc;

pub unsafe trait Tr {}
unsafe impl Tr for u8 {}
pub unsafe fn f() {}
pub fn g(p: *const u8) -> u8 {
    unsafe { *p }
}
unsafe extern "C" {
    pub fn h();
}
macro_rules! m {
    () => {
        unsafe { f() }
    };
}
pub fn k() {
    m!()
}
#[cfg(not(debug_assertions))]
extern crate std;
#[cfg(windows)]
pub fn l() {
    unsafe { f() }
}
#[cfg(test)]
mod tests {
    unsafe fn not_counted() {}
}
