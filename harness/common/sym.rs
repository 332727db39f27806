//! The interface between harnesses and whoever runs them: the symbolic executor (inputs are
//! solver variables, `check` is a solver query) or the native replay driver (inputs come from a file).
#![allow(dead_code)]
extern "C-unwind" {
    fn sym_u8() -> u8;
    fn sym_u16() -> u16;
    fn sym_u32() -> u32;
    fn sym_usize() -> usize;
    fn sym_bool() -> bool;
    fn sym_range(lo: usize, hi: usize) -> usize;
    fn sym_concretize(v: usize) -> usize;
    fn sym_assume(b: bool);
    fn sym_check(b: bool, p: *const u8, n: usize);
    fn sym_reach(p: *const u8, n: usize);
    fn sym_expect(p: *const u8, n: usize);
    fn sym_observe(v: u64);
    fn sym_allow_panic(b: bool);
    fn sym_stop();
    fn sym_kill();
}
pub fn any_u8() -> u8 { unsafe { sym_u8() } }
pub fn any_u16() -> u16 { unsafe { sym_u16() } }
pub fn any_u32() -> u32 { unsafe { sym_u32() } }
pub fn any_usize() -> usize { unsafe { sym_usize() } }
pub fn any_bool() -> bool { unsafe { sym_bool() } }
/// Any value in `lo..=hi`; stays symbolic.
pub fn range(lo: usize, hi: usize) -> usize { unsafe { sym_range(lo, hi) } }
/// Any value in `0..n`; one path per value.
pub fn choose(n: usize) -> usize { unsafe { sym_concretize(sym_range(0, n - 1)) } }
/// Any value in `lo..=hi`; one path per value.
pub fn pick(lo: usize, hi: usize) -> usize { unsafe { sym_concretize(sym_range(lo, hi)) } }
pub fn concretize(v: usize) -> usize { unsafe { sym_concretize(v) } }
pub fn assume(b: bool) { unsafe { sym_assume(b) } }
pub fn check(b: bool, l: &'static str) { unsafe { sym_check(b, l.as_ptr(), l.len()) } }
pub fn reach(l: &'static str) { unsafe { sym_reach(l.as_ptr(), l.len()) } }
/// Declares a label that some path must reach: otherwise the harness is vacuous and the run fails.
pub fn expect(ls: &[&'static str]) { for l in ls { unsafe { sym_expect(l.as_ptr(), l.len()) } } }
pub fn observe(v: usize) { unsafe { sym_observe(v as u64) } }
/// Runs `f`; a panic inside it ends the path without being a violation.
pub fn may_panic<T>(f: impl FnOnce() -> T) -> T { unsafe { sym_allow_panic(true); let r = f(); sym_allow_panic(false); r } }
/// Ends the path here, normally.
pub fn stop() { unsafe { sym_stop() } }
pub fn kill() { unsafe { sym_kill() } }
