// Harness API: every harness runs in two worlds. Under the symbolic engine the functions below
// are intrinsics; natively (replay) they are answered by /verif/driver/driver.c from a model file.
#[allow(dead_code)]
mod api {
    extern "C" {
        fn sym_f64(name: *const u8, len: usize, lo: f64, hi: f64) -> f64;
        fn sym_int(name: *const u8, len: usize, lo: i64, hi: i64) -> i64;
        fn sym_pick(name: *const u8, len: usize, n: u64) -> u64;
        fn sym_assume(c: bool);
        fn sym_assert(c: bool, msg: *const u8, len: usize);
        fn sym_close(a: f64, b: f64, tol: f64, msg: *const u8, len: usize);
        fn sym_cover(msg: *const u8, len: usize);
        fn sym_trace(msg: *const u8, len: usize, v: f64);
        fn sym_file(path: *const u8, len: usize, data: *const u8, n: usize);
        fn sym_split(c: bool) -> bool;
        fn sym_conc(v: i64) -> i64;
        fn sym_engine() -> u64;
        fn sym_tier() -> u64;
    }
    /// an arbitrary finite real in [lo, hi]
    pub fn f(name: &str, lo: f64, hi: f64) -> f64 { unsafe { sym_f64(name.as_ptr(), name.len(), lo, hi) } }
    /// an arbitrary integer in [lo, hi]
    pub fn i(name: &str, lo: i64, hi: i64) -> i64 { unsafe { sym_int(name.as_ptr(), name.len(), lo, hi) } }
    /// a case split: every value 0..n is explored with a concrete value
    pub fn pick(name: &str, n: usize) -> usize { unsafe { sym_pick(name.as_ptr(), name.len(), n as u64) as usize } }
    pub fn assume(c: bool) { unsafe { sym_assume(c) } }
    /// a is larger than b by at least `gap` (a replay, whose inputs are rounded, accepts half of it)
    pub fn assume_gap(a: f64, b: f64, gap: f64) { assume(a > b + if symbolic() { gap } else { gap * 0.5 }) }
    pub fn check(c: bool, msg: &str) { unsafe { sym_assert(c, msg.as_ptr(), msg.len()) } }
    pub fn close(a: f64, b: f64, tol: f64, msg: &str) { unsafe { sym_close(a, b, tol, msg.as_ptr(), msg.len()) } }
    pub fn cover(msg: &str) { unsafe { sym_cover(msg.as_ptr(), msg.len()) } }
    pub fn trace(name: &str, v: f64) { unsafe { sym_trace(name.as_ptr(), name.len(), v) } }
    pub fn file(path: &str, data: &[u8]) { unsafe { sym_file(path.as_ptr(), path.len(), data.as_ptr(), data.len()) } }
    /// branch on the condition (explores both outcomes)
    pub fn split(c: bool) -> bool { unsafe { sym_split(c) } }
    /// enumerate the feasible values
    pub fn conc(v: i64) -> i64 { unsafe { sym_conc(v) } }
    pub fn symbolic() -> bool { unsafe { sym_engine() == 1 } }
    pub fn thorough() -> bool { unsafe { sym_tier() == 1 } }
    /// array of arbitrary reals
    pub fn fs(name: &str, n: usize, lo: f64, hi: f64) -> Vec<f64> { (0..n).map(|_| f(name, lo, hi)).collect() }
}
#[allow(unused_imports)]
use api::*;
