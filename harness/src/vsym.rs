//! Interface between the harnesses and whoever runs them: the symbolic executor (which gives the
//! functions below their symbolic meaning) or the native replay binary (which feeds concrete bytes).
extern "C" {
    fn vsym_bytes(p: *mut u8, n: usize, alpha: *const u8, an: usize);
    fn vsym_choose(n: u64) -> u64;
    fn vsym_sym(n: u64) -> u64;
    fn vsym_assume(c: bool);
    fn vsym_assert(c: bool, m: *const u8, n: usize);
    fn vsym_cover(p: *const u8, n: usize);
    fn vsym_note(p: *const u8, n: usize);
    fn vsym_observe(np: *const u8, nn: usize, p: *const u8, n: usize);
    fn vsym_eq(p: *const u8, n: usize, q: *const u8, m: usize) -> bool;
    fn vsym_prune() -> !;
    fn vsym_tier() -> u64;
}
/// n symbolic bytes, each ranging over `alpha` (over all 256 values if empty).
pub fn bytes(n: usize, alpha: &[u8]) -> Vec<u8> {
    let mut v = vec![0u8; n];
    unsafe { vsym_bytes(v.as_mut_ptr(), n, alpha.as_ptr(), alpha.len()) };
    v
}
/// A string of n symbolic ASCII characters out of `alpha`.
pub fn string(n: usize, alpha: &str) -> String {
    assert!(alpha.is_ascii() && !alpha.is_empty());
    let mut v = vec![0u8; n];
    unsafe {
        vsym_bytes(v.as_mut_ptr(), n, alpha.as_ptr(), alpha.len());
        String::from_utf8_unchecked(v)
    }
}
/// A number below n; every value is explored as a path of its own.
pub fn choose(n: usize) -> usize { unsafe { vsym_choose(n as u64) as usize } }
pub fn flag() -> bool { choose(2) == 1 }
pub fn pick<T: Clone>(l: &[T]) -> T { l[choose(l.len())].clone() }
/// A symbolic number below n (at most 256), kept symbolic.
pub fn sym(n: usize) -> u64 { unsafe { vsym_sym(n as u64) } }
pub fn assume(c: bool) { unsafe { vsym_assume(c) } }
pub fn check(c: bool, msg: &str) { unsafe { vsym_assert(c, msg.as_ptr(), msg.len()) } }
pub fn fail(msg: &str) -> ! { check(false, msg); prune() }
/// Marks a situation the check must be able to reach (vacuity witness).
pub fn cover(s: &str) { unsafe { vsym_cover(s.as_ptr(), s.len()) } }
pub fn note(s: &str) { unsafe { vsym_note(s.as_ptr(), s.len()) } }
/// Records a value that the native run of the same path has to reproduce.
pub fn observe(n: &str, v: &[u8]) { unsafe { vsym_observe(n.as_ptr(), n.len(), v.as_ptr(), v.len()) } }
/// Equality as one formula, without branching.
pub fn eq(a: impl AsRef<[u8]>, b: impl AsRef<[u8]>) -> bool {
    let (a, b) = (a.as_ref(), b.as_ref());
    unsafe { vsym_eq(a.as_ptr(), a.len(), b.as_ptr(), b.len()) }
}
pub fn prune() -> ! { unsafe { vsym_prune() } }
pub fn thorough() -> bool { unsafe { vsym_tier() == 1 } }
pub fn bound(quick: usize, thorough_: usize) -> usize { if thorough() { thorough_ } else { quick } }

/// Runs a future to completion; nothing in the harnesses may actually suspend.
pub fn block_on<F: std::future::Future>(f: F) -> F::Output {
    use std::task::{Context, Poll, RawWaker, RawWakerVTable, Waker};
    const VT: RawWakerVTable = RawWakerVTable::new(|_| RawWaker::new(std::ptr::null(), &VT), |_| {}, |_| {}, |_| {});
    let w = unsafe { Waker::from_raw(RawWaker::new(std::ptr::null(), &VT)) };
    let mut f = Box::pin(f);
    match f.as_mut().poll(&mut Context::from_waker(&w)) {
        Poll::Ready(r) => r,
        Poll::Pending => fail("the operation never completes"),
    }
}
