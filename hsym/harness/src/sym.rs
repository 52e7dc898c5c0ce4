//! Symbolic primitives; implemented by the hsym runtime (symbolic) or by bin/replay.rs (native).
unsafe extern "C" {
    fn __s_x_hole(p: *mut u8, width: u64, ntok: u64, toks: *const u8);
    fn __s_x_choice(n: u64) -> u64;
    fn __s_x_assert(c: u8, id: u32);
    fn __s_x_assume(c: u8);
    fn __s_x_reach(id: u32);
    fn __s_x_note(p: *const u8, n: u64);
    fn __s_x_spec(p: *mut u8, cap: u64) -> u64;
}
/// Append one symbolic token: any of the `n` tokens of `w` bytes laid out in `flat`.
pub fn hole(s: &mut Vec<u8>, w: usize, flat: &[u8]) {
    let n = s.len();
    s.resize(n + w, 0);
    unsafe { __s_x_hole(s.as_mut_ptr().add(n), w as u64, (flat.len() / w) as u64, flat.as_ptr()) }
}
/// A symbolic number in 0..n.
pub fn choice(n: usize) -> usize { if n <= 1 { 0 } else { unsafe { __s_x_choice(n as u64) as usize } } }
/// A symbolic number in 0..n, decided now (one path per value).
pub fn pick(n: usize) -> usize {
    let k = choice(n);
    let mut i = 0;
    while i + 1 < n { if k == i { return i; } i += 1; }
    n - 1
}
pub fn check(c: bool, id: u32) { unsafe { __s_x_assert(c as u8, id) } }
pub fn assume(c: bool) { unsafe { __s_x_assume(c as u8) } }
pub fn reach(id: u32) { unsafe { __s_x_reach(id) } }
pub fn note(s: &[u8]) { unsafe { __s_x_note(s.as_ptr(), s.len() as u64) } }
pub fn spec() -> Vec<u8> {
    let mut b = vec![0u8; 16384];
    let n = unsafe { __s_x_spec(b.as_mut_ptr(), 16384) } as usize;
    assert!(n <= 16384);
    b.truncate(n);
    b
}
