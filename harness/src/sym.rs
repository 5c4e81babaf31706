//! The interface between the harnesses and the symbolic executor.
//! In the symbolic build these are external functions the executor interprets;
//! in the native build (feature `native`) they read a recorded witness.
#[cfg(panic = "unwind")]
extern "C-unwind" {
    fn sym_u8s(p: *mut u8, n: usize);
    fn sym_assume(c: u32);
    fn sym_assert(c: u32, m: *const u8, n: usize);
    fn sym_log(v: u64);
    fn sym_choose(n: u64) -> u64;
    fn sym_conc(v: u64) -> u64;
    fn sym_cover(m: *const u8, n: usize);
    fn sym_param(i: u64) -> u64;
    fn sym_alloc_limit(n: u64);
    fn sym_same(a: *const u8, b: *const u8, n: usize) -> u64;
}
#[cfg(panic = "abort")]
extern "C" {
    fn sym_u8s(p: *mut u8, n: usize);
    fn sym_assume(c: u32);
    fn sym_assert(c: u32, m: *const u8, n: usize);
    fn sym_log(v: u64);
    fn sym_choose(n: u64) -> u64;
    fn sym_conc(v: u64) -> u64;
    fn sym_cover(m: *const u8, n: usize);
    fn sym_param(i: u64) -> u64;
    fn sym_alloc_limit(n: u64);
    fn sym_same(a: *const u8, b: *const u8, n: usize) -> u64;
}
/// N arbitrary bytes.
pub fn bytes<const N: usize>() -> [u8; N] { let mut b = [0u8; N]; unsafe { sym_u8s(b.as_mut_ptr(), N) }; b }
pub fn byte() -> u8 { bytes::<1>()[0] }
pub fn vec(n: usize) -> Vec<u8> { let mut v = vec![0u8; n]; unsafe { sym_u8s(v.as_mut_ptr(), n) }; v }
pub fn fill(b: &mut [u8]) { unsafe { sym_u8s(b.as_mut_ptr(), b.len()) } }
pub fn u16v() -> u16 { u16::from_le_bytes(bytes()) }
pub fn u32v() -> u32 { u32::from_le_bytes(bytes()) }
pub fn u64v() -> u64 { u64::from_le_bytes(bytes()) }
/// An arbitrary boolean (symbolic, does not split the path until it is branched on).
pub fn flag() -> bool { byte() & 1 == 1 }
/// An arbitrary value in 0..n; every value is explored on its own path.
pub fn choose(n: usize) -> usize { unsafe { sym_choose(n as u64) as usize } }
pub fn assume(c: bool) { unsafe { sym_assume(c as u32) } }
pub fn check(c: bool, m: &str) { unsafe { sym_assert(c as u32, m.as_ptr(), m.len()) } }
pub fn fail(m: &str) -> ! { unsafe { sym_assert(0, m.as_ptr(), m.len()) } loop {} }
pub fn cover(m: &str) { unsafe { sym_cover(m.as_ptr(), m.len()) } }
pub fn log(v: u64) { unsafe { sym_log(v) } }
/// Split the path on every possible value of v.
pub fn conc(v: u64) -> u64 { unsafe { sym_conc(v) } }
pub fn param(i: usize) -> usize { unsafe { sym_param(i as u64) as usize } }
pub fn alloc_limit(n: u64) { unsafe { sym_alloc_limit(n) } }
/// Byte equality as one (symbolic) truth value: no path split.
pub fn same(a: &[u8], b: &[u8]) -> bool { a.len() == b.len() && unsafe { sym_same(a.as_ptr(), b.as_ptr(), a.len()) } != 0 }
pub fn same1(a: &[u8], b: &[u8]) -> u64 { if a.len() != b.len() { 0 } else { unsafe { sym_same(a.as_ptr(), b.as_ptr(), a.len()) } } }
/// check(same(a, b)) without a split.
pub fn check_same(a: &[u8], b: &[u8], m: &str) {
    if a.len() != b.len() { unsafe { sym_assert(0, m.as_ptr(), m.len()) } }
    else { unsafe { sym_assert(sym_same(a.as_ptr(), b.as_ptr(), a.len()) as u32, m.as_ptr(), m.len()) } }
}
/// Branch-free choice.
pub fn sel(c: u64, a: u64, b: u64) -> u64 { let m = 0u64.wrapping_sub(c & 1); (a & m) | (b & !m) }
pub fn logs(b: &[u8]) { log(b.len() as u64); for x in b { log(*x as u64) } }
