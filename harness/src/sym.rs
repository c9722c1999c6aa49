//! Interface to whoever runs the harness: the symbolic executor (which intercepts these
//! functions in the LLVM IR) or the native replay runner (which defines them).
mod raw {
    extern "C" {
        pub fn sym_bytes(p: *mut u8, n: usize);
        pub fn sym_u64() -> u64;
        pub fn sym_range(lo: u64, hi: u64) -> u64;
        pub fn sym_choose(n: u64) -> u64;
        pub fn sym_assume(b: bool);
        pub fn sym_check(b: bool, p: *const u8, n: usize);
        pub fn sym_cover(p: *const u8, n: usize);
        pub fn sym_param(i: u64) -> u64;
        pub fn sym_observe(v: u64);
        pub fn sym_hash(p: *const u8, n: usize, out: *mut u8, m: usize);
        pub fn sym_concrete(v: u64) -> u64;
        pub fn sym_same(p: *const u8, q: *const u8, n: usize) -> bool;
        pub fn sym_expect_panic(b: bool);
    }
}
/// Any 64-bit value.
pub fn any() -> u64 { unsafe { raw::sym_u64() } }
/// Any value in lo..=hi, kept symbolic.
pub fn range(lo: u64, hi: u64) -> u64 { unsafe { raw::sym_range(lo, hi) } }
/// One of 0..n, one path for each.
pub fn choose(n: u64) -> u64 { unsafe { raw::sym_choose(n) } }
/// One of 0..n, one path for each.
pub fn pick(n: usize) -> usize { choose(n as u64) as usize }
pub fn flip() -> bool { choose(2) == 1 }
pub fn bytes(b: &mut [u8]) { unsafe { raw::sym_bytes(b.as_mut_ptr(), b.len()) } }
pub fn assume(b: bool) { unsafe { raw::sym_assume(b) } }
pub fn check(b: bool, id: &'static str) { unsafe { raw::sym_check(b, id.as_ptr(), id.len()) } }
pub fn cover(id: &'static str) { unsafe { raw::sym_cover(id.as_ptr(), id.len()) } }
pub fn param(i: u64) -> u64 { unsafe { raw::sym_param(i) } }
pub fn observe(v: u64) { unsafe { raw::sym_observe(v) } }
pub fn hash(input: &[u8], out: &mut [u8]) { unsafe { raw::sym_hash(input.as_ptr(), input.len(), out.as_mut_ptr(), out.len()) } }
/// Case split on the value.
pub fn concrete(v: u64) -> u64 { unsafe { raw::sym_concrete(v) } }
/// Certainly equal (syntactically, under the symbolic executor). For types without padding.
pub fn same<T>(a: &T, b: &T) -> bool { unsafe { raw::sym_same(a as *const T as *const u8, b as *const T as *const u8, core::mem::size_of::<T>()) } }
pub fn expect_panic(b: bool) { unsafe { raw::sym_expect_panic(b) } }
/// A panic in the code under test is a violation; `fail` marks a harness outcome that must not happen.
pub fn fail(id: &'static str) { check(false, id) }
