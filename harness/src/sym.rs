//! The harness primitives. In the symbolic build these are implemented by the executor; in the
//! native build (`replay`) they read recorded values.

mod raw {
    extern "C" {
        pub fn sym_u8() -> u8;
        pub fn sym_u32() -> u32;
        pub fn sym_u64() -> u64;
        pub fn sym_bytes(p: *mut u8, n: usize);
        pub fn sym_choose(n: u32) -> u32;
        pub fn sym_assume(c: bool);
        pub fn sym_assert(c: bool, p: *const u8, n: usize);
        pub fn sym_fail(p: *const u8, n: usize) -> !;
        pub fn sym_reach(n: u32);
        pub fn sym_log(x: u64);
    }
}

/// Any byte.
pub fn u8() -> u8 {
    unsafe { raw::sym_u8() }
}
pub fn u32() -> u32 {
    unsafe { raw::sym_u32() }
}
pub fn i64() -> i64 {
    unsafe { raw::sym_u64() as i64 }
}
pub fn bytes(b: &mut [u8]) {
    if !b.is_empty() {
        unsafe { raw::sym_bytes(b.as_mut_ptr(), b.len()) }
    }
}
/// Any number below `n`; the execution forks.
pub fn choose(n: usize) -> usize {
    unsafe { raw::sym_choose(n as u32) as usize }
}
pub fn flip() -> bool {
    choose(2) == 1
}
pub fn pick<T: Clone>(xs: &[T]) -> T {
    xs[choose(xs.len())].clone()
}
pub fn assume(c: bool) {
    unsafe { raw::sym_assume(c) }
}
/// The property: must hold for every value of the symbolic inputs.
pub fn check(c: bool, msg: &str) {
    unsafe { raw::sym_assert(c, msg.as_ptr(), msg.len()) }
}
pub fn fail(msg: &str) -> ! {
    unsafe { raw::sym_fail(msg.as_ptr(), msg.len()) }
}
/// Marks a situation the harness must be able to reach (guards against vacuous checks).
pub fn reach(n: u32) {
    unsafe { raw::sym_reach(n) }
}
/// Observation compared between the symbolic execution and the native replay.
pub fn log(x: u64) {
    unsafe { raw::sym_log(x) }
}
pub fn log_bytes(b: &[u8]) {
    log(b.len() as u64);
    for c in b {
        log(*c as u64);
    }
}
