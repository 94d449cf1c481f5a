//! Primitives that the symbolic executor intercepts (and that vp.c implements natively for replay).
extern "C" {
    fn vp_sym(p: *mut u8, n: usize);
    fn vp_range(lo: u64, hi: u64) -> u64;
    fn vp_choose(n: u64) -> u64;
    fn vp_assume(c: u32);
    fn vp_assert(c: u32, p: *const u8, n: usize);
    fn vp_cover(p: *const u8, n: usize);
    fn vp_note(p: *const u8, n: usize);
}
/// A symbolic number in 0..n that the executor forks on.
pub fn choose(n: usize) -> usize {
    if n <= 1 {
        return 0;
    }
    assert!(n <= 256);
    unsafe { vp_choose(n as u64) as usize }
}
pub fn flip() -> bool {
    choose(2) == 1
}
/// A symbolic byte in lo..=hi; stays symbolic.
pub fn range(lo: u8, hi: u8) -> u8 {
    unsafe { vp_range(lo as u64, hi as u64) as u8 }
}
pub fn bytes(n: usize) -> Vec<u8> {
    let mut v = vec![0u8; n];
    unsafe { vp_sym(v.as_mut_ptr(), n) };
    v
}
pub fn assume(c: bool) {
    unsafe { vp_assume(c as u32) }
}
pub fn check(c: bool, m: &str) {
    unsafe { vp_assert(c as u32, m.as_ptr(), m.len()) }
}
pub fn cover(m: &str) {
    unsafe { vp_cover(m.as_ptr(), m.len()) }
}
pub fn note(m: &str) {
    unsafe { vp_note(m.as_ptr(), m.len()) }
}
/// Exhaustive choice among strings.
pub fn pick<'a>(xs: &[&'a str]) -> &'a str {
    xs[choose(xs.len())]
}
#[macro_export]
macro_rules! harness {
    ($($name:ident => $body:expr;)*) => {
        #[allow(unused_imports)]
        mod h { use super::*; $(#[no_mangle] pub extern "C" fn $name() { $body })* }
        static TABLE: &[(&str, extern "C" fn())] = &[$((stringify!($name), h::$name),)*];
        fn main() {
            let a = std::env::args().nth(1).unwrap_or_default();
            if a == "--list" { for (n, _) in TABLE { println!("{n}"); } return; }
            for (n, f) in TABLE { if *n == a { f(); println!("DONE"); return; } }
            eprintln!("no such harness: {a}");
            std::process::exit(91);
        }
    };
}
