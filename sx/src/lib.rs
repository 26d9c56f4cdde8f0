//! Intrinsics of the symbolic executor, as seen by harnesses and by the models
//! of third-party crates.  With feature "native" they are implemented here and
//! read their values from a tape (replay) or from a seeded generator.
#[cfg(feature = "native")]
pub mod native;

mod raw {
    #[cfg(not(feature = "native"))]
    extern "C" {
        pub fn sx_any(p: *mut u8, n: usize);
        pub fn sx_bits(n: u64) -> u64;
        pub fn sx_choose(n: u32) -> u32;
        pub fn sx_assume(b: bool);
        pub fn sx_check(b: bool, p: *const u8, n: usize);
        pub fn sx_fail(p: *const u8, n: usize);
        pub fn sx_stop();
        pub fn sx_cover(p: *const u8, n: usize);
        pub fn sx_uf(np: *const u8, nn: usize, ip: *const u8, il: usize, op: *mut u8, ol: usize);
        pub fn sx_lookup(keys: *const (*const u8, usize), n: usize, q: *const u8, qlen: usize) -> u64;
        pub fn sx_conc(x: u64) -> u64;
        pub fn sx_watch(p: *const u8) -> u32;
        pub fn sx_watch_get(id: u32, out: *mut u8, cap: usize) -> u64;
        pub fn sx_native() -> u32;
    }
    #[cfg(feature = "native")]
    pub use crate::native::raw::*;
}

/// fill with arbitrary bytes
pub fn any_into(b: &mut [u8]) { unsafe { raw::sx_any(b.as_mut_ptr(), b.len()) } }
pub fn any<const N: usize>() -> [u8; N] { let mut b = [0u8; N]; any_into(&mut b); b }
pub fn any_u8() -> u8 { bits(8) as u8 }
pub fn any_u32() -> u32 { bits(32) as u32 }
pub fn any_u64() -> u64 { bits(64) }
pub fn any_bool() -> bool { bits(1) != 0 }
/// an arbitrary n-bit number
pub fn bits(n: u32) -> u64 { unsafe { raw::sx_bits(n as u64) } }
/// an arbitrary number below n, each explored as a separate (concrete) case
pub fn choose(n: u32) -> u32 { unsafe { raw::sx_choose(n) } }
pub fn assume(b: bool) { unsafe { raw::sx_assume(b) } }
pub fn check(b: bool, tag: &str) { unsafe { raw::sx_check(b, tag.as_ptr(), tag.len()) } }
pub fn fail(tag: &str) -> ! { unsafe { raw::sx_fail(tag.as_ptr(), tag.len()) }; stop() }
pub fn stop() -> ! { unsafe { raw::sx_stop() }; loop {} }
pub fn cover(tag: &str) { unsafe { raw::sx_cover(tag.as_ptr(), tag.len()) } }
/// the uninterpreted function `name`, applied to inp
pub fn uf(name: &str, inp: &[u8], out: &mut [u8]) {
    unsafe { raw::sx_uf(name.as_ptr(), name.len(), inp.as_ptr(), inp.len(), out.as_mut_ptr(), out.len()) }
}
pub fn ufn<const N: usize>(name: &str, inp: &[u8]) -> [u8; N] { let mut o = [0u8; N]; uf(name, inp, &mut o); o }
pub fn lookup(keys: &[(*const u8, usize)], q: &[u8]) -> usize { unsafe { raw::sx_lookup(keys.as_ptr(), keys.len(), q.as_ptr(), q.len()) as usize } }
pub fn conc(x: u64) -> u64 { unsafe { raw::sx_conc(x) } }
/// remember the heap block p points into; its content at the time it is freed can be read later
pub fn watch(p: *const u8) -> u32 { unsafe { raw::sx_watch(p) } }
/// None: not freed; otherwise the size of the block, whose first bytes are copied to out
pub fn watch_get(id: u32, out: &mut [u8]) -> Option<usize> {
    let r = unsafe { raw::sx_watch_get(id, out.as_mut_ptr(), out.len()) };
    if r == u64::MAX { None } else { Some(r as usize) }
}
/// running natively?
pub fn native() -> bool { unsafe { raw::sx_native() != 0 } }
/// branch-free equality of byte strings
#[inline(never)]
pub fn same(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() { return false; }
    let mut d = 0u8;
    let mut i = 0;
    while i < a.len() { d |= a[i] ^ b[i]; i += 1; }
    d == 0
}

#[cfg(not(feature = "native"))]
#[macro_export]
macro_rules! harness {
    ($($(#[$m:meta])* $name:ident $body:block)*) => { $($(#[$m])* #[no_mangle] pub extern "C" fn $name() $body)* };
}
#[cfg(feature = "native")]
#[macro_export]
macro_rules! harness {
    ($($(#[$m:meta])* $name:ident $body:block)*) => {
        $($(#[$m])* pub fn $name() $body)*
        pub const TABLE: &[(&str, fn())] = &[$((stringify!($name), $name as fn())),*];
    };
}
