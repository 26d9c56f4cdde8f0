//! Model of rand: generators seeded by the operating system return arbitrary
//! bytes (one fresh symbolic value per request) and log what they returned;
//! generators seeded by the program are functions of their seed.
pub use rand_core::{self, CryptoRng, Error, RngCore, SeedableRng};
use std::cell::RefCell;
thread_local! { static LOG: RefCell<Vec<u8>> = const { RefCell::new(Vec::new()) }; }
/// every byte drawn from a securely seeded generator so far
pub fn sx_drawn() -> Vec<u8> { LOG.with(|l| l.borrow().clone()) }
thread_local! { static SCRIPT: RefCell<Vec<u8>> = const { RefCell::new(Vec::new()) }; }
/// the bytes to return next, instead of arbitrary ones
pub fn sx_script(b: Vec<u8>) { SCRIPT.with(|s| *s.borrow_mut() = b) }
fn draw(b: &mut [u8]) {
    let n = SCRIPT.with(|s| { let mut s = s.borrow_mut(); let n = s.len().min(b.len()); b[..n].copy_from_slice(&s[..n]); s.drain(..n); n });
    if n < b.len() { sx::any_into(&mut b[n..]); }
    LOG.with(|l| l.borrow_mut().extend_from_slice(b));
}

macro_rules! secure { ($t:ident) => {
    impl RngCore for $t {
        fn next_u32(&mut self) -> u32 { let mut b = [0; 4]; draw(&mut b); u32::from_le_bytes(b) }
        fn next_u64(&mut self) -> u64 { let mut b = [0; 8]; draw(&mut b); u64::from_le_bytes(b) }
        fn fill_bytes(&mut self, d: &mut [u8]) { draw(d) }
        fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), Error> { draw(d); Ok(()) }
    }
    impl CryptoRng for $t {}
} }
pub mod rngs {
    use super::*;
    #[derive(Clone, Debug, Default)] pub struct ThreadRng(pub(crate) ());
    #[derive(Clone, Copy, Debug, Default)] pub struct OsRng;
    secure!(ThreadRng);
    secure!(OsRng);
    macro_rules! seeded { ($t:ident) => {
        #[derive(Clone, Debug, PartialEq, Eq)]
        pub struct $t { seed: [u8; 32], n: u64, os: bool }
        impl RngCore for $t {
            fn next_u32(&mut self) -> u32 { let mut b = [0; 4]; self.fill_bytes(&mut b); u32::from_le_bytes(b) }
            fn next_u64(&mut self) -> u64 { let mut b = [0; 8]; self.fill_bytes(&mut b); u64::from_le_bytes(b) }
            fn fill_bytes(&mut self, d: &mut [u8]) {
                if self.os { return draw(d); }
                let mut i = self.seed.to_vec();
                i.extend_from_slice(&self.n.to_le_bytes());
                self.n += 1;
                sx::uf(stringify!($t), &i, d)
            }
            fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), Error> { self.fill_bytes(d); Ok(()) }
        }
        impl SeedableRng for $t {
            type Seed = [u8; 32];
            fn from_seed(seed: [u8; 32]) -> Self { $t { seed, n: 0, os: false } }
            fn from_rng<R: RngCore>(_: R) -> Result<Self, Error> { Ok($t { seed: [0; 32], n: 0, os: true }) }
        }
        impl $t { pub fn from_entropy() -> Self { $t { seed: [0; 32], n: 0, os: true } } }
    } }
    seeded!(StdRng);
    seeded!(SmallRng);
    impl CryptoRng for StdRng {}
}
pub use rngs::ThreadRng;
pub fn thread_rng() -> ThreadRng { ThreadRng::default() }
pub fn random<T>() -> T where distributions::Standard: distributions::Distribution<T> { thread_rng().gen() }

pub mod distributions {
    use super::Rng;
    pub struct Standard;
    pub trait Distribution<T> { fn sample<R: Rng + ?Sized>(&self, r: &mut R) -> T; }
    macro_rules! ints { ($($t:ty),*) => { $(impl Distribution<$t> for Standard { fn sample<R: Rng + ?Sized>(&self, r: &mut R) -> $t { let mut b = [0u8; core::mem::size_of::<$t>()]; r.fill_bytes(&mut b); <$t>::from_le_bytes(b) } })* } }
    ints!(u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize);
    impl Distribution<bool> for Standard { fn sample<R: Rng + ?Sized>(&self, r: &mut R) -> bool { r.next_u32() >> 31 != 0 } }
    impl<T: Copy + Default, const N: usize> Distribution<[T; N]> for Standard where Standard: Distribution<T> {
        fn sample<R: Rng + ?Sized>(&self, r: &mut R) -> [T; N] { let mut o = [T::default(); N]; for x in o.iter_mut() { *x = Standard.sample(r) } o }
    }
}
pub trait Fill { fn try_fill<R: Rng + ?Sized>(&mut self, r: &mut R) -> Result<(), Error>; }
impl Fill for [u8] { fn try_fill<R: Rng + ?Sized>(&mut self, r: &mut R) -> Result<(), Error> { r.try_fill_bytes(self) } }
impl<const N: usize> Fill for [u8; N] { fn try_fill<R: Rng + ?Sized>(&mut self, r: &mut R) -> Result<(), Error> { r.try_fill_bytes(self) } }
pub trait UniformInt: Copy { fn of(x: u128) -> Self; fn to(self) -> u128; }
macro_rules! ui { ($($t:ty),*) => { $(impl UniformInt for $t { fn of(x: u128) -> Self { x as $t } fn to(self) -> u128 { self as u128 } })* } }
ui!(u8, u16, u32, u64, usize);
pub trait Rng: RngCore {
    fn gen<T>(&mut self) -> T where distributions::Standard: distributions::Distribution<T> { use distributions::Distribution; distributions::Standard.sample(self) }
    fn sample<T, D: distributions::Distribution<T>>(&mut self, d: D) -> T { d.sample(self) }
    fn fill<T: Fill + ?Sized>(&mut self, d: &mut T) { d.try_fill(self).unwrap() }
    fn try_fill<T: Fill + ?Sized>(&mut self, d: &mut T) -> Result<(), Error> { d.try_fill(self) }
    fn gen_bool(&mut self, _p: f64) -> bool { self.next_u32() & 1 == 1 }
    fn gen_range<T: UniformInt, B: std::ops::RangeBounds<T>>(&mut self, r: B) -> T {
        use std::ops::Bound::*;
        let lo = match r.start_bound() { Included(x) => x.to(), Excluded(x) => x.to() + 1, Unbounded => 0 };
        let hi = match r.end_bound() { Included(x) => x.to(), Excluded(x) => x.to() - 1, Unbounded => u64::MAX as u128 };
        let x = self.next_u64() as u128;
        sx::assume(x >= lo && x <= hi);
        T::of(x)
    }
}
impl<R: RngCore + ?Sized> Rng for R {}
pub mod prelude { pub use crate::{random, rngs::{StdRng, ThreadRng}, thread_rng, CryptoRng, Rng, RngCore, SeedableRng, distributions::Distribution}; }
