pub struct Error;
impl std::fmt::Debug for Error { fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { loop {} } }
impl std::fmt::Display for Error { fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { loop {} } }
impl std::error::Error for Error {}
pub trait RngCore { fn next_u32(&mut self) -> u32; fn next_u64(&mut self) -> u64; fn fill_bytes(&mut self, dest: &mut [u8]); fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), Error>; }
pub trait CryptoRng {}
pub trait SeedableRng: Sized { type Seed: Default + AsMut<[u8]>; fn from_seed(seed: Self::Seed) -> Self; fn seed_from_u64(_s: u64) -> Self { loop {} } fn from_entropy() -> Self { loop {} } fn from_rng<R: RngCore>(_r: R) -> Result<Self, Error> { loop {} } }
impl<'a, R: RngCore + ?Sized> RngCore for &'a mut R { fn next_u32(&mut self) -> u32 { loop {} } fn next_u64(&mut self) -> u64 { loop {} } fn fill_bytes(&mut self, _: &mut [u8]) {} fn try_fill_bytes(&mut self, _: &mut [u8]) -> Result<(), Error> { loop {} } }
impl<'a, R: CryptoRng + ?Sized> CryptoRng for &'a mut R {}
pub mod distributions { pub trait Distribution<T> {} pub struct Standard; impl<T> Distribution<T> for Standard {} pub struct Alphanumeric; impl Distribution<u8> for Alphanumeric {} }
pub trait Fill {}
impl Fill for [u8] {}
impl<const N: usize> Fill for [u8; N] {}
pub trait Rng: RngCore { fn gen<T>(&mut self) -> T where distributions::Standard: distributions::Distribution<T> { loop {} } fn gen_range<T, R>(&mut self, _r: R) -> T { loop {} } fn gen_bool(&mut self, _p: f64) -> bool { loop {} } fn fill<T: Fill + ?Sized>(&mut self, _d: &mut T) {} fn try_fill<T: Fill + ?Sized>(&mut self, _d: &mut T) -> Result<(), Error> { loop {} } fn sample<T, D: distributions::Distribution<T>>(&mut self, _d: D) -> T { loop {} } }
impl<R: RngCore + ?Sized> Rng for R {}
macro_rules! rng { ($($n:ident),*) => { $( #[derive(Clone, Debug)] pub struct $n; impl super::RngCore for $n { fn next_u32(&mut self) -> u32 { loop {} } fn next_u64(&mut self) -> u64 { loop {} } fn fill_bytes(&mut self, _: &mut [u8]) {} fn try_fill_bytes(&mut self, _: &mut [u8]) -> Result<(), super::Error> { loop {} } } impl super::CryptoRng for $n {} )* } }
pub mod rngs { rng!(OsRng, ThreadRng, StdRng, SmallRng);
 impl Default for OsRng { fn default() -> Self { OsRng } }
 impl super::SeedableRng for StdRng { type Seed = [u8; 32]; fn from_seed(_: [u8; 32]) -> Self { loop {} } }
 impl super::SeedableRng for SmallRng { type Seed = [u8; 32]; fn from_seed(_: [u8; 32]) -> Self { loop {} } }
 pub mod mock { #[derive(Clone, Debug)] pub struct StepRng; impl StepRng { pub fn new(_: u64, _: u64) -> Self { loop {} } } impl super::super::RngCore for StepRng { fn next_u32(&mut self) -> u32 { loop {} } fn next_u64(&mut self) -> u64 { loop {} } fn fill_bytes(&mut self, _: &mut [u8]) {} fn try_fill_bytes(&mut self, _: &mut [u8]) -> Result<(), super::super::Error> { loop {} } } }
}
pub fn thread_rng() -> rngs::ThreadRng { loop {} }
pub fn random<T>() -> T { loop {} }
pub mod prelude { pub use super::{Rng, RngCore, SeedableRng, CryptoRng, thread_rng, random}; pub use super::rngs::StdRng; }
pub mod rand_core { pub use super::{RngCore, CryptoRng, SeedableRng, Error}; pub use super::rngs::OsRng; }
