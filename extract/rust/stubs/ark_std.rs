pub use rand;
pub use std::{borrow, boxed, cmp, collections, fmt, format, iter, marker, mem, ops, string, vec, rc, result, io, hash, error, convert, cfg};
pub mod rand_mod {}
pub trait Zero: Sized + std::ops::Add<Self, Output = Self> { fn zero() -> Self; fn is_zero(&self) -> bool; fn set_zero(&mut self) { loop {} } }
pub trait One: Sized + std::ops::Mul<Self, Output = Self> { fn one() -> Self; fn is_one(&self) -> bool where Self: PartialEq { loop {} } fn set_one(&mut self) { loop {} } }
pub trait UniformRand: Sized { fn rand<R: rand::Rng + ?Sized>(rng: &mut R) -> Self; }
pub fn test_rng() -> rand::rngs::StdRng { loop {} }
pub fn log2(_: usize) -> u32 { loop {} }
#[macro_export] macro_rules! start_timer { ($($t:tt)*) => { () } }
#[macro_export] macro_rules! end_timer { ($($t:tt)*) => { () } }
#[macro_export] macro_rules! cfg_iter { ($e:expr $(, $m:expr)?) => { $e.iter() } }
#[macro_export] macro_rules! cfg_into_iter { ($e:expr $(, $m:expr)?) => { $e.into_iter() } }
#[macro_export] macro_rules! cfg_iter_mut { ($e:expr $(, $m:expr)?) => { $e.iter_mut() } }
