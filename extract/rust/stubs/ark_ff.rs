pub use ark_std::{One, UniformRand, Zero};
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize};
use std::ops::*;
use std::fmt::{Debug, Display};
use std::hash::Hash;
pub trait AdditiveGroup: Sized + Copy + Zero + Debug + Display + PartialEq + Eq + Send + Sync + 'static + CanonicalSerialize + CanonicalDeserialize + UniformRand
 + Neg<Output = Self> + Add<Self, Output = Self> + Sub<Self, Output = Self> + AddAssign<Self> + SubAssign<Self> + for<'a> Add<&'a Self, Output = Self> + for<'a> Sub<&'a Self, Output = Self> + for<'a> AddAssign<&'a Self> + for<'a> SubAssign<&'a Self> + std::iter::Sum<Self> + for<'a> std::iter::Sum<&'a Self>
 + Mul<<Self as AdditiveGroup>::Scalar, Output = Self> + for<'a> Mul<&'a <Self as AdditiveGroup>::Scalar, Output = Self>
{ type Scalar: Field; const ZERO: Self; fn double(&self) -> Self { loop {} } fn double_in_place(&mut self) -> &mut Self { loop {} } fn neg_in_place(&mut self) -> &mut Self { loop {} } }
pub trait Field: Copy + Zero + One + Debug + Display + PartialEq + Eq + PartialOrd + Ord + Hash + Default + Send + Sync + 'static + UniformRand + CanonicalSerialize + CanonicalDeserialize
 + Neg<Output = Self> + Add<Self, Output = Self> + Sub<Self, Output = Self> + Mul<Self, Output = Self> + Div<Self, Output = Self> + AddAssign<Self> + SubAssign<Self> + MulAssign<Self> + DivAssign<Self>
 + for<'a> Add<&'a Self, Output = Self> + for<'a> Sub<&'a Self, Output = Self> + for<'a> Mul<&'a Self, Output = Self> + for<'a> Div<&'a Self, Output = Self> + for<'a> AddAssign<&'a Self> + for<'a> SubAssign<&'a Self> + for<'a> MulAssign<&'a Self>
 + std::iter::Sum<Self> + for<'a> std::iter::Sum<&'a Self> + std::iter::Product<Self> + From<u128> + From<u64> + From<u32> + From<u16> + From<u8> + From<bool> + From<i64> + From<i32> + From<i128>
{ const ONE: Self; const ZERO: Self; fn inverse(&self) -> Option<Self> { loop {} } fn inverse_in_place(&mut self) -> Option<&mut Self> { loop {} } fn square(&self) -> Self { loop {} } fn square_in_place(&mut self) -> &mut Self { loop {} } fn double(&self) -> Self { loop {} } fn double_in_place(&mut self) -> &mut Self { loop {} } fn pow<S: AsRef<[u64]>>(&self, _e: S) -> Self { loop {} } fn from_random_bytes(_b: &[u8]) -> Option<Self> { loop {} } fn characteristic() -> &'static [u64] { loop {} } fn sqrt(&self) -> Option<Self> { loop {} } }
pub trait PrimeField: Field + std::str::FromStr + From<num::BigUint> + Into<num::BigUint> { type BigInt: BigInteger; const MODULUS: Self::BigInt; const MODULUS_BIT_SIZE: u32; fn from_bigint(_r: Self::BigInt) -> Option<Self> { loop {} } fn into_bigint(self) -> Self::BigInt { loop {} } fn from_be_bytes_mod_order(_b: &[u8]) -> Self { loop {} } fn from_le_bytes_mod_order(_b: &[u8]) -> Self { loop {} } }
pub mod num { #[derive(Clone, Debug)] pub struct BigUint; }
pub trait FftField: Field {} impl<F: PrimeField> FftField for F {}
pub trait BigInteger: Clone + Copy + Debug + PartialEq + Eq + PartialOrd + Ord { fn to_bytes_le(&self) -> Vec<u8> { loop {} } fn to_bytes_be(&self) -> Vec<u8> { loop {} } fn is_zero(&self) -> bool { loop {} } fn num_bits(&self) -> u32 { loop {} } }
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)] pub struct BigInt<const N: usize>(pub [u64; N]);
impl<const N: usize> BigInteger for BigInt<N> {} impl<const N: usize> BigInt<N> { pub fn new(_: [u64; N]) -> Self { loop {} } pub fn zero() -> Self { loop {} } }
pub type BigInteger256 = BigInt<4>;
pub trait ToConstraintField<F> { fn to_field_elements(&self) -> Option<Vec<F>>; }
pub fn batch_inversion<F: Field>(_v: &mut [F]) { loop {} }
#[macro_export] macro_rules! stub_field { ($f:ident) => {
 #[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Default)] pub struct $f;
 impl ::std::fmt::Display for $f { fn fmt(&self, _: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result { loop {} } }
 impl ::ark_std::Zero for $f { fn zero() -> Self { loop {} } fn is_zero(&self) -> bool { loop {} } }
 impl ::ark_std::One for $f { fn one() -> Self { loop {} } }
 impl ::ark_std::UniformRand for $f { fn rand<R: ::ark_std::rand::Rng + ?Sized>(_: &mut R) -> Self { loop {} } }
 impl ::ark_serialize::Valid for $f {} impl ::ark_serialize::CanonicalSerialize for $f {} impl ::ark_serialize::CanonicalDeserialize for $f {}
 impl ::std::ops::Neg for $f { type Output = $f; fn neg(self) -> $f { loop {} } }
 $crate::stub_ops!($f, Add add, Sub sub, Mul mul, Div div); $crate::stub_aops!($f, AddAssign add_assign, SubAssign sub_assign, MulAssign mul_assign, DivAssign div_assign);
 impl ::std::iter::Sum<$f> for $f { fn sum<I: Iterator<Item = $f>>(_: I) -> $f { loop {} } } impl<'a> ::std::iter::Sum<&'a $f> for $f { fn sum<I: Iterator<Item = &'a $f>>(_: I) -> $f { loop {} } } impl ::std::iter::Product<$f> for $f { fn product<I: Iterator<Item = $f>>(_: I) -> $f { loop {} } }
 $crate::stub_from!($f, u128, u64, u32, u16, u8, bool, i64, i32, i128, i16, i8);
 impl From<$crate::num::BigUint> for $f { fn from(_: $crate::num::BigUint) -> Self { loop {} } } impl From<$f> for $crate::num::BigUint { fn from(_: $f) -> Self { loop {} } }
 impl From<$crate::BigInt<4>> for $f { fn from(_: $crate::BigInt<4>) -> Self { loop {} } } impl From<$f> for $crate::BigInt<4> { fn from(_: $f) -> Self { loop {} } }
 impl ::std::str::FromStr for $f { type Err = (); fn from_str(_: &str) -> Result<Self, ()> { loop {} } }
 impl $crate::Field for $f { const ONE: Self = $f; const ZERO: Self = $f; }
 impl $crate::PrimeField for $f { type BigInt = $crate::BigInt<4>; const MODULUS: $crate::BigInt<4> = $crate::BigInt([0; 4]); const MODULUS_BIT_SIZE: u32 = 254; }
} }
#[macro_export] macro_rules! stub_ops { ($f:ident, $($t:ident $m:ident),*) => { $( impl ::std::ops::$t<$f> for $f { type Output = $f; fn $m(self, _: $f) -> $f { loop {} } } impl<'a> ::std::ops::$t<&'a $f> for $f { type Output = $f; fn $m(self, _: &'a $f) -> $f { loop {} } } impl<'a> ::std::ops::$t<$f> for &'a $f { type Output = $f; fn $m(self, _: $f) -> $f { loop {} } } impl<'a, 'b> ::std::ops::$t<&'b $f> for &'a $f { type Output = $f; fn $m(self, _: &'b $f) -> $f { loop {} } } )* } }
#[macro_export] macro_rules! stub_aops { ($f:ident, $($t:ident $m:ident),*) => { $( impl ::std::ops::$t<$f> for $f { fn $m(&mut self, _: $f) { loop {} } } impl<'a> ::std::ops::$t<&'a $f> for $f { fn $m(&mut self, _: &'a $f) { loop {} } } )* } }
#[macro_export] macro_rules! stub_from { ($f:ident, $($t:ty),*) => { $( impl From<$t> for $f { fn from(_: $t) -> Self { loop {} } } )* } }
