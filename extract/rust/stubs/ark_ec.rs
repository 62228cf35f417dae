use ark_ff::{Field, PrimeField};
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize};
use ark_std::{One, UniformRand, Zero};
use std::fmt::{Debug, Display};
use std::ops::*;
pub trait AdditiveGroup: Zero {}
pub trait PrimeGroup: Copy + Zero + Debug + Display + PartialEq + Eq + Default + Send + Sync + 'static + UniformRand + CanonicalSerialize + CanonicalDeserialize + Neg<Output = Self> + Add<Self, Output = Self> + Sub<Self, Output = Self> + AddAssign<Self> + SubAssign<Self> + for<'a> Add<&'a Self, Output = Self> + for<'a> Sub<&'a Self, Output = Self> + std::iter::Sum<Self> + Mul<<Self as PrimeGroup>::ScalarField, Output = Self> + for<'a> Mul<&'a <Self as PrimeGroup>::ScalarField, Output = Self> + MulAssign<<Self as PrimeGroup>::ScalarField> { type ScalarField: PrimeField; fn generator() -> Self; fn mul_bigint(&self, _: impl AsRef<[u64]>) -> Self { loop {} } fn double(&self) -> Self { loop {} } }
pub trait CurveGroup: PrimeGroup + From<<Self as CurveGroup>::Affine> + Into<<Self as CurveGroup>::Affine> + Add<<Self as CurveGroup>::Affine, Output = Self> + AddAssign<<Self as CurveGroup>::Affine> + Sub<<Self as CurveGroup>::Affine, Output = Self> + VariableBaseMSM<MulBase = <Self as CurveGroup>::Affine> { type Affine: AffineRepr<Group = Self, ScalarField = <Self as PrimeGroup>::ScalarField> + From<Self>; fn into_affine(self) -> Self::Affine { loop {} } fn normalize_batch(_v: &[Self]) -> Vec<Self::Affine> { loop {} } }
pub trait ScalarMul: PrimeGroup { type MulBase; fn batch_mul(self, _v: &[<Self as PrimeGroup>::ScalarField]) -> Vec<Self::MulBase> { loop {} } }
pub trait VariableBaseMSM: Sized + PrimeGroup { type MulBase: Copy; fn msm(_b: &[Self::MulBase], _s: &[<Self as PrimeGroup>::ScalarField]) -> Result<Self, usize> { loop {} } fn msm_unchecked(_b: &[Self::MulBase], _s: &[<Self as PrimeGroup>::ScalarField]) -> Self { loop {} } fn msm_bigint(_b: &[Self::MulBase], _s: &[<<Self as PrimeGroup>::ScalarField as PrimeField>::BigInt]) -> Self { loop {} } }
pub trait AffineRepr: Copy + Debug + Display + PartialEq + Eq + Default + Send + Sync + 'static + UniformRand + CanonicalSerialize + CanonicalDeserialize + Neg<Output = Self> + Mul<<Self as AffineRepr>::ScalarField, Output = <Self as AffineRepr>::Group> + Add<Self, Output = <Self as AffineRepr>::Group> + Into<<Self as AffineRepr>::Group> { type ScalarField: PrimeField; type Group: CurveGroup<Affine = Self, ScalarField = Self::ScalarField>; fn generator() -> Self { loop {} } fn zero() -> Self { loop {} } fn is_zero(&self) -> bool { loop {} } fn into_group(self) -> Self::Group { loop {} } fn mul_bigint(&self, _: impl AsRef<[u64]>) -> Self::Group { loop {} } }
pub mod short_weierstrass {} pub mod models {}
pub mod pairing {
 use super::*;
 pub trait Pairing: Sized + 'static + Copy + Debug + Sync + Send + Eq { type BaseField: PrimeField; type ScalarField: PrimeField; type G1: CurveGroup<ScalarField = Self::ScalarField, Affine = Self::G1Affine>; type G1Affine: AffineRepr<Group = Self::G1, ScalarField = Self::ScalarField> + From<Self::G1> + Into<Self::G1> + Into<Self::G1Prepared>; type G1Prepared: From<Self::G1> + From<Self::G1Affine>; type G2: CurveGroup<ScalarField = Self::ScalarField, Affine = Self::G2Affine>; type G2Affine: AffineRepr<Group = Self::G2, ScalarField = Self::ScalarField> + From<Self::G2> + Into<Self::G2> + Into<Self::G2Prepared>; type G2Prepared: From<Self::G2> + From<Self::G2Affine>; type TargetField: Field;
  fn pairing(_p: impl Into<Self::G1Prepared>, _q: impl Into<Self::G2Prepared>) -> PairingOutput<Self> { loop {} } fn multi_pairing(_a: impl IntoIterator<Item = impl Into<Self::G1Prepared>>, _b: impl IntoIterator<Item = impl Into<Self::G2Prepared>>) -> PairingOutput<Self> { loop {} } fn multi_miller_loop(_a: impl IntoIterator<Item = impl Into<Self::G1Prepared>>, _b: impl IntoIterator<Item = impl Into<Self::G2Prepared>>) -> MillerLoopOutput<Self> { loop {} } fn final_exponentiation(_m: MillerLoopOutput<Self>) -> Option<PairingOutput<Self>> { loop {} } }
 pub struct MillerLoopOutput<P: Pairing>(pub P::TargetField);
 #[derive(Clone, Copy, Debug, PartialEq, Eq)] pub struct PairingOutput<P: Pairing>(pub P::TargetField);
 impl<P: Pairing> ark_serialize::Valid for PairingOutput<P> {} impl<P: Pairing> CanonicalSerialize for PairingOutput<P> {} impl<P: Pairing> CanonicalDeserialize for PairingOutput<P> {}
 impl<P: Pairing> Add for PairingOutput<P> { type Output = Self; fn add(self, _: Self) -> Self { loop {} } } impl<P: Pairing> Sub for PairingOutput<P> { type Output = Self; fn sub(self, _: Self) -> Self { loop {} } } impl<P: Pairing> Neg for PairingOutput<P> { type Output = Self; fn neg(self) -> Self { loop {} } } impl<P: Pairing> AddAssign for PairingOutput<P> { fn add_assign(&mut self, _: Self) { loop {} } } impl<P: Pairing> SubAssign for PairingOutput<P> { fn sub_assign(&mut self, _: Self) { loop {} } } impl<P: Pairing> Mul<P::ScalarField> for PairingOutput<P> { type Output = Self; fn mul(self, _: P::ScalarField) -> Self { loop {} } } impl<P: Pairing> Zero for PairingOutput<P> { fn zero() -> Self { loop {} } fn is_zero(&self) -> bool { loop {} } }
}
#[allow(unused_imports)] use One as _;
#[macro_export] macro_rules! stub_group { ($g:ident, $a:ident, $f:ty) => {
 #[derive(Clone, Copy, Debug, PartialEq, Eq, Default)] pub struct $g; #[derive(Clone, Copy, Debug, PartialEq, Eq, Default)] pub struct $a;
 $crate::stub_group_common!($g); $crate::stub_group_common!($a);
 impl ::std::ops::Neg for $g { type Output = $g; fn neg(self) -> $g { loop {} } } impl ::std::ops::Neg for $a { type Output = $a; fn neg(self) -> $a { loop {} } }
 impl ::std::ops::Add<$g> for $g { type Output = $g; fn add(self, _: $g) -> $g { loop {} } } impl<'x> ::std::ops::Add<&'x $g> for $g { type Output = $g; fn add(self, _: &'x $g) -> $g { loop {} } } impl ::std::ops::Add<$a> for $g { type Output = $g; fn add(self, _: $a) -> $g { loop {} } } impl ::std::ops::Add<$a> for $a { type Output = $g; fn add(self, _: $a) -> $g { loop {} } }
 impl ::std::ops::Sub<$g> for $g { type Output = $g; fn sub(self, _: $g) -> $g { loop {} } } impl<'x> ::std::ops::Sub<&'x $g> for $g { type Output = $g; fn sub(self, _: &'x $g) -> $g { loop {} } } impl ::std::ops::Sub<$a> for $g { type Output = $g; fn sub(self, _: $a) -> $g { loop {} } }
 impl ::std::ops::AddAssign<$g> for $g { fn add_assign(&mut self, _: $g) { loop {} } } impl ::std::ops::AddAssign<$a> for $g { fn add_assign(&mut self, _: $a) { loop {} } } impl ::std::ops::SubAssign<$g> for $g { fn sub_assign(&mut self, _: $g) { loop {} } }
 impl ::std::ops::Mul<$f> for $g { type Output = $g; fn mul(self, _: $f) -> $g { loop {} } } impl<'x> ::std::ops::Mul<&'x $f> for $g { type Output = $g; fn mul(self, _: &'x $f) -> $g { loop {} } } impl ::std::ops::MulAssign<$f> for $g { fn mul_assign(&mut self, _: $f) { loop {} } } impl ::std::ops::Mul<$f> for $a { type Output = $g; fn mul(self, _: $f) -> $g { loop {} } }
 impl ::std::iter::Sum<$g> for $g { fn sum<I: Iterator<Item = $g>>(_: I) -> $g { loop {} } }
 impl ::ark_std::Zero for $g { fn zero() -> Self { loop {} } fn is_zero(&self) -> bool { loop {} } }
 impl From<$a> for $g { fn from(_: $a) -> $g { loop {} } } impl From<$g> for $a { fn from(_: $g) -> $a { loop {} } }
 impl $crate::PrimeGroup for $g { type ScalarField = $f; fn generator() -> Self { loop {} } } impl $crate::VariableBaseMSM for $g { type MulBase = $a; } impl $crate::CurveGroup for $g { type Affine = $a; } impl $crate::AffineRepr for $a { type ScalarField = $f; type Group = $g; }
} }
#[macro_export] macro_rules! stub_group_common { ($g:ident) => { impl ::std::fmt::Display for $g { fn fmt(&self, _: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result { loop {} } } impl ::ark_std::UniformRand for $g { fn rand<R: ::ark_std::rand::Rng + ?Sized>(_: &mut R) -> Self { loop {} } } impl ::ark_serialize::Valid for $g {} impl ::ark_serialize::CanonicalSerialize for $g {} impl ::ark_serialize::CanonicalDeserialize for $g {} } }
