use std::marker::PhantomData;
use std::ops::{Deref, DerefMut};
pub mod consts { macro_rules! u { ($($n:ident),*) => { $( #[derive(Clone, Copy, Debug, PartialEq, Eq)] pub struct $n; )* } } u!(U8, U12, U16, U24, U32); }
use consts::*;
pub struct GenericArray<T, N>(PhantomData<(T, N)>);
impl<T, N> Clone for GenericArray<T, N> { fn clone(&self) -> Self { loop {} } }
impl<T, N> Copy for GenericArray<T, N> where T: Copy {}
impl<T, N> Default for GenericArray<T, N> { fn default() -> Self { loop {} } }
impl<T, N> PartialEq for GenericArray<T, N> { fn eq(&self, _: &Self) -> bool { loop {} } }
impl<T, N> std::fmt::Debug for GenericArray<T, N> { fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { loop {} } }
impl<T, N> GenericArray<T, N> { pub fn from_slice(_: &[T]) -> &Self { loop {} } pub fn from_mut_slice(_: &mut [T]) -> &mut Self { loop {} } pub fn clone_from_slice(_: &[T]) -> Self { loop {} } pub fn as_slice(&self) -> &[T] { loop {} } pub fn as_mut_slice(&mut self) -> &mut [T] { loop {} } pub fn from_exact_iter<I>(_: I) -> Option<Self> { loop {} } }
impl<T, N> Deref for GenericArray<T, N> { type Target = [T]; fn deref(&self) -> &[T] { loop {} } }
impl<T, N> DerefMut for GenericArray<T, N> { fn deref_mut(&mut self) -> &mut [T] { loop {} } }
impl<T, N> AsRef<[T]> for GenericArray<T, N> { fn as_ref(&self) -> &[T] { loop {} } }
impl<T, N> AsMut<[T]> for GenericArray<T, N> { fn as_mut(&mut self) -> &mut [T] { loop {} } }
impl<T, N> IntoIterator for GenericArray<T, N> { type Item = T; type IntoIter = std::vec::IntoIter<T>; fn into_iter(self) -> Self::IntoIter { loop {} } }
impl<'a, T, N> From<&'a [T]> for &'a GenericArray<T, N> { fn from(_: &'a [T]) -> Self { loop {} } }
impl<'a, T> From<&'a [T; 12]> for &'a GenericArray<T, U12> { fn from(_: &'a [T; 12]) -> Self { loop {} } }
impl<'a, T> From<&'a [T; 16]> for &'a GenericArray<T, U16> { fn from(_: &'a [T; 16]) -> Self { loop {} } }
impl<'a, T> From<&'a [T; 32]> for &'a GenericArray<T, U32> { fn from(_: &'a [T; 32]) -> Self { loop {} } }
impl<T> From<[T; 12]> for GenericArray<T, U12> { fn from(_: [T; 12]) -> Self { loop {} } }
impl<T> From<[T; 16]> for GenericArray<T, U16> { fn from(_: [T; 16]) -> Self { loop {} } }
impl<T> From<[T; 32]> for GenericArray<T, U32> { fn from(_: [T; 32]) -> Self { loop {} } }
impl<T> From<GenericArray<T, U12>> for [T; 12] { fn from(_: GenericArray<T, U12>) -> Self { loop {} } }
impl<T> From<GenericArray<T, U16>> for [T; 16] { fn from(_: GenericArray<T, U16>) -> Self { loop {} } }
#[derive(Debug, Clone, Copy)] pub struct InvalidLength;
impl std::fmt::Display for InvalidLength { fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { loop {} } }
impl std::error::Error for InvalidLength {}
#[derive(Debug, Clone, Copy)] pub struct StreamCipherError;
impl std::fmt::Display for StreamCipherError { fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { loop {} } }
impl std::error::Error for StreamCipherError {}
pub type Key<B> = GenericArray<u8, <B as KeySizeUser>::KeySize>;
pub type Iv<B> = GenericArray<u8, <B as IvSizeUser>::IvSize>;
pub trait KeySizeUser { type KeySize; fn key_size() -> usize { loop {} } }
pub trait IvSizeUser { type IvSize; fn iv_size() -> usize { loop {} } }
pub trait KeyInit: KeySizeUser + Sized { fn new(_: &Key<Self>) -> Self { loop {} } fn new_from_slice(_: &[u8]) -> Result<Self, InvalidLength> { loop {} } fn generate_key<R: rand::RngCore + rand::CryptoRng>(_: R) -> Key<Self> { loop {} } }
pub trait KeyIvInit: KeySizeUser + IvSizeUser + Sized { fn new(_: &Key<Self>, _: &Iv<Self>) -> Self { loop {} } fn new_from_slices(_: &[u8], _: &[u8]) -> Result<Self, InvalidLength> { loop {} } fn generate_iv<R: rand::RngCore + rand::CryptoRng>(_: R) -> Iv<Self> { loop {} } }
pub trait StreamCipher { fn apply_keystream(&mut self, _: &mut [u8]) { loop {} } fn try_apply_keystream(&mut self, _: &mut [u8]) -> Result<(), StreamCipherError> { loop {} } fn apply_keystream_b2b(&mut self, _: &[u8], _: &mut [u8]) -> Result<(), StreamCipherError> { loop {} } }
pub trait StreamCipherSeek { fn seek<T>(&mut self, _: T) { loop {} } fn try_seek<T>(&mut self, _: T) -> Result<(), StreamCipherError> { loop {} } fn current_pos<T>(&self) -> T { loop {} } }
pub mod generic_array { pub use super::GenericArray; pub mod typenum { pub use super::super::consts::*; } }
pub use rand::rand_core;
