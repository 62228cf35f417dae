use std::marker::PhantomData;
pub use cipher::{GenericArray, KeyInit, KeySizeUser, Key};
pub use aead::{AeadCore, AeadInPlace, Error};
pub use aes;
pub type Nonce<N> = GenericArray<u8, N>;
pub type Tag<N = aead::consts::U16> = GenericArray<u8, N>;
pub struct AesGcm<A, N, T = aead::consts::U16>(PhantomData<(A, N, T)>);
impl<A, N, T> Clone for AesGcm<A, N, T> { fn clone(&self) -> Self { loop {} } }
pub type Aes256Gcm = AesGcm<aes::Aes256, aead::consts::U12>;
pub type Aes128Gcm = AesGcm<aes::Aes128, aead::consts::U12>;
impl<A: KeySizeUser, N, T> KeySizeUser for AesGcm<A, N, T> { type KeySize = A::KeySize; }
impl<A: KeySizeUser, N, T> KeyInit for AesGcm<A, N, T> {}
impl<A, N, T> aead::AeadCore for AesGcm<A, N, T> { type NonceSize = N; type TagSize = T; type CiphertextOverhead = (); }
impl<A, N, T> aead::AeadInPlace for AesGcm<A, N, T> {}
pub mod aead {
  pub use cipher::{self, consts, KeyInit, KeySizeUser, Key, GenericArray, generic_array};
  pub use rand::rand_core;
  pub use rand::rngs::OsRng;
  #[derive(Clone, Copy, Debug, PartialEq, Eq)] pub struct Error;
  impl std::fmt::Display for Error { fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { loop {} } }
  impl std::error::Error for Error {}
  pub type Result<T> = core::result::Result<T, Error>;
  pub type Nonce<A> = GenericArray<u8, <A as AeadCore>::NonceSize>;
  pub type Tag<A> = GenericArray<u8, <A as AeadCore>::TagSize>;
  pub trait AeadCore { type NonceSize; type TagSize; type CiphertextOverhead; fn generate_nonce(_r: impl rand::CryptoRng + rand::RngCore) -> Nonce<Self> where Self: Sized { loop {} } }
  pub struct Payload<'m, 'a> { pub msg: &'m [u8], pub aad: &'a [u8] }
  impl<'m, 'a> From<&'m [u8]> for Payload<'m, 'a> { fn from(_: &'m [u8]) -> Self { loop {} } }
  pub trait Buffer: AsRef<[u8]> + AsMut<[u8]> {}
  impl Buffer for Vec<u8> {}
  pub trait Aead: AeadCore { fn encrypt<'m, 'a>(&self, _n: &Nonce<Self>, _p: impl Into<Payload<'m, 'a>>) -> Result<Vec<u8>> where Self: Sized { loop {} } fn decrypt<'m, 'a>(&self, _n: &Nonce<Self>, _p: impl Into<Payload<'m, 'a>>) -> Result<Vec<u8>> where Self: Sized { loop {} } }
  pub trait AeadInPlace: AeadCore { fn encrypt_in_place(&self, _n: &Nonce<Self>, _a: &[u8], _b: &mut dyn Buffer) -> Result<()> where Self: Sized { loop {} } fn decrypt_in_place(&self, _n: &Nonce<Self>, _a: &[u8], _b: &mut dyn Buffer) -> Result<()> where Self: Sized { loop {} } fn encrypt_in_place_detached(&self, _n: &Nonce<Self>, _a: &[u8], _b: &mut [u8]) -> Result<Tag<Self>> where Self: Sized { loop {} } fn decrypt_in_place_detached(&self, _n: &Nonce<Self>, _a: &[u8], _b: &mut [u8], _t: &Tag<Self>) -> Result<()> where Self: Sized { loop {} } }
  impl<T: AeadInPlace> Aead for T {}
}
