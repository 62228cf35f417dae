pub use stubderive::{CanonicalDeserialize, CanonicalSerialize};
pub use std::io::{Read, Write};
#[derive(Debug)] pub enum SerializationError { NotEnoughSpace, InvalidData, UnexpectedFlags, IoError(std::io::Error) }
impl std::fmt::Display for SerializationError { fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { loop {} } }
impl std::error::Error for SerializationError {}
#[derive(Clone, Copy, Debug, PartialEq, Eq)] pub enum Compress { Yes, No }
#[derive(Clone, Copy, Debug, PartialEq, Eq)] pub enum Validate { Yes, No }
pub trait Valid: Sync + Sized { fn check(&self) -> Result<(), SerializationError> { loop {} } }
pub trait CanonicalSerialize { fn serialize_with_mode<W: Write>(&self, _w: W, _c: Compress) -> Result<(), SerializationError> { loop {} } fn serialized_size(&self, _c: Compress) -> usize { loop {} } fn serialize_compressed<W: Write>(&self, _w: W) -> Result<(), SerializationError> { loop {} } fn serialize_uncompressed<W: Write>(&self, _w: W) -> Result<(), SerializationError> { loop {} } fn compressed_size(&self) -> usize { loop {} } fn uncompressed_size(&self) -> usize { loop {} } }
pub trait CanonicalDeserialize: Valid { fn deserialize_with_mode<R: Read>(_r: R, _c: Compress, _v: Validate) -> Result<Self, SerializationError> { loop {} } fn deserialize_compressed<R: Read>(_r: R) -> Result<Self, SerializationError> { loop {} } fn deserialize_compressed_unchecked<R: Read>(_r: R) -> Result<Self, SerializationError> { loop {} } fn deserialize_uncompressed<R: Read>(_r: R) -> Result<Self, SerializationError> { loop {} } fn deserialize_uncompressed_unchecked<R: Read>(_r: R) -> Result<Self, SerializationError> { loop {} } }
macro_rules! p { ($($t:ty),*) => { $( impl Valid for $t {} impl CanonicalSerialize for $t {} impl CanonicalDeserialize for $t {} )* } } p!(u8, u16, u32, u64, usize, bool, String);
impl<T: Valid> Valid for Vec<T> {} impl<T: CanonicalSerialize> CanonicalSerialize for Vec<T> {} impl<T: CanonicalDeserialize> CanonicalDeserialize for Vec<T> {} impl<T: CanonicalSerialize> CanonicalSerialize for [T] {}
impl<T: Valid, const N: usize> Valid for [T; N] {} impl<T: CanonicalSerialize, const N: usize> CanonicalSerialize for [T; N] {} impl<T: CanonicalDeserialize, const N: usize> CanonicalDeserialize for [T; N] {}
impl<A: CanonicalSerialize, B: CanonicalSerialize> CanonicalSerialize for (A, B) {}
