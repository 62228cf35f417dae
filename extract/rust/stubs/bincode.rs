#[derive(Debug)] pub enum ErrorKind { Io(std::io::Error), SizeLimit, Custom(String) }
impl std::fmt::Display for ErrorKind { fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { loop {} } }
impl std::error::Error for ErrorKind {}
pub type Error = Box<ErrorKind>; pub type Result<T> = std::result::Result<T, Error>;
pub fn serialize<T: serde::Serialize + ?Sized>(_: &T) -> Result<Vec<u8>> { loop {} }
pub fn deserialize<'a, T: serde::Deserialize<'a>>(_: &'a [u8]) -> Result<T> { loop {} }
pub fn serialize_into<W: std::io::Write, T: serde::Serialize + ?Sized>(_: W, _: &T) -> Result<()> { loop {} }
pub fn deserialize_from<R: std::io::Read, T: serde::de::DeserializeOwned>(_: R) -> Result<T> { loop {} }
pub fn serialized_size<T: serde::Serialize + ?Sized>(_: &T) -> Result<u64> { loop {} }
pub struct DefaultOptions; impl DefaultOptions { pub fn new() -> Self { loop {} } }
pub trait Options: Sized { fn with_fixint_encoding(self) -> Self { loop {} } fn with_varint_encoding(self) -> Self { loop {} } fn with_limit(self, _: u64) -> Self { loop {} } fn with_big_endian(self) -> Self { loop {} } fn with_little_endian(self) -> Self { loop {} } fn allow_trailing_bytes(self) -> Self { loop {} } fn reject_trailing_bytes(self) -> Self { loop {} } fn serialize<S: serde::Serialize + ?Sized>(self, _: &S) -> Result<Vec<u8>> { loop {} } fn deserialize<'a, T: serde::Deserialize<'a>>(self, _: &'a [u8]) -> Result<T> { loop {} } }
impl Options for DefaultOptions {}
pub fn options() -> DefaultOptions { loop {} }
pub fn config() -> DefaultOptions { loop {} }
