pub use stubderive::{Deserialize, Serialize};
pub trait Serializer: Sized { type Ok; type Error; fn serialize_u32(self, _: u32) -> Result<Self::Ok, Self::Error> { loop {} } fn serialize_u64(self, _: u64) -> Result<Self::Ok, Self::Error> { loop {} } fn serialize_str(self, _: &str) -> Result<Self::Ok, Self::Error> { loop {} } fn serialize_bytes(self, _: &[u8]) -> Result<Self::Ok, Self::Error> { loop {} } }
pub trait Deserializer<'de>: Sized { type Error; }
pub trait Serialize { fn serialize<S: Serializer>(&self, _s: S) -> Result<S::Ok, S::Error> { loop {} } }
pub trait Deserialize<'de>: Sized { fn deserialize<D: Deserializer<'de>>(_d: D) -> Result<Self, D::Error> { loop {} } }
pub mod de { pub use super::{Deserialize, Deserializer}; pub trait DeserializeOwned: for<'de> super::Deserialize<'de> {} impl<T> DeserializeOwned for T where T: for<'de> super::Deserialize<'de> {} pub trait Error: Sized { fn custom<T: std::fmt::Display>(_: T) -> Self { loop {} } } }
pub mod ser { pub use super::{Serialize, Serializer}; }
macro_rules! p { ($($t:ty),*) => { $( impl Serialize for $t {} impl<'de> Deserialize<'de> for $t {} )* } }
p!(u8, u16, u32, u64, usize, i8, i16, i32, i64, isize, bool, String, f32, f64, char, u128, i128);
impl Serialize for str {} impl<T: Serialize + ?Sized> Serialize for &T {} impl<T: Serialize> Serialize for Vec<T> {} impl<T: Serialize> Serialize for [T] {} impl<'de, T: Deserialize<'de>> Deserialize<'de> for Vec<T> {} impl<T: Serialize> Serialize for Option<T> {} impl<'de, T: Deserialize<'de>> Deserialize<'de> for Option<T> {}
impl<K: Serialize, V: Serialize, S> Serialize for std::collections::HashMap<K, V, S> {} impl<'de, K: Deserialize<'de>, V: Deserialize<'de>, S> Deserialize<'de> for std::collections::HashMap<K, V, S> {}
impl<K: Serialize, V: Serialize> Serialize for std::collections::BTreeMap<K, V> {} impl<'de, K: Deserialize<'de>, V: Deserialize<'de>> Deserialize<'de> for std::collections::BTreeMap<K, V> {}
impl<A: Serialize, B: Serialize> Serialize for (A, B) {} impl<'de, A: Deserialize<'de>, B: Deserialize<'de>> Deserialize<'de> for (A, B) {}
impl<T: Serialize, const N: usize> Serialize for [T; N] {} impl<'de, T: Deserialize<'de>, const N: usize> Deserialize<'de> for [T; N] {}
