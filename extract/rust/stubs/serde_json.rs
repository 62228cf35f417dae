use std::io::{Read, Write};
pub use map::Map;
pub struct Error;
impl std::fmt::Debug for Error { fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { loop {} } }
impl std::fmt::Display for Error { fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { loop {} } }
impl std::error::Error for Error {}
impl Error { pub fn line(&self) -> usize { loop {} } pub fn column(&self) -> usize { loop {} } }
pub type Result<T> = std::result::Result<T, Error>;
#[derive(Clone, Debug, PartialEq, Eq)] pub struct Number;
impl std::fmt::Display for Number { fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { loop {} } }
impl Number { pub fn as_u64(&self) -> Option<u64> { loop {} } pub fn as_i64(&self) -> Option<i64> { loop {} } pub fn as_f64(&self) -> Option<f64> { loop {} } pub fn as_u128(&self) -> Option<u128> { loop {} } pub fn as_i128(&self) -> Option<i128> { loop {} } pub fn as_str(&self) -> &str { loop {} } pub fn is_u64(&self) -> bool { loop {} } pub fn is_i64(&self) -> bool { loop {} } pub fn is_f64(&self) -> bool { loop {} } pub fn from_f64(_: f64) -> Option<Number> { loop {} } }
macro_rules! fr { ($($t:ty),*) => { $( impl From<$t> for Number { fn from(_: $t) -> Self { loop {} } } impl From<$t> for Value { fn from(_: $t) -> Self { loop {} } } )* } } fr!(u8, u16, u32, u64, i8, i16, i32, i64, usize);
impl From<String> for Value { fn from(_: String) -> Self { loop {} } } impl<'a> From<&'a str> for Value { fn from(_: &'a str) -> Self { loop {} } } impl From<bool> for Value { fn from(_: bool) -> Self { loop {} } } impl<T: Into<Value>> From<Vec<T>> for Value { fn from(_: Vec<T>) -> Self { loop {} } }
#[derive(Clone, Debug, PartialEq, Eq)] pub enum Value { Null, Bool(bool), Number(Number), String(String), Array(Vec<Value>), Object(Map<String, Value>) }
impl std::fmt::Display for Value { fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { loop {} } }
pub mod value { pub use super::{Value, Number, Map}; pub trait Index {} impl Index for str {} impl Index for usize {} impl Index for String {} impl<T: Index + ?Sized> Index for &T {} }
impl Value { pub fn as_object(&self) -> Option<&Map<String, Value>> { loop {} } pub fn as_object_mut(&mut self) -> Option<&mut Map<String, Value>> { loop {} } pub fn as_array(&self) -> Option<&Vec<Value>> { loop {} } pub fn as_str(&self) -> Option<&str> { loop {} } pub fn as_u64(&self) -> Option<u64> { loop {} } pub fn as_i64(&self) -> Option<i64> { loop {} } pub fn as_f64(&self) -> Option<f64> { loop {} } pub fn as_bool(&self) -> Option<bool> { loop {} } pub fn as_number(&self) -> Option<&Number> { loop {} } pub fn is_object(&self) -> bool { loop {} } pub fn is_array(&self) -> bool { loop {} } pub fn is_string(&self) -> bool { loop {} } pub fn is_number(&self) -> bool { loop {} } pub fn is_null(&self) -> bool { loop {} } pub fn is_boolean(&self) -> bool { loop {} } pub fn is_u64(&self) -> bool { loop {} } pub fn is_i64(&self) -> bool { loop {} } pub fn get<I: value::Index>(&self, _: I) -> Option<&Value> { loop {} } pub fn take(&mut self) -> Value { loop {} } pub fn pointer(&self, _: &str) -> Option<&Value> { loop {} } }
impl<I: value::Index> std::ops::Index<I> for Value { type Output = Value; fn index(&self, _: I) -> &Value { loop {} } }
impl<'de> serde::Deserialize<'de> for Value {} impl serde::Serialize for Value {}
pub mod map { #[derive(Clone, Debug, PartialEq, Eq)] pub struct Map<K, V>(std::marker::PhantomData<(K, V)>);
 use super::Value;
 pub struct Iter<'a>(std::marker::PhantomData<&'a ()>); impl<'a> Iterator for Iter<'a> { type Item = (&'a String, &'a Value); fn next(&mut self) -> Option<Self::Item> { loop {} } }
 impl<'a> DoubleEndedIterator for Iter<'a> { fn next_back(&mut self) -> Option<Self::Item> { loop {} } } impl<'a> ExactSizeIterator for Iter<'a> {}
 pub struct IntoIter; impl Iterator for IntoIter { type Item = (String, Value); fn next(&mut self) -> Option<Self::Item> { loop {} } }
 impl Map<String, Value> { pub fn new() -> Self { loop {} } pub fn iter(&self) -> Iter<'_> { loop {} } pub fn get<Q: ?Sized>(&self, _: &Q) -> Option<&Value> { loop {} } pub fn contains_key<Q: ?Sized>(&self, _: &Q) -> bool { loop {} } pub fn insert(&mut self, _: String, _: Value) -> Option<Value> { loop {} } pub fn remove<Q: ?Sized>(&mut self, _: &Q) -> Option<Value> { loop {} } pub fn len(&self) -> usize { loop {} } pub fn is_empty(&self) -> bool { loop {} } pub fn keys(&self) -> std::vec::IntoIter<&String> { loop {} } pub fn values(&self) -> std::vec::IntoIter<&Value> { loop {} } }
 impl IntoIterator for Map<String, Value> { type Item = (String, Value); type IntoIter = IntoIter; fn into_iter(self) -> IntoIter { loop {} } }
 impl<'a> IntoIterator for &'a Map<String, Value> { type Item = (&'a String, &'a Value); type IntoIter = Iter<'a>; fn into_iter(self) -> Iter<'a> { loop {} } }
}
pub fn from_str<'a, T: serde::Deserialize<'a>>(_: &'a str) -> Result<T> { loop {} }
pub fn from_slice<'a, T: serde::Deserialize<'a>>(_: &'a [u8]) -> Result<T> { loop {} }
pub fn from_reader<R: Read, T: serde::de::DeserializeOwned>(_: R) -> Result<T> { loop {} }
pub fn from_value<T: serde::de::DeserializeOwned>(_: Value) -> Result<T> { loop {} }
pub fn to_string<T: serde::Serialize + ?Sized>(_: &T) -> Result<String> { loop {} }
pub fn to_string_pretty<T: serde::Serialize + ?Sized>(_: &T) -> Result<String> { loop {} }
pub fn to_vec<T: serde::Serialize + ?Sized>(_: &T) -> Result<Vec<u8>> { loop {} }
pub fn to_vec_pretty<T: serde::Serialize + ?Sized>(_: &T) -> Result<Vec<u8>> { loop {} }
pub fn to_value<T: serde::Serialize>(_: T) -> Result<Value> { loop {} }
pub fn to_writer<W: Write, T: serde::Serialize + ?Sized>(_: W, _: &T) -> Result<()> { loop {} }
pub fn to_writer_pretty<W: Write, T: serde::Serialize + ?Sized>(_: W, _: &T) -> Result<()> { loop {} }
#[macro_export] macro_rules! json { ($($t:tt)*) => { $crate::Value::Null } }
