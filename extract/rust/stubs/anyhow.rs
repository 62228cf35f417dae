use std::fmt::{Debug, Display};
pub struct Error;
impl Debug for Error { fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { loop {} } }
impl Display for Error { fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { loop {} } }
impl<E: std::error::Error + Send + Sync + 'static> From<E> for Error { fn from(_: E) -> Error { loop {} } }
impl Error { pub fn msg<M: Display + Debug + Send + Sync + 'static>(_m: M) -> Error { loop {} } pub fn new<E: std::error::Error + Send + Sync + 'static>(_e: E) -> Error { loop {} } pub fn context<C: Display + Send + Sync + 'static>(self, _c: C) -> Error { loop {} } pub fn to_string(&self) -> String { loop {} } pub fn root_cause(&self) -> &(dyn std::error::Error + 'static) { loop {} } pub fn downcast_ref<E>(&self) -> Option<&E> { loop {} } pub fn is<E>(&self) -> bool { loop {} } }
pub type Result<T, E = Error> = core::result::Result<T, E>;
#[allow(non_snake_case)] pub fn Ok<T>(t: T) -> Result<T> { Result::Ok(t) }
pub trait Context<T, E>: Sized { fn context<C: Display + Send + Sync + 'static>(self, _c: C) -> Result<T, Error> { loop {} } fn with_context<C: Display + Send + Sync + 'static, F: FnOnce() -> C>(self, _f: F) -> Result<T, Error> { loop {} } }
pub trait StdError {}
impl<E: std::error::Error + Send + Sync + 'static> StdError for E {}
impl StdError for Error {}
impl<T, E: StdError> Context<T, E> for core::result::Result<T, E> {}
impl<T> Context<T, std::convert::Infallible> for Option<T> {}
#[doc(hidden)] pub fn __fmt(_a: std::fmt::Arguments<'_>) -> Error { loop {} }
#[macro_export] macro_rules! anyhow { ($l:literal $(,)?) => { $crate::__fmt(::std::format_args!($l)) }; ($fmt:literal, $($a:tt)*) => { $crate::__fmt(::std::format_args!($fmt, $($a)*)) }; ($e:expr $(,)?) => { $crate::__fmt(::std::format_args!("{}", $e)) }; }
#[macro_export] macro_rules! bail { ($($a:tt)*) => { return ::core::result::Result::Err($crate::anyhow!($($a)*)) }; }
#[macro_export] macro_rules! ensure { ($c:expr $(,)?) => { if !$c { return ::core::result::Result::Err($crate::anyhow!(concat!("Condition failed: ", stringify!($c)))) } }; ($c:expr, $($a:tt)*) => { if !$c { return ::core::result::Result::Err($crate::anyhow!($($a)*)) } }; }
