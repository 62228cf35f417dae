#[derive(Clone, Debug, PartialEq)] pub struct JsValue; impl JsValue { pub const NULL: JsValue = JsValue; pub const UNDEFINED: JsValue = JsValue; pub fn from_str(_: &str) -> JsValue { loop {} } pub fn from_f64(_: f64) -> JsValue { loop {} } pub fn as_string(&self) -> Option<String> { loop {} } }
impl From<String> for JsValue { fn from(_: String) -> Self { loop {} } } impl<'a> From<&'a str> for JsValue { fn from(_: &'a str) -> Self { loop {} } }
pub mod prelude { pub use super::JsValue; pub use stubderive::wasm_bindgen; pub use super::JsError; pub use super::UnwrapThrowExt; }
pub use stubderive::wasm_bindgen;
#[derive(Clone, Debug)] pub struct JsError; impl JsError { pub fn new(_: &str) -> JsError { loop {} } } impl From<JsError> for JsValue { fn from(_: JsError) -> Self { loop {} } }
pub trait UnwrapThrowExt<T>: Sized { fn unwrap_throw(self) -> T { loop {} } fn expect_throw(self, _: &str) -> T { loop {} } } impl<T> UnwrapThrowExt<T> for Option<T> {} impl<T, E> UnwrapThrowExt<T> for Result<T, E> {}
