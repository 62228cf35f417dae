pub use stubderive::{Args, Parser, Subcommand, ValueEnum};
pub trait Parser: Sized { fn parse() -> Self { loop {} } fn try_parse() -> Result<Self, Error> { loop {} } fn parse_from<I>(_: I) -> Self { loop {} } fn try_parse_from<I>(_: I) -> Result<Self, Error> { loop {} } }
pub trait Subcommand {} pub trait Args {} pub trait ValueEnum {} pub trait CommandFactory {}
#[derive(Debug)] pub struct Error; impl std::fmt::Display for Error { fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { loop {} } } impl std::error::Error for Error {} impl Error { pub fn exit(&self) -> ! { loop {} } }
pub enum ArgAction { Set, SetTrue, SetFalse, Append, Count }
