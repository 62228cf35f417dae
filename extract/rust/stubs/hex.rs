pub fn encode<T: AsRef<[u8]>>(_: T) -> String { loop {} }
#[derive(Debug)] pub struct FromHexError; impl std::fmt::Display for FromHexError { fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { loop {} } } impl std::error::Error for FromHexError {}
pub fn decode<T: AsRef<[u8]>>(_: T) -> Result<Vec<u8>, FromHexError> { loop {} }
