#[derive(Debug, Clone, Copy)] pub struct Error; impl std::fmt::Display for Error { fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { loop {} } } impl std::error::Error for Error {}
pub fn getrandom(_: &mut [u8]) -> Result<(), Error> { loop {} }
