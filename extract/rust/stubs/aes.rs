pub use cipher;
macro_rules! a { ($($n:ident $k:ident),*) => { $( #[derive(Clone)] pub struct $n; impl cipher::KeySizeUser for $n { type KeySize = cipher::consts::$k; } impl cipher::KeyInit for $n {} )* } }
a!(Aes128 U16, Aes192 U24, Aes256 U32);
