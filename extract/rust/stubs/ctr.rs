use std::marker::PhantomData;
pub use cipher;
macro_rules! a { ($($n:ident),*) => { $( pub struct $n<C>(PhantomData<C>); impl<C: cipher::KeySizeUser> cipher::KeySizeUser for $n<C> { type KeySize = C::KeySize; } impl<C> cipher::IvSizeUser for $n<C> { type IvSize = cipher::consts::U16; } impl<C: cipher::KeySizeUser> cipher::KeyIvInit for $n<C> {} impl<C> cipher::StreamCipher for $n<C> {} impl<C> cipher::StreamCipherSeek for $n<C> {} )* } }
a!(Ctr32BE, Ctr32LE, Ctr64BE, Ctr64LE, Ctr128BE, Ctr128LE);
