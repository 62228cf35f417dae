pub const OUT_LEN: usize = 32; pub const KEY_LEN: usize = 32;
#[derive(Clone, Copy, Debug, PartialEq, Eq)] pub struct Hash; impl Hash { pub fn as_bytes(&self) -> &[u8; 32] { loop {} } pub fn to_hex(&self) -> String { loop {} } pub fn from_bytes(_: [u8; 32]) -> Self { loop {} } }
impl From<Hash> for [u8; 32] { fn from(_: Hash) -> Self { loop {} } }
impl From<[u8; 32]> for Hash { fn from(_: [u8; 32]) -> Self { loop {} } }
pub fn hash(_: &[u8]) -> Hash { loop {} }
pub fn keyed_hash(_: &[u8; 32], _: &[u8]) -> Hash { loop {} }
pub fn derive_key(_: &str, _: &[u8]) -> [u8; 32] { loop {} }
#[derive(Clone)] pub struct Hasher; impl Default for Hasher { fn default() -> Self { loop {} } } impl Hasher { pub fn new() -> Self { loop {} } pub fn new_keyed(_: &[u8; 32]) -> Self { loop {} } pub fn new_derive_key(_: &str) -> Self { loop {} } pub fn update(&mut self, _: &[u8]) -> &mut Self { loop {} } pub fn finalize(&self) -> Hash { loop {} } pub fn finalize_xof(&self) -> OutputReader { loop {} } pub fn reset(&mut self) -> &mut Self { loop {} } }
pub struct OutputReader; impl OutputReader { pub fn fill(&mut self, _: &mut [u8]) { loop {} } }
