// fallback interface, used only if the real zkenc-core does not type-check against the stubs
use ark_ec::pairing::Pairing; use ark_relations::gr1cs::ConstraintSynthesizer;
pub mod data_structures { use ark_ec::pairing::Pairing; use ark_serialize::{CanonicalDeserialize, CanonicalSerialize};
 #[derive(Clone, Debug, PartialEq, CanonicalSerialize, CanonicalDeserialize)] pub struct EncapKey<E: Pairing> { pub alpha_g1: E::G1Affine, pub beta_g2: E::G2Affine, pub delta_g2: E::G2Affine, pub r_u_query_g1: Vec<E::G1Affine>, pub r_v_query_g2: Vec<E::G2Affine>, pub phi_delta_query_g1: Vec<E::G1Affine>, pub h_query_g1: Vec<E::G1Affine> }
 #[derive(Clone, Debug, PartialEq, CanonicalSerialize, CanonicalDeserialize)] pub struct Ciphertext<E: Pairing> { pub encap_key: EncapKey<E>, pub public_inputs: Vec<E::ScalarField> }
 #[derive(Clone, Debug, PartialEq, Eq, CanonicalSerialize, CanonicalDeserialize)] pub struct Key(pub [u8; 32]); impl Key { pub fn new(_: [u8; 32]) -> Self { loop {} } pub fn as_bytes(&self) -> &[u8; 32] { loop {} } } }
pub mod algorithm { use super::*; #[derive(Debug)] pub enum Error { SynthesisError(String), InvalidWitness, InvalidPublicInputs, SerializationError } impl std::fmt::Display for Error { fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { loop {} } }
 pub fn encap<E: Pairing, C: ConstraintSynthesizer<E::ScalarField>, R: ark_std::rand::RngCore>(_c: C, _r: &mut R) -> Result<(Ciphertext<E>, Key), Error> { loop {} }
 pub fn decap<E: Pairing, C: ConstraintSynthesizer<E::ScalarField>>(_c: C, _t: &Ciphertext<E>) -> Result<Key, Error> { loop {} }
 pub fn verify_ciphertext<E: Pairing>(_t: &Ciphertext<E>, _p: &[E::ScalarField]) -> bool { loop {} } }
pub use algorithm::{decap, encap, verify_ciphertext, Error}; pub use data_structures::{Ciphertext, EncapKey, Key};
