ark_ff::stub_field!(Fr); ark_ff::stub_field!(Fq);
ark_ec::stub_group!(G1Projective, G1Affine, Fr); ark_ec::stub_group!(G2Projective, G2Affine, Fr);
#[derive(Clone, Copy, Debug, PartialEq, Eq)] pub struct Bls12_381;
pub struct P1; pub struct P2; impl From<G1Projective> for P1 { fn from(_: G1Projective) -> Self { loop {} } } impl From<G1Affine> for P1 { fn from(_: G1Affine) -> Self { loop {} } } impl From<G2Projective> for P2 { fn from(_: G2Projective) -> Self { loop {} } } impl From<G2Affine> for P2 { fn from(_: G2Affine) -> Self { loop {} } }
impl ark_ec::pairing::Pairing for Bls12_381 { type BaseField = Fq; type ScalarField = Fr; type G1 = G1Projective; type G1Affine = G1Affine; type G1Prepared = P1; type G2 = G2Projective; type G2Affine = G2Affine; type G2Prepared = P2; type TargetField = Fq; }
