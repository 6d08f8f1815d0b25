#![allow(dead_code, unused_imports)]
pub use ark_ec::{AffineRepr, CurveGroup, short_weierstrass::SWCurveConfig};
pub use ark_ff::{Field, PrimeField, UniformRand, Zero, One, BigInteger};
pub use ark_serialize::{CanonicalDeserialize, CanonicalSerialize, Compress, Validate, Valid};
pub use bulletproofs::r1cs::*;
pub use bulletproofs::{BulletproofGens, PedersenGens};
pub use merlin::Transcript;
pub type PP = ark_pallas::PallasConfig;
pub type VP = ark_vesta::VestaConfig;
pub type PA = ark_pallas::Affine;
pub type VA = ark_vesta::Affine;
pub type PF = <PA as AffineRepr>::ScalarField; // = VA::BaseField
pub type VF = <VA as AffineRepr>::ScalarField; // = PA::BaseField
pub type Proof = R1CSProof<PA>;

pub fn gens(n: usize) -> (PedersenGens<PA>, BulletproofGens<PA>) {
    (PedersenGens::default(), BulletproofGens::new(n, 1))
}
pub fn point_size() -> usize {
    PA::zero().serialized_size(Compress::No)
}
pub fn scalar_size() -> usize {
    PF::zero().serialized_size(Compress::No)
}
/// n multipliers 1*2, 2*2, ...
pub fn simple<C: AffineRepr>(cs: &mut impl ConstraintSystem<C::ScalarField>, n: usize, witness: bool) {
    for i in 0..n {
        let w = witness.then(|| (C::ScalarField::from(i as u64 + 1), C::ScalarField::from(2u64)));
        cs.allocate_multiplier(w).unwrap();
    }
}
/// uncompressed bytes, in which the points and scalars lie at fixed places
pub fn raw(p: &Proof) -> Vec<u8> {
    let mut b = Vec::new();
    p.serialize_uncompressed(&mut b).unwrap();
    b
}
pub fn unraw(b: &[u8]) -> Proof {
    Proof::deserialize_with_mode(b, Compress::No, Validate::No).unwrap()
}
pub fn len_at(b: &[u8], at: usize) -> usize {
    u64::from_le_bytes(b[at..at + 8].try_into().unwrap()) as usize
}
/// offset of the T list of a one-phase proof
pub fn t_at() -> usize {
    3 * point_size() + 1
}
pub fn set_point(b: &mut [u8], at: usize, p: PA) {
    let mut v = vec![];
    p.serialize_uncompressed(&mut v).unwrap();
    b[at..at + v.len()].copy_from_slice(&v);
}
pub fn check(ok: bool, what: &str) {
    if !ok {
        println!("PROPERTY BROKEN: {what}");
        std::process::exit(1);
    }
}
