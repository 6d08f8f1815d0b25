//! Each test fails on the base commit and passes with the corresponding "fix:" commit.
use ark_crypto_primitives::signature::{schnorr::Schnorr, SignatureScheme};
use ark_ec::{AffineRepr, CurveGroup};
use ark_ff::{PrimeField, UniformRand, Zero};
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize, Compress, Validate};
use bulletproofs::r1cs::*;
use bulletproofs::{BulletproofGens, PedersenGens};
use merlin::Transcript;
use relations::{coin::*, curve::*, curve_tree::*, rerandomize::*, single_level_select_and_rerandomize::*};

type PP = ark_pallas::PallasConfig;
type VP = ark_vesta::VestaConfig;
type PA = ark_pallas::Affine;
type VA = ark_vesta::Affine;
type PF = <PA as AffineRepr>::ScalarField; // = VA::BaseField
type VF = <VA as AffineRepr>::ScalarField; // = PA::BaseField
type Proof = R1CSProof<PA>;


fn gens(n: usize) -> (PedersenGens<PA>, BulletproofGens<PA>) {
    (PedersenGens::default(), BulletproofGens::new(n, 1))
}

fn point_size() -> usize {
    PA::zero().serialized_size(Compress::No)
}

fn simple<C: AffineRepr>(cs: &mut impl ConstraintSystem<C::ScalarField>, n: usize, witness: bool) {
    for i in 0..n {
        let w = witness.then(|| (C::ScalarField::from(i as u64 + 1), C::ScalarField::from(2u64)));
        cs.allocate_multiplier(w).unwrap();
    }
}

fn prove(n: usize, pc: &PedersenGens<PA>, bp: &BulletproofGens<PA>) -> Proof {
    let mut p = Prover::new(pc, Transcript::new(b"t"));
    simple::<PA>(&mut p, n, true);
    p.prove(bp).unwrap()
}

fn verifier(n: usize) -> Verifier<Transcript, PA> {
    let mut v = Verifier::new(Transcript::new(b"t"));
    simple::<PA>(&mut v, n, false);
    v
}

fn raw(p: &Proof) -> Vec<u8> {
    let mut b = Vec::new();
    p.serialize_uncompressed(&mut b).unwrap();
    b
}

fn unraw(b: &[u8]) -> Proof {
    Proof::deserialize_with_mode(b, Compress::No, Validate::No).unwrap()
}

/// forwards to the honest prover, but lets the first `bits` replace assigned multiplier inputs
struct Mal<'a, 'g>(&'a mut Prover<'g, Transcript, VA>, Vec<Option<(VF, VF)>>, usize);
impl<'a, 'g> ConstraintSystem<VF> for Mal<'a, 'g> {
    fn transcript(&mut self) -> &mut Transcript {
        self.0.transcript()
    }
    fn multiply(&mut self, l: LinearCombination<VF>, r: LinearCombination<VF>) -> (Variable<VF>, Variable<VF>, Variable<VF>) {
        self.0.multiply(l, r)
    }
    fn allocate(&mut self, a: Option<VF>) -> Result<Variable<VF>, R1CSError> {
        self.0.allocate(a)
    }
    fn allocate_multiplier(&mut self, a: Option<(VF, VF)>) -> Result<(Variable<VF>, Variable<VF>, Variable<VF>), R1CSError> {
        let i = self.2;
        self.2 += 1;
        let a = self.1.get(i).copied().flatten().or(a);
        self.0.allocate_multiplier(a)
    }
    fn metrics(&self) -> Metrics {
        self.0.metrics()
    }
    fn constrain(&mut self, lc: LinearCombination<VF>) {
        self.0.constrain(lc)
    }
}

fn bit(b: bool) -> Option<(VF, VF)> {
    let v = if b { VF::from(1u64) } else { VF::from(0u64) };
    Some((v, v - VF::from(1u64)))
}

/// The bits looked up in window 1 are unrelated to the point that is added.
#[test]
fn f01_first_window_is_bound() {
    let mut rng = rand::thread_rng();
    let pr = SelRerandParameters::<PP, VP>::new(1 << 11, 1 << 11);
    let tables = build_tables(pr.even_parameters.pc_gens.B_blinding);
    let c = PA::rand(&mut rng);
    let mut r = PF::rand(&mut rng);
    // low three bits of r: 000
    loop {
        let b: <PF as PrimeField>::BigInt = r.into();
        if b.0[0] & 7 == 0 {
            break;
        }
        r = PF::rand(&mut rng);
    }
    let out = (c + pr.even_parameters.pc_gens.B_blinding * r).into_affine();
    let proof = {
        let mut p = Prover::new(&pr.odd_parameters.pc_gens, Transcript::new(b"t"));
        let mut m = Mal(&mut p, vec![Some((VF::from(1u64), VF::from(1u64))), bit(true)], 0); // forged window: 111
        re_randomize(
            &mut m,
            &tables,
            PointRepresentation { x: constant(c.x), y: constant(c.y), witness: Some(c) },
            constant(out.x),
            constant(out.y),
            Some(r),
        );
        p.prove(&pr.odd_parameters.bp_gens).unwrap()
    };
    let mut v = Verifier::<_, VA>::new(Transcript::new(b"t"));
    re_randomize::<VF, PF, PP, _>(
        &mut v,
        &tables,
        PointRepresentation { x: constant(c.x), y: constant(c.y), witness: None },
        constant(out.x),
        constant(out.y),
        None,
    );
    assert!(v.verify(&proof, &pr.odd_parameters.pc_gens, &pr.odd_parameters.bp_gens).is_err());
}

/// An extra, unabsorbed R point shifts the points against their scalars.
#[test]
fn f02_left_right_lengths() {
    let (pc, bp) = gens(8);
    let p = prove(4, &pc, &bp);
    let b = raw(&p);
    let ps = point_size();
    let sc = PF::zero().serialized_size(Compress::No);
    // ... | len L | L.. | len R | R.. | a | b
    let k = 2;
    let rpos = b.len() - 2 * sc - k * ps - 8;
    let mut f = b[..rpos].to_vec();
    f.extend_from_slice(&(k as u64 + 1).to_le_bytes());
    f.extend_from_slice(&b[rpos + 8..rpos + 8 + k * ps]);
    f.extend_from_slice(&b[rpos + 8..rpos + 8 + ps]); // one more R
    f.extend_from_slice(&b[b.len() - 2 * sc..]);
    let forged = unraw(&f);
    if let Ok(t) = verifier(4).verification_scalars_and_points(&forged) {
        panic!("accepted into the equation: {} points, {} scalars", t.proof_dependent_points.len(), t.proof_dependent_scalars.len());
    }
}

/// A path that is too short proves membership of an inner node instead of a leaf.
#[test]
#[should_panic]
fn f03_path_length() {
    let mut rng = rand::thread_rng();
    let pr = SelRerandParameters::<PP, VP>::new(1 << 8, 1 << 8);
    let tree = CurveTree::<4, 1, PP, VP>::from_set(&[PA::rand(&mut rng)], &pr, Some(4));
    let mut path = SelectAndRerandomizePath::<4, PP, VP> {
        selected_commitment: PA::rand(&mut rng),
        odd_commitments: vec![VA::rand(&mut rng)],
        even_commitments: vec![],
    };
    tree.select_and_rerandomize_verification_commitments(&mut path);
}

/// A wrong signature is ignored.
#[test]
#[should_panic]
fn f04_signatures() {
    let mut rng = rand::thread_rng();
    type S = Schnorr<ark_pallas::Projective, blake2::Blake2s256>;
    let prm = S::setup(&mut rng).unwrap();
    let (pk, _) = S::keygen(&prm, &mut rng).unwrap();
    let mut bytes = Vec::new();
    for _ in 0..4 {
        PF::rand(&mut rng).serialize_compressed(&mut bytes).unwrap();
    }
    vec![1u8, 2, 3].serialize_compressed(&mut bytes).unwrap();
    let tx = SignedTx::<PP, VP, ark_pallas::Projective>::deserialize_compressed(bytes.as_slice()).unwrap();
    tx.verify_signatures(&prm, &pk, &pk);
}

/// Valid proofs of different sizes are refused when batched, and the empty batch crashes.
#[test]
fn f05_batch() {
    let (pc, bp) = gens(8);
    let (p1, p2) = (prove(8, &pc, &bp), prove(2, &pc, &bp));
    let t1 = verifier(8).verification_scalars_and_points(&p1).unwrap();
    let t2 = verifier(2).verification_scalars_and_points(&p2).unwrap();
    assert_eq!(batch_verify(vec![t1, t2], &pc, &bp), Ok(()));
    assert_eq!(batch_verify(Vec::<VerificationTuple<PA>>::new(), &pc, &bp), Ok(()));
}

/// A proof with too few T commitments crashes the verifier.
#[test]
fn f06_t_length() {
    let (pc, bp) = gens(8);
    let b = raw(&prove(2, &pc, &bp));
    let ps = point_size();
    let t = 3 * ps + 1;
    let n = u64::from_le_bytes(b[t..t + 8].try_into().unwrap()) as usize;
    let mut f = b[..t].to_vec();
    f.extend_from_slice(&((n - 1) as u64).to_le_bytes());
    f.extend_from_slice(&b[t + 8..t + 8 + (n - 1) * ps]);
    f.extend_from_slice(&b[t + 8 + n * ps..]);
    assert!(verifier(2).verification_scalars_and_points(&unraw(&f)).is_err());
}

/// (2, y) with y^2 = 2^3 + 3*2 + b is on the curve y^2 = x^3 + 3x + b.
#[test]
fn f07_curve_check() {
    let (pc, bp) = gens(8);
    let (x, y, a) = (PF::from(2u64), PF::from(5u64), PF::from(3u64));
    let b = y * y - x * x * x - a * x;
    let mut p = Prover::new(&pc, Transcript::new(b"t"));
    curve_check(&mut p, constant(x), constant(y), a, b);
    let proof = p.prove(&bp).unwrap();
    let mut v = Verifier::<_, PA>::new(Transcript::new(b"t"));
    curve_check(&mut v, constant(x), constant(y), a, b);
    assert_eq!(v.verify(&proof, &pc, &bp), Ok(()));
}

/// The public sum is not absorbed by the batched gadget: challenges do not depend on it.
#[test]
fn f08_sum_is_absorbed() {
    let mut rng = rand::thread_rng();
    let pr = SelRerandParameters::<PP, VP>::new(1 << 11, 1 << 11);
    let run = |sum: PA| {
        let mut t = Transcript::new(b"t");
        {
            let mut v = Verifier::<_, VA>::new(&mut t);
            let vars = v.commit_vec(4, VA::generator());
            single_level_batched_select_and_rerandomize(
                &mut v,
                &pr.even_parameters,
                &sum,
                vars.into_iter().map(|x| x.into()).collect(),
                None::<&[PA; 2]>,
                None,
            );
        }
        let mut c = [0u8; 32];
        t.challenge_bytes(b"c", &mut c);
        c
    };
    let (a, b) = (PA::rand(&mut rng), PA::rand(&mut rng));
    assert_ne!(run(a), run(b));
}

/// An undefined phase flag and trailing bytes are accepted.
#[test]
fn f10_canonical() {
    let (pc, bp) = gens(8);
    let p = prove(2, &pc, &bp);
    let mut b = p.to_bytes();
    let ps = PA::zero().serialized_size(Compress::Yes);
    assert_eq!(b[3 * ps], 0);
    b[3 * ps] = 7;
    assert!(Proof::from_bytes(&b).is_err());
    b[3 * ps] = 0;
    assert!(Proof::from_bytes(&b).is_ok());
    b.push(0);
    assert!(Proof::from_bytes(&b).is_err());
}

/// Decoding a list of proofs with validation accepts points off the curve.
#[test]
fn f16_validation() {
    let (pc, bp) = gens(8);
    let mut b = raw(&prove(2, &pc, &bp));
    b[0] ^= 1; // A_I1.x
    assert!(Proof::deserialize_with_mode(b.as_slice(), Compress::No, Validate::Yes).is_err());
    let mut l = 1u64.to_le_bytes().to_vec();
    l.extend_from_slice(&b);
    assert!(Vec::<Proof>::deserialize_with_mode(l.as_slice(), Compress::No, Validate::Yes).is_err());
}

/// The reported size is not the number of bytes written.
#[test]
fn f19_size() {
    let (pc, bp) = gens(8);
    let p = prove(4, &pc, &bp);
    let b = raw(&p);
    let ps = point_size();
    let sc = PF::zero().serialized_size(Compress::No);
    let rpos = b.len() - 2 * sc - 2 * ps - 8;
    let mut f = b[..rpos].to_vec();
    f.extend_from_slice(&1u64.to_le_bytes());
    f.extend_from_slice(&b[rpos + 8..rpos + 8 + ps]);
    f.extend_from_slice(&b[b.len() - 2 * sc..]);
    let q = unraw(&f);
    assert_eq!(q.serialized_size(Compress::No), f.len());
}
