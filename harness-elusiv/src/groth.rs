//! A Groth16 verifying key with known trapdoor (so that valid proofs exist for every public input)
//! and the arkworks verifier as the oracle.
use crate::env::*;
use ark_bn254::{Bn254, Fq, Fq12, Fq2, Fq6, Fr, G1Affine, G1Projective, G2Affine, G2Projective};
use ark_ec::{AffineCurve, ProjectiveCurve};
use ark_ff::{Field, PrimeField, UniformRand};
use ark_groth16::{prepare_verifying_key, verify_proof, PreparedVerifyingKey, Proof, VerifyingKey};
use minivm::*;
use rand::{rngs::StdRng, SeedableRng};
use std::sync::{Arc, OnceLock};

pub struct Trapdoor {
    alpha: Fr,
    beta: Fr,
    gamma: Fr,
    delta: Fr,
    ic: Vec<Fr>,
    pub pvk: PreparedVerifyingKey<Bn254>,
}
fn g1(s: Fr) -> G1Affine {
    G1Affine::prime_subgroup_generator().mul(s.into_repr()).into_affine()
}
fn g2(s: Fr) -> G2Affine {
    G2Affine::prime_subgroup_generator().mul(s.into_repr()).into_affine()
}
impl Trapdoor {
    pub fn new(seed: u64, inputs: usize) -> Self {
        let mut r = StdRng::seed_from_u64(seed);
        let mut f = || Fr::rand(&mut r);
        let (alpha, beta, gamma, delta) = (f(), f(), f(), f());
        let ic: Vec<Fr> = (0..=inputs).map(|_| f()).collect();
        Self::build(alpha, beta, gamma, delta, ic)
    }
    #[allow(dead_code)]
    pub fn with_ic(seed: u64, ic: Vec<Fr>) -> Self {
        let mut r = StdRng::seed_from_u64(seed);
        let mut f = || Fr::rand(&mut r);
        Self::build(f(), f(), f(), f(), ic)
    }
    #[allow(dead_code)]
    pub fn ic(&self) -> &[Fr] {
        &self.ic
    }
    #[allow(dead_code)]
    pub fn alpha_beta(&self) -> Fr {
        self.alpha * self.beta
    }
    #[allow(dead_code)]
    pub fn gamma_x(&self, signals: &[Fr]) -> Fr {
        let mut x = self.ic[0];
        for (i, s) in signals.iter().enumerate() {
            x += self.ic[i + 1] * s;
        }
        self.gamma * x
    }
    fn build(alpha: Fr, beta: Fr, gamma: Fr, delta: Fr, ic: Vec<Fr>) -> Self {
        let vk = VerifyingKey::<Bn254> { alpha_g1: g1(alpha), beta_g2: g2(beta), gamma_g2: g2(gamma), delta_g2: g2(delta), gamma_abc_g1: ic.iter().map(|x| g1(*x)).collect() };
        Trapdoor { alpha, beta, gamma, delta, ic, pvk: prepare_verifying_key(&vk) }
    }
    /// a valid proof (zero-knowledge simulator)
    pub fn prove(&self, seed: u64, signals: &[Fr]) -> Proof<Bn254> {
        let mut r = StdRng::seed_from_u64(seed);
        let (a, b) = (Fr::rand(&mut r), Fr::rand(&mut r));
        self.prove_with(a, b, signals)
    }
    pub fn prove_with(&self, a: Fr, b: Fr, signals: &[Fr]) -> Proof<Bn254> {
        let mut x = self.ic[0];
        for (i, s) in signals.iter().enumerate() {
            x += self.ic[i + 1] * s;
        }
        let c = (a * b - self.alpha * self.beta - self.gamma * x) * self.delta.inverse().unwrap();
        Proof { a: g1(a), b: g2(b), c: g1(c) }
    }
    /// a proof whose pairings give the k-th power of what they have to give
    pub fn prove_power(&self, seed: u64, k: Fr, signals: &[Fr]) -> Proof<Bn254> {
        let mut r = StdRng::seed_from_u64(seed);
        let (a, b) = (Fr::rand(&mut r), Fr::rand(&mut r));
        let mut p = self.prove_with(a, b, signals);
        let more = self.alpha * self.beta * (Fr::from(1u64) - k) * self.delta.inverse().unwrap();
        p.c = (p.c.into_projective() + g1(more).into_projective()).into_affine();
        p
    }
    pub fn verify(&self, p: &Proof<Bn254>, signals: &[Fr]) -> bool {
        verify_proof(&self.pvk, p, signals).unwrap_or(false)
    }
}

pub fn e_fq(o: &mut Vec<u8>, f: &Fq) {
    for l in f.0 .0 {
        o.extend(l.to_le_bytes())
    }
}
pub fn e_fq2(o: &mut Vec<u8>, f: &Fq2) {
    e_fq(o, &f.c0);
    e_fq(o, &f.c1)
}
fn e_fq6(o: &mut Vec<u8>, f: &Fq6) {
    e_fq2(o, &f.c0);
    e_fq2(o, &f.c1);
    e_fq2(o, &f.c2)
}
fn e_fq12(o: &mut Vec<u8>, f: &Fq12) {
    e_fq6(o, &f.c0);
    e_fq6(o, &f.c1)
}
pub fn e_g1(o: &mut Vec<u8>, p: &G1Affine) {
    e_fq(o, &p.x);
    e_fq(o, &p.y);
    o.push(p.infinity as u8)
}
pub fn e_g2(o: &mut Vec<u8>, p: &G2Affine) {
    e_fq2(o, &p.x);
    e_fq2(o, &p.y);
    o.push(p.infinity as u8)
}
/// wire form of a proof
pub fn proof_bytes(p: &Proof<Bn254>) -> Vec<u8> {
    let mut o = vec![];
    e_g1(&mut o, &p.a);
    e_g2(&mut o, &p.b);
    e_g1(&mut o, &p.c);
    o
}
/// the on-chain verifying key binary
pub fn vkey_binary(pvk: &PreparedVerifyingKey<Bn254>) -> Vec<u8> {
    let mut o = vec![];
    e_fq12(&mut o, &pvk.alpha_g1_beta_g2);
    e_g1(&mut o, &pvk.vk.gamma_abc_g1[0]);
    for p in &pvk.vk.gamma_abc_g1[1..] {
        let mut base: G1Projective = p.into_projective();
        let mut pts = Vec::with_capacity(32 * 255);
        for _ in 0..32 {
            let mut acc = base;
            for _ in 0..255 {
                pts.push(acc);
                acc += &base;
            }
            base = acc;
        }
        G1Projective::batch_normalization(&mut pts);
        for q in pts {
            e_g1(&mut o, &q.into_affine());
        }
    }
    for c in [&pvk.gamma_g2_neg_pc, &pvk.delta_g2_neg_pc] {
        for (a, b, d) in &c.ell_coeffs {
            e_fq2(&mut o, a);
            e_fq2(&mut o, b);
            e_fq2(&mut o, d);
        }
    }
    e_g1(&mut o, &pvk.vk.alpha_g1);
    for p in [&pvk.vk.beta_g2, &pvk.vk.gamma_g2, &pvk.vk.delta_g2] {
        e_g2(&mut o, p)
    }
    o
}
pub const INPUTS: usize = 14;
pub fn toy() -> &'static Trapdoor {
    static T: OnceLock<Trapdoor> = OnceLock::new();
    T.get_or_init(|| Trapdoor::new(7, INPUTS))
}
/// child account data of the toy key (byte 0: in use)
fn toy_child() -> Arc<Vec<u8>> {
    static T: OnceLock<Arc<Vec<u8>>> = OnceLock::new();
    T.get_or_init(|| {
        let mut v = vec![1];
        v.extend(vkey_binary(&toy().pvk));
        Arc::new(v)
    })
    .clone()
}
pub fn vkey_authority() -> solana_program::pubkey::Pubkey {
    payer(0)
}
/// Deploys the toy key with the program's own instructions (the bulk upload itself is seeded; K01 covers it)
pub fn install(vm: &mut Vm) {
    let p = vkey_authority();
    let child = vkey_child(0, 0);
    vm.one(&ix_create_vkey(p, 0, INPUTS as u32, Some(p))).expect("CreateVkeyAccount");
    let d = toy_child();
    put_child(vm, child, d.len());
    vm.one(&ix_vkey_version(p, 0, child)).expect("CreateNewVkeyVersion");
    vm.accounts.get_mut(&child).unwrap().data = d;
    vm.one(&ix_vkey_update(p, 0, child)).expect("UpdateVkeyVersion");
}
#[allow(dead_code)]
pub fn g2_generator() -> G2Projective {
    G2Projective::prime_subgroup_generator()
}
fn d_fq(b: &[u8]) -> Option<Fq> {
    let l: [u64; 4] = std::array::from_fn(|i| u64::from_le_bytes(b[i * 8..i * 8 + 8].try_into().unwrap()));
    let f = Fq::new(ark_ff::BigInteger256(l));
    // a reduced representation
    (ark_ff::BigInteger256(l) < <ark_bn254::FqParameters as ark_ff::FpParameters>::MODULUS).then_some(f)
}
fn d_fq2(b: &[u8]) -> Option<Fq2> {
    Some(Fq2::new(d_fq(&b[..32])?, d_fq(&b[32..64])?))
}
/// the points of an encoded proof; None unless all are canonical finite points of their curves
pub fn decode_points(b: &[u8]) -> Option<Proof<Bn254>> {
    if b.len() != 259 || b[64] != 0 || b[193] != 0 || b[258] != 0 {
        return None;
    }
    let g1 = |b: &[u8]| -> Option<G1Affine> {
        let p = G1Affine::new(d_fq(&b[..32])?, d_fq(&b[32..64])?, false);
        p.is_on_curve().then_some(p)
    };
    let p = G2Affine::new(d_fq2(&b[65..129])?, d_fq2(&b[129..193])?, false);
    if !p.is_on_curve() {
        return None;
    }
    Some(Proof { a: g1(&b[..65])?, b: p, c: g1(&b[194..259])? })
}
/// decodes the 259 bytes of a proof; None if a point is not in its group
pub fn decode_proof(b: &[u8]) -> Option<Proof<Bn254>> {
    decode_points(b).filter(|p| p.b.is_in_correct_subgroup_assuming_on_curve())
}
pub fn signals_fr(r: &SendReq) -> Option<Vec<Fr>> {
    Some(r.signals()?.iter().map(|s| Fr::from_le_bytes_mod_order(s)).collect())
}
/// the reference verdict
pub fn judge(proof: &[u8], r: &SendReq) -> Option<bool> {
    Some(toy().verify(&decode_proof(proof)?, &signals_fr(r)?))
}
/// a valid proof for the request
pub fn prove(seed: u64, r: &SendReq) -> Vec<u8> {
    proof_bytes(&toy().prove(seed, &signals_fr(r).unwrap()))
}
