//! The multi-instruction Groth16 verifier against the arkworks verifier
use crate::env::*;
use crate::flow::Flow;
use crate::groth::{self, Trapdoor, INPUTS};
use crate::refm::*;
use ark_bn254::{Bn254, Fq, Fq2, Fr, G1Affine, G1Projective, G2Affine, G2Projective};
use ark_ec::{AffineCurve, ProjectiveCurve};
use ark_ff::{Field, One, PrimeField, SquareRootField, UniformRand, Zero};
use ark_groth16::{prepare_verifying_key, Proof, VerifyingKey};
use elusiv::proof::verifier::{prepare_public_inputs_instructions, VerificationStep, COMBINED_MILLER_LOOP_IXS, FINAL_EXPONENTIATION_IXS};
use elusiv::state::proof::VerificationAccount;
use elusiv::state::vkey::VKeyAccount;
use elusiv::types::RawU256;
use elusiv_types::ProgramAccount;
use minivm::report::*;
use minivm::*;
use rand::{rngs::StdRng, seq::SliceRandom, Rng, SeedableRng};
use solana_program::instruction::Instruction;
use std::collections::HashMap;
use std::sync::{Arc, Mutex, OnceLock};

pub const KEYS: u64 = 10;
type Key = (Arc<Trapdoor>, Arc<Vec<u8>>);
/// verifying keys of several sizes, with degenerate input points
fn key(kind: u64, seed: u64) -> Key {
    static C: OnceLock<Mutex<HashMap<(u64, u64), Key>>> = OnceLock::new();
    let c = C.get_or_init(Default::default);
    if let Some(x) = c.lock().unwrap().get(&(kind, seed)) {
        return x.clone();
    }
    let mut r = StdRng::seed_from_u64(seed ^ (kind << 32));
    let n = match kind {
        0 => INPUTS,
        2 => 1,
        3 => 2,
        4 => 7,
        _ => INPUTS,
    };
    let mut ic: Vec<Fr> = (0..=n).map(|_| Fr::rand(&mut r)).collect();
    match kind {
        // all points are the same
        5 => ic = vec![ic[0]; n + 1],
        // points at infinity
        6 => {
            for i in [1, 4, 5, n] {
                ic[i] = Fr::zero();
            }
        }
        // small multiples of the generator, and their negatives
        7 => {
            for (i, x) in ic.iter_mut().enumerate() {
                *x = Fr::from(i as u64 / 2 + 1);
                if i % 2 == 1 {
                    *x = -*x;
                }
            }
        }
        8 => ic[0] = Fr::zero(),
        // every window of the first input meets the sum of the others
        9 => {
            for i in 1..=n {
                ic[i] = ic[1] * Fr::from(256u64).pow([i as u64 - 1]);
            }
        }
        _ => {}
    }
    let t = if kind == 0 { Trapdoor::new(7, INPUTS) } else { Trapdoor::with_ic(seed.wrapping_add(kind), ic) };
    let mut data = vec![1];
    data.extend(groth::vkey_binary(&t.pvk));
    let x = (Arc::new(t), Arc::new(data));
    c.lock().unwrap().insert((kind, seed), x.clone());
    x
}
fn le(f: &Fr) -> U256 {
    raw(f)
}
/// public inputs with extreme limbs and bytes
fn signal(r: &mut StdRng) -> Fr {
    match r.gen_range(0..12) {
        0 | 1 => Fr::zero(),
        2 => -Fr::one(),
        3 => Fr::from(r.gen_range(0..300u64)),
        4 => -Fr::from(r.gen_range(0..300u64)),
        5 => {
            // a single byte
            let at = if r.gen_bool(0.3) { 31 } else { r.gen_range(0..31u64) };
            Fr::from(256u64).pow([at]) * Fr::from(r.gen_range(1..if at == 31 { 0x30 } else { 256u64 }))
        }
        6 => {
            // bytes 0 and 255
            let mut b = [0u8; 32];
            for x in b.iter_mut().take(31) {
                *x = if r.gen() { 255 } else { 0 };
            }
            Fr::from_le_bytes_mod_order(&b)
        }
        7 => {
            let mut b = [0u8; 32];
            for x in b.iter_mut().take(31) {
                *x = r.gen_range(1..=255);
            }
            b[31] = 0x2f;
            Fr::from_le_bytes_mod_order(&b)
        }
        8 => Fr::from(r.gen::<u64>()),
        _ => Fr::rand(r),
    }
}
fn signals(r: &mut StdRng, t: &Trapdoor, n: usize) -> (Vec<Fr>, &'static str) {
    let mut s: Vec<Fr> = (0..n).map(|_| signal(r)).collect();
    match r.gen_range(0..12) {
        0 => (vec![Fr::zero(); n], "zero"),
        1 => (vec![-Fr::one(); n], "largest"),
        2 => {
            for x in s.iter_mut() {
                *x = Fr::rand(r);
            }
            (s, "random")
        }
        3 => {
            // the combination of the key's points vanishes
            let ic = t.ic();
            let Some(i) = (0..n).find(|i| !ic[i + 1].is_zero()) else { return (s, "mixed") };
            let mut sum = ic[0];
            for (j, x) in s.iter().enumerate() {
                if j != i {
                    sum += ic[j + 1] * x;
                }
            }
            s[i] = -sum * ic[i + 1].inverse().unwrap();
            (s, "vanishing combination")
        }
        4 => {
            for x in s.iter_mut() {
                *x = Fr::from(r.gen_range(0..2u64));
            }
            (s, "bits")
        }
        _ => (s, "mixed"),
    }
}
/// base field modulus
const Q: [u64; 4] = [0x3c208c16d87cfd47, 0x97816a916871ca8d, 0xb85045b68181585d, 0x30644e72e131a029];
/// adds the base field modulus to the 32 bytes at an offset (if they still fit)
fn plus_q(b: &mut [u8], at: usize) -> bool {
    let mut carry = 0u128;
    let mut o = [0u8; 32];
    for i in 0..4 {
        let l = u64::from_le_bytes(b[at + i * 8..at + i * 8 + 8].try_into().unwrap());
        let s = l as u128 + Q[i] as u128 + carry;
        o[i * 8..i * 8 + 8].copy_from_slice(&(s as u64).to_le_bytes());
        carry = s >> 64;
    }
    if carry == 0 {
        b[at..at + 32].copy_from_slice(&o);
    }
    carry == 0
}
fn any_g2(r: &mut StdRng) -> G2Affine {
    // on the curve, practically never in the group
    loop {
        let x = Fq2::rand(r);
        let b = <ark_bn254::g2::Parameters as ark_ec::models::SWModelParameters>::COEFF_B;
        if let Some(y) = (x * x * x + b).sqrt() {
            return G2Affine::new(x, y, false);
        }
    }
}
pub const PROOFS: usize = 27;
/// the proof's bytes, and whether the reference accepts it (None: malformed, must not be accepted)
fn proof(r: &mut StdRng, t: &Trapdoor, s: &[Fr], kind: usize) -> (Vec<u8>, Option<bool>, &'static str) {
    let seed = r.gen();
    let p = t.prove(seed, s);
    let well = |p: &Proof<Bn254>| (groth::proof_bytes(p), Some(t.verify(p, s)));
    let done = |(b, v): (Vec<u8>, Option<bool>), n: &'static str| (b, v, n);
    let bytes = |f: &mut dyn FnMut(&mut Vec<u8>) -> bool, n: &'static str| {
        let mut b = groth::proof_bytes(&p);
        if f(&mut b) { (b, None, n) } else { (b, Some(true), "valid") }
    };
    let k = Fr::rand(r);
    let mul1 = |p: &G1Affine, k: Fr| p.mul(k.into_repr()).into_affine();
    let mul2 = |p: &G2Affine, k: Fr| p.mul(k.into_repr()).into_affine();
    let (gen1, gen2) = (G1Affine::prime_subgroup_generator(), G2Affine::prime_subgroup_generator());
    let add1 = |a: &G1Affine, b: &G1Affine| (a.into_projective() + b.into_projective()).into_affine();
    let add2 = |a: &G2Affine, b: &G2Affine| (a.into_projective() + b.into_projective()).into_affine();
    match kind {
        0..=5 => done(well(&p), "valid"),
        6 => done(well(&Proof { a: -p.a, b: -p.b, c: p.c }), "both negated"),
        7 => done(well(&Proof { a: mul1(&p.a, k), b: mul2(&p.b, k.inverse().unwrap()), c: p.c }), "rescaled"),
        8 => done(well(&Proof { a: -p.a, ..p.clone() }), "first point negated"),
        9 => done(well(&Proof { c: -p.c, ..p.clone() }), "last point negated"),
        10 => match r.gen_range(0..3) {
            0 => done(well(&Proof { a: add1(&p.a, &gen1), ..p.clone() }), "first point moved"),
            1 => done(well(&Proof { b: add2(&p.b, &gen2), ..p.clone() }), "second point moved"),
            _ => done(well(&Proof { c: add1(&p.c, &gen1), ..p.clone() }), "last point moved"),
        },
        11 => done(well(&Proof { a: p.c, b: p.b, c: p.a }), "points swapped"),
        12 => {
            // for other inputs
            let mut o = s.to_vec();
            let i = r.gen_range(0..o.len());
            o[i] += Fr::from(1u64 << r.gen_range(0..60));
            done(well(&t.prove(seed, &o)), "other input")
        }
        13 => {
            // the key's own points
            let vk = &t.pvk.vk;
            let c = *[vk.alpha_g1, gen1, -vk.gamma_abc_g1[0]].choose(r).unwrap();
            let c = if c.is_zero() { gen1 } else { c };
            done(well(&Proof { a: vk.alpha_g1, b: *[vk.beta_g2, vk.gamma_g2, vk.delta_g2].choose(r).unwrap(), c }), "points of the key")
        }
        14 => {
            let (a, b, c) = (G1Projective::rand(r), G2Projective::rand(r), G1Projective::rand(r));
            done(well(&Proof { a: a.into_affine(), b: b.into_affine(), c: c.into_affine() }), "random points")
        }
        15 => {
            // valid, with a small or special exponent
            let (a, b) = (Fr::from(r.gen_range(1..4u64)), *[Fr::one(), -Fr::one(), k].choose(r).unwrap());
            done(well(&t.prove_with(a, b, s)), "special exponents")
        }
        16 => (groth::proof_bytes(&Proof { a: G1Affine::zero(), ..p }), None, "first point at infinity"),
        17 => (groth::proof_bytes(&Proof { b: G2Affine::zero(), ..p }), None, "second point at infinity"),
        18 => {
            // the remaining terms would be satisfied without the last point
            let b = k;
            let a = (t.alpha_beta() + t.gamma_x(s)) * b.inverse().unwrap();
            let q = t.prove_with(a, b, s);
            (groth::proof_bytes(&Proof { c: if r.gen() { G1Affine::zero() } else { q.c }, ..q }), None, "last point at infinity")
        }
        19 => bytes(&mut |b| { let i = *[64usize, 193, 258].choose(r).unwrap(); b[i] = 1; true }, "coordinates flagged as infinity"),
        20 => bytes(&mut |b| { let i = *[64usize, 193, 258].choose(r).unwrap(); b[i] = r.gen_range(2..=255); true }, "impossible flag"),
        21 => bytes(&mut |b| { let i = *[0usize, 32, 65, 97, 129, 161, 194, 226].choose(r).unwrap(); plus_q(b, i) }, "coordinate outside the field"),
        22 => bytes(&mut |b| { let i = *[0usize, 32, 65, 97, 129, 161, 194, 226].choose(r).unwrap(); let l = r.gen_range(0..24); b[i + l] ^= 1 << r.gen_range(0..8); true }, "point off its curve"),
        23 => (groth::proof_bytes(&Proof { b: add2(&p.b, &any_g2(r)), ..p }), None, "point outside the group"),
        24 => {
            let z = Fq::zero();
            let zero1 = G1Affine::new(z, z, false);
            let zero2 = G2Affine::new(Fq2::zero(), Fq2::zero(), false);
            let q = match r.gen_range(0..4) {
                0 => Proof { a: zero1, ..p },
                1 => Proof { b: zero2, ..p },
                2 => Proof { c: zero1, ..p },
                _ => Proof { a: zero1, b: zero2, c: zero1 },
            };
            (groth::proof_bytes(&q), None, "zero coordinates")
        }
        25 => {
            // the inverse (which shares one half of its coordinates), its square, one
            let e = *[-Fr::one(), -Fr::one(), -Fr::one(), -Fr::one(), Fr::from(2u64), Fr::zero()].choose(r).unwrap();
            done(well(&t.prove_power(seed, e, s)), "power of the key's pairing")
        }
        _ => {
            let b: Vec<u8> = (0..259).map(|i| if [64, 193, 258].contains(&i) { 0 } else { r.gen() }).collect();
            (b, None, "random bytes")
        }
    }
}
struct Job {
    p: u64,
    vi: u8,
    bytes: Vec<u8>,
    want: Option<bool>,
    label: String,
    prep: usize,
    step: usize,
    /// the fees are paid
    paid: bool,
    submitted: bool,
    verdict: Option<bool>,
    refused: bool,
}
fn verdict(f: &Flow, j: &Job) -> (Option<bool>, u8) {
    let mut d = (*f.vm.data(&ver_key(&payer(j.p), j.vi))).clone();
    let a = VerificationAccount::new(&mut d).unwrap();
    let s = match a.get_step() {
        VerificationStep::PublicInputPreparation => 0,
        VerificationStep::CombinedMillerLoop => 1,
        VerificationStep::FinalExponentiation => 2,
    };
    let v = a.get_is_verified().option();
    (v, s)
}
/// a world in which several requests have paid their fees (payer 0..3, index 0), and one has only been started
fn prepared() -> &'static Mutex<Flow> {
    static C: OnceLock<Mutex<Flow>> = OnceLock::new();
    C.get_or_init(|| {
        let mut f = Flow::new(0, 0);
        for _ in 0..2 {
            f.deposit(0, tok(0).max / 2);
            f.batch();
        }
        for p in 0..3 {
            let (q, x) = f.request(0, 1 << 30, 1 << 30, 1, user(p));
            f.init(p, 0, &q, &x, false).unwrap();
            f.pay_fee(p, 0, 0).unwrap();
        }
        Mutex::new(f)
    })
}
fn poke_signals(f: &mut Flow, p: u64, s: &[Fr]) -> usize {
    let d = f.vm.data_mut(&ver_key(&payer(p), 0));
    let mut a = VerificationAccount::new(d).unwrap();
    let raws: Vec<U256> = s.iter().map(le).collect();
    for (i, x) in raws.iter().enumerate() {
        a.set_public_input(i, &RawU256::new(*x));
    }
    let ixs = prepare_public_inputs_instructions(&raws, raws.len());
    a.setup_public_inputs_instructions(&ixs).unwrap();
    ixs.len()
}
/// encodings of a valid proof that are no points, however they are read: (place, multiple of the modulus; 0: the infinity flag)
const ENCODINGS: [(usize, usize); 27] = [
    (64, 0), (193, 0), (258, 0),
    (0, 1), (32, 1), (65, 1), (97, 1), (129, 1), (161, 1), (194, 1), (226, 1),
    (0, 2), (32, 2), (65, 2), (97, 2), (129, 2), (161, 2), (194, 2), (226, 2),
    (0, 4), (32, 4), (65, 4), (97, 4), (129, 4), (161, 4), (194, 4), (226, 4),
];
fn trial(run: &Run, r: &mut StdRng, obs: &mut Obs, encoding: Option<(usize, usize)>) {
    let (vm, tree, n) = {
        let f = prepared().lock().unwrap();
        (f.vm.clone(), f.tree.clone(), f.n)
    };
    let mut f = Flow { vm, tree, queue: vec![], trees: 0, rate: 0, n };
    f.n = r.gen_range(1_000_000..u32::MAX as u64);
    let kind = if r.gen_bool(0.3) { 0 } else { r.gen_range(0..KEYS) };
    let (t, data) = key(kind, run.seed % 16);
    let count = t.pvk.vk.gamma_abc_g1.len() - 1;
    // the key in use
    f.vm.accounts.get_mut(&vkey_child(0, 0)).unwrap().data = data;
    VKeyAccount::new(f.vm.data_mut(&vkey_key(0))).unwrap().set_public_inputs_count(&(count as u32));
    let jobs_n = if r.gen_bool(0.25) { r.gen_range(2..=3) } else { 1 };
    let mut jobs: Vec<Job> = vec![];
    for p in 0..jobs_n {
        let mut vi = 0;
        let mut paid = true;
        let (s, how, prep);
        if count == INPUTS && r.gen_bool(0.3) {
            // a request, from its start
            vi = 1;
            let (mut q, x) = f.request(0, 1 << 30, 1 << 30, r.gen_range(1..=4), user(p));
            for i in 0..q.inputs.len() {
                if r.gen_bool(0.6) {
                    let v = signal(r);
                    if !v.is_zero() && q.inputs.iter().all(|y| y.1 != le(&v)) {
                        q.inputs[i].1 = le(&v);
                    }
                }
            }
            if r.gen_bool(0.5) {
                let v = signal(r);
                if v != zero_commitment() && v != zero_base() {
                    q.out = le(&v);
                }
            }
            q.hashed = hashed_inputs(&q, &x);
            paid = r.gen_bool(0.5);
            if let Err(e) = f.init(p, vi, &q, &x, false).and_then(|_| if paid { f.pay_fee(p, vi, 0) } else { Ok(()) }) {
                // left to the other properties
                obs.inc(&format!("requests_refused {}", e.len()));
                continue;
            }
            s = groth::signals_fr(&q).unwrap();
            how = "request";
            prep = prepare_public_inputs_instructions(&s.iter().map(le).collect::<Vec<_>>(), count).len();
        } else {
            let (a, b) = signals(r, &t, count);
            s = a;
            how = b;
            prep = poke_signals(&mut f, p, &s);
        }
        let pk = r.gen_range(0..PROOFS);
        let (mut bytes, mut want, mut label) = proof(r, &t, &s, if encoding.is_some() { 0 } else { pk });
        if let Some((at, n)) = encoding {
            if n == 0 {
                bytes[at] = 1;
                (want, label) = (None, "coordinates flagged as infinity");
            }
            for _ in 0..n {
                if plus_q(&mut bytes, at) {
                    (want, label) = (None, "coordinate outside the field");
                }
            }
            obs.inc("encodings_of_valid_points");
        }
        obs.case(&("proof", label, how, kind));
        obs.inc(&format!("proof: {}", label));
        obs.inc(&format!("inputs: {}", how));
        jobs.push(Job { p, vi, bytes, want, label: format!("{}; inputs: {}; key {}", label, how, kind), prep, step: 0, paid, submitted: false, verdict: None, refused: false });
    }
    // submission: before or in between
    let early = r.gen_bool(0.5);
    for j in jobs.iter_mut() {
        if early || r.gen_bool(0.5) {
            submit(&mut f, j, obs);
        }
    }
    let style = r.gen_range(0..4);
    let total_of = |j: &Job| j.prep + COMBINED_MILLER_LOOP_IXS + FINAL_EXPONENTIATION_IXS;
    let mut rounds = 0;
    while jobs.iter().any(|j| !j.refused && j.verdict.is_none()) {
        rounds += 1;
        if rounds > 4000 {
            obs.violation("a verification does not end", format!("{}", jobs.iter().map(|j| format!("{}: step {} of {}; ", j.label, j.step, total_of(j))).collect::<String>()));
            return;
        }
        for j in jobs.iter_mut() {
            if !j.submitted && (r.gen_bool(0.2) || rounds > 60) {
                submit(&mut f, j, obs);
            }
        }
        // the instructions of one transaction
        let open: Vec<usize> = (0..jobs.len()).filter(|i| !jobs[*i].refused && jobs[*i].verdict.is_none()).collect();
        if open.is_empty() {
            break;
        }
        let mut who: Vec<Option<usize>> = vec![];
        let i = *open.choose(r).unwrap();
        match style {
            0 | 1 => who = vec![None, None, Some(i), Some(i), Some(i), Some(i), Some(i)],
            2 => {
                let n = r.gen_range(1..=9);
                for _ in 0..n {
                    who.push(if r.gen_bool(0.2) { None } else { Some(*open.choose(r).unwrap()) });
                }
            }
            _ => {
                // several verifications in turn, in the right places
                who.extend((0..r.gen_range(0..7)).map(|_| Some(*open.choose(r).unwrap())));
                who.resize(6, None);
                who.extend((0..r.gen_range(1..4)).map(|_| Some(*open.choose(r).unwrap())));
            }
        }
        let mut tx: Vec<Instruction> = vec![];
        let mut plan: Vec<(usize, usize)> = vec![];
        for (n, who_) in who.iter().enumerate() {
            match who_ {
                None => tx.push(ix_budget()),
                Some(i) => {
                    plan.push((n, *i));
                    tx.push(compute_of(&jobs[*i]));
                }
            }
        }
        // what has to happen
        let mut steps: Vec<usize> = jobs.iter().map(|j| j.step).collect();
        let mut refuse = false;
        let mut over = vec![false; jobs.len()];
        for (n, i) in &plan {
            let j = &jobs[*i];
            if over[*i] {
                refuse = true;
            }
            let s = steps[*i];
            // the preparation may start before the fees are paid, nothing happens between the payment and the proof
            if !j.submitted && (j.paid || s >= j.prep) {
                refuse = true;
            }
            if s < j.prep {
                if *n == 6 {
                    steps[*i] += 1;
                }
            } else if s < j.prep + COMBINED_MILLER_LOOP_IXS {
                steps[*i] += 1;
            } else if *n == 6 {
                steps[*i] += 1;
                if steps[*i] == total_of(j) {
                    over[*i] = true;
                }
            }
        }
        let res = f.tx(&tx);
        obs.inc("verification_transactions");
        // a cancelled verification ends early, and a transaction that goes on with it is refused
        if res.is_err() != refuse {
            if let Err(e) = &res {
                let bad = plan.iter().any(|(_, i)| jobs[*i].want != Some(true));
                if bad && e.contains("Custom") {
                    // one step at a time finds out
                    let mut any = false;
                    for x in plan.iter().map(|x| x.1).collect::<std::collections::BTreeSet<_>>() {
                        let alone = vec![ix_budget(), ix_budget(), ix_budget(), ix_budget(), ix_budget(), ix_budget(), compute_of(&jobs[x])];
                        if jobs[x].want == Some(true) {
                            continue;
                        }
                        if f.tx(&alone).is_ok() {
                            any = true;
                            let (v, _) = verdict(&f, &jobs[x]);
                            jobs[x].step += 1;
                            if v.is_some() {
                                jobs[x].verdict = v;
                            }
                        }
                    }
                    if any {
                        continue;
                    }
                }
                if e.contains("panic") && jobs.iter().any(|j| j.want != Some(true)) && !e.contains("overflow") {
                    for j in jobs.iter_mut().filter(|j| j.want != Some(true)) {
                        j.refused = true;
                    }
                    obs.inc("refused_while_verifying");
                    continue;
                }
            }
            obs.violation(
                if refuse { "a step is accepted that does not belong there" } else { "a step is refused" },
                format!("{:?}; transaction {:?}; {}", res, who, jobs.iter().map(|j| format!("{}: step {} of {}; ", j.label, j.step, total_of(j))).collect::<String>()),
            );
            return;
        }
        if res.is_err() {
            continue;
        }
        for (i, s) in steps.iter().enumerate() {
            let moved = jobs[i].step != *s;
            jobs[i].step = *s;
            if jobs[i].refused || jobs[i].verdict.is_some() || !moved {
                continue;
            }
            obs.count("verification_steps", 1);
            let (v, phase) = verdict(&f, &jobs[i]);
            let j = &mut jobs[i];
            let tot = total_of(j);
            match v {
                Some(x) => {
                    if j.step != tot && (x || j.want == Some(true)) {
                        obs.violation("a verdict before the verification is complete", format!("{} after {} of {} steps: {}", x, j.step, tot, j.label));
                        return;
                    }
                    j.verdict = Some(x);
                }
                None => {
                    let want = if j.step < j.prep { 0 } else if j.step < j.prep + COMBINED_MILLER_LOOP_IXS { 1 } else { 2 };
                    if j.step >= tot || phase != want {
                        obs.violation("the verification takes other steps", format!("phase {} after {} of {} steps: {}", phase, j.step, tot, j.label));
                        return;
                    }
                }
            }
        }
    }
    for j in &jobs {
        obs.inc("verifications");
        obs.inc(if j.refused { "verdict: refused" } else if j.verdict == Some(true) { "verdict: accepted" } else { "verdict: rejected" });
        let ok = match j.want {
            Some(true) => j.verdict == Some(true),
            _ => j.refused || j.verdict == Some(false),
        };
        if !ok {
            obs.violation(
                if j.want == Some(true) { "a valid proof is not accepted" } else { "an invalid proof is accepted" },
                format!("{} (steps {}, style {}): refused {} verdict {:?}, the reference says {:?}; bytes {}", j.label, j.step, style, j.refused, j.verdict, j.want, j.bytes.iter().map(|b| format!("{:02x}", b)).collect::<String>()),
            );
            return;
        }
    }
    obs.eval();
}
fn compute_of(j: &Job) -> Instruction {
    ix_compute(payer(j.p), j.vi, 0)
}
fn submit(f: &mut Flow, j: &mut Job, obs: &mut Obs) {
    if !j.paid {
        if let Err(e) = f.pay_fee(j.p, j.vi, 0) {
            obs.violation("the fee of a request in preparation is refused", format!("{}: {}", j.label, e));
        }
        j.paid = true;
    }
    let r = f.tx(&[ix_init_proof(payer(j.p), j.vi, &j.bytes)]);
    j.submitted = true;
    if let Err(e) = r {
        if j.want == Some(true) {
            obs.violation("a valid proof is refused", format!("{}: {}", j.label, e));
        }
        j.refused = true;
        obs.inc("refused_at_submission");
    }
}
/// the deployed key's prepared form belongs to its published form
fn production_key(obs: &mut Obs) -> Result<(), String> {
    let dir = "/repo/elusiv/src/proof/vkeys/migrate_unary";
    let j: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(format!("{}/verification_key.json", dir)).map_err(|e| e.to_string())?).map_err(|e| e.to_string())?;
    let bin = std::fs::read(format!("{}/elusiv_vkey.bin", dir)).map_err(|e| e.to_string())?;
    let fq = |v: &serde_json::Value| v.as_str().and_then(|s| s.parse::<Fq>().ok());
    let fq2 = |v: &serde_json::Value| Some(Fq2::new(fq(&v[0])?, fq(&v[1])?));
    let g1 = |v: &serde_json::Value| Some(G1Affine::new(fq(&v[0])?, fq(&v[1])?, false));
    let g2 = |v: &serde_json::Value| Some(G2Affine::new(fq2(&v[0])?, fq2(&v[1])?, false));
    let vk = (|| {
        Some(VerifyingKey::<Bn254> {
            alpha_g1: g1(&j["vk_alpha_1"])?,
            beta_g2: g2(&j["vk_beta_2"])?,
            gamma_g2: g2(&j["vk_gamma_2"])?,
            delta_g2: g2(&j["vk_delta_2"])?,
            gamma_abc_g1: j["IC"].as_array()?.iter().map(g1).collect::<Option<Vec<_>>>()?,
        })
    })()
    .ok_or("verification_key.json")?;
    let want = groth::vkey_binary(&prepare_verifying_key(&vk));
    obs.inc("production_keys");
    if bin != want {
        let at = bin.iter().zip(&want).position(|(a, b)| a != b);
        obs.violation("the production key differs from its published form", format!("lengths {} {}, first difference {:?}", bin.len(), want.len(), at));
    }
    Ok(())
}
pub fn v01(run: &Run) -> (Obs, Vec<String>) {
    init_runtime();
    let budget = run.budget(26, 900);
    let _ = prepared();
    run.parallel(8, |lane, obs| {
        if lane == 7 {
            if let Err(e) = production_key(obs) {
                obs.inc(&format!("production key unreadable: {}", e));
            }
        }
        let mut n = 0u64;
        while n < 24 || run.left(budget) {
            let mut r = StdRng::seed_from_u64(run.seed.wrapping_mul(15_485_863).wrapping_add(lane + 8 * n));
            trial(run, &mut r, obs, ENCODINGS.get((lane + 8 * n) as usize).copied());
            n += 1;
            if !obs.violations.is_empty() || (run.start.elapsed().as_secs() > 300 && !run.thorough) {
                break;
            }
        }
    })
}
