//! Encodings: every persisted type, every account field, every instruction, and the number helpers
use crate::checks::*;
use crate::env::*;
use crate::play::Cfg;
use crate::refm::*;
use ark_bn254::{Fq, Fq12, Fq2, Fq6, Fr};
use ark_ff::{BigInteger256, PrimeField};
use borsh::{BorshDeserialize, BorshSerialize};
use elusiv::bytes as eb;
use elusiv::bytes::{BorshSerDeSized, BorshSerDeSizedEnum, ElusivOption, SizedType};
use elusiv::commitment::poseidon_hash::BinarySpongeHashingState;
use elusiv::fields::*;
use elusiv::instruction::ElusivInstruction;
use elusiv::processor::{BaseCommitmentHashRequest, CommitmentHashRequest, FinalizeSendData, ProofRequest, VKeyAccountDataPacket};
use elusiv::proof::verifier::VerificationStep;
use elusiv::state::commitment::*;
use elusiv::state::fee::*;
use elusiv::state::governor::*;
use elusiv::state::metadata::*;
use elusiv::state::nullifier::*;
use elusiv::state::proof::*;
use elusiv::state::storage::*;
use elusiv::state::vkey::*;
use elusiv::token::Lamports;
use elusiv::types::*;
use elusiv_computation::RAM;
use elusiv_types::accounts::{ChildAccountConfig, PDAAccountData, ParentAccount};
use elusiv_types::{ProgramAccount, SizedAccount};
use minivm::report::*;
use minivm::*;
use rand::{rngs::StdRng, Rng, SeedableRng};
use solana_program::pubkey::Pubkey;

type U = [u8; 32];

fn bytes32(r: &mut StdRng) -> U {
    let mut b = [0u8; 32];
    match r.gen_range(0..8) {
        0 => b[r.gen_range(0..32)] = r.gen_range(1..=255),
        1 => b = [255; 32],
        2 => {}
        _ => r.fill(&mut b),
    }
    b
}
fn n64(r: &mut StdRng) -> u64 {
    match r.gen_range(0..6) {
        0 => 0,
        1 => u64::MAX,
        2 => 1 << r.gen_range(0..64),
        _ => r.gen::<u64>() >> r.gen_range(0..64),
    }
}
fn n32(r: &mut StdRng) -> u32 {
    n64(r) as u32
}
fn n16(r: &mut StdRng) -> u16 {
    n64(r) as u16
}
fn key(r: &mut StdRng) -> Pubkey {
    Pubkey::new_from_array(bytes32(r))
}
fn meta(r: &mut StdRng) -> Meta {
    bytes32(r)[..META_LEN].try_into().unwrap()
}
fn big(b: &U) -> BigInteger256 {
    BigInteger256([0, 8, 16, 24].map(|i| u64::from_le_bytes(b[i..i + 8].try_into().unwrap())))
}
fn fq(b: &U) -> Fq {
    Fq::new(big(b))
}
fn fq2(b: &[U]) -> Fq2 {
    Fq2::new(fq(&b[0]), fq(&b[1]))
}
fn fq6(b: &[U]) -> Fq6 {
    Fq6::new(fq2(b), fq2(&b[2..]), fq2(&b[4..]))
}
fn many(r: &mut StdRng, n: usize) -> Vec<U> {
    (0..n).map(|_| bytes32(r)).collect()
}
fn g1a(b: &[U], inf: bool) -> G1A {
    G1A(ark_bn254::G1Affine::new(fq(&b[0]), fq(&b[1]), inf))
}
fn g2a(b: &[U], inf: bool) -> G2A {
    G2A(ark_bn254::G2Affine::new(fq2(b), fq2(&b[2..]), inf))
}
fn cat(v: &[U]) -> Vec<u8> {
    v.concat()
}
fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}

#[derive(Clone, Copy, PartialEq)]
enum Kind {
    /// always exactly the declared size
    Fixed,
    /// at most the declared size
    Max,
    /// fixed, but some byte strings are read as the same value
    Lenient,
}
fn dec<T: BorshDeserialize>(b: &[u8]) -> Option<(T, usize)> {
    match catch(|| {
        let mut s = b;
        T::deserialize(&mut s).map(|v| (v, s.len()))
    }) {
        Ok(Ok(x)) => Some(x),
        _ => None,
    }
}
/// `v` is to be encoded as `want`
fn sized<T: BorshSerDeSized>(r: &mut StdRng, name: &'static str, kind: Kind, v: &T, want: &[u8], obs: &mut Obs) -> Result<(), String> {
    let e = |what: String| Err(format!("{}: {}", name, what));
    obs.inc("encodings");
    obs.case(&("type", name, want.len()));
    let got = match catch(|| v.try_to_vec()) {
        Ok(Ok(x)) => x,
        _ => return e(format!("value {} can not be encoded", hex(want))),
    };
    if got != want {
        return e(format!("encoded as {}, specification {}", hex(&got), hex(want)));
    }
    if kind != Kind::Max && got.len() != T::SIZE || got.len() > T::SIZE {
        return e(format!("declares {} bytes, encodes {}", T::SIZE, got.len()));
    }
    let mut junk = got.clone();
    let extra = r.gen_range(0..40);
    junk.extend((0..extra).map(|_| r.gen::<u8>()));
    match dec::<T>(&junk) {
        Some((x, left)) => {
            if left != extra {
                return e(format!("of {} bytes followed by {}, {} were left over", got.len(), extra, left));
            }
            if x.try_to_vec().ok() != Some(got.clone()) {
                return e(format!("{} decodes to another value", hex(&got)));
            }
        }
        None => return e(format!("{} is not decodable", hex(&got))),
    }
    for _ in 0..3 {
        if got.is_empty() {
            break;
        }
        let n = if r.gen() { got.len() - 1 } else { r.gen_range(0..got.len()) };
        obs.inc("truncated_encodings");
        if dec::<T>(&got[..n]).is_some() {
            return e(format!("{} of the {} bytes {} are decoded", n, got.len(), hex(&got)));
        }
    }
    // what is decoded is exactly what was read
    let mut b = got.clone();
    for _ in 0..r.gen_range(1..4) {
        if b.is_empty() {
            break;
        }
        let i = if r.gen_bool(0.3) { 0 } else { r.gen_range(0..b.len()) };
        b[i] = r.gen();
    }
    b.extend((0..40).map(|_| r.gen::<u8>()));
    let mut any = b;
    if r.gen_bool(0.3) {
        r.fill(&mut any[..]);
    }
    obs.inc("arbitrary_encodings");
    if let Some((x, left)) = dec::<T>(&any) {
        let used = any.len() - left;
        let again = x.try_to_vec().map_err(|_| format!("{}: a decoded value is not encodable", name))?;
        if kind != Kind::Lenient && again != any[..used] {
            return e(format!("{} is decoded as {}", hex(&any[..used]), hex(&again)));
        }
        if kind != Kind::Max && used != T::SIZE {
            return e(format!("{} bytes used instead of {}", used, T::SIZE));
        }
        obs.inc("arbitrary_decoded");
    }
    Ok(())
}

fn request(r: &mut StdRng) -> SendReq {
    let n = r.gen_range(0..5);
    // at most two distinct roots
    let roots = r.gen_range(0..=n.min(2));
    SendReq {
        inputs: (0..n).map(|i| (if i < roots { Some(bytes32(r)) } else { None }, bytes32(r))).collect(),
        out: bytes32(r),
        recent: n32(r),
        fee_version: n32(r),
        amount: n64(r),
        fee: n64(r),
        opt_collector: key(r),
        opt_amount: n64(r),
        token: n16(r),
        metadata: meta(r),
        ata: r.gen(),
        solana_pay: r.gen(),
        hashed: bytes32(r),
    }
}
fn join_split(q: &SendReq) -> JoinSplitPublicInputs {
    JoinSplitPublicInputs {
        input_commitments: q.inputs.iter().map(|i| InputCommitment { root: i.0.map(RawU256::new), nullifier_hash: RawU256::new(i.1) }).collect(),
        output_commitment: RawU256::new(q.out),
        recent_commitment_index: q.recent,
        fee_version: q.fee_version,
        amount: q.amount,
        fee: q.fee,
        optional_fee: OptionalFee { collector: q.opt_collector, amount: q.opt_amount },
        token_id: q.token,
        metadata: q.metadata,
    }
}
fn send_inputs(q: &SendReq) -> SendPublicInputs {
    SendPublicInputs { join_split: join_split(q), recipient_is_associated_token_account: q.ata, solana_pay_transfer: q.solana_pay, hashed_inputs: q.hashed }
}
/// some proof request and its encoding
fn proof_request(r: &mut StdRng) -> (ProofRequest, Vec<u8>) {
    let q = request(r);
    let e = q.enc(Enc(vec![])).0;
    if r.gen_bool(0.6) {
        (ProofRequest::Send(send_inputs(&q)), e)
    } else {
        let (a, b) = (bytes32(r), bytes32(r));
        let mut x = vec![1u8];
        x.extend(&e[1..e.len() - 34]);
        x.extend(a);
        x.extend(b);
        (ProofRequest::Migrate(MigratePublicInputs { join_split: join_split(&q), current_nsmt_root: RawU256::new(a), next_nsmt_root: RawU256::new(b) }), x)
    }
}
fn program_fee(r: &mut StdRng) -> (ProgramFee, Vec<u8>) {
    let v: Vec<u64> = (0..8).map(|_| n64(r)).collect();
    let f = ProgramFee {
        lamports_per_tx: Lamports(v[0]),
        base_commitment_network_fee: BasisPointFee(v[1]),
        proof_network_fee: BasisPointFee(v[2]),
        base_commitment_subvention: Lamports(v[3]),
        proof_subvention: Lamports(v[4]),
        warden_hash_tx_reward: Lamports(v[5]),
        warden_proof_reward: Lamports(v[6]),
        proof_base_tx_count: v[7],
    };
    (f, v.iter().flat_map(|x| x.to_le_bytes()).collect())
}
fn ver_data(r: &mut StdRng) -> (VerificationAccountData, Vec<u8>) {
    let (a, b, c) = (bytes32(r), bytes32(r), if r.gen() { Some(bytes32(r)) } else { None });
    let skip: bool = r.gen();
    let (rate, token) = (n32(r), n16(r));
    let v: Vec<u64> = (0..6).map(|_| n64(r)).collect();
    let d = VerificationAccountData {
        fee_payer: RawU256::new(a),
        fee_payer_account: RawU256::new(b),
        recipient_wallet: c.map(RawU256::new).into(),
        skip_nullifier_pda: skip,
        min_batching_rate: rate,
        token_id: token,
        subvention: v[0],
        network_fee: v[1],
        commitment_hash_fee: Lamports(v[2]),
        commitment_hash_fee_token: v[3],
        proof_verification_fee: v[4],
        associated_token_account_rent: v[5],
    };
    let mut e = Enc(vec![]).b(&a).b(&b).u8(c.is_some() as u8).b(&c.unwrap_or([0; 32])).u8(skip as u8).u32(rate).u16(token);
    for x in v {
        e = e.u64(x);
    }
    (d, e.0)
}
fn types(r: &mut StdRng, obs: &mut Obs) -> Result<(), String> {
    use Kind::*;
    macro_rules! chk {
        ($t:ty, $kind:expr, $v:expr, $want:expr) => {
            sized::<$t>(r, stringify!($t), $kind, &$v, &$want, obs)?
        };
    }
    let (x, y) = (n64(r), n64(r));
    chk!(u8, Fixed, x as u8, [x as u8]);
    chk!(u16, Fixed, x as u16, (x as u16).to_le_bytes());
    chk!(u32, Fixed, x as u32, (x as u32).to_le_bytes());
    chk!(u64, Fixed, x, x.to_le_bytes());
    chk!(u128, Fixed, (x as u128) << 64 | y as u128, [y.to_le_bytes(), x.to_le_bytes()].concat());
    chk!(bool, Fixed, x % 2 == 1, [(x % 2) as u8]);
    chk!((), Fixed, (), []);
    let b = many(r, 12);
    chk!([u8; 32], Fixed, b[0], b[0]);
    chk!([u64; 2], Fixed, [x, y], [x.to_le_bytes(), y.to_le_bytes()].concat());
    chk!(Pubkey, Fixed, Pubkey::new_from_array(b[0]), b[0]);
    chk!(std::net::Ipv4Addr, Fixed, std::net::Ipv4Addr::new(b[0][0], b[0][1], b[0][2], b[0][3]), b[0][..4]);
    chk!(Lamports, Fixed, Lamports(x), x.to_le_bytes());
    chk!(BasisPointFee, Fixed, BasisPointFee(x), x.to_le_bytes());
    let (f, e) = program_fee(r);
    chk!(ProgramFee, Fixed, f, e);
    chk!(RawU256, Fixed, RawU256::new(b[1]), b[1]);
    chk!(OrdU256, Fixed, OrdU256(b[1]), b[1]);
    chk!(PDAAccountData, Fixed, PDAAccountData { bump_seed: x as u8, version: y as u8 }, [x as u8, y as u8]);
    chk!(ChildAccountConfig, Fixed, ChildAccountConfig { is_in_use: x % 2 == 0 }, [(x % 2 == 0) as u8]);
    // options of fixed size
    let some = r.gen::<bool>();
    let opt = |v: &[u8]| -> Vec<u8> { if some { [vec![1], v.to_vec()].concat() } else { vec![0; v.len() + 1] } };
    macro_rules! opt {
        ($t:ty, $v:expr, $w:expr) => {
            let o: ElusivOption<$t> = if some { Some($v).into() } else { None.into() };
            chk!(ElusivOption<$t>, Lenient, o, opt(&$w));
        };
    }
    opt!(u8, x as u8, [x as u8]);
    opt!(bool, x % 2 == 0, [(x % 2 == 0) as u8]);
    opt!(u32, x as u32, (x as u32).to_le_bytes());
    opt!(U, b[2], b[2]);
    opt!(Pubkey, Pubkey::new_from_array(b[3]), b[3]);
    opt!(RawU256, RawU256::new(b[2]), b[2]);
    opt!(Lamports, Lamports(y), y.to_le_bytes());
    // field elements and points
    let inf = r.gen::<bool>();
    let with = |v: &[U]| -> Vec<u8> { [cat(v), vec![inf as u8]].concat() };
    chk!(Wrap<BigInteger256>, Fixed, Wrap(big(&b[0])), b[0]);
    chk!(Wrap<Fr>, Fixed, Wrap(Fr::new(big(&b[0]))), b[0]);
    chk!(Wrap<Fq>, Fixed, Wrap(fq(&b[0])), b[0]);
    chk!(Wrap<Fq2>, Fixed, Wrap(fq2(&b)), cat(&b[..2]));
    chk!(Wrap<Fq6>, Fixed, Wrap(fq6(&b)), cat(&b[..6]));
    chk!(Wrap<Fq12>, Fixed, Wrap(Fq12::new(fq6(&b), fq6(&b[6..]))), cat(&b));
    chk!(G1A, Fixed, g1a(&b, inf), with(&b[..2]));
    chk!(G2A, Fixed, g2a(&b, inf), with(&b[..4]));
    chk!(Wrap<G1A>, Fixed, Wrap(g1a(&b, inf)), with(&b[..2]));
    chk!(Wrap<G2A>, Fixed, Wrap(g2a(&b, inf)), with(&b[..4]));
    chk!(G2HomProjective, Fixed, G2HomProjective { x: fq2(&b), y: fq2(&b[2..]), z: fq2(&b[4..]) }, cat(&b[..6]));
    chk!(Proof, Fixed, Proof { a: g1a(&b, inf), b: g2a(&b[2..], inf), c: g1a(&b[6..], !inf) },
        [with(&b[..2]), with(&b[2..6]), cat(&b[6..8]), vec![!inf as u8]].concat());
    chk!(BinarySpongeHashingState, Fixed, BinarySpongeHashingState([0, 1, 2].map(|i| Fr::new(big(&b[i])))), cat(&b[..3]));
    // requests
    let q = request(r);
    let e = q.enc(Enc(vec![])).0;
    let js = e[1..e.len() - 34].to_vec();
    chk!(JoinSplitPublicInputs, Max, join_split(&q), js);
    chk!(SendPublicInputs, Max, send_inputs(&q), e[1..]);
    chk!(MigratePublicInputs, Max, MigratePublicInputs { join_split: join_split(&q), current_nsmt_root: RawU256::new(b[0]), next_nsmt_root: RawU256::new(b[1]) }, [js.clone(), cat(&b[..2])].concat());
    let (p, e) = proof_request(r);
    chk!(ProofRequest, Max, p, e);
    // as stored: the longest request's room is taken whatever the request
    let mut room = e.clone();
    room.resize(ProofRequest::SIZE, r.gen());
    match catch(|| ProofRequest::deserialize_enum_full(&mut &room[..])) {
        Ok(Ok(v)) if v == p => (),
        x => return Err(format!("a stored proof request is read as {:?} instead of {:?}", x.ok().map(|x| x.ok()), p)),
    }
    match catch(|| ProofRequest::deserialize_enum(&mut &room[..])) {
        Ok(Ok(v)) if v == p => (),
        x => return Err(format!("a proof request is read as {:?} instead of {:?}", x.ok().map(|x| x.ok()), p)),
    }
    chk!(OptionalFee, Fixed, OptionalFee { collector: Pubkey::new_from_array(b[0]), amount: x }, [b[0].to_vec(), x.to_le_bytes().to_vec()].concat());
    let bq = BaseReq { base: b[0], recent: n32(r), amount: y, token: n16(r), commitment: b[1], fee_version: n32(r), rate: n32(r) };
    let e = bq.enc(Enc(vec![])).0;
    chk!(BaseCommitmentHashRequest, Fixed, BaseCommitmentHashRequest {
        base_commitment: RawU256::new(bq.base), recent_commitment_index: bq.recent, amount: bq.amount, token_id: bq.token,
        commitment: RawU256::new(bq.commitment), fee_version: bq.fee_version, min_batching_rate: bq.rate,
    }, e);
    chk!(CommitmentHashRequest, Fixed, CommitmentHashRequest { commitment: b[4], fee_version: x as u32, min_batching_rate: y as u32 },
        Enc(b[4].to_vec()).u32(x as u32).u32(y as u32).0);
    let (d, e) = ver_data(r);
    chk!(VerificationAccountData, Lenient, d, e);
    for (i, v) in [VerificationState::None, VerificationState::FeeTransferred, VerificationState::ProofSetup, VerificationState::InsertNullifiers, VerificationState::Finalized, VerificationState::Closed].iter().enumerate() {
        chk!(VerificationState, Fixed, *v, [i as u8]);
    }
    for (i, v) in [VerificationStep::PublicInputPreparation, VerificationStep::CombinedMillerLoop, VerificationStep::FinalExponentiation].iter().enumerate() {
        chk!(VerificationStep, Fixed, *v, [i as u8]);
    }
    let n = r.gen_range(0..=<VKeyAccountDataPacket as BorshSerDeSized>::SIZE - 4);
    let v: Vec<u8> = (0..n).map(|_| r.gen()).collect();
    chk!(VKeyAccountDataPacket, Max, VKeyAccountDataPacket(v.clone()), Enc(vec![]).u32(n as u32).b(&v).0);
    // not sized, but part of instructions
    let fd = FinalizeSendData { total_amount: x, token_id: y as u16, mt_index: n32(r), commitment_index: n32(r), iv: b[5], encrypted_owner: b[6] };
    let want = Enc(vec![]).u64(x).u16(y as u16).u32(fd.mt_index).u32(fd.commitment_index).b(&b[5]).b(&b[6]).0;
    if fd.try_to_vec().unwrap() != want || dec::<FinalizeSendData>(&want).map(|x| (x.0.try_to_vec().unwrap(), x.1)) != Some((want.clone(), 0)) {
        return Err(format!("FinalizeSendData: encoded as {}", hex(&fd.try_to_vec().unwrap())));
    }
    Ok(())
}

// ------------------------------------------------------------------------------------ accounts

type Get = Box<dyn Fn(&mut [u8]) -> Vec<u8>>;
type Set = Box<dyn Fn(&mut [u8], &mut StdRng) -> Vec<u8>>;
struct Field {
    name: String,
    size: usize,
    get: Get,
    set: Option<Set>,
}
struct Layout {
    name: &'static str,
    size: usize,
    fields: Vec<Field>,
    opens: Box<dyn Fn(&mut [u8]) -> bool>,
}
fn layouts() -> Vec<Layout> {
    let mut out = vec![];
    macro_rules! account {
        ($t:ident, |$f:ident| $body:block) => {{
            let mut $f: Vec<Field> = vec![];
            $body
            out.push(Layout { name: stringify!($t), size: <$t as SizedAccount>::SIZE, fields: $f, opens: Box::new(|d| $t::new(d).is_ok()) });
        }};
    }
    macro_rules! field {
        ($f:ident, $t:ident, $size:expr, $get:ident, $set:ident, $gen:expr) => {
            $f.push(Field {
                name: stringify!($get).into(),
                size: $size,
                get: Box::new(|d| $t::new(d).unwrap().$get().try_to_vec().unwrap()),
                set: Some(Box::new(|d, r| {
                    let v = $gen(r);
                    $t::new(d).unwrap().$set(&v);
                    v.try_to_vec().unwrap()
                })),
            });
        };
    }
    macro_rules! array {
        ($f:ident, $t:ident, $size:expr, $n:expr, $get:ident, $set:ident, $gen:expr) => {
            for i in 0..$n {
                $f.push(Field {
                    name: format!("{}({})", stringify!($get), i),
                    size: $size,
                    get: Box::new(move |d| $t::new(d).unwrap().$get(i).try_to_vec().unwrap()),
                    set: Some(Box::new(move |d, r| {
                        let v = $gen(r);
                        $t::new(d).unwrap().$set(i, &v);
                        v.try_to_vec().unwrap()
                    })),
                });
            }
        };
    }
    macro_rules! lazy {
        ($f:ident, $t:ident, $size:expr, $x:ident, $gen:expr) => {
            $f.push(Field {
                name: stringify!($x).into(),
                size: $size,
                get: Box::new(|d| $t::new(d).unwrap().$x.get().try_to_vec().unwrap()),
                set: Some(Box::new(|d, r| {
                    let v = $gen(r);
                    $t::new(d).unwrap().$x.set(v);
                    v.try_to_vec().unwrap()
                })),
            });
        };
    }
    macro_rules! children {
        ($f:ident, $t:ident, $n:expr) => {
            for i in 0..$n {
                $f.push(Field {
                    name: format!("child_pubkey({})", i),
                    size: 33,
                    get: Box::new(move |d| {
                        let mut a = $t::new(d).unwrap();
                        let _ = &mut a;
                        ElusivOption::from(a.get_child_pubkey(i)).try_to_vec().unwrap()
                    }),
                    set: Some(Box::new(move |d, r| {
                        let v: ElusivOption<Pubkey> = if r.gen_bool(0.8) { Some(key(r)).into() } else { None.into() };
                        $t::new(d).unwrap().set_child_pubkey(i, v);
                        v.try_to_vec().unwrap()
                    })),
                });
            }
        };
    }
    fn flag(r: &mut StdRng) -> bool {
        r.gen()
    }
    account!(GovernorAccount, |f| {
        field!(f, GovernorAccount, 4, get_fee_version, set_fee_version, n32);
        field!(f, GovernorAccount, 64, get_program_fee, set_program_fee, |r: &mut StdRng| program_fee(r).0);
        field!(f, GovernorAccount, 4, get_commitment_batching_rate, set_commitment_batching_rate, n32);
    });
    account!(PoolAccount, |_f| {});
    account!(FeeCollectorAccount, |_f| {});
    account!(NullifierDuplicateAccount, |_f| {});
    account!(FeeAccount, |f| {
        field!(f, FeeAccount, 64, get_program_fee, set_program_fee, |r: &mut StdRng| program_fee(r).0);
    });
    account!(StorageAccount, |f| {
        children!(f, StorageAccount, 25);
        field!(f, StorageAccount, 4, get_next_commitment_ptr, set_next_commitment_ptr, n32);
        field!(f, StorageAccount, 4, get_trees_count, set_trees_count, n32);
        array!(f, StorageAccount, 32, HISTORY, get_active_mt_root_history, set_active_mt_root_history, bytes32);
        field!(f, StorageAccount, 4, get_mt_roots_count, set_mt_roots_count, n32);
    });
    account!(NullifierAccount, |f| {
        children!(f, NullifierAccount, 16);
        field!(f, NullifierAccount, 32, get_root, set_root, bytes32);
        field!(f, NullifierAccount, 4, get_nullifier_hash_count, set_nullifier_hash_count, n32);
        array!(f, NullifierAccount, 33, 16, get_max_values, set_max_values, |r: &mut StdRng| -> ElusivOption<U> { if r.gen_bool(0.8) { Some(bytes32(r)).into() } else { None.into() } });
    });
    account!(MetadataAccount, |f| {
        children!(f, MetadataAccount, 16);
        field!(f, MetadataAccount, 4, get_next_metadata_ptr, set_next_metadata_ptr, n32);
    });
    account!(VKeyAccount, |f| {
        children!(f, VKeyAccount, 2);
        field!(f, VKeyAccount, 4, get_public_inputs_count, set_public_inputs_count, n32);
        field!(f, VKeyAccount, 33, get_authority, set_authority, |r: &mut StdRng| -> ElusivOption<Pubkey> { if r.gen_bool(0.8) { Some(key(r)).into() } else { None.into() } });
        field!(f, VKeyAccount, 1, get_is_frozen, set_is_frozen, flag);
        field!(f, VKeyAccount, 4, get_version, set_version, n32);
    });
    account!(BaseCommitmentHashingAccount, |f| {
        field!(f, BaseCommitmentHashingAccount, 4, get_instruction, set_instruction, n32);
        field!(f, BaseCommitmentHashingAccount, 4, get_fee_version, set_fee_version, n32);
        field!(f, BaseCommitmentHashingAccount, 32, get_fee_payer, set_fee_payer, bytes32);
        field!(f, BaseCommitmentHashingAccount, 1, get_is_active, set_is_active, flag);
        field!(f, BaseCommitmentHashingAccount, 96, get_state, set_state, |r: &mut StdRng| BinarySpongeHashingState([0; 3].map(|_| Fr::new(big(&bytes32(r))))));
        field!(f, BaseCommitmentHashingAccount, 4, get_min_batching_rate, set_min_batching_rate, n32);
        field!(f, BaseCommitmentHashingAccount, 17, get_metadata, set_metadata, meta);
    });
    account!(CommitmentHashingAccount, |f| {
        field!(f, CommitmentHashingAccount, 4, get_instruction, set_instruction, n32);
        field!(f, CommitmentHashingAccount, 4, get_fee_version, set_fee_version, n32);
        field!(f, CommitmentHashingAccount, 1, get_is_active, set_is_active, flag);
        field!(f, CommitmentHashingAccount, 1, get_setup, set_setup, flag);
        field!(f, CommitmentHashingAccount, 4, get_finalization_ix, set_finalization_ix, n32);
        field!(f, CommitmentHashingAccount, 4, get_batching_rate, set_batching_rate, n32);
        field!(f, CommitmentHashingAccount, 4, get_ordering, set_ordering, n32);
        array!(f, CommitmentHashingAccount, 32, 20usize, get_siblings, set_siblings, bytes32);
        array!(f, CommitmentHashingAccount, 32, 31usize, get_hash_tree, set_hash_tree, bytes32);
    });
    account!(VerificationAccount, |f| {
        field!(f, VerificationAccount, 4, get_prepare_inputs_instructions_count, set_prepare_inputs_instructions_count, n32);
        array!(f, VerificationAccount, 2, 140usize, get_prepare_inputs_instructions, set_prepare_inputs_instructions, n16);
        field!(f, VerificationAccount, 4, get_vkey_id, set_vkey_id, n32);
        field!(f, VerificationAccount, 1, get_step, set_step, |r: &mut StdRng| match r.gen_range(0..3) {
            0 => VerificationStep::PublicInputPreparation,
            1 => VerificationStep::CombinedMillerLoop,
            _ => VerificationStep::FinalExponentiation,
        });
        field!(f, VerificationAccount, 1, get_state, set_state, |r: &mut StdRng| match r.gen_range(0..6) {
            0 => VerificationState::None,
            1 => VerificationState::FeeTransferred,
            2 => VerificationState::ProofSetup,
            3 => VerificationState::InsertNullifiers,
            4 => VerificationState::Finalized,
            _ => VerificationState::Closed,
        });
        array!(f, VerificationAccount, 32, 14usize, get_public_input, set_public_input, |r: &mut StdRng| RawU256::new(bytes32(r)));
        lazy!(f, VerificationAccount, 65, a, |r: &mut StdRng| g1a(&many(r, 2), r.gen()));
        lazy!(f, VerificationAccount, 129, b, |r: &mut StdRng| g2a(&many(r, 4), r.gen()));
        lazy!(f, VerificationAccount, 65, c, |r: &mut StdRng| g1a(&many(r, 2), r.gen()));
        field!(f, VerificationAccount, 2, get_is_verified, set_is_verified, |r: &mut StdRng| -> ElusivOption<bool> { if r.gen_bool(0.8) { Some(r.gen()).into() } else { None.into() } });
        field!(f, VerificationAccount, 170, get_other_data, set_other_data, |r: &mut StdRng| ver_data(r).0);
        field!(f, VerificationAccount, ProofRequest::SIZE, get_request, set_request, |r: &mut StdRng| proof_request(r).0);
        array!(f, VerificationAccount, 4, 2usize, get_tree_indices, set_tree_indices, n32);
    });
    out
}
fn accounts(r: &mut StdRng, ls: &[Layout], rounds: usize, obs: &mut Obs) -> Result<(), String> {
    for l in ls {
        let mut d = vec![0u8; l.size];
        for n in [0, 1, l.size - 1, l.size + 1, l.size * 2] {
            if n != l.size && (l.opens)(&mut vec![0u8; n]) {
                return Err(format!("{}: {} bytes are taken for an account of {}", l.name, n, l.size));
            }
        }
        if !(l.opens)(&mut d) {
            return Err(format!("{}: an account of {} bytes is refused", l.name, l.size));
        }
        let mut owner: Vec<Option<usize>> = vec![None; l.size];
        // bump and version belong to no accessor
        let mut now: Vec<Option<Vec<u8>>> = vec![];
        for f in &l.fields {
            now.push(catch(|| (f.get)(&mut d)).ok());
        }
        for step in 0..rounds * l.fields.len() {
            let i = if step < l.fields.len() { step } else { r.gen_range(0..l.fields.len()) };
            let f = &l.fields[i];
            let Some(set) = &f.set else { continue };
            let old = d.clone();
            let v = match catch(|| set(&mut d, r)) {
                Ok(v) => v,
                Err(e) => return Err(format!("{}: setting {} aborts: {}", l.name, f.name, e)),
            };
            obs.inc("field_writes");
            obs.case(&("field", l.name, &f.name));
            now[i] = Some(v);
            let mut range = (usize::MAX, 0);
            for (p, (a, b)) in old.iter().zip(&d).enumerate() {
                if a != b {
                    range = (range.0.min(p), range.1.max(p));
                    if p < 2 {
                        return Err(format!("{}: setting {} changes the bump or the version", l.name, f.name));
                    }
                    match owner[p] {
                        Some(o) if o != i => return Err(format!("{}: setting {} changes byte {} of {}", l.name, f.name, p, l.fields[o].name)),
                        _ => owner[p] = Some(i),
                    }
                }
            }
            if range.0 <= range.1 && range.1 - range.0 >= f.size {
                return Err(format!("{}: setting {} changes bytes {}..={} ({} declared)", l.name, f.name, range.0, range.1, f.size));
            }
            // all (at most 40 others) fields read what was last written
            let n = l.fields.len();
            let start = r.gen_range(0..n);
            for j in std::iter::once(i).chain((0..n.min(40)).map(|o| (start + o) % n)) {
                obs.inc("field_reads");
                let got = catch(|| (l.fields[j].get)(&mut d)).ok();
                if got.is_none() || got != now[j] && now[j].is_some() {
                    return Err(format!("{}: after setting {}, {} reads {:?} instead of {:?}", l.name, f.name, l.fields[j].name, got.map(|x| hex(&x)), now[j].as_ref().map(|x| hex(x))));
                }
            }
        }
        // the fields' bytes are disjoint and contiguous over all writes
        for i in 0..l.fields.len() {
            let p: Vec<usize> = (0..l.size).filter(|p| owner[*p] == Some(i)).collect();
            if let (Some(a), Some(b)) = (p.first(), p.last()) {
                if b - a + 1 > l.fields[i].size {
                    return Err(format!("{}: {} occupies bytes {}..={} ({} declared)", l.name, l.fields[i].name, a, b, l.fields[i].size));
                }
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------------------------ containers

fn containers(r: &mut StdRng, obs: &mut Obs) -> Result<(), String> {
    // values kept on the heap until serialized
    macro_rules! ram {
        ($name:expr, $n:expr, $t:ty, $gen:expr) => {{
            let size = <Wrap<$t> as BorshSerDeSized>::SIZE;
            let mut bytes = vec![0u8; size * $n];
            r.fill(&mut bytes[..]);
            for i in 0..$n {
                // flags of points
                if size % 32 == 1 {
                    bytes[i * size + size - 1] &= 1;
                }
            }
            if <LazyRAM<$t, $n> as SizedType>::SIZE != bytes.len() {
                return Err(format!("{}: {} bytes instead of {}", $name, <LazyRAM<$t, $n> as SizedType>::SIZE, bytes.len()));
            }
            for _ in 0..4 {
                let mut want = bytes.clone();
                let store = r.gen_bool(0.8);
                let before = bytes.clone();
                {
                    let mut ram = LazyRAM::<$t, $n>::new(&mut bytes);
                    let mut frame = 0usize;
                    for _ in 0..20 {
                        let i = r.gen_range(0..$n);
                        obs.inc("ram_operations");
                        match r.gen_range(0..5) {
                            0 => {
                                frame = r.gen_range(0..=i);
                                ram.set_frame(frame);
                                if ram.get_frame() != frame {
                                    return Err(format!("{}: another frame", $name));
                                }
                            }
                            1 | 2 if i >= frame => {
                                let v: $t = $gen(r);
                                want[i * size..(i + 1) * size].copy_from_slice(&Wrap(v).try_to_vec().unwrap());
                                ram.write(v, i - frame);
                            }
                            _ if i >= frame => {
                                let got = Wrap(ram.read(i - frame)).try_to_vec().unwrap();
                                if got != want[i * size..(i + 1) * size] {
                                    return Err(format!("{}: element {} (frame {}) reads {} instead of {}", $name, i, frame, hex(&got), hex(&want[i * size..(i + 1) * size])));
                                }
                            }
                            _ => (),
                        }
                    }
                    if catch(|| ram.read($n - frame)).is_ok() {
                        return Err(format!("{}: an element behind the end is readable", $name));
                    }
                    if store {
                        ram.serialize().map_err(|_| format!("{}: not serializable", $name))?;
                    }
                }
                let expect = if store { &want } else { &before };
                if &bytes != expect {
                    return Err(format!("{}: stored content differs (stored: {})", $name, store));
                }
            }
            obs.case(&("ram", $name));
        }};
    }
    ram!("LazyRAM of Fq", 6, Fq, |r: &mut StdRng| fq(&bytes32(r)));
    ram!("LazyRAM of Fq2", 10, Fq2, |r: &mut StdRng| fq2(&many(r, 2)));
    ram!("LazyRAM of Fq6", 3, Fq6, |r: &mut StdRng| fq6(&many(r, 6)));
    ram!("LazyRAM of Fq12", 7, Fq12, |r: &mut StdRng| Fq12::new(fq6(&many(r, 6)), fq6(&many(r, 6))));
    ram!("LazyRAM of G2A", 1, G2A, |r: &mut StdRng| g2a(&many(r, 4), r.gen()));

    const N: usize = 9;
    macro_rules! arrays {
        ($t:ty, $gen:expr) => {{
            let size = <$t as BorshSerDeSized>::SIZE;
            let mut bytes: Vec<u8> = (0..N).flat_map(|_| $gen(r).try_to_vec().unwrap()).collect();
            for round in 0..6 {
                let mut want = bytes.clone();
                macro_rules! at {
                    ($i:expr) => {
                        want[$i * size..($i + 1) * size]
                    };
                }
                let kind = (round + r.gen_range(0..3)) % 3;
                obs.case(&("array", stringify!($t), kind));
                if kind == 0 {
                    let mut a = LazyArray::<$t, N>::new(&mut bytes);
                    let mut delayed = false;
                    for _ in 0..12 {
                        let i = r.gen_range(0..N);
                        match r.gen_range(0..4) {
                            0 => {
                                let v: $t = $gen(r);
                                at!(i).copy_from_slice(&v.try_to_vec().unwrap());
                                a.set(i, v);
                                delayed = false;
                            }
                            1 => {
                                let v: $t = $gen(r);
                                at!(i).copy_from_slice(&v.try_to_vec().unwrap());
                                a.set_no_serialization(i, v);
                                delayed = true;
                            }
                            _ => {
                                let g = a.get(i).try_to_vec().unwrap();
                                if g != at!(i) {
                                    return Err(format!("LazyArray: element {} reads {} instead of {}", i, hex(&g), hex(&at!(i))));
                                }
                            }
                        }
                        obs.inc("array_operations");
                    }
                    if delayed {
                        a.serialize();
                    }
                    if catch(|| a.get(N)).is_ok() {
                        return Err("LazyArray: an element behind the end is readable".into());
                    }
                } else if kind == 1 {
                    let mut a = JITArray::<$t, N>::new(&mut bytes);
                    for _ in 0..12 {
                        let i = r.gen_range(0..N);
                        if r.gen() {
                            let v: $t = $gen(r);
                            at!(i).copy_from_slice(&v.try_to_vec().unwrap());
                            a.set(i, &v);
                        } else {
                            let g = a.get(i).try_to_vec().unwrap();
                            if g != at!(i) {
                                return Err(format!("JITArray: element {} reads {} instead of {}", i, hex(&g), hex(&at!(i))));
                            }
                        }
                        obs.inc("array_operations");
                    }
                    if catch(|| a.get(N)).is_ok() {
                        return Err("JITArray: an element behind the end is readable".into());
                    }
                } else {
                    let i = r.gen_range(0..N);
                    let mut a = Lazy::<$t>::new(&mut bytes[i * size..(i + 1) * size]);
                    for _ in 0..6 {
                        match r.gen_range(0..4) {
                            0 => {
                                let v: $t = $gen(r);
                                at!(i).copy_from_slice(&v.try_to_vec().unwrap());
                                a.set(v);
                            }
                            1 => {
                                let v: $t = $gen(r);
                                at!(i).copy_from_slice(&v.try_to_vec().unwrap());
                                a.set_no_serialization(v);
                                a.serialize();
                            }
                            _ => {
                                if a.get().try_to_vec().unwrap() != at!(i) {
                                    return Err("Lazy: another value is read".into());
                                }
                            }
                        }
                        obs.inc("array_operations");
                    }
                }
                if bytes != want {
                    return Err(format!("stored array of {} differs (container {})", stringify!($t), kind));
                }
            }
        }};
    }
    arrays!(u16, n16);
    arrays!(u32, n32);
    arrays!(U, bytes32);
    arrays!(RawU256, |r: &mut StdRng| RawU256::new(bytes32(r)));
    arrays!(G1A, |r: &mut StdRng| g1a(&many(r, 2), r.gen()));
    arrays!(ElusivOption<U>, |r: &mut StdRng| -> ElusivOption<U> { if r.gen() { Some(bytes32(r)).into() } else { None.into() } });
    Ok(())
}

// ------------------------------------------------------------------------------------ numbers

fn numbers(r: &mut StdRng, obs: &mut Obs) -> Result<(), String> {
    macro_rules! eq {
        ($name:expr, $a:expr, $b:expr) => {
            obs.inc("number_conversions");
            let (a, b) = ($a, $b);
            if a != b {
                return Err(format!("{}: {:?} instead of {:?}", $name, a, b));
            }
        };
    }
    let ok = |x: Result<u64, String>| x.ok();
    let (a, b) = (n64(r), n64(r));
    // rounding up (the sum of both may not exceed the type)
    let (p, q) = (a >> 1, (b >> 1).max(1));
    eq!("div_ceiling_u64", eb::div_ceiling_u64(p, q), ((p as u128 + q as u128 - 1) / q as u128) as u64);
    eq!("div_ceiling_usize", eb::div_ceiling_usize(p as usize, q as usize), ((p as u128 + q as u128 - 1) / q as u128) as usize);
    let (p, q) = ((a as u32) >> 1, ((b as u32) >> 1).max(1));
    eq!("div_ceiling_u32", eb::div_ceiling_u32(p, q), ((p as u64 + q as u64 - 1) / q as u64) as u32);
    eq!("division by zero", catch(|| eb::div_ceiling_u32(p, 0)).is_err() && catch(|| eb::div_ceiling_u64(a, 0)).is_err() && catch(|| eb::div_ceiling_usize(1, 0)).is_err(), true);
    // conversions never change the value
    let fits = |max: u64| if a <= max { Some(a) } else { None };
    eq!("u64_as_u32_safe", ok(catch(|| eb::u64_as_u32_safe(a) as u64)), fits(u32::MAX as u64));
    eq!("usize_as_u32_safe", ok(catch(|| eb::usize_as_u32_safe(a as usize) as u64)), fits(u32::MAX as u64));
    eq!("usize_as_u16_safe", ok(catch(|| eb::usize_as_u16_safe(a as usize) as u64)), fits(u16::MAX as u64));
    eq!("usize_as_u8_safe", ok(catch(|| eb::usize_as_u8_safe(a as usize) as u64)), fits(u8::MAX as u64));
    eq!("u64_as_usize_safe", ok(catch(|| eb::u64_as_usize_safe(a) as u64)), fits(u32::MAX as u64));
    for x in [u8::MAX as u64, u16::MAX as u64, u32::MAX as u64] {
        for y in [x, x + 1] {
            eq!("u64_as_u32_safe", ok(catch(|| eb::u64_as_u32_safe(y) as u64)), if y <= u32::MAX as u64 { Some(y) } else { None });
            eq!("usize_as_u16_safe", ok(catch(|| eb::usize_as_u16_safe(y as usize) as u64)), if y <= u16::MAX as u64 { Some(y) } else { None });
            eq!("usize_as_u8_safe", ok(catch(|| eb::usize_as_u8_safe(y as usize) as u64)), if y <= u8::MAX as u64 { Some(y) } else { None });
        }
    }
    // zeros
    let n = r.gen_range(0..70);
    let mut z = vec![0u8; n];
    eq!("is_zero", eb::is_zero(&z), true);
    if n > 0 {
        z[r.gen_range(0..n)] = 1 << r.gen_range(0..8);
        eq!("is_zero", eb::is_zero(&z), false);
    }
    let s: Vec<u8> = (0..r.gen_range(8..20)).map(|_| r.gen()).collect();
    eq!("slice_to_array", eb::slice_to_array::<u8, 8>(&s).to_vec(), s[..8].to_vec());
    eq!("slice_to_array of a short slice", catch(|| eb::slice_to_array::<u8, 8>(&s[..7])).is_err(), true);
    // searching
    macro_rules! find {
        ($t:ty, $gen:expr) => {{
            let n = r.gen_range(0..12);
            let pool: Vec<$t> = (0..4).map(|_| $gen(r)).collect();
            let v: Vec<$t> = (0..n).map(|_| pool[r.gen_range(0..3)].clone()).collect();
            let bytes: Vec<u8> = v.iter().flat_map(|x| x.try_to_vec().unwrap()).collect();
            let x = pool[r.gen_range(0..4)].clone();
            let len = r.gen_range(0..=n);
            // counted in elements of equal encoding
            let e = x.try_to_vec().unwrap();
            let at = |len: usize| (0..len).find(|i| v[*i].try_to_vec().unwrap() == e);
            eq!(concat!("find ", stringify!($t)), eb::find(&x, &bytes, len), at(len));
            eq!(concat!("contains ", stringify!($t)), eb::contains(&x, &bytes), at(n).is_some());
        }};
    }
    find!(u8, |r: &mut StdRng| r.gen_range(0..3u8));
    find!(u16, |r: &mut StdRng| r.gen_range(0..3u16) << r.gen_range(0..9));
    find!(u64, |r: &mut StdRng| r.gen_range(0..3u64) << r.gen_range(0..60));
    find!(U, |r: &mut StdRng| {
        let mut b = [0u8; 32];
        b[r.gen_range(0..32)] = r.gen_range(0..2);
        b[31] = r.gen_range(0..2);
        b
    });
    // 256-bit values
    let x = bytes32(r);
    let limbs = [0, 8, 16, 24].map(|i| u64::from_le_bytes(x[i..i + 8].try_into().unwrap()));
    eq!("u256_to_le_limbs", u256_to_le_limbs(x), limbs);
    eq!("u256_to_big_uint", u256_to_big_uint(&x), BigInteger256(limbs));
    eq!("big_uint_to_u256", big_uint_to_u256(&BigInteger256(limbs)), x);
    eq!("u256_to_fr_skip_mr", u256_to_fr_skip_mr(&x).0, BigInteger256(limbs));
    let mut lo = [0u8; 32];
    let mut hi = [0u8; 32];
    lo[..16].copy_from_slice(&x[..16]);
    hi[..16].copy_from_slice(&x[16..]);
    eq!("split_u256_into_limbs", split_u256_into_limbs(x), [lo, hi]);
    let y = bytes32(r);
    let be = |v: &U| {
        let mut v = *v;
        v.reverse();
        v
    };
    eq!("order of 256-bit values", OrdU256(x).cmp(&OrdU256(y)), be(&x).cmp(&be(&y)));
    eq!("partial order of 256-bit values", OrdU256(x).partial_cmp(&OrdU256(y)), Some(be(&x).cmp(&be(&y))));
    eq!("equal 256-bit values", OrdU256(x) == OrdU256(y), x == y);
    eq!("is_element_scalar_field", is_element_scalar_field(BigInteger256(limbs)), is_scalar(&x));
    let f = crate::refm::edge(r);
    eq!("fr_to_u256_le", fr_to_u256_le(&f), mr(&f));
    eq!("fr_to_u256_le_repr", fr_to_u256_le_repr(&f), raw(&f));
    eq!("reduce", RawU256::new(raw(&f)).reduce(), mr(&f));
    eq!("skip_mr", (RawU256::new(x).skip_mr(), *RawU256::new(x).skip_mr_ref()), (x, x));
    if !is_scalar(&x) {
        eq!("reduction of a value outside of the field", catch(|| RawU256::new(x).reduce()).is_err(), true);
    }
    let mut small = [0u8; 32];
    small[..8].copy_from_slice(&a.to_le_bytes());
    eq!("u64_to_u256_skip_mr", u64_to_u256_skip_mr(a), small);
    eq!("u64_to_scalar", u64_to_scalar(a), Fr::from_repr(BigInteger256([a, 0, 0, 0])).unwrap());
    eq!("u64_to_u256", u64_to_u256(a), mr(&Fr::from_repr(BigInteger256([a, 0, 0, 0])).unwrap()));
    eq!("u64_to_scalar_skip_mr", u64_to_scalar_skip_mr(a).0, BigInteger256([a, 0, 0, 0]));
    // options
    let o: Option<u64> = if r.gen() { Some(a) } else { None };
    eq!("ElusivOption", ElusivOption::from(o).option(), o);
    Ok(())
}

// ------------------------------------------------------------------------------------ instructions

/// one instruction as built from the specification
fn instruction(r: &mut StdRng, data: &[u8], obs: &mut Obs) -> Result<(), String> {
    let e = |what: &str, b: &[u8]| Err(format!("instruction {} {}: {}", data.first().copied().unwrap_or(255), what, hex(b)));
    let Some((x, left)) = dec::<ElusivInstruction>(data) else {
        return e("is not decoded", data);
    };
    if left != 0 || x.try_to_vec().ok().as_deref() != Some(data) {
        return e("is decoded as something else", data);
    }
    obs.inc("instructions_decoded");
    obs.case(&("instruction", data[0]));
    for _ in 0..6 {
        let n = r.gen_range(0..data.len());
        obs.inc("truncated_instructions");
        if dec::<ElusivInstruction>(&data[..n]).is_some() {
            return e("is decoded though truncated", &data[..n]);
        }
    }
    for _ in 0..10 {
        let mut b = data.to_vec();
        for _ in 0..r.gen_range(1..3) {
            let i = if r.gen_bool(0.2) { 0 } else { r.gen_range(0..b.len()) };
            b[i] = match r.gen_range(0..3) {
                0 => r.gen_range(0..4),
                1 => b[i] ^ (1 << r.gen_range(0..8)),
                _ => r.gen(),
            };
        }
        b.extend((0..r.gen_range(0..80)).map(|_| r.gen_range(0..3u8)));
        obs.inc("mutated_instructions");
        if let Some((x, left)) = dec::<ElusivInstruction>(&b) {
            let again = x.try_to_vec().unwrap_or_default();
            // options of fixed size (of the fifteenth) are read leniently
            let same = if b[0] == 15 { dec::<ElusivInstruction>(&again).and_then(|y| y.0.try_to_vec().ok()) == Some(again) } else { again == b[..b.len() - left] };
            if !same {
                return e("is decoded to another meaning", &b);
            }
            obs.inc("mutated_instructions_decoded");
            obs.case(&("mutated", data[0], b[0]));
        }
    }
    Ok(())
}
/// every instruction of the program, with arbitrary arguments
fn all_instructions(r: &mut StdRng) -> Vec<Vec<u8>> {
    let q = request(r);
    let b = BaseReq { base: bytes32(r), recent: n32(r), amount: n64(r), token: n16(r), commitment: bytes32(r), fee_version: n32(r), rate: n32(r) };
    let e = Enc::new;
    let packet: Vec<u8> = (0..r.gen_range(0..400)).map(|_| r.gen()).collect();
    let proof: Vec<u8> = [cat(&many(r, 2)), vec![r.gen_range(0..2)], cat(&many(r, 4)), vec![r.gen_range(0..2)], cat(&many(r, 2)), vec![r.gen_range(0..2)]].concat();
    let some: bool = r.gen();
    let authority = if some { bytes32(r) } else { [0; 32] };
    let mut out = vec![
        b.enc(e(0).u32(n32(r)).u8(r.gen())).b(&meta(r)),
        e(1).u32(n32(r)),
        e(2).u32(n32(r)).u32(n32(r)),
        e(3).u8(r.gen_range(0..2)),
        e(4).u8(r.gen_range(0..2)),
        e(5).u32(n32(r)).u32(n32(r)),
        e(6),
        q.enc(e(7).u8(r.gen()).u32(n32(r)).u32(n32(r)).u32(n32(r))).u8(r.gen_range(0..2)),
        e(8).u8(r.gen()),
        e(9).u8(r.gen()).b(&proof),
        e(10).u8(r.gen()).u32(n32(r)),
        e(11).u8(r.gen()).u64(n64(r)).u16(n16(r)).u32(n32(r)).u32(n32(r)).b(&bytes32(r)).b(&bytes32(r)).u8(r.gen_range(0..2)),
        e(12).u8(r.gen()),
        e(13).u8(r.gen()),
        e(14).u8(r.gen()),
        e(15).u32(n32(r)).u32(n32(r)).u8(some as u8).b(&authority),
        e(16).u32(n32(r)),
        e(17).u32(n32(r)),
        e(18).u32(n32(r)).u32(n32(r)).u32(packet.len() as u32).b(&packet),
        e(19).u32(n32(r)),
        e(20).u32(n32(r)).b(&bytes32(r)),
        e(21).u32(n32(r)),
        e(22).u32(n32(r)),
        e(23),
        e(24).u32(n32(r)),
        e(25).u32(n32(r)),
        e(26).u32(n32(r)).u32(n32(r)),
        e(27).u32(n32(r)),
        e(28),
        e(29).u32(n32(r)).u32(n32(r)),
        e(30).u32(n32(r)).b(&program_fee(r).1),
        e(31),
        e(32),
        e(33),
    ];
    // the other request
    let (p, x) = proof_request(r);
    let _ = p;
    out.push(e(7).u8(r.gen()).u32(n32(r)).u32(n32(r)).u32(n32(r)).b(&x).u8(r.gen_range(0..2)));
    out.into_iter().map(|e| e.0).collect()
}

pub fn s01(run: &Run) -> (Obs, Vec<String>) {
    // histories with edited, truncated and extended instruction data, judged by the reference decoder
    let plan = Plan { cfg: Cfg { mutate: 0.6, ..Cfg::default() }, quick: 12, thorough: 500, min_worlds: 32, turns: 250, ..Plan::default() };
    let (mut obs, mut errs) = histories(run, "S01", &plan);
    let budget = run.budget(34, 1500);
    let (o, e) = run.parallel(8, |lane, obs| {
        let ls = layouts();
        let mut n = lane;
        while n < 80 || run.left(budget) && n < 1_000_000 {
            let mut r = StdRng::seed_from_u64(run.seed.wrapping_mul(77_003).wrapping_add(n));
            let mut f = |obs: &mut Obs| -> Result<(), String> {
                for _ in 0..20 {
                    types(&mut r, obs)?;
                    containers(&mut r, obs)?;
                    for _ in 0..10 {
                        numbers(&mut r, obs)?;
                    }
                }
                accounts(&mut r, &ls, 2, obs)?;
                Ok(())
            };
            if let Err(e) = f(obs) {
                let sig = e.split(|c: char| c == ':' || c.is_ascii_digit()).next().unwrap_or("").trim().to_string();
                obs.violation(format!("encoding: {}", sig), format!("{} (seed {})", e, n));
                break;
            }
            for _ in 0..10 {
                for data in all_instructions(&mut r) {
                    if let Err(e) = instruction(&mut r, &data, obs) {
                        obs.violation(format!("instruction encoding {}", data[0]), e);
                        return;
                    }
                }
            }
            for _ in 0..200 {
                // unknown instructions and random bytes
                let n = r.gen_range(0..200);
                let mut b: Vec<u8> = (0..n).map(|_| r.gen()).collect();
                if !b.is_empty() {
                    b[0] = r.gen_range(34..=255);
                }
                obs.inc("unknown_instructions");
                if dec::<ElusivInstruction>(&b).is_some() {
                    obs.violation("unknown instruction decoded", hex(&b));
                }
            }
            n += 8;
        }
    });
    obs.merge(o);
    errs.extend(e);
    (obs, errs)
}
