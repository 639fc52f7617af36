//! Reference models, written from the protocol's documentation, independent of the code under test:
//! Poseidon (constants regenerated with the Grain LFSR), Merkle tree, fee schedule, price conversion.
use ark_bn254::Fr;
use ark_ff::{BigInteger256, Field, One, PrimeField, UniformRand, Zero};
use rand::{rngs::StdRng, Rng};
use std::collections::HashMap;
use std::sync::OnceLock;

pub type U256 = [u8; 32];

/// Montgomery-form little-endian bytes (the on-chain storage form)
pub fn mr(f: &Fr) -> U256 {
    let mut o = [0; 32];
    for (i, l) in f.0 .0.iter().enumerate() {
        o[i * 8..i * 8 + 8].copy_from_slice(&l.to_le_bytes());
    }
    o
}
pub fn limbs(b: &U256) -> [u64; 4] {
    let mut l = [0; 4];
    for i in 0..4 {
        l[i] = u64::from_le_bytes(b[i * 8..i * 8 + 8].try_into().unwrap());
    }
    l
}
/// from Montgomery-form bytes
pub fn from_mr(b: &U256) -> Fr {
    Fr::new(BigInteger256(limbs(b)))
}
/// canonical little-endian bytes
pub fn raw(f: &Fr) -> U256 {
    let mut o = [0; 32];
    for (i, l) in f.into_repr().0.iter().enumerate() {
        o[i * 8..i * 8 + 8].copy_from_slice(&l.to_le_bytes());
    }
    o
}
/// from canonical bytes (None: not a field element)
pub fn from_raw(b: &U256) -> Option<Fr> {
    Fr::from_repr(BigInteger256(limbs(b)))
}
pub fn is_scalar(b: &U256) -> bool {
    from_raw(b).is_some()
}

// ------------------------------------------------------------------------------------ Poseidon

const T: usize = 3;
const RF: usize = 8;
const RP: usize = 57;

struct Grain {
    s: Vec<bool>,
}
impl Grain {
    fn new() -> Self {
        let mut bits = vec![];
        let mut push = |v: u64, n: usize| {
            for i in (0..n).rev() {
                bits.push((v >> i) & 1 == 1)
            }
        };
        push(1, 2); // field
        push(0, 4); // sbox x^alpha
        push(254, 12);
        push(T as u64, 12);
        push(RF as u64, 10);
        push(RP as u64, 10);
        for _ in 0..30 {
            bits.push(true)
        }
        let mut g = Grain { s: bits };
        for _ in 0..160 {
            g.raw();
        }
        g
    }
    fn raw(&mut self) -> bool {
        let s = &self.s;
        let b = s[62] ^ s[51] ^ s[38] ^ s[23] ^ s[13] ^ s[0];
        self.s.remove(0);
        self.s.push(b);
        b
    }
    fn bit(&mut self) -> bool {
        loop {
            let a = self.raw();
            let b = self.raw();
            if a {
                return b;
            }
        }
    }
    fn bits254(&mut self) -> [u64; 4] {
        let mut l = [0u64; 4];
        for i in (0..254).rev() {
            if self.bit() {
                l[i / 64] |= 1 << (i % 64);
            }
        }
        l
    }
    fn element(&mut self) -> Fr {
        loop {
            if let Some(f) = Fr::from_repr(BigInteger256(self.bits254())) {
                return f;
            }
        }
    }
    fn element_mod(&mut self) -> Fr {
        let l = self.bits254();
        let mut acc = Fr::zero();
        let base = Fr::from(u64::MAX) + Fr::one();
        for x in l.iter().rev() {
            acc = acc * base + Fr::from(*x);
        }
        acc
    }
}

pub struct Params {
    pub rc: Vec<Fr>,
    pub mds: [[Fr; T]; T],
}
pub fn params() -> &'static Params {
    static P: OnceLock<Params> = OnceLock::new();
    P.get_or_init(|| {
        let mut g = Grain::new();
        let rc: Vec<Fr> = (0..(RF + RP) * T).map(|_| g.element()).collect();
        let xs: Vec<Fr> = (0..2 * T).map(|_| g.element_mod()).collect();
        let mut mds = [[Fr::zero(); T]; T];
        for i in 0..T {
            for j in 0..T {
                mds[i][j] = (xs[i] + xs[T + j]).inverse().unwrap();
            }
        }
        Params { rc, mds }
    })
}
/// Poseidon(a, b), circomlib parameters
pub fn poseidon2(a: Fr, b: Fr) -> Fr {
    let p = params();
    let mut s = [Fr::zero(), a, b];
    for r in 0..RF + RP {
        for i in 0..T {
            s[i] += p.rc[r * T + i];
        }
        let full = r < RF / 2 || r >= RF / 2 + RP;
        for (i, v) in s.iter_mut().enumerate() {
            if i == 0 || full {
                let q = v.square();
                *v *= q.square();
            }
        }
        let mut n = [Fr::zero(); T];
        for i in 0..T {
            for j in 0..T {
                n[i] += p.mds[i][j] * s[j];
            }
        }
        s = n;
    }
    s[0]
}
/// one-time validation of the reference itself
pub fn validate_reference() {
    use std::str::FromStr;
    let e = Fr::from_str("7853200120776062878684798364095072458815029376092732009249414926327459813530").unwrap();
    assert_eq!(poseidon2(Fr::from(1u64), Fr::from(2u64)), e, "reference Poseidon is wrong");
}

/// commitment = poseidon(base_commitment, amount + 2^64 (token_id + 2^16 recent_commitment_index))
pub fn commitment_of(base: Fr, amount: u64, token_id: u16, recent: u32) -> Fr {
    let v = Fr::from_repr(BigInteger256([amount, token_id as u64 | ((recent as u64) << 16), 0, 0])).unwrap();
    poseidon2(base, v)
}
pub fn zero_base() -> Fr {
    poseidon2(Fr::zero(), Fr::zero())
}
pub fn zero_commitment() -> Fr {
    poseidon2(zero_base(), Fr::zero())
}

// ------------------------------------------------------------------------------------ Merkle tree

pub const HEIGHT: usize = 20;

pub fn empties() -> &'static Vec<Fr> {
    static P: OnceLock<Vec<Fr>> = OnceLock::new();
    P.get_or_init(|| {
        let mut v = vec![zero_base()];
        for i in 0..HEIGHT {
            v.push(poseidon2(v[i], v[i]));
        }
        v
    })
}

/// (level from leaves, index) -> node; all others are empty subtrees
#[derive(Clone, Default)]
pub struct Tree {
    pub nodes: HashMap<(usize, usize), Fr>,
    pub len: usize,
    /// the first leaves are all the same: `fill[l]` is the root of a full subtree of height l
    pub prefix: usize,
    pub fill: Vec<Fr>,
}
impl Tree {
    pub fn node(&self, lvl: usize, i: usize) -> Fr {
        if let Some(v) = self.nodes.get(&(lvl, i)) {
            return *v;
        }
        if self.prefix > 0 && ((i + 1) << lvl) <= self.prefix { self.fill[lvl] } else { empties()[lvl] }
    }
    pub fn fills(leaf: Fr) -> Vec<Fr> {
        let mut f = vec![leaf];
        for l in 0..HEIGHT {
            f.push(poseidon2(f[l], f[l]));
        }
        f
    }
    /// a tree with `prefix` equal leaves
    pub fn aged(prefix: usize, fill: &[Fr]) -> Self {
        let mut t = Tree { nodes: HashMap::new(), len: prefix, prefix, fill: fill.to_vec() };
        for l in 1..=HEIGHT {
            let i = prefix >> l;
            if prefix % (1 << l) != 0 {
                let h = poseidon2(t.node(l - 1, 2 * i), t.node(l - 1, 2 * i + 1));
                t.nodes.insert((l, i), h);
            }
        }
        t
    }
    pub fn push(&mut self, leaf: Fr) {
        let mut i = self.len;
        self.len += 1;
        self.nodes.insert((0, i), leaf);
        for l in 0..HEIGHT {
            i >>= 1;
            let h = poseidon2(self.node(l, 2 * i), self.node(l, 2 * i + 1));
            self.nodes.insert((l + 1, i), h);
        }
    }
    pub fn push_batch(&mut self, leaves: &[Fr]) {
        for l in leaves {
            self.push(*l)
        }
    }
    pub fn root(&self) -> Fr {
        self.node(HEIGHT, 0)
    }
}

// ------------------------------------------------------------------------------------ fee schedule

#[derive(Clone, Debug, PartialEq)]
pub struct Fee {
    pub lamports_per_tx: u64,
    pub base_network_bp: u64,
    pub proof_network_bp: u64,
    pub base_subvention: u64,
    pub proof_subvention: u64,
    pub hash_reward: u64,
    pub proof_reward: u64,
    pub proof_base_tx_count: u64,
}
impl Fee {
    pub fn encode(&self) -> Vec<u8> {
        [self.lamports_per_tx, self.base_network_bp, self.proof_network_bp, self.base_subvention, self.proof_subvention,
         self.hash_reward, self.proof_reward, self.proof_base_tx_count].iter().flat_map(|x| x.to_le_bytes()).collect()
    }
    pub fn decode(b: &[u8]) -> Self {
        let u = |i: usize| u64::from_le_bytes(b[i * 8..i * 8 + 8].try_into().unwrap());
        Fee { lamports_per_tx: u(0), base_network_bp: u(1), proof_network_bp: u(2), base_subvention: u(3), proof_subvention: u(4),
              hash_reward: u(5), proof_reward: u(6), proof_base_tx_count: u(7) }
    }
    pub fn comp(&self) -> u128 {
        self.lamports_per_tx as u128 + self.hash_reward as u128
    }
    /// two hashing transactions plus the second signature of the deposit
    pub fn base_hash(&self) -> u128 {
        2 * self.comp() + self.lamports_per_tx as u128
    }
    pub fn commitment_hash(&self, rate: u32) -> u128 {
        let n = HASH_IXS[rate as usize] as u128 * self.comp();
        let k = 1u128 << rate;
        (n + k - 1) / k
    }
    pub fn proof(&self, prep: usize) -> u128 {
        (prep as u128 + self.proof_base_tx_count as u128) * self.lamports_per_tx as u128 + self.proof_reward as u128
    }
    pub fn base_network(&self, amount: u64) -> u128 {
        self.base_network_bp as u128 * amount as u128 / 10_000
    }
    pub fn proof_network(&self, amount: u64) -> u128 {
        self.proof_network_bp as u128 * amount as u128 / 10_000
    }
}
/// published number of hashing instructions per batching rate
pub const HASH_IXS: [usize; 5] = [24, 24, 25, 29, 37];
/// published: miller loop 43 txs, final exponentiation 17 txs, plus init and finalization
pub const PROOF_BASE_TX: u64 = 62;

/// number of transactions that prepare the public inputs (22k CUs per non-zero byte, 30k per non-zero
/// input, at most 1.33m CUs in one)
pub fn prep_ix_count(inputs: &[U256]) -> usize {
    let (mut n, mut cu, mut any) = (0usize, 0u32, false);
    for v in inputs {
        for b in 0..33 {
            let c = if b == 32 { if v.iter().all(|x| *x == 0) { 0 } else { 30 } } else if v[b] == 0 { 0 } else { 22 };
            if cu + c > 1330 {
                n += 1;
                cu = c;
            } else {
                cu += c;
            }
            any = true;
        }
    }
    n + any as usize
}

// ------------------------------------------------------------------------------------ prices

/// USD price of one whole token = price * 10^expo
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct P {
    pub price: i64,
    pub conf: u64,
    pub expo: i32,
}

fn norm(p: P) -> P {
    const M: u64 = (1 << 28) - 1;
    let neg = p.price < 0;
    let (mut a, mut c, mut e) = (p.price.unsigned_abs(), p.conf, p.expo);
    while a > M || c > M {
        a /= 10;
        c /= 10;
        e += 1;
    }
    P { price: if neg { -(a as i64) } else { a as i64 }, conf: c, expo: e }
}
pub fn p_mul(a: P, b: P) -> Option<P> {
    let (a, b) = (norm(a), norm(b));
    let price = i64::try_from(a.price as i128 * b.price as i128).ok()?;
    let conf = u64::try_from(a.conf as u128 * b.price.unsigned_abs() as u128 + b.conf as u128 * a.price.unsigned_abs() as u128).ok()?;
    Some(P { price, conf, expo: a.expo.checked_add(b.expo)? })
}
pub fn p_div(a: P, b: P) -> Option<P> {
    let (a, b) = (norm(a), norm(b));
    if b.price == 0 {
        return None;
    }
    const S: u128 = 1_000_000_000;
    let (ap, bp) = (a.price.unsigned_abs() as u128, b.price.unsigned_abs() as u128);
    let mid = ap * S / bp;
    let conf = a.conf as u128 * S / bp + (b.conf as u128 * S / bp) * mid / S;
    if conf >= u64::MAX as u128 {
        return None;
    }
    let s = (a.price < 0) ^ (b.price < 0);
    let mid = i64::try_from(mid).ok()?;
    Some(P { price: if s { -mid } else { mid }, conf: conf as u64, expo: a.expo.checked_sub(b.expo)?.checked_sub(9)? })
}
pub fn p_scale(p: P, to: i32) -> Option<P> {
    let mut d = to as i64 - p.expo as i64;
    let (mut a, mut c) = (p.price, p.conf);
    while d > 0 && (a != 0 || c != 0) {
        a /= 10;
        c /= 10;
        d -= 1;
    }
    while d < 0 {
        a = a.checked_mul(10)?;
        c = c.checked_mul(10)?;
        d += 1;
        if a == 0 && c == 0 {
            break;
        }
    }
    Some(P { price: a, conf: c, expo: to })
}
/// the price of the smallest unit used in prices
pub fn p_base(p: P, base_exp: u8) -> Option<P> {
    p_mul(p, P { price: 1, conf: 0, expo: -(base_exp as i32) })
}
/// `n` lamports expressed in the smallest unit of a token with `decimals` decimals
pub fn lamports_in_token(n: u128, lamports_usd: P, token_usd: P, decimals: u8) -> Option<u64> {
    let n = i64::try_from(n).ok()?;
    let usd = p_mul(lamports_usd, P { price: n, conf: 0, expo: 0 })?;
    let q = p_scale(p_div(usd, token_usd)?, -(decimals as i32))?;
    u64::try_from(q.price).ok()
}
/// `n` smallest units of a token expressed in lamports
pub fn token_in_lamports(n: u128, lamports_usd: P, token_usd: P, decimals: u8) -> Option<u64> {
    let n = i64::try_from(n).ok()?;
    let usd = p_mul(token_usd, P { price: n, conf: 0, expo: -(decimals as i32) })?;
    let q = p_scale(p_div(usd, lamports_usd)?, 0)?;
    u64::try_from(q.price).ok()
}

/// field elements, often from the edges of their range
pub fn edge(r: &mut StdRng) -> Fr {
    match r.gen_range(0..12) {
        0 => Fr::zero(),
        1 => -Fr::from(r.gen_range(1..5u64)),
        2 => Fr::from(r.gen_range(0..5u64)),
        3 => Fr::from(2u64).pow([r.gen_range(0..254u64)]),
        4 => Fr::from(r.gen::<u64>()),
        // small in Montgomery form
        5 => from_mr(&mont_small(r)),
        _ => Fr::rand(r),
    }
}
fn mont_small(r: &mut StdRng) -> U256 {
    let mut b = [0; 32];
    let n = r.gen_range(0..31);
    for x in b.iter_mut().take(n) {
        *x = r.gen();
    }
    b
}

/// the integer of four limbs, the most significant one first
pub fn of(v: &[u64; 4]) -> U256 {
    let mut b = [0u8; 32];
    for i in 0..4 {
        b[i * 8..i * 8 + 8].copy_from_slice(&v[3 - i].to_le_bytes());
    }
    b
}
/// the i-th of n evenly distributed values (all below the modulus)
pub fn spread(i: usize, n: usize) -> [u64; 4] {
    let top = 0x3000_0000_0000_0000u64;
    [((i as u128 * top as u128) / n as u128) as u64, 0x1111, i as u64, 7]
}
