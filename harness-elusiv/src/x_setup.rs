//! One-time setup: random histories of the setup instructions against a ledger of what was set up
use crate::checks::{history, Plan};
use crate::env::*;
use crate::play::Cfg;
use crate::refm::*;
use crate::view::fee_bytes;
use elusiv::state::{
    commitment::{BaseCommitmentBufferAccount, CommitmentBufferAccount, CommitmentHashingAccount, CommitmentQueue, CommitmentQueueAccount},
    fee::FeeAccount,
    governor::{FeeCollectorAccount, GovernorAccount, PoolAccount},
    metadata::{MetadataAccount, MetadataQueueAccount},
    nullifier::{NullifierAccount, NullifierMap},
    queue::{Queue, RingQueue},
    storage::StorageAccount,
};
use elusiv::processor::CommitmentHashRequest;
use elusiv::types::OrdU256;
use elusiv_types::{ParentAccount, ProgramAccount, SizedAccount};
use minivm::report::*;
use minivm::*;
use rand::{rngs::StdRng, seq::SliceRandom, Rng, SeedableRng};
use solana_program::{instruction::Instruction, pubkey::Pubkey, system_program};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

type Slots = Vec<Option<Pubkey>>;
#[derive(Clone, Default)]
struct Model {
    governor: bool,
    /// the governor's current version (only a later release of the program could raise it)
    version: u32,
    singles: bool,
    v1: bool,
    fees: BTreeMap<u32, Fee>,
    trees: BTreeMap<u32, Slots>,
    storage: Slots,
    metadata: Slots,
}
struct World {
    vm: Vm,
    m: Model,
    n: u64,
    /// segment candidates made so far
    made: Vec<Pubkey>,
    seed: u64,
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Storage,
    Metadata,
    Nullifier(u32),
}
fn size_of(kind: Kind) -> usize {
    match kind {
        Kind::Storage => STORAGE_CHILD,
        Kind::Metadata => METADATA_CHILD,
        Kind::Nullifier(_) => NULL_CHILD,
    }
}
fn parent(kind: Kind) -> Pubkey {
    match kind {
        Kind::Storage => k().storage,
        Kind::Metadata => k().metadata,
        Kind::Nullifier(t) => null_key(t),
    }
}
fn slots_of(vm: &Vm, kind: Kind) -> Slots {
    let mut d = (*vm.data(&parent(kind))).clone();
    match kind {
        Kind::Storage => {
            let a = StorageAccount::new(&mut d).unwrap();
            (0..25).map(|i| a.get_child_pubkey(i)).collect()
        }
        Kind::Metadata => {
            let a = MetadataAccount::new(&mut d).unwrap();
            (0..16).map(|i| a.get_child_pubkey(i)).collect()
        }
        Kind::Nullifier(_) => {
            let a = NullifierAccount::new(&mut d).unwrap();
            (0..16).map(|i| a.get_child_pubkey(i)).collect()
        }
    }
}
/// the accounts an instruction opens
fn singles() -> Vec<(Pubkey, usize)> {
    let k = k();
    vec![
        (k.pool, PoolAccount::SIZE), (k.collector, FeeCollectorAccount::SIZE), (k.mth, CommitmentHashingAccount::SIZE), (k.cq, CommitmentQueueAccount::SIZE),
        (k.storage, StorageAccount::SIZE), (k.bbuf, BaseCommitmentBufferAccount::SIZE),
    ]
}
fn later() -> Vec<(Pubkey, usize)> {
    let k = k();
    vec![(k.cbuf, CommitmentBufferAccount::SIZE), (k.mq, MetadataQueueAccount::SIZE), (k.metadata, MetadataAccount::SIZE)]
}
/// What a program address starts with
fn seed_of(key: &Pubkey) -> Option<u8> {
    use elusiv_types::PDAAccount;
    let mut all: Vec<(Pubkey, &[u8], Option<u32>)> = vec![
        (k().pool, PoolAccount::SEED, None), (k().collector, FeeCollectorAccount::SEED, None), (k().mth, CommitmentHashingAccount::SEED, None),
        (k().cq, CommitmentQueueAccount::SEED, None), (k().storage, StorageAccount::SEED, None), (k().bbuf, BaseCommitmentBufferAccount::SEED, None),
        (k().cbuf, CommitmentBufferAccount::SEED, None), (k().mq, MetadataQueueAccount::SEED, None), (k().metadata, MetadataAccount::SEED, None),
        (k().governor, GovernorAccount::SEED, None),
    ];
    for v in VERSIONS {
        all.push((fee_key(v), FeeAccount::SEED, Some(v)));
    }
    for t in TREES {
        all.push((null_key(t), NullifierAccount::SEED, Some(t)));
    }
    all.iter().find(|x| x.0 == *key).map(|x| pda_bump(x.1, None, x.2).1)
}
fn bump(key: &Pubkey) -> u8 {
    use std::sync::{Mutex, OnceLock};
    static C: OnceLock<Mutex<BTreeMap<Pubkey, u8>>> = OnceLock::new();
    let mut c = C.get_or_init(Default::default).lock().unwrap();
    *c.entry(*key).or_insert_with(|| seed_of(key).unwrap())
}
const VERSIONS: [u32; 6] = [0, 1, 2, 255, 256, u32::MAX];
const TREES: [u32; 7] = [0, 1, 2, 3, 256, 65_536, u32::MAX];

fn valid(f: &Fee) -> bool {
    f.proof_base_tx_count == PROOF_BASE_TX
        && (0..4).all(|i| f.base_subvention as u128 <= f.commitment_hash(i) && f.proof_subvention as u128 <= f.proof_base_tx_count as u128 * f.lamports_per_tx as u128 + f.commitment_hash(i))
}
fn fee(r: &mut StdRng) -> Fee {
    let mut f = fee_schedule(r.gen_range(0..5));
    // subventions around the highest ones (the cheapest hashing is the one of the highest rates)
    let least = (0..4).map(|i| f.commitment_hash(i)).min().unwrap() as u64;
    let edge = |r: &mut StdRng, x: u64| *[x, x, x + 1, x.saturating_sub(1), 0, x * 2 + 5, u64::MAX >> 8].choose(r).unwrap();
    match r.gen_range(0..6) {
        0 => f.base_subvention = edge(r, least),
        1 => f.proof_subvention = edge(r, least + f.proof_base_tx_count * f.lamports_per_tx),
        2 => f.proof_base_tx_count = *[PROOF_BASE_TX, PROOF_BASE_TX + 1, PROOF_BASE_TX - 1, 0].choose(r).unwrap(),
        _ => {
            f.hash_reward = r.gen_range(0..1 << 30);
            f.proof_reward = r.gen_range(0..1 << 30);
            f.base_network_bp = r.gen_range(0..10_001);
        }
    }
    f
}

enum Effect {
    None,
    Governor,
    Open(Vec<(Pubkey, usize)>, u32),
    Bind(Kind, usize, Pubkey),
    Fee(u32, Fee),
}
fn ledger_same(a: &Vm, b: &Vm, except: &[Pubkey]) -> Option<Pubkey> {
    for x in [a, b] {
        for key in x.accounts.keys() {
            if !except.contains(key) && !a.get(key).same(&b.get(key)) {
                return Some(*key);
            }
        }
    }
    None
}
impl World {
    fn new(seed: u64) -> Self {
        World { vm: empty_vm(), m: Model { storage: vec![None; 25], metadata: vec![None; 16], ..Model::default() }, n: 0, made: vec![], seed }
    }
    fn slots(&mut self, kind: Kind) -> Option<&mut Slots> {
        match kind {
            Kind::Storage => self.m.singles.then_some(&mut self.m.storage),
            Kind::Metadata => self.m.v1.then_some(&mut self.m.metadata),
            Kind::Nullifier(t) => self.m.trees.get_mut(&t),
        }
    }
    /// `cost`: what the payer has to hold; `want`: whether it should be accepted
    fn step(&mut self, obs: &mut Obs, what: &str, how: &str, tx: &[Instruction], want: bool, payer_: Option<(Pubkey, u64)>, effect: Effect) {
        let before = self.vm.clone();
        let r = catch(|| self.vm.execute(tx));
        let ok = matches!(r, Ok(Ok(())));
        obs.eval();
        obs.inc("setup_instructions");
        obs.inc(&format!("{} {}", if ok { "ok" } else { "refused" }, what));
        obs.case(&(what, how, ok, self.m.governor, self.m.singles, self.m.v1, self.m.fees.len().min(2), self.m.trees.len().min(3), self.m.storage.iter().flatten().count() / 8));
        let why = format!("{} ({}) {:?}", what, how, r);
        if ok != want {
            return obs.violation(if ok { "a setup instruction is accepted that should be refused" } else { "a correct setup instruction is refused" }, &why);
        }
        if !ok {
            if let Some(key) = ledger_same(&before, &self.vm, &[]) {
                obs.violation("a refused setup instruction has an effect", &format!("{}: account {}", why, key));
            }
            return;
        }
        let mut changed: Vec<Pubkey> = vec![];
        let mut paid = 0;
        match effect {
            Effect::None => {}
            Effect::Governor => {
                paid += self.opened(obs, &before, &k().governor, GovernorAccount::SIZE, &why, |d| {
                    let mut g = GovernorAccount::new(d).unwrap();
                    let seen = (g.get_fee_version(), g.get_commitment_batching_rate(), fee_bytes(&g.get_program_fee()));
                    g.set_commitment_batching_rate(&0);
                    seen == (0, elusiv::commitment::DEFAULT_COMMITMENT_BATCHING_RATE as u32, vec![0; 64])
                });
                changed.push(k().governor);
                self.m.governor = true;
            }
            Effect::Open(list, ptr) => {
                for (key, size) in &list {
                    paid += self.opened(obs, &before, key, *size, &why, |d| {
                        if *key != k().metadata {
                            return true;
                        }
                        let mut a = MetadataAccount::new(d).unwrap();
                        let ok = a.get_next_metadata_ptr() == ptr;
                        a.set_next_metadata_ptr(&0);
                        ok
                    });
                    changed.push(*key);
                }
            }
            Effect::Bind(kind, i, child) => {
                let p = parent(kind);
                let (a, b) = (before.get(&p), self.vm.get(&p));
                let at: Vec<usize> = a.data.iter().zip(b.data.iter()).enumerate().filter(|(_, (x, y))| x != y).map(|(i, _)| i).collect();
                let span = at.last().map_or(0, |l| l - at[0] + 1);
                obs.ensure(a.data.len() == b.data.len() && span <= 33 && !at.is_empty(), "binding a segment changes more than its slot", || format!("{}: bytes {:?} to {:?}", why, at.first(), at.last()));
                obs.ensure((a.lamports, a.owner) == (b.lamports, b.owner), "binding a segment changes the parent's balance", || why.clone());
                self.slots(kind).unwrap()[i] = Some(child);
                let want = self.slots(kind).unwrap().clone();
                obs.ensure(slots_of(&self.vm, kind) == want, "the wrong slot is bound", || format!("{}: {:?} instead of {:?}", why, slots_of(&self.vm, kind), want));
                let (a, b) = (before.get(&child), self.vm.get(&child));
                obs.ensure((a.lamports, a.owner, a.data.len()) == (b.lamports, b.owner, b.data.len()) && b.data[0] == 1, "a bound segment is not marked as in use", || why.clone());
                match kind {
                    Kind::Nullifier(t) => {
                        // usable as an empty set
                        let mut d = b.data[1..].to_vec();
                        let mut map = NullifierMap::new(&mut d);
                        let mut seen = BTreeSet::new();
                        let mut ok = map.is_empty() && !map.is_full();
                        for j in 0..8u64 {
                            let v = [(j * 37 % 8 * 16 + 1) as u8; 32];
                            ok &= map.contains(&OrdU256(v)).is_none() && matches!(map.try_insert_default(OrdU256(v)), Ok(None));
                            seen.insert(v);
                            ok &= seen.iter().all(|v| map.contains(&OrdU256(*v)).is_some());
                        }
                        obs.ensure(ok, "a bound segment does not start empty", || format!("{} tree {}", why, t));
                    }
                    _ => {
                        obs.ensure(a.data[1..] == b.data[1..], "binding a segment changes its content", || why.clone());
                    }
                }
                changed.extend([p, child]);
                obs.inc("segments_bound");
            }
            Effect::Fee(v, f) => {
                paid += self.opened(obs, &before, &fee_key(v), FeeAccount::SIZE, &why, |d| {
                    let mut a = FeeAccount::new(d).unwrap();
                    let ok = fee_bytes(&a.get_program_fee()) == f.encode();
                    a.set_program_fee(&zero_fee());
                    ok
                });
                let mut want = (*before.data(&k().governor)).clone();
                let mut g = GovernorAccount::new(&mut want).unwrap();
                g.set_program_fee(&program_fee(&f));
                obs.ensure(*self.vm.data(&k().governor) == want, "the governor does not have the new fees", || why.clone());
                let g = self.vm.get(&k().governor);
                obs.ensure(g.lamports == before.get(&k().governor).lamports && g.owner == pid(), "the governor's account", || why.clone());
                changed.extend([fee_key(v), k().governor]);
                self.m.fees.insert(v, f);
            }
        }
        if let Some((p, _)) = payer_ {
            let (a, b) = (before.get(&p), self.vm.get(&p));
            obs.ensure(a.lamports - b.lamports == paid && a.data == b.data && a.owner == b.owner, "the payer pays something else than the rent", || format!("{}: {} instead of {}", why, a.lamports - b.lamports, paid));
            changed.push(p);
        }
        if let Some(key) = ledger_same(&before, &self.vm, &changed) {
            obs.violation("a setup instruction changes another account", &format!("{}: account {}", why, key));
        }
        self.whole(obs, &why);
    }
    /// a freshly opened account; `f` judges and clears the fields that are not zero
    fn opened(&self, obs: &mut Obs, before: &Vm, key: &Pubkey, size: usize, why: &str, f: impl FnOnce(&mut [u8]) -> bool) -> u64 {
        let a = self.vm.get(key);
        obs.inc("accounts_opened");
        let rent = minivm_rent(size);
        if before.accounts.get(key).is_some_and(|a| a.lamports > 0) {
            obs.violation("an existing account is opened", &format!("{}: {}", why, key));
            return rent;
        }
        if a.data.len() != size || a.owner != pid() || a.lamports != rent || a.executable {
            obs.violation("a new account has the wrong size, owner or balance", &format!("{}: {} has {} bytes instead of {}, owner {}, {} lamports", why, key, a.data.len(), size, a.owner, a.lamports));
            return rent;
        }
        let mut d = (*a.data).clone();
        let ok = f(&mut d);
        obs.ensure(ok, "initial values", || format!("{}: {}", why, key));
        obs.ensure(d[0] == bump(key) && d[1..].iter().all(|x| *x == 0), "a new account is not empty", || format!("{}: {} {:?}", why, key, d.iter().enumerate().filter(|x| *x.1 != 0).take(8).collect::<Vec<_>>()));
        rent
    }
    /// what was set up stays as it is
    fn whole(&self, obs: &mut Obs, why: &str) {
        let m = &self.m;
        for (v, f) in &m.fees {
            let mut d = (*self.vm.data(&fee_key(*v))).clone();
            let a = FeeAccount::new(&mut d).unwrap();
            obs.ensure(fee_bytes(&a.get_program_fee()) == f.encode(), "a fee version has changed", || format!("{}: {}", why, v));
        }
        if m.governor {
            let mut d = (*self.vm.data(&k().governor)).clone();
            let g = GovernorAccount::new(&mut d).unwrap();
            let now = m.fees.get(&m.version).or(m.fees.iter().next_back().map(|x| x.1));
            obs.ensure(g.get_fee_version() == m.version, "the governor's version", || why.to_string());
            if let Some(f) = now {
                obs.ensure(fee_bytes(&g.get_program_fee()) == f.encode(), "the governor's fees", || why.to_string());
            }
        }
        let mut kinds: Vec<Kind> = m.trees.keys().map(|t| Kind::Nullifier(*t)).collect();
        if m.singles {
            kinds.push(Kind::Storage);
        }
        if m.v1 {
            kinds.push(Kind::Metadata);
        }
        let mut bound = BTreeSet::new();
        for kind in kinds {
            let want = match kind {
                Kind::Storage => &m.storage,
                Kind::Metadata => &m.metadata,
                Kind::Nullifier(t) => &m.trees[&t],
            };
            obs.ensure(slots_of(&self.vm, kind) == *want, "a bound segment is replaced", || format!("{}: {:?}", why, kind));
            for c in want.iter().flatten() {
                obs.ensure(bound.insert(*c), "a segment is bound twice", || format!("{}: {}", why, c));
            }
        }
        obs.inc("setups_compared");
    }
    fn candidate(&mut self, r: &mut StdRng, kind: Kind, good: bool) -> (Pubkey, bool, &'static str) {
        self.n += 1;
        let key = key_n("candidate", self.seed.wrapping_mul(1_000_003).wrapping_add(self.n));
        let size = size_of(kind);
        let rent = minivm_rent(size);
        // (the runtime only lets a program own data that started as zero)
        let put = |vm: &mut Vm, n: usize, first: u8, lamports: u64, owner: Pubkey| {
            let data = if first == 0 { zeros(n) } else { let mut d = vec![0; n]; d[0] = first; Arc::new(d) };
            vm.set(key, Acc { lamports, data, owner, executable: false })
        };
        if good {
            let dirty = r.gen_bool(0.1);
            if dirty {
                let mut d = vec![r.gen(); size];
                d[0] = 0;
                for _ in 0..64 {
                    d[r.gen_range(1..400)] = r.gen();
                }
                self.vm.set(key, Acc { lamports: rent, data: Arc::new(d), owner: pid(), executable: false });
            } else {
                put(&mut self.vm, size, 0, if r.gen() { rent } else { rent + r.gen_range(0..1 << 40) }, pid());
            }
            self.made.push(key);
            return (key, true, if dirty { "used content" } else { "fresh" });
        }
        let bound: Vec<Pubkey> = self.m.storage.iter().chain(&self.m.metadata).chain(self.m.trees.values().flatten()).flatten().copied().collect();
        match r.gen_range(0..9) {
            0 => put(&mut self.vm, size - 1, 0, rent, pid()),
            1 => put(&mut self.vm, size + 1, 0, rent + (1 << 30), pid()),
            2 => put(&mut self.vm, size, 1, rent, pid()),
            3 => put(&mut self.vm, size, *[2u8, 3, 128, 255].choose(r).unwrap(), rent, pid()),
            4 => put(&mut self.vm, size, 0, rent, *[system_program::ID, spl_token::ID, key_n("owner", 1), k().governor].choose(r).unwrap()),
            5 => put(&mut self.vm, size, 0, rent - 1, pid()),
            6 => {
                let other = *[Kind::Storage, Kind::Metadata, Kind::Nullifier(0)].iter().find(|x| size_of(**x) != size).unwrap();
                let n = size_of(other);
                put(&mut self.vm, n, 0, minivm_rent(n.max(size)), pid())
            }
            7 => put(&mut self.vm, *[0usize, 1, 33].choose(r).unwrap(), 0, rent, pid()),
            _ => {
                // bound to something already, or the parent itself
                let c = bound.choose(r).copied().unwrap_or(parent(kind));
                return (c, false, "in use");
            }
        }
        (key, false, "unfit")
    }
    /// a payer that can or cannot pay `cost`
    fn payer(&mut self, r: &mut StdRng, cost: u64) -> (Pubkey, bool) {
        match r.gen_range(0..10) {
            0 => {
                let p = key_n("poor", 1);
                self.vm.set(p, Acc::new(cost - 1, vec![], system_program::ID));
                (p, false)
            }
            1 => {
                let p = key_n("exact", 1);
                self.vm.set(p, Acc::new(cost, vec![], system_program::ID));
                (p, true)
            }
            _ => (payer(r.gen_range(0..3)), true),
        }
    }
}
fn program_fee(f: &Fee) -> elusiv::state::fee::ProgramFee {
    borsh::BorshDeserialize::try_from_slice(&f.encode()).unwrap()
}
fn zero_fee() -> elusiv::state::fee::ProgramFee {
    borsh::BorshDeserialize::try_from_slice(&[0; 64]).unwrap()
}
/// Damages an instruction in a way that has to be refused
fn spoil(r: &mut StdRng, vm: &mut Vm, i: &mut Instruction) -> &'static str {
    let n = i.accounts.len();
    match r.gen_range(0..7) {
        0 => {
            if !i.accounts.iter().any(|a| a.is_signer) {
                i.accounts.pop();
                return "missing account";
            }
            i.accounts.iter_mut().for_each(|a| a.is_signer = false);
            "unsigned"
        }
        1 => {
            let a = r.gen_range(0..n);
            if a == 0 && i.accounts[a].is_signer {
                i.accounts.pop();
                return "missing account";
            }
            // a lookalike under another address
            let key = key_n("lookalike", r.gen_range(0..9));
            let x = vm.get(&i.accounts[a].pubkey);
            if i.accounts[a].pubkey == parent_of_children(i) {
                vm.set(key, x);
                i.accounts[a].pubkey = key;
                return "lookalike of the parent";
            }
            if is_segment(i, a) {
                i.accounts.pop();
                return "missing account";
            }
            vm.set(key, x);
            i.accounts[a].pubkey = key;
            "lookalike"
        }
        2 => {
            i.accounts.pop();
            "missing account"
        }
        3 => {
            let a = r.gen_range(0..n);
            if is_segment(i, a) || !i.accounts[a].is_writable || i.accounts[a].pubkey == k().cq {
                i.accounts.pop();
                return "missing account";
            }
            i.accounts[a].is_writable = false;
            "not writable"
        }
        4 | 5 => {
            i.data.pop();
            "truncated"
        }
        _ => {
            // two accounts swapped
            let (a, b) = (r.gen_range(0..n), r.gen_range(0..n));
            if a == b {
                i.accounts.remove(0);
                return "missing account";
            }
            let (x, y) = (i.accounts[a].pubkey, i.accounts[b].pubkey);
            i.accounts[a].pubkey = y;
            i.accounts[b].pubkey = x;
            "swapped accounts"
        }
    }
}
fn parent_of_children(i: &Instruction) -> Pubkey {
    if (25..=27).contains(&i.data[0]) { i.accounts[0].pubkey } else { Pubkey::default() }
}
fn is_segment(i: &Instruction, a: usize) -> bool {
    (25..=27).contains(&i.data[0]) && a == 1
}

fn setup_history(seed: u64, turns: usize, obs: &mut Obs) {
    let mut r = StdRng::seed_from_u64(seed);
    let mut w = World::new(seed);
    let order = r.gen_range(0..3);
    let mut ptr = 0u32;
    for turn in 0..turns {
        if !obs.violations.is_empty() {
            return;
        }
        let (mut tx, mut want, mut what, mut how, mut payer_, mut effect): (Instruction, bool, &str, String, Option<(Pubkey, u64)>, Effect);
        how = String::new();
        payer_ = None;
        let sum = |l: &[(Pubkey, usize)]| l.iter().map(|x| minivm_rent(x.1)).sum::<u64>();
        // the parents exist most of the time, segments come in masses
        let pick = if turn < 3 && order > 0 { [0, 1, 3, 5][turn % 4] * 10 } else { r.gen_range(0..200) };
        match pick {
            0..=9 => {
                let cost = minivm_rent(GovernorAccount::SIZE);
                let (p, rich) = w.payer(&mut r, cost);
                (tx, want, what, effect) = (ix_governor(p), rich && !w.m.governor, "SetupGovernorAccount", Effect::Governor);
                payer_ = Some((p, cost));
            }
            10..=19 => {
                let cost = sum(&singles());
                let (p, rich) = w.payer(&mut r, cost);
                (tx, want, what, effect) = (ix_open_singles(p), rich && !w.m.singles, "OpenSingleInstanceAccounts", Effect::Open(singles(), 0));
                payer_ = Some((p, cost));
            }
            20..=34 => {
                let v = if r.gen_bool(0.5) { w.m.version } else { *VERSIONS.choose(&mut r).unwrap() };
                let f = fee(&mut r);
                let cost = minivm_rent(FeeAccount::SIZE);
                let (p, rich) = w.payer(&mut r, cost);
                let ok = w.m.governor && v == w.m.version && !w.m.fees.contains_key(&v) && valid(&f) && rich;
                how = format!("valid {} current {}", valid(&f), v == w.m.version);
                (tx, want, what, effect) = (ix_fee_version(p, v, &f), ok, "InitNewFeeVersion", Effect::Fee(v, f));
                payer_ = Some((p, cost));
            }
            35..=44 => {
                let cost = sum(&later());
                let (p, rich) = w.payer(&mut r, cost);
                let mut quiet = true;
                if w.m.singles && !w.m.v1 {
                    // a deployed program in use
                    ptr = *[0, 1, 5, 65_535, 65_536, TREE_LEAVES].choose(&mut r).unwrap();
                    StorageAccount::new(w.vm.data_mut(&k().storage)).unwrap().set_next_commitment_ptr(&ptr);
                    let (active, queued) = (r.gen_bool(0.25), r.gen_bool(0.25));
                    CommitmentHashingAccount::new(w.vm.data_mut(&k().mth)).unwrap().set_is_active(&active);
                    let mut a = CommitmentQueueAccount::new(w.vm.data_mut(&k().cq)).unwrap();
                    let mut q = CommitmentQueue::new(&mut a);
                    let _ = if queued && q.is_empty() {
                        q.enqueue(CommitmentHashRequest { commitment: [1; 32], fee_version: 0, min_batching_rate: 0 })
                    } else if !queued && !q.is_empty() {
                        q.dequeue_first().map(|_| ())
                    } else {
                        Ok(())
                    };
                    quiet = !active && !queued;
                }
                how = format!("quiet {}", quiet);
                (tx, want, what, effect) = (ix_v1(p), rich && quiet && w.m.singles && !w.m.v1, "CreateNewAccountsV1", Effect::Open(later(), ptr));
                payer_ = Some((p, cost));
            }
            45..=59 => {
                let t = *TREES.choose(&mut r).unwrap();
                let cost = minivm_rent(NullifierAccount::SIZE);
                let (p, rich) = w.payer(&mut r, cost);
                (tx, want, what, effect) = (ix_open_nullifier(p, t), rich && !w.m.trees.contains_key(&t), "OpenNullifierAccount", Effect::Open(vec![(null_key(t), NullifierAccount::SIZE)], 0));
                payer_ = Some((p, cost));
            }
            60..=64 => {
                let who = *[payer(0), user(0), k().governor, payer(1)].choose(&mut r).unwrap();
                let x = *[k().governor, k().pool, k().storage, fee_key(0), null_key(0), k().cq].choose(&mut r).unwrap();
                let foreign = r.gen_bool(0.5);
                tx = if foreign {
                    // closing takes the program's own key
                    let claimed = r.gen_bool(0.5);
                    let mut a = vec![s(who), wr(user(1)), wr(x), ro(system_program::ID)];
                    if claimed {
                        a[0] = ro(pid());
                    }
                    ix(Enc::new(31), a)
                } else {
                    ix(Enc::new(29).u32(r.gen_range(0..3)).u32(r.gen_range(0..5)), vec![s(who), wr(k().governor), ro(k().cq)])
                };
                (want, what, effect) = (false, if foreign { "CloseProgramAccount" } else { "UpgradeGovernorState" }, Effect::None);
            }
            _ => {
                let kind = match r.gen_range(0..10) {
                    0..=2 => Kind::Storage,
                    3..=5 => Kind::Metadata,
                    _ => Kind::Nullifier(if r.gen_bool(0.8) { *w.m.trees.keys().collect::<Vec<_>>().choose(&mut r).map_or(&&0, |t| t) } else { &TREES[r.gen_range(0..7)] }.to_owned()),
                };
                let count = if kind == Kind::Storage { 25 } else { 16 };
                let free: Vec<usize> = w.slots(kind).map_or(vec![], |s| (0..count).filter(|i| s[*i].is_none()).collect());
                let i = match r.gen_range(0..20) {
                    0 => *[count as u32, count as u32 + 1, 255, 256, 1 << 16, u32::MAX].choose(&mut r).unwrap(),
                    1..=4 => r.gen_range(0..count as u32),
                    _ => free.choose(&mut r).map_or(0, |x| *x as u32),
                };
                let good = r.gen_bool(0.7);
                let (child, fit, cond) = w.candidate(&mut r, kind, good);
                let free = free.contains(&(i as usize));
                how = format!("{} free {}", cond, free);
                tx = match kind {
                    Kind::Storage => ix_enable_storage(i, child),
                    Kind::Metadata => ix_enable_metadata(i, child),
                    Kind::Nullifier(t) => ix_enable_nullifier(t, i, child),
                };
                (want, what, effect) = (fit && free, match kind {
                    Kind::Storage => "EnableStorageChildAccount",
                    Kind::Metadata => "EnableMetadataChildAccount",
                    Kind::Nullifier(_) => "EnableNullifierChildAccount",
                }, Effect::Bind(kind, i as usize, child));
                obs.inc(&format!("segment {}", cond));
            }
        }
        let mut txs = vec![tx.clone()];
        match r.gen_range(0..12) {
            0 => {
                how = spoil(&mut r, &mut w.vm, &mut tx).to_string();
                obs.inc("spoiled_instructions");
                txs = vec![tx];
                want = false;
            }
            1 if what != "UpgradeGovernorState" => {
                // twice in one transaction
                txs = vec![tx.clone(), tx];
                how = format!("twice, {}", how);
                want = false;
            }
            _ => {}
        }
        let opened = matches!(&effect, Effect::Open(..)) && want;
        w.step(obs, what, &how, &txs, want, payer_, effect);
        if opened && obs.violations.is_empty() {
            match what {
                "OpenSingleInstanceAccounts" => w.m.singles = true,
                "CreateNewAccountsV1" => w.m.v1 = true,
                _ => {
                    let t = u32::from_le_bytes(txs[0].data[1..5].try_into().unwrap());
                    w.m.trees.insert(t, vec![None; 16]);
                }
            }
        }
        // what a later release could do: the next version becomes current
        if w.m.governor && w.m.fees.contains_key(&w.m.version) && w.m.version < 2 && r.gen_bool(0.02) {
            w.m.version += 1;
            GovernorAccount::new(w.vm.data_mut(&k().governor)).unwrap().set_fee_version(&w.m.version);
            obs.inc("versions_raised");
        }
    }
    obs.inc("setup_histories");
}
fn wr(p: Pubkey) -> solana_program::instruction::AccountMeta {
    solana_program::instruction::AccountMeta::new(p, false)
}
/// every order of the setup leads to the same state, and nothing can be set up again
fn orders(seed: u64, obs: &mut Obs) {
    let mut r = StdRng::seed_from_u64(seed);
    let trees = r.gen_range(1..3);
    let f = fee_schedule(r.gen_range(0..5));
    let mut want = empty_vm();
    setup(&mut want, &f, trees, 0).expect("setup");
    let mut vm = empty_vm();
    let p = payer(r.gen_range(0..3));
    // (instruction, what has to come first)
    let mut todo: Vec<(Instruction, Vec<usize>)> = vec![(ix_governor(p), vec![]), (ix_open_singles(p), vec![]), (ix_fee_version(p, 0, &f), vec![0]), (ix_v1(p), vec![1])];
    for i in 0..25 {
        put_child(&mut vm, k().storage_children[i], STORAGE_CHILD);
        todo.push((ix_enable_storage(i as u32, k().storage_children[i]), vec![1]));
    }
    for i in 0..16 {
        put_child(&mut vm, k().metadata_children[i], METADATA_CHILD);
        todo.push((ix_enable_metadata(i as u32, k().metadata_children[i]), vec![3]));
    }
    for t in 0..trees {
        let o = todo.len();
        todo.push((ix_open_nullifier(p, t), vec![]));
        for i in 0..16 {
            put_child(&mut vm, null_child(t, i), NULL_CHILD);
            todo.push((ix_enable_nullifier(t, i as u32, null_child(t, i)), vec![o]));
        }
    }
    let mut left: Vec<usize> = (0..todo.len()).collect();
    let mut done = BTreeSet::new();
    while !left.is_empty() {
        let at = r.gen_range(0..left.len());
        let i = left[at];
        let ready = todo[i].1.iter().all(|x| done.contains(x));
        let before = vm.clone();
        let res = catch(|| vm.one(&todo[i].0));
        obs.inc("ordered_instructions");
        let ok = matches!(res, Ok(Ok(())));
        if ok != ready {
            return obs.violation("order of the setup", &format!("instruction {:?} accepted {} although ready {}: {:?}", todo[i].0.data, ok, ready, res));
        }
        if ok {
            done.insert(i);
            left.swap_remove(at);
            // not again
            if r.gen_bool(0.3) {
                let j = *done.iter().collect::<Vec<_>>()[r.gen_range(0..done.len())];
                let b = vm.clone();
                obs.inc("repeated_instructions");
                if matches!(catch(|| vm.one(&todo[j].0)), Ok(Ok(()))) || ledger_same(&b, &vm, &[]).is_some() {
                    return obs.violation("a setup instruction is repeated", &format!("{:?}", todo[j].0.data));
                }
            }
        } else if let Some(key) = ledger_same(&before, &vm, &[]) {
            return obs.violation("a refused setup instruction has an effect", &format!("{:?}: {}", todo[i].0.data, key));
        }
    }
    obs.inc("setup_orders");
    for (key, a) in &want.accounts {
        // (the harness gives its fee collector a balance)
        let mut b = vm.get(key);
        if *key == k().collector {
            b.lamports = a.lamports;
        }
        if a.owner == pid() && !a.same(&b) {
            return obs.violation("another order of the setup has another result", &format!("account {}", key));
        }
    }
    obs.case(&("orders", trees));
}
pub fn a02(run: &Run) -> (Obs, Vec<String>) {
    init_runtime();
    let plan = Plan {
        cfg: Cfg { mutate: 0.3, deposit: 20, base: 20, mt: 20, start: 20, send: 20, misc: 30, price: 1, indices: 60, ..Cfg::default() },
        turns: 250,
        min_worlds: 16,
        ..Plan::default()
    };
    let budget = run.budget(24, 700);
    run.parallel(8, |lane, obs| {
        let (mut n, mut i) = (lane, 0u64);
        while i < 6 || run.left(budget) {
            let seed = run.seed.wrapping_mul(86_028_121).wrapping_add(lane + 8 * i);
            setup_history(seed, 400, obs);
            if i % 2 == 0 {
                orders(seed, obs);
            }
            if n < plan.min_worlds || i % 4 == 0 {
                history("A02", &plan, run.seed.wrapping_mul(1_000_003).wrapping_add(n), n, obs);
                n += 8;
            }
            i += 1;
            if obs.violations.len() >= 3 {
                break;
            }
        }
    })
}
