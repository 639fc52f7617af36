//! The agents: honest users, payers and cranks, and everybody else.
use crate::engine::*;
use crate::env::*;
use crate::groth;
use crate::refm::*;
use crate::spec::*;
use ark_bn254::Fr;
use ark_ff::UniformRand;
use minivm::report::Obs;
use minivm::*;
use rand::{rngs::StdRng, seq::SliceRandom, Rng, SeedableRng};
use solana_program::{instruction::Instruction, pubkey::Pubkey, system_instruction, system_program};
use std::collections::{HashMap, VecDeque};
use std::sync::{Mutex, OnceLock};

#[derive(Clone)]
pub struct Pending {
    pub x: SendExtra,
    pub wallet: Pubkey,
    pub target: Pubkey,
    pub proof: Vec<u8>,
    pub valid: bool,
    pub real: bool,
    pub payer: Pubkey,
    pub vi: u8,
}
#[derive(Clone)]
pub struct Cfg {
    pub mutate: f64,
    pub deposit: u32,
    pub base: u32,
    pub mt: u32,
    pub start: u32,
    pub send: u32,
    pub price: u32,
    pub misc: u32,
    /// share of sends whose proof is really verified step by step
    pub real: f64,
    pub invalid: f64,
    /// share of requests for sends that are hostile
    pub evil_send: f64,
    /// highest verification index used
    pub indices: u8,
    /// share of deposits that are hostile
    pub evil_deposit: f64,
    /// share of finalizations that are hostile
    pub evil_final: f64,
    /// share of sends that use nullifiers seen before
    pub reuse: f64,
    /// share of sends around the minimal fee
    pub fee_edge: f64,
}
impl Default for Cfg {
    fn default() -> Self {
        Cfg { mutate: 0.35, deposit: 12, base: 16, mt: 18, start: 10, send: 40, price: 2, misc: 2, real: 0.0, invalid: 0.15, evil_send: 0.1, indices: 4, evil_deposit: 0.1, evil_final: 0.1, reuse: 0.1, fee_edge: 0.0 }
    }
}
pub struct Play {
    pub w: World,
    pub r: StdRng,
    pub pend: HashMap<Pubkey, Pending>,
    pub cfg: Cfg,
    pub history: VecDeque<Vec<Instruction>>,
    pub spent: Vec<U256>,
    /// nullifiers are drawn close to those of a crowd of this size
    pub place: usize,
    pub tokens: Vec<u16>,
    slots: (Vec<u32>, Vec<u8>),
}
pub fn fr(r: &mut StdRng) -> Fr {
    Fr::rand(r)
}
pub fn rkey(r: &mut StdRng) -> Pubkey {
    Pubkey::new_from_array(r.gen())
}
pub fn rmeta(r: &mut StdRng) -> Meta {
    r.gen()
}
pub fn modulus() -> [u64; 4] {
    use ark_ff::FpParameters;
    ark_bn254::FrParameters::MODULUS.0
}
/// v + n (the same residue, not canonical)
pub fn plus_modulus(v: &U256) -> Option<U256> {
    let (a, n) = (limbs(v), modulus());
    let mut o = [0u8; 32];
    let mut c = 0u128;
    for i in 0..4 {
        let s = a[i] as u128 + n[i] as u128 + c;
        o[i * 8..i * 8 + 8].copy_from_slice(&(s as u64).to_le_bytes());
        c = s >> 64;
    }
    (c == 0).then_some(o)
}

/// the numbers of the deposits' and the sends' accounts: small ones, or any, some of which differ in a single bit
fn slots(seed: u64) -> (Vec<u32>, Vec<u8>) {
    let mut r = StdRng::seed_from_u64(seed ^ 0x510);
    let (mut a, mut b): (Vec<u32>, Vec<u8>) = ((0..6).collect(), (0..=128).collect());
    if r.gen_bool(0.7) {
        a = vec![r.gen()];
        while a.len() < 6 {
            let x = match r.gen_range(0..4) {
                0 => u32::MAX - r.gen_range(0..2),
                1 => r.gen(),
                _ => a[0] ^ (1 << r.gen_range(0..32)),
            };
            if !a.contains(&x) {
                a.push(x);
            }
        }
        b.shuffle(&mut r);
        if r.gen_bool(0.3) {
            b.swap_remove(b.iter().position(|x| *x == 128).unwrap());
            b.insert(r.gen_range(0..3), 128);
        }
        let near = b[0] ^ (1 << r.gen_range(0..8));
        if let Some(i) = b.iter().position(|x| *x == near) {
            b.swap(1, i);
        }
    }
    (a, b)
}

/// the payout of a send, to the account its fees were paid from
pub fn pay_ix(v: &Ver, recipient: Pubkey, wallet_: Pubkey) -> Instruction {
    if v.req.token == 0 {
        return ix_fin_lamports(v.payer, v.vi, &v.req, recipient);
    }
    let mut ix = ix_fin_token(v.payer, v.vi, &v.req, recipient, wallet_);
    if v.other.payer_account != Pubkey::default() {
        ix.accounts[1].pubkey = v.other.payer_account;
    }
    ix
}
impl Play {
    pub fn new(world: World, seed: u64, cfg: Cfg) -> Self {
        Play { w: world, r: StdRng::seed_from_u64(seed), pend: HashMap::new(), cfg, history: VecDeque::new(), spent: vec![], place: 0, tokens: (0..TOKENS).collect(), slots: slots(seed) }
    }
    pub fn pick<T: Clone>(&mut self, v: &[T]) -> T {
        v.choose(&mut self.r).unwrap().clone()
    }
    pub fn token(&mut self) -> u16 {
        if self.r.gen_bool(0.45) {
            0
        } else {
            let t = self.tokens.clone();
            self.pick(&t)
        }
    }
    pub fn who(&mut self) -> Pubkey {
        if self.r.gen_bool(0.7) { user(self.r.gen_range(0..USERS)) } else { payer(self.r.gen_range(0..PAYERS)) }
    }
    pub fn a_payer(&mut self) -> Pubkey {
        payer(self.r.gen_range(0..PAYERS))
    }
    pub fn amount(&mut self, t: u16) -> u64 {
        let x = tok(t);
        match self.r.gen_range(0..10) {
            0 => x.min,
            1 => x.max,
            2 => x.min + self.r.gen_range(0..3),
            3..=5 => self.r.gen_range(x.min..=x.max.min(x.min.saturating_mul(1000).max(x.min + 1))),
            _ => self.r.gen_range(x.min..=x.max),
        }
    }
    pub fn recent(&mut self) -> u32 {
        let p = self.w.m.ptr;
        if self.r.gen_bool(0.7) { p } else { p - self.r.gen_range(0..=p.min(127)) }
    }
    pub fn base_req(&mut self) -> BaseReq {
        let t = self.token();
        let b = fr(&mut self.r);
        let amount = self.amount(t);
        let recent = self.recent();
        BaseReq { base: raw(&b), recent, amount, token: t, commitment: raw(&commitment_of(b, amount, t, recent)), fee_version: self.w.m.fee_version, rate: self.w.m.rate }
    }
    /// somebody sends lamports to the address of an account that is about to be opened
    pub fn prefund(&mut self, obs: &mut Obs, key: &Pubkey) {
        if !self.r.gen_bool(0.06) || self.w.vm.lamports(key) > 0 {
            return;
        }
        let from = user(self.r.gen_range(0..USERS));
        let amount = self.pick(&[890_880, 890_881, 1_000_000, 3_000_000, 30_000_000, 1 << 30]);
        if self.w.step_as(obs, &[system_instruction::transfer(&from, key, amount)], false) {
            obs.inc("addresses_funded_beforehand");
        }
    }
    /// sometimes a participant uses another of its token accounts
    pub fn other_wallets(&mut self, ix: &mut Instruction, token: u16) {
        let pairs: &[(usize, usize)] = if ix.data[0] == 0 { &[(0, 1), (2, 3)] } else { &[(0, 1)] };
        for (who, acc) in pairs {
            if token > 0 && token < TOKENS && self.r.gen_bool(0.12) {
                ix.accounts[*acc].pubkey = wallet2(&ix.accounts[*who].pubkey, token);
            }
        }
    }
    fn fee_ix(&mut self, payer: Pubkey, vi: u8, token: u16) -> Instruction {
        let mut ix = ix_transfer_fee(payer, vi, token);
        self.other_wallets(&mut ix, token);
        ix
    }
    pub fn free_base(&mut self) -> Option<u32> {
        let m = &self.w.m;
        let f: Vec<u32> = self.slots.0.iter().copied().filter(|i| !m.base.contains_key(&base_key(*i).0)).collect();
        f.choose(&mut self.r).copied()
    }
    pub fn tx_deposit(&mut self, obs: &mut Obs) -> Option<Vec<Instruction>> {
        let i = self.free_base()?;
        self.prefund(obs, &base_key(i).0);
        let (s, p) = (self.who(), self.a_payer());
        let req = self.base_req();
        let meta = rmeta(&mut self.r);
        let mut ix = ix_store(s, p, i, &req, &meta);
        self.other_wallets(&mut ix, req.token);
        Some(vec![ix])
    }
    pub fn tx_base(&mut self) -> Option<Vec<Instruction>> {
        let mut v: Vec<Base> = self.w.m.base.values().cloned().collect();
        v.sort_by_key(|b| b.idx);
        let b = v.choose(&mut self.r)?.clone();
        Some(if b.instr < 2 {
            let n = self.r.gen_range(1..=2 - b.instr);
            (0..n).map(|_| ix_base_compute(b.idx)).collect()
        } else {
            vec![ix_base_finalize(b.payer, b.idx, b.req.fee_version)]
        })
    }
    pub fn tx_mt(&mut self) -> Option<Vec<Instruction>> {
        let m = self.w.m.mth.clone();
        let ptr = self.w.m.ptr;
        let p = self.who();
        if !m.active && self.w.m.full() == Some(true) && self.w.m.nulls.contains_key(&self.w.m.trees_count) && self.r.gen_bool(0.8) {
            let mut ch = vec![0];
            if self.r.gen_bool(0.3) {
                ch.push(24);
            }
            return Some(vec![ix_reset_tree(self.w.m.trees_count, &ch)]);
        }
        if !m.active {
            let meta: Vec<usize> = (0..16).filter(|i| *i == (ptr / 65_536) as usize || *i == ((ptr + 15) / 65_536) as usize).collect();
            let ch = path_children(ptr.min(TREE_LEAVES - 1), 1);
            if !m.setup {
                let mut v = vec![ix_mt_setup(self.r.gen(), &ch)];
                if self.r.gen_bool(0.5) {
                    v.push(ix_mt_init(self.r.gen(), &meta));
                }
                return Some(v);
            }
            self.w.m.next_batch()?;
            return Some(vec![ix_mt_init(self.r.gen(), &meta)]);
        }
        let left = HASH_IXS[m.rate as usize] as u32 - m.instr.min(HASH_IXS[m.rate as usize] as u32);
        if left > 0 {
            let n = if self.r.gen_bool(0.2) { self.r.gen_range(1..=left) } else { left };
            let nonce: u32 = self.r.gen();
            return Some((0..n).map(|i| ix_mt_compute(p, m.fee_version, nonce.wrapping_add(i))).collect());
        }
        let left = m.rate + 1 - m.fin;
        let ch = path_children(m.ordering, 1 << m.rate);
        Some((0..left).map(|_| ix_mt_finalize(&ch)).collect())
    }
    /// available notes of a token that are not claimed by running sends
    pub fn free_notes(&self, t: u16) -> u128 {
        let used: u128 = self.w.m.ver.values().filter(|v| v.req.token == t && v.state != St::Closed).map(|v| v.req.amount as u128 + v.req.fee as u128).sum();
        self.w.m.notes[t as usize].saturating_sub(used)
    }
    pub fn fresh_nullifier(&mut self) -> U256 {
        if self.place > 0 && self.r.gen_bool(0.6) {
            // every segment is as likely, those close to a border more so
            let n = self.place;
            let i = if self.r.gen_bool(0.3) { (self.r.gen_range(0..=n / 65_536) * 65_536 + self.r.gen_range(0..3)).clamp(1, n) } else { self.r.gen_range(1..=n) };
            let mut v = crate::refm::spread(i, n + 1);
            v[1] = self.r.gen();
            return crate::refm::of(&v);
        }
        raw(&fr(&mut self.r))
    }
    /// a well-formed send
    pub fn send(&mut self) -> Option<(SendReq, Pending)> {
        let funded: Vec<u16> = (0..TOKENS).filter(|t| self.free_notes(*t) > 0).collect();
        let t = *funded.choose(&mut self.r)?;
        let notes = self.free_notes(t).min(u64::MAX as u128) as u64;
        let m = &self.w.m;
        let closed = m.trees_count > 0 && self.r.gen_bool(0.5);
        let root = if closed {
            let n = &m.nulls[&(m.trees_count - 1)];
            raw(&from_mr(&n.root))
        } else {
            let rs: Vec<U256> = m.roots.iter().copied().collect();
            raw(&from_mr(rs.choose(&mut self.r)?))
        };
        let tree = if closed { self.w.m.trees_count - 1 } else { self.w.m.trees_count };
        if !self.w.m.nulls.contains_key(&tree) {
            return None;
        }
        let n = self.r.gen_range(1..=4);
        let mut inputs = vec![];
        for i in 0..n {
            let mut nl = self.fresh_nullifier();
            if self.cfg.reuse > 0.0 && self.r.gen_bool(self.cfg.reuse) && !self.spent.is_empty() {
                let at = self.r.gen_range(0..self.spent.len());
                nl = self.spent[at];
            }
            if self.spent.len() < 40 {
                self.spent.push(nl);
            } else {
                let at = self.r.gen_range(0..40);
                self.spent[at] = nl;
            }
            inputs.push((if i == 0 { Some(root) } else { None }, nl));
        }
        if self.cfg.reuse > 0.0 && self.r.gen_bool(self.cfg.reuse / 2.0) {
            // the same notes as in a running send
            let mut vs: Vec<&Ver> = self.w.m.ver.values().filter(|v| v.state != St::Closed && v.trees[0] == tree).collect();
            vs.sort_by_key(|v| (v.payer, v.vi));
            if let Some(v) = vs.choose(&mut self.r) {
                inputs = v.req.inputs.clone();
            }
        }
        let ata_ = t > 0 && self.r.gen_bool(0.4);
        let sp = self.r.gen_bool(0.25);
        let p = self.a_payer();
        let vi = self.r.gen_range(0..self.cfg.indices) as usize;
        let vi = self.slots.1[vi % self.slots.1.len()];
        let payer_is = p;
        let wallet_ = if self.r.gen_bool(0.5) { rkey(&mut self.r) } else { self.who() };
        let recipient = if t == 0 || ata_ { wallet_ } else if self.r.gen_bool(0.85) { let u = user(self.r.gen_range(0..USERS)); if self.r.gen_bool(0.2) { wallet2(&u, t) } else { ata(&u, t) } } else { wallet_ };
        // payouts to accounts that cannot take them, or that belong to the program
        let recipient = if self.r.gen_bool(0.15) && !ata_ {
            let other = 1 + self.r.gen_range(0..TOKENS - 1);
            let (kk, u) = (k(), self.who());
            self.pick(&[kk.pool, kk.collector, ata(&kk.pool, t.max(1)), ata(&kk.collector, t.max(1)), wallet2(&kk.pool, t.max(1)), tok(other).mint, tok(t.max(1)).mint, ata(&u, other), blank_account(), blank_account()])
        } else {
            recipient
        };
        let wallet_ = if t == 0 { recipient } else { wallet_ };
        let target = if t > 0 && ata_ { ata(&wallet_, t) } else { recipient };
        let opt = self.r.gen_bool(0.3);
        let mut opt_collector = if t == 0 { user(self.r.gen_range(0..USERS)) } else { ata(&user(self.r.gen_range(0..USERS)), t) };
        if self.r.gen_bool(0.25) {
            // collected by somebody who takes part anyway, or by nobody
            let (kk, other) = (k(), 1 + self.r.gen_range(0..TOKENS - 1));
            opt_collector = self.pick(&[target, wallet_, payer_is, ata(&payer_is, t), wallet2(&payer_is, t), kk.pool, kk.collector, ata(&kk.pool, t), ata(&kk.collector, t), wallet2(&kk.pool, t), ata(&payer_is, other), blank_account(), system_program::ID]);
        }
        let mut req = SendReq {
            inputs, out: self.fresh_nullifier(), recent: self.recent(), fee_version: self.w.m.fee_version, amount: 0, fee: 0,
            opt_collector, opt_amount: 0, token: t, metadata: rmeta(&mut self.r), ata: ata_, solana_pay: sp, hashed: [0; 32],
        };
        // amount
        let floor = if t == 0 { 890_880 } else { 0 };
        let rent_token = if ata_ { in_token(&self.w.vm, &self.w.m, t, self.w.vm.rent.minimum_balance(165))? } else { 0 };
        let x = SendExtra {
            recipient, identifier: rkey(&mut self.r), reference: if self.r.gen_bool(0.5) { IX_SYSVAR } else { rkey(&mut self.r) }, iv: self.r.gen(), encrypted_owner: self.r.gen(),
            memo: if self.r.gen_bool(0.25) { Some((0..self.r.gen_range(0..40)).map(|_| self.r.gen()).collect()) } else { None },
        };
        for _ in 0..4 {
            req.hashed = hashed_inputs(&req, &x);
            let budget = notes;
            req.amount = match self.r.gen_range(0..8) {
                0 => 0,
                1 => floor.max(rent_token),
                2 => budget / 2,
                _ => self.r.gen_range(0..=budget.max(1)) / 3,
            };
            if req.amount > 0 && req.amount < floor {
                req.amount = floor;
            }
            req.amount = req.amount.max(rent_token);
            req.opt_amount = if opt && req.amount > rent_token { self.r.gen_range(0..=(req.amount - rent_token) / 2) } else { 0 };
            if t == 0 && req.opt_amount > 0 && req.amount - req.opt_amount < floor {
                req.opt_amount = 0;
            }
            req.hashed = hashed_inputs(&req, &x);
            let prep = prep_ix_count(&req.signals()?);
            let need = send_fee(&self.w.vm, &self.w.m, t, req.amount, prep)?;
            // the number of preparation steps depends on the signals (and thereby on the declared fee)
            req.fee = need;
            for _ in 0..4 {
                let prep = prep_ix_count(&req.signals()?);
                let need = send_fee(&self.w.vm, &self.w.m, t, req.amount, prep)?;
                if req.fee >= need {
                    break;
                }
                req.fee = need;
            }
            if self.r.gen_bool(0.2) {
                req.fee += self.r.gen_range(0..1000);
            }
            if self.cfg.fee_edge > 0.0 && self.r.gen_bool(self.cfg.fee_edge) {
                let e: i64 = self.pick(&[-1, -1, 0, 1, -2, -5000, -100]);
                req.fee = req.fee.saturating_add_signed(e);
            }
            if (req.amount as u128 + req.fee as u128) <= budget as u128 {
                let valid = !self.r.gen_bool(self.cfg.invalid);
                let real = self.r.gen_bool(self.cfg.real);
                let seed = self.r.gen();
                let mut proof = groth::prove(seed, &req);
                if !valid {
                    let mut other = req.clone();
                    other.fee ^= 1 << self.r.gen_range(0..20);
                    proof = groth::prove(seed, &other);
                }
                return Some((req, Pending { x, wallet: wallet_, target, proof, valid, real, payer: payer_is, vi }));
            }
        }
        None
    }
    pub fn tx_start(&mut self, obs: &mut Obs) -> Option<Vec<Instruction>> {
        let (req, p) = self.send()?;
        let key = ver_key(&p.payer, p.vi);
        if self.w.m.ver.contains_key(&key) {
            return None;
        }
        let tree = self.tree_of(&req)?;
        let other = if tree == 0 { 1 } else { 0 };
        let ch: Vec<usize> = self.null_children(tree);
        self.prefund(obs, &key);
        if req.ata {
            self.prefund(obs, &p.target);
        }
        self.prefund(obs, &dup_key(&req.nullifiers()));
        let known = self.w.m.dups.contains(&dup_key(&req.nullifiers()));
        let skip = self.r.gen_bool(if known { 0.85 } else if self.cfg.reuse > 0.0 { 0.03 } else { 0.0 });
        let mut v = vec![ix_init_verification(p.payer, p.vi, 0, [tree, other], &req, skip, p.x.identifier, &[&ch, &[]])];
        if self.r.gen_bool(0.5) {
            let fee = self.fee_ix(p.payer, p.vi, req.token);
            v.push(fee);
        }
        self.pend.insert(key, p);
        Some(v)
    }
    pub fn null_children(&self, tree: u32) -> Vec<usize> {
        let n = self.w.m.nulls.get(&tree).map(|n| n.set.len()).unwrap_or(0);
        (0..=(n / 65_536).min(15)).collect()
    }
    pub fn tree_of(&self, r: &SendReq) -> Option<u32> {
        let root = mr(&from_raw(&r.inputs[0].0?)?);
        let m = &self.w.m;
        if m.roots.contains(&root) {
            return Some(m.trees_count);
        }
        m.nulls.iter().find(|(t, n)| **t < m.trees_count && n.root == root).map(|(t, _)| *t)
    }
    pub fn fin_data(&mut self, r: &SendReq) -> FinData {
        let m = &self.w.m;
        let total = m.ptr as u64 + m.cq.len() as u64;
        let ci = (total % TREE_LEAVES as u64) as u32;
        FinData {
            total: r.amount.wrapping_add(r.fee), token: r.token, mt_index: m.trees_count + (total / TREE_LEAVES as u64) as u32,
            commitment_index: if self.r.gen_bool(0.7) { ci } else { self.r.gen_range(0..=ci) },
        }
    }
    /// the complete finalization of a send
    pub fn finalization(&mut self, obs: &mut Obs, key: &Pubkey) -> Option<Vec<Instruction>> {
        let v = self.w.m.ver.get(key)?.clone();
        let p = self.pend.get(key)?.clone();
        let d = self.fin_data(&v.req);
        let r = &v.req;
        let mut ixs = vec![];
        let recipient = if v.verdict == Some(true) { p.target } else { p.target };
        let pay = pay_ix(&v, recipient, p.wallet);
        if v.state == St::ProofSetup {
            ixs.push(ix_fin_send(v.payer, v.vi, &p.x, &d));
        }
        let mut tail = 0;
        if v.verdict == Some(true) {
            if matches!(v.state, St::ProofSetup | St::InsertNullifiers) {
                let ch = self.null_children(v.trees[0]);
                for _ in v.inserted as usize..r.inputs.len() {
                    ixs.push(ix_fin_null(v.payer, v.vi, v.trees[0], &ch));
                }
            }
            tail = ixs.len();
            ixs.push(pay);
            if let Some(m) = &p.x.memo {
                ixs.push(ix_memo(m));
            }
            if r.solana_pay {
                ixs.push(self.direct_transfer(&v, &p));
            }
        } else {
            if v.state == St::ProofSetup {
                if self.r.gen_bool(0.5) {
                    ixs.push(pay);
                }
                if let Some(m) = &p.x.memo {
                    ixs.push(ix_memo(m));
                    if r.solana_pay {
                        ixs.push(ix_memo(b"x"));
                    }
                }
            } else {
                ixs.push(pay);
            }
        }
        if tail > 0 && self.w.m.nulls[&v.trees[0]].set.len() >= 65_530 {
            // displaced nullifiers are moved on before the payout
            let ch: Vec<usize> = (0..16).collect();
            let mut due = None;
            for n in 0..18 {
                let mut tx = ixs.clone();
                for _ in 0..n {
                    tx.insert(tail, ix_fin_null(v.payer, v.vi, v.trees[0], &ch));
                }
                let done = self.w.vm.clone().execute(&tx);
                let Err(e) = done else {
                    obs.inc("displaced_finalizations");
                    obs.max("displaced_most_insertions", (tail + n) as u64);
                    return Some(tx);
                };
                let mut sim = Sim::new(&self.w.vm, &self.w.m, &tx);
                if sim.run().is_ok() && sim.unknown.is_none() && matches!(sim.maybe, None | Some("displaced nullifiers") | Some("moving displaced nullifiers")) {
                    due.get_or_insert(vec![]).push(format!("{} more: {:?}", n, e));
                }
            }
            if let Some(e) = due {
                let detail = format!("{} nullifiers in the set, {} inputs: {}", self.w.m.nulls[&v.trees[0]].set.len(), v.req.inputs.len(), e.join(", "));
                self.w.finding(obs, &["L01", "N02", "V04"], "a send cannot be finalized with any number of insertions".into(), detail);
                return None;
            }
        }
        Some(ixs)
    }
    pub fn direct_transfer(&self, v: &Ver, p: &Pending) -> Instruction {
        let r = &v.req;
        let a = r.amount - r.opt_amount;
        if r.token == 0 {
            return system_instruction::transfer(&v.payer, &p.x.recipient, a);
        }
        let (mut to, mut a) = (p.target, a);
        if r.ata {
            if self.w.vm.data(&p.target).is_empty() {
                a = a.saturating_sub(v.other.ata_rent_token);
            }
        } else if token_unpack(&self.w.vm, &p.target).map(|x| x.mint) != Some(tok(r.token).mint) {
            to = ata(&k().collector, r.token);
        }
        let from = v.other.payer_account;
        let mut i = spl_token::instruction::transfer(&spl_token::ID, &from, &to, &v.payer, &[&v.payer], a).unwrap();
        i.program_id = spl_token::ID;
        i
    }
    pub fn tx_send(&mut self, obs: &mut Obs) -> Option<Vec<Instruction>> {
        let mut keys: Vec<Pubkey> = self.w.m.ver.keys().copied().filter(|k| self.pend.contains_key(k)).collect();
        keys.sort();
        let key = *keys.choose(&mut self.r)?;
        self.send_next(obs, &key)
    }
    /// the next transaction of a send; computes the verdict when it is due
    pub fn send_next(&mut self, obs: &mut Obs, key: &Pubkey) -> Option<Vec<Instruction>> {
        let v = self.w.m.ver.get(key)?.clone();
        let p = self.pend.get(key)?.clone();
        match v.state {
            St::None => {
                if p.real && self.r.gen_bool(0.5) && !self.prepared(key) {
                    return Some(self.compute_tx(&v, false));
                }
                Some(vec![self.fee_ix(v.payer, v.vi, v.req.token)])
            }
            St::FeeTransferred => Some(vec![ix_init_proof(v.payer, v.vi, &p.proof)]),
            St::ProofSetup if v.verdict.is_none() => {
                if p.real {
                    return Some(self.compute_tx(&v, true));
                }
                let ok = p.valid;
                self.w.poke_verdict(key, ok);
                self.finalization(obs, key)
            }
            _ => self.finalization(obs, key),
        }
    }
    /// a finalization that deviates in one respect
    pub fn evil_finalization(&mut self, obs: &mut Obs) -> Option<Vec<Instruction>> {
        let keys: Vec<Pubkey> = self.w.m.ver.keys().copied().filter(|k| self.pend.contains_key(k)).collect();
        let ready: Vec<Pubkey> = keys.iter().copied().filter(|k| self.w.m.ver[k].state >= St::ProofSetup).collect();
        let key = *ready.choose(&mut self.r)?;
        let v = self.w.m.ver[&key].clone();
        let p = self.pend[&key].clone();
        if v.verdict.is_none() && v.state == St::ProofSetup && !p.real && self.r.gen_bool(0.9) {
            self.w.poke_verdict(&key, p.valid);
        }
        let mut x = p.x.clone();
        let mut d = self.fin_data(&v.req);
        let mut tx = self.finalization(obs, &key)?;
        let fin = tx.iter().position(|i| i.program_id == pid() && i.data[0] == 11);
        let pay = tx.iter().position(|i| i.program_id == pid() && matches!(i.data[0], 13 | 14));
        let kind = self.r.gen_range(0..18);
        match (kind, fin, pay) {
            (0..=9, Some(f), _) => {
                let m = &self.w.m;
                let total = m.ptr as u64 + m.cq.len() as u64;
                match kind {
                    0 => x.recipient = self.some_key(),
                    1 => x.identifier = self.some_key(),
                    2 => x.reference = self.some_key(),
                    3 => {
                        let at = self.r.gen_range(0..32);
                        x.iv[at] ^= 1 << self.r.gen_range(0..8);
                    }
                    4 => {
                        let at = self.r.gen_range(0..32);
                        x.encrypted_owner[at] ^= 1 << self.r.gen_range(0..8);
                    }
                    5 => x.memo = if x.memo.is_some() { None } else { Some(vec![]) },
                    6 => d.total = self.pick(&[d.total ^ 1, 0, v.req.amount, d.total.wrapping_add(1)]),
                    7 => d.token = self.pick(&[0, 1, 2, TOKENS, TOKENS + 1, 65_535]),
                    8 => d.mt_index = self.pick(&[d.mt_index.wrapping_sub(1), d.mt_index.wrapping_add(1), 0, u32::MAX]),
                    _ => d.commitment_index = self.pick(&[(total % TREE_LEAVES as u64) as u32 + 1, d.commitment_index.wrapping_add(1), TREE_LEAVES, u32::MAX, 0]),
                }
                tx[f] = ix_fin_send(v.payer, v.vi, &x, &d);
                if kind == 0 {
                    // together with the matching payment
                    if let Some(pp) = pay {
                        tx[pp] = pay_ix(&v, if v.req.token > 0 && v.req.ata { ata(&x.recipient, v.req.token) } else { x.recipient }, x.recipient);
                    }
                }
            }
            (10, _, _) => {
                // without a companion
                let at = self.r.gen_range(0..tx.len());
                tx.remove(at);
            }
            (11, _, _) => {
                // another memo
                if let Some(i) = tx.iter().position(|i| i.program_id == memo_id()) {
                    if tx[i].data.is_empty() || self.r.gen_bool(0.3) {
                        tx[i].data.push(1);
                    } else {
                        let at = self.r.gen_range(0..tx[i].data.len());
                        tx[i].data[at] ^= 1;
                    }
                }
            }
            (12, _, _) => {
                // another direct transfer
                let a = (v.req.amount.saturating_sub(v.req.opt_amount)).wrapping_add(self.pick(&[1, u64::MAX, 0]));
                if let Some(i) = tx.iter().position(|i| i.program_id == system_program::ID || i.program_id == spl_token::ID) {
                    if self.r.gen_bool(0.5) {
                        let n = tx[i].accounts.len();
                        let at = self.r.gen_range(0..n);
                        tx[i].accounts[at].pubkey = self.some_key();
                    } else if tx[i].program_id == system_program::ID {
                        tx[i] = system_instruction::transfer(&tx[i].accounts[0].pubkey.clone(), &tx[i].accounts[1].pubkey.clone(), a);
                    } else {
                        let n = tx[i].data.len();
                        tx[i].data[n - 8..].copy_from_slice(&a.to_le_bytes());
                    }
                }
            }
            (13 | 14, _, _) => {
                // two finalizations share their companions
                let other: Vec<Pubkey> = ready.iter().copied().filter(|k| *k != key).collect();
                let o = *other.choose(&mut self.r)?;
                let po = self.pend[&o].clone();
                if self.w.m.ver[&o].verdict.is_none() && self.w.m.ver[&o].state == St::ProofSetup && !po.real {
                    self.w.poke_verdict(&o, po.valid);
                }
                let second = self.finalization(obs, &o)?;
                if self.r.gen_bool(0.5) {
                    tx.extend(second);
                } else {
                    let n = tx.len().max(second.len());
                    let first = std::mem::take(&mut tx);
                    for i in 0..n {
                        if let Some(a) = first.get(i) {
                            tx.push(a.clone());
                        }
                        if let Some(b) = second.get(i) {
                            tx.push(b.clone());
                        }
                    }
                }
                if self.r.gen_bool(0.6) {
                    let c: Vec<usize> = (0..tx.len()).filter(|i| tx[*i].program_id != pid()).collect();
                    if let Some(i) = c.choose(&mut self.r) {
                        tx.remove(*i);
                    }
                }
            }
            (16, _, _) => {
                // the nullifiers of this send after the (already done) finalization start of another payer's
                let other: Vec<Pubkey> = ready.iter().copied().filter(|k| *k != key && self.w.m.ver[k].vi == v.vi).collect();
                let o = *other.choose(&mut self.r)?;
                let po = self.pend[&o].clone();
                let vo = self.w.m.ver[&o].clone();
                if vo.verdict.is_none() && vo.state == St::ProofSetup && !po.real {
                    self.w.poke_verdict(&o, po.valid);
                }
                let d = self.fin_data(&vo.req);
                let alone = ix_fin_send(vo.payer, vo.vi, &po.x, &d);
                if vo.state == St::ProofSetup && self.r.gen_bool(0.5) {
                    self.w.step_as(obs, &[alone.clone()], false);
                } else {
                    tx.insert(0, alone);
                }
                if self.r.gen_bool(0.5) {
                    let c: Vec<usize> = (0..tx.len()).filter(|i| tx[*i].program_id != pid()).collect();
                    if let Some(i) = c.choose(&mut self.r) {
                        tx.remove(*i);
                    }
                }
            }
            (15, _, Some(pp)) => {
                // another recipient of the payment
                let to = self.some_key();
                tx[pp] = pay_ix(&v, to, if self.r.gen_bool(0.5) { to } else { p.wallet });
            }
            _ => {
                let (i, j) = (self.r.gen_range(0..tx.len()), self.r.gen_range(0..tx.len()));
                tx.swap(i, j);
            }
        }
        Some(tx)
    }
    /// a deposit that deviates in one respect
    pub fn evil_deposit(&mut self) -> Option<Vec<Instruction>> {
        let i = self.free_base()?;
        let (s, p) = (self.who(), self.a_payer());
        let mut q = self.base_req();
        let x = tok(q.token);
        let ptr = self.w.m.ptr;
        let mut again = true;
        match self.r.gen_range(0..12) {
            0 => q.amount = self.pick(&[x.min.wrapping_sub(1), x.min, x.min + 1]),
            1 => q.amount = self.pick(&[x.max.saturating_add(1), x.max, x.max - 1]),
            2 => q.amount = self.pick(&[0, u64::MAX, u64::MAX - 1, 1 << 63]),
            3 => q.token = self.pick(&[TOKENS, TOKENS + 1, 65_535]),
            4 => q.recent = self.pick(&[ptr + 1, ptr.wrapping_sub(128), ptr.saturating_sub(127), ptr, u32::MAX]),
            5 => q.fee_version = self.pick(&[q.fee_version.wrapping_sub(1), q.fee_version.wrapping_add(1), u32::MAX]),
            6 => q.rate = self.pick(&[q.rate.wrapping_sub(1), q.rate.wrapping_add(1), 5, u32::MAX]),
            7 => {
                again = false;
                q.base = if self.r.gen_bool(0.4) { self.edge_element() } else { plus_modulus(&q.base).unwrap_or([255; 32]) };
            }
            8 => {
                again = false;
                q.commitment = if self.r.gen_bool(0.4) { self.edge_element() } else { plus_modulus(&q.commitment).unwrap_or([255; 32]) };
            }
            9 => {
                // deposited before
                let known: Vec<U256> = self.w.m.bbuf.iter().copied().collect();
                if let Some(b) = known.choose(&mut self.r) {
                    q.base = *b;
                    if self.r.gen_bool(0.3) {
                        // nearly the same
                        let i = self.r.gen_range(0..31);
                        q.base[i] ^= 1 << self.r.gen_range(0..8);
                    }
                }
            }
            10 => q.base = raw(&zero_base()),
            _ => {
                again = false;
                q.commitment = self.pick(&[[0; 32], raw(&zero_commitment()), raw(&Fr::from(1u64))]);
            }
        }
        if again {
            if let Some(b) = from_raw(&q.base) {
                q.commitment = raw(&commitment_of(b, q.amount, q.token, q.recent));
            }
        }
        let meta = rmeta(&mut self.r);
        Some(vec![ix_store(s, p, i, &q, &meta)])
    }
    pub fn prepared(&self, key: &Pubkey) -> bool {
        use elusiv_types::ProgramAccount;
        let mut b = crate::view::data(&self.w.vm, key);
        let v = elusiv::state::proof::VerificationAccount::new(&mut b).unwrap();
        !matches!(v.get_step(), elusiv::proof::verifier::VerificationStep::PublicInputPreparation)
    }
    pub fn compute_tx(&mut self, v: &Ver, full: bool) -> Vec<Instruction> {
        let p = self.who();
        let _ = p;
        let n = if full || self.r.gen_bool(0.8) { 5 } else { self.r.gen_range(1..5) };
        let mut t = vec![ix_budget(), ix_budget()];
        for _ in 0..n {
            t.push(ix_compute(v.payer, v.vi, v.vkey));
        }
        t
    }
    pub fn change_price(&mut self, obs: &mut Obs) {
        let t = self.token();
        let p = default_price(t);
        let f = match self.r.gen_range(0..6) {
            0 => 1.0,
            1 => 0.1,
            2 => 10.0,
            _ => self.r.gen_range(0.5..2.0),
        };
        let q = P { price: ((p.price as f64) * f) as i64, conf: (p.conf as f64 * self.r.gen_range(0.0..3.0)) as u64, expo: p.expo };
        let trading = !self.r.gen_bool(0.03);
        set_price(&mut self.w.vm, t, if trading { q } else { default_price(t) }, trading);
        if !trading {
            // back to normal soon
            let q = default_price(t);
            if self.r.gen_bool(0.5) {
                set_price(&mut self.w.vm, t, q, true);
            }
        }
        obs.inc("price_changes");
    }
    pub fn tx_misc(&mut self) -> Option<Vec<Instruction>> {
        let t = self.w.m.trees_count;
        Some(match self.r.gen_range(0..4) {
            0 => vec![ix_reset_tree(t + self.r.gen_range(0..2), &[0, 1])],
            1 => self.history.iter().nth(self.r.gen_range(0..self.history.len().max(1)))?.clone(),
            2 => {
                let (a, b) = (self.who(), self.who());
                vec![system_instruction::transfer(&a, if self.r.gen_bool(0.3) { &k().pool } else { &b }, self.r.gen_range(0..1 << 30))]
            }
            _ => vec![ix(Enc::new(33), vec![])],
        })
    }
    pub fn choose(&mut self, obs: &mut Obs) -> Option<Vec<Instruction>> {
        let c = self.cfg.clone();
        let total = c.deposit + c.base + c.mt + c.start + c.send + c.price + c.misc;
        let mut x = self.r.gen_range(0..total);
        for (i, wgt) in [c.deposit, c.base, c.mt, c.start, c.send, c.price, c.misc].iter().enumerate() {
            if x < *wgt {
                return match i {
                    0 => self.tx_deposit(obs),
                    1 => self.tx_base(),
                    2 => self.tx_mt(),
                    3 => self.tx_start(obs),
                    4 => self.tx_send(obs),
                    5 => {
                        self.change_price(obs);
                        None
                    }
                    _ => self.tx_misc(),
                };
            }
            x -= wgt;
        }
        None
    }
    pub fn hostile(&mut self, obs: &mut Obs, what: &str, tx: &[Instruction]) {
        obs.inc(&format!("hostile_{}", what));
        if self.w.step_as(obs, tx, false) {
            obs.inc(&format!("hostile_{}_accepted", what));
        }
    }
    pub fn turn(&mut self, obs: &mut Obs) {
        let total = self.cfg.deposit + self.cfg.base + self.cfg.mt + self.cfg.start + self.cfg.send;
        let (pd, pf) = (self.cfg.evil_deposit * self.cfg.deposit as f64 / total as f64, self.cfg.evil_final * self.cfg.send as f64 / total as f64);
        if self.r.gen_bool(pd) {
            if let Some(tx) = self.evil_deposit() {
                self.hostile(obs, "deposits", &tx);
            }
            return;
        }
        if self.r.gen_bool(pf) {
            if let Some(tx) = self.evil_finalization(obs) {
                self.hostile(obs, "finalizations", &tx);
            }
            return;
        }
        let Some(mut tx) = self.choose(obs) else { return };
        if self.cfg.evil_send > 0.0 && !tx.is_empty() && tx[0].program_id == pid() && tx[0].data.first() == Some(&7) && self.r.gen_bool(self.cfg.evil_send) {
            self.mutate_send(&mut tx[0]);
            self.hostile(obs, "requests", &tx);
            return;
        }
        if self.r.gen_bool(self.cfg.mutate) {
            let n = if self.r.gen_bool(0.8) { 1 } else { 2 };
            for _ in 0..n {
                self.mutate(&mut tx);
            }
            obs.inc("hostile_transactions");
            let stay = |p: &Self| p.w.m.ver.values().filter(|v| v.state == St::Closed).count() + p.w.m.base.values().filter(|b| !b.active).count();
            let before = stay(self);
            if self.w.step_as(obs, &tx, false) {
                if stay(self) > before {
                    obs.inc("closed_accounts_that_stay");
                }
                obs.inc("hostile_accepted");
                self.remember(tx);
            }
            return;
        }
        if self.w.step(obs, &tx) {
            self.remember(tx);
        }
    }
    fn remember(&mut self, tx: Vec<Instruction>) {
        self.history.push_back(tx);
        if self.history.len() > 24 {
            self.history.pop_front();
        }
    }
    /// accounts an attacker would try
    pub fn some_key(&mut self) -> Pubkey {
        let kk = k();
        let t = self.token();
        match self.r.gen_range(0..16) {
            0 => self.who(),
            1 => rkey(&mut self.r),
            2 => {
                let o = self.who();
                ata(&o, t)
            }
            3 => self.pick(&[kk.pool, kk.collector, kk.governor, kk.storage, kk.mth, kk.cq, kk.mq, kk.metadata, kk.bbuf, kk.cbuf]),
            4 => {
                let who = self.who();
                self.pick(&[ata(&kk.pool, t), ata(&kk.collector, t), wallet2(&kk.pool, t), wallet2(&kk.collector, t), wallet2(&who, t)])
            }
            5 => null_key(self.r.gen_range(0..2)),
            6 => base_key(self.slots.0[self.r.gen_range(0..6)]).0,
            7 => {
                let p = self.a_payer();
                ver_key(&p, self.r.gen_range(0..4))
            }
            8 => {
                let d: Vec<Pubkey> = self.w.m.dups.iter().copied().collect();
                d.choose(&mut self.r).copied().unwrap_or(kk.pool)
            }
            9 => kk.storage_children[self.r.gen_range(0..3)],
            10 => null_child(self.r.gen_range(0..2), self.r.gen_range(0..2)),
            11 => kk.metadata_children[self.r.gen_range(0..2)],
            12 => self.pick(&[system_program::ID, spl_token::ID, spl_associated_token_account::ID, pid(), IX_SYSVAR]),
            13 => tok(t).price_key,
            14 => tok(t.max(1)).mint,
            _ => self.pick(&[fee_key(0), fee_key(1), vkey_key(0), vkey_child(0, 0)]),
        }
    }
    /// accounts that are closed receive lamports again before the transaction ends, and stay
    fn revive(&mut self, tx: &mut Vec<Instruction>) -> bool {
        let closing: Vec<usize> = (0..tx.len()).filter(|i| tx[*i].program_id == pid() && matches!(tx[*i].data.first(), Some(2 | 11 | 13 | 14))).collect();
        let Some(at) = closing.last().copied() else { return false };
        let mut keys: Vec<Pubkey> = tx[at].accounts.iter().filter(|a| a.is_writable).map(|a| a.pubkey).filter(|k| self.w.m.ver.contains_key(k) || self.w.m.base.contains_key(k) || self.w.m.dups.contains(k)).collect();
        if self.r.gen_bool(0.3) {
            keys.truncate(1);
        }
        // most places stay free
        let m = &self.w.m;
        if keys.is_empty() || m.ver.values().filter(|v| v.state == St::Closed).count() + m.base.values().filter(|b| !b.active).count() >= 2 {
            return false;
        }
        let from = tx.iter().flat_map(|i| &i.accounts).find(|a| a.is_signer && self.w.vm.data(&a.pubkey).is_empty()).map(|a| a.pubkey).unwrap_or(user(0));
        let mut extra = vec![];
        for k in keys {
            let n = self.w.vm.rent.minimum_balance(self.w.vm.data(&k).len());
            let amount = if self.r.gen_bool(0.85) { n } else { self.pick(&[1, n - 1, n + 1, 1 << 30]) };
            extra.push(system_instruction::transfer(&from, &k, amount));
        }
        if self.r.gen_bool(0.4) {
            // and what closed them once more
            extra.push(tx[at].clone());
        }
        tx.splice(at + 1..at + 1, extra);
        true
    }
    pub fn mutate(&mut self, tx: &mut Vec<Instruction>) {
        if tx.is_empty() {
            return;
        }
        let i = self.r.gen_range(0..tx.len());
        if self.r.gen_bool(0.3) && self.revive(tx) {
            return;
        }
        match self.r.gen_range(0..20) {
            // another account
            0..=4 => {
                if tx[i].accounts.is_empty() {
                    return;
                }
                let a = self.r.gen_range(0..tx[i].accounts.len());
                let mut key = self.some_key();
                if self.r.gen_bool(0.3) {
                    // somebody else who takes part
                    key = tx[i].accounts[self.r.gen_range(0..tx[i].accounts.len())].pubkey;
                }
                tx[i].accounts[a].pubkey = key;
                if self.r.gen_bool(0.3) {
                    // the same replacement everywhere in the instruction keeps pairs consistent
                    let o = self.r.gen_range(0..tx[i].accounts.len());
                    if self.r.gen_bool(0.3) {
                        tx[i].accounts[o].pubkey = key;
                    }
                }
            }
            5 | 6 => {
                if let Some(a) = tx[i].accounts.choose_mut(&mut self.r) {
                    a.is_signer = false;
                    let key = a.pubkey;
                    for x in tx.iter_mut() {
                        for a in x.accounts.iter_mut().filter(|a| a.pubkey == key) {
                            a.is_signer = false;
                        }
                    }
                }
            }
            7 => {
                if let Some(a) = tx[i].accounts.choose_mut(&mut self.r) {
                    a.is_writable = !a.is_writable;
                }
            }
            8 | 9 => {
                // one byte of the data
                let n = tx[i].data.len();
                if n > 1 {
                    let p = self.r.gen_range(1..n);
                    tx[i].data[p] = match self.r.gen_range(0..4) {
                        0 => 0,
                        1 => 255,
                        2 => tx[i].data[p] ^ (1 << self.r.gen_range(0..8)),
                        _ => self.r.gen(),
                    };
                }
            }
            10 => {
                // a field
                let n = tx[i].data.len();
                if n > 8 {
                    let p = self.r.gen_range(1..n - 7);
                    let v: u64 = self.pick(&[0, 1, u64::MAX, u64::MAX - 1, 1 << 63, 1 << 32, u32::MAX as u64]);
                    if self.r.gen_bool(0.5) {
                        tx[i].data[p..p + 8].copy_from_slice(&v.to_le_bytes());
                    } else {
                        tx[i].data[p..p + 4].copy_from_slice(&(v as u32).to_le_bytes());
                    }
                }
            }
            11 => {
                let n = tx[i].data.len();
                if self.r.gen_bool(0.7) {
                    let cut = self.r.gen_range(0..n.max(1));
                    tx[i].data.truncate(cut);
                } else {
                    tx[i].data.extend([7; 5]);
                }
            }
            12 => {
                let c = tx[i].clone();
                tx.insert(self.r.gen_range(0..=i + 1).min(tx.len()), c);
            }
            13 => {
                tx.remove(i);
            }
            14 => {
                let j = self.r.gen_range(0..tx.len());
                tx.swap(i, j);
            }
            15 => {
                let x = match self.r.gen_range(0..5) {
                    0 => ix_memo(b"hello"),
                    1 => {
                        let (a, b) = (self.who(), self.some_key());
                        system_instruction::transfer(&a, &b, self.r.gen_range(0..1 << 24))
                    }
                    2 => ix(Enc::new(33), vec![]),
                    3 => ix_budget(),
                    _ => {
                        // keep an account alive that is about to be closed
                        let a = self.who();
                        let keys: Vec<Pubkey> = tx.iter().flat_map(|i| i.accounts.iter().filter(|a| a.is_writable).map(|a| a.pubkey)).collect();
                        match keys.choose(&mut self.r) {
                            Some(b) => system_instruction::transfer(&a, b, self.pick(&[1, 890_880, 2_000_000, 100_000_000])),
                            None => ix_memo(b""),
                        }
                    }
                };
                let at = self.r.gen_range(0..=tx.len());
                tx.insert(at, x);
            }
            16 => {
                // together with something that happened before
                if let Some(h) = self.history.iter().nth(self.r.gen_range(0..self.history.len().max(1))).cloned() {
                    if self.r.gen_bool(0.5) {
                        tx.extend(h);
                    } else {
                        let mut h = h;
                        h.append(tx);
                        *tx = h;
                    }
                }
            }
            17 => {
                // two steps at once: whole transaction twice
                let c = tx.clone();
                tx.extend(c);
            }
            18 => {
                // non-canonical field elements and a spent nullifier in a send
                if tx[i].program_id == pid() && tx[i].data.first() == Some(&7) {
                    self.mutate_send(&mut tx[i]);
                } else if tx[i].program_id == pid() && tx[i].data.first() == Some(&0) && tx[i].data.len() > 38 {
                    let b: U256 = tx[i].data[6..38].try_into().unwrap();
                    if let Some(x) = plus_modulus(&b) {
                        tx[i].data[6..38].copy_from_slice(&x);
                    }
                }
            }
            _ => {
                // drop an account / swap two
                let n = tx[i].accounts.len();
                if n > 1 {
                    let (a, b) = (self.r.gen_range(0..n), self.r.gen_range(0..n));
                    if self.r.gen_bool(0.4) {
                        tx[i].accounts.remove(a);
                    } else {
                        tx[i].accounts.swap(a, b);
                    }
                }
            }
        }
    }
    /// a value close to the modulus of the field, on either side
    pub fn edge_element(&mut self) -> U256 {
        let mut n = [0u8; 32];
        for (i, l) in modulus().iter().enumerate() {
            n[i * 8..i * 8 + 8].copy_from_slice(&l.to_le_bytes());
        }
        match self.r.gen_range(0..6) {
            0..=2 => {}
            3 => n[0] -= 1,
            4 => n[0] += 1,
            _ => n = [0; 32],
        }
        n
    }
    pub fn mutate_send(&mut self, ix: &mut Instruction) {
        let mut d = Dec(&ix.data[1..]);
        let (Some(vi), Some(vk), Some(t0), Some(t1)) = (d.u8(), d.u32(), d.u32(), d.u32()) else { return };
        let Some(mut r) = SendReq::dec(&mut d) else { return };
        let skip = d.bool().unwrap_or(false);
        let (mut skip, mut trees) = (skip, [t0, t1]);
        if r.inputs.is_empty() {
            return;
        }
        let i = self.r.gen_range(0..r.inputs.len());
        match self.r.gen_range(0..14) {
            13 => {
                // around the modulus
                let x = self.edge_element();
                match self.r.gen_range(0..4) {
                    0 => r.out = x,
                    1 => r.inputs[i].0 = Some(x),
                    _ => r.inputs[i].1 = x,
                }
            }
            0 => {
                if let Some(x) = plus_modulus(&r.inputs[i].1) {
                    r.inputs[i].1 = x;
                }
            }
            1 => {
                // a spent nullifier
                let mut all: Vec<[u64; 4]> = vec![];
                for n in self.w.m.nulls.values() {
                    all.extend(n.set.iter().take(50));
                }
                if let Some(o) = all.choose(&mut self.r) {
                    let mut b = [0u8; 32];
                    for j in 0..4 {
                        b[j * 8..j * 8 + 8].copy_from_slice(&o[3 - j].to_le_bytes());
                    }
                    let v = raw(&from_mr(&b));
                    r.inputs[i].1 = if self.r.gen_bool(0.3) { plus_modulus(&v).unwrap_or(v) } else { v };
                }
            }
            2 => {
                let j = self.r.gen_range(0..r.inputs.len());
                if self.r.gen_bool(0.3) {
                    // numbers that may be taken for no number
                    let x = if self.r.gen_bool(0.5) { [0; 32] } else { raw(&-Fr::from(self.r.gen_range(0..2u64))) };
                    r.inputs[j].1 = x;
                }
                r.inputs[i].1 = r.inputs[j].1;
            }
            3 => {
                // a root that is not valid any more, of a tree that is still empty, of another tree, or no root at all
                let empty = raw(&empties()[HEIGHT]);
                let m = &self.w.m;
                let mut c: Vec<U256> = match self.r.gen_range(0..5) {
                    0 => vec![empty, [0; 32], raw(&fr(&mut self.r))],
                    1 => m.stale.iter().rev().take(20).map(|r| raw(&from_mr(r))).collect(),
                    2 | 3 => m.nulls.values().map(|n| raw(&from_mr(&n.root))).collect(),
                    _ => m.roots.iter().map(|r| raw(&from_mr(r))).collect(),
                };
                if c.is_empty() {
                    c.push(empty);
                }
                let root = self.pick(&c);
                r.inputs[i].0 = if self.r.gen_bool(0.1) { None } else { Some(if self.r.gen_bool(0.1) { plus_modulus(&root).unwrap_or(root) } else { root }) };
                if self.r.gen_bool(0.6) {
                    trees = self.pick(&[[0, 1], [1, 0], [1, 2], [2, 1], [0, 2], [2, 0]]);
                }
            }
            4 => {
                let e = from_mr(&mr(&self.w.m.tree.root()));
                r.inputs[i].0 = Some(raw(&e));
            }
            5 => trees.swap(0, 1),
            6 => skip = !skip,
            7 => {
                // not an output: the empty leaf, or what was put out recently
                let known: Vec<U256> = self.w.m.cbuf.iter().flatten().copied().collect();
                r.out = match known.choose(&mut self.r) {
                    Some(c) if self.r.gen_bool(0.6) => raw(&from_mr(c)),
                    _ => raw(&zero_commitment()),
                };
            }
            8 => {
                r.amount = self.pick(&[u64::MAX, u64::MAX - r.fee, (u64::MAX - r.fee).wrapping_add(1), 1 << 63]);
            }
            9 => r.opt_amount = self.pick(&[r.amount, r.amount.wrapping_add(1), u64::MAX]),
            10 => r.recent = self.pick(&[self.w.m.ptr + 1, self.w.m.ptr.wrapping_sub(128), self.w.m.ptr.saturating_sub(127), u32::MAX]),
            11 => {
                // the nullifiers of a running send
                let vs: Vec<Ver> = self.w.m.ver.values().cloned().collect();
                if let Some(v) = vs.choose(&mut self.r) {
                    r.inputs = v.req.inputs.clone();
                    skip = self.r.gen();
                }
            }
            _ => trees = [self.r.gen_range(0..3), self.r.gen_range(0..3)],
        }
        // consistent accounts
        let p = ix.accounts[0].pubkey;
        let ch: Vec<usize> = self.null_children(trees[0]);
        let ident = ix.accounts.get(5).map(|a| a.pubkey).unwrap_or_default();
        *ix = ix_init_verification(p, vi, vk, trees, &r, skip, ident, &[&ch, &ch]);
    }
    // -------------------------------------------------------------------------------- driving

    /// hashes everything that waits in the queue into the tree (honest cranks)
    pub fn drain(&mut self, obs: &mut Obs) -> bool {
        for _ in 0..4000 {
            if !self.w.alive {
                return false;
            }
            if !self.w.m.mth.active && self.w.m.next_batch().is_none() {
                return true;
            }
            let Some(tx) = self.tx_mt() else { return true };
            self.w.step(obs, &tx);
        }
        false
    }
    /// finishes the hashing of every deposit
    pub fn finish_bases(&mut self, obs: &mut Obs) {
        for _ in 0..1000 {
            if !self.w.alive || self.w.m.base.is_empty() {
                return;
            }
            if self.w.m.cq.len() >= QUEUE_CAP {
                self.drain(obs);
            }
            if let Some(tx) = self.tx_base() {
                self.w.step(obs, &tx);
            }
        }
    }
    /// completes every running send
    pub fn finish_sends(&mut self, obs: &mut Obs) {
        for _ in 0..4000 {
            let keys: Vec<Pubkey> = self.w.m.ver.keys().copied().filter(|k| self.pend.contains_key(k)).collect();
            if !self.w.alive || keys.is_empty() {
                return;
            }
            let mut progress = false;
            for key in keys {
                if self.w.m.cq.len() >= QUEUE_CAP {
                    self.drain(obs);
                }
                if let Some(tx) = self.send_next(obs, &key) {
                    progress |= self.w.step(obs, &tx);
                }
            }
            if !progress {
                return;
            }
        }
    }
}

/// a world with deposits of several tokens already in the tree
pub fn warm(prop: &'static str, rate: u32, fee: u32, obs: &mut Obs) -> World {
    let key = (rate, fee);
    static C: OnceLock<Mutex<HashMap<(u32, u32), (Vm, Model, Obs)>>> = OnceLock::new();
    let c = C.get_or_init(Default::default);
    let mut g = c.lock().unwrap_or_else(|e| e.into_inner());
    if !g.contains_key(&key) {
        minivm::trace::hush(|| {
        let mut p = Play::new(World::standard(prop, rate, fee), 99 + rate as u64, Cfg::default());
        let mut o = Obs::default();
        let n = (TOKENS as usize * 2).max(2 << rate);
        for i in 0..n {
            let t = (i % TOKENS as usize) as u16;
            let mut req = p.base_req();
            req.token = t;
            req.amount = tok(t).max / 2;
            let meta = rmeta(&mut p.r);
            let tx = vec![ix_store(user(i as u64 % USERS), payer(i as u64 % PAYERS), 0, &req, &meta)];
            p.w.step(&mut o, &tx);
            p.finish_bases(&mut o);
        }
        p.drain(&mut o);
        g.insert(key, (p.w.vm, p.w.m, o));
        });
    }
    let (vm, m, o) = g[&key].clone();
    if !o.violations.is_empty() {
        // nothing can be built on top of it
        obs.merge(o);
        let mut w = World::new(prop, vm, m);
        w.alive = false;
        return w;
    }
    World::new(prop, vm, m)
}

/// The same world with a tree that is already filled up to `ptr`. What lies beyond in the storage accounts are
/// the left-overs of an earlier tree.
pub fn aged(prop: &'static str, rate: u32, fee: u32, ptr: u32, obs: &mut Obs) -> World {
    static C: OnceLock<Mutex<HashMap<(u32, u32, u32), (Vm, Model)>>> = OnceLock::new();
    let mut world = warm(prop, rate, fee, obs);
    if !world.alive {
        return world;
    }
    let c = C.get_or_init(Default::default);
    let mut g = c.lock().unwrap_or_else(|e| e.into_inner());
    if let Some((vm, m)) = g.get(&(rate, fee, ptr)) {
        return World::new(prop, vm.clone(), m.clone());
    }
    assert!(ptr % (1 << rate) == 0 && ptr <= TREE_LEAVES);
    let fills = Tree::fills(Fr::from(0x5eed_1234_u64));
    let tree = Tree::aged(ptr as usize, &fills);
    let raw_fill: Vec<U256> = fills.iter().map(mr).collect();
    let junk = mr(&Fr::from(0xdead_beef_u64));
    let mut kids: Vec<Vec<u8>> = vec![vec![0; STORAGE_CHILD]; 25];
    for k in kids.iter_mut() {
        k[0] = 1;
    }
    for level in 0..=HEIGHT {
        let l = HEIGHT - level;
        for i in 0..1usize << level {
            let v = if (i + 1) << l <= ptr as usize {
                raw_fill[l]
            } else if i << l < ptr as usize {
                mr(&tree.node(l, i))
            } else {
                junk
            };
            let gi = (1usize << level) - 1 + i;
            let at = 1 + (gi % 83_887) * 32;
            kids[gi / 83_887][at..at + 32].copy_from_slice(&v);
        }
    }
    for (i, kd) in kids.into_iter().enumerate() {
        let key = k().storage_children[i];
        assert_eq!(world.vm.data(&key)[0], kd[0], "first byte of an enabled child");
        world.vm.accounts.get_mut(&key).unwrap().data = std::sync::Arc::new(kd);
    }
    let total = ptr >> rate;
    let mut roots = VecDeque::new();
    {
        use elusiv_types::ProgramAccount;
        let d = world.vm.data_mut(&k().storage);
        let mut s = elusiv::state::storage::StorageAccount::new(d).unwrap();
        s.set_next_commitment_ptr(&ptr);
        s.set_mt_roots_count(&total);
        for i in 0..HISTORY {
            s.set_active_mt_root_history(i, &[0; 32]);
        }
        for j in (0..(HISTORY as u32).min(total)).rev() {
            let t = Tree::aged((ptr - (j << rate)) as usize, &fills);
            let r = mr(&t.root());
            s.set_active_mt_root_history((total - 1 - j) as usize % HISTORY, &r);
            roots.push_back(r);
        }
        let d = world.vm.data_mut(&k().metadata);
        let mut a = elusiv::state::metadata::MetadataAccount::new(d).unwrap();
        a.set_next_metadata_ptr(&ptr);
    }
    let m = &mut world.m;
    m.ptr = ptr;
    m.meta_ptr = ptr;
    m.meta = Default::default();
    m.tree = std::sync::Arc::new(tree);
    m.roots = roots;
    m.roots_count = total;
    m.stale = (HISTORY as u32..(HISTORY as u32 + 20).min(total)).map(|j| mr(&Tree::aged((ptr - (j << rate)) as usize, &fills).root())).collect();
    let rest = m.cq.len();
    assert!(m.mth == Mth::default() || !m.mth.active, "drained");
    let _ = rest;
    g.insert((rate, fee, ptr), (world.vm.clone(), world.m.clone()));
    World::new(prop, world.vm, world.m)
}

/// The same world right after its full first tree was closed: the second tree is empty, the first one is spent from
/// by its final root only.
pub fn second_tree(prop: &'static str, rate: u32, fee: u32, obs: &mut Obs) -> World {
    static C: OnceLock<Mutex<HashMap<(u32, u32), (Vm, Model)>>> = OnceLock::new();
    let c = C.get_or_init(Default::default);
    let mut g = c.lock().unwrap_or_else(|e| e.into_inner());
    if let Some((vm, m)) = g.get(&(rate, fee)) {
        return World::new(prop, vm.clone(), m.clone());
    }
    let mut world = aged(prop, rate, fee, TREE_LEAVES, obs);
    if !world.alive {
        return world;
    }
    let t = world.m.trees_count;
    let tx = vec![ix_reset_tree(t, &[0, 24])];
    let closed = minivm::trace::hush(|| world.step(obs, &tx));
    if closed && world.alive && world.m.trees_count == t + 1 {
        g.insert((rate, fee), (world.vm.clone(), world.m.clone()));
    }
    world
}
/// the same many trees later: tree t is the active one, the one before was closed (numbers beyond the width of smaller integers)
pub fn later_tree(prop: &'static str, rate: u32, fee: u32, t: u32, obs: &mut Obs) -> World {
    static C: OnceLock<Mutex<HashMap<(u32, u32, u32), (Vm, Model)>>> = OnceLock::new();
    let c = C.get_or_init(Default::default);
    let mut world = second_tree(prop, rate, fee, obs);
    if !world.alive || world.m.trees_count != 1 {
        return world;
    }
    let mut g = c.lock().unwrap_or_else(|e| e.into_inner());
    if let Some((vm, m)) = g.get(&(rate, fee, t)) {
        return World::new(prop, vm.clone(), m.clone());
    }
    let opened = minivm::trace::hush(|| {
        for i in [t - 1, t] {
            if !world.step_as(obs, &[ix_open_nullifier(payer(0), i)], false) {
                return false;
            }
            for j in 0..3 {
                put_child(&mut world.vm, null_child(i, j), NULL_CHILD);
                if world.vm.execute(&[ix_enable_nullifier(i, j as u32, null_child(i, j))]).is_err() {
                    return false;
                }
                world.m.nulls.get_mut(&i).unwrap().children[j] = Some(null_child(i, j));
            }
        }
        true
    });
    if !opened || !world.alive {
        return world;
    }
    world.m.nulls.remove(&1);
    world.vm.accounts.remove(&null_key(1));
    for j in 0..16 {
        world.vm.accounts.remove(&null_child(1, j));
    }
    let root = mr(&Fr::from(0x1a7e_0000u64 + t as u64));
    crate::view::closed_tree(&mut world.vm, t - 1, &root);
    world.m.nulls.get_mut(&(t - 1)).unwrap().root = root;
    crate::view::trees_count(&mut world.vm, t);
    world.m.trees_count = t;
    g.insert((rate, fee, t), (world.vm.clone(), world.m.clone()));
    world
}
pub const LATER: [u32; 6] = [256, 255, 65_536, 1 << 24, 1 << 31, u32::MAX - 3];
