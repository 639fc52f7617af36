//! Keys, instruction encoding and the base world (built with the program's own setup instructions).
use crate::refm::*;
use elusiv::state::{
    commitment::{BaseCommitmentBufferAccount, BaseCommitmentHashingAccount, CommitmentBufferAccount, CommitmentHashingAccount, CommitmentQueueAccount},
    fee::FeeAccount,
    governor::{FeeCollectorAccount, GovernorAccount, PoolAccount},
    metadata::{MetadataAccount, MetadataChildAccount, MetadataQueueAccount},
    nullifier::{NullifierAccount, NullifierChildAccount},
    proof::{NullifierDuplicateAccount, VerificationAccount},
    storage::{StorageAccount, StorageChildAccount},
    vkey::VKeyAccount,
};
use elusiv_types::{PDAAccount, SizedAccount};
use minivm::*;
use pyth_sdk_solana::state::{AccountType, PriceAccount, MAGIC, VERSION_2};
use solana_program::{
    hash::hashv,
    instruction::{AccountMeta, Instruction},
    program_pack::Pack,
    pubkey::Pubkey,
    system_program, sysvar,
};
use spl_associated_token_account::get_associated_token_address;
use std::sync::{Arc, OnceLock};

pub const META_LEN: usize = 17;
pub type Meta = [u8; META_LEN];
pub const TREE_LEAVES: u32 = 1 << 20;
pub const HISTORY: usize = 100;
pub const BUFFER_LEN: usize = 128;
pub const QUEUE_CAP: usize = 239;
pub const IX_SYSVAR: Pubkey = solana_program::pubkey!("Sysvar1nstructions1111111111111111111111111");

pub fn pid() -> Pubkey {
    elusiv::id()
}
/// independent derivation of a program address
pub fn pda_bump(seed: &[u8], key: Option<&Pubkey>, offset: Option<u32>) -> (Pubkey, u8) {
    let o = offset.map(|o| o.to_le_bytes());
    let mut s: Vec<&[u8]> = vec![seed];
    if let Some(k) = key {
        s.push(k.as_ref())
    }
    if let Some(o) = &o {
        s.push(o)
    }
    Pubkey::find_program_address(&s, &pid())
}
pub fn pda(seed: &[u8], key: Option<&Pubkey>, offset: Option<u32>) -> Pubkey {
    pda_bump(seed, key, offset).0
}
type PdaCache = std::sync::Mutex<std::collections::HashMap<(u8, Pubkey, u32), (Pubkey, u8)>>;
/// memoized derivation (find_program_address is slow)
fn cached(kind: u8, seed: &[u8], key: Option<Pubkey>, off: Option<u32>) -> (Pubkey, u8) {
    static C: OnceLock<PdaCache> = OnceLock::new();
    let c = C.get_or_init(Default::default);
    let id = (kind, key.unwrap_or_default(), off.unwrap_or(u32::MAX));
    if let Some(v) = c.lock().unwrap().get(&id) {
        return *v;
    }
    let v = pda_bump(seed, key.as_ref(), off);
    c.lock().unwrap().insert(id, v);
    v
}
pub fn key_of(parts: &[&[u8]]) -> Pubkey {
    Pubkey::new_from_array(hashv(parts).to_bytes())
}
pub fn key_n(tag: &str, n: u64) -> Pubkey {
    key_of(&[b"harness", tag.as_bytes(), &n.to_le_bytes()])
}

pub struct Keys {
    pub pool: Pubkey,
    pub collector: Pubkey,
    pub governor: Pubkey,
    pub storage: Pubkey,
    pub mth: Pubkey,
    pub cq: Pubkey,
    pub mq: Pubkey,
    pub metadata: Pubkey,
    pub bbuf: Pubkey,
    pub cbuf: Pubkey,
    pub storage_children: Vec<Pubkey>,
    pub metadata_children: Vec<Pubkey>,
}
pub fn k() -> &'static Keys {
    static K: OnceLock<Keys> = OnceLock::new();
    K.get_or_init(|| Keys {
        pool: pda(PoolAccount::SEED, None, None),
        collector: pda(FeeCollectorAccount::SEED, None, None),
        governor: pda(GovernorAccount::SEED, None, None),
        storage: pda(StorageAccount::SEED, None, None),
        mth: pda(CommitmentHashingAccount::SEED, None, None),
        cq: pda(CommitmentQueueAccount::SEED, None, None),
        mq: pda(MetadataQueueAccount::SEED, None, None),
        metadata: pda(MetadataAccount::SEED, None, None),
        bbuf: pda(BaseCommitmentBufferAccount::SEED, None, None),
        cbuf: pda(CommitmentBufferAccount::SEED, None, None),
        storage_children: (0..25).map(|i| key_n("storage-child", i)).collect(),
        metadata_children: (0..16).map(|i| key_n("metadata-child", i)).collect(),
    })
}
pub fn fee_key(v: u32) -> Pubkey {
    cached(0, FeeAccount::SEED, None, Some(v)).0
}
pub fn null_key(i: u32) -> Pubkey {
    cached(1, NullifierAccount::SEED, None, Some(i)).0
}
pub fn null_child(tree: u32, i: usize) -> Pubkey {
    key_n("nullifier-child", tree as u64 * 1000 + i as u64)
}
pub fn vkey_key(id: u32) -> Pubkey {
    cached(2, VKeyAccount::SEED, None, Some(id)).0
}
pub fn base_key(i: u32) -> (Pubkey, u8) {
    cached(3, BaseCommitmentHashingAccount::SEED, None, Some(i))
}
pub fn ver_key(payer: &Pubkey, i: u8) -> Pubkey {
    cached(4, VerificationAccount::SEED, Some(*payer), Some(i as u32)).0
}
pub fn dup_key(nullifiers: &[U256]) -> Pubkey {
    let v: Vec<&[u8]> = nullifiers.iter().map(|n| &n[..]).collect();
    cached(5, NullifierDuplicateAccount::SEED, Some(Pubkey::new_from_array(hashv(&v).to_bytes())), None).0
}
pub fn memo_id() -> Pubkey {
    MEMO_ID.parse().unwrap()
}
pub fn budget_id() -> Pubkey {
    COMPUTE_BUDGET_ID.parse().unwrap()
}

// ------------------------------------------------------------------------------------ tokens

#[derive(Clone, Copy, Debug)]
pub struct Tok {
    pub mint: Pubkey,
    pub decimals: u8,
    pub base_exp: u8,
    pub price_key: Pubkey,
    pub min: u64,
    pub max: u64,
}
pub const TOKENS: u16 = 12;
pub fn tok(id: u16) -> Tok {
    let t = elusiv::token::TOKENS[id as usize];
    Tok { mint: t.mint, decimals: t.decimals, base_exp: t.price_base_exp, price_key: t.pyth_usd_price_key, min: t.min, max: t.max }
}
pub fn ata(owner: &Pubkey, id: u16) -> Pubkey {
    if id == 0 {
        *owner
    } else {
        static C: OnceLock<std::sync::Mutex<std::collections::HashMap<(Pubkey, u16), Pubkey>>> = OnceLock::new();
        *C.get_or_init(Default::default).lock().unwrap().entry((*owner, id)).or_insert_with(|| get_associated_token_address(owner, &tok(id).mint))
    }
}
pub fn price_data(p: P, trading: bool) -> Vec<u8> {
    let mut a = PriceAccount { magic: MAGIC, ver: VERSION_2, atype: AccountType::Price as u32, expo: p.expo, ..Default::default() };
    a.agg.price = p.price;
    a.agg.conf = p.conf;
    a.prev_price = p.price;
    a.prev_conf = p.conf;
    a.agg.status = if trading { pyth_sdk_solana::PriceStatus::Trading } else { pyth_sdk_solana::PriceStatus::Halted };
    // plain-old-data: bytes of the struct
    let p = &a as *const PriceAccount as *const u8;
    unsafe { std::slice::from_raw_parts(p, std::mem::size_of::<PriceAccount>()) }.to_vec()
}
/// realistic default prices
pub fn default_price(id: u16) -> P {
    match id {
        0 => P { price: 2_391_234_567, conf: 1_234_567, expo: -8 },
        1 => P { price: 99_990_123, conf: 11_000, expo: -8 },
        2 => P { price: 100_012_345, conf: 20_000, expo: -8 },
        3 => P { price: 2_691_234_567, conf: 1_934_567, expo: -8 },
        4 => P { price: 12_345, conf: 25, expo: -10 },
        5 => P { price: 5_123_456, conf: 9_000, expo: -9 },
        _ => P { price: 81_234_567 + id as i64 * 1_000_003, conf: 80_000, expo: -8 },
    }
}

// ------------------------------------------------------------------------------------ requests

#[derive(Clone, Debug, PartialEq)]
pub struct BaseReq {
    pub base: U256,
    pub recent: u32,
    pub amount: u64,
    pub token: u16,
    pub commitment: U256,
    pub fee_version: u32,
    pub rate: u32,
}
#[derive(Clone, Debug, PartialEq)]
pub struct SendReq {
    pub inputs: Vec<(Option<U256>, U256)>,
    pub out: U256,
    pub recent: u32,
    pub fee_version: u32,
    pub amount: u64,
    pub fee: u64,
    pub opt_collector: Pubkey,
    pub opt_amount: u64,
    pub token: u16,
    pub metadata: Meta,
    pub ata: bool,
    pub solana_pay: bool,
    pub hashed: U256,
}
pub struct Enc(pub Vec<u8>);
impl Enc {
    pub fn new(v: u8) -> Self {
        Enc(vec![v])
    }
    pub fn u8(mut self, v: u8) -> Self {
        self.0.push(v);
        self
    }
    pub fn u16(mut self, v: u16) -> Self {
        self.0.extend(v.to_le_bytes());
        self
    }
    pub fn u32(mut self, v: u32) -> Self {
        self.0.extend(v.to_le_bytes());
        self
    }
    pub fn u64(mut self, v: u64) -> Self {
        self.0.extend(v.to_le_bytes());
        self
    }
    pub fn b(mut self, v: &[u8]) -> Self {
        self.0.extend(v);
        self
    }
}
pub struct Dec<'a>(pub &'a [u8]);
impl<'a> Dec<'a> {
    pub fn take(&mut self, n: usize) -> Option<&'a [u8]> {
        if self.0.len() < n {
            return None;
        }
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        Some(a)
    }
    pub fn u8(&mut self) -> Option<u8> {
        Some(self.take(1)?[0])
    }
    pub fn bool(&mut self) -> Option<bool> {
        match self.u8()? {
            0 => Some(false),
            1 => Some(true),
            _ => None,
        }
    }
    pub fn u16(&mut self) -> Option<u16> {
        Some(u16::from_le_bytes(self.take(2)?.try_into().unwrap()))
    }
    pub fn u32(&mut self) -> Option<u32> {
        Some(u32::from_le_bytes(self.take(4)?.try_into().unwrap()))
    }
    pub fn u64(&mut self) -> Option<u64> {
        Some(u64::from_le_bytes(self.take(8)?.try_into().unwrap()))
    }
    pub fn b32(&mut self) -> Option<U256> {
        Some(self.take(32)?.try_into().unwrap())
    }
    pub fn meta(&mut self) -> Option<Meta> {
        Some(self.take(META_LEN)?.try_into().unwrap())
    }
}
impl BaseReq {
    pub fn enc(&self, e: Enc) -> Enc {
        e.b(&self.base).u32(self.recent).u64(self.amount).u16(self.token).b(&self.commitment).u32(self.fee_version).u32(self.rate)
    }
    pub fn dec(d: &mut Dec) -> Option<Self> {
        Some(BaseReq { base: d.b32()?, recent: d.u32()?, amount: d.u64()?, token: d.u16()?, commitment: d.b32()?, fee_version: d.u32()?, rate: d.u32()? })
    }
}
impl SendReq {
    pub fn enc(&self, e: Enc) -> Enc {
        let mut e = e.u8(0).u32(self.inputs.len() as u32);
        for (r, n) in &self.inputs {
            e = match r {
                Some(r) => e.u8(1).b(r),
                None => e.u8(0),
            };
            e = e.b(n);
        }
        e.b(&self.out).u32(self.recent).u32(self.fee_version).u64(self.amount).u64(self.fee)
            .b(self.opt_collector.as_ref()).u64(self.opt_amount).u16(self.token).b(&self.metadata)
            .u8(self.ata as u8).u8(self.solana_pay as u8).b(&self.hashed)
    }
    /// Some(None): another request kind
    pub fn dec(d: &mut Dec) -> Option<Self> {
        if d.u8()? != 0 {
            return None;
        }
        let n = d.u32()?;
        if n > 8 {
            return None;
        }
        let mut inputs = vec![];
        for _ in 0..n {
            let r = match d.u8()? {
                0 => None,
                1 => Some(d.b32()?),
                _ => return None,
            };
            inputs.push((r, d.b32()?));
        }
        Some(SendReq {
            inputs, out: d.b32()?, recent: d.u32()?, fee_version: d.u32()?, amount: d.u64()?, fee: d.u64()?,
            opt_collector: Pubkey::new_from_array(d.b32()?), opt_amount: d.u64()?, token: d.u16()?, metadata: d.meta()?,
            ata: d.bool()?, solana_pay: d.bool()?, hashed: d.b32()?,
        })
    }
    pub fn nullifiers(&self) -> Vec<U256> {
        self.inputs.iter().map(|i| i.1).collect()
    }
    /// the 14 public signals of the send circuit
    pub fn signals(&self) -> Option<Vec<U256>> {
        let total = self.amount.checked_add(self.fee)?;
        let small = |v: u64| {
            let mut b = [0u8; 32];
            b[..8].copy_from_slice(&v.to_le_bytes());
            b
        };
        let mut s = vec![];
        for i in 0..4 {
            s.push(self.inputs.get(i).map(|x| x.1).unwrap_or([0; 32]));
        }
        for i in 0..4 {
            s.push(self.inputs.get(i).and_then(|x| x.0).unwrap_or([0; 32]));
        }
        s.push(small(total));
        s.push(self.out);
        s.push(small(self.recent as u64));
        s.push(small(self.fee_version as u64));
        s.push(small(self.token as u64));
        s.push(self.hashed);
        Some(s)
    }
}
#[derive(Clone, Debug, PartialEq)]
pub struct SendExtra {
    pub recipient: Pubkey,
    pub identifier: Pubkey,
    pub reference: Pubkey,
    pub iv: U256,
    pub encrypted_owner: U256,
    pub memo: Option<Vec<u8>>,
}
pub fn hashed_inputs(r: &SendReq, x: &SendExtra) -> U256 {
    let reference = if x.reference == IX_SYSVAR { [0; 32] } else { x.reference.to_bytes() };
    let a = [r.ata as u8];
    let o = r.opt_amount.to_le_bytes();
    let mut parts: Vec<&[u8]> = vec![x.recipient.as_ref(), x.identifier.as_ref(), &x.iv, &x.encrypted_owner, &reference, &a, &r.metadata, r.opt_collector.as_ref(), &o];
    if let Some(m) = &x.memo {
        parts.push(m);
    }
    let mut h = hashv(&parts).to_bytes();
    h[31] &= 0x1f;
    h
}

// ------------------------------------------------------------------------------------ instructions

pub fn s(p: Pubkey) -> AccountMeta {
    AccountMeta::new_readonly(p, true)
}
pub fn ro(p: Pubkey) -> AccountMeta {
    AccountMeta::new_readonly(p, false)
}
pub fn w(p: Pubkey) -> AccountMeta {
    AccountMeta::new(p, false)
}
pub fn ws(p: Pubkey) -> AccountMeta {
    AccountMeta::new(p, true)
}
pub fn ix(data: Enc, accounts: Vec<AccountMeta>) -> Instruction {
    Instruction { program_id: pid(), accounts, data: data.0 }
}
fn tprog(id: u16) -> Pubkey {
    if id == 0 { system_program::ID } else { spl_token::ID }
}

/// where `who` holds `token`
pub fn wallet(who: &Pubkey, token: u16) -> Pubkey {
    ata(who, token)
}
/// a second token account of the same owner
pub fn wallet2(who: &Pubkey, token: u16) -> Pubkey {
    if token == 0 {
        *who
    } else {
        key_of(&[b"second token account", who.as_ref(), &token.to_le_bytes()])
    }
}
pub fn ix_store(sender: Pubkey, payer: Pubkey, index: u32, req: &BaseReq, meta: &Meta) -> Instruction {
    let k = k();
    let (h, bump) = base_key(index);
    let t = req.token.min(TOKENS - 1);
    ix(req.enc(Enc::new(0).u32(index).u8(bump)).b(meta), vec![
        s(sender), w(wallet(&sender, t)), ws(payer), w(wallet(&payer, t)),
        w(k.pool), w(wallet(&k.pool, t)), w(k.collector), w(wallet(&k.collector, t)),
        ro(tok(0).price_key), ro(tok(t).price_key), ro(k.governor), ro(k.storage), w(h), w(k.bbuf), ro(tprog(t)), ro(system_program::ID),
    ]).with_sender_writable(t == 0)
}
trait Ext {
    fn with_sender_writable(self, yes: bool) -> Self;
}
impl Ext for Instruction {
    fn with_sender_writable(mut self, yes: bool) -> Self {
        if yes {
            self.accounts[0].is_writable = true
        }
        self
    }
}
pub fn ix_base_compute(index: u32) -> Instruction {
    ix(Enc::new(1).u32(index), vec![w(base_key(index).0)])
}
pub fn ix_base_finalize(payer: Pubkey, index: u32, fee_version: u32) -> Instruction {
    let k = k();
    ix(Enc::new(2).u32(index).u32(fee_version), vec![w(payer), w(k.pool), ro(fee_key(fee_version)), w(base_key(index).0), w(k.cq), w(k.mq)])
}
pub fn storage_children(ids: &[usize], writable: bool) -> Vec<AccountMeta> {
    ids.iter().map(|i| if writable { w(k().storage_children[*i]) } else { ro(k().storage_children[*i]) }).collect()
}
/// children touched by the path of the leaves [ordering, ordering + n)
pub fn path_children(ordering: u32, n: u32) -> Vec<usize> {
    let mut v: Vec<usize> = vec![];
    for o in [ordering, ordering + n - 1] {
        for l in 0..=HEIGHT {
            let idx = (1usize << l) - 1 + ((o as usize) >> (HEIGHT - l));
            v.push(idx / 83_887);
            // the sibling
            let sib = (1usize << l) - 1 + (((o as usize) >> (HEIGHT - l)) ^ if l == 0 { 0 } else { 1 });
            v.push(sib / 83_887);
        }
    }
    v.sort();
    v.dedup();
    v.retain(|x| *x < 25);
    v
}
pub fn ix_mt_setup(can_fail: bool, children: &[usize]) -> Instruction {
    let mut a = vec![w(k().mth), ro(k().storage)];
    a.extend(storage_children(children, false));
    ix(Enc::new(3).u8(can_fail as u8), a)
}
pub fn ix_mt_init(can_fail: bool, meta_children: &[usize]) -> Instruction {
    let k = k();
    let mut a = vec![w(k.cq), w(k.mq), w(k.mth), w(k.metadata)];
    a.extend(meta_children.iter().map(|i| w(k.metadata_children[*i])));
    ix(Enc::new(4).u8(can_fail as u8), a)
}
pub fn ix_mt_compute(payer: Pubkey, fee_version: u32, nonce: u32) -> Instruction {
    ix(Enc::new(5).u32(fee_version).u32(nonce), vec![ws(payer), ro(fee_key(fee_version)), w(k().pool), w(k().mth)])
}
pub fn ix_mt_finalize(children: &[usize]) -> Instruction {
    let mut a = vec![w(k().mth), w(k().storage)];
    a.extend(storage_children(children, true));
    ix(Enc::new(6), a)
}
pub fn ix_init_verification(payer: Pubkey, vi: u8, vkey_id: u32, trees: [u32; 2], r: &SendReq, skip: bool, identifier: Pubkey, nchildren: &[&[usize]; 2]) -> Instruction {
    let k = k();
    let mut a = vec![ws(payer), w(ver_key(&payer, vi)), ro(vkey_key(vkey_id)), w(dup_key(&r.nullifiers())), ro(system_program::ID), ro(identifier), ro(k.storage), w(k.cbuf)];
    for t in 0..2 {
        a.push(ro(null_key(trees[t])));
        a.extend(nchildren[t].iter().map(|i| ro(null_child(trees[t], *i))));
    }
    ix(r.enc(Enc::new(7).u8(vi).u32(vkey_id).u32(trees[0]).u32(trees[1])).u8(skip as u8), a)
}
pub fn ix_transfer_fee(payer: Pubkey, vi: u8, token: u16) -> Instruction {
    let k = k();
    let t = token.min(TOKENS - 1);
    ix(Enc::new(8).u8(vi), vec![
        ws(payer), w(wallet(&payer, t)), w(k.pool), w(wallet(&k.pool, t)), w(k.collector), w(wallet(&k.collector, t)),
        ro(tok(0).price_key), ro(tok(t).price_key), ro(k.governor), w(ver_key(&payer, vi)), ro(tprog(t)), ro(system_program::ID),
    ])
}
pub fn ix_init_proof(payer: Pubkey, vi: u8, proof: &[u8]) -> Instruction {
    ix(Enc::new(9).u8(vi).b(proof), vec![s(payer), w(ver_key(&payer, vi))])
}
pub fn ix_compute(payer: Pubkey, vi: u8, vkey_id: u32) -> Instruction {
    ix(Enc::new(10).u8(vi).u32(vkey_id), vec![ro(payer), w(ver_key(&payer, vi)), ro(vkey_key(vkey_id)), ro(vkey_child(vkey_id, 0)), ro(IX_SYSVAR)])
}
pub fn vkey_child(id: u32, i: u64) -> Pubkey {
    key_n("vkey-child", id as u64 * 16 + i)
}
#[derive(Clone, Debug, PartialEq)]
pub struct FinData {
    pub total: u64,
    pub token: u16,
    pub mt_index: u32,
    pub commitment_index: u32,
}
pub fn ix_fin_send(payer: Pubkey, vi: u8, x: &SendExtra, d: &FinData) -> Instruction {
    let k = k();
    ix(Enc::new(11).u8(vi).u64(d.total).u16(d.token).u32(d.mt_index).u32(d.commitment_index).b(&x.iv).b(&x.encrypted_owner).u8(x.memo.is_some() as u8), vec![
        ro(x.recipient), ro(x.identifier), ro(x.reference), ro(payer), w(k.cq), w(ver_key(&payer, vi)), ro(k.storage), w(k.cbuf), ro(IX_SYSVAR),
    ])
}
pub fn ix_fin_null(payer: Pubkey, vi: u8, tree: u32, children: &[usize]) -> Instruction {
    let mut a = vec![ro(payer), w(ver_key(&payer, vi)), w(null_key(tree))];
    a.extend(children.iter().map(|i| w(null_child(tree, *i))));
    ix(Enc::new(12).u8(vi), a)
}
pub fn ix_fin_lamports(payer: Pubkey, vi: u8, r: &SendReq, recipient: Pubkey) -> Instruction {
    let k = k();
    ix(Enc::new(13).u8(vi), vec![
        ws(payer), w(recipient), w(k.pool), w(k.collector), w(r.opt_collector), w(k.cq), w(k.mq), w(ver_key(&payer, vi)), w(dup_key(&r.nullifiers())),
        ro(system_program::ID), ro(IX_SYSVAR),
    ])
}
/// `recipient`: the token account; `wallet_`: its owner (associated accounts)
pub fn ix_fin_token(payer: Pubkey, vi: u8, r: &SendReq, recipient: Pubkey, wallet_: Pubkey) -> Instruction {
    let k = k();
    let t = r.token.clamp(1, TOKENS - 1);
    ix(Enc::new(14).u8(vi), vec![
        ws(payer), w(wallet(&payer, t)), w(recipient), ro(wallet_), w(k.pool), w(wallet(&k.pool, t)), w(k.collector), w(wallet(&k.collector, t)),
        w(r.opt_collector), w(k.cq), w(k.mq), w(ver_key(&payer, vi)), w(dup_key(&r.nullifiers())),
        ro(spl_associated_token_account::ID), ro(spl_token::ID), ro(system_program::ID), ro(tok(t).mint), ro(IX_SYSVAR),
    ])
}
pub fn ix_create_vkey(signer: Pubkey, id: u32, inputs: u32, authority: Option<Pubkey>) -> Instruction {
    let mut e = Enc::new(15).u32(id).u32(inputs);
    e = match authority {
        Some(a) => e.u8(1).b(a.as_ref()),
        None => e.u8(0).b(&[0; 32]),
    };
    ix(e, vec![ws(signer), w(vkey_key(id)), ro(system_program::ID)])
}
pub fn ix_vkey_version(signer: Pubkey, id: u32, bin: Pubkey) -> Instruction {
    ix(Enc::new(16).u32(id), vec![s(signer), w(vkey_key(id)), w(bin)])
}
pub fn ix_vkey_update(signer: Pubkey, id: u32, old: Pubkey) -> Instruction {
    ix(Enc::new(17).u32(id), vec![ws(signer), w(vkey_key(id)), w(old), ro(system_program::ID)])
}
pub fn ix_vkey_set(signer: Pubkey, id: u32, pos: u32, packet: &[u8], children: &[Pubkey]) -> Instruction {
    let mut a = vec![s(signer), w(vkey_key(id))];
    a.extend(children.iter().map(|c| w(*c)));
    ix(Enc::new(18).u32(id).u32(pos).u32(packet.len() as u32).b(packet), a)
}
pub fn ix_vkey_freeze(signer: Pubkey, id: u32) -> Instruction {
    ix(Enc::new(19).u32(id), vec![s(signer), w(vkey_key(id))])
}
pub fn ix_vkey_authority(signer: Pubkey, id: u32, to: Pubkey) -> Instruction {
    ix(Enc::new(20).u32(id).b(to.as_ref()), vec![s(signer), w(vkey_key(id))])
}
pub fn ix_reset_tree(index: u32, children: &[usize]) -> Instruction {
    let k = k();
    let mut a = vec![w(k.storage)];
    a.extend(storage_children(children, true));
    a.push(w(k.cq));
    a.push(w(null_key(index)));
    ix(Enc::new(21).u32(index), a)
}
pub fn ix_open_singles(payer: Pubkey) -> Instruction {
    let k = k();
    ix(Enc::new(23), vec![ws(payer), w(k.pool), w(k.collector), w(k.mth), w(k.cq), w(k.storage), w(k.bbuf), ro(system_program::ID)])
}
pub fn ix_open_nullifier(payer: Pubkey, i: u32) -> Instruction {
    ix(Enc::new(24).u32(i), vec![ws(payer), w(null_key(i)), ro(system_program::ID)])
}
pub fn ix_enable_storage(i: u32, child: Pubkey) -> Instruction {
    ix(Enc::new(25).u32(i), vec![w(k().storage), w(child)])
}
pub fn ix_enable_nullifier(tree: u32, i: u32, child: Pubkey) -> Instruction {
    ix(Enc::new(26).u32(tree).u32(i), vec![w(null_key(tree)), w(child)])
}
pub fn ix_enable_metadata(i: u32, child: Pubkey) -> Instruction {
    ix(Enc::new(27).u32(i), vec![w(k().metadata), w(child)])
}
pub fn ix_governor(payer: Pubkey) -> Instruction {
    ix(Enc::new(28), vec![ws(payer), w(k().governor), ro(system_program::ID)])
}
pub fn ix_fee_version(payer: Pubkey, v: u32, fee: &Fee) -> Instruction {
    ix(Enc::new(30).u32(v).b(&fee.encode()), vec![ws(payer), w(k().governor), w(fee_key(v)), ro(system_program::ID)])
}
pub fn ix_v1(payer: Pubkey) -> Instruction {
    let k = k();
    ix(Enc::new(32), vec![ws(payer), w(k.cbuf), w(k.mq), w(k.metadata), ro(k.storage), ro(k.mth), w(k.cq), ro(system_program::ID)])
}
pub fn ix_budget() -> Instruction {
    Instruction { program_id: budget_id(), accounts: vec![], data: vec![2, 0xc0, 0x5c, 0x15, 0] }
}
pub fn ix_memo(m: &[u8]) -> Instruction {
    Instruction { program_id: memo_id(), accounts: vec![], data: m.to_vec() }
}

// ------------------------------------------------------------------------------------ base world

pub const STORAGE_CHILD: usize = StorageChildAccount::SIZE;
pub const METADATA_CHILD: usize = MetadataChildAccount::SIZE;
pub const NULL_CHILD: usize = NullifierChildAccount::SIZE;
pub const VER_SIZE: usize = VerificationAccount::SIZE;
pub const DUP_SIZE: usize = NullifierDuplicateAccount::SIZE;
pub const BASE_SIZE: usize = BaseCommitmentHashingAccount::SIZE;

pub const USERS: u64 = 4;
pub const PAYERS: u64 = 3;
pub fn user(i: u64) -> Pubkey {
    key_n("user", i)
}
pub fn payer(i: u64) -> Pubkey {
    key_n("payer", i)
}
pub const RICH: u64 = 1 << 52;

pub fn default_fee() -> Fee {
    Fee {
        lamports_per_tx: 5000, base_network_bp: 13, proof_network_bp: 101, base_subvention: 1_777, proof_subvention: 2_345,
        hash_reward: 311, proof_reward: 7_919, proof_base_tx_count: PROOF_BASE_TX,
    }
}
/// the fee schedules the worlds are run with
pub fn fee_schedule(i: u32) -> Fee {
    let d = default_fee();
    match i % 6 {
        0 => d,
        // no subventions, odd numbers
        1 => Fee { lamports_per_tx: 5_003, base_network_bp: 100, proof_network_bp: 333, base_subvention: 0, proof_subvention: 0, hash_reward: 17, proof_reward: 101, ..d },
        // everything is free but the transactions
        2 => Fee { lamports_per_tx: 1, base_network_bp: 0, proof_network_bp: 0, base_subvention: 0, proof_subvention: 0, hash_reward: 0, proof_reward: 0, ..d },
        // highest subventions
        3 => Fee { lamports_per_tx: 5_000, base_network_bp: 50, proof_network_bp: 1, base_subvention: 11_500, proof_subvention: 300_000, hash_reward: 5, proof_reward: 0, ..d },
        // high
        4 => Fee { lamports_per_tx: 100_007, base_network_bp: 9_999, proof_network_bp: 2_500, base_subvention: 1, proof_subvention: 1, hash_reward: 99_991, proof_reward: 1_000_003, ..d },
        // beyond 32 bits
        _ => Fee { lamports_per_tx: 1 << 33, base_network_bp: 77, proof_network_bp: 9, base_subvention: 1 << 20, proof_subvention: 1 << 32, hash_reward: (1 << 34) + 1, proof_reward: 3 << 32, ..d },
    }
}
pub fn zero_child(size: usize) -> Acc {
    Acc::new(minivm_rent(size), vec![0; size], pid())
}
pub fn minivm_rent(n: usize) -> u64 {
    solana_program::rent::Rent::default().minimum_balance(n)
}

/// A VM with mints, prices and funded actors, nothing set up
pub fn empty_vm() -> Vm {
    let mut vm = Vm::new(pid(), elusiv::process_instruction);
    vm.set(IX_SYSVAR, Acc::new(1, vec![], sysvar::ID));
    let rent = vm.rent;
    for t in 0..TOKENS {
        if t > 0 {
            vm.set(tok(t).mint, mint_account(tok(t).decimals, None, &rent));
        }
        set_price(&mut vm, t, default_price(t), true);
    }
    for a in (0..USERS).map(user).chain((0..PAYERS).map(payer)) {
        vm.set(a, Acc::new(RICH, vec![], system_program::ID));
        for t in 1..TOKENS {
            vm.set(ata(&a, t), token_account(tok(t).mint, a, RICH, &rent));
            vm.set(wallet2(&a, t), token_account(tok(t).mint, a, RICH, &rent));
        }
    }
    // anybody can open more token accounts in the program's name
    for t in 1..TOKENS {
        for o in [k().pool, k().collector] {
            vm.set(wallet2(&o, t), token_account(tok(t).mint, o, 1 << 44, &rent));
        }
    }
    // accounts with a delegate, and accounts somebody else may close
    for t in 1..TOKENS {
        for (who, delegate) in [(user(1), true), (user(2), false)] {
            let d = vm.data_mut(&ata(&who, t));
            let mut x = spl_token::state::Account::unpack(d).unwrap();
            if delegate {
                (x.delegate, x.delegated_amount) = (Some(user(0)).into(), 7);
            } else {
                x.close_authority = Some(user(0)).into();
            }
            spl_token::state::Account::pack(x, d).unwrap();
        }
    }
    vm.set(blank_account(), Acc::new(rent.minimum_balance(165), vec![0; 165], spl_token::ID));
    vm
}
/// an account of the token program that is no initialized token account
pub fn blank_account() -> Pubkey {
    key_n("blank token account", 0)
}
pub fn set_price(vm: &mut Vm, t: u16, p: P, trading: bool) {
    let d = price_data(p, trading);
    vm.set(tok(t).price_key, Acc::new(minivm_rent(d.len()), d, key_n("pyth", 0)));
}
pub fn get_price(vm: &Vm, key: &Pubkey) -> Option<P> {
    let d = vm.data(key);
    if d.len() != std::mem::size_of::<PriceAccount>() {
        return None;
    }
    let a: PriceAccount = unsafe { std::ptr::read_unaligned(d.as_ptr() as *const PriceAccount) };
    if a.magic != MAGIC || a.ver != VERSION_2 || a.atype != AccountType::Price as u32 || a.agg.status != pyth_sdk_solana::PriceStatus::Trading {
        return None;
    }
    Some(P { price: a.agg.price, conf: a.agg.conf, expo: a.expo })
}

/// Shared zeroed data of the big child accounts
pub fn zeros(n: usize) -> Arc<Vec<u8>> {
    static Z: OnceLock<std::sync::Mutex<std::collections::HashMap<usize, Arc<Vec<u8>>>>> = OnceLock::new();
    Z.get_or_init(Default::default).lock().unwrap().entry(n).or_insert_with(|| Arc::new(vec![0; n])).clone()
}
pub fn put_child(vm: &mut Vm, key: Pubkey, size: usize) {
    vm.set(key, Acc { lamports: minivm_rent(size), data: zeros(size), owner: pid(), executable: false });
}

/// Runs the program's setup sequence
pub fn setup(vm: &mut Vm, fee: &Fee, trees: u32, rate: u32) -> Result<(), String> {
    let p = payer(0);
    let mut run = |vm: &mut Vm, i: Instruction, what: &str| vm.one(&i).map_err(|e| format!("{}: {:?}", what, e));
    run(vm, ix_governor(p), "SetupGovernorAccount")?;
    run(vm, ix_open_singles(p), "OpenSingleInstanceAccounts")?;
    run(vm, ix_fee_version(p, 0, fee), "InitNewFeeVersion")?;
    run(vm, ix_v1(p), "CreateNewAccountsV1")?;
    for i in 0..25 {
        put_child(vm, k().storage_children[i], STORAGE_CHILD);
        run(vm, ix_enable_storage(i as u32, k().storage_children[i]), "EnableStorageChildAccount")?;
    }
    for i in 0..16 {
        put_child(vm, k().metadata_children[i], METADATA_CHILD);
        run(vm, ix_enable_metadata(i as u32, k().metadata_children[i]), "EnableMetadataChildAccount")?;
    }
    for t in 0..trees {
        run(vm, ix_open_nullifier(p, t), "OpenNullifierAccount")?;
        for i in 0..16 {
            put_child(vm, null_child(t, i), NULL_CHILD);
            run(vm, ix_enable_nullifier(t, i as u32, null_child(t, i)), "EnableNullifierChildAccount")?;
        }
    }
    if rate != 0 {
        // the governor has no upgrade instruction: seed the configured batching rate
        seed_rate(vm, rate);
    }
    let rent = vm.rent;
    for t in 1..TOKENS {
        for o in [k().pool, k().collector] {
            vm.set(ata(&o, t), token_account(tok(t).mint, o, 0, &rent));
        }
    }
    // the fee collector pays the subventions, the pool keeps a working balance of lamports for hashing
    for t in 1..TOKENS {
        vm.set(ata(&k().collector, t), token_account(tok(t).mint, k().collector, 1 << 44, &rent));
    }
    vm.accounts.get_mut(&k().collector).unwrap().lamports += 1 << 44;
    Ok(())
}
pub fn seed_rate(vm: &mut Vm, rate: u32) {
    use elusiv_types::ProgramAccount;
    let d = vm.data_mut(&k().governor);
    let mut g = GovernorAccount::new(d).unwrap();
    g.set_commitment_batching_rate(&rate);
}
/// base worlds are built once per process and shared copy-on-write
pub fn base_vm(rate: u32, fee: u32) -> Vm {
    static B: OnceLock<std::sync::Mutex<std::collections::HashMap<(u32, u32), Vm>>> = OnceLock::new();
    let mut m = B.get_or_init(Default::default).lock().unwrap();
    m.entry((rate, fee))
        .or_insert_with(|| {
            minivm::trace::hush(|| {
                let mut vm = empty_vm();
                setup(&mut vm, &fee_schedule(fee), 3, rate).expect("setup");
                crate::groth::install(&mut vm);
                vm
            })
        })
        .clone()
}
pub fn token_unpack(vm: &Vm, key: &Pubkey) -> Option<spl_token::state::Account> {
    let a = vm.get(key);
    if a.owner != spl_token::ID {
        return None;
    }
    spl_token::state::Account::unpack(&a.data).ok()
}
