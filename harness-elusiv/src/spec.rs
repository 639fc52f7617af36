//! Executable specification of the program, evaluated transaction by transaction next to the real program.
//! It is written from the protocol's documentation and the meaning of the instructions, keeps its own
//! state (`Model`) and predicts for each transaction: acceptance, every lamport and token movement, and the
//! resulting protocol state.
use crate::env::*;
use crate::refm::*;
use minivm::Vm;
use solana_program::{instruction::Instruction, pubkey::Pubkey, system_program, sysvar};
use std::collections::{BTreeMap, BTreeSet, HashMap, VecDeque};
use std::sync::Arc;

pub type Tags = &'static [&'static str];
#[derive(Debug, Clone)]
pub struct Rej {
    pub why: &'static str,
    pub tags: Tags,
}
pub type R<T = ()> = Result<T, Rej>;
macro_rules! rej { ($why:expr, $($t:literal),+) => { return Err(Rej { why: $why, tags: &[$($t),+] }) } }
macro_rules! req { ($c:expr, $why:expr, $($t:literal),+) => { if !($c) { rej!($why, $($t),+) } } }

// ------------------------------------------------------------------------------------ model

#[derive(Clone, Debug, PartialEq)]
pub struct Base {
    pub idx: u32,
    pub req: BaseReq,
    pub meta: Meta,
    pub payer: Pubkey,
    pub instr: u32,
    pub active: bool,
}
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Mth {
    pub setup: bool,
    pub active: bool,
    pub ordering: u32,
    pub rate: u32,
    pub fee_version: u32,
    pub instr: u32,
    pub fin: u32,
    pub batch: Vec<U256>,
}
#[derive(Clone, Copy, Debug, PartialEq, PartialOrd, Eq)]
pub enum St {
    None,
    FeeTransferred,
    ProofSetup,
    InsertNullifiers,
    Finalized,
    Closed,
}
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Other {
    pub min_rate: u32,
    pub token: u16,
    pub subvention: u64,
    pub network_fee: u64,
    pub ch_fee: u64,
    pub ch_fee_token: u64,
    pub proof_fee: u64,
    pub ata_rent_token: u64,
    pub payer_account: Pubkey,
}
#[derive(Clone, Debug)]
pub struct Ver {
    pub payer: Pubkey,
    pub vi: u8,
    pub vkey: u32,
    pub req: SendReq,
    pub trees: [u32; 2],
    pub skip: bool,
    pub state: St,
    pub verdict: Option<bool>,
    pub other: Other,
    pub recipient: Option<Pubkey>,
    pub inserted: u32,
    pub prep: usize,
    pub proof: Option<Vec<u8>>,
    pub ata_lamports: u64,
}
#[derive(Clone, Debug, Default)]
pub struct Nulls {
    pub root: U256,
    pub set: Arc<BTreeSet<[u64; 4]>>,
    pub children: Vec<Option<Pubkey>>,
    /// values waiting to be moved to the next segment
    pub moving: bool,
}
/// nullifiers are ordered as big integers
pub fn ord(v: &U256) -> [u64; 4] {
    let l = limbs(v);
    [l[3], l[2], l[1], l[0]]
}
#[derive(Clone)]
pub struct Model {
    pub fee_version: u32,
    pub rate: u32,
    pub fees: HashMap<u32, Fee>,
    pub trees_count: u32,
    pub ptr: u32,
    pub tree: Arc<Tree>,
    pub roots: VecDeque<U256>,
    pub roots_count: u32,
    /// roots that are no longer valid
    pub stale: VecDeque<U256>,
    pub meta: Arc<HashMap<u32, Meta>>,
    pub meta_ptr: u32,
    pub cq: VecDeque<(U256, u32, u32)>,
    pub mq: VecDeque<Meta>,
    pub bbuf: VecDeque<U256>,
    /// (insertion ring) None: entry of a rejected send that was withdrawn
    pub cbuf: VecDeque<Option<U256>>,
    pub base: BTreeMap<Pubkey, Base>,
    pub mth: Mth,
    pub ver: BTreeMap<Pubkey, Ver>,
    pub dups: BTreeSet<Pubkey>,
    pub nulls: BTreeMap<u32, Nulls>,
    /// unspent notes per token
    pub notes: [u128; TOKENS as usize],
    /// every accepted leaf in order over all trees (commitment, metadata)
    pub leaves_expected: Arc<Vec<(U256, Meta)>>,
    pub paid_out: u64,
}
impl Model {
    /// the state after `setup`
    pub fn after_setup(fee: &Fee, trees: u32, rate: u32) -> Self {
        let mut fees = HashMap::new();
        fees.insert(0, fee.clone());
        Model {
            fee_version: 0,
            rate,
            fees,
            trees_count: 0,
            ptr: 0,
            tree: Arc::new(Tree::default()),
            roots: VecDeque::new(),
            roots_count: 0,
            stale: VecDeque::new(),
            meta: Default::default(),
            meta_ptr: 0,
            cq: VecDeque::new(),
            mq: VecDeque::new(),
            bbuf: VecDeque::new(),
            cbuf: VecDeque::new(),
            base: BTreeMap::new(),
            mth: Mth::default(),
            ver: BTreeMap::new(),
            dups: BTreeSet::new(),
            nulls: (0..trees).map(|t| (t, Nulls { children: (0..16).map(|i| Some(null_child(t, i))).collect(), ..Default::default() })).collect(),
            notes: [0; TOKENS as usize],
            leaves_expected: Default::default(),
            paid_out: 0,
        }
    }
    pub fn fee(&self) -> &Fee {
        &self.fees[&self.fee_version]
    }
    /// the batch the next hashing has to take (None: too few commitments)
    pub fn next_batch(&self) -> Option<(usize, u32, u32)> {
        let (mut n, mut rate, fv) = (0usize, 0u32, self.cq.front()?.1);
        loop {
            let (_, v, r) = *self.cq.get(n)?;
            if v != fv {
                return None;
            }
            rate = rate.max(r);
            n += 1;
            if n >= 1 << rate {
                return Some((n, rate, fv));
            }
        }
    }
    pub fn full(&self) -> Option<bool> {
        if self.ptr >= TREE_LEAVES {
            return Some(true);
        }
        let (n, _, _) = self.next_batch()?;
        Some(self.ptr as usize + n > TREE_LEAVES as usize)
    }
    fn recent_ok(&self, r: u32) -> bool {
        r <= self.ptr && self.ptr - r < BUFFER_LEN as u32
    }
    /// the lower bound of what the pool must hold (lamports, tokens)
    pub fn obligations(&self, rate_of_pool_rent: u64) -> [u128; TOKENS as usize] {
        let mut o = self.notes;
        o[0] += rate_of_pool_rent as u128;
        for b in self.base.values().filter(|b| b.active) {
            let f = &self.fees[&b.req.fee_version];
            o[0] += f.base_hash() + f.commitment_hash(b.req.rate);
        }
        for (_, v, r) in &self.cq {
            o[0] += self.fees[v].commitment_hash(*r);
        }
        if self.mth.active {
            let f = &self.fees[&self.mth.fee_version];
            o[0] += (HASH_IXS[self.mth.rate as usize] as u128).saturating_sub(self.mth.instr as u128) * f.comp();
        }
        for v in self.ver.values() {
            if v.state >= St::FeeTransferred && v.state != St::Closed {
                o[0] += v.other.ch_fee as u128 + v.ata_lamports as u128;
                o[v.other.token as usize] += v.other.subvention as u128;
            }
        }
        o
    }
}

// ------------------------------------------------------------------------------------ simulation of one transaction

#[derive(Clone, Debug, PartialEq)]
pub struct TokAcc {
    pub mint: Pubkey,
    pub owner: Pubkey,
    pub amount: u64,
    pub frozen: bool,
}
pub struct Sim<'a> {
    pub vm: &'a Vm,
    pub m: Model,
    pub lam: BTreeMap<Pubkey, u64>,
    pub tok: BTreeMap<Pubkey, TokAcc>,
    /// accounts created (owner, length)
    pub made: BTreeMap<Pubkey, (Pubkey, usize)>,
    pub keys: BTreeMap<Pubkey, (bool, bool)>,
    pub ixs: &'a [Instruction],
    pub cur: usize,
    /// acceptance cannot be predicted, effects can
    pub maybe: Option<&'static str>,
    /// nothing can be predicted
    pub unknown: Option<&'static str>,
    /// hashing setup state must be read back
    pub sync_setup: bool,
    pub sync_ver: Vec<Pubkey>,
    pub sync_moving: Vec<u32>,
    pub notes: Vec<&'static str>,
    /// program accounts the transaction may change according to the specification
    pub touched: BTreeSet<Pubkey>,
}
struct Cur<'b> {
    ix: &'b Instruction,
    at: usize,
}
impl<'b> Cur<'b> {
    fn next(&mut self) -> R<Pubkey> {
        match self.ix.accounts.get(self.at) {
            Some(m) => {
                self.at += 1;
                Ok(m.pubkey)
            }
            None => rej!("account missing", "A01"),
        }
    }
    fn expect(&mut self, k: Pubkey, why: &'static str) -> R<Pubkey> {
        let a = self.next()?;
        req!(a == k, why, "A01");
        Ok(a)
    }
}
pub fn lamport_of(v: u128) -> Option<u64> {
    u64::try_from(v).ok()
}

impl<'a> Sim<'a> {
    pub fn new(vm: &'a Vm, m: &Model, ixs: &'a [Instruction]) -> Self {
        let mut keys: BTreeMap<Pubkey, (bool, bool)> = BTreeMap::new();
        for ix in ixs {
            keys.entry(ix.program_id).or_default();
            for a in &ix.accounts {
                let e = keys.entry(a.pubkey).or_default();
                e.0 |= a.is_signer;
                e.1 |= a.is_writable;
            }
        }
        Sim {
            vm, m: m.clone(), lam: BTreeMap::new(), tok: BTreeMap::new(), made: BTreeMap::new(), keys, ixs, cur: 0, maybe: None, unknown: None,
            sync_setup: false, sync_ver: vec![], sync_moving: vec![], notes: vec![], touched: BTreeSet::new(),
        }
    }
    fn lam(&self, k: &Pubkey) -> u64 {
        self.lam.get(k).copied().unwrap_or_else(|| self.vm.lamports(k))
    }
    fn owner(&self, k: &Pubkey) -> Pubkey {
        self.made.get(k).map(|m| m.0).unwrap_or_else(|| self.vm.accounts.get(k).map(|a| a.owner).unwrap_or(system_program::ID))
    }
    fn len(&self, k: &Pubkey) -> usize {
        self.made.get(k).map(|m| m.1).unwrap_or_else(|| self.vm.accounts.get(k).map(|a| a.data.len()).unwrap_or(0))
    }
    fn rent(&self, n: usize) -> u64 {
        self.vm.rent.minimum_balance(n)
    }
    fn signer(&self, k: &Pubkey) -> bool {
        self.keys.get(k).map(|x| x.0).unwrap_or(false)
    }
    fn writable(&self, k: &Pubkey) -> bool {
        self.keys.get(k).map(|x| x.1).unwrap_or(false)
            && !self.vm.accounts.get(k).map(|a| a.executable || a.owner == sysvar::ID).unwrap_or(false)
    }
    fn need_signer(&self, k: &Pubkey) -> R {
        req!(self.signer(k), "missing signature", "A01");
        Ok(())
    }
    /// the program writes this account's data
    fn data_w(&mut self, k: &Pubkey) {
        self.touched.insert(*k);
        if !self.writable(k) {
            self.maybe.get_or_insert("written account is not writable");
        }
    }
    fn odd(&mut self, why: &'static str) {
        self.unknown.get_or_insert(why);
    }
    pub fn tacc(&self, k: &Pubkey) -> Option<TokAcc> {
        if let Some(t) = self.tok.get(k) {
            return Some(t.clone());
        }
        if self.made.contains_key(k) {
            return None;
        }
        let t = token_unpack(self.vm, k)?;
        Some(TokAcc { mint: t.mint, owner: t.owner, amount: t.amount, frozen: t.is_frozen() })
    }
    fn sys_transfer(&mut self, from: &Pubkey, to: &Pubkey, amount: u64) -> R {
        req!(self.signer(from), "system transfer without signature", "A01");
        req!(self.writable(from) && self.writable(to), "system transfer between readonly accounts", "A01");
        req!(self.len(from) == 0, "system transfer from an account with data", "A01", "F01");
        req!(amount <= self.lam(from), "insufficient lamports", "F01", "F02", "F04");
        req!(amount == 0 || self.owner(from) == system_program::ID, "system transfer from a foreign account", "A01", "F01");
        if from != to {
            let f = self.lam(from) - amount;
            let t = match self.lam(to).checked_add(amount) {
                Some(t) => t,
                None => rej!("lamport overflow", "F01"),
            };
            self.lam.insert(*from, f);
            self.lam.insert(*to, t);
        }
        Ok(())
    }
    /// lamports leave a program account, which must stay rent exempt
    fn pda_pay(&mut self, from: &Pubkey, to: &Pubkey, amount: u64) -> R {
        let l = self.lam(from);
        req!(l.checked_sub(amount).map(|x| x >= self.rent(self.len(from))).unwrap_or(false), "program account would drop below its rent", "F01");
        self.raw_pay(from, to, amount)
    }
    fn raw_pay(&mut self, from: &Pubkey, to: &Pubkey, amount: u64) -> R {
        let l = self.lam(from);
        req!(amount <= l, "program account has too few lamports", "F01");
        if amount == 0 || from == to {
            return Ok(());
        }
        req!(self.writable(from) && self.writable(to), "lamports moved between readonly accounts", "A01");
        self.lam.insert(*from, l - amount);
        let t = match self.lam(to).checked_add(amount) {
            Some(t) => t,
            None => rej!("lamport overflow", "F01"),
        };
        self.lam.insert(*to, t);
        Ok(())
    }
    fn close(&mut self, key: &Pubkey, to: &Pubkey) -> R {
        self.raw_pay(key, to, self.lam(key))
    }
    fn spl_transfer(&mut self, authority: &Pubkey, auth_ok: bool, src: &Pubkey, dst: &Pubkey, amount: u64, program: &Pubkey) -> R {
        req!(*program == spl_token::ID, "wrong token program", "A01");
        req!(self.owner(src) == spl_token::ID && self.owner(dst) == spl_token::ID, "not a token account", "A01");
        req!(auth_ok, "token transfer without the owner's signature", "A01");
        req!(self.writable(src) && self.writable(dst), "token transfer between readonly accounts", "A01");
        let (s, d) = match (self.tacc(src), self.tacc(dst)) {
            (Some(s), Some(d)) => (s, d),
            _ => rej!("not an initialized token account", "A01"),
        };
        req!(!s.frozen && !d.frozen, "frozen token account", "A01");
        req!(s.amount >= amount, "insufficient tokens", "F01", "F02", "F04");
        req!(s.mint == d.mint, "token mismatch", "A01", "F01");
        req!(s.owner == *authority, "token transfer by someone who is not the owner", "A01", "F01");
        if src != dst {
            let t = match d.amount.checked_add(amount) {
                Some(t) => t,
                None => rej!("token overflow", "F01"),
            };
            self.tok.insert(*src, TokAcc { amount: s.amount - amount, ..s });
            self.tok.insert(*dst, TokAcc { amount: t, ..d });
        }
        Ok(())
    }
    /// a user pays in a token
    fn user_pay(&mut self, token: u16, who: &Pubkey, acc: &Pubkey, dst: &Pubkey, program: &Pubkey, amount: u64) -> R {
        if token == 0 {
            req!(*program == system_program::ID, "wrong system program", "A01");
            self.sys_transfer(who, dst, amount)
        } else {
            let ok = self.signer(who);
            self.spl_transfer(who, ok, acc, dst, amount, program)
        }
    }
    /// a program account pays in a token
    fn prog_pay(&mut self, token: u16, who: &Pubkey, acc: &Pubkey, dst: &Pubkey, program: &Pubkey, amount: u64) -> R {
        if token == 0 {
            self.pda_pay(who, dst, amount)
        } else {
            self.spl_transfer(who, true, acc, dst, amount, program)
        }
    }
    fn open(&mut self, payer: &Pubkey, key: &Pubkey, size: usize) -> R {
        let r = self.rent(size);
        req!(self.lam(payer) >= r, "payer cannot pay the rent", "A02", "F01");
        req!(self.signer(payer) && self.writable(payer) && self.writable(key), "account creation without signature or on a readonly account", "A01");
        // lamports that somebody has sent there before do not matter
        req!(self.owner(key) == system_program::ID && self.len(key) == 0, "account exists already", "A02", "V03", "N01", "F01");
        if payer == key {
            self.odd("payer opens itself");
            return Ok(());
        }
        let have = self.lam(key);
        let missing = r.saturating_sub(have);
        req!(missing == 0 || self.len(payer) == 0 && self.owner(payer) == system_program::ID, "rent paid by an account with data", "A01", "F01");
        let p = self.lam(payer) - missing;
        self.lam.insert(*payer, p);
        self.lam.insert(*key, have + missing);
        self.made.insert(*key, (pid(), size));
        self.touched.insert(*key);
        Ok(())
    }
    /// segment accounts following their parent: which are supplied
    fn children(&mut self, c: &mut Cur, known: &[Option<Pubkey>], writable: bool) -> R<Vec<bool>> {
        let mut got = vec![false; known.len()];
        let (mut i, mut consumed, mut peek) = (0, 0, c.at);
        while i < known.len() {
            let k = match c.ix.accounts.get(peek) {
                Some(m) => m.pubkey,
                None => break,
            };
            peek += 1;
            if let Some(j) = (i..known.len()).find(|j| known[*j] == Some(k)) {
                req!(self.owner(&k) == pid(), "segment not owned by the program", "A01");
                req!(!writable || self.writable(&k), "segment to be written is readonly", "A01");
                if writable {
                    self.touched.insert(k);
                }
                got[j] = true;
                consumed += 1;
                i = j;
            }
            i += 1;
        }
        c.at += consumed;
        Ok(got)
    }
    fn storage_known() -> Vec<Option<Pubkey>> {
        k().storage_children.iter().map(|c| Some(*c)).collect()
    }
    fn fee_acc(&mut self, c: &mut Cur, v: u32) -> R<Fee> {
        c.expect(fee_key(v), "wrong fee account")?;
        match self.m.fees.get(&v) {
            Some(f) => Ok(f.clone()),
            None => rej!("unknown fee version", "A02", "A01"),
        }
    }
    fn need_children(&mut self, got: &[bool], want: &[usize]) {
        if want.iter().any(|w| !got[*w]) {
            self.maybe.get_or_insert("segment not supplied");
        }
    }
    fn price_factor(&self, token: u16, sol: &Pubkey, tokp: &Pubkey) -> R<Option<(P, P)>> {
        if token == 0 {
            return Ok(None);
        }
        req!(*sol == tok(0).price_key && *tokp == tok(token).price_key, "wrong price account", "A01", "T01", "F02", "F04");
        let load = |key: &Pubkey, t: u16| get_price(self.vm, key).and_then(|p| p_base(p, tok(t).base_exp));
        match (load(sol, 0), load(tokp, token)) {
            (Some(a), Some(b)) => Ok(Some((a, b))),
            _ => rej!("price not available", "T01"),
        }
    }
    fn conv(&self, p: &Option<(P, P)>, token: u16, lamports: u128) -> R<u64> {
        let v = match p {
            None => u64::try_from(lamports).ok(),
            Some((l, t)) => lamports_in_token(lamports, *l, *t, tok(token).decimals),
        };
        match v {
            Some(v) => Ok(v),
            None => rej!("fee not representable in the token", "T01", "F02", "F04", "O01"),
        }
    }
    fn own_token_acc(&self, who: &Pubkey, acc: &Pubkey, token: u16) -> R {
        req!(*acc == ata(who, token), "not the program's own token account", "A01", "F01");
        Ok(())
    }

    // -------------------------------------------------------------------------------- instructions

    pub fn run(&mut self) -> R {
        for n in 0..self.ixs.len() {
            self.cur = n;
            let ix = &self.ixs[n];
            if ix.program_id == pid() {
                self.ix(ix)?;
            } else {
                self.foreign(ix)?;
            }
            if self.unknown.is_some() {
                return Ok(());
            }
        }
        // accounts must end up empty or rent exempt
        for (key, (_, w)) in &self.keys {
            if !*w {
                continue;
            }
            let (l, n) = (self.lam(key), self.len(key));
            if l == 0 || self.vm.rent.is_exempt(l, n) {
                continue;
            }
            let (pl, pn) = (self.vm.lamports(key), self.vm.data(key).len());
            req!(pl > 0 && !self.vm.rent.is_exempt(pl, pn) && pn == n && l <= pl, "account left below its rent", "F01", "F03");
        }
        // emptied accounts disappear
        let gone: Vec<Pubkey> = self.m.ver.keys().chain(self.m.base.keys()).chain(self.m.dups.iter()).filter(|x| self.lam(x) == 0).copied().collect();
        for g in gone {
            self.m.ver.remove(&g);
            self.m.base.remove(&g);
            self.m.dups.remove(&g);
        }
        Ok(())
    }
    fn foreign(&mut self, ix: &Instruction) -> R {
        if ix.program_id == memo_id() || ix.program_id == budget_id() {
            return Ok(());
        }
        if ix.program_id == system_program::ID && ix.data.len() == 12 && ix.data[..4] == [2, 0, 0, 0] && ix.accounts.len() == 2 {
            let a = u64::from_le_bytes(ix.data[4..].try_into().unwrap());
            let (f, t) = (ix.accounts[0].pubkey, ix.accounts[1].pubkey);
            if !self.writable(&f) || !self.writable(&t) {
                self.odd("system transfer with readonly accounts");
                return Ok(());
            }
            return self.sys_transfer(&f, &t, a);
        }
        if ix.program_id == spl_token::ID && ix.data.len() == 9 && ix.data[0] == 3 && ix.accounts.len() >= 3 {
            let a = u64::from_le_bytes(ix.data[1..].try_into().unwrap());
            let (f, t, o) = (ix.accounts[0].pubkey, ix.accounts[1].pubkey, ix.accounts[2].pubkey);
            if !self.writable(&f) || !self.writable(&t) {
                self.odd("token transfer with readonly accounts");
                return Ok(());
            }
            let ok = self.signer(&o);
            return self.spl_transfer(&o, ok, &f, &t, a, &spl_token::ID);
        }
        self.odd("foreign program");
        Ok(())
    }
    fn ix(&mut self, ix: &Instruction) -> R {
        let mut d = Dec(&ix.data);
        let v = match d.u8() {
            Some(v) => v,
            None => rej!("no instruction", "S01"),
        };
        let mut c = Cur { ix, at: 0 };
        macro_rules! dec {
            ($e:expr) => {
                match $e {
                    Some(v) => v,
                    None => rej!("undecodable instruction data", "S01"),
                }
            };
        }
        match v {
            0 => {
                let (i, b) = (dec!(d.u32()), dec!(d.u8()));
                let r = dec!(BaseReq::dec(&mut d));
                let m = dec!(d.meta());
                self.store(&mut c, i, b, r, m)
            }
            1 => {
                let i = dec!(d.u32());
                let a = c.next()?;
                let b = match self.m.base.get_mut(&a) {
                    Some(b) if b.idx == i => b,
                    _ => rej!("not the addressed hashing account", "A01", "H01"),
                };
                req!(b.active, "hashing is not active", "C01", "H01", "F01");
                req!(b.instr < 2, "hashing is complete", "H01", "C01");
                b.instr += 1;
                self.data_w(&a);
                Ok(())
            }
            2 => {
                let (i, v) = (dec!(d.u32()), dec!(d.u32()));
                self.base_finalize(&mut c, i, v)
            }
            3 => {
                let can_fail = dec!(d.bool());
                c.expect(k().mth, "wrong hashing account")?;
                c.expect(k().storage, "wrong storage account")?;
                let got = self.children(&mut c, &Self::storage_known(), false)?;
                self.data_w(&k().mth);
                if self.m.mth.active {
                    req!(can_fail, "hashing is active", "H01", "C01", "M01");
                    return Ok(());
                }
                if self.m.ptr < TREE_LEAVES {
                    let want = path_children(self.m.ptr, 1);
                    if want.iter().any(|w| !got[*w]) {
                        self.maybe.get_or_insert("segment not supplied");
                        if can_fail {
                            self.sync_setup = true;
                        }
                    }
                }
                self.m.mth.setup = true;
                self.m.mth.ordering = self.m.ptr;
                Ok(())
            }
            4 => {
                let can_fail = dec!(d.bool());
                self.mt_init(&mut c, can_fail)
            }
            5 => {
                let (v, _n) = (dec!(d.u32()), dec!(d.u32()));
                let p = c.next()?;
                self.need_signer(&p)?;
                let fee = self.fee_acc(&mut c, v)?;
                c.expect(k().pool, "wrong pool")?;
                c.expect(k().mth, "wrong hashing account")?;
                req!(self.m.mth.active, "hashing is not active", "H01", "C01", "F01");
                req!(self.m.mth.fee_version == v, "wrong fee version", "A02", "F01");
                req!((self.m.mth.instr as usize) < HASH_IXS[self.m.mth.rate as usize], "hashing is complete", "H01", "F01");
                self.m.mth.instr += 1;
                self.data_w(&k().mth);
                let comp = match lamport_of(fee.comp()) {
                    Some(c) => c,
                    None => rej!("fee overflow", "O01"),
                };
                self.pda_pay(&k().pool, &p, comp)
            }
            6 => self.mt_finalize(&mut c),
            7 => {
                let (vi, vk, t0, t1) = (dec!(d.u8()), dec!(d.u32()), dec!(d.u32()), dec!(d.u32()));
                if d.0.first() == Some(&1) {
                    rej!("migrations are not available", "V02", "V03")
                }
                if d.0.first() == Some(&0) && d.0.len() > 5 && u32::from_le_bytes(d.0[1..5].try_into().unwrap()) > 8 {
                    rej!("too many inputs", "V02", "N01")
                }
                let r = dec!(SendReq::dec(&mut d));
                let skip = dec!(d.bool());
                self.init_verification(&mut c, vi, vk, [t0, t1], r, skip)
            }
            8 => {
                let vi = dec!(d.u8());
                self.transfer_fee(&mut c, vi)
            }
            9 => {
                let vi = dec!(d.u8());
                let proof = dec!(d.take(259)).to_vec();
                let p = c.next()?;
                self.need_signer(&p)?;
                let key = c.expect(ver_key(&p, vi), "not the payer's verification account")?;
                let w = self.ver(&key)?;
                req!(w.state == St::FeeTransferred, "wrong phase", "V03", "V01");
                req!(w.verdict.is_none(), "verification is decided", "V03", "V01");
                req!(crate::groth::decode_points(&proof).is_some(), "malformed proof", "V01");
                let w = self.m.ver.get_mut(&key).unwrap();
                w.state = St::ProofSetup;
                w.proof = Some(proof);
                self.data_w(&key);
                Ok(())
            }
            10 => {
                let (vi, vk) = (dec!(d.u8()), dec!(d.u32()));
                let p = c.next()?;
                let key = c.expect(ver_key(&p, vi), "not the payer's verification account")?;
                let w = self.ver(&key)?;
                c.expect(vkey_key(vk), "wrong verifying key account")?;
                req!(vk == 0, "unknown verifying key", "K01", "V01", "A01");
                let known: Vec<_> = (0..2).map(|i| if i == 0 { Some(vkey_child(vk, 0)) } else { None }).collect();
                let got = self.children(&mut c, &known, false)?;
                req!(got[0], "verifying key data not supplied", "V01", "K01", "A01");
                c.expect(IX_SYSVAR, "wrong instructions sysvar")?;
                req!(w.vkey == vk, "wrong verifying key", "K01", "V01");
                req!(w.verdict.is_none(), "verification is decided", "V01", "V03");
                req!(matches!(w.state, St::None | St::ProofSetup), "wrong phase", "V03", "V01");
                self.maybe.get_or_insert("step of a proof verification");
                self.sync_ver.push(key);
                self.data_w(&key);
                Ok(())
            }
            11 => {
                let vi = dec!(d.u8());
                let f = FinData { total: dec!(d.u64()), token: dec!(d.u16()), mt_index: dec!(d.u32()), commitment_index: dec!(d.u32()) };
                let (iv, eo, memo) = (dec!(d.b32()), dec!(d.b32()), dec!(d.bool()));
                self.fin_send(&mut c, vi, f, iv, eo, memo)
            }
            12 => {
                let vi = dec!(d.u8());
                self.fin_null(&mut c, vi)
            }
            13 => {
                let vi = dec!(d.u8());
                self.fin_lamports(&mut c, vi)
            }
            14 => {
                let vi = dec!(d.u8());
                self.fin_token(&mut c, vi)
            }
            15..=20 => {
                let id = dec!(d.u32());
                let s = c.next()?;
                self.need_signer(&s)?;
                c.expect(vkey_key(id), "wrong verifying key account")?;
                req!(id == 0, "unknown verifying key", "K01");
                req!(v != 15, "verifying key exists already", "K01", "A02");
                req!(s == crate::groth::vkey_authority(), "not the key's authority", "K01", "A01");
                self.odd("verifying key management");
                Ok(())
            }
            21 => {
                let i = dec!(d.u32());
                self.reset(&mut c, i)
            }
            22 => rej!("archiving is not available", "M01"),
            23 => rej!("accounts are open already", "A02"),
            24 => {
                let i = dec!(d.u32());
                let p = c.next()?;
                self.need_signer(&p)?;
                let a = c.expect(null_key(i), "wrong nullifier account")?;
                c.expect(system_program::ID, "wrong system program")?;
                req!(!self.m.nulls.contains_key(&i), "tree account exists already", "A02", "N01");
                self.open(&p, &a, self.vm.data(&null_key(0)).len())?;
                self.m.nulls.insert(i, Nulls { children: vec![None; 16], ..Default::default() });
                Ok(())
            }
            25 | 27 => rej!("all segments are set", "A02"),
            26 => {
                let (t, i) = (dec!(d.u32()), dec!(d.u32()));
                c.expect(null_key(t), "wrong nullifier account")?;
                let ch = c.next()?;
                req!(self.owner(&ch) == pid(), "segment not owned by the program", "A01", "A02");
                let n = match self.m.nulls.get(&t) {
                    Some(n) => n,
                    None => rej!("tree account does not exist", "A02"),
                };
                req!(i < 16, "no such segment", "A02");
                req!(n.children[i as usize].is_none(), "segment is set already", "A02", "N02");
                req!(self.len(&ch) == NULL_CHILD && self.lam(&ch) >= self.rent(NULL_CHILD), "wrong segment size", "A02");
                req!(self.vm.data(&ch).first() == Some(&0), "segment is in use", "A02", "N02");
                let ch0 = ch;
                self.m.nulls.get_mut(&t).unwrap().children[i as usize] = Some(ch0);
                self.data_w(&null_key(t));
                self.data_w(&ch0);
                self.odd("segment enabled");
                Ok(())
            }
            28 => rej!("governor exists already", "A02"),
            29 => rej!("governor upgrades are not available", "A02"),
            30 => rej!("fee version exists already or is not current", "A02"),
            31 => rej!("only the program's own key closes accounts", "A02", "A01"),
            32 => rej!("accounts are open already", "A02"),
            33 => Ok(()),
            _ => rej!("unknown instruction", "S01"),
        }
    }
    pub fn ver(&self, key: &Pubkey) -> R<Ver> {
        match self.m.ver.get(key) {
            Some(v) => Ok(v.clone()),
            None => rej!("no such verification", "V03", "A01"),
        }
    }

    fn store(&mut self, c: &mut Cur, idx: u32, bump: u8, r: BaseReq, meta: Meta) -> R {
        let kk = k();
        let sender = c.next()?;
        self.need_signer(&sender)?;
        let sender_acc = c.next()?;
        let payer = c.next()?;
        self.need_signer(&payer)?;
        let payer_acc = c.next()?;
        c.expect(kk.pool, "wrong pool")?;
        let pool_acc = c.next()?;
        c.expect(kk.collector, "wrong fee collector")?;
        let col_acc = c.next()?;
        let (sol, tokp) = (c.next()?, c.next()?);
        c.expect(kk.governor, "wrong governor")?;
        c.expect(kk.storage, "wrong storage account")?;
        let h = c.next()?;
        let o = idx.to_le_bytes();
        let want = Pubkey::create_program_address(&[base_seed(), &o, &[bump]], &pid()).ok();
        c.expect(kk.bbuf, "wrong buffer")?;
        let tp = c.next()?;
        c.expect(system_program::ID, "wrong system program")?;
        req!(r.token < TOKENS, "unknown token", "T01", "F02");
        let t = tok(r.token);
        req!(r.amount >= t.min && r.amount <= t.max, "amount outside the permitted range", "F02", "T01");
        let price = self.price_factor(r.token, &sol, &tokp)?;
        req!(is_scalar(&r.base) && is_scalar(&r.commitment), "not a field element", "F02", "C01", "V02");
        req!(self.m.recent_ok(r.recent), "recent commitment index out of the window", "C01", "F02", "C02");
        req!(from_raw(&r.base).unwrap() != zero_base(), "the zero commitment cannot be deposited", "F02", "C01", "M01");
        req!(r.fee_version == self.m.fee_version, "wrong fee version", "F02", "A02");
        req!(r.rate == self.m.rate, "wrong batching rate", "F02", "A02");
        let fee = self.m.fee().clone();
        let sub = self.conv(&price, r.token, fee.base_subvention as u128)?;
        let comp = fee.base_hash() + fee.commitment_hash(r.rate);
        let comp_token = self.conv(&price, r.token, comp)?;
        let net = match lamport_of(fee.base_network(r.amount)) {
            Some(n) => n,
            None => rej!("network fee overflow", "O01", "F02"),
        };
        self.own_token_acc(&kk.pool, &pool_acc, r.token)?;
        self.own_token_acc(&kk.collector, &col_acc, r.token)?;
        let first = match comp_token.checked_sub(sub) {
            Some(x) => x,
            None => rej!("subvention larger than the fee", "F02", "T01", "O01"),
        };
        self.user_pay(r.token, &sender, &sender_acc, &payer_acc, &tp, first)?;
        self.sys_transfer(&payer, &kk.pool, comp as u64)?;
        self.user_pay(r.token, &sender, &sender_acc, &col_acc, &tp, net)?;
        self.user_pay(r.token, &sender, &sender_acc, &pool_acc, &tp, r.amount)?;
        req!(want == Some(h), "not the hashing account's address", "A01", "A02");
        self.open(&payer, &h, BASE_SIZE)?;
        self.prog_pay(r.token, &kk.collector, &col_acc, &payer_acc, &tp, sub)?;
        req!(!self.m.bbuf.contains(&r.base), "base commitment was used recently", "C02", "C01");
        self.m.bbuf.push_back(r.base);
        if self.m.bbuf.len() > BUFFER_LEN {
            self.m.bbuf.pop_front();
        }
        self.data_w(&kk.bbuf);
        self.m.notes[r.token as usize] += r.amount as u128;
        self.m.base.insert(h, Base { idx, req: r, meta, payer, instr: 0, active: true });
        Ok(())
    }
    fn enqueue(&mut self, commitment: U256, meta: Meta, v: u32, rate: u32) -> R {
        req!(self.m.cq.len() < QUEUE_CAP && self.m.mq.len() < QUEUE_CAP, "queue is full", "C02", "C01");
        self.m.cq.push_back((commitment, v, rate));
        self.m.mq.push_back(meta);
        Arc::make_mut(&mut self.m.leaves_expected).push((commitment, meta));
        self.data_w(&k().cq);
        self.data_w(&k().mq);
        Ok(())
    }
    fn base_finalize(&mut self, c: &mut Cur, idx: u32, v: u32) -> R {
        let payer = c.next()?;
        c.expect(k().pool, "wrong pool")?;
        let fee = self.fee_acc(c, v)?;
        let a = c.next()?;
        c.expect(k().cq, "wrong queue")?;
        c.expect(k().mq, "wrong queue")?;
        let b = match self.m.base.get(&a) {
            Some(b) if b.idx == idx => b.clone(),
            _ => rej!("not the addressed hashing account", "A01", "C01"),
        };
        req!(b.req.fee_version == v, "wrong fee version", "A02", "F01");
        req!(b.active, "hashing is not active", "C01", "F01");
        req!(b.payer == payer, "not the payer of the deposit", "A01", "F01", "C01");
        req!(b.instr == 2, "hashing is not complete", "H01", "C01", "F01");
        self.pda_pay(&k().pool, &payer, fee.base_hash() as u64)?;
        let cm = commitment_of(from_raw(&b.req.base).unwrap(), b.req.amount, b.req.token, b.req.recent);
        self.enqueue(mr(&cm), b.meta, v, b.req.rate)?;
        self.m.base.get_mut(&a).unwrap().active = false;
        self.data_w(&a);
        self.close(&a, &payer)
    }
    fn mt_init(&mut self, c: &mut Cur, can_fail: bool) -> R {
        let kk = k();
        c.expect(kk.cq, "wrong queue")?;
        c.expect(kk.mq, "wrong queue")?;
        c.expect(kk.mth, "wrong hashing account")?;
        c.expect(kk.metadata, "wrong metadata account")?;
        let known: Vec<_> = kk.metadata_children.iter().map(|c| Some(*c)).collect();
        let got = self.children(c, &known, true)?;
        for a in [&kk.cq, &kk.mq, &kk.mth, &kk.metadata] {
            self.data_w(a);
        }
        if self.sync_setup {
            self.odd("insertion after a setup with missing segments");
        }
        let m = &mut self.m;
        let batch = m.next_batch();
        let why = if m.mth.active {
            Some("hashing is active")
        } else if !m.mth.setup {
            Some("hashing is not set up")
        } else if batch.is_none() {
            Some("too few commitments for a batch")
        } else if m.mth.ordering as usize + batch.unwrap().0 > TREE_LEAVES as usize {
            Some("tree is full")
        } else {
            None
        };
        if let Some(w) = why {
            if can_fail {
                self.notes.push("tolerated failure");
                return Ok(());
            }
            return Err(Rej { why: w, tags: &["C01", "H01", "M01", "C02"] });
        }
        let (n, rate, fv) = batch.unwrap();
        let o = m.mth.ordering;
        if (o..o + n as u32).any(|i| !got[(i / 65_536) as usize]) {
            // the metadata cannot be stored: nothing may happen
            self.maybe.get_or_insert("segment not supplied");
            return Ok(());
        }
        let mut b = vec![];
        let meta = Arc::make_mut(&mut m.meta);
        for i in 0..n {
            b.push(m.cq.pop_front().unwrap().0);
            meta.insert(o + i as u32, m.mq.pop_front().unwrap());
        }
        m.meta_ptr = o + n as u32;
        m.mth = Mth { setup: true, active: true, ordering: o, rate, fee_version: fv, instr: 0, fin: 0, batch: b };
        Ok(())
    }
    fn mt_finalize(&mut self, c: &mut Cur) -> R {
        let kk = k();
        c.expect(kk.mth, "wrong hashing account")?;
        c.expect(kk.storage, "wrong storage account")?;
        let got = self.children(c, &Self::storage_known(), true)?;
        self.data_w(&kk.mth);
        self.data_w(&kk.storage);
        let m = &self.m.mth;
        req!(m.active, "hashing is not active", "H01", "M01", "C01");
        req!(m.instr as usize >= HASH_IXS[m.rate as usize], "hashing is not complete", "H01", "M01", "C01");
        let n = 1u32 << m.rate;
        req!(self.m.ptr + n <= TREE_LEAVES, "tree is full", "M01", "C01");
        let want = path_children(m.ordering, n);
        self.need_children(&got, &want);
        let m = &mut self.m;
        m.mth.fin += 1;
        if m.mth.fin == m.mth.rate + 1 {
            let leaves: Vec<_> = m.mth.batch.iter().map(from_mr).collect();
            Arc::make_mut(&mut m.tree).push_batch(&leaves);
            m.ptr = m.mth.ordering + n;
            m.roots.push_back(mr(&m.tree.root()));
            if m.roots.len() > HISTORY {
                let r = m.roots.pop_front().unwrap();
                m.stale.push_back(r);
                if m.stale.len() > 40 {
                    m.stale.pop_front();
                }
            }
            m.roots_count += 1;
            m.mth.active = false;
            m.mth.setup = false;
        }
        Ok(())
    }
    fn init_verification(&mut self, c: &mut Cur, vi: u8, vk: u32, trees: [u32; 2], r: SendReq, skip: bool) -> R {
        let kk = k();
        let payer = c.next()?;
        self.need_signer(&payer)?;
        let va = c.expect(ver_key(&payer, vi), "not the payer's verification account")?;
        c.expect(vkey_key(vk), "wrong verifying key account")?;
        let dup = c.next()?;
        c.expect(system_program::ID, "wrong system program")?;
        let _identifier = c.next()?;
        c.expect(kk.storage, "wrong storage account")?;
        c.expect(kk.cbuf, "wrong buffer")?;
        let mut got = vec![];
        for t in 0..2 {
            c.expect(null_key(trees[t]), "wrong nullifier account")?;
            let known = match self.m.nulls.get(&trees[t]) {
                Some(n) => n.children.clone(),
                None => rej!("tree account does not exist", "M02", "N01", "A01"),
            };
            got.push(self.children(c, &known, false)?);
        }
        req!(trees[0] != trees[1], "the same tree twice", "N01", "M02");
        req!(vk == 0, "wrong verifying key", "K01", "V01", "V02");
        req!(vi <= 128, "verification index out of range", "V03", "A01");
        req!((1..=4).contains(&r.inputs.len()), "wrong number of inputs", "V02", "N01");
        req!(r.inputs[0].0.is_some(), "first root missing", "V02", "M02");
        req!(r.amount.checked_add(r.fee).is_some(), "total amount overflows", "O01", "F01", "V02", "F04");
        let zero_raw = raw(&zero_commitment());
        req!(r.out != zero_raw, "zero output commitment", "V02", "C01");
        req!(is_scalar(&r.out), "output commitment is not a field element", "V02", "C01");
        req!(self.m.recent_ok(r.recent), "recent commitment index out of the window", "C01", "C02", "V02");
        req!(r.amount >= r.opt_amount, "optional fee larger than the amount", "F03", "V02", "O01", "F01");
        let mut pos = vec![];
        let mut roots = 0usize;
        for (root, _) in &r.inputs {
            match root {
                Some(root) => {
                    req!(roots < 2, "too many trees", "M02", "V02", "N01");
                    req!(is_scalar(root), "root is not a field element", "V02", "M02");
                    let rm = mr(&from_raw(root).unwrap());
                    let t = trees[roots];
                    if t == self.m.trees_count {
                        if self.m.ptr == 0 && rm == mr(&empties()[HEIGHT]) {
                            // the current root of a tree without leaves
                            self.maybe.get_or_insert("root of the empty tree");
                        } else {
                            req!(self.m.roots.contains(&rm), "unknown root", "M02", "N01", "F01");
                        }
                    } else {
                        req!(t < self.m.trees_count, "tree does not exist yet", "M02", "F01");
                        req!(self.m.nulls[&t].root == rm, "not the closed tree's root", "M02", "N01", "F01");
                    }
                    pos.push(roots);
                    roots += 1;
                }
                None => pos.push(0),
            }
        }
        for (i, a) in r.inputs.iter().enumerate() {
            req!(is_scalar(&a.1), "nullifier is not a field element", "V02", "N01", "N02");
            for (j, b) in r.inputs.iter().enumerate() {
                req!(i == j || a.1 != b.1 || pos[i] != pos[j], "the same nullifier twice", "N01", "F01");
            }
            let n = &self.m.nulls[&trees[pos[i]]];
            let nm = mr(&from_raw(&a.1).unwrap());
            req!(!n.set.contains(&ord(&nm)), "nullifier is spent", "N01", "N02", "F01");
            req!(n.set.len() < TREE_LEAVES as usize, "nullifier set is full", "N02", "N01");
            let full = n.set.len() / 65_536;
            if (0..=full.min(15)).any(|x| !got[pos[i]][x]) {
                self.maybe.get_or_insert("segment not supplied");
            }
        }
        let want = dup_key(&r.nullifiers());
        if skip {
            req!(dup == want, "wrong duplicate account", "N01", "A01", "V03");
            req!(self.lam(&dup) > 0 && self.owner(&dup) == pid(), "duplicate account does not exist", "N01", "A01", "V03");
        } else {
            req!(dup == want, "wrong duplicate account", "N01", "A01", "V03");
            self.open(&payer, &dup, DUP_SIZE)?;
            self.m.dups.insert(dup);
        }
        self.open(&payer, &va, VER_SIZE)?;
        let out = mr(&from_raw(&r.out).unwrap());
        req!(!self.m.cbuf.contains(&Some(out)), "output commitment was used recently", "C02", "C01", "N01");
        self.m.cbuf.push_back(Some(out));
        if self.m.cbuf.len() > BUFFER_LEN {
            self.m.cbuf.pop_front();
        }
        self.data_w(&kk.cbuf);
        let prep = prep_ix_count(&r.signals().unwrap());
        self.m.ver.insert(va, Ver {
            payer, vi, vkey: vk, req: r, trees, skip, state: St::None, verdict: None, other: Other::default(), recipient: None, inserted: 0, prep, proof: None, ata_lamports: 0,
        });
        Ok(())
    }
    fn transfer_fee(&mut self, c: &mut Cur, vi: u8) -> R {
        let kk = k();
        let payer = c.next()?;
        self.need_signer(&payer)?;
        let payer_acc = c.next()?;
        c.expect(kk.pool, "wrong pool")?;
        let pool_acc = c.next()?;
        c.expect(kk.collector, "wrong fee collector")?;
        let col_acc = c.next()?;
        let (sol, tokp) = (c.next()?, c.next()?);
        c.expect(kk.governor, "wrong governor")?;
        let va = c.expect(ver_key(&payer, vi), "not the payer's verification account")?;
        let tp = c.next()?;
        c.expect(system_program::ID, "wrong system program")?;
        let v = self.ver(&va)?;
        req!(v.state == St::None, "wrong phase", "V03", "F04");
        let r = &v.req;
        req!(r.fee_version == self.m.fee_version, "wrong fee version", "F04", "A02");
        req!(r.token < TOKENS, "unknown token", "T01", "F04");
        let t = r.token;
        let price = self.price_factor(t, &sol, &tokp)?;
        let fee = self.m.fee().clone();
        let rate = self.m.rate;
        let sub = self.conv(&price, t, fee.proof_subvention as u128)?;
        let proof_fee = self.conv(&price, t, fee.proof(v.prep))?;
        let ch = fee.commitment_hash(rate);
        let ch_token = self.conv(&price, t, ch)?;
        let net = fee.proof_network(r.amount);
        let total = ch_token as u128 + proof_fee as u128 + net;
        req!(net <= u64::MAX as u128 && total <= u64::MAX as u128, "fee overflow", "O01", "F04");
        req!(total >= sub as u128, "subvention larger than the fee", "F04", "T01", "O01");
        req!(r.fee as u128 >= total - sub as u128, "declared fee too low", "F04", "F01");
        self.own_token_acc(&kk.pool, &pool_acc, t)?;
        self.own_token_acc(&kk.collector, &col_acc, t)?;
        req!(!(r.ata && t == 0), "associated account of lamports", "F03", "F04", "V02");
        req!(t != 0 || r.amount == 0 || r.amount >= self.rent(0), "amount below the minimum balance", "F04", "F03");
        let (mut rent, mut rent_token) = (0, 0);
        if r.ata {
            rent = self.rent(165);
            rent_token = self.conv(&price, t, rent as u128)?;
            req!(r.amount as u128 >= rent_token as u128 + r.opt_amount as u128, "amount does not cover the account's rent", "F04", "F03", "O01");
        }
        self.sys_transfer(&payer, &kk.pool, ch as u64 + rent)?;
        self.prog_pay(t, &kk.collector, &col_acc, &pool_acc, &tp, sub)?;
        if t == 0 {
            req!(self.owner(&payer_acc) != spl_token::ID, "refund account is a token account", "A01", "F04");
        } else {
            req!(self.owner(&payer_acc) == spl_token::ID && self.tacc(&payer_acc).map(|a| a.mint == tok(t).mint).unwrap_or(false), "refund account of another token", "A01", "F04");
        }
        let w = self.m.ver.get_mut(&va).unwrap();
        w.other = Other {
            min_rate: rate, token: t, subvention: sub, network_fee: net as u64, ch_fee: ch as u64, ch_fee_token: ch_token, proof_fee, ata_rent_token: rent_token, payer_account: payer_acc,
        };
        w.recipient = None;
        w.ata_lamports = rent;
        w.state = St::FeeTransferred;
        self.data_w(&va);
        Ok(())
    }
    fn fin_send(&mut self, c: &mut Cur, vi: u8, f: FinData, iv: U256, eo: U256, uses_memo: bool) -> R {
        let kk = k();
        let (recipient, identifier, reference) = (c.next()?, c.next()?, c.next()?);
        let payer = c.next()?;
        c.expect(kk.cq, "wrong queue")?;
        let va = c.expect(ver_key(&payer, vi), "not the payer's verification account")?;
        c.expect(kk.storage, "wrong storage account")?;
        c.expect(kk.cbuf, "wrong buffer")?;
        c.expect(IX_SYSVAR, "wrong instructions sysvar")?;
        let v = self.ver(&va)?;
        req!(v.state == St::ProofSetup, "wrong phase", "V03", "F03");
        let r = v.req.clone();
        let n = self.ixs.len();
        let memo = if uses_memo {
            let at = if r.solana_pay { n.checked_sub(2) } else { n.checked_sub(1) };
            match at.map(|i| &self.ixs[i]) {
                Some(m) if m.program_id == memo_id() => Some(m.data.clone()),
                _ => rej!("memo missing", "V04"),
            }
        } else {
            None
        };
        let x = SendExtra { recipient, identifier, reference, iv, encrypted_owner: eo, memo };
        req!(hashed_inputs(&r, &x) == r.hashed, "data differs from what was proven", "V04", "F03", "V02");
        self.data_w(&va);
        match v.verdict {
            None => rej!("verification is not complete", "V03", "V01", "F03", "F01"),
            Some(false) => {
                let w = self.m.ver.get_mut(&va).unwrap();
                w.recipient = Some(recipient);
                w.state = St::Finalized;
                let out = Some(mr(&from_raw(&r.out).unwrap()));
                if let Some(p) = self.m.cbuf.iter().position(|x| *x == out) {
                    self.m.cbuf[p] = None;
                }
                self.data_w(&kk.cbuf);
                return Ok(());
            }
            _ => {}
        }
        // companions
        let mine = |i: &Instruction, var: u8, slot: usize| i.program_id == pid() && i.data.len() >= 2 && i.data[0] == var && i.data[1] == vi && i.accounts.get(slot).map(|a| a.pubkey == payer).unwrap_or(false);
        let mut at = self.cur + 1;
        while at < n && mine(&self.ixs[at], 12, 0) {
            at += 1;
        }
        let var = if r.token == 0 { 13 } else { 14 };
        req!(at < n && mine(&self.ixs[at], var, 0), "companion instructions missing", "V04", "F03", "N01", "V03");
        let total = self.m.ptr as u64 + self.m.cq.len() as u64;
        let (ci, mi) = ((total % TREE_LEAVES as u64) as u32, self.m.trees_count as u64 + total / TREE_LEAVES as u64);
        req!(f.total == r.amount.wrapping_add(r.fee) && f.token == r.token, "data differs from the request", "V04");
        req!(f.commitment_index <= ci && f.mt_index as u64 == mi, "wrong position estimate", "V04");
        let w = self.m.ver.get_mut(&va).unwrap();
        w.recipient = Some(recipient);
        w.state = St::InsertNullifiers;
        w.inserted = 0;
        Ok(())
    }
    fn fin_null(&mut self, c: &mut Cur, vi: u8) -> R {
        let payer = c.next()?;
        let va = c.expect(ver_key(&payer, vi), "not the payer's verification account")?;
        let v = self.ver(&va)?;
        let t = v.trees[0];
        c.expect(null_key(t), "wrong nullifier account")?;
        let known = self.m.nulls[&t].children.clone();
        let got = self.children(c, &known, true)?;
        req!(v.state == St::InsertNullifiers, "wrong phase", "V03", "N01");
        self.data_w(&va);
        self.data_w(&null_key(t));
        let n = v.req.inputs.len();
        let i = v.inserted as usize;
        if i < n {
            req!(i == 0 || v.req.inputs[..=i].iter().skip(1).all(|x| x.0.is_none()), "inputs of a second tree are not available", "N01", "V03");
            let nm = mr(&from_raw(&v.req.inputs[i].1).unwrap());
            let s = &self.m.nulls[&t];
            req!(!s.set.contains(&ord(&nm)), "nullifier is spent", "N01", "N02", "F01");
            req!(s.set.len() < TREE_LEAVES as usize, "nullifier set is full", "N02");
            let full = s.set.len() / 65_536;
            if (0..=full.min(15)).any(|x| !got[x]) {
                self.maybe.get_or_insert("segment not supplied");
            }
            if s.moving && self.m.ver.values().filter(|v| v.state == St::InsertNullifiers && v.trees[0] == t && v.inserted > 0).count() > usize::from(v.inserted > 0) {
                // at most four displaced values can wait
                self.maybe.get_or_insert("displaced nullifiers of another send are waiting");
            }
            let s = self.m.nulls.get_mut(&t).unwrap();
            Arc::make_mut(&mut s.set).insert(ord(&nm));
            self.m.ver.get_mut(&va).unwrap().inserted += 1;
        } else if self.m.nulls[&t].moving || self.sync_ver.contains(&va) {
            self.maybe.get_or_insert("moving displaced nullifiers");
        }
        if self.m.nulls[&t].set.len() > 65_536 {
            self.m.nulls.get_mut(&t).unwrap().moving = true;
            self.sync_moving.push(t);
            self.sync_ver.push(va);
        } else if i >= n - 1 {
            self.m.ver.get_mut(&va).unwrap().state = St::Finalized;
        }
        Ok(())
    }
    /// within one transaction: whether displaced nullifiers are left is known afterwards only
    fn settle(&mut self, va: &Pubkey, v: &mut Ver) {
        if v.state == St::InsertNullifiers && v.inserted as usize >= v.req.inputs.len() && self.sync_ver.contains(va) {
            self.maybe.get_or_insert("displaced nullifiers");
            v.state = St::Finalized;
        }
    }
    fn last_is(&self, want: Instruction) -> bool {
        let n = self.ixs.len();
        let l = &self.ixs[n - 1];
        l.program_id == want.program_id && l.data == want.data
            && want.accounts.iter().enumerate().all(|(i, a)| l.accounts.get(i).map(|b| b.pubkey == a.pubkey && (!a.is_signer || self.signer(&b.pubkey)) && (!a.is_writable || self.keys[&b.pubkey].1)).unwrap_or(false))
    }
    /// the direct transfer at the end of the transaction belongs to one payout only
    fn direct_transfer(&mut self, want: Instruction) -> R {
        req!(self.last_is(want), "direct transfer missing", "V04", "F03", "F01");
        let n = self.ixs.len();
        let others = self.ixs[self.cur + 1..n - 1].iter().any(|i| i.program_id == pid() && matches!(i.data.first(), Some(13) | Some(14)));
        req!(!others, "one direct transfer for two payouts", "V04", "F03", "F01");
        Ok(())
    }
    fn paid(&mut self, v: &Ver) {
        let t = v.req.token as usize;
        let total = v.req.amount as u128 + v.req.fee as u128;
        self.m.notes[t] = self.m.notes[t].saturating_sub(total);
        self.m.paid_out += 1;
    }
    fn close_pdas(&mut self, v: &Ver, va: &Pubkey, dup: &Pubkey, to: &Pubkey) -> R {
        self.close(va, to)?;
        if !v.skip {
            self.close(dup, to)?;
        }
        self.m.ver.get_mut(va).unwrap().state = St::Closed;
        self.touched.insert(*dup);
        self.data_w(va);
        Ok(())
    }
    fn fin_lamports(&mut self, c: &mut Cur, vi: u8) -> R {
        let kk = k();
        let payer = c.next()?;
        self.need_signer(&payer)?;
        let recipient = c.next()?;
        c.expect(kk.pool, "wrong pool")?;
        c.expect(kk.collector, "wrong fee collector")?;
        let opt = c.next()?;
        c.expect(kk.cq, "wrong queue")?;
        c.expect(kk.mq, "wrong queue")?;
        let va = c.expect(ver_key(&payer, vi), "not the payer's verification account")?;
        let dup = c.next()?;
        c.expect(system_program::ID, "wrong system program")?;
        c.expect(IX_SYSVAR, "wrong instructions sysvar")?;
        let mut v = self.ver(&va)?;
        let r = v.req.clone();
        req!(dup == dup_key(&r.nullifiers()), "wrong duplicate account", "A01", "N01");
        // a request that relies on the duplicate account of another one does not need it any longer
        req!(v.skip || self.owner(&dup) == pid(), "duplicate account not owned by the program", "A01");
        req!(r.token == 0, "wrong token", "V03", "F03", "F01");
        self.settle(&va, &mut v);
        req!(v.state == St::Finalized, "wrong phase", "V03", "F03", "N01", "F01");
        if v.verdict == Some(false) {
            self.close_pdas(&v, &va, &dup, &kk.collector)?;
            self.pda_pay(&kk.pool, &kk.collector, v.other.subvention)?;
            return self.pda_pay(&kk.pool, &kk.collector, v.other.ch_fee);
        }
        if r.amount > 0 {
            req!(Some(recipient) == v.recipient, "wrong recipient", "V04", "F03", "A01", "F01");
            let a = r.amount - r.opt_amount;
            if r.solana_pay {
                self.pda_pay(&kk.pool, &payer, a)?;
                self.direct_transfer(solana_program::system_instruction::transfer(&payer, &recipient, a))?;
            } else {
                self.pda_pay(&kk.pool, &recipient, a)?;
            }
            if r.opt_amount > 0 {
                req!(opt == r.opt_collector, "wrong optional fee collector", "V04", "F03", "A01", "F01");
                self.pda_pay(&kk.pool, &opt, r.opt_amount)?;
            }
        }
        self.pda_pay(&kk.pool, &payer, v.other.ch_fee_token + v.other.proof_fee)?;
        self.pda_pay(&kk.pool, &kk.collector, v.other.network_fee)?;
        self.close_pdas(&v, &va, &dup, &payer)?;
        self.paid(&v);
        self.enqueue(mr(&from_raw(&r.out).unwrap()), r.metadata, r.fee_version, v.other.min_rate)
    }
    fn fin_token(&mut self, c: &mut Cur, vi: u8) -> R {
        let kk = k();
        let payer = c.next()?;
        self.need_signer(&payer)?;
        let payer_acc = c.next()?;
        let (recipient, wallet) = (c.next()?, c.next()?);
        c.expect(kk.pool, "wrong pool")?;
        let pool_acc = c.next()?;
        c.expect(kk.collector, "wrong fee collector")?;
        let col_acc = c.next()?;
        let opt = c.next()?;
        c.expect(kk.cq, "wrong queue")?;
        c.expect(kk.mq, "wrong queue")?;
        let va = c.expect(ver_key(&payer, vi), "not the payer's verification account")?;
        let dup = c.next()?;
        c.expect(spl_associated_token_account::ID, "wrong associated-token program")?;
        c.expect(spl_token::ID, "wrong token program")?;
        c.expect(system_program::ID, "wrong system program")?;
        let mint = c.next()?;
        c.expect(IX_SYSVAR, "wrong instructions sysvar")?;
        let mut v = self.ver(&va)?;
        let r = v.req.clone();
        req!(dup == dup_key(&r.nullifiers()), "wrong duplicate account", "A01", "N01");
        // a request that relies on the duplicate account of another one does not need it any longer
        req!(v.skip || self.owner(&dup) == pid(), "duplicate account not owned by the program", "A01");
        req!(r.token > 0, "wrong token", "V03", "F03", "F01");
        self.settle(&va, &mut v);
        req!(v.state == St::Finalized, "wrong phase", "V03", "F03", "N01", "F01");
        req!(payer_acc == v.other.payer_account, "wrong refund account", "A01", "F03", "F01", "V03");
        let t = r.token;
        self.own_token_acc(&kk.pool, &pool_acc, t)?;
        self.own_token_acc(&kk.collector, &col_acc, t)?;
        let tp = spl_token::ID;
        if v.verdict == Some(false) {
            self.close_pdas(&v, &va, &dup, &kk.collector)?;
            self.prog_pay(t, &kk.pool, &pool_acc, &col_acc, &tp, v.other.subvention)?;
            return self.pda_pay(&kk.pool, &kk.collector, v.other.ch_fee + v.ata_lamports);
        }
        let mut rent_token = None;
        if r.amount > 0 {
            let mut to = recipient;
            if !r.ata {
                req!(Some(recipient) == v.recipient, "wrong recipient", "V04", "F03", "A01", "F01");
                if self.owner(&recipient) != spl_token::ID || self.tacc(&recipient).map(|a| a.mint != tok(t).mint).unwrap_or(true) {
                    to = col_acc;
                }
            } else {
                req!(Some(wallet) == v.recipient, "wrong recipient", "V04", "F03", "A01", "F01");
                req!(recipient == ata(&wallet, t), "wrong recipient account", "V04", "F03", "A01");
                if self.len(&recipient) == 0 {
                    req!(mint == tok(t).mint, "wrong mint", "A01");
                    let rent = self.rent(165);
                    req!(self.owner(&recipient) == system_program::ID && self.len(&recipient) == 0, "cannot create the account", "A01");
                    req!(self.writable(&payer) && self.writable(&recipient), "readonly account to be created", "A01");
                    self.sys_transfer(&payer, &recipient, rent.saturating_sub(self.lam(&recipient)))?;
                    self.made.insert(recipient, (spl_token::ID, 165));
                    self.tok.insert(recipient, TokAcc { mint, owner: wallet, amount: 0, frozen: false });
                    rent_token = Some(v.other.ata_rent_token);
                } else {
                    rent_token = Some(0);
                }
            }
            let a = match r.amount.checked_sub(rent_token.unwrap_or(0)).and_then(|x| x.checked_sub(r.opt_amount)) {
                Some(a) => a,
                None => rej!("amount too small", "F03", "O01"),
            };
            if r.solana_pay {
                self.prog_pay(t, &kk.pool, &pool_acc, &payer_acc, &tp, a)?;
                self.direct_transfer(spl_token::instruction::transfer(&tp, &payer_acc, &to, &payer, &[&payer], a).unwrap())?;
            } else {
                self.prog_pay(t, &kk.pool, &pool_acc, &to, &tp, a)?;
            }
            if r.opt_amount > 0 {
                req!(opt == r.opt_collector, "wrong optional fee collector", "V04", "F03", "A01", "F01");
                self.prog_pay(t, &kk.pool, &pool_acc, &opt, &tp, r.opt_amount)?;
            }
        }
        self.prog_pay(t, &kk.pool, &pool_acc, &payer_acc, &tp, v.other.ch_fee_token + v.other.proof_fee + rent_token.unwrap_or(0))?;
        self.prog_pay(t, &kk.pool, &pool_acc, &col_acc, &tp, v.other.network_fee)?;
        self.close_pdas(&v, &va, &dup, &payer)?;
        if rent_token.is_some() {
            self.pda_pay(&kk.pool, &payer, self.rent(165))?;
        }
        self.paid(&v);
        self.enqueue(mr(&from_raw(&r.out).unwrap()), r.metadata, r.fee_version, v.other.min_rate)
    }
    fn reset(&mut self, c: &mut Cur, i: u32) -> R {
        let kk = k();
        c.expect(kk.storage, "wrong storage account")?;
        let got = self.children(c, &Self::storage_known(), true)?;
        c.expect(kk.cq, "wrong queue")?;
        c.expect(null_key(i), "wrong nullifier account")?;
        req!(self.m.nulls.contains_key(&i), "tree account does not exist", "A01", "M01");
        req!(i == self.m.trees_count, "not the active tree", "M01", "M02");
        req!(self.m.full() == Some(true), "tree is not full", "M01", "M02", "C01");
        self.need_children(&got, &[0]);
        let root = mr(&self.m.tree.root());
        self.m.nulls.get_mut(&i).unwrap().root = root;
        self.m.trees_count += 1;
        self.m.ptr = 0;
        // the last root stays valid as the closed tree's
        self.m.roots.pop_back();
        let rest: Vec<U256> = self.m.roots.iter().rev().take(20).copied().collect();
        self.m.stale.extend(rest);
        self.m.roots.clear();
        self.m.roots_count = 0;
        self.m.tree = Arc::new(Tree::default());
        self.data_w(&kk.storage);
        self.data_w(&null_key(i));
        Ok(())
    }
}
pub fn base_seed() -> &'static [u8] {
    use elusiv_types::PDAAccount;
    elusiv::state::commitment::BaseCommitmentHashingAccount::SEED
}
/// what a send of this request costs (declared fee) under the current configuration
pub fn send_fee(vm: &Vm, m: &Model, token: u16, amount: u64, prep: usize) -> Option<u64> {
    let s = Sim::new(vm, m, &[]);
    let p = s.price_factor(token, &tok(0).price_key, &tok(token).price_key).ok()?;
    let f = m.fee();
    let sub = s.conv(&p, token, f.proof_subvention as u128).ok()?;
    let proof = s.conv(&p, token, f.proof(prep)).ok()?;
    let ch = s.conv(&p, token, f.commitment_hash(m.rate)).ok()?;
    let total = ch as u128 + proof as u128 + f.proof_network(amount);
    u64::try_from(total.checked_sub(sub as u128)?).ok()
}
pub fn in_token(vm: &Vm, m: &Model, token: u16, lamports: u64) -> Option<u64> {
    let s = Sim::new(vm, m, &[]);
    let p = s.price_factor(token, &tok(0).price_key, &tok(token).price_key).ok()?;
    s.conv(&p, token, lamports as u128).ok()
}
