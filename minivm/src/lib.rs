//! A small native runtime for Solana programs: ledger, atomic transactions, runtime account rules,
//! CPIs (system, spl-token, associated-token, memo), sysvars and the instructions sysvar.
//! The programs under test are the real ones; everything here plays the role of the validator.

pub mod report;
pub mod trace;

use solana_program::{
    account_info::AccountInfo,
    clock::Clock,
    entrypoint::ProgramResult,
    instruction::{AccountMeta, Instruction},
    program_error::ProgramError,
    program_pack::Pack,
    program_stubs::{set_syscall_stubs, SyscallStubs},
    pubkey::Pubkey,
    rent::Rent,
    system_instruction::SystemInstruction,
    system_program, sysvar,
};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;
use std::sync::{Arc, Once};

pub const MEMO_ID: &str = "MemoSq4gqABAXKb96qnH8TysNcWxMyWCqXgDLGmfcHr";
pub const COMPUTE_BUDGET_ID: &str = "ComputeBudget111111111111111111111111111111";
const BIG: usize = 100_000;

pub type Processor = for<'a, 'b, 'c, 'd> fn(&'a Pubkey, &'b [AccountInfo<'c>], &'d [u8]) -> ProgramResult;

#[derive(Clone, PartialEq)]
pub struct Acc {
    pub lamports: u64,
    pub data: Arc<Vec<u8>>,
    pub owner: Pubkey,
    pub executable: bool,
}

impl Acc {
    pub fn new(lamports: u64, data: Vec<u8>, owner: Pubkey) -> Self {
        Acc { lamports, data: Arc::new(data), owner, executable: false }
    }
    pub fn empty() -> Self {
        Acc::new(0, vec![], system_program::ID)
    }
    pub fn same(&self, o: &Acc) -> bool {
        self.lamports == o.lamports
            && self.owner == o.owner
            && self.executable == o.executable
            && (Arc::ptr_eq(&self.data, &o.data) || self.data == o.data)
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum TxErr {
    Program(ProgramError),
    Panic(String),
    Runtime(String),
}

#[derive(Clone)]
pub struct Vm {
    pub accounts: HashMap<Pubkey, Acc>,
    pub clock: Clock,
    pub rent: Rent,
    pub program_id: Pubkey,
    pub process: Processor,
    pub stats: Stats,
    /// programs whose instructions do nothing and succeed
    pub mocks: Vec<Pubkey>,
}

#[derive(Clone, Default, Debug)]
pub struct Stats {
    pub txs_ok: u64,
    pub txs_err: u64,
    pub ixs: u64,
    pub cpis: u64,
    pub panics: u64,
}

// ---------------------------------------------------------------- invocation context

struct Ctx {
    program_id: Pubkey,
    /// (signer, writable) privileges of the current program
    priv_: HashMap<Pubkey, (bool, bool)>,
    pre: HashMap<Pubkey, Acc>,
    tx_keys: Vec<Pubkey>,
    executables: Vec<Pubkey>,
    rent: Rent,
    clock: Clock,
    fatal: Option<TxErr>,
    arena: Vec<(*mut u8, usize)>,
    cpis: u64,
}

thread_local! {
    static CTX: Cell<*mut Ctx> = Cell::new(std::ptr::null_mut());
    static LAST_PANIC: RefCell<String> = RefCell::new(String::new());
}

fn with_ctx<R>(f: impl FnOnce(&mut Ctx) -> R) -> Option<R> {
    let p = CTX.with(|c| c.get());
    if p.is_null() {
        None
    } else {
        Some(f(unsafe { &mut *p }))
    }
}

struct Stubs;
impl SyscallStubs for Stubs {
    fn sol_log(&self, _m: &str) {}
    fn sol_log_compute_units(&self) {}
    fn sol_log_data(&self, _f: &[&[u8]]) {}
    fn sol_get_rent_sysvar(&self, a: *mut u8) -> u64 {
        let r = with_ctx(|c| c.rent).unwrap_or_default();
        unsafe { *(a as *mut Rent) = r };
        0
    }
    fn sol_get_clock_sysvar(&self, a: *mut u8) -> u64 {
        let r = with_ctx(|c| c.clock.clone()).unwrap_or_default();
        unsafe { *(a as *mut Clock) = r };
        0
    }
    fn sol_invoke_signed(&self, ix: &Instruction, infos: &[AccountInfo], seeds: &[&[&[u8]]]) -> ProgramResult {
        let p = CTX.with(|c| c.get());
        if p.is_null() {
            return Err(ProgramError::Custom(0xdead));
        }
        let ctx = unsafe { &mut *p };
        ctx.cpis += 1;
        match cpi(ctx, ix, infos, seeds) {
            Ok(()) => Ok(()),
            Err(e) => {
                // a failing CPI aborts the whole transaction
                let pe = match &e {
                    TxErr::Program(p) => p.clone(),
                    _ => ProgramError::Custom(0xdead),
                };
                if ctx.fatal.is_none() {
                    ctx.fatal = Some(e);
                }
                Err(pe)
            }
        }
    }
}

static INIT: Once = Once::new();
pub fn init_runtime() {
    INIT.call_once(|| {
        set_syscall_stubs(Box::new(Stubs));
        std::panic::set_hook(Box::new(|i| {
            let inside = CTX.with(|c| !c.get().is_null());
            let quiet = QUIET.with(|q| q.get());
            LAST_PANIC.with(|l| *l.borrow_mut() = i.to_string());
            if !inside && !quiet {
                eprintln!("{}", i);
            }
        }));
    });
}

thread_local! { static QUIET: Cell<bool> = Cell::new(false); }

/// Runs `f`, turning a panic into Err(message)
pub fn catch<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    init_runtime();
    let old = QUIET.with(|q| q.replace(true));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    QUIET.with(|q| q.set(old));
    r.map_err(|_| LAST_PANIC.with(|l| l.borrow().clone()))
}

fn rt<T>(s: impl Into<String>) -> Result<T, TxErr> {
    Err(TxErr::Runtime(s.into()))
}
fn pe<T>(e: ProgramError) -> Result<T, TxErr> {
    Err(TxErr::Program(e))
}

/// Verifies that what `program` did to an account is allowed
fn verify_change(key: &Pubkey, program: &Pubkey, writable: bool, pre: &Acc, lamports: u64, owner: &Pubkey, data: &[u8], same_ptr: bool) -> Result<(), TxErr> {
    if pre.lamports != lamports {
        if !writable {
            return rt(format!("ReadonlyLamportChange {}", key));
        }
        if lamports < pre.lamports && pre.owner != *program {
            return rt(format!("ExternalAccountLamportSpend {}", key));
        }
    }
    let cmp = !(same_ptr && data.len() > BIG && (pre.owner == *program) && writable);
    let big_ro = data.len() > BIG && !writable;
    if cmp && !big_ro && (pre.data.len() != data.len() || (!(std::ptr::eq(pre.data.as_ptr(), data.as_ptr())) && pre.data[..] != data[..])) {
        if !writable {
            return rt(format!("ReadonlyDataModified {}", key));
        }
        if pre.owner != *program {
            return rt(format!("ExternalAccountDataModified {}", key));
        }
        if pre.data.len() != data.len() && *program != system_program::ID && data.len() > pre.data.len() + 10_240 {
            return rt(format!("InvalidRealloc {}", key));
        }
    }
    if pre.owner != *owner {
        if !writable || pre.owner != *program || data.iter().any(|b| *b != 0) {
            return rt(format!("ModifiedProgramId {}", key));
        }
    }
    Ok(())
}

fn cpi(ctx: &mut Ctx, ix: &Instruction, infos: &[AccountInfo], seeds: &[&[&[u8]]]) -> Result<(), TxErr> {
    let mut pda_signers = vec![];
    for s in seeds {
        match Pubkey::create_program_address(s, &ctx.program_id) {
            Ok(k) => pda_signers.push(k),
            Err(_) => return pe(ProgramError::InvalidSeeds),
        }
    }
    if !ctx.tx_keys.contains(&ix.program_id) {
        return rt(format!("MissingAccount (program {})", ix.program_id));
    }
    // deduplicate metas
    let mut metas: BTreeMap<Pubkey, (bool, bool)> = BTreeMap::new();
    for m in &ix.accounts {
        let e = metas.entry(m.pubkey).or_default();
        e.0 |= m.is_signer;
        e.1 |= m.is_writable;
    }
    let find = |k: &Pubkey| infos.iter().find(|i| i.key == k);
    for (k, (s, w)) in &metas {
        if find(k).is_none() {
            if ctx.executables.contains(k) && ctx.tx_keys.contains(k) {
                continue;
            }
            return rt(format!("MissingAccount {}", k));
        }
        let p = ctx.priv_.get(k).copied().unwrap_or((false, false));
        if *s && !(p.0 || pda_signers.contains(k)) {
            return rt(format!("PrivilegeEscalation(signer) {}", k));
        }
        if *w && !p.1 {
            return rt(format!("PrivilegeEscalation(writable) {}", k));
        }
    }
    // verify the caller's changes so far on those accounts
    for (k, _) in &metas {
        if let Some(i) = find(k) {
            let pre = ctx.pre.get(k).cloned().unwrap_or_else(Acc::empty);
            let w = ctx.priv_.get(k).map(|p| p.1).unwrap_or(false);
            let d = match i.data.try_borrow() { Ok(d) => d, Err(_) => return pe(ProgramError::AccountBorrowFailed) };
            if i.lamports.try_borrow().is_err() { return pe(ProgramError::AccountBorrowFailed); }
            verify_change(k, &ctx.program_id.clone(), w, &pre, i.lamports(), i.owner, &d, true)?;
        }
    }
    for (k, (_, w)) in &metas {
        if let Some(i) = find(k) {
            if *w && (i.data.try_borrow_mut().is_err() || i.lamports.try_borrow_mut().is_err()) {
                return pe(ProgramError::AccountBorrowFailed);
            }
        }
    }
    if ix.program_id == ctx.program_id {
        return rt("ReentrancyNotAllowed/self-CPI not modelled");
    }
    let ordered: Vec<(Option<AccountInfo>, AccountMeta)> = ix.accounts.iter().map(|m| {
        let (s, w) = metas[&m.pubkey];
        (find(&m.pubkey).map(|i| { let mut i = i.clone(); i.is_signer = s; i.is_writable = w; i }), m.clone())
    }).collect();
    native(ctx, &ix.program_id, &ordered, &ix.data)?;
    // rebase
    for (k, _) in &metas {
        if let Some(i) = find(k) {
            let ex = ctx.pre.get(k).map(|p| p.executable).unwrap_or(false);
            let d = i.data.borrow();
            let keep = ctx.pre.get(k).map(|p| p.data[..] == d[..]).unwrap_or(false);
            let data = if keep { ctx.pre[k].data.clone() } else { Arc::new(d.to_vec()) };
            ctx.pre.insert(*k, Acc { lamports: i.lamports(), data, owner: *i.owner, executable: ex });
        }
    }
    Ok(())
}

fn set_owner(i: &AccountInfo, o: &Pubkey) {
    unsafe { std::ptr::write_volatile(i.owner as *const Pubkey as *mut Pubkey, *o) }
}
fn set_data_len(ctx: &mut Ctx, i: &AccountInfo, len: usize) {
    let b = vec![0u8; len].into_boxed_slice();
    let l = b.len();
    let p = Box::into_raw(b) as *mut u8;
    ctx.arena.push((p, l));
    let s: &'static mut [u8] = unsafe { std::slice::from_raw_parts_mut(p, l) };
    let mut d = i.data.borrow_mut();
    let n = d.len().min(len);
    s[..n].copy_from_slice(&d[..n]);
    *d = s;
}

fn sys_transfer(from: &AccountInfo, to: &AccountInfo, from_signer: bool, lamports: u64) -> Result<(), TxErr> {
    if !from_signer {
        return pe(ProgramError::MissingRequiredSignature);
    }
    if !from.data.borrow().is_empty() {
        return pe(ProgramError::InvalidArgument);
    }
    if lamports > from.lamports() {
        return pe(ProgramError::Custom(1));
    }
    if from.owner != &system_program::ID && lamports > 0 {
        return rt(format!("ExternalAccountLamportSpend {}", from.key));
    }
    if from.key == to.key {
        return Ok(());
    }
    **from.lamports.borrow_mut() -= lamports;
    let t = to.lamports().checked_add(lamports).ok_or(TxErr::Program(ProgramError::Custom(2)))?;
    **to.lamports.borrow_mut() = t;
    Ok(())
}

fn native(ctx: &mut Ctx, program: &Pubkey, accs: &[(Option<AccountInfo>, AccountMeta)], data: &[u8]) -> Result<(), TxErr> {
    let get = |n: usize| -> Result<&AccountInfo, TxErr> {
        accs.get(n).and_then(|a| a.0.as_ref()).ok_or(TxErr::Program(ProgramError::NotEnoughAccountKeys))
    };
    if *program == system_program::ID {
        let ix: SystemInstruction = decode_system(data).ok_or(TxErr::Program(ProgramError::InvalidInstructionData))?;
        match ix {
            SystemInstruction::Transfer { lamports } => {
                let f = get(0)?;
                sys_transfer(f, get(1)?, f.is_signer, lamports)
            }
            SystemInstruction::CreateAccount { lamports, space, owner } => {
                let (f, t) = (get(0)?, get(1)?);
                if t.lamports() > 0 {
                    return pe(ProgramError::Custom(0));
                }
                if !t.is_signer {
                    return pe(ProgramError::MissingRequiredSignature);
                }
                if !t.data.borrow().is_empty() || t.owner != &system_program::ID {
                    return pe(ProgramError::Custom(0));
                }
                if space > 10 * 1024 * 1024 {
                    return pe(ProgramError::Custom(3));
                }
                if space > 10_240 {
                    return rt("InvalidRealloc: CPI account creation beyond 10 KiB");
                }
                set_data_len(ctx, t, space as usize);
                set_owner(t, &owner);
                let from_signer = f.is_signer;
                // system program owns both at this point
                sys_transfer(f, t, from_signer, lamports)
            }
            SystemInstruction::Assign { owner } => {
                let a = get(0)?;
                if a.owner == &owner {
                    return Ok(());
                }
                if !a.is_signer {
                    return pe(ProgramError::MissingRequiredSignature);
                }
                if a.owner != &system_program::ID {
                    return rt("ModifiedProgramId");
                }
                set_owner(a, &owner);
                Ok(())
            }
            SystemInstruction::Allocate { space } => {
                let a = get(0)?;
                if !a.is_signer {
                    return pe(ProgramError::MissingRequiredSignature);
                }
                if !a.data.borrow().is_empty() || a.owner != &system_program::ID || space > 10_240 {
                    return pe(ProgramError::Custom(0));
                }
                set_data_len(ctx, a, space as usize);
                Ok(())
            }
            _ => rt("system instruction not modelled"),
        }
    } else if *program == spl_token::ID {
        let infos: Vec<AccountInfo> = accs.iter().filter_map(|a| a.0.clone()).collect();
        if infos.len() != accs.len() {
            return pe(ProgramError::NotEnoughAccountKeys);
        }
        let snap: Vec<(u64, Vec<u8>)> = infos.iter().map(|i| (i.lamports(), i.data.borrow().to_vec())).collect();
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| spl_token::processor::Processor::process(&spl_token::ID, &infos, data)));
        match r {
            Ok(Ok(())) => {}
            Ok(Err(e)) => return pe(e),
            Err(_) => return rt("token program panicked"),
        }
        for (i, s) in infos.iter().zip(&snap) {
            if (i.lamports() != s.0 || i.data.borrow()[..] != s.1[..]) && (!i.is_writable || i.owner != &spl_token::ID) {
                return rt(format!("token program wrote foreign/readonly account {}", i.key));
            }
        }
        Ok(())
    } else if *program == spl_associated_token_account::ID {
        let (payer, ata, wallet, mint) = (get(0)?, get(1)?, get(2)?, get(3)?);
        let idempotent = data.first() == Some(&1);
        if !(data.is_empty() || data[0] <= 1) {
            return rt("ATA instruction not modelled");
        }
        let (addr, _) = Pubkey::find_program_address(
            &[wallet.key.as_ref(), spl_token::ID.as_ref(), mint.key.as_ref()], &spl_associated_token_account::ID);
        if addr != *ata.key {
            return pe(ProgramError::InvalidSeeds);
        }
        if idempotent && ata.owner == &spl_token::ID {
            return Ok(());
        }
        if ata.owner != &system_program::ID {
            return pe(ProgramError::IllegalOwner);
        }
        if mint.owner != &spl_token::ID {
            return pe(ProgramError::IllegalOwner);
        }
        if !payer.is_signer || !payer.is_writable || !ata.is_writable {
            return pe(ProgramError::MissingRequiredSignature);
        }
        let len = spl_token::state::Account::LEN;
        let need = ctx.rent.minimum_balance(len).max(1).saturating_sub(ata.lamports());
        if need > 0 {
            sys_transfer(payer, ata, true, need)?;
        }
        set_data_len(ctx, ata, len);
        set_owner(ata, &spl_token::ID);
        let acc = spl_token::state::Account {
            mint: *mint.key,
            owner: *wallet.key,
            amount: 0,
            state: spl_token::state::AccountState::Initialized,
            ..Default::default()
        };
        if spl_token::state::Mint::unpack(&mint.data.borrow()).is_err() {
            return pe(ProgramError::InvalidAccountData);
        }
        acc.pack_into_slice(&mut ata.data.borrow_mut());
        Ok(())
    } else if program.to_string() == MEMO_ID || program.to_string() == COMPUTE_BUDGET_ID {
        Ok(())
    } else {
        rt(format!("unknown program {}", program))
    }
}

/// bincode of SystemInstruction (the handful of variants modelled)
fn decode_system(d: &[u8]) -> Option<SystemInstruction> {
    let tag = u32::from_le_bytes(d.get(0..4)?.try_into().ok()?);
    let u = |o: usize| -> Option<u64> { Some(u64::from_le_bytes(d.get(o..o + 8)?.try_into().ok()?)) };
    let k = |o: usize| -> Option<Pubkey> { Some(Pubkey::new_from_array(d.get(o..o + 32)?.try_into().ok()?)) };
    Some(match tag {
        0 => SystemInstruction::CreateAccount { lamports: u(4)?, space: u(12)?, owner: k(20)? },
        1 => SystemInstruction::Assign { owner: k(4)? },
        2 => SystemInstruction::Transfer { lamports: u(4)? },
        8 => SystemInstruction::Allocate { space: u(4)? },
        _ => return None,
    })
}

struct Raw {
    lamports: Box<u64>,
    owner: Box<Pubkey>,
    data: Vec<u8>,
    /// large read-only account: points into the ledger, never written back
    borrowed: Option<Arc<Vec<u8>>>,
    signer: bool,
    writable: bool,
}

impl Vm {
    pub fn new(program_id: Pubkey, process: Processor) -> Self {
        init_runtime();
        let mut vm = Vm {
            accounts: HashMap::new(),
            clock: Clock { unix_timestamp: 1_680_000_000, slot: 1_000, ..Clock::default() },
            rent: Rent::default(),
            program_id,
            process,
            stats: Stats::default(),
            mocks: vec![],
        };
        for p in [program_id, system_program::ID, spl_token::ID, spl_associated_token_account::ID,
                  MEMO_ID.parse().unwrap(), COMPUTE_BUDGET_ID.parse().unwrap()] {
            vm.accounts.insert(p, Acc { lamports: 1, data: Arc::new(vec![]), owner: solana_program::bpf_loader::ID, executable: true });
        }
        vm
    }

    pub fn get(&self, k: &Pubkey) -> Acc {
        self.accounts.get(k).cloned().unwrap_or_else(Acc::empty)
    }
    pub fn lamports(&self, k: &Pubkey) -> u64 {
        self.accounts.get(k).map(|a| a.lamports).unwrap_or(0)
    }
    pub fn data(&self, k: &Pubkey) -> Arc<Vec<u8>> {
        self.accounts.get(k).map(|a| a.data.clone()).unwrap_or_default()
    }
    pub fn set(&mut self, k: Pubkey, a: Acc) {
        self.accounts.insert(k, a);
    }
    pub fn token_amount(&self, k: &Pubkey) -> u64 {
        let a = self.get(k);
        if a.owner != spl_token::ID {
            return 0;
        }
        spl_token::state::Account::unpack(&a.data).map(|t| t.amount).unwrap_or(0)
    }
    pub fn data_mut(&mut self, k: &Pubkey) -> &mut Vec<u8> {
        Arc::make_mut(&mut self.accounts.get_mut(k).expect("account").data)
    }

    pub fn one(&mut self, ix: &Instruction) -> Result<(), TxErr> {
        self.execute(std::slice::from_ref(ix)).map_err(|e| e.1)
    }

    /// Executes a transaction atomically
    pub fn execute(&mut self, ixs: &[Instruction]) -> Result<(), (usize, TxErr)> {
        let mut keys: HashMap<Pubkey, (bool, bool)> = HashMap::new();
        for ix in ixs {
            keys.entry(ix.program_id).or_default();
            for m in &ix.accounts {
                let e = keys.entry(m.pubkey).or_default();
                e.0 |= m.is_signer;
                e.1 |= m.is_writable;
            }
        }
        let mut snapshot: HashMap<Pubkey, Option<Acc>> = HashMap::new();
        for k in keys.keys() {
            snapshot.insert(*k, self.accounts.get(k).cloned());
        }
        let mut res = Ok(());
        for (n, ix) in ixs.iter().enumerate() {
            self.stats.ixs += 1;
            if let Err(e) = self.run_ix(ixs, n, ix, &keys) {
                if let TxErr::Panic(_) = e {
                    self.stats.panics += 1;
                }
                res = Err((n, e));
                break;
            }
        }
        if res.is_ok() {
            // rent state transitions
            for (k, (_, w)) in &keys {
                if !*w {
                    continue;
                }
                let post = self.get(k);
                if post.lamports == 0 || self.rent.is_exempt(post.lamports, post.data.len()) {
                    continue;
                }
                let pre = snapshot[k].clone().unwrap_or_else(Acc::empty);
                let pre_paying = pre.lamports > 0 && !self.rent.is_exempt(pre.lamports, pre.data.len());
                if pre_paying && pre.data.len() == post.data.len() && post.lamports <= pre.lamports {
                    continue;
                }
                res = Err((ixs.len(), TxErr::Runtime(format!("InsufficientFundsForRent {}", k))));
                break;
            }
        }
        let before = if trace::on() { Some(snapshot.clone()) } else { None };
        let res = match res {
            Ok(()) => {
                for k in keys.keys() {
                    if self.lamports(k) == 0 {
                        self.accounts.remove(k);
                    }
                }
                self.stats.txs_ok += 1;
                Ok(())
            }
            Err(e) => {
                for (k, a) in snapshot {
                    match a {
                        Some(a) => {
                            self.accounts.insert(k, a);
                        }
                        None => {
                            self.accounts.remove(&k);
                        }
                    }
                }
                self.stats.txs_err += 1;
                Err(e)
            }
        };
        if let Some(b) = before {
            let panicked = matches!(&res, Err((_, TxErr::Panic(_))));
            trace::record(ixs, res.is_ok(), panicked, format!("{:?}", res), &b, &self.accounts);
        }
        res
    }

    fn run_ix(&mut self, all: &[Instruction], n: usize, ix: &Instruction, tx_keys: &HashMap<Pubkey, (bool, bool)>) -> Result<(), TxErr> {
        let mut raws: HashMap<Pubkey, Raw> = HashMap::new();
        let mut pre: HashMap<Pubkey, Acc> = HashMap::new();
        for m in &ix.accounts {
            if raws.contains_key(&m.pubkey) {
                continue;
            }
            let mut acc = self.get(&m.pubkey);
            if m.pubkey == sysvar::instructions::ID {
                acc = Acc::new(1, instructions_data(all, n), sysvar::ID);
            }
            let (signer, writable) = tx_keys[&m.pubkey];
            let writable = writable && !acc.executable && acc.owner != sysvar::ID;
            let big_ro = acc.data.len() > BIG && !writable;
            pre.insert(m.pubkey, acc.clone());
            raws.insert(m.pubkey, Raw {
                lamports: Box::new(acc.lamports),
                owner: Box::new(acc.owner),
                data: if big_ro { vec![] } else { acc.data.to_vec() },
                borrowed: if big_ro { Some(acc.data.clone()) } else { None },
                signer,
                writable,
            });
        }
        // AccountInfos sharing state for duplicates
        let mut infos_by_key: HashMap<Pubkey, AccountInfo<'static>> = HashMap::new();
        let keys_box: Vec<Box<Pubkey>> = raws.keys().map(|k| Box::new(*k)).collect();
        for kb in &keys_box {
            let r = raws.get_mut(&**kb).unwrap();
            let key: &'static Pubkey = unsafe { &*(&**kb as *const Pubkey) };
            let owner: &'static Pubkey = unsafe { &*(&*r.owner as *const Pubkey) };
            let lam: &'static mut u64 = unsafe { &mut *(&mut *r.lamports as *mut u64) };
            let data: &'static mut [u8] = match &r.borrowed {
                Some(b) => unsafe { std::slice::from_raw_parts_mut(b.as_ptr() as *mut u8, b.len()) },
                None => unsafe { std::slice::from_raw_parts_mut(r.data.as_mut_ptr(), r.data.len()) },
            };
            infos_by_key.insert(*key, AccountInfo {
                key,
                is_signer: r.signer,
                is_writable: r.writable,
                lamports: Rc::new(RefCell::new(lam)),
                data: Rc::new(RefCell::new(data)),
                owner,
                executable: pre[key].executable,
                rent_epoch: 0,
            });
        }
        let infos: Vec<AccountInfo<'static>> = ix.accounts.iter().map(|m| infos_by_key[&m.pubkey].clone()).collect();
        let mut ctx = Ctx {
            program_id: ix.program_id,
            priv_: raws.iter().map(|(k, r)| (*k, (r.signer, r.writable))).collect(),
            pre,
            tx_keys: tx_keys.keys().copied().collect(),
            executables: tx_keys.keys().filter(|k| self.get(k).executable).copied().collect(),
            rent: self.rent,
            clock: self.clock.clone(),
            fatal: None,
            arena: vec![],
            cpis: 0,
        };
        let res: Result<(), TxErr> = if ix.program_id == self.program_id {
            let f = self.process;
            let pid = self.program_id;
            CTX.with(|c| c.set(&mut ctx as *mut Ctx));
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&pid, &infos, &ix.data)));
            CTX.with(|c| c.set(std::ptr::null_mut()));
            match r {
                Ok(Ok(())) => Ok(()),
                Ok(Err(e)) => Err(TxErr::Program(e)),
                Err(_) => Err(TxErr::Panic(LAST_PANIC.with(|l| l.borrow().clone()))),
            }
        } else if self.mocks.contains(&ix.program_id) {
            Ok(())
        } else {
            let accs: Vec<(Option<AccountInfo>, AccountMeta)> = infos.iter().zip(&ix.accounts).map(|(i, m)| (Some(i.clone()), m.clone())).collect();
            let pid = ix.program_id;
            CTX.with(|c| c.set(&mut ctx as *mut Ctx));
            let r = native(&mut ctx, &pid, &accs, &ix.data);
            CTX.with(|c| c.set(std::ptr::null_mut()));
            // the native programs change accounts under their own rules
            for (k, i) in &infos_by_key {
                let ex = ctx.pre[k].executable;
                let d = i.data.borrow().to_vec();
                let d = if ctx.pre[k].data[..] == d[..] { ctx.pre[k].data.clone() } else { Arc::new(d) };
                ctx.pre.insert(*k, Acc { lamports: i.lamports(), data: d, owner: *i.owner, executable: ex });
            }
            r
        };
        self.stats.cpis += ctx.cpis;
        let mut res = res;
        if let Some(f) = ctx.fatal.take() {
            res = Err(f);
        }
        let mut out: Vec<(Pubkey, Acc)> = vec![];
        if res.is_ok() {
            let (mut sum_pre, mut sum_post) = (0u128, 0u128);
            for (k, i) in &infos_by_key {
                let p = &ctx.pre[k];
                let r = &raws[k];
                let d = i.data.borrow();
                let same_ptr = std::ptr::eq(d.as_ptr(), r.data.as_ptr()) || r.borrowed.is_some();
                if let Err(e) = verify_change(k, &ix.program_id, r.writable, p, i.lamports(), i.owner, &d, same_ptr) {
                    res = Err(e);
                    break;
                }
                sum_pre += p.lamports as u128;
                sum_post += i.lamports() as u128;
            }
            if res.is_ok() && sum_pre != sum_post {
                res = Err(TxErr::Runtime("UnbalancedInstruction".into()));
            }
            if res.is_ok() {
                for (k, i) in &infos_by_key {
                    let r = raws.get_mut(k).unwrap();
                    if !r.writable {
                        continue;
                    }
                    let old = &ctx.pre[k];
                    let d = i.data.borrow();
                    let data = if d.len() == old.data.len() && d[..] == old.data[..] {
                        old.data.clone()
                    } else if std::ptr::eq(d.as_ptr(), r.data.as_ptr()) && d.len() == r.data.len() {
                        Arc::new(std::mem::take(&mut r.data))
                    } else {
                        Arc::new(d.to_vec())
                    };
                    out.push((*k, Acc { lamports: i.lamports(), data, owner: *i.owner, executable: old.executable }));
                }
            }
        }
        drop(infos);
        drop(infos_by_key);
        for (p, l) in ctx.arena.drain(..) {
            unsafe { drop(Box::from_raw(std::slice::from_raw_parts_mut(p, l) as *mut [u8])) };
        }
        res?;
        for (k, a) in out {
            if k == sysvar::instructions::ID {
                continue;
            }
            self.accounts.insert(k, a);
        }
        Ok(())
    }
}

/// The instructions sysvar's documented layout
fn instructions_data(all: &[Instruction], current: usize) -> Vec<u8> {
    let mut data: Vec<u8> = vec![];
    data.extend((all.len() as u16).to_le_bytes());
    for _ in all {
        data.extend([0u8; 2]);
    }
    for (i, ix) in all.iter().enumerate() {
        let off = data.len() as u16;
        data[2 + 2 * i..4 + 2 * i].copy_from_slice(&off.to_le_bytes());
        data.extend((ix.accounts.len() as u16).to_le_bytes());
        for m in &ix.accounts {
            data.push((m.is_signer as u8) | ((m.is_writable as u8) << 1));
            data.extend(m.pubkey.as_ref());
        }
        data.extend(ix.program_id.as_ref());
        data.extend((ix.data.len() as u16).to_le_bytes());
        data.extend(&ix.data);
    }
    data.extend((current as u16).to_le_bytes());
    data
}

// ---------------------------------------------------------------- account helpers

pub fn mint_account(decimals: u8, freeze: Option<Pubkey>, rent: &Rent) -> Acc {
    let mut d = vec![0; spl_token::state::Mint::LEN];
    spl_token::state::Mint {
        mint_authority: None.into(),
        supply: u64::MAX,
        decimals,
        is_initialized: true,
        freeze_authority: freeze.into(),
    }
    .pack_into_slice(&mut d);
    Acc::new(rent.minimum_balance(d.len()), d, spl_token::ID)
}

pub fn token_account(mint: Pubkey, owner: Pubkey, amount: u64, rent: &Rent) -> Acc {
    let mut d = vec![0; spl_token::state::Account::LEN];
    spl_token::state::Account { mint, owner, amount, state: spl_token::state::AccountState::Initialized, ..Default::default() }.pack_into_slice(&mut d);
    Acc::new(rent.minimum_balance(d.len()), d, spl_token::ID)
}

pub fn w(k: Pubkey) -> AccountMeta {
    AccountMeta::new(k, false)
}
pub fn ws(k: Pubkey) -> AccountMeta {
    AccountMeta::new(k, true)
}
pub fn r(k: Pubkey) -> AccountMeta {
    AccountMeta::new_readonly(k, false)
}
pub fn rs(k: Pubkey) -> AccountMeta {
    AccountMeta::new_readonly(k, true)
}
