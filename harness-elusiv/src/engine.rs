//! Runs transactions against the real program and the specification side by side.
use crate::env::*;
use crate::refm::*;
use crate::spec::*;
use crate::view::{self, Diff};
use minivm::report::Obs;
use minivm::*;
use solana_program::{instruction::Instruction, pubkey::Pubkey, system_program};
use std::collections::{BTreeSet, VecDeque};

#[derive(Clone)]
pub struct World {
    pub vm: Vm,
    pub base: Vm,
    pub m: Model,
    pub prop: &'static str,
    pub alive: bool,
    pub log: VecDeque<String>,
    pub txs: u64,
    pub accepted: u64,
    pub rejected: u64,
    /// reason of the last rejection according to the specification
    pub last_why: &'static str,
    pub last_err: String,
    pub pool_rent: u64,
    /// model-independent: what the pool held more than its obligations at the start
    pub slack: [i128; TOKENS as usize],
}

pub fn ix_name(v: u8) -> &'static str {
    const N: [&str; 34] = [
        "StoreBaseCommitment", "ComputeBaseCommitmentHash", "FinalizeBaseCommitmentHash", "SetupCommitmentHash", "InitCommitmentHash",
        "ComputeCommitmentHash", "FinalizeCommitmentHash", "InitVerification", "InitVerificationTransferFee", "InitVerificationProof",
        "ComputeVerification", "FinalizeVerificationSend", "FinalizeVerificationInsertNullifier", "FinalizeVerificationTransferLamports",
        "FinalizeVerificationTransferToken", "CreateVkeyAccount", "CreateNewVkeyVersion", "UpdateVkeyVersion", "SetVkeyData", "FreezeVkey",
        "ChangeVkeyAuthority", "ResetActiveMerkleTree", "ArchiveClosedMerkleTree", "OpenSingleInstanceAccounts", "OpenNullifierAccount",
        "EnableStorageChildAccount", "EnableNullifierChildAccount", "EnableMetadataChildAccount", "SetupGovernorAccount", "UpgradeGovernorState",
        "InitNewFeeVersion", "CloseProgramAccount", "CreateNewAccountsV1", "Nop",
    ];
    N.get(v as usize).copied().unwrap_or("unknown")
}
pub fn ix_tags(v: u8) -> Tags {
    match v {
        0 => &["F02", "C01", "L01"],
        1 => &["H01", "C01", "L01"],
        2 => &["C01", "H01", "F01", "L01"],
        3 => &["H01", "M01", "C01", "L01"],
        4 => &["C01", "C02", "M01", "L01"],
        5 => &["H01", "F01", "C01", "L01"],
        6 => &["M01", "H01", "C01", "L01"],
        7 => &["V02", "M02", "N01", "L01"],
        8 => &["F04", "V03", "L01"],
        9 => &["V01", "V03", "L01"],
        10 => &["V01", "L01"],
        11 => &["V04", "V03", "L01"],
        12 => &["N01", "N02", "V03", "L01"],
        13 | 14 => &["F03", "V03", "V04", "L01"],
        15..=20 => &["K01", "L01"],
        21 => &["M01", "M02", "L01"],
        _ => &["A02", "L01"],
    }
}
pub fn describe(ixs: &[Instruction]) -> String {
    let each: Vec<String> = ixs.iter()
        .map(|i| {
            if i.program_id == pid() {
                let v = i.data.first().copied().unwrap_or(255);
                format!("{}[{}]({} accounts)", ix_name(v), i.data.iter().skip(1).take(12).map(|b| format!("{:02x}", b)).collect::<String>(), i.accounts.len())
            } else if i.program_id == system_program::ID {
                "system".into()
            } else if i.program_id == spl_token::ID {
                "token".into()
            } else if i.program_id == memo_id() {
                "memo".into()
            } else if i.program_id == budget_id() {
                "budget".into()
            } else {
                "other".into()
            }
        })
        .collect();
    // repeated instructions are shown once
    let mut out: Vec<(String, usize)> = vec![];
    for e in each {
        let name = |s: &str| s.split('[').next().unwrap_or("").to_string();
        match out.last_mut() {
            Some(l) if name(&l.0) == name(&e) => l.1 += 1,
            _ => out.push((e, 1)),
        }
    }
    out.into_iter().map(|(e, n)| if n > 1 { format!("{}x {}", n, e) } else { e }).collect::<Vec<_>>().join(" + ")
}
fn ixs_tags(ixs: &[Instruction]) -> Vec<&'static str> {
    let mut t: BTreeSet<&'static str> = BTreeSet::new();
    for i in ixs.iter().filter(|i| i.program_id == pid()) {
        t.extend(ix_tags(i.data.first().copied().unwrap_or(255)));
    }
    t.into_iter().collect()
}
/// the main instruction of a transaction
fn main_ix(ixs: &[Instruction]) -> &'static str {
    ixs.iter().filter(|i| i.program_id == pid()).map(|i| ix_name(i.data.first().copied().unwrap_or(255))).last().unwrap_or("none")
}
fn money_tags(ixs: &[Instruction]) -> Vec<&'static str> {
    let mut t = vec!["F01"];
    for i in ixs.iter().filter(|i| i.program_id == pid()) {
        match i.data.first() {
            Some(0) => t.push("F02"),
            Some(8) => t.push("F04"),
            Some(13) | Some(14) | Some(11) => t.extend(["F03", "V03", "V04"]),
            Some(5) | Some(2) => t.extend(["H01", "C01"]),
            _ => {}
        }
    }
    t
}

impl World {
    pub fn new(prop: &'static str, vm: Vm, m: Model) -> Self {
        let pool_rent = vm.rent.minimum_balance(vm.data(&k().pool).len());
        let mut w = World {
            base: vm.clone(), vm, m, prop, alive: true, log: VecDeque::new(), txs: 0, accepted: 0, rejected: 0, last_why: "", last_err: String::new(), pool_rent,
            slack: [0; TOKENS as usize],
        };
        w.slack = w.surplus();
        w
    }
    pub fn standard(prop: &'static str, rate: u32, fee: u32) -> Self {
        World::new(prop, base_vm(rate, fee), Model::after_setup(&fee_schedule(fee), 3, rate))
    }
    /// what the pool holds beyond its obligations
    pub fn surplus(&self) -> [i128; TOKENS as usize] {
        let o = self.m.obligations(self.pool_rent);
        let mut s = [0; TOKENS as usize];
        for t in 0..TOKENS {
            let have = if t == 0 { self.vm.lamports(&k().pool) } else { self.vm.token_amount(&ata(&k().pool, t)) };
            s[t as usize] = have as i128 - o[t as usize] as i128;
        }
        s
    }
    pub fn finding(&mut self, obs: &mut Obs, tags: &[&'static str], sig: String, detail: String) {
        self.alive = false;
        if tags.contains(&self.prop) || self.prop == "ALL" {
            let log = self.log.iter().rev().take(12).cloned().collect::<Vec<_>>().join("\n    ");
            obs.violation(sig, format!("{}\n  recent transactions (latest first):\n    {}", detail, log));
        } else {
            obs.inc("worlds_ended_by_other_properties_finding");
            obs.inc(&format!("other: {}", sig));
        }
    }
    /// Executes one transaction; true if it was accepted
    pub fn step(&mut self, obs: &mut Obs, ixs: &[Instruction]) -> bool {
        self.step_as(obs, ixs, true)
    }
    /// `judge_refusal`: false if a refusal of a transaction the specification accepts is of no interest
    pub fn step_as(&mut self, obs: &mut Obs, ixs: &[Instruction], judge_refusal: bool) -> bool {
        if !self.alive {
            return false;
        }
        self.txs += 1;
        obs.inc("transactions");
        let mut sim = Sim::new(&self.vm, &self.m, ixs);
        let pred = sim.run();
        let Sim { m, lam, tok, made, keys, maybe, unknown, sync_setup, sync_ver, sync_moving, touched, .. } = sim;
        if let (Ok(_), Some(u)) = (&pred, unknown) {
            // nothing could be judged: not executed
            obs.inc(&format!("skipped: {}", u));
            return false;
        }
        let before: Vec<(Pubkey, Acc)> = keys.keys().map(|k| (*k, self.vm.get(k))).collect();
        let act = self.vm.execute(ixs);
        let name = describe(ixs);
        self.log.push_back(format!("{} -> {}", name, match &act { Ok(_) => "accepted".into(), Err(e) => format!("rejected {:?}", e) }));
        if self.log.len() > 16 {
            self.log.pop_front();
        }
        if let Err(e) = &act {
            self.last_err = format!("{:?}", e);
        }
        self.last_why = "";
        match (pred, &act) {
            (Err(r), Err(_)) => {
                self.rejected += 1;
                self.last_why = r.why;
                obs.inc("rejected_as_specified");
                if self.rejected % 61 == 7 {
                    obs.sample(|| format!("{} -> rejected: {}", name, r.why));
                }
                obs.inc(&format!("reject: {}", r.why));
                obs.nontrivial(&("rej", r.why, main_ix(ixs)));
                return false;
            }
            (Err(r), Ok(_)) => {
                self.last_why = r.why;
                self.finding(obs, r.tags, format!("accepted although: {} ({})", r.why, main_ix(ixs)), format!("the program accepted a transaction that has to be rejected: {} [{}]\n  state: tree {} next leaf {} roots {} of {}, no longer valid {:?}\n  instructions: {}", r.why, name, self.m.trees_count, self.m.ptr, self.m.roots.len(), self.m.roots_count, self.m.stale.iter().map(|r| raw(&from_mr(r))[..4].to_vec()).collect::<Vec<_>>(), hex_dump(ixs)));
                return true;
            }
            (Ok(_), Err(e)) => {
                self.rejected += 1;
                if maybe.is_some() || !judge_refusal {
                    obs.inc("rejected_unjudged");
                    return false;
                }
                let e = format!("{:?}", e);
                self.finding(obs, &ixs_tags(ixs), format!("refused: {}", main_ix(ixs)), format!("the program refused a transaction that has to be accepted: {} [{}]", e, name));
                return false;
            }
            _ => {}
        }
        self.accepted += 1;
        obs.inc("accepted");
        if self.accepted % 97 == 5 {
            obs.sample(|| format!("{} -> accepted with exactly the specified effects on {} accounts", name, before.len()));
        }
        for i in ixs.iter().filter(|i| i.program_id == pid()) {
            obs.inc(&format!("ok {}", ix_name(i.data[0])));
        }
        obs.nontrivial(&("ok", ixs.iter().map(|i| i.data.first().copied()).collect::<Vec<_>>(), before.len()));
        self.m = m;
        // parts of the state that are taken over from the program
        if sync_setup {
            self.m.mth.setup = view::mth_setup(&self.vm);
        }
        for t in sync_moving.iter().copied() {
            let e = view::moved_empty(&self.vm, t);
            self.m.nulls.get_mut(&t).unwrap().moving = !e;
        }
        let several = sync_ver.iter().any(|x| *x != sync_ver[0]);
        for key in sync_ver {
            if !self.m.ver.contains_key(&key) {
                continue;
            }
            let Some((st, verdict)) = view::ver_state(&self.vm, &key) else { continue };
            let v = self.m.ver.get_mut(&key).unwrap();
            if v.state == St::InsertNullifiers {
                let moving = self.m.nulls[&v.trees[0]].moving;
                if st == St::Finalized && (moving && !several || (v.inserted as usize) < v.req.inputs.len()) {
                    let detail = format!("nullifiers inserted {} of {}, waiting to be moved: {}", v.inserted, v.req.inputs.len(), moving);
                    self.finding(obs, &["N01", "N02", "V03"], "finalized before all nullifiers are in place".into(), detail);
                    return true;
                }
                if st == St::InsertNullifiers || st == St::Finalized {
                    v.state = st;
                }
                continue;
            }
            if verdict != v.verdict {
                obs.inc("verdicts");
                if verdict == Some(true) {
                    let ok = v.state == St::ProofSetup && v.proof.as_ref().and_then(|p| crate::groth::judge(p, &v.req)).unwrap_or(false);
                    obs.inc("positive_verdicts");
                    if !ok {
                        self.finding(obs, &["V01", "V02", "V03", "F01"], "accepted an invalid proof".into(), "the verdict is true, the reference verifier rejects the stored proof for the request's public inputs".into());
                        return true;
                    }
                } else if verdict == Some(false) && v.state == St::ProofSetup && v.proof.as_ref().and_then(|p| crate::groth::judge(p, &v.req)) == Some(true) {
                    self.finding(obs, &["V01", "V02", "K01", "L01"], "rejected a valid proof".into(), "the verdict is false, the reference verifier accepts the stored proof for the request's public inputs".into());
                    return true;
                }
                v.verdict = verdict;
            }
        }
        // displaced nullifiers wait only while a send that has to place them is open
        for t in sync_moving {
            let open = self.m.ver.values().any(|v| v.trees[0] == t && v.state == St::InsertNullifiers && v.inserted > 0);
            if self.m.nulls[&t].moving && !open {
                self.finding(obs, &["N01", "N02", "V03"], "displaced nullifiers are left behind".into(), format!("tree {}: no open send is left to place them [{}]", t, name));
                return true;
            }
            obs.inc("displaced_checked");
        }
        // lamports and tokens
        for (key, acc) in &before {
            let now = self.vm.get(key);
            let want = lam.get(key).copied().unwrap_or(acc.lamports);
            if now.lamports != want {
                let tags = money_tags(ixs);
                let role = role(key, ixs);
                self.finding(obs, &tags, format!("lamports of {} after {}", role, main_ix(ixs)), format!("{} ({}) holds {} lamports, specified {} (before {}) [{}]", role, key, now.lamports, want, acc.lamports, name));
                return true;
            }
            if let Some(t) = tok.get(key) {
                let have = token_unpack(&self.vm, key).map(|x| (x.mint, x.owner, x.amount));
                if have != Some((t.mint, t.owner, t.amount)) {
                    let tags = money_tags(ixs);
                    let role = role(key, ixs);
                    let was = token_unpack_acc(acc).map(|x| x.amount);
                    self.finding(obs, &tags, format!("tokens of {} after {}", role, main_ix(ixs)), format!("{} ({}) holds {:?} tokens, specified {} (before {:?}) [{}]", role, key, have.map(|h| h.2), t.amount, was, name));
                    return true;
                }
                continue;
            }
            let gone = want == 0;
            if let Some((owner, len)) = made.get(key) {
                if !gone && (now.owner != *owner || now.data.len() != *len) {
                    self.finding(obs, &["A02", "V03", "C01", "N01"], format!("created account of {}", main_ix(ixs)), format!("{}: owner {} length {}", key, now.owner, now.data.len()));
                    return true;
                }
                continue;
            }
            if !touched.contains(key) && !gone && !(now.owner == acc.owner && now.data == acc.data) {
                let mut tags = ixs_tags(ixs);
                tags.extend(["A01", "A02", "F01"]);
                self.finding(obs, &tags, format!("unrelated account changed by {}", main_ix(ixs)), format!("{} [{}]", key, name));
                return true;
            }
        }
        // protocol state
        for key in &touched {
            if self.vm.lamports(key) == 0 {
                continue;
            }
            let diffs = match catch(|| view::compare(&self.vm, &self.m, key)) {
                Ok(d) => d,
                Err(e) => {
                    self.unreadable(obs, ixs, e);
                    return true;
                }
            };
            if self.diffs(obs, diffs, ixs) {
                return true;
            }
        }
        // solvency
        let s = self.surplus();
        for t in 0..TOKENS as usize {
            obs.max(if t == 0 { "obligations_lamports" } else { "obligations_token" }, self.m.notes[t].min(u64::MAX as u128) as u64);
            if s[t] < self.slack[t].min(0) {
                self.finding(obs, &["F01"], format!("pool underfunded after {}", main_ix(ixs)), format!("token {}: surplus {} [{}]", t, s[t], name));
                return true;
            }
        }
        true
    }
    pub fn diffs(&mut self, obs: &mut Obs, diffs: Vec<Diff>, ixs: &[Instruction]) -> bool {
        let Some(_) = diffs.first() else { return false };
        let mut tags: Vec<&'static str> = vec![];
        for x in &diffs {
            tags.extend(x.tags);
        }
        let what = &diffs[0].what;
        let short = what.split(':').next().unwrap_or("").chars().filter(|c| !c.is_ascii_digit()).collect::<String>();
        let detail = format!("{} [{}]", diffs.iter().map(|d| d.what.chars().take(400).collect::<String>()).collect::<Vec<_>>().join("; "), describe(ixs));
        self.finding(obs, &tags, format!("state: {} after {}", short, main_ix(ixs)), detail);
        true
    }
    pub fn deep(&mut self, obs: &mut Obs) {
        if !self.alive {
            return;
        }
        obs.inc("deep_comparisons");
        match catch(|| view::deep(&self.vm, &self.base, &self.m)) {
            Ok(diffs) => {
                self.diffs(obs, diffs, &[]);
            }
            Err(e) => self.unreadable(obs, &[], e),
        }
    }
    /// the program's own accessors fail on the state it wrote
    fn unreadable(&mut self, obs: &mut Obs, ixs: &[Instruction], e: String) {
        let mut tags = ixs_tags(ixs);
        tags.extend(["A02", "S01", "C01"]);
        self.finding(obs, &tags, format!("unreadable state after {}", main_ix(ixs)), e);
    }
    /// sets the verdict of a verification directly (the computation is checked on its own)
    pub fn poke_verdict(&mut self, key: &Pubkey, verdict: bool) {
        view::set_verdict(&mut self.vm, key, verdict);
        self.m.ver.get_mut(key).unwrap().verdict = Some(verdict);
    }
}
pub fn hex_dump(ixs: &[Instruction]) -> String {
    ixs.iter().map(|i| format!("\n    {} data {} accounts {:?}", i.program_id, i.data.iter().map(|b| format!("{:02x}", b)).collect::<String>(), i.accounts.iter().map(|a| a.pubkey.to_string()).collect::<Vec<_>>())).collect()
}
pub fn token_unpack_acc(a: &Acc) -> Option<spl_token::state::Account> {
    use solana_program::program_pack::Pack;
    if a.owner != spl_token::ID {
        return None;
    }
    spl_token::state::Account::unpack(&a.data).ok()
}
fn role(key: &Pubkey, ixs: &[Instruction]) -> &'static str {
    let kk = k();
    for (a, n) in [(&kk.pool, "the pool"), (&kk.collector, "the fee collector"), (&kk.governor, "the governor"), (&kk.mth, "the tree-hashing account")] {
        if key == a {
            return n;
        }
    }
    for t in 1..TOKENS {
        if *key == ata(&kk.pool, t) {
            return "the pool's token account";
        }
        if *key == ata(&kk.collector, t) {
            return "the fee collector's token account";
        }
    }
    for i in ixs.iter().filter(|i| i.program_id == pid()) {
        let at = i.accounts.iter().position(|a| a.pubkey == *key);
        match (i.data.first(), at) {
            (Some(0), Some(0 | 1)) => return "the sender",
            (Some(0), Some(2 | 3)) => return "the payer",
            (Some(2 | 5 | 7 | 8), Some(0 | 1)) => return "the payer",
            (Some(13 | 14), Some(0)) => return "the payer",
            (Some(13), Some(1)) | (Some(14), Some(2)) => return "the recipient",
            (Some(14), Some(1)) => return "the payer's token account",
            (Some(13), Some(4)) | (Some(14), Some(8)) => return "the optional fee collector",
            _ => {}
        }
    }
    "an account"
}
pub fn raw_u(v: u64) -> U256 {
    let mut b = [0; 32];
    b[..8].copy_from_slice(&v.to_le_bytes());
    b
}
