//! The real program beside its specification
use crate::layout::*;
use crate::spec::*;
use elusiv_types::accounts::ProgramAccount;
use elusiv_warden_network::network::ApaWardenNetworkAccount;
use elusiv_warden_network::processor::METADATA_ATTESTER_AUTHORITY;
use minivm::report::Obs;
use minivm::{mint_account, Acc, Vm};
use solana_program::{pubkey::Pubkey, system_program};
use std::collections::{HashMap, HashSet};

pub const RICH: u64 = 1 << 50;

pub struct World {
    pub prop: &'static str,
    pub vm: Vm,
    pub m: Model,
    pub mints: Vec<Pubkey>,
    pub freeze: HashMap<Pubkey, Option<Pubkey>>,
    pub dead: bool,
    pub log: Vec<String>,
    steps: u64,
    prefunded: HashMap<Pubkey, u64>,
}

pub fn key(tag: &str, i: usize) -> Pubkey {
    Pubkey::new_from_array(solana_program::hash::hash(format!("{}/{}", tag, i).as_bytes()).to_bytes())
}
pub fn authority() -> Pubkey {
    METADATA_ATTESTER_AUTHORITY
}
pub fn other_program() -> Pubkey {
    key("program", 0)
}

pub enum Out {
    Accepted,
    Refused(&'static str),
    /// already reported, or a history that cannot go on
    Broken,
}

impl World {
    pub fn new(prop: &'static str) -> Self {
        let mut vm = Vm::new(pid(), elusiv_warden_network::process_instruction);
        vm.mocks = vec![elusiv(), other_program()];
        for p in [elusiv(), other_program()] {
            vm.set(p, Acc { lamports: 1, data: Default::default(), owner: solana_program::bpf_loader::ID, executable: true });
        }
        // the authority is a placeholder key; here it is somebody who can sign
        vm.set(authority(), Acc::new(RICH, vec![], system_program::ID));
        let mints: Vec<Pubkey> = (0..TOKENS as u16).map(|t| elusiv_types::elusiv_token(t).ok().expect("token").mint).collect();
        let mut freeze = HashMap::new();
        for (i, m) in mints.iter().enumerate() {
            let f = match i % 4 {
                0 => None,
                _ => Some(key("warden", i % 4)),
            };
            freeze.insert(*m, f);
            if i > 0 {
                let a = mint_account(6, f, &vm.rent);
                vm.set(*m, a);
            }
        }
        // lookalike mints, accounts of the program at other addresses and foreign accounts
        for i in 0..4 {
            let a = mint_account(6, Some(key("warden", i)), &vm.rent);
            vm.set(key("mint", i), a);
            vm.set(key("own", i), Acc::new(RICH, vec![0; 7000], pid()));
        }
        World { prop, vm, m: Model::default(), mints, freeze, dead: false, log: vec![], steps: 0, prefunded: HashMap::new() }
    }

    pub fn fund(&mut self, k: Pubkey) {
        // addresses of the program have no key that could sign
        if !self.vm.accounts.contains_key(&k) && !is_pda(&k) {
            self.vm.set(k, Acc::new(RICH, vec![], system_program::ID));
        }
    }

    fn report(&mut self, obs: &mut Obs, tags: &[&str], sig: String, detail: String) {
        self.dead = true;
        if tags.contains(&self.prop) {
            let log = self.log.iter().rev().take(60).rev().cloned().collect::<Vec<_>>().join("\n");
            obs.violation(sig, format!("{}\n\nhistory (last steps):\n{}", detail, log));
        } else {
            obs.inc("histories ended by another property");
        }
    }

    fn model_after(&self, calls: &[Call], cats: &HashMap<u8, usize>) -> Result<Model, (usize, No)> {
        let mut m = self.m.clone();
        for (b, c) in cats {
            m.category.insert(*b, *c);
        }
        let signers: HashSet<Pubkey> = calls.iter().flat_map(|c| c.accs.iter()).filter(|a| a.1).map(|a| a.0).collect();
        for (n, c) in calls.iter().enumerate() {
            let env = Env {
                now: self.vm.clock.unix_timestamp,
                signers: &signers,
                previous: if n > 0 { Some(&calls[n - 1]) } else { None },
                authority: authority(),
                mints: &self.mints,
                freeze: &self.freeze,
            };
            m.apply(c, &env).map_err(|e| (n, e))?;
        }
        Ok(m)
    }

    fn diffs(&self, m: &Model, old: Option<&Model>, keys: Option<&HashSet<Pubkey>>) -> Vec<(Vec<&'static str>, String, String)> {
        let mut out = vec![];
        let touched = |k: &Pubkey| keys.map(|s| s.contains(k)).unwrap_or(true);
        let ids = m.ids();
        for id in &ids {
            let k = id.key();
            if !touched(&k) {
                continue;
            }
            let acc = self.vm.get(&k);
            if acc.owner != pid() {
                out.push((vec![owner_of(id.kind(), "")], format!("{} account missing", id.kind()), format!("{:?}", id)));
                continue;
            }
            let f = m.fields(id);
            let want: usize = f.iter().map(|f| f.1.len()).sum();
            if acc.data.len() != want {
                out.push((vec![owner_of(id.kind(), "")], format!("{} account has another size", id.kind()), format!("{:?} {} bytes instead of {}", id, acc.data.len(), want)));
                continue;
            }
            if acc.lamports != self.vm.rent.minimum_balance(want).max(self.prefunded.get(&k).copied().unwrap_or(0)) {
                out.push((vec![owner_of(id.kind(), "")], format!("{} account does not hold its rent", id.kind()), format!("{:?} {}", id, acc.lamports)));
            }
            let mut o = 0;
            for (name, v) in f {
                let got = &acc.data[o..o + v.len()];
                if got != &v[..] {
                    let at = got.iter().zip(&v).position(|(a, b)| a != b).unwrap();
                    let end = (at + 24).min(v.len());
                    out.push((vec![owner_of(id.kind(), name)], format!("{}.{} differs", id.kind(), name),
                        format!("{:?} field {} byte {}: stored {:?}, expected {:?}", id, name, at, &got[at..end], &v[at..end])));
                }
                o += v.len();
            }
        }
        if let Some(old) = old {
            let now: HashSet<Pubkey> = ids.iter().map(|i| i.key()).collect();
            for id in old.ids() {
                if !now.contains(&id.key()) && self.vm.get(&id.key()).owner == pid() {
                    out.push((vec![owner_of(id.kind(), "")], format!("{} account not closed", id.kind()), format!("{:?}", id)));
                }
            }
        }
        if let Some(keys) = keys {
            let known: HashSet<Pubkey> = ids.iter().map(|i| i.key()).collect();
            for k in keys {
                let a = self.vm.get(k);
                if a.owner == pid() && !known.contains(k) && !(0..4).any(|i| *k == key("own", i)) {
                    out.push((vec![], "account of unknown kind".into(), k.to_string()));
                }
                if (0..4).any(|i| *k == key("own", i)) && (a.lamports != RICH || a.data.iter().any(|b| *b != 0)) {
                    out.push((vec![], "lookalike account changed".into(), k.to_string()));
                }
            }
        }
        out
    }

    /// Runs a transaction on the program and on the specification. `free`: refusing it is acceptable too
    pub fn step(&mut self, obs: &mut Obs, calls: &[Call], free: bool) -> Out {
        if self.dead {
            return Out::Broken;
        }
        self.steps += 1;
        // a stated identity that is not the signer's own may be refused or ignored
        let free = free || calls.iter().any(|c| match &c.op {
            Op::Start { id, .. } => c.accs.first().map(|a| self.m.map.get(&a.0) != Some(id)).unwrap_or(true),
            _ => false,
        });
        for c in calls {
            for (k, s, _) in &c.accs {
                if *s {
                    self.fund(*k);
                }
            }
        }
        let ixs: Vec<_> = calls.iter().map(|c| c.ix()).collect();
        let names: Vec<&str> = calls.iter().map(|c| c.op.name()).collect();
        let unknown: Vec<u8> = calls.iter().filter_map(|c| match &c.op {
            Op::Foreign { data, .. } => data.first().copied().filter(|b| TRACKED.contains(b) && !self.m.category.contains_key(b)),
            _ => None,
        }).collect::<std::collections::BTreeSet<_>>().into_iter().collect();
        let want = self.model_after(calls, &HashMap::new());
        if let Ok(after) = &want {
            // now and then somebody has sent lamports to the address of an account that is about to be opened
            for id in after.ids() {
                let k = id.key();
                let h = minivm::report::h64(&(self.steps, k.to_bytes()));
                if h % 13 == 0 && self.vm.lamports(&k) == 0 {
                    let n = [890_880u64, 1_000_000, 20_000_000, 1 << 34][(h >> 8) as usize % 4];
                    self.vm.set(k, Acc::new(n, vec![], system_program::ID));
                    self.prefunded.insert(k, n);
                    obs.inc("addresses funded beforehand");
                }
            }
        }
        let got = self.vm.execute(&ixs);
        let vm = &self.vm;
        self.prefunded.retain(|k, _| vm.lamports(k) > 0);
        self.log.push(format!("t={} {} {:?} => {}", self.vm.clock.unix_timestamp, names.join("+"),
            calls.iter().map(|c| brief(&c.op)).collect::<Vec<_>>(), if let Err((n, e)) = &got { format!("refused by {} ({:?})", n, e) } else { "accepted".into() }));
        obs.eval();
        match (want, got) {
            (Err((n, No::Refuse(r))), Ok(())) => {
                self.report(obs, calls[n].op.tags(), format!("{} accepted: {}", names[n], r), format!("{:#?}", calls));
                Out::Broken
            }
            (Err((n, No::Refuse(r))), Err((_, e))) => {
                obs.inc(&format!("refused {}: {}", names[n], r));
                obs.nontrivial(&(names.join("+"), r));
                let _ = e;
                Out::Refused(r)
            }
            (Ok(_), Err((n, e))) => {
                if free {
                    obs.inc(&format!("refused {}: altered privileges", names[n.min(names.len() - 1)]));
                    return Out::Refused("free");
                }
                let t = calls.get(n).map(|c| c.op.tags()).unwrap_or(&["W01", "W02", "W03", "W04", "W05"]);
                self.report(obs, t, format!("honest {} refused", names.get(n).unwrap_or(&"transaction")), format!("{:?}\n{:#?}", e, calls));
                Out::Broken
            }
            (Ok(m), Ok(())) => {
                let keys: HashSet<Pubkey> = ixs.iter().flat_map(|i| i.accounts.iter().map(|a| a.pubkey)).collect();
                let mut best = m;
                let mut d = self.diffs(&best, Some(&self.m), Some(&keys));
                if !d.is_empty() && !unknown.is_empty() {
                    for code in 1..3usize.pow(unknown.len() as u32) {
                        let cats: HashMap<u8, usize> = unknown.iter().enumerate().map(|(i, b)| (*b, code / 3usize.pow(i as u32) % 3)).collect();
                        if let Ok(m2) = self.model_after(calls, &cats) {
                            let d2 = self.diffs(&m2, Some(&self.m), Some(&keys));
                            if d2.is_empty() {
                                best = m2;
                                d = d2;
                                break;
                            }
                        }
                    }
                }
                for (i, n) in names.iter().enumerate() {
                    obs.inc(&format!("accepted {}", n));
                    // counted relays fix the statistics their kind belongs to
                    if let Op::Track { year, .. } = &calls[i].op {
                        let k = (calls[i].accs[0].0, *year);
                        let sum = |m: &Model| m.stats.get(&k).map(|s| s.cat.iter().flat_map(|c| c.values()).sum::<u32>()).unwrap_or(0);
                        if sum(&best) > sum(&self.m) {
                            obs.inc("relays counted");
                            if let Some(b) = i.checked_sub(1).and_then(|p| ixs[p].data.first().copied()) {
                                if TRACKED.contains(&b) && calls.len() == 2 {
                                    let old = self.m.stats.get(&k);
                                    let cat = (0..3).find(|c| {
                                        let new: u32 = best.stats[&k].cat[*c].values().sum();
                                        new > old.map(|o| o.cat[*c].values().sum()).unwrap_or(0)
                                    }).unwrap();
                                    best.category.entry(b).or_insert(cat);
                                }
                            }
                        } else {
                            obs.inc("trackings without count");
                        }
                    }
                }
                obs.nontrivial(&(names.join("+"), self.shape(&best)));
                if !d.is_empty() {
                    let mut tags: Vec<&str> = vec![];
                    for x in &d {
                        tags.extend(&x.0);
                    }
                    for c in calls {
                        if !matches!(c.op, Op::Foreign { .. }) {
                            tags.extend(c.op.tags());
                        }
                    }
                    let first = d[0].1.clone();
                    let text = d.iter().map(|x| format!("{}: {}", x.1, x.2)).collect::<Vec<_>>().join("\n");
                    self.report(obs, &tags, format!("after {}: {}", names.join("+"), first), format!("{}\n{:#?}", text, calls));
                    return Out::Broken;
                }
                self.m = best;
                if keys.contains(&Id::Apa.key()) {
                    self.genesis_view(obs);
                }
                if self.steps % 32 == 0 {
                    self.full(obs);
                }
                Out::Accepted
            }
        }
    }

    /// Every account of the program is exactly what the history says
    pub fn full(&mut self, obs: &mut Obs) {
        if self.dead {
            return;
        }
        obs.inc("complete ledger comparisons");
        let d = self.diffs(&self.m, None, None);
        if let Some(x) = d.first() {
            self.report(obs, &x.0.clone(), format!("ledger: {}", x.1), x.2.clone());
            return;
        }
        let n = self.vm.accounts.values().filter(|a| a.owner == pid()).count();
        let want = self.m.ids().len() + 4;
        if n != want {
            self.report(obs, &["W01", "W02", "W03", "W04", "W05"], "ledger: number of program accounts".into(), format!("{} instead of {}", n, want));
        }
    }

    /// What the account tells its readers about the genesis phases
    fn genesis_view(&mut self, obs: &mut Obs) {
        let mut d = self.vm.data(&Id::Apa.key()).to_vec();
        let n = ApaWardenNetworkAccount::new(&mut d).expect("apa network account");
        let quotes: Vec<Vec<u8>> = n.get_all_quotes().iter().map(|q| q.0.to_vec()).collect();
        let want: Vec<Vec<u8>> = self.m.applicants.iter().filter(|a| a.end.is_some())
            .map(|a| [a.start.clone(), a.end.clone().unwrap()].concat()).collect();
        let view = (n.is_application_phase(), n.is_confirmation_phase(), n.is_confirmed(), n.confirmation_message(), quotes == want);
        let m = &self.m;
        let exp = (m.application_phase(), !m.application_phase() && !m.network_confirmed(), m.network_confirmed(), m.message(), true);
        obs.inc("genesis views");
        if m.network_confirmed() {
            obs.inc("genesis views of a confirmed network");
        }
        if view != exp {
            self.report(obs, &["W03"], "genesis phase or message read wrongly".into(), format!("read {:?}, expected {:?}", view, exp));
        }
    }

    fn shape(&self, m: &Model) -> (usize, usize, usize, usize, usize, usize, usize) {
        (m.wardens.len().min(16), m.applicants.len(), m.applicants.iter().filter(|a| a.end.is_some()).count(),
         m.applicants.iter().filter(|a| a.confirmed).count(), m.attesters.len(), m.proposals.len().min(16), m.stats.len().min(16))
    }
}

pub fn brief(op: &Op) -> String {
    match op {
        Op::Register { id, config } => format!("Register id={} key={} att={} op={:?}", id, config.key, config.attestation, config.operator),
        Op::Start { id, .. } => format!("Start id={}", id),
        Op::Complete { id, .. } => format!("Complete id={}", id),
        Op::Operator { .. } => "Operator".into(),
        Op::Propose { id, proposal } => format!("Propose id={} role={} token={:?} target={}", id, proposal.role, proposal.token, proposal.target),
        Op::Raw(d) => format!("Raw {} bytes", d.len()),
        o => format!("{:?}", o),
    }
}
