//! What the warden network is supposed to do
use crate::layout::*;
use solana_program::{pubkey::Pubkey, system_program, sysvar};
use std::collections::{BTreeMap, HashMap, HashSet};

#[derive(Clone, Debug)]
pub struct Warden {
    pub config: Config,
    pub lut: Pubkey,
    pub asn: Option<u32>,
    pub confirmed: bool,
    pub valid: Option<bool>,
    pub active: bool,
    pub join: u64,
    pub activation: u64,
}

#[derive(Clone, Debug)]
pub struct Member {
    pub id: u32,
    pub features: [bool; 3],
    pub tokens: [bool; TOKENS],
    pub region: u8,
}

#[derive(Clone, Debug)]
pub struct Applicant {
    pub id: u32,
    pub start: Vec<u8>,
    pub end: Option<Vec<u8>>,
    pub confirmed: bool,
}
impl Applicant {
    pub fn exchange(&self) -> Pubkey {
        Pubkey::new_from_array(self.start[400..432].try_into().unwrap())
    }
}

#[derive(Clone, Debug, Default)]
pub struct Stat {
    pub last: u64,
    /// per category (store, send, migrate): day -> count
    pub cat: [BTreeMap<u32, u32>; 3],
}

#[derive(Clone, Debug)]
pub struct Operator {
    pub ident: Vec<u8>,
    pub url: Vec<u8>,
    pub jurisdiction: Option<u16>,
}

#[derive(Clone, Default)]
pub struct Model {
    pub ready: bool,
    pub wardens: Vec<Warden>,
    pub members: Vec<Member>,
    pub map: HashMap<Pubkey, u32>,
    pub attesters: BTreeMap<Pubkey, u32>,
    pub operators: BTreeMap<Pubkey, Operator>,
    pub applicants: Vec<Applicant>,
    pub proposals: Vec<Prop>,
    /// the number of the first of them (earlier ones are not looked at)
    pub first_proposal: usize,
    pub targets: HashSet<Pubkey>,
    pub stats: BTreeMap<(Pubkey, u16), Stat>,
    /// which of the three statistics a tracked instruction counts towards, learned from the first observation
    pub category: HashMap<u8, usize>,
}

pub struct Env<'a> {
    pub now: i64,
    pub signers: &'a HashSet<Pubkey>,
    pub previous: Option<&'a Call>,
    pub authority: Pubkey,
    pub mints: &'a [Pubkey],
    pub freeze: &'a HashMap<Pubkey, Option<Pubkey>>,
}

/// A refusal, or Free where both outcomes are acceptable (an accepted one must still have the effect)
pub enum No {
    Refuse(&'static str),
}
use No::Refuse;

macro_rules! req {
    ($c:expr, $r:expr) => {
        if !$c {
            return Err(Refuse($r));
        }
    };
}

/// day of the year (first day 1) and year, by counting through the calendar
pub fn calendar(ts: i64) -> Option<(u32, u16)> {
    let mut t: i64 = 946_684_800;
    if ts < t {
        return None;
    }
    for year in 2000..2100u16 {
        let days = if year % 4 == 0 && (year % 100 != 0 || year % 400 == 0) { 366 } else { 365 };
        if ts < t + days * 86_400 {
            return Some(((ts - t) as u32 / 86_400 + 1, year));
        }
        t += days * 86_400;
    }
    None
}

/// instruction ids of the main program that pay a warden for relaying; that warden is their first account
pub const TRACKED: [u8; 3] = [2, 13, 14];

impl Model {
    pub fn application_phase(&self) -> bool {
        self.applicants.len() < MEMBERS || self.applicants.iter().any(|a| a.end.is_none())
    }
    pub fn network_confirmed(&self) -> bool {
        !self.application_phase() && self.applicants.iter().all(|a| a.confirmed)
    }
    pub fn message(&self) -> [u8; 32] {
        let parts: Vec<&[u8]> = self.applicants.iter().filter(|a| a.end.is_some())
            .flat_map(|a| [&a.start[..], &a.end.as_ref().unwrap()[..]]).collect();
        solana_program::hash::hashv(&parts).to_bytes()
    }
    pub fn ids(&self) -> Vec<Id> {
        let mut v = vec![];
        if self.ready {
            v.extend([Id::Wardens, Id::Basic, Id::Apa, Id::Proposals]);
        }
        v.extend((0..self.wardens.len() as u32).map(Id::Warden));
        v.extend(self.map.keys().map(|k| Id::Map(*k)));
        v.extend(self.attesters.keys().map(|k| Id::Attester(*k)));
        v.extend(self.stats.keys().map(|k| Id::Stats(k.0, k.1)));
        v.extend(self.applicants.iter().map(|a| Id::ApaWarden(a.id)));
        v.extend(self.operators.keys().map(|k| Id::Operator(*k)));
        v.extend((0..self.proposals.len()).map(|i| Id::Proposal((self.first_proposal + i) as u32)));
        v.extend(self.targets.iter().map(|k| Id::Target(*k)));
        v.sort();
        v
    }

    pub fn next_proposal(&self) -> usize {
        self.first_proposal + self.proposals.len()
    }
    /// The whole content an account has to have
    pub fn fields(&self, id: &Id) -> Fields {
        let mut f: Fields = vec![("pda_data", vec![id.bump(), 0])];
        let n = network_size();
        let u = |v: usize| (v as u32).to_le_bytes().to_vec();
        match id {
            Id::Wardens => f.push(("next_warden_id", u(self.wardens.len()))),
            Id::Basic => {
                let m = &self.members;
                let pad = |mut v: Vec<u8>, s: usize| {
                    v.resize(n * s, 0);
                    v
                };
                f.push(("members_count", u(m.len())));
                f.push(("members", pad(m.iter().flat_map(|m| m.id.to_le_bytes()).collect(), 4)));
                f.push(("features", pad(m.iter().flat_map(|m| m.features.map(|b| b as u8)).collect(), 3)));
                f.push(("tokens", pad(m.iter().flat_map(|m| m.tokens.map(|b| b as u8)).collect(), TOKENS)));
                f.push(("region", pad(m.iter().map(|m| m.region).collect(), 1)));
            }
            Id::Apa => {
                let a = &self.applicants;
                let pad = |mut v: Vec<u8>, s: usize| {
                    v.resize(MEMBERS * s, 0);
                    v
                };
                f.push(("members_count", u(a.len())));
                f.push(("apa_key", vec![0; 33]));
                f.push(("members", pad(a.iter().flat_map(|m| m.id.to_le_bytes()).collect(), 4)));
                f.push(("quote_starts", pad(a.iter().flat_map(|m| m.start.clone()).collect(), HALF)));
                f.push(("quote_ends", pad(a.iter().flat_map(|m| match &m.end {
                    Some(e) => [vec![1], e.clone()].concat(),
                    None => vec![0; HALF + 1],
                }).collect(), HALF + 1)));
                f.push(("exchange_keys", pad(a.iter().flat_map(|m| m.exchange().to_bytes()).collect(), 32)));
                f.push(("confirmations", pad(a.iter().map(|m| m.confirmed as u8).collect(), 1)));
            }
            Id::Proposals => f.push(("number_of_proposals", u(self.next_proposal()))),
            Id::Warden(i) => {
                let w = &self.wardens[*i as usize];
                f.extend(w.config.fields());
                f.push(("lut", w.lut.to_bytes().to_vec()));
                f.push(("asn", opt(w.asn.map(|a| a.to_le_bytes()))));
                f.push(("is_operator_confirmed", vec![w.confirmed as u8]));
                f.push(("is_metadata_valid", opt(w.valid.map(|a| [a as u8]))));
                f.push(("is_active", vec![w.active as u8]));
                f.push(("join_timestamp", w.join.to_le_bytes().to_vec()));
                f.push(("activation_timestamp", w.activation.to_le_bytes().to_vec()));
            }
            Id::Map(k) => f.push(("warden_id", self.map[k].to_le_bytes().to_vec())),
            Id::Attester(k) => f.push(("attester_warden_id", self.attesters[k].to_le_bytes().to_vec())),
            Id::Stats(k, y) => {
                let s = &self.stats[&(*k, *y)];
                f.push(("year", y.to_le_bytes().to_vec()));
                f.push(("last_activity_timestamp", s.last.to_le_bytes().to_vec()));
                for (c, name) in s.cat.iter().zip(["store", "send", "migrate"]) {
                    let mut b = vec![0u8; 367 * 4];
                    for (d, v) in c {
                        b[(*d as usize - 1) * 4..*d as usize * 4].copy_from_slice(&v.to_le_bytes());
                    }
                    let t: u32 = c.values().sum();
                    b[366 * 4..].copy_from_slice(&t.to_le_bytes());
                    f.push((name, b));
                }
            }
            Id::ApaWarden(i) => {
                let p = self.applicants.iter().position(|a| a.id == *i).unwrap();
                f.push(("warden_id", i.to_le_bytes().to_vec()));
                f.push(("network_member_index", u(p)));
            }
            Id::Operator(k) => {
                let o = &self.operators[k];
                f.push(("key", k.to_bytes().to_vec()));
                f.push(("ident", o.ident.clone()));
                f.push(("url", o.url.clone()));
                f.push(("jurisdiction", opt(o.jurisdiction.map(|j| j.to_le_bytes()))));
            }
            Id::Proposal(i) => f.extend(self.proposals[*i as usize - self.first_proposal].fields()),
            Id::Target(_) => f.push(("proposal_id", vec![0; 5])),
        }
        f
    }

    /// Applies one instruction; Err = it has to be refused
    pub fn apply(&mut self, c: &Call, env: &Env) -> Result<(), No> {
        let a = |i: usize| c.accs.get(i).map(|x| x.0);
        let signed = |i: usize| a(i).map(|k| env.signers.contains(&k)).unwrap_or(false);
        let is = |i: usize, id: Id| a(i) == Some(id.key());
        let now = env.now as u64;
        match &c.op {
            Op::Foreign { .. } => {}
            Op::Raw(_) => return Err(Refuse("undecodable instruction")),
            Op::Close => return Err(Refuse("close without the program's key")),
            Op::Genesis => return Err(Refuse("unavailable")),
            Op::Init => {
                req!(signed(0), "unsigned");
                req!(is(1, Id::Wardens) && is(2, Id::Basic) && is(3, Id::Apa) && is(4, Id::Proposals), "wrong account");
                req!(a(5) == Some(system_program::ID), "wrong account");
                req!(!self.ready, "already initialised");
                self.ready = true;
            }
            Op::Register { id, config } => {
                req!(signed(0), "unsigned");
                req!(a(0) == Some(config.key), "configuration of another key");
                req!(is(1, Id::Warden(*id)) && is(2, Id::Map(config.key)) && is(3, Id::Wardens) && is(4, Id::Basic), "wrong account");
                req!(a(5) == Some(system_program::ID), "wrong account");
                req!(self.ready, "not initialised");
                req!(config.region < 7 && config.tls < 3, "undecodable instruction");
                req!(*id as usize == self.wardens.len(), "not the next identity");
                req!(!self.map.contains_key(&config.key), "key already registered");
                req!(self.members.len() < network_size(), "network full");
                req!(!config.attestation, "self-appointed attester");
                self.members.push(Member { id: *id, features: config.features, tokens: config.tokens, region: config.region });
                self.map.insert(config.key, *id);
                self.wardens.push(Warden {
                    config: config.clone(),
                    lut: Pubkey::new_from_array([0; 32]),
                    asn: None,
                    confirmed: false,
                    valid: None,
                    active: false,
                    join: now,
                    activation: now,
                });
            }
            Op::State { id, active } => {
                req!(signed(0), "unsigned");
                req!(is(1, Id::Warden(*id)), "wrong account");
                req!((*id as usize) < self.wardens.len(), "no such warden");
                let w = &mut self.wardens[*id as usize];
                req!(a(0) == Some(w.config.key), "not the warden");
                if w.active != *active {
                    w.activation = now;
                }
                w.active = *active;
            }
            Op::Lut { id } => {
                req!(signed(0), "unsigned");
                req!(is(1, Id::Warden(*id)), "wrong account");
                req!((*id as usize) < self.wardens.len(), "no such warden");
                let w = &mut self.wardens[*id as usize];
                req!(a(0) == Some(w.config.key), "not the warden");
                req!(a(2).is_some(), "wrong account");
                w.lut = a(2).unwrap();
            }
            Op::Start { quote, .. } => {
                req!(signed(0), "unsigned");
                req!(is(1, Id::Map(a(0).unwrap())), "wrong account");
                req!(self.map.contains_key(&a(0).unwrap()), "not a warden");
                // the identity is the one registered for the signer, whatever the instruction says
                let id = &self.map[&a(0).unwrap()];
                req!(is(2, Id::ApaWarden(*id)) && is(3, Id::Apa), "wrong account");
                req!(a(4) == Some(system_program::ID), "wrong account");
                req!(self.application_phase() && self.applicants.len() < MEMBERS, "application closed");
                req!(self.applicants.iter().all(|p| p.id != *id), "applied already");
                self.applicants.push(Applicant { id: *id, start: quote.clone(), end: None, confirmed: false });
            }
            Op::Complete { id, quote } => {
                req!(signed(0), "unsigned");
                req!(is(1, Id::Map(a(0).unwrap())), "wrong account");
                req!(self.map.contains_key(&a(0).unwrap()), "not a warden");
                req!(self.map[&a(0).unwrap()] == *id, "another warden's identity");
                req!(is(2, Id::Apa), "wrong account");
                req!(self.application_phase(), "application closed");
                let p = self.applicants.iter().position(|p| p.id == *id);
                req!(p.is_some(), "no application to complete");
                self.applicants[p.unwrap()].end = Some(quote.clone());
            }
            Op::Confirm { id, message } => {
                req!(signed(0), "unsigned");
                req!(is(1, Id::ApaWarden(*id)) && is(2, Id::Apa), "wrong account");
                let p = self.applicants.iter().position(|p| p.id == *id);
                req!(p.is_some(), "not a member");
                req!(!self.application_phase(), "confirmation before all quotes are complete");
                let p = p.unwrap();
                req!(!self.applicants[p].confirmed, "confirmed already");
                req!(a(0) == Some(self.applicants[p].exchange()), "not the quoted key");
                req!(*message == self.message(), "wrong message");
                self.applicants[p].confirmed = true;
            }
            Op::Operator { ident, url, jurisdiction } => {
                req!(signed(0), "unsigned");
                req!(is(1, Id::Operator(a(0).unwrap())), "wrong account");
                req!(a(2) == Some(system_program::ID), "wrong account");
                req!(!self.operators.contains_key(&a(0).unwrap()), "operator already registered");
                self.operators.insert(a(0).unwrap(), Operator { ident: ident.clone(), url: url.clone(), jurisdiction: *jurisdiction });
            }
            Op::ConfirmOp { id } => {
                req!(signed(0), "unsigned");
                req!(is(1, Id::Warden(*id)), "wrong account");
                req!((*id as usize) < self.wardens.len(), "no such warden");
                let w = &mut self.wardens[*id as usize];
                match w.config.operator {
                    Some(k) => req!(a(0) == Some(k), "not the operator"),
                    None => w.config.operator = a(0),
                }
                w.confirmed = true;
            }
            Op::OpenStats { year } => {
                req!(a(0).is_some() && signed(1), "unsigned");
                req!(is(2, Id::Stats(a(0).unwrap(), *year)), "wrong account");
                req!(a(3) == Some(system_program::ID), "wrong account");
                req!(!self.stats.contains_key(&(a(0).unwrap(), *year)), "statistics already open");
                self.stats.insert((a(0).unwrap(), *year), Stat::default());
            }
            Op::Track { year, can_fail } => {
                req!(a(0).is_some() && is(1, Id::Stats(a(0).unwrap(), *year)), "wrong account");
                req!(a(2) == Some(sysvar::instructions::ID), "wrong account");
                let k = a(0).unwrap();
                req!(self.stats.contains_key(&(k, *year)), "no such statistics");
                let counted = (|| {
                    let (day, y) = calendar(env.now).ok_or("outside of the calendar")?;
                    if y != *year {
                        return Err("another year");
                    }
                    let p = env.previous.ok_or("nothing before")?;
                    let ix = p.ix();
                    if ix.program_id != elusiv() {
                        return Err("another program");
                    }
                    let b = ix.data.first().copied().filter(|b| TRACKED.contains(b)).ok_or("not a tracked instruction")?;
                    if ix.accounts.first().map(|m| m.pubkey) != Some(k) {
                        return Err("not relayed by the warden");
                    }
                    Ok((day, b))
                })();
                match counted {
                    Ok((day, b)) => {
                        let cat = self.category.get(&b).copied().unwrap_or(0);
                        let s = self.stats.get_mut(&(k, *year)).unwrap();
                        *s.cat[cat].entry(day).or_default() += 1;
                        s.last = now;
                    }
                    Err(e) => req!(!*can_fail, e),
                }
            }
            Op::Propose { id, proposal } => {
                req!(signed(0), "unsigned");
                req!(is(1, Id::Proposal(*id)) && is(2, Id::Proposals) && is(3, Id::Target(proposal.target)), "wrong account");
                req!(a(4).is_some() && a(5) == Some(system_program::ID), "wrong account");
                req!(proposal.role < 2 && proposal.level < 3, "undecodable instruction");
                req!(self.ready, "not initialised");
                req!(*id as usize == self.next_proposal(), "not the next proposal");
                if let Some(t) = proposal.token {
                    req!((t as usize) < TOKENS, "no such token");
                    if proposal.role == 1 {
                        req!(t > 0, "lamports cannot be frozen");
                        req!(a(4) == Some(env.mints[t as usize]), "another mint");
                        req!(env.freeze[&env.mints[t as usize]] == a(0), "not the freeze authority");
                    }
                }
                let mut p = proposal.clone();
                p.proponent = a(0).unwrap();
                p.timestamp = now;
                self.targets.insert(p.target);
                self.proposals.push(p);
            }
            Op::AddAttester { id, attester } => {
                req!(signed(0), "unsigned");
                req!(a(0) == Some(env.authority), "not the attestation authority");
                req!(is(1, Id::Attester(*attester)) && is(2, Id::Warden(*id)), "wrong account");
                req!(a(3) == Some(system_program::ID), "wrong account");
                req!((*id as usize) < self.wardens.len(), "no such warden");
                req!(!self.attesters.contains_key(attester), "attester already appointed");
                self.attesters.insert(*attester, *id);
                self.wardens[*id as usize].config.attestation = true;
            }
            Op::Revoke { id } => {
                req!(signed(0), "unsigned");
                req!(a(0) == Some(env.authority), "not the attestation authority");
                req!(a(1).is_some() && is(2, Id::Attester(a(1).unwrap())) && is(3, Id::Warden(*id)), "wrong account");
                req!(a(4) == Some(system_program::ID), "wrong account");
                req!((*id as usize) < self.wardens.len(), "no such warden");
                req!(self.attesters.contains_key(&a(1).unwrap()), "not an attester");
                self.attesters.remove(&a(1).unwrap());
                self.wardens[*id as usize].config.attestation = false;
            }
            Op::Attest { by, id, member, asn, tz, region, proxy } => {
                req!(signed(0), "unsigned");
                req!(is(1, Id::Warden(*by)) && is(2, Id::Warden(*id)) && is(3, Id::Basic), "wrong account");
                req!((*id as usize) < self.wardens.len() && (*by as usize) < self.wardens.len(), "no such warden");
                req!(*region < 7, "undecodable instruction");
                req!(a(0) == Some(self.wardens[*by as usize].config.key), "not the attesting warden");
                req!(self.wardens[*by as usize].config.attestation, "not an attester");
                req!(self.members.get(*member as usize).map(|m| m.id) == Some(*id), "wrong member position");
                self.members[*member as usize].region = *region;
                let w = &mut self.wardens[*id as usize];
                w.valid = Some(w.config.tz == *tz && w.config.proxy == *proxy && w.config.region == *region);
                w.asn = *asn;
                w.config.tz = tz.clone();
                w.config.proxy = *proxy;
                w.config.region = *region;
            }
        }
        Ok(())
    }
}

/// The property a field of an account belongs to
pub fn owner_of(kind: &str, field: &str) -> &'static str {
    match (kind, field) {
        ("BasicWarden", "attestation" | "asn" | "timezone" | "region" | "uses_proxy" | "is_metadata_valid") => "W02",
        ("BasicWardenNetwork", "region") => "W02",
        ("BasicWardenAttesterMap", _) => "W02",
        ("ApaWardenNetwork" | "ApaWarden", _) => "W03",
        ("BasicWardenStats", _) => "W04",
        ("ApaProposals" | "ApaProposal" | "ApaTargetMap", _) => "W05",
        _ => "W01",
    }
}
