//! Histories of honest and hostile participants
use crate::layout::*;
use crate::spec::*;
use crate::world::*;
use minivm::report::Obs;
use rand::{rngs::StdRng, seq::SliceRandom, Rng};
use solana_program::{pubkey::Pubkey, system_program, sysvar};

pub fn wk(i: usize) -> Pubkey {
    key("warden", i)
}
pub fn ok(i: usize) -> Pubkey {
    key("operator", i)
}
const POOL: usize = 14;

fn text(r: &mut StdRng) -> Vec<u8> {
    let mut d = vec![0u8; IDENT];
    let n = *[0u64, 1, 7, 255, 256, 257, u64::MAX].choose(r).unwrap();
    d[..8].copy_from_slice(&n.to_le_bytes());
    for b in d[8..].iter_mut().take(n.min(256) as usize) {
        *b = r.gen();
    }
    d
}
fn tz(r: &mut StdRng) -> Tz {
    let mut data = [0u8; 14];
    let v = r.gen_range(0..4u8);
    data.iter_mut().for_each(|b| *b = v);
    Tz { area: r.gen_range(0..3), len: r.gen_range(0..3), data }
}
pub fn config(r: &mut StdRng, k: Pubkey) -> Config {
    Config {
        ident: text(r),
        key: k,
        operator: if r.gen() { Some(ok(r.gen_range(0..4))) } else { None },
        addr: r.gen(),
        port: r.gen(),
        tls: r.gen_range(0..3),
        proxy: r.gen(),
        jurisdiction: r.gen(),
        tz: tz(r),
        region: r.gen_range(0..7),
        version: r.gen(),
        platform: text(r),
        apa: r.gen(),
        attestation: false,
        features: r.gen(),
        tokens: r.gen(),
    }
}

pub fn register(id: u32, c: Config) -> Call {
    Call {
        accs: vec![(c.key, true, true), (Id::Warden(id).key(), false, true), (Id::Map(c.key).key(), false, true),
                   (Id::Wardens.key(), false, true), (Id::Basic.key(), false, true), (system_program::ID, false, false)],
        op: Op::Register { id, config: c },
    }
}
pub fn init(payer: Pubkey) -> Call {
    Call {
        op: Op::Init,
        accs: vec![(payer, true, true), (Id::Wardens.key(), false, true), (Id::Basic.key(), false, true), (Id::Apa.key(), false, true),
                   (Id::Proposals.key(), false, true), (system_program::ID, false, false)],
    }
}
pub fn state(k: Pubkey, id: u32, active: bool) -> Call {
    Call { op: Op::State { id, active }, accs: vec![(k, true, false), (Id::Warden(id).key(), false, true)] }
}
pub fn lut(k: Pubkey, id: u32, l: Pubkey) -> Call {
    Call { op: Op::Lut { id }, accs: vec![(k, true, false), (Id::Warden(id).key(), false, true), (l, false, false)] }
}
pub fn start(k: Pubkey, id: u32, quote: Vec<u8>) -> Call {
    Call {
        op: Op::Start { id, quote },
        accs: vec![(k, true, true), (Id::Map(k).key(), false, false), (Id::ApaWarden(id).key(), false, true), (Id::Apa.key(), false, true), (system_program::ID, false, false)],
    }
}
pub fn complete(k: Pubkey, id: u32, quote: Vec<u8>) -> Call {
    Call { op: Op::Complete { id, quote }, accs: vec![(k, true, false), (Id::Map(k).key(), false, false), (Id::Apa.key(), false, true)] }
}
pub fn confirm(x: Pubkey, id: u32, message: [u8; 32]) -> Call {
    Call { op: Op::Confirm { id, message }, accs: vec![(x, true, false), (Id::ApaWarden(id).key(), false, false), (Id::Apa.key(), false, true)] }
}
pub fn open_stats(k: Pubkey, payer: Pubkey, year: u16) -> Call {
    Call { op: Op::OpenStats { year }, accs: vec![(k, false, false), (payer, true, true), (Id::Stats(k, year).key(), false, true), (system_program::ID, false, false)] }
}
pub fn track(k: Pubkey, year: u16, can_fail: bool) -> Call {
    Call { op: Op::Track { year, can_fail }, accs: vec![(k, false, false), (Id::Stats(k, year).key(), false, true), (sysvar::instructions::ID, false, false)] }
}
pub fn propose(k: Pubkey, id: u32, p: Prop, mint: Pubkey) -> Call {
    Call {
        accs: vec![(k, true, true), (Id::Proposal(id).key(), false, true), (Id::Proposals.key(), false, true), (Id::Target(p.target).key(), false, true),
                   (mint, false, false), (system_program::ID, false, false)],
        op: Op::Propose { id, proposal: p },
    }
}
pub fn add_attester(s: Pubkey, id: u32, attester: Pubkey) -> Call {
    Call {
        op: Op::AddAttester { id, attester },
        accs: vec![(s, true, true), (Id::Attester(attester).key(), false, true), (Id::Warden(id).key(), false, true), (system_program::ID, false, false)],
    }
}
pub fn revoke(s: Pubkey, id: u32, attester: Pubkey) -> Call {
    Call {
        op: Op::Revoke { id },
        accs: vec![(s, true, true), (attester, false, false), (Id::Attester(attester).key(), false, true), (Id::Warden(id).key(), false, true), (system_program::ID, false, false)],
    }
}
pub fn attest(k: Pubkey, by: u32, id: u32, member: u32, asn: Option<u32>, t: Tz, region: u8, proxy: bool) -> Call {
    Call {
        op: Op::Attest { by, id, member, asn, tz: t, region, proxy },
        accs: vec![(k, true, false), (Id::Warden(by).key(), false, false), (Id::Warden(id).key(), false, true), (Id::Basic.key(), false, true)],
    }
}
pub fn relay(b: u8, k: Pubkey, r: &mut StdRng) -> Call {
    let mut accs = vec![(k, b != 2, true)];
    for i in 0..r.gen_range(6..9) {
        accs.push((key("any", i), false, r.gen()));
    }
    let mut data = vec![b];
    data.extend((0..r.gen_range(0..9)).map(|_| r.gen::<u8>()));
    Call { op: Op::Foreign { program: elusiv(), data }, accs }
}
pub fn foreign(program: Pubkey, data: Vec<u8>, accs: Vec<(Pubkey, bool, bool)>) -> Call {
    Call { op: Op::Foreign { program, data }, accs }
}
pub fn quote(r: &mut StdRng, x: Pubkey) -> Vec<u8> {
    let mut q: Vec<u8> = (0..HALF).map(|_| r.gen()).collect();
    q[400..432].copy_from_slice(x.as_ref());
    q
}

pub const KINDS: [&str; 16] = ["register", "state", "lut", "start", "complete", "confirm", "genesis", "operator", "confirmop", "open", "track",
    "propose", "add", "revoke", "attest", "close"];

pub fn weights(prop: &str) -> [u32; 16] {
    match prop {
        "W01" => [40, 22, 14, 1, 1, 1, 0, 12, 18, 1, 1, 1, 3, 2, 4, 1],
        "W02" => [14, 2, 1, 1, 1, 1, 0, 1, 4, 1, 1, 1, 20, 10, 60, 1],
        "W03" => [18, 1, 1, 20, 26, 26, 1, 1, 1, 1, 1, 1, 1, 1, 2, 1],
        "W04" => [6, 2, 1, 1, 1, 1, 0, 1, 1, 14, 70, 1, 1, 1, 1, 1],
        _ => [6, 1, 1, 1, 1, 1, 0, 1, 1, 1, 1, 80, 1, 1, 1, 1],
    }
}

pub struct Play<'a> {
    pub w: World,
    pub r: StdRng,
    pub obs: &'a mut Obs,
    pub weights: [u32; 16],
    pub hostile: f64,
}

/// timestamps around everything that matters to the calendar
pub fn some_time(r: &mut StdRng) -> i64 {
    const Y: i64 = 946_684_800;
    match r.gen_range(0..10) {
        0 => *[0, 1, Y - 1, Y, 4_102_444_799, 4_102_444_800, 4_102_444_801, i64::MAX, u32::MAX as i64, 253_402_300_800].choose(r).unwrap(),
        1..=4 => {
            // the first and the last seconds of a year, the days around a leap day
            let year = r.gen_range(2000..2100i64);
            let mut t = Y;
            for y in 2000..year {
                t += if y % 4 == 0 { 366 } else { 365 } * 86_400;
            }
            let len = if year % 4 == 0 { 366 } else { 365 };
            let day = *[0, 1, 58, 59, 60, len - 2, len - 1].choose(r).unwrap();
            t + day * 86_400 + *[0, 1, 43_200, 86_398, 86_399].choose(r).unwrap()
        }
        _ => r.gen_range(Y..4_102_444_800),
    }
}

impl<'a> Play<'a> {
    pub fn step(&mut self, c: &[Call], free: bool) -> Out {
        self.w.step(self.obs, c, free)
    }
    fn warden(&mut self) -> Option<(Pubkey, u32)> {
        let n = self.w.m.wardens.len();
        if n == 0 {
            return None;
        }
        let i = self.r.gen_range(0..n);
        Some((self.w.m.wardens[i].config.key, i as u32))
    }
    fn anyone(&mut self) -> Pubkey {
        match self.r.gen_range(0..6) {
            0 => ok(self.r.gen_range(0..4)),
            1 => key("stranger", self.r.gen_range(0..3)),
            2 => authority(),
            _ => wk(self.r.gen_range(0..POOL)),
        }
    }
    fn some_account(&mut self) -> Pubkey {
        let ids = self.w.m.ids();
        match self.r.gen_range(0..8) {
            0 => key("own", self.r.gen_range(0..4)),
            1 => self.anyone(),
            2 => key("mint", self.r.gen_range(0..4)),
            3 => Id::Warden(self.r.gen_range(0..12)).key(),
            4 => system_program::ID,
            _ => ids.choose(&mut self.r).map(|i| i.key()).unwrap_or(system_program::ID),
        }
    }

    /// one well-formed transaction of the given kind (its parameters may already be refused by the rules)
    pub fn make(&mut self, kind: &str) -> Option<Vec<Call>> {
        let n = self.w.m.wardens.len() as u32;
        Some(vec![match kind {
            "register" => {
                let fresh = wk(self.w.m.map.len().min(POOL - 1));
                let k = if self.r.gen_bool(0.85) { fresh } else { wk(self.r.gen_range(0..POOL)) };
                let mut c = config(&mut self.r, k);
                if self.r.gen_bool(0.05) {
                    c.attestation = true;
                }
                let id = if self.r.gen_bool(0.93) { n } else { *[n + 1, n.wrapping_sub(1), 0, u32::MAX].choose(&mut self.r).unwrap() };
                register(id, c)
            }
            "state" => {
                let (k, id) = self.warden()?;
                state(k, id, self.r.gen())
            }
            "lut" => {
                let (k, id) = self.warden()?;
                let l = self.anyone();
                lut(k, id, l)
            }
            "start" => {
                let (k, id) = self.warden()?;
                let x = if self.r.gen_bool(0.9) { key("exchange", id as usize) } else { key("exchange", self.r.gen_range(0..3)) };
                let q = quote(&mut self.r, x);
                start(k, id, q)
            }
            "complete" => {
                let started: Vec<u32> = self.w.m.applicants.iter().filter(|a| a.end.is_none()).map(|a| a.id).collect();
                let (k, id) = match started.choose(&mut self.r) {
                    Some(i) if self.r.gen_bool(0.8) => (self.w.m.wardens[*i as usize].config.key, *i),
                    _ => self.warden()?,
                };
                let q: Vec<u8> = (0..HALF).map(|_| self.r.gen()).collect();
                complete(k, id, q)
            }
            "confirm" => {
                let open: Vec<u32> = self.w.m.applicants.iter().filter(|a| !a.confirmed).map(|a| a.id).collect();
                let id = match open.choose(&mut self.r) {
                    Some(i) if self.r.gen_bool(0.8) => *i,
                    _ => self.warden()?.1,
                };
                let x = self.w.m.applicants.iter().find(|a| a.id == id).map(|a| a.exchange()).unwrap_or(key("exchange", id as usize));
                confirm(x, id, self.w.m.message())
            }
            "genesis" => Call { op: Op::Genesis, accs: vec![] },
            "operator" => {
                let k = if self.r.gen_bool(0.8) { ok(self.r.gen_range(0..8)) } else { self.anyone() };
                let (ident, url) = (text(&mut self.r), text(&mut self.r));
                let j = if self.r.gen() { Some(self.r.gen()) } else { None };
                Call {
                    op: Op::Operator { ident, url, jurisdiction: j },
                    accs: vec![(k, true, true), (Id::Operator(k).key(), false, true), (system_program::ID, false, false)],
                }
            }
            "confirmop" => {
                let (_, id) = self.warden()?;
                let k = match self.w.m.wardens[id as usize].config.operator {
                    Some(k) if self.r.gen_bool(0.75) => k,
                    _ => self.anyone(),
                };
                Call { op: Op::ConfirmOp { id }, accs: vec![(k, true, false), (Id::Warden(id).key(), false, true)] }
            }
            "open" => {
                let k = wk(self.r.gen_range(0..4));
                let now = self.w.vm.clock.unix_timestamp;
                let y = calendar(now).map(|c| c.1).unwrap_or(2000);
                let year = if self.r.gen_bool(0.8) { y } else { *[y.wrapping_sub(1), y + 1, 0, u16::MAX, 1999, 2100].choose(&mut self.r).unwrap() };
                let p = self.anyone();
                open_stats(k, p, year)
            }
            "track" => return self.tracking(),
            "propose" => {
                let k = wk(self.r.gen_range(0..5));
                let c = self.w.m.next_proposal() as u32;
                let token = match self.r.gen_range(0..10) {
                    0..=2 => None,
                    3 => Some(*[TOKENS as u16, TOKENS as u16 + 1, u16::MAX, 255].choose(&mut self.r).unwrap()),
                    4 => Some(0),
                    _ => Some(self.r.gen_range(1..TOKENS as u16)),
                };
                let role = if token.is_some() { self.r.gen_range(0..2) } else { 0 };
                let mut reason = text(&mut self.r);
                reason.resize(8 + 512, 7);
                let p = Prop {
                    proponent: if self.r.gen() { k } else { self.anyone() },
                    role,
                    timestamp: self.r.gen(),
                    target: key("target", self.r.gen_range(0..6)),
                    level: self.r.gen_range(0..3),
                    token,
                    reason,
                };
                let mut k = k;
                let mint = match token {
                    Some(t) if (t as usize) < TOKENS && self.r.gen_bool(0.85) => {
                        if let (Some(f), true) = (self.w.freeze[&self.w.mints[t as usize]], self.r.gen_bool(0.7)) {
                            k = f;
                        }
                        self.w.mints[t as usize]
                    }
                    _ => if self.r.gen() { key("mint", self.r.gen_range(0..4)) } else { *self.w.mints.choose(&mut self.r).unwrap() },
                };
                let id = if self.r.gen_bool(0.93) { c } else { *[c + 1, c.wrapping_sub(1), 0, u32::MAX].choose(&mut self.r).unwrap() };
                propose(k, id, p, mint)
            }
            "add" => {
                let (k, id) = self.warden()?;
                let att = if self.r.gen_bool(0.9) { k } else { self.anyone() };
                let s = if self.r.gen_bool(0.85) { authority() } else { self.anyone() };
                add_attester(s, id, att)
            }
            "revoke" => {
                let list: Vec<(Pubkey, u32)> = self.w.m.attesters.iter().map(|(k, i)| (*k, *i)).collect();
                let (k, id) = match list.choose(&mut self.r) {
                    Some(x) if self.r.gen_bool(0.85) => *x,
                    _ => self.warden()?,
                };
                let s = if self.r.gen_bool(0.8) { authority() } else { self.anyone() };
                revoke(s, id, k)
            }
            "attest" => {
                let able: Vec<u32> = (0..n).filter(|i| self.w.m.wardens[*i as usize].config.attestation).collect();
                let by = match able.choose(&mut self.r) {
                    Some(i) if self.r.gen_bool(0.85) => *i,
                    _ => self.warden()?.1,
                };
                let (_, id) = self.warden()?;
                let k = if self.r.gen_bool(0.92) { self.w.m.wardens[by as usize].config.key } else { self.anyone() };
                let size = network_size() as u32;
                let member = if self.r.gen_bool(0.85) { id } else { *[id + 1, n, 0, size - 1, size, u32::MAX, 1].choose(&mut self.r).unwrap() };
                let c = self.w.m.wardens[id as usize].config.clone();
                let t = if self.r.gen_bool(0.7) { c.tz.clone() } else { tz(&mut self.r) };
                let region = if self.r.gen_bool(0.7) { c.region } else { self.r.gen_range(0..7) };
                let proxy = if self.r.gen_bool(0.7) { c.proxy } else { !c.proxy };
                let asn = if self.r.gen() { Some(self.r.gen()) } else { None };
                attest(k, by, id, member, asn, t, region, proxy)
            }
            _ => {
                let k = self.anyone();
                let (p, q) = (self.some_account(), self.anyone());
                Call { op: Op::Close, accs: vec![(k, true, false), (q, false, true), (p, false, true), (system_program::ID, false, false)] }
            }
        }])
    }

    fn tracking(&mut self) -> Option<Vec<Call>> {
        let open: Vec<(Pubkey, u16)> = self.w.m.stats.keys().copied().collect();
        let now = self.w.vm.clock.unix_timestamp;
        let y = calendar(now).map(|c| c.1);
        let right: Vec<(Pubkey, u16)> = open.iter().filter(|o| Some(o.1) == y).copied().collect();
        let (k, year) = match right.choose(&mut self.r) {
            Some(x) if self.r.gen_bool(0.9) => *x,
            _ => *open.choose(&mut self.r)?,
        };
        let can_fail = self.r.gen_bool(0.6);
        let b = *TRACKED.choose(&mut self.r).unwrap();
        let mut v = vec![];
        match self.r.gen_range(0..20) {
            0 => {}
            1 => v.push(relay(b.wrapping_add(*[1u8, 255, 16, 128].choose(&mut self.r).unwrap()), k, &mut self.r)),
            2 => {
                // another program's lookalike
                let mut c = relay(b, k, &mut self.r);
                let p = if self.r.gen() { other_program() } else { minivm::MEMO_ID.parse().unwrap() };
                if let Op::Foreign { program, .. } = &mut c.op {
                    *program = p;
                }
                v.push(c);
            }
            3 => {
                let other = self.anyone();
                v.push(relay(b, other, &mut self.r));
            }
            4 => {
                // the warden appears, but is not the relayer
                let mut c = relay(b, key("stranger", 0), &mut self.r);
                let i = self.r.gen_range(1..c.accs.len());
                c.accs[i].0 = k;
                v.push(c);
            }
            5 => {
                // relayed, but something came between
                v.push(relay(b, k, &mut self.r));
                v.push(foreign(other_program(), vec![b], vec![(k, false, false)]));
            }
            6 => v.push(foreign(minivm::COMPUTE_BUDGET_ID.parse().unwrap(), vec![], vec![])),
            7 => v.push(foreign(elusiv(), vec![], vec![(k, false, false)])),
            8 => v.push(foreign(elusiv(), vec![b], vec![])),
            9 => {
                // relayed afterwards
                let c = relay(b, k, &mut self.r);
                return Some(vec![track(k, year, can_fail), c]);
            }
            10 => {
                // counted once per relay
                let c = relay(b, k, &mut self.r);
                return Some(vec![c, track(k, year, can_fail), track(k, year, self.r.gen())]);
            }
            11 => {
                let (c, d) = (relay(b, k, &mut self.r), relay(b, k, &mut self.r));
                return Some(vec![c, track(k, year, can_fail), d, track(k, year, can_fail)]);
            }
            12 => {
                // relayed earlier in the transaction
                let c = relay(b, k, &mut self.r);
                v.push(c);
                v.push(relay(0, k, &mut self.r));
            }
            _ => {
                if self.r.gen_bool(0.3) {
                    v.push(relay(1, k, &mut self.r));
                }
                v.push(relay(b, k, &mut self.r));
            }
        }
        v.push(track(k, year, can_fail));
        Some(v)
    }

    /// Turns one call of the transaction into something else; true: refusing is acceptable
    fn spoil(&mut self, calls: &mut [Call]) -> bool {
        let i = self.r.gen_range(0..calls.len());
        if matches!(calls[i].op, Op::Foreign { .. }) {
            return false;
        }
        let n = calls[i].accs.len();
        match self.r.gen_range(0..9) {
            0 if n > 0 => {
                let j = self.r.gen_range(0..n);
                calls[i].accs[j].1 = false;
                false
            }
            1 if n > 0 => {
                let j = self.r.gen_range(0..n);
                calls[i].accs[j].2 = false;
                true
            }
            2 | 3 if n > 0 => {
                let j = self.r.gen_range(0..n);
                calls[i].accs[j].0 = self.some_account();
                // aliased accounts may be refused by the runtime
                true
            }
            4 if n > 0 => {
                calls[i].accs[0].0 = self.anyone();
                true
            }
            5 if n > 1 => {
                let (j, k) = (self.r.gen_range(0..n), self.r.gen_range(0..n));
                calls[i].accs.swap(j, k);
                true
            }
            6 if n > 0 => {
                calls[i].accs.truncate(n - 1);
                true
            }
            7 => {
                let d = calls[i].op.data();
                let l = self.r.gen_range(0..d.len());
                calls[i].op = Op::Raw(match self.r.gen_range(0..3) {
                    0 => d[..l].to_vec(),
                    1 => vec![self.r.gen_range(17..=255)],
                    _ => vec![],
                });
                false
            }
            _ => {
                let other = self.r.gen_range(0..12);
                match &mut calls[i].op {
                    Op::Register { config, .. } => match self.r.gen_range(0..5) {
                        4 => {
                            // an operator who would register somebody else
                            config.operator = Some(calls[i].accs[0].0);
                            config.key = wk(other as usize);
                        }
                        0 => config.key = wk(other as usize),
                        1 => config.region = 7,
                        2 => config.tls = 3,
                        _ => config.attestation = true,
                    },
                    Op::State { id, .. } | Op::Lut { id } | Op::ConfirmOp { id } | Op::Start { id, .. } | Op::Complete { id, .. } | Op::Confirm { id, .. }
                    | Op::AddAttester { id, .. } | Op::Revoke { id } => {
                        let old = *id;
                        *id = other;
                        // another warden's account supplied consistently
                        if self.r.gen() {
                            let (a, b) = (Id::Warden(old).key(), Id::ApaWarden(old).key());
                            for acc in calls[i].accs.iter_mut() {
                                if acc.0 == a {
                                    acc.0 = Id::Warden(other).key();
                                }
                                if acc.0 == b {
                                    acc.0 = Id::ApaWarden(other).key();
                                }
                            }
                        }
                    }
                    Op::Attest { by, id, region, member, .. } => match self.r.gen_range(0..4) {
                        0 => *by = other,
                        1 => *id = other,
                        2 => *region = 7,
                        _ => *member = other,
                    },
                    Op::OpenStats { year } | Op::Track { year, .. } => *year = year.wrapping_add(1),
                    Op::Propose { proposal, .. } => match self.r.gen_range(0..4) {
                        0 => proposal.role = 1 - proposal.role.min(1),
                        1 => proposal.level = 3,
                        2 => proposal.target = key("target", 9),
                        _ => proposal.role = 2,
                    },
                    _ => {}
                }
                if let Op::Confirm { message, .. } = &mut calls[i].op {
                    if self.r.gen() {
                        message[self.r.gen_range(0..32)] ^= 1 << self.r.gen_range(0..8);
                    }
                }
                // an unrestricted proposal claiming a role is nobody's business here; revoking an attester of another warden is the authority's
                true
            }
        }
    }

    pub fn turn(&mut self) {
        let total: u32 = self.weights.iter().sum();
        let mut x = self.r.gen_range(0..total);
        let mut kind = KINDS[0];
        for (k, v) in KINDS.iter().zip(self.weights) {
            if x < v {
                kind = k;
                break;
            }
            x -= v;
        }
        if self.r.gen_bool(0.25) {
            let t = match self.r.gen_range(0..3) {
                0 => some_time(&mut self.r),
                _ => self.w.vm.clock.unix_timestamp.saturating_add(self.r.gen_range(0..200_000)),
            };
            self.w.vm.clock.unix_timestamp = t.max(0);
        }
        let mut calls = match self.make(kind) {
            Some(c) => c,
            None => return,
        };
        let mut free = self_aliased(&calls) || unclaimed(&calls, &self.w.m);
        if self.r.gen_bool(self.hostile) {
            free |= self.spoil(&mut calls);
            free |= self_aliased(&calls) || unclaimed(&calls, &self.w.m);
        } else if self.r.gen_bool(0.1) && kind != "track" && kind != "revoke" && kind != "add" {
            // a second instruction in the same transaction: all or nothing
            let k2 = *["state", "lut", "confirmop", "register"].choose(&mut self.r).unwrap();
            if let Some(c) = self.make(k2) {
                calls.extend(c);
            }
        }
        self.step(&calls, free);
    }
}

/// the same account in two roles
fn self_aliased(calls: &[Call]) -> bool {
    calls.iter().any(|c| {
        let k: Vec<Pubkey> = c.accs.iter().map(|a| a.0).collect();
        !matches!(c.op, Op::Foreign { .. }) && (0..k.len()).any(|i| k[..i].contains(&k[i]) && k[i] != system_program::ID)
    })
}

/// inputs about which the property says nothing
fn unclaimed(calls: &[Call], m: &Model) -> bool {
    calls.iter().any(|c| match &c.op {
        // an unrestricted proposal that claims a role
        Op::Propose { proposal, .. } => proposal.role == 1 && proposal.token.is_none(),
        // the authority revokes an attester naming another warden
        Op::Revoke { id } => c.accs.get(1).map(|a| m.attesters.get(&a.0) != Some(id)).unwrap_or(true),
        _ => false,
    })
}
