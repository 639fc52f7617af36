//! Management of verifying keys against a small state machine
use crate::env::*;
use crate::flow::Flow;
use crate::groth;
use elusiv::state::vkey::VKeyAccount;
use elusiv_types::{ElusivOption, ParentAccount, ProgramAccount};
use minivm::report::*;
use minivm::*;
use rand::{rngs::StdRng, seq::SliceRandom, Rng, SeedableRng};
use solana_program::{instruction::Instruction, pubkey::Pubkey};
use std::collections::BTreeMap;

const PACKET: usize = 964;
/// bytes of a key for n public inputs
fn key_size(n: usize) -> usize {
    384 + 65 + n * 32 * 255 * 65 + 2 * 91 * 3 * 64 + 65 + 3 * 129
}
#[derive(Clone, Default)]
struct Key {
    exists: bool,
    authority: Option<Pubkey>,
    frozen: bool,
    version: u32,
    inputs: u32,
    used: Option<Pubkey>,
    pending: Option<Pubkey>,
}
struct World {
    vm: Vm,
    m: Key,
    /// what the program should have written to the data accounts
    data: BTreeMap<Pubkey, Vec<u8>>,
    n: u64,
}
fn auth(m: &Key, signer: Pubkey, signed: bool) -> bool {
    m.exists && !m.frozen && signed && m.authority.map_or(true, |a| a == signer)
}
impl World {
    fn account(&mut self, size: usize, fill: u8, first: u8, owner: Pubkey, lamports: u64) -> Pubkey {
        self.n += 1;
        let k = key_n("vkey data", self.n);
        let mut d = vec![fill; size];
        if let Some(x) = d.first_mut() {
            *x = first;
        }
        if owner == pid() {
            self.data.insert(k, d.clone());
        }
        self.vm.set(k, Acc { lamports, data: std::sync::Arc::new(d), owner, executable: false });
        k
    }
    /// one instruction; what should happen is (accepted, new model, changed data accounts)
    fn step(&mut self, obs: &mut Obs, what: &str, ix: Instruction, want: Option<Key>, effect: impl FnOnce(&mut BTreeMap<Pubkey, Vec<u8>>)) {
        let before = self.vm.clone();
        let r = catch(|| self.vm.one(&ix));
        let ok = matches!(r, Ok(Ok(())));
        obs.inc("vkey_instructions");
        obs.inc(&format!("{} {}", if ok { "ok" } else { "refused" }, what));
        obs.case(&(what, ok, self.m.exists, self.m.frozen, self.m.pending.is_some(), self.m.used.is_some(), self.m.authority.is_some(), self.m.version.min(4)));
        obs.eval();
        let why = format!("{} ({:?}; frozen {} version {} pending {} in use {})", what, r, self.m.frozen, self.m.version, self.m.pending.is_some(), self.m.used.is_some());
        match (&want, ok) {
            (Some(_), false) => return obs.violation("a permitted change is refused", &why),
            (None, true) => return obs.violation("a change that is not permitted is accepted", &why),
            (Some(m), true) => {
                self.m = m.clone();
                effect(&mut self.data);
            }
            (None, false) => {
                let same = before.accounts.iter().all(|(k, a)| *a == self.vm.get(k)) && before.accounts.len() == self.vm.accounts.len();
                obs.ensure(same, "a refused instruction has an effect", || why.clone());
                return;
            }
        }
        self.compare(obs, &before, &why);
    }
    fn compare(&mut self, obs: &mut Obs, before: &Vm, why: &str) {
        let m = &self.m;
        if m.exists {
            let mut d = (*self.vm.data(&vkey_key(0))).clone();
            let a = VKeyAccount::new(&mut d).unwrap();
            let got = (a.get_authority().option(), a.get_is_frozen(), a.get_version(), a.get_public_inputs_count(), a.get_child_pubkey(0), a.get_child_pubkey(1));
            let want = (m.authority, m.frozen, m.version, m.inputs, m.used, m.pending);
            obs.ensure(got == want, "the key's account differs", || format!("{}: {:?} instead of {:?}", why, got, want));
            obs.ensure(a.is_setup() == (m.version > 0), "a key is usable before its first version", || why.to_string());
        }
        for (k, d) in &self.data {
            obs.ensure(*self.vm.data(k) == *d, "key data differs from what was uploaded", || {
                let g = self.vm.data(k);
                let at = g.iter().zip(d).position(|(a, b)| a != b);
                format!("{}: account {} at {:?}, lengths {} and {}", why, k, at, g.len(), d.len())
            });
        }
        obs.count("data_accounts_compared", self.data.len() as u64);
        // nothing else is written but lamports of the signers and the accounts named above
        for (k, a) in &before.accounts {
            let b = self.vm.get(k);
            if *k != vkey_key(0) && !self.data.contains_key(k) && (a.data != b.data || a.owner != b.owner) && b.lamports > 0 {
                obs.violation("another account is changed", &format!("{}: {}", why, k));
            }
        }
    }
}
fn history(seed: u64, turns: usize, obs: &mut Obs) {
    let mut r = StdRng::seed_from_u64(seed);
    let mut w = World { vm: empty_vm(), m: Key::default(), data: BTreeMap::new(), n: seed * 1000 };
    let people: Vec<Pubkey> = (0..3).map(payer).chain((0..2).map(user)).collect();
    // who is in charge most of the time
    let mut retired: Vec<Pubkey> = vec![];
    // with the authority None everybody is
    for _ in 0..turns {
        if !obs.violations.is_empty() {
            return;
        }
        let m = w.m.clone();
        let mut who = *people.choose(&mut r).unwrap();
        if r.gen_bool(0.75) {
            who = m.authority.unwrap_or(who);
        }
        let id = if r.gen_bool(0.05) { r.gen_range(1..3) } else { 0 };
        let unsigned = r.gen_bool(0.06);
        let signed = !unsigned;
        let un = |mut ix: Instruction| {
            if unsigned {
                ix.accounts[0].is_signer = false;
            }
            ix
        };
        let size = key_size(m.inputs as usize) + 1;
        match r.gen_range(0..100) {
            0..=3 => {
                let inputs = *[0u32, 0, 0, 1].choose(&mut r).unwrap();
                let authority = if r.gen_bool(0.8) { Some(*people.choose(&mut r).unwrap()) } else { None };
                let want = (id == 0 && !m.exists && signed).then(|| Key { exists: true, authority, inputs, ..Key::default() });
                let ix = un(ix_create_vkey(who, id, inputs, authority));
                w.step(obs, "CreateVkeyAccount", ix, want, |_| {});
            }
            4..=15 => {
                // a data account: right, wrong size, used, foreign, poor
                let rent = minivm_rent(size);
                let (bin, good) = match r.gen_range(0..12) {
                    0 => (w.account(size + 1, 0, 0, pid(), minivm_rent(size + 1)), false),
                    1 => (w.account(size - 1, 0, 0, pid(), rent), false),
                    2 => (w.account(size, 0, 1, pid(), rent), false),
                    3 => (w.account(size, 0, 0, key_n("another program", 1), rent), false),
                    4 => (w.account(size, 0, 0, pid(), rent - 1), false),
                    5 if m.used.is_some() => (m.used.unwrap(), false),
                    6 if m.pending.is_some() => (m.pending.unwrap(), false),
                    7 if !retired.is_empty() => (*retired.choose(&mut r).unwrap(), false),
                    8 => (vkey_key(0), false),
                    // any previous content is allowed
                    _ => (w.account(size, r.gen(), 0, pid(), rent + r.gen_range(0..1000)), true),
                };
                let want = (id == 0 && auth(&m, who, signed) && m.pending.is_none() && good).then(|| Key { pending: Some(bin), ..m.clone() });
                let ix = un(ix_vkey_version(who, id, bin));
                w.step(obs, "CreateNewVkeyVersion", ix, want, |d| {
                    if let Some(x) = d.get_mut(&bin) {
                        x[0] = 1;
                    }
                });
            }
            16..=24 => {
                let old = match (m.used, r.gen_bool(0.85)) {
                    (Some(u), true) => u,
                    _ => *[m.pending.unwrap_or(who), vkey_key(0), user(3), who].choose(&mut r).unwrap(),
                };
                let fine = m.used.map_or(true, |u| u == old);
                let want = (id == 0 && auth(&m, who, signed) && m.pending.is_some() && fine).then(|| Key { used: m.pending, pending: None, version: m.version + 1, ..m.clone() });
                let lam = (w.vm.lamports(&who), w.vm.lamports(&old));
                let done = want.is_some();
                let ix = un(ix_vkey_update(who, id, old));
                w.step(obs, "UpdateVkeyVersion", ix, want, |d| {
                    if m.used.is_some() {
                        d.remove(&old);
                    }
                });
                if done && m.used.is_some() && old != who {
                    obs.inc("replaced_versions");
                    obs.ensure(w.vm.lamports(&old) == 0 && w.vm.lamports(&who) == lam.0 + lam.1, "the replaced data account is not closed", || format!("{} {}", w.vm.lamports(&old), w.vm.lamports(&who)));
                    // the address is free again
                    retired.push(old);
                }
                retired.retain(|k| w.vm.lamports(k) == 0);
            }
            25..=28 => {
                let want = (id == 0 && auth(&m, who, signed) && r.gen_bool(1.0)).then(|| Key { frozen: true, ..m.clone() });
                // rarely successful: it is the end of the history's changes
                if want.is_some() && r.gen_bool(0.9) {
                    continue;
                }
                let ix = un(ix_vkey_freeze(who, id));
                w.step(obs, "FreezeVkey", ix, want, |_| {});
            }
            29..=35 => {
                let to = *people.choose(&mut r).unwrap();
                let want = (id == 0 && auth(&m, who, signed)).then(|| Key { authority: Some(to), ..m.clone() });
                let ix = un(ix_vkey_authority(who, id, to));
                w.step(obs, "ChangeVkeyAuthority", ix, want, |_| {});
            }
            _ => {
                let len = size - 1;
                let last = (len - 1) / PACKET;
                let pos = match r.gen_range(0..10) {
                    0 => last + 1,
                    1 => u32::MAX as usize,
                    2 | 3 => last,
                    4 => 0,
                    5 => r.gen_range(last..last + 50),
                    _ => r.gen_range(0..=last),
                };
                let need = len.saturating_sub(pos * PACKET).min(PACKET);
                let short = r.gen_bool(0.08) && need > 0;
                let n = if short { r.gen_range(0..need) } else if r.gen() { PACKET } else { need };
                let p: Vec<u8> = (0..n).map(|_| r.gen()).collect();
                // the children in every arrangement
                let mut kids: Vec<Pubkey> = vec![];
                let variant = r.gen_range(0..10);
                if variant < 8 {
                    kids.extend(m.pending);
                }
                if variant == 8 || variant == 1 {
                    kids.extend(m.used);
                }
                if variant == 2 {
                    kids.reverse();
                    kids.extend(w.data.keys().last().copied());
                }
                if variant == 3 {
                    kids.insert(0, m.used.unwrap_or(who));
                }
                // the program has to find the pending account; which arrangements of accounts it takes is not judged
                let clear = variant < 8 && variant != 1 && variant != 2 && variant != 3 && n == PACKET;
                let allowed = id == 0 && auth(&m, who, signed) && m.pending.is_some() && pos * PACKET < len && !short;
                let start = 1 + pos * PACKET;
                let ix = un(ix_vkey_set(who, id, pos as u32, &p, &kids));
                let want = if allowed && !clear {
                    // accepted or refused
                    let mut c = w.vm.clone();
                    matches!(catch(|| c.one(&ix)), Ok(Ok(()))).then(|| m.clone())
                } else {
                    allowed.then(|| m.clone())
                };
                if want.is_some() && pos == last {
                    obs.inc("last_packets");
                }
                let target = m.pending;
                w.step(obs, "SetVkeyData", ix, want, |d| {
                    if let Some(x) = target.and_then(|t| d.get_mut(&t)) {
                        x[start..start + need].copy_from_slice(&p[..need]);
                    }
                });
            }
        }
    }
    obs.inc("vkey_histories");
}
/// a whole key is uploaded over the instructions, takes effect, and decides proofs
fn upload(seed: u64, obs: &mut Obs) {
    let mut r = StdRng::seed_from_u64(seed);
    let mut f = Flow::new(0, 0);
    let p = groth::vkey_authority();
    let other = groth::Trapdoor::new(seed ^ 0x5eed, groth::INPUTS);
    let bytes = groth::vkey_binary(&other.pvk);
    let len = bytes.len();
    obs.ensure(len == key_size(groth::INPUTS), "size of a key", || format!("{}", len));
    f.deposit(0, tok(0).max / 2);
    f.batch();
    // a send under the old key
    let (q, x) = f.request(0, 1 << 31, 1 << 30, 1, user(1));
    let child = vkey_child(0, 1);
    put_child(&mut f.vm, child, len + 1);
    if let Err(e) = f.tx(&[ix_vkey_version(p, 0, child)]) {
        return obs.violation("a new version cannot be started", &e);
    }
    let mut order: Vec<usize> = (0..(len + PACKET - 1) / PACKET).collect();
    order.shuffle(&mut r);
    for (n, i) in order.iter().enumerate() {
        let mut b = bytes[i * PACKET..((i + 1) * PACKET).min(len)].to_vec();
        if r.gen() {
            b.resize(PACKET, 0xee);
        }
        if let Err(e) = f.tx(&[ix_vkey_set(p, 0, *i as u32, &b, &[child])]) {
            if b.len() < PACKET {
                // a short last packet may have to be filled up
                b.resize(PACKET, 0xee);
                if f.tx(&[ix_vkey_set(p, 0, *i as u32, &b, &[child])]).is_ok() {
                    continue;
                }
            }
            return obs.violation("a packet of a pending version is refused", &format!("{}: {}", i, e));
        }
        if n == order.len() / 2 {
            // the old key is in use until the version is complete
            f.init(1, 0, &q, &x, false).unwrap();
            f.pay_fee(1, 0, 0).unwrap();
            f.submit(1, 0, &q).unwrap();
            let v = f.verify(1, 0);
            obs.inc("verifications_under_the_old_key");
            obs.ensure(v == Some(true), "the key in use changes before the new version is complete", || format!("{:?}", v));
        }
    }
    let d = f.vm.data(&child);
    obs.ensure(d[0] == 1 && d[1..] == bytes[..], "the uploaded key differs", || format!("at {:?}", d[1..].iter().zip(&bytes).position(|(a, b)| a != b)));
    obs.count("packets", order.len() as u64);
    if let Err(e) = f.tx(&[ix_vkey_update(p, 0, vkey_child(0, 0))]) {
        return obs.violation("a complete version cannot be put into use", &e);
    }
    obs.ensure(f.vm.lamports(&vkey_child(0, 0)) == 0, "the old data account is not closed", || "".into());
    if r.gen() {
        f.tx(&[ix_vkey_freeze(p, 0)]).unwrap();
    }
    for (i, new) in [true, false].into_iter().enumerate() {
        let vi = 1 + i as u8;
        let (q, x) = f.request(0, 1 << 31, 1 << 30, 1, user(1));
        f.init(1, vi, &q, &x, false).unwrap();
        f.pay_fee(1, vi, 0).unwrap();
        let proof = if new { groth::proof_bytes(&other.prove(seed, &groth::signals_fr(&q).unwrap())) } else { groth::prove(seed, &q) };
        let b = f.tx(&[ix_init_proof(payer(1), vi, &proof)]);
        let mut v = None;
        if b.is_ok() {
            for _ in 0..200 {
                let mut tx = vec![ix_budget(), ix_budget()];
                tx.extend((0..5).map(|_| Instruction { accounts: ix_compute(payer(1), vi, 0).accounts.into_iter().map(|mut m| { if m.pubkey == vkey_child(0, 0) { m.pubkey = child } m }).collect(), ..ix_compute(payer(1), vi, 0) }));
                if f.tx(&tx).is_err() {
                    break;
                }
                let mut d = (*f.vm.data(&ver_key(&payer(1), vi))).clone();
                if let Some(x) = elusiv::state::proof::VerificationAccount::new(&mut d).unwrap().get_is_verified().option() {
                    v = Some(x);
                    break;
                }
            }
        }
        obs.inc("verifications_under_a_new_key");
        obs.ensure(v == Some(new), "a proof is not judged by the key that was uploaded", || format!("proof for the new key: {}, verdict {:?}", new, v));
    }
    let _ = ElusivOption::<bool>::None;
    obs.case(&("upload", seed));
    obs.eval();
}
pub fn k01(run: &Run) -> (Obs, Vec<String>) {
    let budget = run.budget(20, 600);
    run.parallel(8, |lane, obs| {
        let mut n = 0;
        while n < 12 || run.left(budget) {
            let seed = run.seed.wrapping_mul(99_991).wrapping_add(lane + 8 * n);
            if lane == 0 && n == 0 || run.thorough && n % 50 == 0 {
                upload(seed, obs);
            }
            history(seed, 160, obs);
            n += 1;
            if !obs.violations.is_empty() || (run.start.elapsed().as_secs() > 240 && !run.thorough) {
                break;
            }
        }
    })
}
