//! What is run for each property
use crate::engine::*;
use crate::env::*;
use crate::play::*;
use minivm::report::*;
use solana_program::{instruction::Instruction, pubkey::Pubkey};
use rand::{seq::SliceRandom, Rng};

/// where a history starts
#[derive(Clone, Copy)]
pub enum Start {
    Warm,
    /// the active tree is filled up to this index
    Aged(u32),
}
pub const FULL: u32 = TREE_LEAVES;
/// filling levels around which the tree behaves differently
pub const AGES: [u32; 9] = [FULL / 2 - 32, FULL - 64, FULL - 320, FULL - 32, 65_536 - 64, 131_072 - 32, FULL - 96, 3 * 65_536, FULL / 4 * 3 - 16];

pub struct Plan {
    pub cfg: Cfg,
    pub turns: usize,
    pub min_worlds: u64,
    pub quick: u64,
    pub thorough: u64,
    /// every n-th world starts with an old tree
    pub aged_every: u64,
    /// only the last kind of filling levels (close to the end)
    pub near_end: bool,
    /// probability per accepted transaction to probe every account of it
    pub probe: f64,
    pub complete: bool,
    /// every n-th world starts with (nearly) full nullifier segments
    pub crowded: u64,
}
impl Default for Plan {
    fn default() -> Self {
        Plan { cfg: Cfg::default(), turns: 500, min_worlds: 60, quick: 22, thorough: 600, aged_every: 6, near_end: false, probe: 0.0, complete: true, crowded: 0 }
    }
}

/// runs histories until the time is used up
pub fn histories(run: &Run, prop: &'static str, plan: &Plan) -> (Obs, Vec<String>) {
    let budget = run.budget(plan.quick, plan.thorough);
    let lanes = 8u64;
    run.parallel(lanes, |lane, obs| {
        let mut n = lane;
        while n < plan.min_worlds || (run.left(budget) && n < 1_000_000) {
            let mut o = Obs::default();
            history(prop, plan, run.seed.wrapping_mul(1_000_003).wrapping_add(n), n, &mut o);
            let stop = !o.violations.is_empty();
            obs.merge(o);
            n += lanes;
            if stop && obs.violations.len() >= 3 {
                break;
            }
            if run.start.elapsed().as_secs() > 240 && !run.thorough {
                break;
            }
        }
    })
}
pub fn world(prop: &'static str, plan: &Plan, seed: u64, n: u64, obs: &mut Obs) -> World {
    let rate = (seed % 5) as u32;
    let fee = (n / 5 % 5) as u32;
    if plan.aged_every > 0 && n % plan.aged_every == plan.aged_every - 1 {
        let i = (n / plan.aged_every) as usize;
        let set: Vec<u32> = if plan.near_end || i % 2 == 0 { AGES.iter().copied().filter(|a| FULL - a <= 320).collect() } else { AGES.to_vec() };
        // few combinations: an old tree is expensive to make
        let rate = (i % 5) as u32;
        obs.inc("worlds_old_tree");
        return aged(prop, rate, rate, set[i / 2 % set.len()], obs);
    }
    if plan.aged_every > 0 && n % plan.aged_every == 1 {
        let rate = (n / plan.aged_every % 3) as u32;
        let i = (n / plan.aged_every) as usize;
        if i % 2 == 1 {
            obs.inc("worlds_later_tree");
            return later_tree(prop, rate, rate, LATER[i / 2 % LATER.len()], obs);
        }
        obs.inc("worlds_second_tree");
        return second_tree(prop, rate, rate, obs);
    }
    obs.inc("worlds_new_tree");
    if n % 24 == 22 && ["F01", "F02", "F03", "F04"].contains(&prop) {
        obs.inc("worlds_high_fees");
        return warm(prop, (n / 24 % 3) as u32, 5, obs);
    }
    warm(prop, rate, fee, obs)
}
pub fn history(prop: &'static str, plan: &Plan, seed: u64, n: u64, obs: &mut Obs) {
    if prop == "N01" && n % 8 == 5 {
        // the nullifier account itself, for longer than sends could go on
        let seg = 65_536usize;
        let start = [seg - 3, seg, seg + 7, 2 * seg - 2, 3 * seg + 1][(n / 8 % 5) as usize];
        let mut o = Obs::default();
        crate::x_null::account(seed, start, 300, &mut o);
        o.violations.retain(|v| ["duplicate accepted", "inserted nullifier is invisible", "values are lost"].contains(&v.sig.as_str()));
        obs.merge(o);
        obs.eval();
        return;
    }
    if plan.crowded > 0 && n % plan.crowded == 3 {
        crowded_history(prop, seed, obs);
        obs.eval();
        return;
    }
    let start = world(prop, plan, seed, n, obs);
    let mut p = Play::new(start, seed, plan.cfg.clone());
    for _ in 0..plan.turns {
        if !p.w.alive {
            return;
        }
        let before = p.w.accepted;
        p.turn(obs);
        if plan.probe > 0.0 && p.w.accepted > before && p.w.alive && p.r.gen_bool(plan.probe) {
            // on a copy of the world before? the next transaction is probed instead
            if let Some(tx) = p.choose(obs) {
                probe_accounts(&mut p, obs, &tx);
                p.w.step(obs, &tx);
            }
        }
    }
    if plan.complete {
        complete(&mut p, obs);
    }
    p.w.deep(obs);
    if p.w.m.trees_count > 2 && p.w.m.nulls.iter().any(|(t, x)| *t > 2 && !x.set.is_empty()) {
        obs.inc("later_trees_with_sends");
    }
    obs.inc("histories");
    obs.eval();
}
/// honest parties finish everything that was started
pub fn complete(p: &mut Play, obs: &mut Obs) {
    if !p.w.alive {
        return;
    }
    for t in 0..TOKENS {
        set_price(&mut p.w.vm, t, default_price(t), true);
    }
    p.finish_bases(obs);
    p.finish_sends(obs);
    p.drain(obs);
    if p.w.alive {
        obs.count("left_base_hashings", p.w.m.base.values().filter(|b| b.active).count() as u64);
        obs.count("left_sends", p.w.m.ver.keys().filter(|k| p.pend.contains_key(k)).count() as u64);
        obs.count("left_in_queue", p.w.m.cq.len() as u64);
        let mut keys: Vec<Pubkey> = p.w.m.ver.keys().copied().filter(|k| p.pend.contains_key(k)).collect();
        keys.sort();
        for key in keys {
            if !p.w.alive {
                break;
            }
            if let Some(tx) = p.send_next(obs, &key) {
                if p.w.step(obs, &tx) {
                    obs.inc("left_send: goes on");
                } else {
                    let why = p.w.last_why;
                    obs.inc(&format!("left_send: {}", why));
                }
            }
        }
    }
}
/// a copy of the world in which one transaction is tried
pub fn fork(p: &mut Play, obs: &mut Obs, tx: &[Instruction], judge: bool) -> Option<bool> {
    let mut c = p.w.clone();
    let accepted = c.step_as(obs, tx, judge);
    if !c.alive {
        p.w.alive = false;
        return None;
    }
    Some(accepted)
}
/// replaces every account of a transaction that is about to be made, one at a time, and drops every signature
pub fn probe_accounts(p: &mut Play, obs: &mut Obs, tx: &[Instruction]) {
    obs.inc("probed_transactions");
    let mut seen: std::collections::BTreeSet<(usize, usize)> = Default::default();
    let mut done: Vec<Vec<u8>> = vec![];
    for i in 0..tx.len() {
        if tx[i].program_id != pid() || done.contains(&tx[i].data) {
            continue;
        }
        done.push(tx[i].data.clone());
        // the same accounts under another number
        let n = tx[i].data.len().min(5) * 8;
        for bit in 8..n {
            if bit >= 16 && !p.r.gen_bool(0.3) {
                continue;
            }
            let mut t = tx.to_vec();
            let everywhere = p.r.gen_bool(0.5);
            let was = t[i].data[bit / 8];
            for (j, x) in t.iter_mut().enumerate() {
                if j == i || (everywhere && x.program_id == pid() && x.data.get(bit / 8) == Some(&was)) {
                    x.data[bit / 8] ^= 1 << (bit % 8);
                }
            }
            obs.inc("numbers_changed");
            if fork(p, obs, &t, false).is_none() {
                return;
            }
        }
        for a in 0..tx[i].accounts.len() {
            if !seen.insert((i, a)) {
                continue;
            }
            let original = tx[i].accounts[a].pubkey;
            // a copy of the account that belongs to somebody else, the same role of somebody else, anything
            let copy = key_n("copy of an account", p.r.gen_range(0..1 << 30));
            // an address that nearly is the right one
            let mut near = original.to_bytes();
            near[p.r.gen_range(0..32)] ^= 1 << p.r.gen_range(0..8);
            let near = Pubkey::new_from_array(near);
            let mut tries: Vec<(Pubkey, u8)> = vec![(copy, 1), (copy, 2), (near, 1), (near, 2)];
            for _ in 0..4 {
                tries.push((p.some_key(), 0));
            }
            // somebody else who takes part
            for _ in 0..2 {
                if let Some(m) = tx[i].accounts.choose(&mut p.r) {
                    tries.push((m.pubkey, 0));
                }
            }
            if let Some(x) = p.w.vm.accounts.get(&original) {
                // another account of the same shape
                let like: Vec<Pubkey> = p.w.vm.accounts.iter().filter(|(k, y)| **k != original && y.owner == x.owner && y.data.len() == x.data.len()).map(|(k, _)| *k).collect();
                let mut like = like;
                like.sort();
                for _ in 0..3 {
                    if let Some(k) = like.choose(&mut p.r) {
                        tries.push((*k, 0));
                    }
                }
            }
            for (key, kind) in tries {
                if key == original {
                    continue;
                }
                let mut t = tx.to_vec();
                let everywhere = p.r.gen_bool(0.3);
                if everywhere {
                    for x in t.iter_mut() {
                        for m in x.accounts.iter_mut().filter(|m| m.pubkey == original) {
                            m.pubkey = key;
                        }
                    }
                }
                t[i].accounts[a].pubkey = key;
                let mut c = p.w.clone();
                if kind > 0 {
                    let mut acc = c.vm.get(&original);
                    acc.lamports = acc.lamports.max(RICH);
                    acc.executable = false;
                    if kind == 1 || acc.data.is_empty() {
                        acc.owner = key_n("another program", 0);
                    } else if acc.owner == pid() {
                        // the program never owns data at such an address
                        continue;
                    }
                    c.vm.set(key, acc);
                }
                obs.inc("account_replacements");
                let ok = c.step_as(obs, &t, false);
                if ok {
                    obs.inc("account_replacements_accepted");
                }
                if !c.alive {
                    p.w.alive = false;
                    return;
                }
            }
            if tx[i].accounts[a].is_signer {
                let mut t = tx.to_vec();
                for x in t.iter_mut() {
                    for m in x.accounts.iter_mut().filter(|m| m.pubkey == original) {
                        m.is_signer = false;
                    }
                }
                obs.inc("signatures_dropped");
                if fork(p, obs, &t, false).is_none() {
                    return;
                }
            }
        }
    }
}
/// sends in a world whose nullifier segments are full or nearly so
pub fn crowded_history(prop: &'static str, seed: u64, obs: &mut Obs) {
    let mut start = warm(prop, 0, 0, obs);
    if !start.alive {
        return;
    }
    let seg = 65_536usize;
    let n = [seg - 2, seg, seg + 1, 2 * seg - 2, 2 * seg, 3 * seg + 2, 2 * seg + 1][(seed % 7) as usize];
    let (vm, m) = (&mut start.vm, &mut start.m);
    crate::x_null::crowd(vm, m, 0, n);
    let cfg = Cfg { mutate: 0.1, deposit: 2, base: 3, mt: 6, start: 30, send: 60, price: 1, reuse: 0.2, evil_send: 0.2, evil_final: 0.1, indices: 5, ..Cfg::default() };
    let mut p = Play::new(World::new(prop, start.vm, start.m), seed, cfg);
    p.place = n;
    // nullifiers that are known already: the borders of the segments, and others
    for i in [1, seg - 2, seg - 1, seg, seg + 1, 2 * seg - 1, 2 * seg, n - 1, n] {
        if i >= 1 && i <= n {
            p.spent.push(crate::refm::of(&crate::refm::spread(i, n + 1)));
        }
    }
    for _ in 0..150 {
        if !p.w.alive {
            return;
        }
        p.turn(obs);
    }
    complete(&mut p, obs);
    p.w.deep(obs);
    obs.inc("crowded_histories");
}
