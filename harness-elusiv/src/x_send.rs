//! Sends in arrangements that random histories reach rarely: fees paid at every stage of the preparation, and
//! finalizations whose companion instructions belong to somebody else's send
use crate::checks::*;
use crate::env::*;
use crate::play::*;
use crate::refm::prep_ix_count;
use crate::spec::{in_token, send_fee, St};
use minivm::report::*;
use rand::{seq::SliceRandom, Rng, SeedableRng};
use solana_program::{instruction::Instruction, pubkey::Pubkey};

/// starts one more send; its account
fn start(p: &mut Play, obs: &mut Obs, with_fee: bool, fits: impl Fn(&Play, &Pubkey) -> bool) -> Option<Pubkey> {
    for _ in 0..60 {
        if !p.w.alive {
            return None;
        }
        let Some(mut tx) = p.tx_start(obs) else { continue };
        tx.truncate(1);
        let mut c = p.w.clone();
        let has: Vec<Pubkey> = p.w.m.ver.keys().copied().collect();
        if !c.step_as(obs, &tx, true) || !c.alive {
            if !c.alive {
                p.w = c;
                return None;
            }
            continue;
        }
        let Some(key) = c.m.ver.keys().copied().find(|k| !has.contains(k)) else { continue };
        let was = std::mem::replace(&mut p.w, c);
        if !fits(p, &key) {
            p.w = was;
            continue;
        }
        if with_fee {
            let v = p.w.m.ver[&key].clone();
            if !p.w.step(obs, &[ix_transfer_fee(v.payer, v.vi, v.req.token)]) {
                if p.w.alive {
                    p.w = was;
                    continue;
                }
                return None;
            }
        }
        return Some(key);
    }
    None
}
/// the upfront fee of one request at every stage of its preparation
fn stages(p: &mut Play, obs: &mut Obs) -> Option<()> {
    for t in 0..TOKENS {
        set_price(&mut p.w.vm, t, default_price(t), true);
    }
    p.cfg.real = 1.0;
    p.cfg.fee_edge = 0.7;
    let key = start(p, obs, false, |_, _| true)?;
    let prep = p.w.m.ver[&key].prep;
    for done in 0..=prep {
        let v = p.w.m.ver[&key].clone();
        let ok = fork(p, obs, &[ix_transfer_fee(v.payer, v.vi, v.req.token)], true)?;
        obs.inc("staged_payments");
        if done > 0 && ok {
            obs.inc("staged_payments_accepted_after_preparation");
        }
        if p.r.gen_bool(0.3) {
            // at another price
            let mut c = p.w.clone();
            std::mem::swap(&mut p.w, &mut c);
            p.change_price(obs);
            let paid = p.w.step(obs, &[ix_transfer_fee(v.payer, v.vi, v.req.token)]);
            let _ = paid;
            if !p.w.alive {
                return None;
            }
            p.w = c;
        }
        if done < prep {
            let tx = p.compute_tx(&v, true);
            if !p.w.step(obs, &tx) {
                break;
            }
        }
    }
    Some(())
}
/// requests whose amounts are at the edges of what has to be refused, with and without an optional fee
fn amounts(p: &mut Play, obs: &mut Obs) -> Option<()> {
    for t in 0..TOKENS {
        set_price(&mut p.w.vm, t, default_price(t), true);
    }
    p.cfg.fee_edge = 0.0;
    let was = p.w.clone();
    let key = start(p, obs, false, |_, _| true)?;
    let (v, q) = (p.w.m.ver[&key].clone(), p.pend[&key].clone());
    p.w = was;
    let t = v.req.token;
    let rent_token = if v.req.ata { in_token(&p.w.vm, &p.w.m, t, p.w.vm.rent.minimum_balance(165))? } else { 0 };
    let floor = if t == 0 { 890_880 } else { rent_token };
    let mut all: Vec<(u64, u64)> = vec![];
    for opt in [0u64, 1, 2, 1_000, floor / 2, floor] {
        for a in [0, 1, floor / 2, floor.wrapping_sub(1), floor, floor + 1] {
            all.push((a, opt));
            all.push((a.wrapping_add(opt), opt));
        }
        all.push((opt.wrapping_sub(1), opt));
    }
    all.retain(|x| x.0 < 1 << 60);
    all.sort();
    all.dedup();
    for (amount, opt) in all {
        let mut r = v.req.clone();
        r.amount = amount;
        r.opt_amount = opt;
        r.hashed = hashed_inputs(&r, &q.x);
        for _ in 0..3 {
            r.fee = send_fee(&p.w.vm, &p.w.m, t, amount, prep_ix_count(&r.signals()?))?;
        }
        let tree = p.tree_of(&r)?;
        let ch = p.null_children(tree);
        let init = ix_init_verification(v.payer, v.vi, 0, [tree, if tree == 0 { 1 } else { 0 }], &r, false, q.x.identifier, &[&ch, &[]]);
        let ok = fork(p, obs, &[init, ix_transfer_fee(v.payer, v.vi, t)], true)?;
        obs.inc("edge_amounts");
        if ok {
            obs.inc("edge_amounts_accepted");
        }
        obs.nontrivial(&("edge amount", t == 0, v.req.ata, amount as i64 - floor as i64, opt, ok));
    }
    Some(())
}
pub fn f04(run: &Run, plan: &Plan) -> (Obs, Vec<String>) {
    let (mut obs, mut errors) = histories(run, "F04", plan);
    let until = run.budget(plan.quick + 8, plan.thorough + 300);
    let (o, e) = run.parallel(8, |lane, obs| {
        let mut n = lane;
        while n < 96 || (run.left(until) && n < 100_000) {
            let mut o = Obs::default();
            let seed = run.seed.wrapping_mul(6_151).wrapping_add(n);
            let from = warm("F04", (n % 5) as u32, (n / 5 % 5) as u32, &mut o);
            let mut p = Play::new(from, seed, plan.cfg.clone());
            for _ in 0..6 {
                let w = p.w.clone();
                stages(&mut p, &mut o);
                if !p.w.alive {
                    break;
                }
                p.w = w.clone();
                amounts(&mut p, &mut o);
                if !p.w.alive {
                    break;
                }
                p.w = w;
            }
            o.eval();
            obs.merge(o);
            n += 8;
            if obs.violations.len() >= 3 || run.start.elapsed().as_secs() > 300 && !run.thorough {
                break;
            }
        }
    });
    obs.merge(o);
    errors.extend(e);
    (obs, errors)
}
/// finalizations of two sends with the same index by different payers, put together in every way
fn crossed(p: &mut Play, obs: &mut Obs) -> Option<()> {
    let a = start(p, obs, true, |_, _| true)?;
    let va = p.w.m.ver[&a].clone();
    p.cfg.send = 0;
    let same = p.r.gen_bool(0.7);
    let b = start(p, obs, true, |p, k| {
        let v = &p.w.m.ver[k];
        v.vi == va.vi && (!same || (v.req.token == 0) == (va.req.token == 0))
    })?;
    for key in [&a, &b] {
        let v = p.w.m.ver[key].clone();
        let q = p.pend[key].clone();
        if !p.w.step(obs, &[ix_init_proof(v.payer, v.vi, &q.proof)]) {
            return None;
        }
        p.w.poke_verdict(key, key == &a || p.r.gen_bool(0.8));
    }
    // the other one may be further already
    if p.r.gen_bool(0.5) {
        let tx = p.finalization(obs, &b)?;
        let upto = if p.w.m.ver[&b].verdict == Some(true) && p.r.gen_bool(0.3) { p.r.gen_range(1..=1 + p.w.m.ver[&b].req.inputs.len()) } else { 1 };
        for ix in tx.iter().take(upto) {
            // one by one: a transaction that starts a finalization needs its companions unless the program is asked again
            if !p.w.step_as(obs, &[ix.clone()], false) {
                break;
            }
        }
        if !p.w.alive {
            return None;
        }
    }
    let ta = p.finalization(obs, &a)?;
    let tb = p.finalization(obs, &b)?;
    let n = ta.len();
    // the part of the other's transaction with the same role
    let counterpart = |ix: &Instruction| -> Option<Instruction> {
        if ix.program_id == pid() {
            let kind = |v: u8| if v == 14 { 13 } else { v };
            tb.iter().find(|x| x.program_id == pid() && kind(x.data[0]) == kind(ix.data[0])).cloned()
        } else {
            tb.iter().find(|x| x.program_id == ix.program_id).cloned()
        }
    };
    let vb = p.w.m.ver[&b].clone();
    let theirs_null = ix_fin_null(vb.payer, vb.vi, vb.trees[0], &p.null_children(vb.trees[0]));
    let mine_null = ix_fin_null(va.payer, va.vi, va.trees[0], &p.null_children(va.trees[0]));
    let mut txs: Vec<Vec<Instruction>> = vec![];
    for i in 0..n {
        let Some(c) = counterpart(&ta[i]).or_else(|| (ta[i].program_id == pid() && ta[i].data[0] == 12).then(|| theirs_null.clone())) else { continue };
        let mut one = ta.clone();
        one[i] = c.clone();
        txs.push(one);
        // from here on
        let mut rest = ta.clone();
        for x in rest.iter_mut().skip(i) {
            if let Some(c) = counterpart(x).or_else(|| (x.program_id == pid() && x.data[0] == 12).then(|| theirs_null.clone())) {
                *x = c;
            }
        }
        txs.push(rest);
        let mut more = ta.clone();
        more.insert(i, c);
        txs.push(more);
    }
    // as many insertions as are possible before somebody else's payout
    if let (Some(at), Some(pay)) = (ta.iter().position(|x| x.program_id == pid() && matches!(x.data[0], 13 | 14)), ta.iter().find(|x| x.program_id == pid() && matches!(x.data[0], 13 | 14)).and_then(&counterpart)) {
        for more in 0..5 {
            for mine in [true, false] {
                let mut t = ta.clone();
                t[at] = pay.clone();
                for _ in 0..more {
                    t.insert(at, if mine { mine_null.clone() } else { theirs_null.clone() });
                }
                txs.push(t.clone());
                t.insert(at + more + 1, ta[at].clone());
                txs.push(t.clone());
                t.swap(at + more, at + more + 1);
                txs.push(t);
            }
        }
    }
    for t in [&ta[..], &tb[..]] {
        for (x, y) in [(&ta, t), (&tb, t)] {
            let mut both = x.clone();
            both.extend(y.iter().cloned());
            txs.push(both);
        }
    }
    txs.shuffle(&mut p.r);
    for mut t in txs {
        obs.inc("crossed_finalizations");
        // behind instructions that have nothing to do with it
        if p.r.gen_bool(0.6) {
            let n = p.r.gen_range(1..10);
            t.splice(0..0, (0..n).map(|_| ix_budget()));
            obs.inc("crossed_finalizations_behind_others");
        }
        let mut c = p.w.clone();
        let ok = c.step_as(obs, &t, false);
        if ok {
            obs.inc("crossed_finalizations_accepted");
        }
        if c.alive && ok {
            c.deep(obs);
        }
        if !c.alive {
            p.w.alive = false;
            return None;
        }
    }
    // and what is meant to be
    let mut ta = ta;
    if p.r.gen_bool(0.4) {
        let n = p.r.gen_range(1..10);
        ta.splice(0..0, (0..n).map(|_| ix_budget()));
    }
    let ok = p.w.step(obs, &ta);
    obs.inc(if ok { "crossed_honest" } else { "crossed_honest_refused" });
    if ok && p.w.m.ver.contains_key(&a) && p.w.m.ver[&a].state != St::Closed {
        p.w.deep(obs);
    }
    Some(())
}
pub fn v04(run: &Run, plan: &Plan) -> (Obs, Vec<String>) {
    let (mut obs, mut errors) = histories(run, "V04", plan);
    let until = run.budget(plan.quick + 10, plan.thorough + 300);
    let (o, e) = run.parallel(8, |lane, obs| {
        let mut n = lane;
        while n < 160 || (run.left(until) && n < 100_000) {
            let mut o = Obs::default();
            let seed = run.seed.wrapping_mul(8_527).wrapping_add(n);
            let from = warm("V04", (n % 5) as u32, (n / 5 % 5) as u32, &mut o);
            let mut p = Play::new(from, seed, Cfg { mutate: 0.0, evil_send: 0.0, evil_final: 0.0, reuse: 0.0, fee_edge: 0.0, indices: 1, real: 0.0, invalid: 0.0, ..plan.cfg.clone() });
            crossed(&mut p, &mut o);
            o.eval();
            obs.merge(o);
            n += 8;
            if obs.violations.len() >= 3 || run.start.elapsed().as_secs() > 300 && !run.thorough {
                break;
            }
        }
    });
    obs.merge(o);
    errors.extend(e);
    (obs, errors)
}

// ------------------------------------------------------------------------------------ every instruction at every stage

fn candidates(p: &mut Play, obs: &mut Obs, key: &Pubkey, req: &SendReq, q: &Pending, trees: [u32; 2]) -> Vec<(&'static str, Vec<Instruction>)> {
    let (payer_, vi) = (q.payer, q.vi);
    let ch = p.null_children(trees[0]);
    let init = |skip| ix_init_verification(payer_, vi, 0, trees, req, skip, q.x.identifier, &[&ch, &[]]);
    let other = |i: u8| ix_init_verification(payer_, vi.wrapping_add(i), 0, trees, req, true, q.x.identifier, &[&ch, &[]]);
    let fee = ix_transfer_fee(payer_, vi, req.token);
    let proof = ix_init_proof(payer_, vi, &q.proof);
    let d = p.fin_data(req);
    let send = ix_fin_send(payer_, vi, &q.x, &d);
    let null = ix_fin_null(payer_, vi, trees[0], &ch);
    let mut pay = if req.token == 0 { ix_fin_lamports(payer_, vi, req, q.target) } else { ix_fin_token(payer_, vi, req, q.target, q.wallet) };
    if let Some(v) = p.w.m.ver.get(key).filter(|v| v.req == *req) {
        pay = pay_ix(v, q.target, q.wallet);
    }
    let wrong = if req.token == 0 { ix_fin_token(payer_, vi, req, q.target, q.wallet) } else { ix_fin_lamports(payer_, vi, req, q.target) };
    let compute = |n: usize| {
        let mut t = vec![ix_budget(), ix_budget()];
        t.extend((0..n).map(|_| ix_compute(payer_, vi, 0)));
        t
    };
    let mut v = vec![
        ("start", vec![init(false)]), ("start again", vec![init(true)]), ("start elsewhere", vec![other(1)]), ("start and pay", vec![init(false), fee.clone()]),
        ("fee", vec![fee.clone()]), ("fee twice", vec![fee.clone(), fee.clone()]), ("fee and proof", vec![fee.clone(), proof.clone()]),
        ("proof", vec![proof.clone()]), ("proof twice", vec![proof.clone(), proof.clone()]),
        ("compute", compute(5)), ("compute fewer", compute(3)), ("compute one", compute(1)), ("compute more", compute(6)),
        ("check", vec![send.clone()]), ("nullifier", vec![null.clone()]), ("payout", vec![pay.clone()]), ("payout of the other kind", vec![wrong]),
        ("check and payout", vec![send.clone(), pay.clone()]), ("nullifier and payout", vec![null.clone(), pay.clone()]), ("payout twice", vec![pay.clone(), pay.clone()]),
        ("check twice", vec![send.clone(), send.clone(), null.clone(), pay.clone()]),
        ("payout first", vec![pay.clone(), send.clone(), null.clone()]),
    ];
    if p.w.m.ver.contains_key(key) {
        if let Some(t) = p.finalization(obs, key) {
            let mut twice = t.clone();
            twice.extend(t.iter().cloned());
            let mut restart = t.clone();
            restart.push(init(false));
            let mut late = t.clone();
            late.insert(t.len() - 1, null.clone());
            v.extend([("finalization", t), ("finalization twice", twice), ("finalization and start", restart), ("one nullifier more", late)]);
        }
    }
    // what is closed is kept alive within the transaction, and paid out once more
    let known = p.w.m.ver.get(key).cloned();
    let honest = if known.is_some() { p.finalization(obs, key) } else { None };
    if let (Some(x), Some(t)) = (known, honest) {
        let keep = |p: &Play, keys: &[Pubkey]| -> Vec<Instruction> {
            keys.iter().map(|k| solana_program::system_instruction::transfer(&payer_, k, p.w.vm.rent.minimum_balance(p.w.vm.data(k).len().max(1)))).collect()
        };
        let dup = dup_key(&x.req.nullifiers());
        for keys in [vec![*key], vec![*key, dup]] {
            for more in [vec![], vec![pay.clone()], vec![init(false)], vec![init(true)]] {
                for base in [vec![pay.clone()], t.clone()] {
                    if !p.r.gen_bool(if x.verdict.is_some() { 0.5 } else { 0.04 }) {
                        continue;
                    }
                    let mut a = base;
                    // before whatever has to stay at the end
                    let at = a.iter().position(|i| *i == pay).map_or(a.len(), |i| i + 1);
                    let mut mid = keep(p, &keys);
                    mid.extend(more.iter().cloned());
                    let mut b = a.clone();
                    b.extend(mid.iter().cloned());
                    a.splice(at..at, mid);
                    v.push(("kept alive", a));
                    v.push(("kept alive at the end", b));
                }
            }
        }
    }
    // all nullifiers, whatever the stage
    let mut whole = vec![send];
    whole.extend((0..req.inputs.len()).map(|_| null.clone()));
    whole.push(pay.clone());
    if let Some(m) = &q.x.memo {
        whole.push(ix_memo(m));
    }
    v.push(("whole", whole.clone()));
    let at = whole.iter().position(|i| *i == pay).unwrap_or(0);
    whole.insert(at, pay);
    v.push(("whole with two payouts", whole));
    v
}
fn probe(p: &mut Play, obs: &mut Obs, stage: &'static str, key: &Pubkey, req: &SendReq, q: &Pending, trees: [u32; 2]) -> Option<()> {
    if !p.w.alive {
        return None;
    }
    for (what, tx) in candidates(p, obs, key, req, q, trees) {
        let ok = fork(p, obs, &tx, true)?;
        obs.inc("staged_instructions");
        if ok {
            obs.inc("staged_instructions_accepted");
        }
        obs.nontrivial(&("send stage", stage, what, ok));
    }
    Some(())
}
fn matrix(p: &mut Play, obs: &mut Obs) -> Option<()> {
    for t in 0..TOKENS {
        set_price(&mut p.w.vm, t, default_price(t), true);
    }
    let real = p.r.gen_bool(0.25);
    p.cfg.real = if real { 1.0 } else { 0.0 };
    let key = start(p, obs, false, |_, _| true)?;
    let mut key = key;
    // or the twin of it, without an account of the nullifiers to its name
    if !real && p.r.gen_bool(0.35) {
        let (v, mut q) = (p.w.m.ver[&key].clone(), p.pend[&key].clone());
        let ch = p.null_children(v.trees[0]);
        q.vi = q.vi.wrapping_add(101);
        let twin = ver_key(&q.payer, q.vi);
        let mut req = v.req.clone();
        req.out = p.r.gen();
        // below the modulus, whichever end is the high one
        req.out[0] &= 15;
        req.out[31] &= 15;
        if p.w.vm.data(&twin).is_empty() && p.w.step_as(obs, &[ix_init_verification(q.payer, q.vi, 0, v.trees, &req, true, q.x.identifier, &[&ch, &[]])], false) {
            obs.inc("staged_twins");
            p.pend.insert(twin, q);
            key = twin;
        }
        if !p.w.alive {
            return None;
        }
    }
    let v = p.w.m.ver[&key].clone();
    let q = p.pend[&key].clone();
    let (req, trees) = (v.req.clone(), v.trees);
    probe(p, obs, "started", &key, &req, &q, trees)?;
    let mut early = 0;
    if p.r.gen_bool(0.5) {
        early = p.r.gen_range(0..=v.prep);
        for _ in 0..early {
            let tx = p.compute_tx(&v, true);
            if !p.w.step(obs, &tx) {
                return None;
            }
        }
        probe(p, obs, "prepared", &key, &req, &q, trees)?;
    }
    if !p.w.step(obs, &[ix_transfer_fee(v.payer, v.vi, req.token)]) {
        return None;
    }
    probe(p, obs, "paid", &key, &req, &q, trees)?;
    if !p.w.step(obs, &[ix_init_proof(v.payer, v.vi, &q.proof)]) {
        return None;
    }
    probe(p, obs, "submitted", &key, &req, &q, trees)?;
    if real {
        let total = v.prep - early + 43 + 17;
        let at = [1, v.prep - early, v.prep - early + 1, v.prep - early + 43, total - 1, p.r.gen_range(0..total)];
        for i in 0..total {
            if p.w.m.ver[&key].verdict.is_some() {
                break;
            }
            if at.contains(&i) {
                probe(p, obs, "verifying", &key, &req, &q, trees)?;
            }
            let tx = p.compute_tx(&v, true);
            if !p.w.step(obs, &tx) {
                return None;
            }
        }
        p.w.m.ver[&key].verdict?;
        obs.inc("staged_real_verdicts");
    } else {
        p.w.poke_verdict(&key, q.valid);
    }
    probe(p, obs, if p.w.m.ver[&key].verdict == Some(true) { "verified" } else { "rejected" }, &key, &req, &q, trees)?;
    // the start of the finalization by itself, where that is possible
    let tx = p.finalization(obs, &key)?;
    let mut c = p.w.clone();
    if c.step_as(obs, &tx[..1], false) {
        std::mem::swap(&mut p.w, &mut c);
        probe(p, obs, "checked", &key, &req, &q, trees)?;
        let tx = p.finalization(obs, &key)?;
        if !p.w.step(obs, &tx) {
            return None;
        }
    } else {
        if !c.alive {
            p.w = c;
            return None;
        }
        if !p.w.step(obs, &tx) {
            return None;
        }
    }
    probe(p, obs, "closed", &key, &req, &q, trees)?;
    obs.inc("staged_sends");
    p.w.deep(obs);
    Some(())
}
/// Many requests at once, some of them rejected: a rejection frees its own output commitment and no other
fn rejected(seed: u64, obs: &mut Obs) -> Option<()> {
    let mut r = rand::rngs::StdRng::seed_from_u64(seed);
    let mut f = crate::flow::Flow::new(0, 2);
    f.deposit(0, 1 << 33);
    let n = r.gen_range(66..=124u8);
    let mut all = vec![];
    for vi in 0..n {
        let (q, x) = f.request(0, 2_000_000, 1 << 28, 1, user(2));
        let opened = f.init(0, vi, &q, &x, false);
        obs.ensure(opened.is_ok(), "a fresh request is refused", || format!("request {} of {}: {:?}", vi, n, opened));
        opened.ok()?;
        all.push((q, x));
    }
    // the same output requested by another send
    let again = |f: &mut crate::flow::Flow, out: &crate::refm::U256, vi: u8| {
        let (mut q, x) = f.request(0, 2_000_000, 1 << 28, 1, user(2));
        q.out = *out;
        f.init(1, vi, &q, &x, false).is_ok()
    };
    let mut gone: Vec<u8> = vec![];
    for j in 0..8u8 {
        let i = match j {
            0 => n - 1,
            1 => 64 % n,
            2 => 0,
            _ => r.gen_range(0..n),
        };
        if gone.contains(&i) {
            continue;
        }
        let (q, x) = all[i as usize].clone();
        let early = again(&mut f.copy(), &q.out, 0);
        obs.ensure(!early, "an output commitment is requested twice", || format!("request {} of {}", i, n));
        if f.pay_fee(0, i, 0).is_err() || f.submit(0, i, &q).is_err() {
            obs.ensure(false, "a request cannot proceed", || format!("request {} of {}", i, n));
            return None;
        }
        f.verdict(0, i, false);
        let tx = [ix_fin_send(payer(0), i, &x, &f.fin_data(&q))];
        let closed = f.tx(&tx);
        obs.ensure(closed.is_ok(), "a rejection is not recorded", || format!("request {} of {}: {:?}", i, n, closed));
        gone.push(i);
        let mut probe = f.copy();
        for near in [i.wrapping_sub(1), i.wrapping_add(1), i ^ 64, i ^ 32, i ^ 1] {
            if near < n && !gone.contains(&near) {
                let hit = again(&mut probe, &all[near as usize].0.out, 0);
                obs.ensure(!hit, "an output commitment is requested twice", || format!("request {} of {} after the rejection of {}", near, n, i));
            }
        }
        let reused = again(&mut probe, &q.out, 1);
        obs.ensure(reused, "a rejected output commitment stays taken", || format!("request {} of {}", i, n));
        let twice = again(&mut probe, &q.out, 2);
        obs.ensure(!twice, "an output commitment is requested twice", || format!("request {} of {}, after its rejection", i, n));
        obs.eval();
        obs.inc("rejections_among_many");
        if i >= 64 {
            obs.inc("rejections_among_many_late");
        }
        obs.nontrivial(&("rejected", n, i));
    }
    Some(())
}
/// runs sends with every instruction tried at every stage
pub fn v03(run: &Run, plan: &Plan) -> (Obs, Vec<String>) {
    let (mut obs, mut errors) = histories(run, "V03", plan);
    let until = run.budget(plan.quick + 10, plan.thorough + 300);
    let (o, e) = run.parallel(8, |lane, obs| {
        let mut n = lane;
        while n < 160 || (run.left(until) && n < 100_000) {
            let mut o = Obs::default();
            let seed = run.seed.wrapping_mul(9_343).wrapping_add(n);
            let from = if n % 8 == 5 { second_tree("V03", (n / 8 % 3) as u32, (n / 8 % 3) as u32, &mut o) } else { warm("V03", (n % 5) as u32, (n / 5 % 5) as u32, &mut o) };
            let mut p = Play::new(from, seed, Cfg { mutate: 0.0, evil_send: 0.0, evil_final: 0.0, reuse: 0.0, fee_edge: 0.0, indices: 2, invalid: 0.3, ..plan.cfg.clone() });
            matrix(&mut p, &mut o);
            o.eval();
            obs.merge(o);
            n += 8;
            if obs.violations.len() >= 3 || run.start.elapsed().as_secs() > 300 && !run.thorough {
                break;
            }
        }
    });
    obs.merge(o);
    errors.extend(e);
    let (o, e) = run.parallel(run.scale(8, 64) as u64, |n, obs| {
        rejected(run.seed.wrapping_mul(77_003).wrapping_add(n), obs);
    });
    obs.merge(o);
    errors.extend(e);
    (obs, errors)
}
