//! Honest sends with a valid proof, carried through all their transactions while others are busy
use crate::checks::*;
use crate::env::*;
use crate::play::*;
use crate::spec::St;
use minivm::report::*;
use rand::Rng;
use solana_program::pubkey::Pubkey;

/// transactions of five steps each for the Miller loop, and of one step each for the final exponentiation
const LOOP_TXS: usize = 43;
const FINAL_TXS: usize = 17;

fn fail(p: &mut Play, obs: &mut Obs, what: &str, detail: String) {
    let e = p.w.last_err.clone();
    p.w.finding(obs, &["L01"], format!("honest send: {}", what), format!("{}: {}", detail, e));
}
/// one computation transaction, which has to be accepted
fn compute(p: &mut Play, obs: &mut Obs, key: &Pubkey) -> bool {
    let v = p.w.m.ver[key].clone();
    let tx = p.compute_tx(&v, true);
    let ok = p.w.step(obs, &tx);
    if !ok && p.w.alive {
        fail(p, obs, "a step of the verification is refused", format!("{} inputs, state {:?}", v.req.inputs.len(), v.state));
    }
    ok && p.w.alive
}
/// what the others do meanwhile
fn others(p: &mut Play, obs: &mut Obs) {
    let n = if p.r.gen_bool(0.15) { p.r.gen_range(1..6) } else { 0 };
    for _ in 0..n {
        if p.w.alive {
            p.turn(obs);
        }
    }
}
fn one(p: &mut Play, obs: &mut Obs) -> Option<()> {
    p.cfg.real = 1.0;
    p.cfg.invalid = 0.0;
    let mut key = None;
    for _ in 0..30 {
        if !p.w.alive {
            return None;
        }
        if p.w.m.cq.len() > 60 {
            p.drain(obs);
        }
        let Some(tx) = p.tx_start(obs) else { continue };
        let mut has: Vec<Pubkey> = p.w.m.ver.keys().copied().collect();
        has.sort();
        if p.w.step(obs, &tx) {
            key = p.w.m.ver.keys().copied().find(|k| !has.contains(k));
            break;
        }
    }
    p.cfg.real = 0.0;
    p.cfg.invalid = 0.2;
    let key = key?;
    // nobody else takes part in this send
    p.cfg.send = 0;
    let first = p.w.m.ver[&key].clone();
    let prep = first.prep;
    let fee_first = p.r.gen_bool(0.5) || first.state != St::None;
    let mut done = 0;
    if !fee_first {
        let upto = if p.r.gen_bool(0.5) { prep } else { p.r.gen_range(0..=prep) };
        while done < upto {
            others(p, obs);
            if !p.w.alive || !compute(p, obs, &key) {
                return None;
            }
            done += 1;
        }
    }
    if p.w.m.ver[&key].state == St::None {
        others(p, obs);
        if !p.w.alive {
            return None;
        }
        let v = p.w.m.ver[&key].clone();
        for t in 0..TOKENS {
            set_price(&mut p.w.vm, t, default_price(t), true);
        }
        let tx = vec![ix_transfer_fee(v.payer, v.vi, v.req.token)];
        if !p.w.step(obs, &tx) {
            // the price has changed since the fee was calculated
            obs.inc("live_fee_outdated");
            return None;
        }
    }
    others(p, obs);
    if !p.w.alive {
        return None;
    }
    let v = p.w.m.ver[&key].clone();
    let proof = p.pend[&key].proof.clone();
    if !p.w.step(obs, &[ix_init_proof(v.payer, v.vi, &proof)]) {
        if p.w.alive {
            fail(p, obs, "the proof is not accepted for verification", String::new());
        }
        return None;
    }
    let total = prep + LOOP_TXS + FINAL_TXS;
    while done < total {
        others(p, obs);
        if !p.w.alive {
            return None;
        }
        if p.w.m.ver[&key].verdict.is_some() {
            let d = format!("after {} of {} transactions: {:?}", done, total, p.w.m.ver[&key].verdict);
            fail(p, obs, "verification ended early", d);
            return None;
        }
        if !compute(p, obs, &key) {
            return None;
        }
        done += 1;
    }
    obs.count("live_verification_transactions", total as u64);
    obs.max("live_most_transactions", total as u64);
    if p.w.m.ver[&key].verdict != Some(true) {
        let d = format!("verdict {:?} after the published {} transactions ({} of preparation)", p.w.m.ver[&key].verdict, total, prep);
        fail(p, obs, "not verified after the published number of transactions", d);
        return None;
    }
    others(p, obs);
    if !p.w.alive {
        return None;
    }
    if p.w.m.cq.len() >= QUEUE_CAP {
        p.drain(obs);
    }
    let tx = p.finalization(obs, &key)?;
    let (t, n) = (v.req.token, v.req.inputs.len());
    if !p.w.step(obs, &tx) {
        if p.w.alive && p.w.last_why.is_empty() {
            fail(p, obs, "finalization refused", String::new());
        } else {
            obs.inc(&format!("live_unfinished: {}", p.w.last_why));
        }
        return None;
    }
    if !p.w.alive {
        return None;
    }
    if p.w.m.ver.contains_key(&key) {
        fail(p, obs, "request remains after its finalization", String::new());
        return None;
    }
    obs.inc("live_sends");
    obs.nontrivial(&("live", t == 0, v.req.ata, v.req.solana_pay, v.req.amount == 0, n, prep, fee_first));
    Some(())
}
pub fn l01(run: &Run, plan: &Plan) -> (Obs, Vec<String>) {
    let (mut obs, mut errors) = histories(run, "L01", plan);
    let until = run.budget(plan.quick + 12, plan.thorough + 300);
    let (o, e) = run.parallel(8, |lane, obs| {
        let mut n = lane;
        while n < 48 || (run.left(until) && n < 100_000) {
            let mut o = Obs::default();
            let start = world("L01", plan, run.seed.wrapping_mul(7_919).wrapping_add(n), n, &mut o);
            let mut p = Play::new(start, run.seed ^ (n << 20) ^ 0x11fe, plan.cfg.clone());
            let turns = p.r.gen_range(0..120);
            for _ in 0..turns {
                if p.w.alive {
                    p.turn(&mut o);
                }
            }
            if p.w.alive {
                for t in 0..TOKENS {
                    set_price(&mut p.w.vm, t, default_price(t), true);
                }
                one(&mut p, &mut o);
            }
            if p.w.alive {
                p.w.deep(&mut o);
                // and the output arrives in the tree
                p.drain(&mut o);
                if p.w.alive && p.w.m.full() == Some(false) && (p.w.m.cq.len() as u32) >= 1 << p.w.m.rate {
                    o.inc("live_queue_left");
                }
            }
            o.eval();
            obs.merge(o);
            n += 8;
            if run.start.elapsed().as_secs() > 300 && !run.thorough || obs.violations.len() >= 3 {
                break;
            }
        }
    });
    obs.merge(o);
    errors.extend(e);
    (obs, errors)
}
