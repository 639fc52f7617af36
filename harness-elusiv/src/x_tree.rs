//! Every instruction of the tree at every stage of an insertion
use crate::checks::*;
use crate::engine::World;
use crate::env::*;
use crate::play::*;
use crate::refm::HASH_IXS;
use minivm::report::*;
use rand::{seq::SliceRandom, Rng};
use solana_program::instruction::Instruction;

fn candidates(p: &Play) -> Vec<(&'static str, Vec<Instruction>)> {
    let m = &p.w.m;
    let ptr = m.ptr.min(TREE_LEAVES - 1);
    let ch = path_children(ptr, 1 << m.rate);
    let fch = path_children(m.mth.ordering.min(TREE_LEAVES - 1), 1 << m.mth.rate.max(m.rate).min(4));
    let meta: Vec<usize> = (0..16).filter(|i| *i == (ptr / 65_536) as usize || *i == ((ptr + 15) / 65_536) as usize).collect();
    let t = m.trees_count;
    let fv = m.mth.fee_version;
    let setup = |f| ix_mt_setup(f, &ch);
    let init = |f| ix_mt_init(f, &meta);
    let fin = ix_mt_finalize(&fch);
    let one = |n: u32| ix_mt_compute(payer(0), fv, n);
    let mut v = vec![
        ("setup", vec![setup(false)]), ("setup, may fail", vec![setup(true)]),
        ("init", vec![init(false)]), ("init, may fail", vec![init(true)]),
        ("setup and init", vec![setup(false), init(false)]), ("both may fail", vec![setup(true), init(true)]),
        ("init and setup", vec![init(true), setup(true)]),
        ("compute", vec![one(1)]), ("compute twice", vec![one(1), one(2)]),
        ("finalize", vec![fin.clone()]), ("finalize twice", vec![fin.clone(), fin.clone()]),
        ("compute and finalize", vec![one(1), fin.clone()]), ("finalize and compute", vec![fin.clone(), one(1)]),
        ("finalize and setup", vec![fin.clone(), setup(false)]),
        ("reset", vec![ix_reset_tree(t, &[0, 24])]), ("reset of the next", vec![ix_reset_tree(t + 1, &[0, 24])]),
        ("reset twice", vec![ix_reset_tree(t, &[0, 24]), ix_reset_tree(t + 1, &[0, 24])]),
        ("finalize and reset", vec![fin.clone(), ix_reset_tree(t, &[0, 24])]),
        ("reset and setup", vec![ix_reset_tree(t, &[0, 24]), ix_mt_setup(false, &(0..25).collect::<Vec<_>>())]),
        ("setup and reset", vec![setup(false), ix_reset_tree(t, &[0, 24])]),
    ];
    if t > 0 {
        v.push(("reset of the last", vec![ix_reset_tree(t - 1, &[0, 24])]));
    }
    let all: Vec<Instruction> = (0..=m.mth.rate).map(|_| fin.clone()).collect();
    let mut more = all.clone();
    more.push(fin);
    v.push(("all finalizations and one more", more));
    let mut then = all;
    then.push(ix_reset_tree(t, &[0, 24]));
    v.push(("all finalizations and reset", then));
    v
}
fn probe(p: &mut Play, obs: &mut Obs, stage: &'static str) -> Option<()> {
    if !p.w.alive {
        return None;
    }
    for (what, tx) in candidates(p) {
        let ok = fork(p, obs, &tx, true)?;
        obs.inc("staged_tree_instructions");
        if ok {
            obs.inc("staged_tree_instructions_accepted");
        }
        obs.nontrivial(&("tree stage", stage, what, ok));
    }
    Some(())
}
fn start(prop: &'static str, n: u64, obs: &mut Obs) -> World {
    let rate = (n / 6 % 5) as u32;
    match n % 6 {
        0 => warm(prop, rate, rate, obs),
        1 if rate % 2 == 1 => later_tree(prop, rate.min(2), rate.min(2), LATER[(n / 6) as usize % LATER.len()], obs),
        1 => second_tree(prop, rate.min(2), rate.min(2), obs),
        // one or two batches short of the end
        i => aged(prop, rate, rate, TREE_LEAVES - (if i == 2 && rate == 1 { 2 } else { 1 } << rate), obs),
    }
}
fn one(prop: &'static str, seed: u64, n: u64, obs: &mut Obs) -> Option<()> {
    let from = start(prop, n, obs);
    let mut p = Play::new(from, seed, Cfg { mutate: 0.0, ..Cfg::default() });
    let rate = p.w.m.rate;
    let rounds = if rate < 3 { 3 } else { 2 };
    for _ in 0..rounds {
        if p.w.m.full() == Some(true) && !p.w.m.mth.active {
            probe(&mut p, obs, "full")?;
            let t = p.w.m.trees_count;
            if !p.w.m.nulls.contains_key(&t) || !p.w.step(obs, &[ix_reset_tree(t, &[0, 24])]) {
                break;
            }
            obs.inc("staged_resets");
            probe(&mut p, obs, "reset")?;
        }
        // deposits up to a batch
        let want = 1usize << rate;
        let stop = p.r.gen_range(0..want);
        while p.w.alive && p.w.m.cq.len() < want {
            if p.w.m.cq.len() == stop || p.w.m.cq.len() + 1 == want {
                probe(&mut p, obs, "partial batch")?;
            }
            let tx = p.tx_deposit(obs)?;
            if p.w.step(obs, &tx) {
                p.finish_bases(obs);
            }
        }
        probe(&mut p, obs, "batch")?;
        if p.w.m.full() == Some(true) {
            continue;
        }
        let ptr = p.w.m.ptr;
        let ch = path_children(ptr.min(TREE_LEAVES - 1), 1);
        let meta: Vec<usize> = (0..16).filter(|i| *i == (ptr / 65_536) as usize || *i == ((ptr + 15) / 65_536) as usize).collect();
        if !p.w.m.mth.setup {
            if !p.w.step(obs, &[ix_mt_setup(false, &ch)]) {
                break;
            }
            probe(&mut p, obs, "set up")?;
        }
        if !p.w.step(obs, &[ix_mt_init(false, &meta)]) {
            break;
        }
        let total = HASH_IXS[p.w.m.mth.rate as usize] as u32;
        let at = [0, 1, total / 2, total - 1, total, p.r.gen_range(0..total)];
        while p.w.alive && p.w.m.mth.instr < total {
            if at.contains(&p.w.m.mth.instr) {
                probe(&mut p, obs, "hashing")?;
            }
            let i = p.w.m.mth.instr;
            let who = *[payer(0), payer(1), user(0)].choose(&mut p.r).unwrap();
            let fv = p.w.m.mth.fee_version;
            if !p.w.step(obs, &[ix_mt_compute(who, fv, i)]) {
                return None;
            }
        }
        let fch = path_children(p.w.m.mth.ordering, 1 << p.w.m.mth.rate);
        while p.w.alive && p.w.m.mth.active {
            probe(&mut p, obs, "writing")?;
            if !p.w.step(obs, &[ix_mt_finalize(&fch)]) {
                return None;
            }
        }
        probe(&mut p, obs, "inserted")?;
        obs.inc("staged_batches");
    }
    p.w.deep(obs);
    Some(())
}
/// runs insertions with every instruction tried at every stage
pub fn stages(run: &Run, prop: &'static str, quick: u64, thorough: u64) -> (Obs, Vec<String>) {
    let until = run.budget(quick, thorough);
    run.parallel(8, |lane, obs| {
        let mut n = lane;
        while n < 30 || (run.left(until) && n < 100_000) {
            let mut o = Obs::default();
            one(prop, run.seed.wrapping_mul(5_501).wrapping_add(n), n, &mut o);
            o.eval();
            obs.merge(o);
            n += 8;
            if obs.violations.len() >= 3 || run.start.elapsed().as_secs() > 300 && !run.thorough {
                break;
            }
        }
    })
}
