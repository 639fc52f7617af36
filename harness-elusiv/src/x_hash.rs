//! Step-wise hashing, called directly and inside of histories
use crate::checks::*;
use crate::env::*;
use crate::play::Cfg;
use crate::refm::*;
use ark_bn254::Fr;
use ark_ff::Zero;
use borsh::{BorshDeserialize, BorshSerialize};

use elusiv::commitment::poseidon_hash::*;
use elusiv::commitment::*;
use elusiv::processor::BaseCommitmentHashRequest;
use elusiv::state::commitment::*;
use elusiv::state::storage::StorageAccount;
use elusiv::types::RawU256;
use elusiv_types::{ParentAccount, ProgramAccount, SizedAccount};
use minivm::report::*;
use minivm::*;
use rand::{rngs::StdRng, Rng, SeedableRng};
use solana_program::account_info::AccountInfo;
use std::collections::HashMap;
use std::sync::Arc;

fn permutation(r: &mut StdRng, obs: &mut Obs) {
    let (a, b) = (edge(r), edge(r));
    let invert = r.gen_bool(0.5);
    let mut s = BinarySpongeHashingState::new(a, b, invert);
    let store = r.gen_bool(0.6);
    for round in 0..TOTAL_POSEIDON_ROUNDS {
        binary_poseidon_hash_partial(round, &mut s);
        if store && r.gen_bool(0.3) {
            // through the account
            let mut bytes = vec![];
            s.serialize(&mut bytes).unwrap();
            obs.ensure(bytes.len() == 96, "state size", || format!("{}", bytes.len()));
            for (i, v) in s.0.iter().enumerate() {
                obs.ensure(bytes[i * 32..i * 32 + 32] == mr(v), "state is stored differently", || format!("element {}", i));
            }
            match BinarySpongeHashingState::try_from_slice(&bytes) {
                Ok(x) => {
                    obs.ensure(x.0 == s.0, "stored state reads back differently", || format!("round {}", round));
                    s = x;
                }
                Err(e) => obs.violation("stored state cannot be read", &format!("{}", e)),
            }
        }
    }
    let want = if invert { poseidon2(b, a) } else { poseidon2(a, b) };
    obs.ensure(s.result() == want, "partial hash differs from Poseidon", || format!("{} {} inverted {}", a, b, invert));
    obs.ensure(full_poseidon2_hash(a, b) == poseidon2(a, b), "full hash differs from Poseidon", || format!("{} {}", a, b));
    obs.inc("permutations");
    obs.case(&("permutation", invert, store, a.is_zero(), b.is_zero()));
}
fn base(r: &mut StdRng, obs: &mut Obs) {
    let b = edge(r);
    let amount = match r.gen_range(0..4) { 0 => r.gen(), 1 => u64::MAX, 2 => 0, _ => 1 << r.gen_range(0..64) };
    let token = if r.gen() { r.gen_range(0..TOKENS) } else { r.gen() };
    let recent = match r.gen_range(0..3) { 0 => r.gen(), 1 => u32::MAX, _ => r.gen_range(0..1 << 20) };
    let mut d = vec![0u8; BaseCommitmentHashingAccount::SIZE];
    // left-overs of the previous use of the slot
    if r.gen() {
        for x in d[40..].iter_mut() {
            *x = r.gen();
        }
    }
    let mut fresh = d.clone();
    let req = BaseCommitmentHashRequest { base_commitment: RawU256::new(raw(&b)), recent_commitment_index: recent, amount, token_id: token, commitment: RawU256::new([9; 32]), fee_version: r.gen(), min_batching_rate: r.gen_range(0..5) };
    let meta: [u8; 17] = r.gen();
    let payer: [u8; 32] = r.gen();
    let want = commitment_of(b, amount, token, recent);
    let res = catch(|| {
        let run = |d: &mut Vec<u8>| -> Result<(Fr, bool), String> {
            BaseCommitmentHashingAccount::new(d).unwrap().setup(req.clone(), meta, payer).map_err(|e| format!("{:?}", e))?;
            for _ in 0..2 {
                compute_base_commitment_hash_partial(&mut BaseCommitmentHashingAccount::new(d).unwrap()).map_err(|e| format!("{:?}", e))?;
            }
            let before = d.clone();
            let extra = compute_base_commitment_hash_partial(&mut BaseCommitmentHashingAccount::new(d).unwrap()).is_err() && before == *d;
            Ok((BaseCommitmentHashingAccount::new(d).unwrap().get_state().result(), extra))
        };
        run(&mut fresh)
    });
    obs.inc("base_hashings");
    obs.case(&("base", amount == u64::MAX, token == u16::MAX, recent == u32::MAX, b.is_zero()));
    let what = || format!("base {} amount {} token {} recent {}", b, amount, token, recent);
    match res {
        Ok(Ok((h, extra))) => {
            obs.ensure(h == want, "commitment differs from the hash of its parts", what);
            obs.ensure(extra, "a step after the last one is not refused", what);
            let a = BaseCommitmentHashingAccount::new(&mut fresh).unwrap();
            obs.ensure(a.get_metadata() == meta && a.get_fee_payer() == payer && a.get_fee_version() == req.fee_version && a.get_min_batching_rate() == req.min_batching_rate, "the hashing account forgets its request", what);
        }
        Ok(Err(e)) => obs.violation("base commitment hashing fails", &format!("{} {}", what(), e)),
        Err(e) => obs.violation("base commitment hashing panics", &format!("{} {}", what(), e)),
    }
}
/// a batch at a position of the tree, then written to the tree
fn batch(r: &mut StdRng, obs: &mut Obs, vm: &Vm) {
    let rate = r.gen_range(0..5u32);
    let n = 1u32 << rate;
    let bits = r.gen_range(0..=20u32 - rate);
    let leaf = match r.gen_range(0..6) {
        0 => 0,
        1 => TREE_LEAVES - n,
        2 => (1 << 19) - n,
        // a single bit
        3 => (1u32 << r.gen_range(rate..20)) & !(n - 1),
        4 => (r.gen::<u32>() & ((1u64 << 20) as u32 - 1)) & !(n - 1),
        _ => ((r.gen::<u64>() & ((1 << bits) - 1)) as u32).min(TREE_LEAVES - 1) & !(n - 1),
    };
    let sib: Vec<Fr> = (0..20).map(|_| edge(r)).collect();
    let com: Vec<Fr> = (0..n).map(|_| edge(r)).collect();
    let mut d = vec![0u8; CommitmentHashingAccount::SIZE];
    let what = || format!("rate {} leaf {}", rate, leaf);
    // the same account has been used for another batch before
    let uses = r.gen_range(0..3);
    let res = catch(|| -> Result<(), String> {
        let e = |e: solana_program::program_error::ProgramError| format!("{:?}", e);
        for u in 0..=uses {
            let (rt, lf, sb, cm) = if u == uses { (rate, leaf, sib.clone(), com.clone()) } else { (r.gen_range(0..5), r.gen_range(0..1 << 20) & !15, (0..20).map(|_| edge(r)).collect(), vec![]) };
            let cm = if cm.is_empty() { (0..1 << rt).map(|_| edge(r)).collect() } else { cm };
            let mut a = CommitmentHashingAccount::new(&mut d).unwrap();
            a.setup(lf, &sb.iter().map(mr).collect::<Vec<_>>()).map_err(e)?;
            a.reset(rt, 3, &cm.iter().map(mr).collect::<Vec<_>>()).map_err(e)?;
            drop(a);
            for i in 0..HASH_IXS[rt as usize] {
                compute_commitment_hash_partial(&mut CommitmentHashingAccount::new(&mut d).unwrap()).map_err(|x| format!("step {} of {}: {:?}", i, HASH_IXS[rt as usize], x))?;
            }
            let before = d.clone();
            if compute_commitment_hash_partial(&mut CommitmentHashingAccount::new(&mut d).unwrap()).is_ok() || before != d {
                return Err("a step after the last one is not refused".into());
            }
            CommitmentHashingAccount::new(&mut d).unwrap().set_is_active(&false);
            if u < uses {
                obs.inc("batches_before");
            }
        }
        Ok(())
    });
    obs.inc("batches");
    obs.case(&("batch", rate, leaf.leading_zeros(), leaf.count_ones()));
    match res {
        Ok(Ok(())) => {}
        Ok(Err(e)) | Err(e) => {
            obs.violation("batch hashing fails", &format!("{} {}", what(), e));
            return;
        }
    }
    // the expected nodes: (level from the leaves, index) -> value
    let mut want: HashMap<(u32, usize), Fr> = HashMap::new();
    let mut level = com;
    for l in 0..=rate {
        for (i, v) in level.iter().enumerate() {
            want.insert((l, (leaf >> l) as usize + i), *v);
        }
        if l < rate {
            level = level.chunks(2).map(|c| poseidon2(c[0], c[1])).collect();
        }
    }
    let mut h = level[0];
    for l in rate..20 {
        h = if leaf >> l & 1 == 1 { poseidon2(sib[l as usize], h) } else { poseidon2(h, sib[l as usize]) };
        want.insert((l + 1, (leaf >> (l + 1)) as usize), h);
    }
    // into the tree
    let touched = path_children(leaf, n);
    let mut c = vm.clone();
    let owner = pid();
    let mut kids: Vec<Vec<u8>> = touched.iter().map(|i| (*vm.data(&k().storage_children[*i])).clone()).collect();
    let mut lam = vec![1u64; kids.len()];
    let mut main = (*vm.data(&k().storage)).clone();
    let res = {
        let infos: Vec<AccountInfo> = kids.iter_mut().zip(lam.iter_mut()).zip(touched.iter()).map(|((x, l), i)| AccountInfo::new(&k().storage_children[*i], false, true, l, &mut x[..], &owner, false, 0)).collect();
        catch(|| {
            let at: Vec<Option<&AccountInfo>> = (0..25).map(|i| touched.iter().position(|t| *t == i).map(|p| &infos[p])).collect();
            let mut st = StorageAccount::new_with_child_accounts(&mut main, at).unwrap();
            st.set_next_commitment_ptr(&leaf);
            let count = st.get_mt_roots_count();
            let a = CommitmentHashingAccount::new(&mut d).unwrap();
            for i in 0..=rate {
                a.update_mt(&mut st, i);
            }
            (st.get_next_commitment_ptr(), st.get_mt_roots_count().wrapping_sub(count), st.get_root().ok())
        })
    };
    match res {
        Err(e) => obs.violation("a hashed batch cannot be written", &format!("{} {}", what(), e)),
        Ok((ptr, roots, root)) => {
            obs.ensure(ptr == leaf + n, "pointer after the batch", || format!("{} -> {}", what(), ptr));
            obs.ensure(roots == 1, "roots recorded for the batch", || format!("{} -> {}", what(), roots));
            obs.ensure(root == Some(mr(&h)), "root after the batch", || what());
            for (t, x) in touched.iter().zip(kids) {
                c.accounts.get_mut(&k().storage_children[*t]).unwrap().data = Arc::new(x);
            }
            for ((l, i), v) in &want {
                let got = crate::view::stored_node(&c, HEIGHT - *l as usize, *i);
                obs.ensure(got == mr(v), "stored node differs from the hash", || format!("{}: level {} index {}", what(), l, i));
                obs.inc("stored_nodes");
            }
            // nothing else was written
            let mut changed = 0;
            for t in &touched {
                let (a, b) = (vm.data(&k().storage_children[*t]), c.data(&k().storage_children[*t]));
                changed += a.chunks(4096).zip(b.chunks(4096)).filter(|(x, y)| x != y).map(|(x, y)| x.iter().zip(y).filter(|(p, q)| p != q).count()).sum::<usize>();
            }
            obs.ensure(changed <= want.len() * 32, "nodes outside of the path are written", || format!("{}: {} bytes", what(), changed));
        }
    }
}
pub fn h01(run: &Run) -> (Obs, Vec<String>) {
    let budget = run.budget(22, 600);
    let plan = Plan { cfg: Cfg { mutate: 0.5, deposit: 30, base: 60, mt: 40, start: 2, send: 6, misc: 2, ..Cfg::default() }, aged_every: 3, turns: 600, ..Plan::default() };
    run.parallel(8, |lane, obs| {
        let mut n = 0u64;
        let mut vm = None;
        while n < 40 || run.left(budget) {
            let seed = run.seed.wrapping_mul(1_000_033).wrapping_add(lane + 8 * n);
            let mut r = StdRng::seed_from_u64(seed);
            if lane < 4 {
                if n >= 3 && !run.left(budget) {
                    break;
                }
                history("H01", &plan, seed, lane + 4 * n, obs);
            } else {
                for _ in 0..10 {
                    permutation(&mut r, obs);
                    base(&mut r, obs);
                }
                batch(&mut r, obs, vm.get_or_insert_with(|| base_vm(0, 0)));
                obs.eval();
            }
            n += 1;
            if !obs.violations.is_empty() || (run.start.elapsed().as_secs() > 240 && !run.thorough) {
                break;
            }
        }
    })
}
