//! The nullifier set against a reference ordered set
use crate::env::*;
use elusiv::bytes::*;
use crate::refm::*;
use crate::spec::*;
use crate::view;
use ark_bn254::Fr;
use ark_ff::{Field, UniformRand};
use elusiv::map::*;
use elusiv::state::nullifier::*;
use elusiv::types::OrdU256;
use elusiv_types::{ParentAccount, ProgramAccount};
use minivm::report::*;
use minivm::*;
use rand::{rngs::StdRng, seq::SliceRandom, Rng, SeedableRng};
use solana_program::account_info::AccountInfo;
use std::collections::{BTreeSet, HashMap};
use std::sync::{Arc, Mutex, OnceLock};

/// the order in which values arrive
fn order(r: &mut StdRng, kind: usize, n: usize) -> Vec<u64> {
    let mut v: Vec<u64> = (1..=n as u64).map(|i| i * 16).collect();
    match kind {
        0 => {}
        1 => v.reverse(),
        2 => v.shuffle(r),
        3 => {
            // from both ends
            let mut o = vec![];
            let (mut a, mut b) = (0, n);
            while a < b {
                o.push(v[a]);
                a += 1;
                if a < b {
                    b -= 1;
                    o.push(v[b]);
                }
            }
            v = o;
        }
        4 => {
            // from the middle outwards
            let m = n / 2;
            let mut o = vec![v[m]];
            for d in 1..=n {
                if m >= d {
                    o.push(v[m - d]);
                }
                if m + d < n {
                    o.push(v[m + d]);
                }
            }
            v = o;
        }
        5 => {
            // blocks
            let mut o: Vec<u64> = vec![];
            for c in v.chunks(7) {
                let mut c = c.to_vec();
                if r.gen() {
                    c.reverse();
                }
                if r.gen() { o.extend(c) } else { o.splice(0..0, c); }
            }
            v = o;
        }
        _ => {
            // all but a dense middle part first
            v.sort_by_key(|x| (x % 48 != 0, *x));
        }
    }
    v
}
const SPREAD: [u32; 4] = [0, 64, 128, 192];
/// values whose order is decided in one particular limb
fn key(v: u64, limb: usize, noise: u64, shift: u32) -> [u64; 4] {
    let v = v << shift;
    let mut o = [0u64; 4];
    // o is big endian
    o[limb] = v;
    for (i, x) in o.iter_mut().enumerate().skip(limb + 1) {
        *x = noise.wrapping_mul(v | 1).rotate_left(i as u32 * 7);
    }
    let _ = SPREAD;
    o
}
macro_rules! small {
    ($cap:literal, $r:expr, $obs:expr) => {{
        const C: usize = $cap;
        let (r, obs): (&mut StdRng, &mut Obs) = ($r, $obs);
        let mut buf = vec![0u8; ElusivSet::<OrdU256, C>::SIZE];
        let mut set: BTreeSet<[u64; 4]> = BTreeSet::new();
        let limb = r.gen_range(0..4);
        let noise: u64 = if r.gen() { 0 } else { r.gen() };
        // values that only differ in the upper bits of the limb
        let shift: u32 = *[0, 0, 8, 24, 32, 32, 45].choose(r).unwrap();
        let kind = r.gen_range(0..7);
        let total = C + r.gen_range(0..=C);
        let mut vals = order(r, kind, total);
        // duplicates in between
        for _ in 0..total / 4 {
            let x = *vals.choose(r).unwrap();
            vals.insert(r.gen_range(0..=vals.len()), x);
        }
        obs.case(&("set", C, kind, limb, shift, total));
        for (n, v) in vals.iter().enumerate() {
            let kv = key(*v, limb, noise, shift);
            let o = OrdU256(of(&kv));
            let res = {
                let mut m = ElusivSet::<OrdU256, C>::new(&mut buf);
                catch(|| m.try_insert_default(o))
            };
            let Ok(res) = res else {
                obs.violation("panic during an insertion", format!("capacity {} step {} kind {}: {}", C, n, kind, res.err().unwrap()));
                return;
            };
            obs.inc("insertions");
            let full = set.len() == C;
            let want: Result<Option<[u64; 4]>, ()> = if set.contains(&kv) {
                Err(())
            } else if full && kv > *set.iter().next_back().unwrap() {
                Ok(Some(kv))
            } else if full {
                let mx = *set.iter().next_back().unwrap();
                set.remove(&mx);
                set.insert(kv);
                Ok(Some(mx))
            } else {
                set.insert(kv);
                Ok(None)
            };
            let got: Result<Option<[u64; 4]>, ()> = match res {
                Ok(x) => Ok(x.map(|x| ord(&x.0 .0))),
                Err(_) => Err(()),
            };
            if got != want {
                obs.violation(
                    if want.is_err() { "duplicate accepted" } else if got.is_err() { "fresh value refused" } else { "wrong displaced value" },
                    format!("capacity {} insertion {} of order {}: {:?}, expected {:?} (value {:?})", C, n, kind, got, want, kv),
                );
                return;
            }
            // members and neighbours
            let mut m = ElusivSet::<OrdU256, C>::new(&mut buf);
            let all = n % 16 == 15 || n + 1 == vals.len();
            let probes: Vec<u64> = if all { vals.clone() } else { (0..3).map(|_| *vals.choose(r).unwrap()).collect() };
            for p in probes {
                for q in [p, p + 1, p - 1] {
                    let kq = key(q, limb, noise, shift);
                    let c = catch(|| m.contains(&OrdU256(of(&kq))).is_some());
                    obs.inc("membership_queries");
                    if c.as_ref().ok() != Some(&set.contains(&kq)) {
                        obs.violation(if set.contains(&kq) { "inserted value is invisible" } else { "absent value is reported" }, format!("capacity {} after {} insertions of order {}: value {:?} -> {:?}", C, n + 1, kind, kq, c));
                        return;
                    }
                }
            }
            if all {
                let (mn, mx) = (ord(&m.min().0), ord(&m.max().0));
                if Some(&mn) != set.iter().next() || Some(&mx) != set.iter().next_back() || m.is_full() != (set.len() == C) {
                    obs.violation("minimum or maximum", format!("capacity {} after {} insertions of order {}: {:?} {:?}", C, n + 1, kind, mn, mx));
                    return;
                }
            }
        }
    }};
}
/// sets of small capacities: the search structure is used in all its parts
pub fn small_sets(r: &mut StdRng, obs: &mut Obs) {
    match r.gen_range(0..14) {
        0 => small!(1, r, obs),
        1 => small!(2, r, obs),
        2 => small!(3, r, obs),
        3 => small!(8, r, obs),
        4 => small!(15, r, obs),
        5 => small!(16, r, obs),
        6 => small!(17, r, obs),
        7 => small!(31, r, obs),
        8 => small!(32, r, obs),
        9 => small!(33, r, obs),
        10 => small!(100, r, obs),
        11 => small!(256, r, obs),
        12 => small!(500, r, obs),
        _ => small!(1024, r, obs),
    }
}

/// calls the program's nullifier account with its real segments
pub fn with_account<R>(vm: &mut Vm, t: u32, f: impl FnOnce(&mut NullifierAccount) -> R) -> Result<R, String> {
    let owner = pid();
    let mut datas: Vec<Vec<u8>> = vec![];
    for i in 0..16 {
        let a = vm.accounts.get_mut(&null_child(t, i)).unwrap();
        datas.push(Arc::try_unwrap(std::mem::take(&mut a.data)).unwrap_or_else(|a| (*a).clone()));
    }
    let mut lam = vec![1u64; 16];
    let keys: Vec<_> = (0..16).map(|i| null_child(t, i)).collect();
    let mut main = (*vm.data(&null_key(t))).clone();
    let res = {
        let infos: Vec<AccountInfo> = datas.iter_mut().zip(lam.iter_mut()).zip(keys.iter()).map(|((d, l), k)| AccountInfo::new(k, false, true, l, &mut d[..], &owner, false, 0)).collect();
        catch(|| {
            let mut a = NullifierAccount::new_with_child_accounts(&mut main, infos.iter().map(Some).collect()).unwrap();
            f(&mut a)
        })
    };
    for (i, d) in datas.into_iter().enumerate() {
        vm.accounts.get_mut(&null_child(t, i)).unwrap().data = Arc::new(d);
    }
    *vm.data_mut(&null_key(t)) = main;
    res
}
type Crowd = (Vec<Arc<Vec<u8>>>, Arc<Vec<u8>>, Arc<BTreeSet<[u64; 4]>>);
/// segments that hold n evenly distributed values, inserted by the program itself in ascending order
pub fn crowded(n: usize) -> Crowd {
    static C: OnceLock<Mutex<HashMap<usize, Crowd>>> = OnceLock::new();
    let c = C.get_or_init(Default::default);
    if let Some(x) = c.lock().unwrap_or_else(|e| e.into_inner()).get(&n) {
        return x.clone();
    }
    let mut vm = base_vm(0, 0);
    let mut set = BTreeSet::new();
    let r = with_account(&mut vm, 0, |a| {
        for i in 0..n {
            let v = spread(i + 1, n + 1);
            a.try_insert_nullifier_hash(of(&v)).map_err(|e| format!("{:?} at {}", e, i))?;
            set.insert(v);
        }
        Ok::<(), String>(())
    });
    // a failure shows up as a difference later
    if let Ok(Err(e)) | Err(e) = r {
        set.insert([0, 0, 0, 1]);
        eprintln!("crowd {}: {}", n, e);
    }
    let x = ((0..16).map(|i| vm.data(&null_child(0, i))).collect(), vm.data(&null_key(0)), Arc::new(set));
    c.lock().unwrap_or_else(|e| e.into_inner()).insert(n, x.clone());
    x
}
/// the tree's nullifier set already holds n values
pub fn crowd(vm: &mut Vm, m: &mut Model, t: u32, n: usize) {
    let (kids, main, set) = crowded(n);
    for (i, d) in kids.into_iter().enumerate() {
        vm.accounts.get_mut(&null_child(t, i)).unwrap().data = d;
    }
    // the account's identity stays
    let mut src = (*main).clone();
    let s = NullifierAccount::new(&mut src).unwrap();
    let (count, maxs): (u32, Vec<_>) = (s.get_nullifier_hash_count(), (0..16).map(|i| s.get_max_values(i)).collect());
    let d = vm.data_mut(&null_key(t));
    let mut a = NullifierAccount::new(d).unwrap();
    a.set_nullifier_hash_count(&count);
    for (i, x) in maxs.iter().enumerate() {
        a.set_max_values(i, x);
    }
    m.nulls.get_mut(&t).unwrap().set = set;
}

/// the whole account around full segments
pub fn account(seed: u64, start: usize, ops: usize, obs: &mut Obs) {
    let mut r = StdRng::seed_from_u64(seed);
    let mut vm = base_vm(0, 0);
    let mut m = Model::after_setup(&default_fee(), 3, 0);
    crowd(&mut vm, &mut m, 0, start);
    let mut set = m.nulls[&0].set.as_ref().clone();
    let mut recent: Vec<[u64; 4]> = vec![];
    obs.case(&("account", start, seed));
    obs.inc("account_histories");
    let mut bad: Option<(&'static str, String)> = None;
    let res = with_account(&mut vm, 0, |a| {
        let mut pending = 0usize;
        for op in 0..ops {
            let full = set.len() / 65_536;
            // a value: random, close to a segment's border, smallest, largest, known
            let v: [u64; 4] = match r.gen_range(0..10) {
                0 => *recent.choose(&mut r).unwrap_or(&spread(1, start + 1)),
                1 if start > 0 => spread(r.gen_range(1..=start), start + 1),
                2 | 3 => {
                    // around the maximum of a segment
                    let s = r.gen_range(0..(set.len() / 65_536 + 2).min(16));
                    match a.get_max_values(s).option() {
                        Some(x) => {
                            let mut o = ord(&x);
                            o[3] = o[3].wrapping_add(r.gen_range(0..3)).wrapping_sub(1);
                            o
                        }
                        None => [r.gen::<u64>() >> 2, r.gen(), r.gen(), r.gen()],
                    }
                }
                4 => [0, 0, 0, r.gen_range(0..64)],
                5 => [0x3000_0000_0000_0000 + r.gen_range(0..1 << 40), r.gen(), 1, 1],
                _ => ord(&mr(&Fr::rand(&mut r))),
            };
            obs.inc("account_operations");
            let known = set.contains(&v);
            let full_set = set.len() >= 1 << 20;
            match a.can_insert_nullifier_hash(of(&v)) {
                Ok(c) if !full_set && c == !known => {}
                Err(_) if full_set => {}
                x => {
                    bad = Some((if known { "inserted nullifier is invisible" } else { "absent nullifier is reported" }, format!("{} values, operation {}: {:?} -> {:?}", set.len(), op, v, x)));
                    return;
                }
            }
            if pending >= 4 && full > 0 || r.gen_bool(0.15) {
                // the displaced values
                let mut n = 0;
                while !a.is_moved_nullifier_empty() {
                    n += 1;
                    if let Err(e) = a.move_nullifier_hashes_to_next_account() {
                        bad = Some(("displaced values cannot be moved", format!("{} values: {:?}", set.len(), e)));
                        return;
                    }
                    if n > 16 {
                        bad = Some(("displaced values are never placed", format!("{} values", set.len())));
                        return;
                    }
                }
                obs.max("moves_in_a_row", n);
                obs.count("moves", n);
                pending = 0;
            }
            let res = a.try_insert_nullifier_hash(of(&v));
            let ok = !known && !full_set;
            if res.is_ok() != ok {
                bad = Some((if res.is_ok() { "duplicate accepted" } else { "fresh nullifier refused" }, format!("{} values, operation {}: {:?} -> {:?}", set.len(), op, v, res)));
                return;
            }
            if ok {
                obs.inc("account_insertions");
                pending += 1;
                set.insert(v);
                recent.push(v);
                if a.get_nullifier_hash_count() as usize != set.len() {
                    bad = Some(("number of nullifiers", format!("{} instead of {}", a.get_nullifier_hash_count(), set.len())));
                    return;
                }
            }
            // everything inserted lately stays visible, also while it is moved
            if let Some(x) = recent.choose(&mut r) {
                if set.len() < 1 << 20 && a.can_insert_nullifier_hash(of(x)) != Ok(false) {
                    bad = Some(("inserted nullifier is invisible", format!("{} values, operation {}: {:?}", set.len(), op, x)));
                    return;
                }
            }
            let x = spread(r.gen_range(1..=start.max(1)), start + 1);
            if set.contains(&x) && set.len() < 1 << 20 && a.can_insert_nullifier_hash(of(&x)) != Ok(false) {
                bad = Some(("inserted nullifier is invisible", format!("{} values, operation {}: {:?}", set.len(), op, x)));
                return;
            }
        }
        while !a.is_moved_nullifier_empty() {
            if a.move_nullifier_hashes_to_next_account().is_err() {
                bad = Some(("displaced values cannot be moved", format!("{} values", set.len())));
                return;
            }
        }
        // at the end: everything that was inserted in this history
        for x in &recent {
            if set.len() < 1 << 20 && a.can_insert_nullifier_hash(of(x)) != Ok(false) {
                bad = Some(("inserted nullifier is invisible", format!("{} values, at the end: {:?}", set.len(), x)));
                return;
            }
        }
    });
    if let Err(e) = res {
        obs.violation("panic of the nullifier set", format!("{} values: {}", set.len(), e));
        return;
    }
    if let Some((s, d)) = bad {
        obs.violation(s, d);
        return;
    }
    // the segments are ordered and complete
    let n = Nulls { set: Arc::new(set), ..m.nulls[&0].clone() };
    let mut sum = 0;
    let mut last: Option<[u64; 4]> = None;
    for i in 0..16 {
        match view::map_values(&vm.data(&null_child(0, i))) {
            Some(v) => {
                sum += v.len();
                for x in v {
                    if last.map(|l| l >= x).unwrap_or(false) {
                        obs.violation("order of the segments", format!("segment {}", i));
                        return;
                    }
                    last = Some(x);
                }
            }
            None => {
                obs.violation("links of a segment", format!("segment {}", i));
                return;
            }
        }
    }
    if sum != n.set.len() {
        obs.violation("values are lost", format!("{} stored, {} inserted", sum, n.set.len()));
    }
}

pub fn n02(run: &Run) -> (Obs, Vec<String>) {
    let budget = run.budget(25, 900);
    let _ = Fr::from(1u64).inverse();
    let seg = 65_536;
    let starts = [0usize, seg - 3, seg, seg + 5, 2 * seg - 2, 2 * seg, 3 * seg + 1, 16, seg / 2, seg - 1, 4 * seg - 4];
    // the last values of the last segment
    let far = [16 * seg - 6, 15 * seg + 3];
    run.parallel(8, |lane, obs| {
        let mut n = 0u64;
        while n < if lane < 4 || lane == 7 { 4 } else { 30 } || run.left(budget) {
            let seed = run.seed.wrapping_mul(7919).wrapping_add(lane + 8 * n);
            let mut r = StdRng::seed_from_u64(seed);
            if lane < 3 || lane == 7 {
                let far_too = lane == 7 && n < 2;
                let start = if far_too { far[n as usize % 2] } else { starts[((lane + n * 3) % starts.len() as u64) as usize] };
                account(seed, start, if start < seg { 600 } else { 400 }, obs);
            } else if lane == 3 || lane == 4 && n % 4 == 3 {
                // full flows of sends
                crate::checks::crowded_history("N02", seed, obs);
            } else {
                small_sets(&mut r, obs);
                obs.inc("set_histories");
            }
            n += 1;
            if !obs.violations.is_empty() {
                break;
            }
            if run.start.elapsed().as_secs() > 240 && !run.thorough {
                break;
            }
        }
    })
}
