//! Queues and duplicate buffers, called directly, against a plain list; and inside of histories
use crate::checks::*;
use crate::engine::*;
use crate::env::*;
use crate::play::*;
use crate::refm::*;
use elusiv::buffer::RingBuffer;
use elusiv::processor::CommitmentHashRequest;
use elusiv::state::commitment::*;
use elusiv::state::metadata::*;
use elusiv::state::queue::{Queue, RingQueue};
use elusiv_types::{ProgramAccount, SizedAccount};
use minivm::report::*;
use minivm::*;
use rand::{rngs::StdRng, Rng, SeedableRng};
use std::collections::{BTreeSet, VecDeque};

const SIZE: usize = 240;
const CAP: usize = SIZE - 1;
const BUF: usize = 128;

/// Err: refused or aborted
fn call<T, E>(f: impl FnOnce() -> Result<T, E>) -> Option<T> {
    match catch(f) {
        Ok(Ok(x)) => Some(x),
        _ => None,
    }
}
fn commitment(n: u64) -> [u8; 32] {
    // values that share their beginning or their end
    let mut b = [0u8; 32];
    b[..8].copy_from_slice(&n.to_le_bytes());
    b[31] = (n % 7) as u8 & 0x1f;
    b
}
fn request(n: u64, rate: u32, fee: u32) -> CommitmentHashRequest {
    CommitmentHashRequest { commitment: commitment(n), fee_version: fee, min_batching_rate: rate }
}
/// one operation on the real queue and on the list
fn queue_op<N: PartialEq + Clone, Q: RingQueue<N = N>>(r: &mut StdRng, q: &mut Q, l: &mut VecDeque<N>, make: &mut dyn FnMut(&mut StdRng) -> N, obs: &mut Obs) -> Result<(), String> {
    let full = l.len() >= CAP;
    let head = q.get_head();
    let class = (l.is_empty(), full, l.len() == 1, l.len() + 1 == CAP, q.get_tail() < head, head as usize == SIZE - 1, q.get_tail() as usize == SIZE - 1);
    let op = r.gen_range(0..10);
    obs.inc("queue_operations");
    obs.case(&("queue", op, class));
    match op {
        0..=2 => {
            let v = make(r);
            let ok = call(|| q.enqueue(v.clone())).is_some();
            if ok {
                obs.inc("ok enqueue");
            } else {
                obs.inc("refused enqueue");
            }
            if ok == full {
                return Err(format!("enqueue with {} elements: accepted {}", l.len(), ok));
            }
            if ok {
                l.push_back(v);
            }
        }
        3 => {
            let got = call(|| q.dequeue_first());
            if got != l.pop_front() {
                return Err(format!("the removed element is not the first one ({} elements left)", l.len()));
            }
        }
        4 => {
            let n = match r.gen_range(0..6) {
                0 => l.len(),
                1 => l.len() + 1,
                2 => r.gen_range(0..2 * SIZE),
                3 => 1 << r.gen_range(0..5),
                4 if r.gen_bool(0.1) => u32::MAX as usize - r.gen_range(0..300),
                _ => r.gen_range(0..=l.len()),
            };
            let ok = call(|| q.remove(n as u32)).is_some();
            if ok != (n <= l.len()) {
                return Err(format!("removal of {} out of {}: accepted {}", n, l.len(), ok));
            }
            if ok {
                obs.inc("ok remove");
                l.drain(..n);
            }
        }
        5 => {
            let got = call(|| q.view_first());
            if got.as_ref() != l.front() {
                return Err("the first element differs".into());
            }
        }
        6 | 7 => {
            let n = if r.gen_bool(0.2) { l.len() } else { r.gen_range(0..SIZE + 4) };
            let got = call(|| q.view(n));
            if got.as_ref() != l.get(n) {
                return Err(format!("element {} of {} differs", n, l.len()));
            }
        }
        8 => {
            let v = if r.gen_bool(0.5) && !l.is_empty() { l[[0, l.len() - 1, r.gen_range(0..l.len())][r.gen_range(0..3)]].clone() } else { make(r) };
            if catch(|| q.contains(&v)).ok() != Some(l.contains(&v)) {
                return Err(format!("contains: {}", !l.contains(&v)));
            }
        }
        _ => {
            if catch(|| (q.len() as usize, q.is_empty(), q.empty_slots() as usize)).ok() != Some((l.len(), l.is_empty(), CAP - l.len())) {
                return Err(format!("length: {} instead of {}", q.len(), l.len()));
            }
        }
    }
    Ok(())
}
fn all<N: PartialEq + Clone, Q: RingQueue<N = N>>(q: &Q, l: &VecDeque<N>) -> Result<(), String> {
    if q.len() as usize != l.len() {
        return Err(format!("{} elements instead of {}", q.len(), l.len()));
    }
    for (i, x) in l.iter().enumerate() {
        if call(|| q.view(i)).as_ref() != Some(x) {
            return Err(format!("element {} of {} differs", i, l.len()));
        }
    }
    if call(|| q.view(l.len())).is_some() {
        return Err("an element behind the last one is visible".into());
    }
    Ok(())
}
/// what a batch has to be
fn batch(l: &VecDeque<CommitmentHashRequest>) -> Option<(usize, u32)> {
    let (mut rate, mut n) = (0, 0);
    loop {
        let x = l.get(n)?;
        if x.fee_version != l[0].fee_version {
            return None;
        }
        rate = rate.max(x.min_batching_rate);
        n += 1;
        if n >= 1 << rate {
            return Some((n, rate));
        }
    }
}
pub fn commitment_queue(seed: u64, ops: usize, obs: &mut Obs) {
    let mut r = StdRng::seed_from_u64(seed);
    let mut data = vec![0; CommitmentQueueAccount::SIZE];
    let mut a = CommitmentQueueAccount::new(&mut data).unwrap();
    let mut q = CommitmentQueue::new(&mut a);
    let mut l = VecDeque::new();
    let mut n = seed << 20;
    // a quarter of the histories begin anywhere in the ring
    let at = (seed % SIZE as u64) as u32;
    if seed % 4 == 1 {
        q.set_head(&at);
        q.set_tail(&at);
    }
    let same_fee = r.gen_bool(0.7);
    let rates: u32 = r.gen_range(0..5);
    let fill = r.gen_range(0..3);
    let mut make = |r: &mut StdRng| {
        n += 1 + r.gen_range(0..2) * 256;
        request(n, r.gen_range(0..=rates), if same_fee || r.gen_bool(0.9) { 3 } else { 4 })
    };
    if fill == 1 {
        for _ in 0..CAP {
            let v = make(&mut r);
            if call(|| q.enqueue(v)).is_none() {
                return obs.violation("commitment queue", "cannot be filled");
            }
            l.push_back(v);
        }
    }
    for op in 0..ops {
        let mut res = queue_op(&mut r, &mut q, &mut l, &mut make, obs);
        if res.is_ok() && r.gen_bool(0.25) {
            let got = call(|| q.next_batch());
            let want = batch(&l);
            obs.inc("batches_asked_for");
            obs.case(&("batch", want, q.get_tail() < q.get_head()));
            let got = got.map(|(v, rate)| (v, rate));
            let want_v = want.map(|(k, rate)| (l.iter().take(k).copied().collect::<Vec<_>>(), rate));
            if got != want_v {
                res = Err(format!("next batch is {:?} instead of {:?}", got.map(|g| (g.0.len(), g.1)), want));
            } else if want.is_some() && r.gen_bool(0.3) {
                let k = want.unwrap().0;
                obs.inc("batches_taken");
                if call(|| q.remove(k as u32)).is_none() {
                    res = Err("a batch cannot be taken".into());
                }
                l.drain(..k);
            }
        }
        if res.is_ok() && (op % 16 == 0 || op + 1 == ops) {
            res = all(&q, &l);
        }
        if let Err(e) = res {
            return obs.violation("commitment queue", &format!("{} (seed {}, operation {}, head {}, tail {})", e, seed, op, q.get_head(), q.get_tail()));
        }
    }
    obs.inc("queue_histories");
    obs.eval();
}
pub fn metadata_queue(seed: u64, ops: usize, obs: &mut Obs) {
    let mut r = StdRng::seed_from_u64(seed);
    let mut data = vec![0; MetadataQueueAccount::SIZE];
    let mut a = MetadataQueueAccount::new(&mut data).unwrap();
    let mut q = MetadataQueue::new(&mut a);
    let mut l = VecDeque::new();
    let at = (seed % SIZE as u64) as u32;
    if seed % 4 == 1 {
        q.set_head(&at);
        q.set_tail(&at);
    }
    let mut n = 0u64;
    let mut make = |r: &mut StdRng| {
        n += 1;
        let mut m = [0u8; 17];
        m[r.gen_range(0..10)..][..4].copy_from_slice(&(n as u32).to_le_bytes());
        m
    };
    for op in 0..ops {
        let mut res = queue_op(&mut r, &mut q, &mut l, &mut make, obs);
        if res.is_ok() && op % 16 == 0 {
            res = all(&q, &l);
        }
        if let Err(e) = res {
            return obs.violation("metadata queue", &format!("{} (seed {}, operation {}, head {}, tail {})", e, seed, op, q.get_head(), q.get_tail()));
        }
    }
    obs.inc("queue_histories");
    obs.eval();
}
/// every position of the head with every length: exact content, exact borders
pub fn positions(heads: std::ops::Range<usize>, obs: &mut Obs) {
    for head in heads {
        let mut data = vec![0; MetadataQueueAccount::SIZE];
        let mut a = MetadataQueueAccount::new(&mut data).unwrap();
        let mut q = MetadataQueue::new(&mut a);
        q.set_head(&(head as u32));
        q.set_tail(&(head as u32));
        let mut l: VecDeque<[u8; 17]> = VecDeque::new();
        let mut res = Ok(());
        for n in 0..CAP {
            let mut m = [0u8; 17];
            m[..8].copy_from_slice(&((head * 1000 + n) as u64).to_le_bytes());
            if call(|| q.enqueue(m)).is_none() || q.len() as usize != n + 1 || call(|| q.view(n)) != Some(m) || call(|| q.view(n + 1)).is_some() {
                res = Err(format!("element {} cannot be added", n));
                break;
            }
            l.push_back(m);
        }
        if res.is_ok() && call(|| q.enqueue([1; 17])).is_some() {
            res = Err("one element too many".into());
        }
        let mut k = 1 + head % 17;
        while res.is_ok() && !l.is_empty() {
            res = all(&q, &l);
            obs.inc("queue_positions");
            obs.case(&("position", head, l.len()));
            k = k % 31 + 1;
            let n = k.min(l.len());
            if call(|| q.remove(n as u32)).is_none() {
                res = Err(format!("removal of {} out of {}", n, l.len()));
            }
            l.drain(..n);
        }
        if res.is_ok() && (call(|| q.view_first()).is_some() || call(|| q.dequeue_first()).is_some() || !q.is_empty()) {
            res = Err("an empty queue has a first element".into());
        }
        if let Err(e) = res {
            return obs.violation("queue positions", &format!("{} (queue began at {}, head {}, tail {})", e, head, q.get_head(), q.get_tail()));
        }
    }
}
fn buffer_value(r: &mut StdRng, n: &mut u64) -> [u8; 32] {
    *n += 1;
    let mut b = [0u8; 32];
    match r.gen_range(0..6) {
        0 => b[..8].copy_from_slice(&n.to_le_bytes()),
        1 => b[24..].copy_from_slice(&n.to_be_bytes()),
        2 => b[12..20].copy_from_slice(&n.to_be_bytes()),
        3 => {
            b = [0xff; 32];
            b[31] = *n as u8;
            b[30] = (*n >> 8) as u8;
        }
        4 => {
            // the same content in different places: a window that begins in the middle of an element must not match
            b[16] = *n as u8;
            b[17] = (*n >> 8) as u8;
            b[0] = 1;
        }
        _ => {
            r.fill(&mut b);
        }
    }
    b
}
fn near(r: &mut StdRng, v: &[u8; 32]) -> [u8; 32] {
    let mut b = *v;
    let i = [0, 1, 15, 16, 30, 31, r.gen_range(0..32)][r.gen_range(0..7)];
    b[i] ^= 1 << r.gen_range(0..8);
    b
}
fn buffer<'a, B: RingBuffer<'a, [u8; 32]>>(b: &mut B, seed: u64, ops: usize, obs: &mut Obs) -> Result<(), String> {
    let mut r = StdRng::seed_from_u64(seed);
    if B::CAPACITY != BUF {
        return Err(format!("the buffer has a length of {}", B::CAPACITY));
    }
    // the last values, oldest first
    let mut l: VecDeque<[u8; 32]> = VecDeque::new();
    let mut past: Vec<[u8; 32]> = vec![[0; 32]];
    let mut n = 0;
    let only_insert = r.gen_bool(0.5);
    for op in 0..ops {
        let fresh = l.len() < BUF;
        let v = match r.gen_range(0..8) {
            0 if !l.is_empty() => l[[0, l.len() - 1, r.gen_range(0..l.len())][r.gen_range(0..3)]],
            1 => past[past.len() - 1 - r.gen_range(0..past.len().min(BUF + 3))],
            2 if !l.is_empty() => {
                let x = l[r.gen_range(0..l.len())];
                near(&mut r, &x)
            }
            _ => buffer_value(&mut r, &mut n),
        };
        let held = l.contains(&v);
        let kind = r.gen_range(0..8);
        obs.inc("buffer_operations");
        obs.case(&("buffer", kind, held, fresh, l.front() == Some(&v), past.contains(&v), v == [0; 32]));
        match kind {
            0..=3 => {
                let ok = call(|| b.try_insert(&v)).is_some();
                if ok == held {
                    return Err(format!("insertion of a value that is {}held (the {} last values are held): accepted {}", if held { "" } else { "not " }, l.len(), ok));
                }
                obs.inc(if ok { "ok try_insert" } else { "refused try_insert" });
                if ok {
                    l.push_back(v);
                    past.push(v);
                }
            }
            4 if !only_insert => {
                if catch(|| b.push(&v)).is_err() {
                    return Err("push aborted".into());
                }
                l.push_back(v);
                past.push(v);
            }
            5 => {
                let p = catch(|| b.find_position(&v)).map_err(|_| "find_position aborted".to_string())?;
                if p.is_some() != held || p.is_some_and(|p| p >= l.len()) {
                    return Err(format!("position of a value that is {}held: {:?}", if held { "" } else { "not " }, p));
                }
                if let Some(p) = p {
                    // positions in the ring are stable: the next value to be overwritten lies at the pointer
                    let oldest = if l.len() < BUF { 0 } else { b.ptr() };
                    if l[(p + BUF - oldest) % BUF] != v {
                        return Err(format!("the value is not at position {}", p));
                    }
                }
            }
            _ => {
                if catch(|| b.contains(&v)).ok() != Some(held) {
                    return Err(format!("a value that is {}held", if held { "not " } else { "" }));
                }
            }
        }
        if l.len() > BUF {
            l.pop_front();
        }
        if b.len() != l.len() {
            return Err(format!("{} values instead of {}", b.len(), l.len()));
        }
        if op % 64 == 63 || op + 1 == ops {
            for x in &l {
                if !catch(|| b.contains(x)).unwrap_or(false) {
                    return Err("one of the last values is missing".into());
                }
            }
            let set: BTreeSet<_> = l.iter().collect();
            for x in past.iter().rev().take(2 * BUF) {
                if !set.contains(x) && catch(|| b.contains(x)).unwrap_or(true) {
                    return Err("an old value is still held".into());
                }
            }
        }
    }
    obs.inc("buffer_histories");
    obs.eval();
    Ok(())
}
/// histories in a world whose queues and buffers are (nearly) full and begin anywhere in their rings
pub fn flooded_history(plan: &Plan, seed: u64, obs: &mut Obs) {
    let mut r = StdRng::seed_from_u64(seed);
    let mut start = warm("C02", (seed % 5) as u32, 0, obs);
    if !start.alive {
        return;
    }
    let (vm, m) = (&mut start.vm, &mut start.m);
    let kk = k();
    let n = [CAP, CAP - 1, CAP - 5, CAP - 20][r.gen_range(0..4)] - m.cq.len();
    let (mut qd, mut md) = ((*vm.data(&kk.cq)).clone(), (*vm.data(&kk.mq)).clone());
    {
        let mut a = CommitmentQueueAccount::new(&mut qd).unwrap();
        let mut q = CommitmentQueue::new(&mut a);
        let mut b = MetadataQueueAccount::new(&mut md).unwrap();
        let mut mq = MetadataQueue::new(&mut b);
        if m.cq.is_empty() {
            let at: u32 = r.gen_range(0..SIZE as u32);
            for (h, t) in [(&at, &at)] {
                q.set_head(h);
                q.set_tail(t);
                mq.set_head(h);
                mq.set_tail(t);
            }
        }
        for _ in 0..n {
            let c = mr(&fr(&mut r));
            let meta = rmeta(&mut r);
            let (v, rate) = (m.fee_version, m.rate);
            let req = CommitmentHashRequest { commitment: c, fee_version: v, min_batching_rate: rate };
            if call(|| q.enqueue(req)).is_none() || call(|| mq.enqueue(meta)).is_none() {
                return obs.violation("commitment queue", "cannot be filled");
            }
            m.cq.push_back((c, v, rate));
            m.mq.push_back(meta);
            std::sync::Arc::make_mut(&mut m.leaves_expected).push((c, meta));
        }
    }
    *vm.data_mut(&kk.cq) = qd;
    *vm.data_mut(&kk.mq) = md;
    // both buffers
    let nb = [BUF, BUF - 1, BUF + 3, 100][r.gen_range(0..4)];
    let (mut x, mut y) = ((*vm.data(&kk.bbuf)).clone(), (*vm.data(&kk.cbuf)).clone());
    {
        let mut a = BaseCommitmentBufferAccount::new(&mut x).unwrap();
        let mut b = CommitmentBufferAccount::new(&mut y).unwrap();
        while m.bbuf.len() < nb.min(BUF) || r.gen_bool(0.9) {
            let v = raw(&fr(&mut r));
            a.push(&v);
            m.bbuf.push_back(v);
            if m.bbuf.len() > BUF {
                m.bbuf.pop_front();
            }
        }
        while m.cbuf.len() < nb.min(BUF) || r.gen_bool(0.9) {
            let v = mr(&fr(&mut r));
            b.push(&v);
            m.cbuf.push_back(Some(v));
            if m.cbuf.len() > BUF {
                m.cbuf.pop_front();
            }
        }
    }
    *vm.data_mut(&kk.bbuf) = x;
    *vm.data_mut(&kk.cbuf) = y;
    vm.accounts.get_mut(&kk.pool).unwrap().lamports += 1 << 40;
    let mut p = Play::new(World::new("C02", start.vm, start.m), seed, Cfg { start: 16, send: 20, evil_send: 0.6, ..plan.cfg.clone() });
    for turn in 0..400 {
        if !p.w.alive {
            return;
        }
        // first the queues run full, then they are emptied
        p.cfg.mt = [0, 40, 8][(turn / 70) % 3];
        p.turn(obs);
    }
    complete(&mut p, obs);
    p.w.deep(obs);
    obs.inc("flooded_histories");
    obs.eval();
}
pub fn c02(run: &Run) -> (Obs, Vec<String>) {
    let plan = Plan {
        cfg: Cfg { mutate: 0.1, deposit: 60, base: 70, mt: 25, start: 4, send: 12, price: 1, misc: 2, evil_deposit: 0.3, reuse: 0.3, ..Cfg::default() },
        aged_every: 5,
        turns: 700,
        min_worlds: 40,
        ..Plan::default()
    };
    let budget = run.budget(24, 600);
    run.parallel(8, |lane, obs| {
        let per = SIZE / 8;
        positions(lane as usize * per..(lane as usize + 1) * per, obs);
        let mut n = lane;
        let mut own = 0u64;
        while own < 30 || n < plan.min_worlds || (run.left(budget) && own < 1_000_000) {
            for i in 0..4 {
                let seed = run.seed.wrapping_mul(7_000_003).wrapping_add((own * 4 + i) * 8 + lane);
                commitment_queue(seed, 500, obs);
                metadata_queue(seed, 300, obs);
                let mut data = vec![0; BaseCommitmentBufferAccount::SIZE];
                let mut b = BaseCommitmentBufferAccount::new(&mut data).unwrap();
                if let Err(e) = buffer(&mut b, seed, 500, obs) {
                    obs.violation("base commitment buffer", &format!("{} (seed {})", e, seed));
                }
                let mut data = vec![0; CommitmentBufferAccount::SIZE];
                let mut b = CommitmentBufferAccount::new(&mut data).unwrap();
                if let Err(e) = buffer(&mut b, seed ^ 1 << 60, 500, obs) {
                    obs.violation("commitment buffer", &format!("{} (seed {})", e, seed));
                }
            }
            own += 1;
            if own % 5 == 0 {
                flooded_history(&plan, run.seed.wrapping_mul(3_000_017).wrapping_add(own / 5 * 8 + lane), obs);
            }
            if n < plan.min_worlds || own % 8 == 0 {
                history("C02", &plan, run.seed.wrapping_mul(1_000_003).wrapping_add(n), n, obs);
                n += 8;
            }
            if obs.violations.len() >= 3 {
                break;
            }
        }
    })
}
