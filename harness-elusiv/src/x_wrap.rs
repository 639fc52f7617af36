//! O01: the deployed arithmetic (wrapping) against checked arithmetic.
//! The same histories are executed by two builds of the whole harness (and so of /repo): one as deployed, one that panics on overflow.
use crate::checks::*;
use crate::engine::*;
use crate::env::*;
use crate::flow::*;
use crate::groth;
use crate::play::*;
use crate::refm::*;
use minivm::report::*;
use minivm::trace::{self, Traces};
use rand::{rngs::StdRng, Rng, SeedableRng};
use solana_program::instruction::Instruction;
use std::sync::Mutex;

/// integers at which arithmetic goes wrong
pub fn extreme(r: &mut StdRng) -> u64 {
    let m = [0u64, 1, 2, u64::MAX, u64::MAX - 1, u64::MAX / 2, u64::MAX / 2 + 1, u32::MAX as u64, u32::MAX as u64 + 1, i64::MAX as u64, 10_000, u64::MAX / 10_000, u64::MAX / 25 + 1, u64::MAX / 62 + 1];
    match r.gen_range(0..5) {
        0 => m[r.gen_range(0..m.len())],
        1 => (1u64 << r.gen_range(0..64)).wrapping_sub(r.gen_range(0..3)),
        2 => (u64::MAX / r.gen_range(1u64..200)).wrapping_add(r.gen_range(0..3)),
        3 => u64::MAX - r.gen_range(0u64..2_000_000),
        _ => r.gen::<u64>() >> r.gen_range(0..64),
    }
}
/// overwrites one integer of the instruction
fn twist(r: &mut StdRng, ix: &mut Instruction) {
    if ix.program_id != pid() || ix.data.len() < 2 {
        return;
    }
    let width = [1usize, 2, 4, 8][r.gen_range(0..4)];
    if ix.data.len() < 1 + width {
        return;
    }
    // the interesting integers are near the ends of most layouts
    let at = if r.gen_bool(0.5) { 1 + r.gen_range(0..(ix.data.len() - width).min(24)) } else { r.gen_range(1..=ix.data.len() - width) };
    let at = at.min(ix.data.len() - width);
    let mut old = [0u8; 8];
    old[..width].copy_from_slice(&ix.data[at..at + width]);
    let old = u64::from_le_bytes(old);
    let v = match r.gen_range(0..4) {
        0 => old.wrapping_add(1),
        1 => old.wrapping_sub(1),
        2 => u64::MAX.wrapping_sub(old),
        _ => extreme(r),
    };
    ix.data[at..at + width].copy_from_slice(&v.to_le_bytes()[..width]);
}

struct Wild<'a> {
    f: Flow,
    r: StdRng,
    fee: u32,
    twist: f64,
    obs: &'a mut Obs,
}
impl Wild<'_> {
    /// executes the transaction, sometimes a distorted one first
    fn go(&mut self, tx: &[Instruction]) -> bool {
        if self.r.gen_bool(self.twist) {
            let mut t = tx.to_vec();
            let i = self.r.gen_range(0..t.len());
            twist(&mut self.r, &mut t[i]);
            let ok = self.f.tx(&t).is_ok();
            self.obs.inc(if ok { "distorted_transactions_accepted" } else { "distorted_transactions_refused" });
            if ok {
                return true;
            }
        }
        let ok = self.f.tx(tx).is_ok();
        if ok {
            for i in tx.iter().filter(|i| i.program_id == pid()).take(1) {
                self.obs.inc(&format!("extreme: ok {}", ix_name(i.data[0])));
            }
        }
        ok
    }
    fn any_u64(&mut self, usual: u64) -> u64 {
        if self.r.gen_bool(0.5) { usual } else { extreme(&mut self.r) }
    }
    fn any_u32(&mut self, usual: u32) -> u32 {
        if self.r.gen_bool(0.7) { usual } else { [u32::MAX, u32::MAX - 1, 1 << 31, 0, 1, 65_536, TREE_LEAVES, TREE_LEAVES - 1, extreme(&mut self.r) as u32][self.r.gen_range(0..9)] }
    }
    fn token(&mut self) -> u16 {
        if self.r.gen_bool(0.4) { 0 } else { self.r.gen_range(0..TOKENS) }
    }
    fn fee_change(&mut self) -> bool {
        let mut fee = fee_schedule(self.r.gen_range(0..5));
        let many = self.r.gen_range(1..4);
        for _ in 0..many {
            let v = extreme(&mut self.r);
            // a schedule that is just representable shows the limits of everything computed from it
            let v = if self.r.gen_bool(0.3) { v >> self.r.gen_range(0..40) } else { v };
            *[&mut fee.lamports_per_tx, &mut fee.base_network_bp, &mut fee.proof_network_bp, &mut fee.base_subvention, &mut fee.proof_subvention, &mut fee.hash_reward, &mut fee.proof_reward][self.r.gen_range(0..7)] = v;
        }
        // the only schedule there is gets set up once: as if it had been this one
        let before = self.f.vm.get(&fee_key(0));
        let governor = self.f.vm.get(&k().governor);
        self.f.vm.accounts.remove(&fee_key(0));
        if self.f.tx(&[ix_fee_version(payer(0), 0, &fee)]).is_ok() {
            self.obs.inc("extreme_fee_schedules_accepted");
            true
        } else {
            self.obs.inc("extreme_fee_schedules_refused");
            self.f.vm.set(fee_key(0), before);
            self.f.vm.set(k().governor, governor);
            false
        }
    }
    fn price_change(&mut self) {
        let t = self.r.gen_range(0..TOKENS);
        let p = default_price(t);
        if self.r.gen_bool(0.3) {
            set_price(&mut self.f.vm, t, p, true);
            return;
        }
        let p = P {
            price: if self.r.gen_bool(0.3) { p.price } else { extreme(&mut self.r) as i64 },
            conf: if self.r.gen_bool(0.6) { p.conf } else { extreme(&mut self.r) },
            expo: if self.r.gen_bool(0.3) { p.expo } else { self.r.gen_range(-40..41) },
        };
        set_price(&mut self.f.vm, t, p, true);
        self.obs.inc("extreme_prices");
    }
    fn amount(&mut self, t: u16) -> u64 {
        let usual = self.r.gen_range(tok(t).min..=tok(t).max.min(1 << 40).max(tok(t).min + 1));
        match self.r.gen_range(0..6) {
            0 => extreme(&mut self.r),
            1 => tok(t).max,
            2 => tok(t).min,
            _ => usual,
        }
    }
    fn deposit(&mut self) {
        let t = self.token();
        let amount = self.amount(t);
        let index = self.any_u32(0);
        let mut q = self.f.base_req(t, 1);
        let usual = q.recent;
        q.recent = self.any_u32(usual);
        q.amount = amount;
        q.commitment = raw(&commitment_of(from_raw(&q.base).unwrap(), amount, t, q.recent));
        q.fee_version = self.fee;
        let u = self.r.gen_range(0..USERS);
        if !self.go(&[ix_store(user(u), payer(0), index, &q, &[7; 17])]) {
            return;
        }
        self.go(&[ix_base_compute(index), ix_base_compute(index)]);
        let v = self.any_u32(self.fee);
        if self.go(&[ix_base_finalize(payer(0), index, v)]) || self.go(&[ix_base_finalize(payer(0), index, self.fee)]) {
            self.f.queue.push(from_raw(&q.commitment).unwrap());
            self.obs.inc("extreme_deposits");
        }
    }
    fn batch(&mut self) {
        let rate = self.f.rate;
        if self.f.queue.len() < 1 << rate {
            return;
        }
        let p = self.f.tree.len;
        let children = path_children(p as u32, 1);
        let metas = self.f.meta_children();
        if !self.go(&[ix_mt_setup(false, &children)]) || !self.go(&[ix_mt_init(false, &metas)]) {
            return;
        }
        for i in 0..HASH_IXS[rate as usize] {
            let v = self.any_u32(self.fee);
            let n = self.any_u32(i as u32);
            if !self.go(&[ix_mt_compute(payer(0), v, n)]) {
                self.f.tx(&[ix_mt_compute(payer(0), self.fee, n)]).ok();
            }
        }
        let ch = path_children(p as u32, 1 << rate);
        for _ in 0..=rate {
            self.go(&[ix_mt_finalize(&ch)]);
        }
        let leaves: Vec<Fr> = self.f.queue.drain(..1 << rate).collect();
        self.f.tree.push_batch(&leaves);
        self.obs.inc("extreme_batches");
    }
    fn send(&mut self) {
        let t = self.token();
        let to = if t == 0 { user(2) } else { ata(&user(2), t) };
        let n = self.r.gen_range(1..=4);
        let generous = if t == 0 { 50_000_000 } else { tok(t).max / 4 };
        let (mut q, x) = self.f.request(t, 1, 1, n, to);
        q.fee_version = self.fee;
        q.amount = self.amount(t);
        q.fee = if self.r.gen_bool(0.6) { generous } else { extreme(&mut self.r) };
        if self.r.gen_bool(0.3) {
            // amount and fee that add up to something small only by wrapping
            let small = self.r.gen_range(0..100_000_000u64);
            q.amount = extreme(&mut self.r) | 1 << 63;
            q.fee = small.wrapping_sub(q.amount);
        }
        if self.r.gen_bool(0.4) {
            q.opt_amount = if self.r.gen_bool(0.5) { q.amount.wrapping_sub(self.r.gen_range(0..3)) } else { extreme(&mut self.r) };
        }
        let usual = q.recent;
        q.recent = self.any_u32(usual);
        q.hashed = hashed_inputs(&q, &x);
        let vi = if self.r.gen_bool(0.6) { self.r.gen_range(0..3) } else { 255 - self.r.gen_range(0..2) };
        let p = payer(self.r.gen_range(0..PAYERS));
        let trees = if self.r.gen_bool(0.7) { [self.f.trees, self.f.trees + 1] } else { [self.any_u32(0), self.any_u32(1)] };
        let skip = self.r.gen_bool(0.3);
        if !self.go(&[ix_init_verification(p, vi, 0, trees, &q, skip, x.identifier, &[&[0], &[]])]) {
            return;
        }
        self.obs.inc("extreme_requests");
        if !self.go(&[ix_transfer_fee(p, vi, q.token)]) {
            return;
        }
        self.obs.inc("extreme_fees_paid");
        // (a request whose total wraps has no statement to prove)
        let proof = if q.signals().is_some() { groth::prove(1, &q) } else { vec![1; 256] };
        self.go(&[ix_init_proof(p, vi, &proof)]);
        let steps = self.r.gen_range(0..3);
        for _ in 0..steps {
            let mut tx = vec![ix_budget(), ix_budget()];
            tx.extend((0..5).map(|_| ix_compute(p, vi, 0)));
            self.go(&tx);
        }
        let me = (0..PAYERS).find(|i| payer(*i) == p).unwrap();
        self.f.verdict(me, vi, self.r.gen_bool(0.95));
        let mut d = self.f.fin_data(&q);
        if self.r.gen_bool(0.4) {
            match self.r.gen_range(0..3) {
                0 => d.total = self.any_u64(d.total),
                1 => d.mt_index = self.any_u32(d.mt_index),
                _ => d.commitment_index = self.any_u32(d.commitment_index),
            }
        }
        for honest in [false, true] {
            if honest {
                d = self.f.fin_data(&q);
            }
            let mut tx = vec![ix_fin_send(p, vi, &x, &d)];
            for _ in 0..n {
                tx.push(ix_fin_null(p, vi, self.f.trees, &[0]));
            }
            tx.push(self.f.payout(me, vi, &q, &x));
            if self.go(&tx) {
                self.f.queue.push(from_raw(&q.out).unwrap());
                self.obs.inc("extreme_sends");
                return;
            }
        }
    }
    fn setup(&mut self) {
        let i = self.any_u32(2);
        let child = key_n("some child", i as u64);
        let tx = match self.r.gen_range(0..7) {
            0 => ix_open_nullifier(payer(0), i),
            1 => ix_enable_storage(i, child),
            2 => ix_enable_nullifier(self.any_u32(0), i, child),
            3 => ix_enable_metadata(i, child),
            4 => ix_reset_tree(i, &[0]),
            5 => ix_vkey_set(groth::vkey_authority(), 0, i, &[5; 64], &[vkey_child(0, 0)]),
            _ => ix_create_vkey(payer(0), i, self.any_u32(14), None),
        };
        self.go(&[tx]);
    }
}
/// fee schedules, prices, amounts, indices and times at the limits of their types
fn wild(seed: u64, steps: usize, obs: &mut Obs) {
    let mut r = StdRng::seed_from_u64(seed ^ 0x0417_ab1e);
    let rate = (seed % 5) as u32;
    let mut f = Flow::new(rate, (seed / 5 % 5) as u32);
    // an old tree and an almost exhausted nullifier account are not needed for the arithmetic: the pointers are what is computed with
    if r.gen_bool(0.3) {
        f.vm.clock.unix_timestamp = [i64::MAX, i64::MIN, 0, -1, u32::MAX as i64][r.gen_range(0..5)];
        f.vm.clock.slot = [u64::MAX, 0, 1][r.gen_range(0..3)];
    }
    let twist = [0.0, 0.1, 0.5][r.gen_range(0..3)];
    let mut g = Wild { f, r, fee: 0, twist, obs };
    let start = g.r.gen_bool(0.7);
    if start {
        for _ in 0..40 {
            if g.fee_change() {
                break;
            }
        }
    }
    for _ in 0..steps {
        match g.r.gen_range(0..20) {
            0..=2 => g.price_change(),
            3..=8 => g.deposit(),
            9..=11 => g.batch(),
            12..=18 => g.send(),
            _ => g.setup(),
        }
    }
    obs.inc("extreme_histories");
    obs.eval();
}
fn ordinary(seed: u64, n: u64, obs: &mut Obs) {
    let cfg = Cfg { mutate: 0.3, evil_deposit: 0.3, evil_send: 0.3, evil_final: 0.3, price: 6, fee_edge: 0.3, indices: 10, misc: 4, real: 0.01, ..Cfg::default() };
    let plan = Plan { cfg, turns: 250, aged_every: 5, crowded: 0, ..Plan::default() };
    let mut o = Obs::default();
    history("O01", &plan, seed, n, &mut o);
    // what the model says about these histories is not the subject here
    o.violations.clear();
    obs.count("ordinary: accepted", o.counters.get("accepted").copied().unwrap_or(0));
    obs.inc("ordinary_histories");
    obs.eval();
}
const ORDINARY: u64 = 1 << 40;
fn play(seed: u64, id: u64, obs: &mut Obs) {
    let n = id & (ORDINARY - 1);
    let s = seed.wrapping_mul(1_000_003).wrapping_add(n);
    if id & ORDINARY != 0 { ordinary(s, n, obs) } else { wild(s, 60, obs) }
}
type Kept = Option<(Vec<Instruction>, String)>;
fn recorded(seed: u64, id: u64, keep: Option<usize>, obs: &mut Obs) -> (Vec<trace::Rec>, Kept, Option<String>) {
    trace::start(keep);
    let e = minivm::catch(|| play(seed, id, obs)).err();
    let t = trace::stop();
    (t.0, t.1, e.map(|e| format!("history {:x}: {}", id, e)))
}
/// the records, and the histories in which the harness itself failed
fn block(run: &Run, ids: &[u64]) -> (Traces, Obs, Vec<String>, Failed) {
    let all: Mutex<(Traces, Failed)> = Mutex::default();
    let (o, e) = run.parallel(ids.len() as u64, |i, obs| {
        let id = ids[i as usize];
        let t = recorded(run.seed, id, None, obs);
        let mut a = all.lock().unwrap();
        a.0.insert(id, t.0);
        if let Some(e) = t.2 {
            a.1.insert(id, e);
        }
    });
    let (t, f) = all.into_inner().unwrap();
    (t, o, e, f)
}
type Failed = std::collections::BTreeMap<u64, String>;
fn ids(from: u64, quick: bool) -> Vec<u64> {
    let (a, b) = if quick { (40, 400) } else { (80, 800) };
    (from * a..(from + 1) * a).map(|i| i | ORDINARY).chain(from * b..(from + 1) * b).collect()
}
/// the child process: executes one block and writes what happened
pub fn child(run: &Run, n: u64, quick: bool, out: &str) -> i32 {
    let (t, _, e, f) = block(run, &ids(n, quick));
    for e in e.iter().chain(f.values()) {
        eprintln!("{}", e);
    }
    if !e.is_empty() || trace::write(out, &t).is_err() {
        return 3;
    }
    0
}
pub fn o01(run: &Run, verif: &str) -> (Obs, Vec<String>) {
    let mut obs = Obs::default();
    let mut errors = vec![];
    let exe = format!("{}/target/checked/harness-elusiv", verif);
    let dir = format!("{}/target/o01-{}", verif, std::process::id());
    if let Err(e) = std::fs::create_dir_all(&dir) {
        return (obs, vec![format!("{}: {}", dir, e)]);
    }
    let budget = run.budget(1, 900);
    let quick = !run.thorough;
    let mut n = 0;
    while n < 1 || (run.left(budget) && obs.violations.is_empty() && n < 10_000) {
        let file = format!("{}/block", dir);
        let spawned = std::process::Command::new(&exe).args(["O01TRACE", &n.to_string(), if quick { "1" } else { "0" }, &file]).env("VERIF_SEED", run.seed.to_string()).stdout(std::process::Stdio::null()).spawn();
        let mut ch = match spawned {
            Ok(c) => c,
            Err(e) => {
                errors.push(format!("{}: {}", exe, e));
                break;
            }
        };
        let (mine, o, e, failed) = block(run, &ids(n, quick));
        obs.merge(o);
        errors.extend(e);
        let status = ch.wait();
        let theirs = match (status.map(|s| s.success()), trace::read(&file)) {
            (Ok(true), Some(t)) => t,
            _ => {
                errors.push("the checked build gave no trace".into());
                break;
            }
        };
        network(run, verif, n, quick, &dir, &mut obs, &mut errors);
        judge(run.seed, &mine, &theirs, &failed, &mut obs, &mut errors);
        n += 1;
        obs.inc("blocks");
    }
    std::fs::remove_file(format!("{}/block", dir)).ok();
    std::fs::remove_dir(&dir).ok();
    (obs, errors)
}
/// the same for the warden network program, whose histories its own harness runs
fn network(run: &Run, verif: &str, n: u64, quick: bool, dir: &str, obs: &mut Obs, errors: &mut Vec<String>) {
    let exe = |profile: &str| {
        let mut c = std::process::Command::new(format!("{}/target/{}/harness-warden", verif, profile));
        c.env("VERIF_SEED", run.seed.to_string());
        c
    };
    let mut traces = vec![];
    for p in ["release", "checked"] {
        let file = format!("{}/{}", dir, p);
        let ok = exe(p).args(["O01TRACE", &n.to_string(), if quick { "1" } else { "0" }, &file]).stdout(std::process::Stdio::null()).status().map(|s| s.success()).unwrap_or(false);
        match (ok, trace::read(&file)) {
            (true, Some(t)) => traces.push(t),
            _ => {
                errors.push(format!("no trace of the warden network ({})", p));
                return;
            }
        }
        std::fs::remove_file(&file).ok();
    }
    for (id, a) in &traces[0] {
        let empty = vec![];
        let b = traces[1].get(id).unwrap_or(&empty);
        obs.count("compared_network_transactions", a.len() as u64);
        obs.count("compared_network_accepted", a.iter().filter(|r| r.accepted).count() as u64);
        for r in a {
            obs.nontrivial(&(r.effect, r.accepted, 1));
        }
        let (at, what) = match verdict(trace::compare(a, b)) {
            Ok(None) => continue,
            Ok(Some(v)) => v,
            Err(i) => {
                errors.push(format!("warden network history {}: the two builds executed different transactions from {} on", id, i));
                continue;
            }
        };
        let text = exe("release").args(["O01SHOW", &id.to_string(), &at.to_string()]).output().map(|o| String::from_utf8_lossy(&o.stdout).into_owned()).unwrap_or_default();
        obs.violation(format!("warden network: {}", what), format!("history {} transaction {}: wrapping build {:?}, checked build {:?}\n{}", id, at, a[at], b.get(at), text));
    }
}
fn verdict(d: trace::Diff) -> Result<Option<(usize, &'static str)>, usize> {
    Ok(Some(match d {
        trace::Diff::Same => return Ok(None),
        trace::Diff::Foreign(i) => return Err(i),
        trace::Diff::Refused(i) => (i, "accepted only because arithmetic wraps"),
        trace::Diff::Accepted(i) => (i, "refused only because arithmetic wraps"),
        trace::Diff::Effect(i) => (i, "different effect because arithmetic wraps"),
        trace::Diff::Residue(i) => (i, "a rejected transaction left something behind"),
    }))
}
fn judge(seed: u64, mine: &Traces, theirs: &Traces, failed: &Failed, obs: &mut Obs, errors: &mut Vec<String>) {
    for (id, a) in mine {
        let empty = vec![];
        let b = theirs.get(id).unwrap_or(&empty);
        for r in a {
            obs.inc("compared_transactions");
            if r.accepted {
                obs.inc("compared_accepted");
            }
            if r.panicked {
                obs.inc("aborted_in_both");
            }
            obs.nontrivial(&(r.effect, r.accepted));
        }
        let (at, what) = match verdict(trace::compare(a, b)) {
            Ok(None) => {
                // (a failure after the builds went apart is a consequence of it)
                errors.extend(failed.get(id).cloned());
                continue;
            }
            Ok(Some(v)) => v,
            Err(i) => {
                errors.push(format!("history {:x}: the two builds executed different transactions from {} on", id, i));
                continue;
            }
        };
        let mut o = Obs::default();
        let (_, kept, _) = recorded(seed, *id, Some(at), &mut o);
        let (ixs, res) = kept.unwrap_or_default();
        obs.violation(format!("{} ({})", what, ixs.iter().find(|i| i.program_id == pid()).map(|i| ix_name(i.data[0])).unwrap_or("?")),
            format!("history {:x} transaction {}: wrapping build {:?} [{}], checked build {:?}\n  {}{}", id, at, a[at], res, b.get(at), describe(&ixs), hex_dump(&ixs)));
    }
}
