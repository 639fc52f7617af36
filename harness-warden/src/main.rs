mod layout;
mod play;
mod spec;
mod world;

use layout::*;
use minivm::report::{Obs, Run};
use play::*;
use rand::{rngs::StdRng, seq::SliceRandom, Rng, SeedableRng};
use world::*;

fn history(prop: &'static str, seed: u64, n: u64, turns: usize, obs: &mut Obs) {
    let mut r = StdRng::seed_from_u64(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ n.wrapping_mul(0xD134_2543_DE82_EF95));
    let w = World::new(prop);
    let hostile = *[0.0, 0.15, 0.35, 0.6].choose(&mut r).unwrap();
    let t = some_time(&mut r);
    let mut p = Play { w, r, obs, weights: weights(prop), hostile };
    p.w.vm.clock.unix_timestamp = t;
    if p.r.gen_bool(0.2) {
        for _ in 0..4 {
            p.turn();
        }
    }
    let k = key("stranger", 0);
    if !p.w.m.ready {
        p.step(&[init(k)], false);
    }
    if p.r.gen_bool(0.2) {
        p.step(&[init(wk(0))], false);
    }
    // some wardens to begin with
    for _ in 0..p.r.gen_range(0..9) {
        if let Some(c) = p.make("register") {
            p.step(&c, false);
        }
    }
    for _ in 0..turns {
        if p.w.dead {
            break;
        }
        p.turn();
    }
    if prop == "W03" {
        genesis(&mut p);
    }
    p.w.full(p.obs);
    p.obs.inc("histories");
    if p.obs.samples.len() < 2 {
        let s = p.w.log.iter().take(6).cloned().collect::<Vec<_>>().join(" | ");
        p.obs.sample(|| s.chars().take(600).collect());
    }
}

/// Carries the genesis through to a confirmed network, in a random order
fn genesis(p: &mut Play) {
    for _ in 0..400 {
        if p.w.dead {
            return;
        }
        let m = &p.w.m;
        if m.network_confirmed() {
            break;
        }
        let kind = if m.wardens.len() < 9 {
            "register"
        } else if m.application_phase() {
            if m.applicants.len() < MEMBERS && p.r.gen() { "start" } else { "complete" }
        } else {
            "confirm"
        };
        if let Some(c) = p.make(kind) {
            if kind == "confirm" && p.r.gen_bool(0.25) {
                // the message of another set of quotes: one bit is enough
                let mut c = c.clone();
                if let Op::Confirm { message, .. } = &mut c[0].op {
                    message[p.r.gen_range(0..32)] ^= 1 << p.r.gen_range(0..8);
                }
                p.step(&c, false);
            }
            p.step(&c, false);
        }
    }
    if p.w.m.network_confirmed() {
        p.obs.inc("networks confirmed");
        if p.w.m.applicants.iter().enumerate().any(|(i, a)| a.id != i as u32) {
            p.obs.inc("networks confirmed with identities other than positions");
        }
        // nothing moves afterwards
        for kind in ["start", "complete", "confirm"] {
            for _ in 0..3 {
                if let Some(c) = p.make(kind) {
                    p.step(&c, false);
                }
            }
        }
    }
}

/// Fills the network to its last place
fn crowd(prop: &'static str, seed: u64, obs: &mut Obs) {
    let r = StdRng::seed_from_u64(seed ^ 77);
    let mut p = Play { w: World::new(prop), r, obs, weights: weights(prop), hostile: 0.2 };
    p.step(&[init(wk(0))], false);
    let n = network_size();
    for i in 0..n + 3 {
        let mut c = config(&mut p.r, key("crowd", i));
        c.tz.area = (i % 5) as u8;
        p.step(&[register(i.min(n) as u32, c)], false);
        if i % 97 == 5 {
            let k = key("crowd", i);
            p.step(&[add_attester(authority(), i as u32, k)], false);
            let c = p.w.m.wardens[i / 2].config.clone();
            p.step(&[attest(k, i as u32, i as u32 / 2, i as u32 / 2, Some(i as u32), c.tz.clone(), 6 - c.region, c.proxy)], false);
        }
    }
    // identities and positions that differ in one bit only
    for j in 0..60usize {
        let at = p.r.gen_range(0..n);
        let near = at ^ 1 << (j % 10);
        if near >= n || p.w.m.members.len() < n || p.w.dead {
            continue;
        }
        let attester = key("crowd", 5 + 97 * (j % (n / 97)));
        let by = (5 + 97 * (j % (n / 97))) as u32;
        let c = p.w.m.wardens[at].config.clone();
        for (id, member) in [(at, near), (near, at), (at, at)] {
            p.step(&[attest(attester, by, id as u32, member as u32, Some(j as u32), c.tz.clone(), 6 - c.region, c.proxy)], false);
        }
        let by_near = by ^ 1 << (j % 10);
        if (by_near as usize) < n {
            p.step(&[attest(attester, by_near, at as u32, at as u32, None, c.tz.clone(), c.region, c.proxy)], false);
        }
        let k = p.w.m.wardens[at].config.key;
        for id in [near, at] {
            p.step(&[state(k, id as u32, j % 3 == 0)], false);
            let l = key("own", j);
            p.step(&[lut(k, id as u32, l)], false);
        }
        p.obs.inc("identities one bit apart");
    }
    for _ in 0..200 {
        p.turn();
    }
    p.w.full(p.obs);
    if p.w.m.members.len() == n {
        p.obs.inc("networks filled");
    }
}

/// Counters beyond the width of smaller integers: set up as if the earlier activities and proposals had happened
fn counters(prop: &'static str, seed: u64, i: u64, obs: &mut Obs) {
    let mut r = StdRng::seed_from_u64(seed.wrapping_mul(31).wrapping_add(i));
    let mut w = World::new(prop);
    let y = 946_684_800i64;
    w.vm.clock.unix_timestamp = r.gen_range(y..y + 99 * 365 * 86_400);
    let mut p = Play { w, r, obs, weights: weights(prop), hostile: 0.2 };
    p.step(&[init(wk(0))], false);
    let now = p.w.vm.clock.unix_timestamp;
    let year = spec::calendar(now).unwrap().1;
    for j in 0..4 {
        if let Some(c) = p.make("register") {
            p.step(&c, false);
        }
        p.step(&[open_stats(wk(j), wk(j), year)], false);
    }
    if !p.w.m.ready || p.w.m.stats.len() < 4 || p.w.dead {
        return;
    }
    let near = |r: &mut StdRng| (1u32 << *[7, 8, 15, 16, 24, 31].choose(r).unwrap()) - r.gen_range(1..20);
    let today = spec::calendar(now).unwrap().0;
    for j in 0..4 {
        let s = p.w.m.stats.get_mut(&(wk(j), year)).unwrap();
        for cat in 0..3 {
            let total = near(&mut p.r);
            let part = total.min(near(&mut p.r));
            s.cat[cat].insert(today, part);
            if total > part {
                s.cat[cat].insert(if today > 1 { today - 1 } else { 2 }, total - part);
            }
        }
    }
    p.w.m.first_proposal = near(&mut p.r) as usize;
    for id in p.w.m.ids() {
        let bytes = p.w.m.fields(&id).into_iter().flat_map(|f| f.1).collect::<Vec<u8>>();
        let mut a = p.w.vm.get(&id.key());
        a.data = bytes.into();
        p.w.vm.set(id.key(), a);
    }
    p.w.full(p.obs);
    for n in 0..60u32 {
        if p.w.dead {
            break;
        }
        if prop == "W05" {
            if let Some(c) = p.make("propose") {
                p.step(&c, false);
            }
        } else {
            let k = wk(p.r.gen_range(0..4));
            let b = *spec::TRACKED.choose(&mut p.r).unwrap();
            let c = relay(b, k, &mut p.r);
            p.step(&[c, track(k, year, n % 2 == 0)], false);
        }
    }
    p.w.full(p.obs);
    p.obs.inc("large counters");
}

/// The calendar function against a calendar that is counted through day by day
fn calendar_table(obs: &mut Obs, seed: u64) {
    use elusiv_warden_network::processor::unix_timestamp_to_day_and_year as real;
    let mut t = 946_684_800i64;
    let check = |ts: u64, obs: &mut Obs| {
        let want = if ts > i64::MAX as u64 { None } else { spec::calendar(ts as i64) };
        let got = minivm::catch(|| real(ts));
        obs.eval();
        obs.inc("timestamps");
        obs.ensure(got == Ok(want), "calendar", || format!("timestamp {}: {:?} instead of {:?}", ts, got, want));
    };
    while t < 4_102_444_800 {
        for d in [0, 1, 43_199, 86_399] {
            check((t + d) as u64, obs);
        }
        t += 86_400;
    }
    let mut r = StdRng::seed_from_u64(seed);
    for _ in 0..200_000 {
        check(r.gen_range(0..5_000_000_000), obs);
    }
    for _ in 0..20_000 {
        check(r.gen::<u64>() >> r.gen_range(0..40), obs);
    }
    for ts in [0, 1, 946_684_799, 4_102_444_800, 4_102_444_801, u64::MAX, u64::MAX - 1, i64::MAX as u64, 1 << 63] {
        check(ts, obs);
    }
}

/// histories recorded for the comparison of two builds (O01)
fn trace_block(run: &Run, n: u64, quick: bool, out: &str) -> i32 {
    let count = if quick { 192 } else { 512 };
    let all = std::sync::Mutex::new(minivm::trace::Traces::new());
    let (_, e) = run.parallel(count, |i, o| {
        let id = n * count + i;
        minivm::trace::start(None);
        let failed = minivm::catch(|| history("O01", run.seed, id, 120, o)).err();
        let t = minivm::trace::stop();
        all.lock().unwrap().insert(id, t.0);
        if let Some(f) = failed {
            eprintln!("history {}: {}", id, f);
        }
    });
    if !e.is_empty() || minivm::trace::write(out, &all.into_inner().unwrap()).is_err() { 3 } else { 0 }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let prop: &'static str = Box::leak(args[1].clone().into_boxed_str());
    let verif = args.get(2).cloned().unwrap_or("/verif".into());
    let run = Run::from_env(prop);
    if prop == "O01TRACE" {
        std::process::exit(trace_block(&run, args[2].parse().unwrap(), args[3] == "1", &args[4]));
    }
    if prop == "O01SHOW" {
        minivm::trace::start(Some(args[3].parse().unwrap()));
        let mut o = Obs::default();
        let _ = minivm::catch(|| history("O01", run.seed, args[2].parse().unwrap(), 120, &mut o));
        println!("{:?}", minivm::trace::stop().1);
        return;
    }
    let turns = 160;
    let budget = run.budget(15, 400);
    let (mut obs, mut errors) = (Obs::default(), vec![]);
    if prop == "W04" {
        calendar_table(&mut obs, run.seed);
    }
    if prop == "W01" || prop == "W02" {
        let (o, e) = run.parallel(run.scale(1, 8) as u64, |i, o| crowd(prop, run.seed + i, o));
        obs.merge(o);
        errors.extend(e);
    }
    if prop == "W04" || prop == "W05" {
        let (o, e) = run.parallel(run.scale(64, 512) as u64, |i, o| counters(prop, run.seed, i, o));
        obs.merge(o);
        errors.extend(e);
    }
    let block = 64;
    let mut b = 0;
    while b < 24 || run.left(budget) {
        let (o, e) = run.parallel(block, |i, o| history(prop, run.seed, b * block + i, turns, o));
        obs.merge(o);
        errors.extend(e);
        b += 1;
        if !obs.violations.is_empty() || !errors.is_empty() {
            break;
        }
    }
    let common: Vec<(&str, u64)> = vec![("histories", 500), ("complete ledger comparisons", 1_000), ("refused raw bytes: undecodable instruction", 20)];
    let own: Vec<(&str, u64)> = match prop {
        "W01" => vec![
            ("accepted RegisterBasicWarden", 3_000), ("accepted UpdateBasicWardenState", 2_000), ("accepted UpdateBasicWardenLut", 1_000),
            ("accepted RegisterWardenOperator", 300), ("accepted ConfirmBasicWardenOperation", 500), ("networks filled", 1), ("identities one bit apart", 30),
            ("refused RegisterBasicWarden: key already registered", 50), ("refused RegisterBasicWarden: not the next identity", 50),
            ("refused RegisterBasicWarden: network full", 1), ("refused UpdateBasicWardenState: not the warden", 20),
            ("refused UpdateBasicWardenLut: not the warden", 20), ("refused ConfirmBasicWardenOperation: not the operator", 20),
        ],
        "W02" => vec![
            ("accepted AddMetadataAttester", 500), ("accepted RevokeMetadataAttester", 200), ("accepted AttestBasicWardenMetadata", 3_000),
            ("refused AttestBasicWardenMetadata: not an attester", 50), ("refused AttestBasicWardenMetadata: not the attesting warden", 50),
            ("refused AttestBasicWardenMetadata: wrong member position", 50), ("refused AddMetadataAttester: not the attestation authority", 20),
            ("refused RevokeMetadataAttester: not the attestation authority", 20), ("refused RegisterBasicWarden: self-appointed attester", 10), ("networks filled", 1), ("identities one bit apart", 30),
        ],
        "W03" => vec![
            ("networks confirmed with identities other than positions", 200), ("accepted ConfirmApaGenesisNetwork", 1_000),
            ("refused ConfirmApaGenesisNetwork: confirmed already", 20), ("refused ConfirmApaGenesisNetwork: wrong message", 10),
            ("refused ConfirmApaGenesisNetwork: confirmation before all quotes are complete", 50), ("refused ConfirmApaGenesisNetwork: not the quoted key", 10),
            ("refused StartApaGenesisWardenApplication: application closed", 50), ("refused StartApaGenesisWardenApplication: applied already", 50),
            ("refused CompleteApaGenesisWardenApplication: application closed", 50), ("genesis views of a confirmed network", 100),
        ],
        "W04" => vec![
            ("relays counted", 2_000), ("large counters", 50), ("trackings without count", 300), ("timestamps", 300_000),
            ("refused TrackBasicWardenStats: another program", 50), ("refused TrackBasicWardenStats: not a tracked instruction", 50),
            ("refused TrackBasicWardenStats: not relayed by the warden", 50), ("refused TrackBasicWardenStats: another year", 30),
            ("refused TrackBasicWardenStats: nothing before", 30), ("accepted OpenBasicWardenStatsAccount", 300),
        ],
        _ => vec![
            ("accepted ProposeApaProposal", 5_000), ("large counters", 50), ("refused ProposeApaProposal: not the next proposal", 50), ("refused ProposeApaProposal: no such token", 50),
            ("refused ProposeApaProposal: not the freeze authority", 50), ("refused ProposeApaProposal: another mint", 50),
            ("refused ProposeApaProposal: lamports cannot be frozen", 20),
        ],
    };
    let floors: Vec<(&str, u64)> = common.into_iter().chain(own).collect();
    let rule = "a transaction counts as distinct by its instructions together with the refusal reason or the resulting state of the network (wardens, applicants, completed and confirmed members, attesters, proposals, statistics)";
    let assumptions = [
        "the validator is played by a native runtime with the runtime's account rules; the main program's instructions are stand-ins that succeed",
        "the attestation authority, a placeholder key in the source, is taken to be somebody who can sign",
        "the specification is a byte-exact model of every account of the program",
    ];
    std::process::exit(run.finish(&verif, obs, errors, rule, &assumptions, &floors));
}
