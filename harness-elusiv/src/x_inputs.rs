//! The public inputs of a request: their encoding, and what a proof for one request is worth for another
use crate::checks::*;
use crate::env::*;
use crate::flow::Flow;
use crate::groth;
use crate::play::Cfg;
use crate::refm::*;
use borsh::BorshDeserialize;
use elusiv::state::proof::VerificationAccount;
use elusiv::types::{generate_hashed_inputs, InputCommitment, JoinSplitPublicInputs, MigratePublicInputs, OptionalFee, PublicInputs, RawU256, SendPublicInputs};
use elusiv_types::ProgramAccount;
use minivm::report::*;
use minivm::*;
use rand::{rngs::StdRng, Rng, SeedableRng};
use solana_program::pubkey::Pubkey;

fn bytes32(r: &mut StdRng) -> U256 {
    let mut b = [0u8; 32];
    match r.gen_range(0..6) {
        0 => b[r.gen_range(0..32)] = 1 << r.gen_range(0..8),
        1 => b = [255; 32],
        2 => {}
        _ => r.fill(&mut b),
    }
    b
}
fn scalar(r: &mut StdRng) -> U256 {
    raw(&crate::refm::edge(r))
}
fn some_request(r: &mut StdRng) -> SendReq {
    let n = r.gen_range(0..7);
    let amount: u64 = r.gen::<u64>() >> r.gen_range(1..64);
    SendReq {
        inputs: (0..n).map(|i| (if i == 0 && r.gen_bool(0.9) || r.gen_bool(0.4) { Some(scalar(r)) } else { None }, scalar(r))).collect(),
        out: scalar(r),
        recent: r.gen::<u32>() >> r.gen_range(0..32),
        fee_version: r.gen::<u32>() >> r.gen_range(0..32),
        amount,
        fee: r.gen::<u64>() >> r.gen_range(1..64),
        opt_collector: Pubkey::new_from_array(bytes32(r)),
        opt_amount: r.gen::<u64>() >> r.gen_range(0..64),
        token: r.gen::<u16>() >> r.gen_range(0..16),
        metadata: r.gen(),
        ata: r.gen(),
        solana_pay: r.gen(),
        hashed: scalar(r),
    }
}
fn decoded(q: &SendReq) -> Option<SendPublicInputs> {
    let e = q.enc(Enc(vec![])).0;
    SendPublicInputs::try_from_slice(&e[1..]).ok()
}
fn flip(r: &mut StdRng, b: &mut [u8]) {
    let i = r.gen_range(0..b.len());
    b[i] ^= 1 << r.gen_range(0..8);
}
/// one field of the request differs
const FIELDS: u64 = 14;
fn vary(r: &mut StdRng, q: &SendReq, field: u64) -> Option<(SendReq, &'static str, bool)> {
    let mut p = q.clone();
    let what = match field {
        0 => {
            let i = r.gen_range(0..p.inputs.len().max(1));
            flip(r, &mut p.inputs.get_mut(i)?.1);
            "nullifier"
        }
        1 => {
            let i = r.gen_range(0..p.inputs.len().max(1));
            match &mut p.inputs.get_mut(i)?.0 {
                Some(x) => flip(r, x),
                None => return None,
            }
            "root"
        }
        2 => {
            // zero is the encoding of a root that is not given
            let i = r.gen_range(0..p.inputs.len().max(1));
            let x = p.inputs.get_mut(i)?;
            x.0 = if x.0.is_some() { None } else { Some(scalar(r)) };
            if x.0.is_some_and(|y| y == [0; 32]) || q.inputs[i].0.is_some_and(|y| y == [0; 32]) {
                return None;
            }
            "presence of a root"
        }
        3 => {
            flip(r, &mut p.out);
            "output commitment"
        }
        4 => {
            p.recent ^= 1 << r.gen_range(0..32);
            "recent commitment index"
        }
        5 => {
            p.fee_version ^= 1 << r.gen_range(0..32);
            "fee version"
        }
        6 => {
            p.amount ^= 1 << r.gen_range(0..63);
            "amount"
        }
        7 => {
            p.fee ^= 1 << r.gen_range(0..63);
            "fee"
        }
        8 => {
            p.token ^= 1 << r.gen_range(0..16);
            "token"
        }
        9 => {
            flip(r, &mut p.hashed);
            "input hash"
        }
        10 => {
            if p.inputs.len() < 2 {
                return None;
            }
            let (i, j) = (r.gen_range(0..p.inputs.len()), r.gen_range(0..p.inputs.len()));
            if p.inputs[i].1 == p.inputs[j].1 {
                return None;
            }
            let t = p.inputs[i].1;
            p.inputs[i].1 = p.inputs[j].1;
            p.inputs[j].1 = t;
            "order of nullifiers"
        }
        11 => {
            let (i, j) = (r.gen_range(0..p.inputs.len().max(1)), r.gen_range(0..p.inputs.len().max(1)));
            if p.inputs.get(i)?.0.unwrap_or([0; 32]) == p.inputs.get(j)?.0.unwrap_or([0; 32]) {
                return None;
            }
            let t = p.inputs[i].0;
            p.inputs[i].0 = p.inputs[j].0;
            p.inputs[j].0 = t;
            "order of roots"
        }
        12 => {
            if p.inputs.len() >= 4 {
                return None;
            }
            let mut x = scalar(r);
            x[0] |= 1;
            p.inputs.push((None, x));
            "another nullifier"
        }
        _ => {
            if p.inputs.len() < 2 || p.inputs.last()?.1 == [0; 32] {
                return None;
            }
            p.inputs.pop();
            "a nullifier less"
        }
    };
    Some((p, what, true))
}
fn encoding(r: &mut StdRng, obs: &mut Obs) {
    let q = some_request(r);
    let Some(real) = decoded(&q) else { return obs.violation("a request is not decodable", &format!("{:?}", q)) };
    obs.inc("requests_encoded");
    let fine = (1..=4).contains(&q.inputs.len()) && q.inputs[0].0.is_some();
    obs.case(&("request", q.inputs.len(), q.inputs.first().map(|x| x.0.is_some()), q.inputs.iter().filter(|x| x.0.is_some()).count()));
    obs.ensure(catch(|| real.verify_additional_constraints()).ok() == Some(fine), "shape of a request", || format!("{:?}", q));
    if q.inputs.len() > 4 {
        return;
    }
    let have: Option<Vec<U256>> = catch(|| real.public_signals_skip_mr()).ok();
    let want = q.signals();
    obs.ensure(have == want, "public inputs of a request", || format!("{:?}: {:?} instead of {:?}", q, have, want));
    let f = r.gen_range(0..FIELDS);
    if let Some((p, what, differs)) = vary(r, &q, f) {
        obs.inc(&format!("varied {}", what));
        if let (Some(a), Some(b)) = (&have, decoded(&p).and_then(|x| catch(|| x.public_signals_skip_mr()).ok())) {
            obs.ensure((*a != b) == differs, "a changed request has the same public inputs", || format!("{}: {:?} and {:?}", what, q, p));
        }
    }
    // the other circuit
    let m = MigratePublicInputs {
        join_split: JoinSplitPublicInputs {
            input_commitments: q.inputs.iter().map(|(a, b)| InputCommitment { root: a.map(RawU256::new), nullifier_hash: RawU256::new(*b) }).collect(),
            output_commitment: RawU256::new(q.out),
            recent_commitment_index: q.recent,
            fee_version: q.fee_version,
            amount: q.amount,
            fee: q.fee,
            optional_fee: OptionalFee { collector: q.opt_collector, amount: q.opt_amount },
            token_id: q.token,
            metadata: q.metadata,
        },
        current_nsmt_root: RawU256::new(bytes32(r)),
        next_nsmt_root: RawU256::new(bytes32(r)),
    };
    let fine = q.inputs.len() == 1 && q.inputs[0].0.is_some();
    obs.ensure(catch(|| m.verify_additional_constraints()).ok() == Some(fine), "shape of a migration", || format!("{:?}", q));
    if fine {
        let small = |v: u64| {
            let mut b = [0u8; 32];
            b[..8].copy_from_slice(&v.to_le_bytes());
            b
        };
        let want = vec![q.inputs[0].1, q.inputs[0].0.unwrap(), q.out, small(q.recent as u64), m.current_nsmt_root.skip_mr(), m.next_nsmt_root.skip_mr(), small(q.amount + q.fee)];
        let have = catch(|| m.public_signals_skip_mr()).ok();
        obs.inc("migrations_encoded");
        obs.ensure(have == Some(want), "public inputs of a migration", || format!("{:?}", q));
    }
}
fn real_hash(q: &SendReq, x: &SendExtra) -> Option<U256> {
    let reference = if x.reference == IX_SYSVAR { [0; 32] } else { x.reference.to_bytes() };
    catch(|| generate_hashed_inputs(&x.recipient.to_bytes(), &x.identifier.to_bytes(), &x.iv, &x.encrypted_owner, &reference, q.ata, &q.metadata, &OptionalFee { collector: q.opt_collector, amount: q.opt_amount }, &x.memo)).ok()
}
/// one of the hashed fields differs
const HASHED: u64 = 11;
fn vary_hashed(r: &mut StdRng, q: &SendReq, x: &SendExtra, field: u64) -> Option<(SendReq, SendExtra, &'static str)> {
    let (mut q, mut x) = (q.clone(), x.clone());
    let key = |r: &mut StdRng, k: &Pubkey| {
        let mut b = k.to_bytes();
        flip(r, &mut b);
        Pubkey::new_from_array(b)
    };
    let what = match field {
        0 => {
            x.recipient = key(r, &x.recipient);
            "recipient"
        }
        1 => {
            x.identifier = key(r, &x.identifier);
            "identifier"
        }
        2 => {
            x.reference = if x.reference == IX_SYSVAR { key_n("reference", r.gen_range(0..9)) } else if r.gen() { IX_SYSVAR } else { key(r, &x.reference) };
            "reference"
        }
        3 => {
            flip(r, &mut x.iv);
            "iv"
        }
        4 => {
            flip(r, &mut x.encrypted_owner);
            "encrypted owner"
        }
        5 => {
            match &mut x.memo {
                Some(m) if !m.is_empty() => {
                    if r.gen() {
                        flip(r, m)
                    } else {
                        m.pop();
                    }
                }
                _ => x.memo = Some(vec![r.gen()]),
            }
            "memo"
        }
        6 => {
            q.ata = !q.ata;
            "associated account"
        }
        7 => {
            flip(r, &mut q.metadata);
            "metadata"
        }
        8 => {
            q.opt_collector = key(r, &q.opt_collector);
            "fee collector"
        }
        9 => {
            q.opt_amount ^= 1 << r.gen_range(0..40);
            "optional fee"
        }
        _ => {
            // a neighbouring field takes a byte over: nothing of it may be ambiguous
            let Some(m) = &mut x.memo else { return None };
            if m.is_empty() {
                return None;
            }
            let first = m.remove(0);
            let mut b = q.opt_amount.to_le_bytes();
            b.rotate_left(1);
            b[7] = first;
            if q.opt_amount == u64::from_le_bytes(b) {
                return None;
            }
            q.opt_amount = u64::from_le_bytes(b);
            "border of the memo"
        }
    };
    Some((q, x, what))
}
fn hashes(r: &mut StdRng, obs: &mut Obs) {
    let q = some_request(r);
    let pk = |r: &mut StdRng| Pubkey::new_from_array(bytes32(r));
    let x = SendExtra { recipient: pk(r), identifier: pk(r), reference: if r.gen() { IX_SYSVAR } else { pk(r) }, iv: bytes32(r), encrypted_owner: bytes32(r), memo: if r.gen() { None } else { Some((0..r.gen_range(0..700)).map(|_| r.gen()).collect()) } };
    obs.inc("hashes");
    let have = real_hash(&q, &x);
    obs.ensure(have == Some(hashed_inputs(&q, &x)), "hash of the inputs", || format!("{:?} {:?}", q, x));
    obs.ensure(have.is_some_and(|h| is_scalar(&h)), "the hash of the inputs is not a field element", || format!("{:?} {:?}", q, x));
    let f = r.gen_range(0..HASHED);
    if let Some((p, y, what)) = vary_hashed(r, &q, &x, f) {
        let zero = |k: &Pubkey| *k == IX_SYSVAR || k.to_bytes() == [0; 32];
        if what == "reference" && zero(&x.reference) && zero(&y.reference) {
            return;
        }
        obs.inc(&format!("varied {}", what));
        obs.ensure(real_hash(&p, &y) != have, "a changed request has the same hash", || format!("{}: {:?} {:?} and {:?} {:?}", what, q, x, p, y));
    }
}
/// a proof for one request, used for others
fn worth(r: &mut StdRng, obs: &mut Obs) {
    let mut f = Flow::new(0, r.gen_range(0..5));
    let token = if r.gen() { 0 } else { r.gen_range(1..TOKENS) };
    // (the wallets hold a limited amount)
    let most = tok(token).max.min(1 << 50);
    let amount = most / 4;
    for _ in 0..3 {
        f.deposit(token, most / 2);
    }
    let mut roots = vec![];
    for _ in 0..3 {
        f.batch();
        roots.push(f.root());
    }
    let who = user(r.gen_range(0..4));
    let recipient = if token == 0 { who } else { ata(&who, token) };
    let n = r.gen_range(1..=4);
    let (mut q, mut x) = f.request(token, amount, most / 4, n, recipient);
    if r.gen() {
        q.opt_amount = amount / 8 + 1;
    }
    if token > 0 && r.gen_bool(0.3) {
        x.recipient = who;
        q.ata = true;
    }
    q.metadata = r.gen();
    if r.gen() {
        x.reference = key_n("reference", 100);
    }
    if r.gen() {
        x.memo = Some((0..r.gen_range(1..30)).map(|_| r.gen()).collect());
    }
    q.hashed = hashed_inputs(&q, &x);
    let proof = groth::prove(r.gen(), &q);
    let base = f.vm.clone();
    // the request itself
    let own = run_request(&mut f, &q, &x, &proof);
    obs.inc("proofs_made");
    if own.as_ref().map(|v| *v) != Ok(Some(true)) {
        return obs.violation("a valid proof for the request is not accepted", &format!("{:?} {:?}: {:?}", q, x, own));
    }
    let verified = f.vm.clone();
    let tx = f.finalization(0, 0, &q, &x);
    if let Err(e) = f.tx(&tx) {
        return obs.violation("a verified request cannot be finalized", &format!("{:?} {:?}: {}", q, x, e));
    }
    obs.inc("finalized_as_proven");
    // (1) the finalization with any hashed field changed (the request is stored: only what is supplied can differ)
    for field in 0..6 {
        let Some((_, y, what)) = vary_hashed(r, &q, &x, field) else { continue };
        f.vm = verified.clone();
        let tx = f.finalization(0, 0, &q, &y);
        if what == "recipient" {
            // somebody who could be paid
            let other = user(r.gen_range(0..4));
            if other == who {
                continue;
            }
            let z = SendExtra { recipient: if token == 0 || q.ata { other } else { ata(&other, token) }, ..x.clone() };
            let tx = f.finalization(0, 0, &q, &z);
            obs.inc("foreign_finalizations");
            obs.case(&("finalization", what, "payable", token == 0, q.ata));
            if f.tx(&tx).is_ok() {
                return obs.violation("a verified request pays somebody else", &format!("{:?} {:?} to {}", q, x, other));
            }
        }
        f.vm = verified.clone();
        obs.inc("foreign_finalizations");
        obs.case(&("finalization", what, token == 0, q.ata, x.memo.is_some()));
        if f.tx(&tx).is_ok() {
            return obs.violation("a verified request is finalized with other inputs", &format!("{} differs: {:?} {:?} finalized as {:?}", what, q, x, y));
        }
    }
    // (2) the proof for another request
    let mut tries: Vec<(SendReq, SendExtra, &'static str)> = vec![];
    for field in 0..FIELDS {
        if let Some((mut p, what, _)) = vary(r, &q, field) {
            // what the program would refuse anyway is replaced by something it accepts
            match what {
                "nullifier" => {
                    let i = r.gen_range(0..p.inputs.len());
                    p = q.clone();
                    p.inputs[i].1 = raw(&crate::play::fr(r));
                }
                "root" => {
                    p = q.clone();
                    p.inputs[0].0 = Some(roots[r.gen_range(0..roots.len() - 1)]);
                }
                "presence of a root" => {
                    if n < 2 {
                        continue;
                    }
                    p = q.clone();
                    let i = r.gen_range(1..n);
                    p.inputs[i].0 = if q.inputs[i].0.is_some() { None } else { q.inputs[0].0 };
                }
                "order of roots" => continue,
                "output commitment" => p.out = raw(&crate::play::fr(r)),
                "recent commitment index" => p.recent = r.gen_range(0..q.recent),
                "amount" => {
                    p.amount = q.amount - 1;
                }
                "fee" => p.fee = q.fee + 1,
                "token" => p.token = if token == 0 { r.gen_range(1..TOKENS) } else if r.gen() { 0 } else { token % (TOKENS - 1) + 1 },
                "input hash" => {
                    p.hashed = q.hashed;
                    p.hashed[0] ^= 1;
                }
                _ => {}
            }
            tries.push((p, x.clone(), what));
        }
    }
    for field in 0..HASHED {
        if let Some((mut p, y, what)) = vary_hashed(r, &q, &x, field) {
            p.hashed = hashed_inputs(&p, &y);
            tries.push((p, y, what));
        }
    }
    // the stored fields of the hash are changed, the hash is not
    for field in 6..10 {
        if let Some((p, y, what)) = vary_hashed(r, &q, &x, field) {
            tries.push((p, y, what));
        }
    }
    for (p, y, what) in tries {
        // (a variation replaced by an acceptable one can be the request itself)
        if r.gen_bool(0.5) || (&p, &y) == (&q, &x) {
            continue;
        }
        f.vm = base.clone();
        let same = p.signals() == q.signals();
        let got = run_request(&mut f, &p, &y, &proof);
        match got {
            Err(e) => {
                obs.inc("foreign_requests_refused");
                obs.inc(&format!("refused {}: {}", what, e.chars().take(60).collect::<String>()));
            }
            Ok(v) => {
                obs.inc("foreign_requests_verified");
                obs.case(&("foreign", what, same, v, token == 0, n));
                if v != Some(same) {
                    return obs.violation("a proof is worth something for another request", &format!("{} differs, the public inputs {}: verdict {:?}; proven {:?} {:?}; used for {:?} {:?}", what, if same { "do not" } else { "do" }, v, q, x, p, y));
                }
                if same && v == Some(true) {
                    obs.inc("stored_field_changes");
                    let tx = f.finalization(0, 0, &p, &y);
                    if f.tx(&tx).is_ok() {
                        return obs.violation("a request with changed fields is finalized with the proof of another", &format!("{} differs: proven {:?} {:?}, finalized {:?} {:?}", what, q, x, p, y));
                    }
                    // nor as what was proven
                    let tx = f.finalization(0, 0, &p, &x);
                    if f.tx(&tx).is_ok() {
                        return obs.violation("a request with changed fields is finalized with the proof of another", &format!("{} differs: proven {:?} {:?}, finalized {:?}", what, q, x, p));
                    }
                }
            }
        }
    }
    obs.eval();
}
/// what a verified request is finalized with (many shapes; the verdict is set, the verifier is observed elsewhere)
fn bound(r: &mut StdRng, start: &Flow, obs: &mut Obs) {
    let mut f = start.copy();
    let token = if r.gen() { 0 } else { r.gen_range(1..TOKENS) };
    let most = tok(token).max.min(1 << 50);
    let who = user(r.gen_range(0..4));
    let recipient = if token == 0 { who } else { ata(&who, token) };
    let amount = match r.gen_range(0..5) {
        0 => 0,
        1 => 1,
        2 => r.gen_range(0..1 << 20),
        _ => most / 8,
    };
    let n = r.gen_range(1..=4);
    let (mut q, mut x) = f.request(token, amount, most / 4, n, recipient);
    q.ata = token > 0 && r.gen_bool(0.4);
    q.solana_pay = r.gen_bool(0.3);
    if q.ata {
        x.recipient = who;
    }
    if r.gen() {
        q.opt_amount = r.gen_range(0..=amount);
    }
    if r.gen_bool(0.3) {
        // somebody who is not paid
        q.opt_collector = Pubkey::new_from_array(bytes32(r));
    }
    q.metadata = r.gen();
    x.iv = bytes32(r);
    x.encrypted_owner = bytes32(r);
    if r.gen() {
        x.reference = key_n("reference", r.gen_range(0..50));
    }
    if r.gen_bool(0.6) {
        let len = [0, 1, 2, 31, 32, 64, 255, 256, 257, 566][r.gen_range(0..10)];
        x.memo = Some((0..len).map(|_| if r.gen_bool(0.1) { 0 } else { r.gen_range(1..127) }).collect());
    }
    q.hashed = hashed_inputs(&q, &x);
    let open = |f: &mut Flow, q: &SendReq| -> Result<(), String> {
        f.init(0, 0, q, &x, false)?;
        f.pay_fee(0, 0, q.token)?;
        let d = f.vm.data_mut(&ver_key(&payer(0), 0));
        VerificationAccount::new(d).unwrap().set_state(&elusiv::state::proof::VerificationState::ProofSetup);
        f.verdict(0, 0, true);
        Ok(())
    };
    let fresh = f.vm.clone();
    if let Err(e) = open(&mut f, &q) {
        obs.inc("bound_requests_refused");
        obs.inc(&format!("bound request refused: {}", e.chars().take(60).collect::<String>()));
        return;
    }
    let verified = f.vm.clone();
    let tx = f.finalization(0, 0, &q, &x);
    let shape = (token == 0, q.ata, q.solana_pay, x.memo.as_ref().map(|m| m.len()), x.reference == IX_SYSVAR, amount == 0, q.opt_amount == 0, n);
    if f.tx(&tx).is_ok() {
        obs.inc("bound_finalized");
        obs.case(&("bound", shape));
    } else {
        // (payouts can be impossible, e.g. to a collector that is no token account)
        obs.inc("bound_unpayable");
    }
    // supplied values
    let mut tries: Vec<(SendExtra, &'static str)> = (0..6).filter_map(|i| vary_hashed(r, &q, &x, i)).map(|(_, y, what)| (y, what)).collect();
    let other = user(r.gen_range(0..4));
    if other != who {
        tries.push((SendExtra { recipient: if token == 0 || q.ata { other } else { ata(&other, token) }, ..x.clone() }, "payable recipient"));
    }
    if let Some(m) = &x.memo {
        for cut in [m.len().saturating_sub(1), m.len() / 2, 0] {
            if cut < m.len() {
                tries.push((SendExtra { memo: Some(m[..cut].to_vec()), ..x.clone() }, "shorter memo"));
            }
        }
        let mut longer = m.clone();
        longer.push(if r.gen() { 0 } else { 65 });
        tries.push((SendExtra { memo: Some(longer), ..x.clone() }, "longer memo"));
        if !m.is_empty() {
            tries.push((SendExtra { memo: None, ..x.clone() }, "no memo"));
        }
    }
    for (y, what) in tries {
        if hashed_inputs(&q, &y) == q.hashed {
            continue;
        }
        f.vm = verified.clone();
        let tx = f.finalization(0, 0, &q, &y);
        obs.inc("bound_finalizations_varied");
        obs.case(&("bound finalization", what, shape));
        if f.tx(&tx).is_ok() {
            return obs.violation("a verified request is finalized with other inputs", &format!("{} differs: {:?} {:?} finalized as {:?}", what, q, x, y));
        }
    }
    // stored values, with the hash of others
    for field in 6..10 {
        let Some((p, _, what)) = vary_hashed(r, &q, &x, field) else { continue };
        f.vm = fresh.clone();
        if open(&mut f, &p).is_err() {
            continue;
        }
        obs.inc("bound_requests_varied");
        obs.case(&("bound request", what, shape));
        let tx = f.finalization(0, 0, &p, &x);
        if f.tx(&tx).is_ok() {
            return obs.violation("a request with changed fields is finalized with the proof of another", &format!("{} differs: proven {:?} {:?}, finalized {:?}", what, q, x, p));
        }
    }
}
/// Err: refused before the verification
fn run_request(f: &mut Flow, q: &SendReq, x: &SendExtra, proof: &[u8]) -> Result<Option<bool>, String> {
    f.init(0, 0, q, x, false).map_err(|e| format!("init {}", e))?;
    // stored as submitted
    let mut d = (*f.vm.data(&ver_key(&payer(0), 0))).clone();
    let v = VerificationAccount::new(&mut d).unwrap();
    let stored: Vec<U256> = (0..14).map(|i| v.load_raw_public_input(i)).collect();
    if Some(stored) != q.signals() {
        return Ok(None);
    }
    f.pay_fee(0, 0, q.token).map_err(|e| format!("fee {}", e))?;
    f.tx(&[ix_init_proof(payer(0), 0, proof)]).map_err(|e| format!("proof {}", e))?;
    Ok(f.verify(0, 0))
}
pub fn v02(run: &Run) -> (Obs, Vec<String>) {
    init_runtime();
    let plan = Plan {
        cfg: Cfg { mutate: 0.1, deposit: 6, base: 8, mt: 14, start: 60, send: 40, price: 1, evil_send: 0.7, evil_final: 0.2, indices: 60, ..Cfg::default() },
        turns: 300,
        min_worlds: 32,
        ..Plan::default()
    };
    let budget = run.budget(26, 700);
    run.parallel(8, |lane, obs| {
        let (mut n, mut i) = (lane, 0u64);
        let mut start = Flow::new(0, (run.seed + lane) as u32 % 5);
        for t in 0..TOKENS {
            for _ in 0..2 {
                start.deposit(t, tok(t).max.min(1 << 50) / 2);
            }
        }
        for _ in 0..2 * TOKENS {
            start.batch();
        }
        while i < 5 || run.left(budget) {
            let mut r = StdRng::seed_from_u64(run.seed.wrapping_mul(32_452_843).wrapping_add(lane + 8 * i));
            for _ in 0..2_000 {
                encoding(&mut r, obs);
                hashes(&mut r, obs);
            }
            for _ in 0..40 {
                bound(&mut r, &start, obs);
            }
            worth(&mut r, obs);
            if n < plan.min_worlds || i % 4 == 0 {
                history("V02", &plan, run.seed.wrapping_mul(1_000_003).wrapping_add(n), n, obs);
                n += 8;
            }
            i += 1;
            if obs.violations.len() >= 3 || (run.start.elapsed().as_secs() > 300 && !run.thorough) {
                break;
            }
        }
    })
}
