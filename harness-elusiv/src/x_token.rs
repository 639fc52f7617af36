//! Token amounts, price conversions and fee formulas against exact arithmetic
use crate::checks::*;
use crate::env::*;
use crate::play::Cfg;
use crate::refm::*;
use elusiv::state::fee::ProgramFee;
use elusiv::token::{elusiv_token, verify_associated_token_account, verify_token_account, Lamports, Price, SPLToken, Token, TokenPrice};
use minivm::report::*;
use minivm::*;
use rand::{rngs::StdRng, Rng, SeedableRng};
use solana_program::account_info::AccountInfo;
use solana_program::pubkey::Pubkey;

fn amount(r: &mut StdRng) -> u64 {
    match r.gen_range(0..9) {
        0 => r.gen_range(0..4),
        1 => u64::MAX - r.gen_range(0..4),
        2 => i64::MAX as u64 - 2 + r.gen_range(0..5),
        3 => r.gen(),
        4 => 10u64.pow(r.gen_range(0..20)),
        5 => (1u64 << 28) - 2 + r.gen_range(0..4),
        _ => r.gen::<u64>() >> r.gen_range(0..64),
    }
}
fn id(r: &mut StdRng) -> u16 {
    match r.gen_range(0..8) {
        0 => TOKENS,
        1 => u16::MAX,
        2 => TOKENS - 1,
        3 => 0,
        4 => r.gen(),
        _ => r.gen_range(0..TOKENS),
    }
}
fn price(r: &mut StdRng, realistic: bool) -> P {
    if realistic {
        let digits = r.gen_range(1..13u32);
        let price = r.gen_range(10i64.pow(digits - 1)..10i64.pow(digits));
        P { price, conf: r.gen_range(0..=price as u64 / 10 + 1), expo: r.gen_range(-12..=2) }
    } else {
        let price = match r.gen_range(0..8) {
            0 => 0,
            1 => -(amount(r) as i64 & i64::MAX),
            2 => i64::MAX - r.gen_range(0..3),
            3 => i64::MIN + 1 + r.gen_range(0..3),
            _ => (amount(r) >> 1) as i64,
        };
        P { price, conf: if r.gen() { amount(r) } else { amount(r) % 1000 }, expo: if r.gen_bool(0.8) { r.gen_range(-25..25) } else { r.gen_range(-200..200) } }
    }
}
fn pp(p: P) -> Price {
    Price { price: p.price, conf: p.conf, expo: p.expo }
}
fn same(a: &Price, b: &P) -> bool {
    a.price == b.price && a.conf == b.conf && a.expo == b.expo
}
/// None: refused (an error, or an abort)
fn run<T, E: std::fmt::Debug>(f: impl FnOnce() -> Result<T, E>) -> Option<T> {
    match catch(f) {
        Ok(Ok(x)) => Some(x),
        _ => None,
    }
}
fn arithmetic(r: &mut StdRng, obs: &mut Obs) {
    let (a, b) = (amount(r), amount(r));
    let (i, j) = (id(r), if r.gen_bool(0.7) { None } else { Some(id(r)) });
    let j = j.unwrap_or(i);
    obs.inc("token_operations");
    obs.case(&("arithmetic", i == j, a.checked_add(b).is_some(), a >= b, i == 0, i >= TOKENS));
    let (x, y) = match catch(|| (Token::new(i, a), Token::new(j, b))) {
        Ok(v) => v,
        Err(e) => return obs.violation("a token cannot be named", &format!("{} {}: {}", i, j, e)),
    };
    let what = || format!("token {} amount {} and token {} amount {}", i, a, j, b);
    obs.ensure(x.token_id() == i && x.amount() == a, "a token forgets its amount", what);
    let sum = run(|| x + y).map(|t| (t.token_id(), t.amount()));
    let dif = run(|| x - y).map(|t| (t.token_id(), t.amount()));
    obs.ensure(sum == a.checked_add(b).filter(|_| i == j).map(|s| (i, s)), "sum of tokens", || format!("{}: {:?}", what(), sum));
    obs.ensure(dif == a.checked_sub(b).filter(|_| i == j).map(|s| (i, s)), "difference of tokens", || format!("{}: {:?}", what(), dif));
    obs.ensure(run(|| x.enforce_token_equality(&y)).is_some() == (i == j), "equality of tokens", what);
    obs.ensure(run(|| x.into_lamports()).map(|l| l.0) == (i == 0).then_some(a), "token as lamports", what);
    obs.ensure(run(|| Lamports(a) + Lamports(b)).map(|l| l.0) == a.checked_add(b), "sum of lamports", what);
    let t = Lamports(a).into_token_strict();
    obs.ensure(t.token_id() == 0 && t.amount() == a, "lamports as token", what);
    let s = run(|| SPLToken::new(i, a)).map(|t| (t.id.get(), t.amount));
    obs.ensure(s == (i > 0).then_some((i, a)), "construction of a token", what);
    // the permitted range
    let near = if i < TOKENS { let k = tok(i); match r.gen_range(0..5) { 0 => k.min, 1 => k.min.wrapping_sub(1), 2 => k.max, 3 => k.max.wrapping_add(1), _ => a } } else { a };
    let c = run(|| Token::new_checked(i, near)).map(|t| (t.token_id(), t.amount()));
    obs.ensure(c == (i < TOKENS && near >= tok(i.min(TOKENS - 1)).min && near <= tok(i.min(TOKENS - 1)).max).then_some((i, near)), "range of a token", || format!("token {} amount {}: {:?}", i, near, c));
    let e = run(|| elusiv_token(i)).map(|t| (t.mint, t.decimals));
    obs.ensure(e == (i < TOKENS).then(|| (tok(i).mint, tok(i).decimals)), "token of an id", || format!("{}", i));
}
fn accounts(r: &mut StdRng, obs: &mut Obs) {
    let t = r.gen_range(0..TOKENS);
    let held = r.gen_range(1..TOKENS);
    let rent = solana_program::rent::Rent::default();
    let mut data = token_account(tok(held).mint, user(1), 5, &rent).data.to_vec();
    let owner = if r.gen_bool(0.7) { spl_token::ID } else { user(2) };
    // damaged or not initialized
    let mut fine = true;
    match r.gen_range(0..5) {
        0 => {
            data.truncate(r.gen_range(0..165));
            fine = false;
        }
        1 => {
            data[108] = 0;
            fine = false;
        }
        _ => {}
    }
    let key = key_n("acc", r.gen());
    let mut lam = 1;
    let a = AccountInfo::new(&key, false, false, &mut lam, &mut data, &owner, false, 0);
    let got = catch(|| verify_token_account(&a, t)).ok().and_then(|x| x.ok()).unwrap_or(false);
    let want = if t == 0 { owner != spl_token::ID } else { owner == spl_token::ID && fine && held == t };
    obs.ensure(got == want, "an account's ability to receive a token", || format!("token {} account of {} owner is spl-token {} intact {}: {}", t, held, owner == spl_token::ID, fine, got));
    let target = match r.gen_range(0..4) { 0 => key, 1 => ata(&user(1), held), 2 => user(1), _ => if t == 0 { user(1) } else { ata(&user(1), t) } };
    let got = run(|| verify_associated_token_account(&user(1), &target, t)).unwrap_or(false);
    let want = target == if t == 0 { user(1) } else { ata(&user(1), t) };
    obs.ensure(got == want, "associated account", || format!("token {} {}: {}", t, target, got));
    obs.inc("account_checks");
}
fn conversions(r: &mut StdRng, obs: &mut Obs) {
    let realistic = r.gen_bool(0.6);
    let (sol, tp) = (price(r, realistic), price(r, realistic));
    let t = r.gen_range(0..TOKENS);
    let n = if realistic { amount(r) >> r.gen_range(8..40) } else { amount(r) };
    obs.inc("conversions");
    // the price accounts
    let (ok_s, ok_t) = (r.gen_bool(0.95), r.gen_bool(0.95));
    let (mut ds, mut dt) = (price_data(sol, ok_s), price_data(tp, ok_t));
    let mut broken = false;
    if r.gen_bool(0.05) {
        let d = if r.gen() { &mut ds } else { &mut dt };
        match r.gen_range(0..3) {
            0 => d.truncate(100),
            1 => d[0] ^= 1,
            _ => d[4] ^= 3,
        }
        broken = true;
    }
    let (mut ks, mut kt) = (tok(0).price_key, tok(t).price_key);
    let mut wrong = false;
    if r.gen_bool(0.06) {
        match r.gen_range(0..4) {
            0 => ks = tok(r.gen_range(1..TOKENS)).price_key,
            1 => kt = key_n("price", 1),
            2 => {
                kt = tok((t + 1) % TOKENS).price_key;
            }
            _ => ks = key_n("price", 2),
        }
        wrong = ks != tok(0).price_key || kt != tok(t).price_key;
    }
    let owner = Pubkey::default();
    let (mut l0, mut l1) = (1, 1);
    let (a, b) = (AccountInfo::new(&ks, false, false, &mut l0, &mut ds, &owner, false, 0), AccountInfo::new(&kt, false, false, &mut l1, &mut dt, &owner, false, 0));
    let p = run(|| TokenPrice::new(&a, &b, t));
    // if the feed does not trade, the last price counts only if the library says so
    let feed = |ok: bool, p: P, t: u16| if ok { p_base(p, tok(t).base_exp) } else { None };
    let want = (t == 0).then(|| None).or_else(|| {
        if wrong || broken {
            return None;
        }
        Some(Some((feed(ok_s, sol, 0)?, feed(ok_t, tp, t)?)))
    });
    let what = || format!("token {} amount {} SOL {:?} {} token {:?} {}", t, n, sol, ok_s, tp, ok_t);
    obs.case(&("price", p.is_some(), wrong, broken, ok_s, ok_t, realistic, t == 0));
    match (&p, &want) {
        (None, None) => {
            obs.inc("unavailable_prices");
            return;
        }
        (Some(_), None) => return obs.violation("a price that is not available is used", &what()),
        (None, Some(_)) => return obs.violation("an available price is refused", &what()),
        _ => {}
    }
    let (p, want) = (p.unwrap(), want.unwrap());
    if let Some((s, q)) = &want {
        obs.ensure(same(&p.lamports_usd, s) && same(&p.token_usd, q) && p.token_id == t, "base prices", || format!("{}: {:?} {:?}", what(), p.lamports_usd, p.token_usd));
        let x = run(|| TokenPrice::new_from_sol_price(pp(sol), pp(*q), t));
        obs.ensure(x.as_ref().map_or(false, |x| same(&x.lamports_usd, s) && same(&x.token_usd, q)), "base price of SOL", what);
    }
    let d = tok(t).decimals;
    let to = run(|| p.lamports_into_token(&Lamports(n), t)).map(|t| (t.token_id(), t.amount()));
    let back = run(|| p.token_into_lamports(Token::new(t, n))).map(|l| l.0);
    let (wto, wback) = match &want {
        None => (Some(n), Some(n)),
        Some((s, q)) => (lamports_in_token(n as u128, *s, *q, d), token_in_lamports(n as u128, *s, *q, d)),
    };
    obs.case(&("conversion", to.is_some(), back.is_some(), realistic, t == 0, n.leading_zeros() / 8, sol.expo.signum(), tp.expo.signum()));
    obs.ensure(to == wto.map(|x| (t, x)), "lamports as token", || format!("{}: {:?} instead of {:?}", what(), to, wto));
    obs.ensure(back == wback, "token as lamports", || format!("{}: {:?} instead of {:?}", what(), back, wback));
    if to.is_some() {
        obs.inc("representable_conversions");
    }
    // a second opinion: the exact value
    if let (Some((s, q)), Some((_, got))) = (&want, to) {
        if realistic && s.price > 0 && q.price > 0 {
            let exact = n as f64 * s.price as f64 / q.price as f64 * 10f64.powi(s.expo - q.expo + d as i32);
            // digits that are given up by the documented algorithm: 28-bit operands, a quotient of nine decimals
            let norm = |x: u64, c: u64| { let (mut x, mut c) = (x, c); while x >= 1 << 28 || c >= 1 << 28 { x /= 10; c /= 10; } x.max(1) as f64 };
            let usd = p_mul(*s, P { price: n.min(i64::MAX as u64) as i64, conf: 0, expo: 0 });
            let usd = usd.map_or(1.0, |u| norm(u.price.unsigned_abs(), u.conf));
            let tol = 1.0 / norm(n, 0) + 1.0 / norm(s.price as u64, s.conf) + 1.0 / usd + 1.0 / norm(q.price as u64, q.conf) + norm(q.price as u64, q.conf) / usd / 1e9;
            if tol < 1e-3 && exact > 1e4 {
                obs.inc("compared_with_exact_value");
                obs.ensure((got as f64 - exact).abs() <= exact * tol * 4.0 + 2.0, "converted value is far from the exact one", || format!("{}: {} instead of {}", what(), got, exact));
            }
        }
    }
    // another token than the price's
    let o = (t + 1) % TOKENS;
    obs.ensure(run(|| p.lamports_into_token(&Lamports(n), o)).is_none() && run(|| p.token_into_lamports(Token::new(o, n))).is_none(), "tokens are mixed in a conversion", what);
    obs.ensure(run(|| Lamports(n).into_token(&p, t)).map(|t| (t.token_id(), t.amount())) == to, "two ways to convert", what);
    // an amount from a price
    let v = price(r, realistic);
    let (i, check) = (r.gen_range(0..TOKENS), r.gen());
    let got = run(|| Token::new_from_price(i, pp(v), check)).map(|t| (t.token_id(), t.amount()));
    let want = p_scale(v, if i == 0 { 0 } else { -(tok(i).decimals as i32) }).and_then(|p| u64::try_from(p.price).ok()).filter(|a| !check || (*a >= tok(i).min && *a <= tok(i).max)).map(|a| (i, a));
    obs.ensure(got == want, "amount of a price", || format!("token {} {:?} checked {}: {:?} instead of {:?}", i, v, check, got, want));
}
fn fees(r: &mut StdRng, obs: &mut Obs) {
    let small = |r: &mut StdRng| amount(r) >> r.gen_range(20..60);
    let f = Fee { lamports_per_tx: small(r), base_network_bp: r.gen_range(0..12_000), proof_network_bp: r.gen_range(0..12_000), base_subvention: small(r), proof_subvention: small(r), hash_reward: small(r), proof_reward: small(r), proof_base_tx_count: PROOF_BASE_TX };
    let fits = |x: u128| u64::try_from(x).is_ok();
    let ok = f.base_subvention as u128 <= f.commitment_hash(3).min((0..4).map(|i| f.commitment_hash(i)).min().unwrap()) && (0..4).all(|i| f.proof_subvention as u128 <= f.proof_base_tx_count as u128 * f.lamports_per_tx as u128 + f.commitment_hash(i));
    let got = catch(|| ProgramFee::new(f.lamports_per_tx, f.base_network_bp, f.proof_network_bp, f.base_subvention, f.proof_subvention, f.hash_reward, f.proof_reward));
    obs.inc("fee_schedules");
    let what = || format!("{:?}", f);
    let got = match got {
        Ok(x) => x,
        Err(_) => return,
    };
    obs.case(&("fee", ok, f.base_subvention == 0, f.proof_subvention == 0));
    // schedules with an excessive subvention at the highest batching rate alone are not judged
    if got.is_some() != ok && !(ok && (f.base_subvention as u128 > f.commitment_hash(4) || f.proof_subvention as u128 > f.proof_base_tx_count as u128 * f.lamports_per_tx as u128 + f.commitment_hash(4))) {
        obs.violation("validity of a fee schedule", &format!("{}: {}", what(), got.is_some()));
    }
    if let Some(g) = got {
        obs.inc("valid_fee_schedules");
        obs.ensure(borsh::BorshSerialize::try_to_vec(&g).unwrap() == f.encode(), "fee schedule's fields", what);
        obs.ensure(g.hash_tx_compensation().0 as u128 == f.comp(), "compensation per transaction", what);
        obs.ensure(g.base_commitment_hash_computation_fee().0 as u128 == f.base_hash(), "fee of a deposit's hash", what);
        for rate in 0..5 {
            obs.ensure(g.commitment_hash_computation_fee(rate).0 as u128 == f.commitment_hash(rate), "fee of a commitment's hash", || format!("{} rate {}", what(), rate));
        }
        let prep = r.gen_range(0..12);
        obs.ensure(g.proof_verification_computation_fee(prep).0 as u128 == f.proof(prep), "fee of a proof", || format!("{} {}", what(), prep));
        let a = amount(r);
        for (got, want) in [(g.base_commitment_network_fee.calc(a), f.base_network(a)), (g.proof_network_fee.calc(a), f.proof_network(a))] {
            obs.ensure(!fits(want) || got as u128 == want, "fee in basis points", || format!("{} amount {}: {}", what(), a, got));
            obs.ensure(fits(want) || got == u64::MAX, "fee in basis points of an amount out of range", || format!("{} amount {}: {}", what(), a, got));
        }
        // the sum for a proof
        let t = r.gen_range(0..TOKENS);
        let (s, q) = (price(r, true), price(r, true));
        let a = a >> r.gen_range(10..40);
        let p = TokenPrice::new_from_price(pp(s), pp(q), t);
        let got = run(|| g.proof_verification_fee(prep, 2, a, t, &p)).map(|t| (t.token_id(), t.amount()));
        let conv = |n: u128| if t == 0 { u64::try_from(n).ok() } else { lamports_in_token(n, s, q, tok(t).decimals) };
        let want = (|| Some(conv(f.proof(prep))?.checked_add(conv(f.commitment_hash(2))?)?.checked_add(u64::try_from(f.proof_network(a)).ok()?)?.checked_sub(conv(f.proof_subvention as u128)?)?))();
        obs.ensure(got == want.map(|x| (t, x)), "fee of a send", || format!("{} token {} amount {} {:?} {:?}: {:?} instead of {:?}", what(), t, a, s, q, got, want));
    }
}
pub fn t01(run: &Run) -> (Obs, Vec<String>) {
    let budget = run.budget(15, 600);
    let plan = Plan { cfg: Cfg { mutate: 0.15, deposit: 40, base: 20, mt: 15, start: 25, send: 20, price: 40, fee_edge: 0.4, evil_deposit: 0.2, evil_send: 0.1, ..Cfg::default() }, ..Plan::default() };
    run.parallel(8, |lane, obs| {
        let mut n = 0u64;
        while n < 6 || run.left(budget) {
            let seed = run.seed.wrapping_mul(1_000_003).wrapping_add(lane + 8 * n);
            let mut r = StdRng::seed_from_u64(seed ^ 0x70);
            if lane < 3 {
                history("T01", &plan, seed, lane + 3 * n, obs);
            } else {
                for _ in 0..400 {
                    arithmetic(&mut r, obs);
                    accounts(&mut r, obs);
                    conversions(&mut r, obs);
                    fees(&mut r, obs);
                }
                obs.eval();
            }
            n += 1;
            if !obs.violations.is_empty() || (run.start.elapsed().as_secs() > 240 && !run.thorough) {
                break;
            }
        }
    })
}
