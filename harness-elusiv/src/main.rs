mod checks;
mod engine;
mod env;
mod flow;
mod groth;
mod play;
mod refm;
mod spec;
mod view;
mod without;
#[cfg(feature = "bytes")]
mod x_bytes;
#[cfg(not(feature = "bytes"))]
use without::bytes as x_bytes;
#[cfg(feature = "hash")]
mod x_hash;
#[cfg(not(feature = "hash"))]
use without::hash as x_hash;
#[cfg(feature = "inputs")]
mod x_inputs;
#[cfg(not(feature = "inputs"))]
use without::inputs as x_inputs;
mod x_live;
#[cfg(feature = "null")]
mod x_null;
#[cfg(not(feature = "null"))]
use without::null as x_null;
#[cfg(feature = "proof")]
mod x_proof;
#[cfg(not(feature = "proof"))]
use without::proof as x_proof;
#[cfg(feature = "queue")]
mod x_queue;
#[cfg(not(feature = "queue"))]
use without::queue as x_queue;
mod x_send;
#[cfg(feature = "setup")]
mod x_setup;
#[cfg(not(feature = "setup"))]
use without::setup as x_setup;
#[cfg(feature = "token")]
mod x_token;
#[cfg(not(feature = "token"))]
use without::token as x_token;
mod x_tree;
#[cfg(feature = "vkey")]
mod x_vkey;
#[cfg(not(feature = "vkey"))]
use without::vkey as x_vkey;
mod x_wrap;
use checks::*;
use minivm::report::*;
use play::Cfg;

const ASSUME: &[&str] = &[
    "the executed program is /repo's elusiv library called through its entrypoint by a small Solana runtime (minivm) that enforces the runtime's account rules and implements the system, SPL token and associated-token programs natively",
    "the reference model (spec.rs, refm.rs) states what the documentation promises; SHA-256, Poseidon constants and Pyth's account layout are taken from their crates",
    "nothing is claimed beyond the executions that were observed",
];

fn main() {
    refm::validate_reference();
    minivm::init_runtime();
    let prop: &'static str = Box::leak(std::env::args().nth(1).unwrap_or("ALL".into()).into_boxed_str());
    let verif = std::env::args().nth(2).unwrap_or("/verif".into());
    let run = Run::from_env(prop);
    if prop == "O01TRACE" {
        let a: Vec<String> = std::env::args().collect();
        std::process::exit(x_wrap::child(&run, a[2].parse().unwrap(), a[3] == "1", &a[4]));
    }
    let rule = "a history counts once per distinct behaviour seen: (instructions of the transaction, accepted) or (reason of the rejection, instruction)";
    let base = Cfg::default();
    let (obs, errors, floors): (Obs, Vec<String>, Vec<(&str, u64)>) = match prop {
        "ALL" => {
            let (o, e) = histories(&run, prop, &Plan::default());
            (o, e, vec![])
        }
        "CROWD" => {
            let (o, e) = run.parallel(8, |l, obs| {
                for i in 0..3 {
                    crowded_history("ALL", run.seed * 100 + l * 5 + i, obs);
                }
            });
            (o, e, vec![])
        }
        "F01" => {
            let p = Plan { cfg: Cfg { mutate: 0.4, evil_deposit: 0.2, evil_send: 0.2, evil_final: 0.25, ..base }, crowded: 12, ..Plan::default() };
            let (o, e) = histories(&run, prop, &p);
            (o, e, vec![("accepted", 10_000), ("rejected_as_specified", 4_000), ("deep_comparisons", 30)])
        }
        "F02" => {
            let p = Plan { cfg: Cfg { mutate: 0.3, deposit: 50, base: 30, mt: 30, start: 2, send: 4, price: 6, evil_deposit: 0.5, ..base }, probe: 0.0, ..Plan::default() };
            let (o, e) = histories(&run, prop, &p);
            (o, e, vec![("ok StoreBaseCommitment", 1_000), ("hostile_deposits", 1_000)])
        }
        "F03" => {
            let p = Plan { cfg: Cfg { mutate: 0.2, deposit: 4, base: 6, mt: 12, start: 16, send: 60, price: 2, invalid: 0.25, evil_final: 0.3, ..base }, crowded: 10, ..Plan::default() };
            let (o, e) = histories(&run, prop, &p);
            (o, e, vec![("ok FinalizeVerificationTransferToken", 400), ("ok FinalizeVerificationTransferLamports", 20), ("hostile_finalizations", 500)])
        }
        "F04" => {
            let p = Plan { cfg: Cfg { mutate: 0.2, deposit: 4, base: 6, mt: 12, start: 50, send: 50, price: 10, fee_edge: 0.5, evil_send: 0.1, indices: 40, ..base }, ..Plan::default() };
            let (o, e) = x_send::f04(&run, &p);
            (o, e, vec![("ok InitVerificationTransferFee", 800), ("reject: declared fee too low", 30), ("staged_payments", 1_000), ("staged_payments_accepted_after_preparation", 100), ("edge_amounts", 3_000), ("edge_amounts_accepted", 500)])
        }
        "N01" => {
            let p = Plan { cfg: Cfg { mutate: 0.2, deposit: 3, base: 4, mt: 8, start: 40, send: 60, price: 1, reuse: 0.35, evil_send: 0.25, evil_final: 0.15, indices: 5, ..base }, crowded: 4, ..Plan::default() };
            let (o, e) = histories(&run, prop, &p);
            (o, e, vec![("ok FinalizeVerificationInsertNullifier", 1_000), ("ok InitVerification", 800)])
        }
        "M01" => {
            let p = Plan { cfg: Cfg { mutate: 0.15, deposit: 30, base: 40, mt: 50, start: 3, send: 8, misc: 3, ..base }, aged_every: 2, turns: 700, ..Plan::default() };
            let (mut o, mut e) = histories(&run, prop, &p);
            let (o2, e2) = x_tree::stages(&run, prop, p.quick + 10, p.thorough + 300);
            o.merge(o2);
            e.extend(e2);
            (o, e, vec![("ok FinalizeCommitmentHash", 1_000), ("deep_comparisons", 30), ("staged_tree_instructions", 4_000), ("staged_batches", 20), ("staged_resets", 3)])
        }
        "M02" => {
            let p = Plan { cfg: Cfg { mutate: 0.1, deposit: 20, base: 30, mt: 40, start: 30, send: 20, misc: 3, evil_send: 0.5, ..base }, aged_every: 2, turns: 600, ..Plan::default() };
            let (mut o, mut e) = histories(&run, prop, &p);
            let (o2, e2) = x_tree::stages(&run, prop, p.quick + 10, p.thorough + 300);
            o.merge(o2);
            e.extend(e2);
            (o, e, vec![("hostile_requests", 800), ("ok InitVerification", 800), ("ok ResetActiveMerkleTree", 8), ("staged_tree_instructions", 4_000), ("staged_batches", 20), ("staged_resets", 3)])
        }
        "C01" => {
            let p = Plan { cfg: Cfg { mutate: 0.3, deposit: 30, base: 40, mt: 30, start: 6, send: 20, misc: 2, evil_deposit: 0.15, ..base }, aged_every: 4, ..Plan::default() };
            let (o, e) = histories(&run, prop, &p);
            (o, e, vec![("ok FinalizeBaseCommitmentHash", 1_000), ("ok InitCommitmentHash", 500), ("deep_comparisons", 30)])
        }
        "V03" => {
            let p = Plan { cfg: Cfg { mutate: 0.6, deposit: 3, base: 4, mt: 8, start: 20, send: 60, price: 1, invalid: 0.3, real: 0.02, evil_final: 0.3, ..base }, crowded: 10, ..Plan::default() };
            let (o, e) = x_send::v03(&run, &p);
            (o, e, vec![("hostile_transactions", 4_000), ("ok InitVerificationProof", 400), ("staged_instructions", 10_000), ("staged_sends", 40), ("staged_real_verdicts", 4), ("rejections_among_many", 30), ("rejections_among_many_late", 8)])
        }
        "V04" => {
            let p = Plan { cfg: Cfg { mutate: 0.1, deposit: 3, base: 4, mt: 8, start: 24, send: 70, price: 1, invalid: 0.2, evil_final: 0.7, indices: 3, ..base }, crowded: 10, ..Plan::default() };
            let (o, e) = x_send::v04(&run, &p);
            (o, e, vec![("hostile_finalizations", 3_000), ("ok FinalizeVerificationSend", 500), ("crossed_finalizations", 1_500), ("crossed_honest", 40)])
        }
        "L01" => {
            let p = Plan { cfg: Cfg { mutate: 0.25, ..base }, crowded: 8, ..Plan::default() };
            let (o, e) = x_live::l01(&run, &p);
            (o, e, vec![("accepted", 10_000), ("histories", 30), ("live_sends", 20)])
        }
        "A01" => {
            let p = Plan { cfg: Cfg { mutate: 0.1, start: 14, send: 40, ..base }, probe: 0.25, turns: 200, aged_every: 0, complete: false, ..Plan::default() };
            let (o, e) = histories(&run, prop, &p);
            (o, e, vec![("account_replacements", 20_000), ("signatures_dropped", 300)])
        }
        "H01" => {
            let (o, e) = x_hash::h01(&run);
            (o, e, vec![("batches", 160), ("base_hashings", 1_600), ("permutations", 1_600), ("stored_nodes", 3_000), ("ok ComputeCommitmentHash", 2_000), ("hostile_transactions", 200)])
        }
        "K01" => {
            let (o, e) = x_vkey::k01(&run);
            (o, e, vec![("vkey_histories", 96), ("ok SetVkeyData", 500), ("last_packets", 50), ("replaced_versions", 20), ("ok FreezeVkey", 10), ("refused SetVkeyData", 200), ("packets", 3_000), ("verifications_under_a_new_key", 2)])
        }
        "V01" => {
            let (o, e) = x_proof::v01(&run);
            (o, e, vec![("verifications", 180), ("verdict: accepted", 60), ("verdict: rejected", 60), ("verification_steps", 10_000), ("production_keys", 1)])
        }
        "C02" => {
            let (o, e) = x_queue::c02(&run);
            (o, e, vec![("queue_positions", 2_000), ("queue_operations", 100_000), ("refused enqueue", 300), ("batches_taken", 1_000), ("buffer_operations", 100_000), ("refused try_insert", 5_000), ("flooded_histories", 30), ("reject: queue is full", 500), ("ok FinalizeBaseCommitmentHash", 500), ("ok FinalizeCommitmentHash", 200), ("histories", 30)])
        }
        "S01" => {
            let (o, e) = x_bytes::s01(&run);
            (o, e, vec![("encodings", 50_000), ("field_writes", 20_000), ("instructions_decoded", 5_000), ("reject: undecodable instruction data", 50)])
        }
        "O01" => {
            let (o, e) = x_wrap::o01(&run, &verif);
            (o, e, vec![("compared_transactions", 40_000), ("compared_accepted", 20_000), ("compared_network_transactions", 5_000), ("compared_network_accepted", 2_000), ("extreme_histories", 400), ("extreme_fee_schedules_accepted", 100), ("extreme_deposits", 1_000), ("extreme_requests", 400), ("extreme_sends", 20), ("extreme_prices", 1_000)])
        }
        "A02" => {
            let (o, e) = x_setup::a02(&run);
            (o, e, vec![("setup_histories", 40), ("setup_orders", 20), ("segments_bound", 2_500), ("accounts_opened", 500), ("segment used content", 400), ("segment unfit", 1_500), ("ok InitNewFeeVersion", 60), ("ok CreateNewAccountsV1", 20), ("refused CreateNewAccountsV1", 400), ("spoiled_instructions", 800), ("repeated_instructions", 250), ("histories", 16)])
        }
        "V02" => {
            let (o, e) = x_inputs::v02(&run);
            (o, e, vec![("requests_encoded", 50_000), ("hashes", 50_000), ("proofs_made", 30), ("finalized_as_proven", 30), ("foreign_finalizations", 100), ("foreign_requests_verified", 100), ("stored_field_changes", 20), ("bound_finalized", 300), ("bound_finalizations_varied", 3_000), ("bound_requests_varied", 800), ("ok InitVerification", 500), ("hostile_requests", 500)])
        }
        "T01" => {
            let (o, e) = x_token::t01(&run);
            (o, e, vec![("conversions", 10_000), ("representable_conversions", 3_000), ("unavailable_prices", 300), ("compared_with_exact_value", 300), ("token_operations", 10_000), ("valid_fee_schedules", 500), ("price_changes", 200), ("ok StoreBaseCommitment", 200)])
        }
        "N02" => {
            let (o, e) = x_null::n02(&run);
            (o, e, vec![("insertions", 12_000), ("account_insertions", 2_000), ("moves", 200), ("account_histories", 6), ("crowded_histories", 6), ("displaced_checked", 200)])
        }
        _ => {
            println!("unknown property {}", prop);
            std::process::exit(3);
        }
    };
    if std::env::var("VERBOSE").is_ok() {
        for (k, v) in &obs.counters {
            println!("{:60} {}", k, v);
        }
        for v in obs.violations.iter().take(4) {
            println!("VIOL {} :: {}", v.sig, v.detail.chars().take(1500).collect::<String>());
        }
    }
    let left = without::left_out();
    let (mut assume, mut floors) = (ASSUME.to_vec(), floors);
    let note = format!("monitors left out because they do not build against this tree: {}", left.join(", "));
    if !left.is_empty() {
        assume.push(&note);
        println!("NOTE {}", note);
        // what only the missing monitors observe cannot be asked for
        floors.retain(|f| obs.counters.get(f.0).copied().unwrap_or(0) > 0);
        floors.push(("accepted", 2_000));
    }
    std::process::exit(run.finish(&verif, obs, errors, rule, &assume, &floors));
}
