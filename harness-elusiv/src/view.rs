//! Reads the program's accounts and compares them with the model.
use crate::env::*;
use crate::refm::*;
use crate::spec::*;
use borsh::BorshSerialize;
use elusiv::state::{
    commitment::*, fee::FeeAccount, governor::GovernorAccount, metadata::*, nullifier::NullifierAccount, proof::*, queue::{Queue, RingQueue},
    storage::StorageAccount,
};
use elusiv_types::ProgramAccount;
use minivm::Vm;
use solana_program::pubkey::Pubkey;
use std::collections::BTreeSet;

#[derive(Clone, Debug)]
pub struct Diff {
    pub tags: Tags,
    pub what: String,
}
pub fn d(tags: Tags, what: impl Into<String>) -> Diff {
    Diff { tags, what: what.into() }
}
macro_rules! same {
    ($o:expr, $t:expr, $n:literal, $a:expr, $b:expr) => {
        let (a, b) = (&$a, &$b);
        if a != b {
            $o.push(d($t, format!("{}: program {:?}, specification {:?}", $n, a, b)));
        }
    };
}
pub fn data(vm: &Vm, k: &Pubkey) -> Vec<u8> {
    (*vm.data(k)).clone()
}
pub fn ver_state(vm: &Vm, key: &Pubkey) -> Option<(St, Option<bool>)> {
    let mut b = data(vm, key);
    if b.len() != VER_SIZE {
        return None;
    }
    let v = VerificationAccount::new(&mut b).ok()?;
    let s = match v.get_state() {
        VerificationState::None => St::None,
        VerificationState::FeeTransferred => St::FeeTransferred,
        VerificationState::ProofSetup => St::ProofSetup,
        VerificationState::InsertNullifiers => St::InsertNullifiers,
        VerificationState::Finalized => St::Finalized,
        VerificationState::Closed => St::Closed,
    };
    Some((s, v.get_is_verified().option()))
}
pub fn set_verdict(vm: &mut Vm, key: &Pubkey, verdict: bool) {
    let b = vm.data_mut(key);
    let mut v = VerificationAccount::new(b).unwrap();
    v.set_is_verified(&elusiv_types::ElusivOption::Some(verdict));
}
pub fn closed_tree(vm: &mut Vm, tree: u32, root: &U256) {
    NullifierAccount::new(vm.data_mut(&null_key(tree))).unwrap().set_root(root);
}
pub fn trees_count(vm: &mut Vm, n: u32) {
    StorageAccount::new(vm.data_mut(&k().storage)).unwrap().set_trees_count(&n);
}
pub fn mth_setup(vm: &Vm) -> bool {
    let mut b = data(vm, &k().mth);
    CommitmentHashingAccount::new(&mut b).unwrap().get_setup()
}
pub fn moved_empty(vm: &Vm, tree: u32) -> bool {
    let mut b = data(vm, &null_key(tree));
    NullifierAccount::new(&mut b).unwrap().is_moved_nullifier_empty()
}
fn ring(b: &[u8]) -> (Vec<U256>, u32, u32) {
    let v = (0..BUFFER_LEN).map(|i| b[2 + i * 32..34 + i * 32].try_into().unwrap()).collect();
    let o = 2 + BUFFER_LEN * 32;
    (v, u32::from_le_bytes(b[o..o + 4].try_into().unwrap()), u32::from_le_bytes(b[o + 4..o + 8].try_into().unwrap()))
}
/// the buffer's content in insertion order
pub fn ring_in_order(b: &[u8]) -> Vec<U256> {
    let (v, len, ptr) = ring(b);
    let (len, ptr) = (len as usize, ptr as usize);
    if len > BUFFER_LEN || ptr > BUFFER_LEN {
        return vec![[9; 32]];
    }
    (0..len).map(|i| v[(ptr + BUFFER_LEN - len + i) % BUFFER_LEN]).collect()
}
pub fn queue_content(vm: &Vm) -> Option<Vec<(U256, u32, u32)>> {
    let mut b = data(vm, &k().cq);
    let mut a = CommitmentQueueAccount::new(&mut b).ok()?;
    let q = CommitmentQueue::new(&mut a);
    let n = q.len();
    let mut out = vec![];
    for i in 0..n as usize {
        let v = q.view(i).ok()?.try_to_vec().ok()?;
        out.push((v[..32].try_into().ok()?, u32::from_le_bytes(v[32..36].try_into().ok()?), u32::from_le_bytes(v[36..40].try_into().ok()?)));
    }
    Some(out)
}
pub fn meta_queue_content(vm: &Vm) -> Option<Vec<Meta>> {
    let mut b = data(vm, &k().mq);
    let mut a = MetadataQueueAccount::new(&mut b).ok()?;
    let q = MetadataQueue::new(&mut a);
    (0..q.len() as usize).map(|i| q.view(i).ok()?.try_to_vec().ok()?.try_into().ok()).collect()
}
pub fn fee_bytes(f: &elusiv::state::fee::ProgramFee) -> Vec<u8> {
    f.try_to_vec().unwrap()
}

/// Compares one program account with the model
pub fn compare(vm: &Vm, m: &Model, key: &Pubkey) -> Vec<Diff> {
    let kk = k();
    let mut o = vec![];
    if key == &kk.storage {
        let mut b = data(vm, key);
        let a = StorageAccount::new(&mut b).unwrap();
        same!(o, &["M01", "C01"], "next leaf index", a.get_next_commitment_ptr(), m.ptr);
        same!(o, &["M01", "M02"], "active tree index", a.get_trees_count(), m.trees_count);
        // observable: which roots are accepted
        let history: BTreeSet<U256> = (0..HISTORY).map(|i| a.get_active_mt_root_history(i)).filter(|r| *r != [0; 32]).collect();
        let want: BTreeSet<U256> = m.roots.iter().copied().collect();
        let valid: Vec<U256> = history.iter().filter(|r| a.is_root_valid(r)).copied().collect();
        for r in &want {
            if !a.is_root_valid(r) {
                o.push(d(&["M02", "M01", "L01"], "a root of the last 100 is not accepted"));
                break;
            }
        }
        for r in &valid {
            // the first 100 roots of a tree overwrite the empty slots only
            if !want.contains(r) {
                o.push(d(&["M02", "M01"], "a root is accepted that is none of the last 100"));
                break;
            }
        }
    } else if key == &kk.mth {
        let mut b = data(vm, key);
        let a = CommitmentHashingAccount::new(&mut b).unwrap();
        let t: Tags = &["H01", "C01", "M01"];
        same!(o, t, "tree hashing active", a.get_is_active(), m.mth.active);
        same!(o, t, "tree hashing set up", a.get_setup(), m.mth.setup);
        if m.mth.setup {
            same!(o, t, "position of the batch", a.get_ordering(), m.mth.ordering);
        }
        if m.mth.active {
            same!(o, t, "batching rate of the batch", a.get_batching_rate(), m.mth.rate);
            same!(o, t, "fee version of the batch", a.get_fee_version(), m.mth.fee_version);
            same!(o, t, "hashing progress", a.get_instruction(), m.mth.instr);
            same!(o, t, "finalization progress", a.get_finalization_ix(), m.mth.fin);
        }
    } else if key == &kk.cq {
        same!(o, &["C01", "C02"], "commitment queue", queue_content(vm), Some(m.cq.iter().copied().collect::<Vec<_>>()));
    } else if key == &kk.mq {
        same!(o, &["C01", "C02"], "metadata queue", meta_queue_content(vm), Some(m.mq.iter().copied().collect::<Vec<_>>()));
    } else if key == &kk.bbuf {
        let have = ring_in_order(&vm.data(key));
        same!(o, &["C02", "L01"], "base commitment buffer", have, m.bbuf.iter().copied().collect::<Vec<_>>());
    } else if key == &kk.cbuf {
        let have = ring_in_order(&vm.data(key));
        let want: Vec<U256> = m.cbuf.iter().map(|x| x.unwrap_or([0; 32])).collect();
        same!(o, &["C02", "L01", "V03"], "commitment buffer", have, want);
    } else if key == &kk.metadata {
        let mut b = data(vm, key);
        let a = MetadataAccount::new(&mut b).unwrap();
        same!(o, &["C01"], "next metadata index", a.get_next_metadata_ptr(), m.meta_ptr);
    } else if key == &kk.governor {
        let mut b = data(vm, key);
        let a = GovernorAccount::new(&mut b).unwrap();
        same!(o, &["A02"], "fee version", a.get_fee_version(), m.fee_version);
        same!(o, &["A02"], "batching rate", a.get_commitment_batching_rate(), m.rate);
        same!(o, &["A02"], "fee", fee_bytes(&a.get_program_fee()), m.fee().encode());
    } else if let Some(x) = m.base.get(key) {
        let mut b = data(vm, key);
        if b.len() != BASE_SIZE {
            return vec![d(&["A02", "C01"], "hashing account has the wrong size")];
        }
        let a = BaseCommitmentHashingAccount::new(&mut b).unwrap();
        let t: Tags = &["H01", "C01"];
        same!(o, t, "base hashing active", a.get_is_active(), x.active);
        if x.active {
            same!(o, t, "base hashing progress", a.get_instruction(), x.instr);
            same!(o, &["C01", "F01"], "fee version of the deposit", a.get_fee_version(), x.req.fee_version);
            same!(o, &["C01", "F01"], "payer of the deposit", a.get_fee_payer(), x.payer.to_bytes());
            same!(o, &["C01"], "batching rate of the deposit", a.get_min_batching_rate(), x.req.rate);
            same!(o, &["C01"], "metadata of the deposit", a.get_metadata().to_vec(), x.meta.to_vec());
        }
    } else if let Some(x) = m.ver.get(key) {
        let mut b = data(vm, key);
        if b.len() != VER_SIZE {
            return vec![d(&["A02", "V03"], "verification account has the wrong size")];
        }
        let st = ver_state(vm, key);
        same!(o, &["V03", "N01", "F03"], "phase and verdict", st, Some((x.state, x.verdict)));
        let a = VerificationAccount::new(&mut b).unwrap();
        same!(o, &["V02", "V04"], "request", a.get_request().try_to_vec().unwrap(), x.req.enc(Enc(vec![])).0);
        same!(o, &["V01", "K01"], "verifying key", a.get_vkey_id(), x.vkey);
        same!(o, &["M02", "N01"], "trees", a.all_tree_indices(), x.trees);
        let od = a.get_other_data();
        same!(o, &["A01", "V03"], "fee payer", od.fee_payer.skip_mr(), x.payer.to_bytes());
        same!(o, &["F03", "N01"], "duplicate account handling", od.skip_nullifier_pda, x.skip);
        if x.state >= St::FeeTransferred {
            let t: Tags = &["F04", "F03", "F01"];
            same!(o, t, "recorded refund account", od.fee_payer_account.skip_mr(), x.other.payer_account.to_bytes());
            same!(o, &["F04", "C01"], "recorded batching rate", od.min_batching_rate, x.other.min_rate);
            same!(o, t, "recorded token", od.token_id, x.other.token);
            same!(o, t, "recorded subvention", od.subvention, x.other.subvention);
            same!(o, t, "recorded network fee", od.network_fee, x.other.network_fee);
            same!(o, t, "recorded hashing fee (lamports)", od.commitment_hash_fee.0, x.other.ch_fee);
            same!(o, t, "recorded hashing fee", od.commitment_hash_fee_token, x.other.ch_fee_token);
            same!(o, t, "recorded verification fee", od.proof_verification_fee, x.other.proof_fee);
            same!(o, t, "recorded account rent", od.associated_token_account_rent, x.other.ata_rent_token);
        }
        if x.state >= St::InsertNullifiers {
            same!(o, &["V04", "F03"], "recorded recipient", od.recipient_wallet.option().map(|r| r.skip_mr()), x.recipient.map(|r| r.to_bytes()));
        }
        if x.state == St::None {
            let s = x.req.signals().unwrap();
            let have: Vec<U256> = (0..14).map(|i| a.load_raw_public_input(i)).collect();
            same!(o, &["V02", "V01"], "public inputs", have, s);
            same!(o, &["V02", "V01", "F04"], "number of preparation steps", a.get_prepare_inputs_instructions_count() as usize, x.prep);
        }
    } else if let Some((t, n)) = m.nulls.iter().find(|(t, _)| null_key(**t) == *key) {
        let mut b = data(vm, key);
        let a = NullifierAccount::new(&mut b).unwrap();
        same!(o, &["N02", "N01"], "number of nullifiers", a.get_nullifier_hash_count() as usize, n.set.len());
        if *t < m.trees_count {
            same!(o, &["M02", "M01"], "root of the closed tree", a.get_root(), n.root);
        }
        o.extend(nulls(vm, *t, n, false));
    } else if m.dups.contains(key) {
        if vm.data(key).len() != DUP_SIZE {
            o.push(d(&["N01", "A02"], "duplicate account has the wrong size"));
        }
    } else if let Some((v, f)) = m.fees.iter().find(|(v, _)| fee_key(**v) == *key) {
        let mut b = data(vm, key);
        let _ = v;
        let a = FeeAccount::new(&mut b).unwrap();
        same!(o, &["A02"], "stored fee", fee_bytes(&a.get_program_fee()), f.encode());
    }
    o
}
const SEG: usize = 65_536;
/// the ordered content of a nullifier segment, read along its links
pub fn map_values(seg: &[u8]) -> Option<Vec<[u64; 4]>> {
    let b = &seg[1..];
    let u16_at = |o: usize| u16::from_le_bytes(b[o..o + 2].try_into().unwrap()) as usize;
    let (len, min, max) = (u32::from_le_bytes(b[..4].try_into().unwrap()) as usize, u16_at(4), u16_at(6));
    let (next, prev) = (8 + 30, 8 + 30 + 2 * SEG);
    let keys = prev + 2 * SEG;
    assert_eq!(b.len(), keys + 32 * SEG, "layout of the nullifier segments");
    if len > SEG {
        return None;
    }
    let mut out = Vec::with_capacity(len);
    let mut p = min;
    for i in 0..len {
        let key: U256 = b[keys + 32 * p..keys + 32 * p + 32].try_into().unwrap();
        out.push(ord(&key));
        if i + 1 < len {
            let n = u16_at(next + 2 * p);
            if u16_at(prev + 2 * n) != p {
                return None;
            }
            p = n;
        }
    }
    if len > 0 && p != max {
        return None;
    }
    Some(out)
}
/// the nullifier segments hold exactly the set, ascending
pub fn nulls(vm: &Vm, t: u32, n: &Nulls, deep: bool) -> Vec<Diff> {
    let mut o = vec![];
    let tags: Tags = &["N02", "N01"];
    if n.moving || (!deep && n.set.len() > 2000) {
        return o;
    }
    let mut b = data(vm, &null_key(t));
    let a = NullifierAccount::new(&mut b).unwrap();
    let total = n.set.len();
    let sorted: Vec<[u64; 4]> = n.set.iter().copied().collect();
    for (i, ch) in n.children.iter().enumerate() {
        let Some(ch) = ch else { continue };
        let (from, to) = ((i * SEG).min(total), ((i + 1) * SEG).min(total));
        let want = &sorted[from..to];
        if want.len() == SEG && a.get_max_values(i).option().map(|x| ord(&x)) != want.last().copied() {
            o.push(d(tags, format!("maximum of the full segment {}", i)));
        }
        let have = map_values(&vm.data(ch));
        if have.as_deref() != Some(want) {
            let what = match have {
                Some(h) => format!("{} values, first difference at {:?}", h.len(), h.iter().zip(want).position(|(a, b)| a != b)),
                None => "inconsistent links".into(),
            };
            o.push(d(tags, format!("segment {} should hold {} ordered values: {}", i, want.len(), what)));
        }
    }
    o
}
/// Everything, including the contents of all segments
pub fn deep(vm: &Vm, base: &Vm, m: &Model) -> Vec<Diff> {
    let kk = k();
    let mut o = vec![];
    for key in [kk.storage, kk.mth, kk.cq, kk.mq, kk.bbuf, kk.cbuf, kk.metadata, kk.governor].iter().chain(m.base.keys()).chain(m.ver.keys()).chain(m.dups.iter()) {
        o.extend(compare(vm, m, key));
    }
    for v in m.fees.keys() {
        o.extend(compare(vm, m, &fee_key(*v)));
    }
    for (t, n) in &m.nulls {
        o.extend(compare(vm, m, &null_key(*t)));
        o.extend(nulls(vm, *t, n, true));
    }
    // metadata by position
    for (i, ch) in kk.metadata_children.iter().enumerate() {
        let data = vm.data(ch);
        if std::sync::Arc::ptr_eq(&data, &base.data(ch)) && !m.meta.keys().any(|p| *p as usize / SEG == i) {
            continue;
        }
        for (p, want) in m.meta.iter().filter(|(p, _)| **p as usize / SEG == i) {
            let at = 1 + (*p as usize % SEG) * META_LEN;
            if data[at..at + META_LEN] != want[..] {
                o.push(d(&["C01"], format!("metadata of leaf {}", p)));
                break;
            }
        }
    }
    o.extend(tree_nodes(vm, base, m));
    if m.ptr == m.tree.len as u32 {
        let p = m.ptr;
        let mut l = vec![0, p / 2, p.saturating_sub(1), p, p + 1, p.wrapping_sub(1) ^ 1];
        l.retain(|x| *x < TREE_LEAVES);
        l.sort();
        l.dedup();
        o.extend(openings(vm, m, &l));
    }
    o
}
/// the stored nodes of the active tree, as far as they are observable (below the next index)
pub fn tree_nodes(vm: &Vm, base: &Vm, m: &Model) -> Vec<Diff> {
    let mut o = vec![];
    let _ = base;
    if m.ptr == 0 || m.ptr != m.tree.len as u32 {
        return o;
    }
    for level in 0..=HEIGHT {
        let width = ((m.ptr - 1) >> level) as usize + 1;
        let from = ((m.tree.prefix >> level) as usize).saturating_sub(3);
        for i in from..width {
            // level counted from the leaves
            let want = mr(&m.tree.node(level, i));
            if stored_node(vm, HEIGHT - level, i) != want {
                o.push(d(&["M01", "M02"], format!("stored node {} of level {} (from the leaves)", i, level)));
                return o;
            }
        }
    }
    o
}
/// node `i` of the level counted from the root
pub fn stored_node(vm: &Vm, level: usize, i: usize) -> U256 {
    let g = (1usize << level) - 1 + i;
    let data = vm.data(&k().storage_children[g / 83_887]);
    let at = 1 + (g % 83_887) * 32;
    data[at..at + 32].try_into().unwrap()
}
/// the Merkle openings the program itself would use or report for some leaves: existing ones, and those to come
pub fn openings(vm: &Vm, m: &Model, leaves: &[u32]) -> Vec<Diff> {
    use elusiv_types::ParentAccount;
    use solana_program::account_info::AccountInfo;
    let owner = pid();
    for &leaf in leaves {
        let which = path_children(leaf, 1);
        let mut bufs: Vec<Vec<u8>> = which.iter().map(|i| (*vm.data(&k().storage_children[*i])).clone()).collect();
        let mut lam = vec![1u64; which.len()];
        let infos: Vec<AccountInfo> = bufs.iter_mut().zip(lam.iter_mut()).zip(which.iter()).map(|((x, l), i)| AccountInfo::new(&k().storage_children[*i], false, true, l, &mut x[..], &owner, false, 0)).collect();
        let at: Vec<Option<&AccountInfo>> = (0..25).map(|i| which.iter().position(|t| *t == i).map(|p| &infos[p])).collect();
        let mut b = data(vm, &k().storage);
        let s = StorageAccount::new_with_child_accounts(&mut b, at).unwrap();
        let want: Vec<U256> = (0..HEIGHT).map(|l| mr(&m.tree.node(l, (leaf as usize >> l) ^ 1))).collect();
        match s.get_mt_opening(leaf as usize) {
            Ok(got) => {
                if let Some(l) = (0..HEIGHT).find(|l| got[*l] != want[*l]) {
                    return vec![d(&["M01"], format!("opening of leaf {} ({} leaves): sibling of level {} (from the leaves)", leaf, m.ptr, l))];
                }
            }
            Err(e) => return vec![d(&["M01"], format!("opening of leaf {} ({} leaves): {:?}", leaf, m.ptr, e))],
        }
        for l in 0..=HEIGHT {
            let i = leaf as usize >> l;
            if s.get_node(i, HEIGHT - l).ok() != Some(mr(&m.tree.node(l, i))) {
                return vec![d(&["M01", "M02"], format!("node over leaf {} ({} leaves) at level {} (from the leaves)", leaf, m.ptr, l))];
            }
        }
    }
    vec![]
}
