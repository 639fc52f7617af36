//! Records what was executed and with what effect, so that two builds of the same program can be compared
use crate::report::h64;
use crate::Acc;
use solana_program::{instruction::Instruction, pubkey::Pubkey};
use std::cell::RefCell;
use std::collections::HashMap;
use std::io::{Read, Write};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Rec {
    /// the transaction
    pub tx: u64,
    pub accepted: bool,
    /// a panic of the program (arithmetic overflow, index out of bounds, ..)
    pub panicked: bool,
    /// changes of accounts, zero if there are none
    pub effect: u64,
}
#[derive(Default)]
struct State {
    on: bool,
    recs: Vec<Rec>,
    keep: Option<usize>,
    kept: Option<(Vec<Instruction>, String)>,
}
thread_local! {
    static T: RefCell<State> = RefCell::new(State::default());
}
/// starts recording on this thread; transaction `keep` is retained in full
pub fn start(keep: Option<usize>) {
    T.with(|t| *t.borrow_mut() = State { on: true, keep, ..State::default() });
}
pub fn stop() -> (Vec<Rec>, Option<(Vec<Instruction>, String)>) {
    T.with(|t| {
        let s = std::mem::take(&mut *t.borrow_mut());
        (s.recs, s.kept)
    })
}
/// not recorded: what is shared between histories
pub fn hush<R>(f: impl FnOnce() -> R) -> R {
    let was = T.with(|t| std::mem::replace(&mut t.borrow_mut().on, false));
    let r = f();
    T.with(|t| t.borrow_mut().on = was);
    r
}
pub(crate) fn on() -> bool {
    T.with(|t| t.borrow().on)
}
fn acc(k: &Pubkey, before: Option<&Acc>, after: Option<&Acc>) -> u64 {
    let empty = Acc::empty();
    let (b, a) = (before.unwrap_or(&empty), after.unwrap_or(&empty));
    if b.same(a) {
        return 0;
    }
    let mut h = vec![h64(&(k.to_bytes(), a.lamports, a.owner.to_bytes(), a.data.len()))];
    if !std::sync::Arc::ptr_eq(&b.data, &a.data) {
        for (i, c) in a.data.chunks(4096).enumerate() {
            let old = b.data.get(i * 4096..(i * 4096 + c.len()));
            if old != Some(c) {
                h.push(h64(&(i, c)));
            }
        }
    }
    h64(&h)
}
pub(crate) fn record(ixs: &[Instruction], ok: bool, panicked: bool, err: String, before: &HashMap<Pubkey, Option<Acc>>, after: &HashMap<Pubkey, Acc>) {
    let mut tx = vec![];
    for i in ixs {
        let metas: Vec<_> = i.accounts.iter().map(|m| (m.pubkey.to_bytes(), m.is_signer, m.is_writable)).collect();
        tx.push(h64(&(i.program_id.to_bytes(), metas, &i.data)));
    }
    let mut effect = 0u64;
    for (k, b) in before {
        effect ^= acc(k, b.as_ref(), after.get(k));
    }
    T.with(|t| {
        let mut t = t.borrow_mut();
        if t.keep == Some(t.recs.len()) {
            t.kept = Some((ixs.to_vec(), err));
        }
        t.recs.push(Rec { tx: h64(&tx), accepted: ok, panicked, effect });
    });
}

/// histories by their number
pub type Traces = std::collections::BTreeMap<u64, Vec<Rec>>;
pub fn write(path: &str, t: &Traces) -> std::io::Result<()> {
    let mut b: Vec<u8> = vec![];
    b.extend((t.len() as u64).to_le_bytes());
    for (k, v) in t {
        b.extend(k.to_le_bytes());
        b.extend((v.len() as u64).to_le_bytes());
        for r in v {
            b.extend(r.tx.to_le_bytes());
            b.extend(r.effect.to_le_bytes());
            b.push(r.accepted as u8 + 2 * r.panicked as u8);
        }
    }
    std::fs::File::create(path)?.write_all(&b)
}
pub fn read(path: &str) -> Option<Traces> {
    let mut b = vec![];
    std::fs::File::open(path).ok()?.read_to_end(&mut b).ok()?;
    let mut p = 0usize;
    fn n(b: &[u8], p: &mut usize) -> Option<u64> {
        let v = u64::from_le_bytes(b.get(*p..*p + 8)?.try_into().ok()?);
        *p += 8;
        Some(v)
    }
    let mut t = Traces::new();
    for _ in 0..n(&b, &mut p)? {
        let k = n(&b, &mut p)?;
        let mut v = vec![];
        for _ in 0..n(&b, &mut p)? {
            let (tx, effect) = (n(&b, &mut p)?, n(&b, &mut p)?);
            let f = *b.get(p)?;
            p += 1;
            v.push(Rec { tx, effect, accepted: f & 1 == 1, panicked: f & 2 == 2 });
        }
        t.insert(k, v);
    }
    Some(t)
}

pub enum Diff {
    /// the same history
    Same,
    /// at this transaction: accepted with wrapping arithmetic, refused with checked arithmetic
    Refused(usize),
    /// refused with wrapping arithmetic, accepted with checked arithmetic
    Accepted(usize),
    Effect(usize),
    /// a rejected transaction left something behind
    Residue(usize),
    /// the histories are not comparable: a defect of the harness
    Foreign(usize),
}
pub fn compare(wrapping: &[Rec], checked: &[Rec]) -> Diff {
    for (i, w) in wrapping.iter().enumerate() {
        let c = match checked.get(i) {
            Some(c) => c,
            None => return Diff::Foreign(i),
        };
        if w.tx != c.tx {
            return Diff::Foreign(i);
        }
        if w.accepted && !c.accepted {
            return Diff::Refused(i);
        }
        if !w.accepted && c.accepted {
            return Diff::Accepted(i);
        }
        if !w.accepted && (w.effect != 0 || c.effect != 0) {
            return Diff::Residue(i);
        }
        if w.effect != c.effect {
            return Diff::Effect(i);
        }
    }
    if checked.len() > wrapping.len() { Diff::Foreign(wrapping.len()) } else { Diff::Same }
}
