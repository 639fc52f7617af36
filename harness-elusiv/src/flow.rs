//! Honest flows
#![allow(dead_code)]
use crate::env::*;
use crate::groth;
use crate::refm::*;
use elusiv::state::proof::VerificationAccount;
use elusiv_types::{ElusivOption, ProgramAccount};
use minivm::*;
use solana_program::{instruction::Instruction, pubkey::Pubkey};

pub struct Flow {
    pub vm: Vm,
    pub tree: Tree,
    pub queue: Vec<Fr>,
    pub trees: u32,
    pub rate: u32,
    pub n: u64,
}
pub use ark_bn254::Fr;
pub type Tx = Result<(), String>;
impl Flow {
    pub fn new(rate: u32, fee: u32) -> Self {
        init_runtime();
        Flow { vm: base_vm(rate, fee), tree: Tree { nodes: Default::default(), len: 0, prefix: 0, fill: vec![] }, queue: vec![], trees: 0, rate, n: 0 }
    }
    pub fn copy(&self) -> Self {
        Flow { vm: self.vm.clone(), tree: self.tree.clone(), queue: self.queue.clone(), trees: self.trees, rate: self.rate, n: self.n }
    }
    pub fn tx(&mut self, ixs: &[Instruction]) -> Tx {
        match catch(|| self.vm.execute(ixs)) {
            Ok(Ok(_)) => Ok(()),
            Ok(Err(e)) => Err(format!("{:?}", e)),
            Err(e) => Err(format!("panic {}", e)),
        }
    }
    pub fn rnd(&mut self) -> Fr {
        self.n += 1;
        poseidon2(Fr::from(self.n), Fr::from(77u64))
    }
    pub fn base_req(&mut self, token: u16, amount: u64) -> BaseReq {
        let b = self.rnd();
        let recent = self.tree.len as u32;
        BaseReq { base: raw(&b), recent, amount, token, commitment: raw(&commitment_of(b, amount, token, recent)), fee_version: 0, rate: self.rate }
    }
    pub fn store(&mut self, user_: u64, index: u32, req: &BaseReq) -> Tx {
        let tx = [ix_store(user(user_), payer(0), index, req, &[user_ as u8; 17])];
        self.tx(&tx)
    }
    /// a complete deposit up to the queue
    pub fn deposit(&mut self, token: u16, amount: u64) -> BaseReq {
        let req = self.base_req(token, amount);
        self.store(0, 0, &req).unwrap();
        self.finish_base(0);
        self.queue.push(from_raw(&req.commitment).unwrap());
        req
    }
    pub fn finish_base(&mut self, index: u32) {
        self.tx(&[ix_base_compute(index), ix_base_compute(index)]).unwrap();
        self.tx(&[ix_base_finalize(payer(0), index, 0)]).unwrap();
    }
    pub fn meta_children(&self) -> Vec<usize> {
        let p = self.tree.len;
        let mut v = vec![p / 65_536, ((p + 15) / 65_536).min(15)];
        v.dedup();
        v
    }
    pub fn begin_batch(&mut self) -> Tx {
        let ch = path_children(self.tree.len as u32, 1);
        let m = self.meta_children();
        self.tx(&[ix_mt_setup(false, &ch), ix_mt_init(false, &m)])
    }
    pub fn compute_batch(&mut self, rate: u32) -> Tx {
        let v: Vec<_> = (0..HASH_IXS[rate as usize]).map(|i| ix_mt_compute(payer(0), 0, i as u32)).collect();
        self.tx(&v)
    }
    pub fn finalize_batch(&mut self, rate: u32) -> Tx {
        let ch = path_children(self.tree.len as u32, 1 << rate);
        let v: Vec<_> = (0..=rate).map(|_| ix_mt_finalize(&ch)).collect();
        self.tx(&v)?;
        let n = 1 << rate;
        let leaves: Vec<Fr> = self.queue.drain(..n).collect();
        self.tree.push_batch(&leaves);
        Ok(())
    }
    /// inserts a batch of 2^rate commitments
    pub fn batch(&mut self) {
        let r = self.rate;
        self.begin_batch().unwrap();
        self.compute_batch(r).unwrap();
        self.finalize_batch(r).unwrap();
    }
    pub fn root(&self) -> U256 {
        raw(&self.tree.root())
    }
    /// a send request to `recipient` (wallet for lamports, token account otherwise), the fee is generous
    pub fn request(&mut self, token: u16, amount: u64, fee: u64, inputs: usize, recipient: Pubkey) -> (SendReq, SendExtra) {
        let root = self.root();
        let ins = (0..inputs).map(|i| (if i == 0 { Some(root) } else { None }, raw(&self.rnd()))).collect();
        let opt_collector = if token == 0 { user(3) } else { ata(&user(3), token) };
        let r = SendReq { inputs: ins, out: raw(&self.rnd()), recent: self.tree.len as u32, fee_version: 0, amount, fee, opt_collector, opt_amount: 0, token, metadata: [3; 17], ata: false, solana_pay: false, hashed: [0; 32] };
        let x = SendExtra { recipient, identifier: key_n("identifier", self.n), reference: IX_SYSVAR, iv: [1; 32], encrypted_owner: [2; 32], memo: None };
        let mut r = r;
        r.hashed = hashed_inputs(&r, &x);
        (r, x)
    }
    pub fn init(&mut self, p: u64, vi: u8, r: &SendReq, x: &SendExtra, skip: bool) -> Tx {
        let t = self.trees;
        self.tx(&[ix_init_verification(payer(p), vi, 0, [t, t + 1], r, skip, x.identifier, &[&[0], &[]])])
    }
    pub fn pay_fee(&mut self, p: u64, vi: u8, token: u16) -> Tx {
        self.tx(&[ix_transfer_fee(payer(p), vi, token)])
    }
    pub fn submit(&mut self, p: u64, vi: u8, r: &SendReq) -> Tx {
        let proof = groth::prove(1, r);
        self.tx(&[ix_init_proof(payer(p), vi, &proof)])
    }
    /// the verdict as if the (separately demonstrated) verification had been run
    pub fn verdict(&mut self, p: u64, vi: u8, ok: bool) {
        let d = self.vm.data_mut(&ver_key(&payer(p), vi));
        VerificationAccount::new(d).unwrap().set_is_verified(&ElusivOption::Some(ok));
    }
    /// runs the real verification
    pub fn verify(&mut self, p: u64, vi: u8) -> Option<bool> {
        for _ in 0..200 {
            let mut tx = vec![ix_budget(), ix_budget()];
            tx.extend((0..5).map(|_| ix_compute(payer(p), vi, 0)));
            if self.tx(&tx).is_err() {
                return None;
            }
            let mut d = (*self.vm.data(&ver_key(&payer(p), vi))).clone();
            if let Some(v) = VerificationAccount::new(&mut d).unwrap().get_is_verified().option() {
                return Some(v);
            }
        }
        None
    }
    pub fn fin_data(&self, r: &SendReq) -> FinData {
        let total = self.tree.len + self.queue.len();
        FinData { total: r.amount.wrapping_add(r.fee), token: r.token, mt_index: self.trees, commitment_index: total as u32 }
    }
    /// the finalization: data, nullifiers, payout
    pub fn finalization(&self, p: u64, vi: u8, r: &SendReq, x: &SendExtra) -> Vec<Instruction> {
        let mut v = vec![ix_fin_send(payer(p), vi, x, &self.fin_data(r))];
        for _ in 0..r.inputs.len() {
            v.push(ix_fin_null(payer(p), vi, self.trees, &[0]));
        }
        v.push(self.payout(p, vi, r, x));
        if let Some(m) = &x.memo {
            v.push(ix_memo(m));
        }
        if r.solana_pay {
            v.push(self.direct(p, r, x));
        }
        v
    }
    pub fn payout(&self, p: u64, vi: u8, r: &SendReq, x: &SendExtra) -> Instruction {
        if r.token == 0 {
            ix_fin_lamports(payer(p), vi, r, x.recipient)
        } else {
            let target = if r.ata { ata(&x.recipient, r.token) } else { x.recipient };
            ix_fin_token(payer(p), vi, r, target, x.recipient)
        }
    }
    /// the transfer by the relayer that a payment request asks for
    fn direct(&self, p: u64, r: &SendReq, x: &SendExtra) -> Instruction {
        let a = r.amount.saturating_sub(r.opt_amount);
        if r.token == 0 {
            return solana_program::system_instruction::transfer(&payer(p), &x.recipient, a);
        }
        let target = if r.ata { ata(&x.recipient, r.token) } else { x.recipient };
        spl_token::instruction::transfer(&spl_token::ID, &ata(&payer(p), r.token), &target, &payer(p), &[&payer(p)], a).unwrap()
    }
    /// up to the verdict
    pub fn open(&mut self, p: u64, vi: u8, r: &SendReq, x: &SendExtra) -> Tx {
        self.init(p, vi, r, x, false)?;
        self.pay_fee(p, vi, r.token)?;
        self.submit(p, vi, r)
    }
    pub fn send(&mut self, p: u64, vi: u8, r: &SendReq, x: &SendExtra) -> Tx {
        self.open(p, vi, r, x)?;
        self.verdict(p, vi, true);
        let tx = self.finalization(p, vi, r, x);
        self.tx(&tx)?;
        self.queue.push(from_raw(&r.out).unwrap());
        Ok(())
    }
    pub fn balance(&self, owner: &Pubkey, token: u16) -> u64 {
        if token == 0 { self.vm.lamports(owner) } else { self.vm.token_amount(&ata(owner, token)) }
    }
}
