//! What remains of a check when the monitor of a component does not build against the tree (the component's Rust interface is
//! not part of any property): histories of whole transactions, judged for the same property. `check.sh` leaves out such a monitor
//! by its feature; the evidence names it.
#![allow(dead_code)]
use crate::checks::*;
use crate::play::Cfg;
use minivm::report::*;

/// the monitors that are part of this build
pub const LEFT_OUT: &[(&str, bool)] = &[
    ("bytes", cfg!(not(feature = "bytes"))),
    ("hash", cfg!(not(feature = "hash"))),
    ("inputs", cfg!(not(feature = "inputs"))),
    ("null", cfg!(not(feature = "null"))),
    ("proof", cfg!(not(feature = "proof"))),
    ("queue", cfg!(not(feature = "queue"))),
    ("setup", cfg!(not(feature = "setup"))),
    ("token", cfg!(not(feature = "token"))),
    ("vkey", cfg!(not(feature = "vkey"))),
];
pub fn left_out() -> Vec<&'static str> {
    LEFT_OUT.iter().filter(|x| x.1).map(|x| x.0).collect()
}

fn only(run: &Run, prop: &'static str, cfg: Cfg, crowded: u64) -> (Obs, Vec<String>) {
    histories(run, prop, &Plan { cfg, crowded, ..Plan::default() })
}
pub mod bytes {
    use super::*;
    pub fn s01(run: &Run) -> (Obs, Vec<String>) {
        only(run, "S01", Cfg { mutate: 0.5, ..Cfg::default() }, 0)
    }
}
pub mod hash {
    use super::*;
    pub fn h01(run: &Run) -> (Obs, Vec<String>) {
        only(run, "H01", Cfg { mutate: 0.2, deposit: 30, base: 40, mt: 60, start: 2, send: 4, ..Cfg::default() }, 0)
    }
}
pub mod inputs {
    use super::*;
    pub fn v02(run: &Run) -> (Obs, Vec<String>) {
        only(run, "V02", Cfg { mutate: 0.1, start: 40, send: 60, evil_send: 0.4, evil_final: 0.5, real: 0.05, ..Cfg::default() }, 0)
    }
}
pub mod null {
    use super::*;
    use crate::spec::Model;
    use minivm::Vm;
    pub fn n02(run: &Run) -> (Obs, Vec<String>) {
        only(run, "N02", Cfg { start: 40, send: 60, reuse: 0.3, indices: 5, ..Cfg::default() }, 0)
    }
    pub fn crowd(_: &mut Vm, _: &mut Model, _: u32, _: usize) {}
    pub fn account(_: u64, _: usize, _: usize, _: &mut Obs) {}
}
pub mod proof {
    use super::*;
    pub fn v01(run: &Run) -> (Obs, Vec<String>) {
        only(run, "V01", Cfg { mutate: 0.1, start: 20, send: 80, real: 1.0, invalid: 0.4, ..Cfg::default() }, 0)
    }
}
pub mod queue {
    use super::*;
    pub fn c02(run: &Run) -> (Obs, Vec<String>) {
        only(run, "C02", Cfg { mutate: 0.2, deposit: 40, base: 40, mt: 30, start: 10, send: 20, ..Cfg::default() }, 0)
    }
}
pub mod setup {
    use super::*;
    pub fn a02(run: &Run) -> (Obs, Vec<String>) {
        only(run, "A02", Cfg { mutate: 0.3, misc: 20, ..Cfg::default() }, 0)
    }
}
pub mod token {
    use super::*;
    pub fn t01(run: &Run) -> (Obs, Vec<String>) {
        only(run, "T01", Cfg { deposit: 40, start: 30, send: 30, price: 15, evil_deposit: 0.3, fee_edge: 0.5, ..Cfg::default() }, 0)
    }
}
pub mod vkey {
    use super::*;
    pub fn k01(_: &Run) -> (Obs, Vec<String>) {
        (Obs::default(), vec!["the monitor of the verifying keys does not build against this tree".into()])
    }
}
