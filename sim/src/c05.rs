//! C05: see crash.rs.
use crate::crash::{self, Case};
use crate::rng::Rng;
use crate::scn::*;

pub struct C05;

impl Prop for C05 {
    type Case = Case;
    const ID: &'static str = "C05";
    const RULE: &'static str = "a case is a generated guest, a first engine and a script of stops (pause at a chosen poll, cycle limit, suspending or failing host call), each followed by saving a snapshot, crashing back to the last one, both, or nothing; every restart is a fresh machine of a possibly different engine; the restored machine is compared with the saved one and the end with the uninterrupted run of the reference model; non-trivial if at least one restart happened and the (outcome, stop positions, actions) combination was not seen before";
    const REAL: &'static [&'static str] = &["every engine and decoder", "snapshot code and its serialisation", "memory and dirty tracking", "program loading"];
    const STUB: &'static [&'static str] = &["host-call handlers", "durable storage", "data source", "tiny trace decoder (extra engine)"];

    fn gen(rng: &mut Rng, _t: Tier) -> Case {
        crash::gen(rng, false)
    }
    fn run(c: &Case, st: &mut Stats) -> Result<(), Violation> {
        crash::check(c, st, false)
    }
    fn atoms(c: &Case) -> usize {
        crash::atoms(c)
    }
    fn without(c: &Case, lo: usize, hi: usize) -> Case {
        crash::without(c, lo, hi)
    }
    fn simpler(c: &Case) -> Vec<Case> {
        crash::simpler(c)
    }
}
