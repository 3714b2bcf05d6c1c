//! C09: see access.rs.
use crate::access::{self, Case, Mood};
use crate::rng::Rng;
use crate::scn::*;

pub struct C09;

impl Prop for C09 {
    type Case = Case;
    const ID: &'static str = "C09";
    const RULE: &'static str = "a case is a set of short guest episodes and a script interleaving them with host accesses, page initialisation and clearing of dirty marks, by the host between runs and inside host calls; after every step each page the reference model saw written since its mark was cleared must be marked, and what the guest computes must not depend on the marks; non-trivial if marks were cleared and the (answers, flags, contents) history was not seen before";
    const REAL: &'static [&'static str] = &["every engine and decoder", "memory, permissions and dirty tracking", "program loading", "snapshot code"];
    const STUB: &'static [&'static str] = &["host-call handlers", "tiny trace decoder (extra engine)"];

    fn gen(rng: &mut Rng, _t: Tier) -> Case {
        access::gen(rng, Mood::Dirt)
    }
    fn run(c: &Case, st: &mut Stats) -> Result<(), Violation> {
        access::check(c, st, Mood::Dirt)
    }
    fn atoms(c: &Case) -> usize {
        access::atoms(c)
    }
    fn without(c: &Case, lo: usize, hi: usize) -> Case {
        access::without(c, lo, hi)
    }
    fn simpler(c: &Case) -> Vec<Case> {
        access::simpler(c)
    }
}
