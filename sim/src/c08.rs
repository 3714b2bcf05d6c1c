//! C08: see access.rs.
use crate::access::{self, Case, Mood};
use crate::rng::Rng;
use crate::scn::*;

pub struct C08;

impl Prop for C08 {
    type Case = Case;
    const ID: &'static str = "C08";
    const RULE: &'static str = "a case is a set of short guest episodes (all access widths, atomics, page- and frame-crossing, refused and wild addresses) and a script interleaving them with host accesses, changes of page protection, page initialisation, resets and crash-restores on one machine; every answer, the protection of every page after every step, and the memory are compared with the reference model; non-trivial if at least one access was refused and the (answers, flags, contents) history was not seen before";
    const REAL: &'static [&'static str] = &["every engine and decoder", "memory, permissions and dirty tracking", "program loading", "snapshot code"];
    const STUB: &'static [&'static str] = &["host-call handlers", "tiny trace decoder (extra engine)"];

    fn gen(rng: &mut Rng, _t: Tier) -> Case {
        access::gen(rng, Mood::Perm)
    }
    fn run(c: &Case, st: &mut Stats) -> Result<(), Violation> {
        access::check(c, st, Mood::Perm)
    }
    fn atoms(c: &Case) -> usize {
        access::atoms(c)
    }
    fn without(c: &Case, lo: usize, hi: usize) -> Case {
        access::without(c, lo, hi)
    }
    fn simpler(c: &Case) -> Vec<Case> {
        access::simpler(c)
    }
}
