//! C18: see access.rs.
use crate::access::{self, Case, Mood};
use crate::rng::Rng;
use crate::bare::{self, Bare};
use crate::scn::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
#[serde(untagged)]
pub enum Any {
    Bare(Bare),
    Machine(Case),
}
use Any::*;

pub struct C18;

impl Prop for C18 {
    type Case = Any;
    const ID: &'static str = "C18";
    const RULE: &'static str = "a case is a memory size (1 MiB to 8 GiB), a set of short guest episodes (all access widths, atomics, page-, frame- and 4 GiB-crossing, refused and wild addresses) and a script interleaving them with host accesses of every kind, page initialisation, tens of thousands of pages coming into use, resets and crash-restores on one machine; every answer and everything written is compared with the reference model; one case in eight drives a bare memory (no permission layer, no machine) through the Memory trait against a byte array; non-trivial if the script has at least two steps and the (answers, flags, contents) history was not seen before";
    const REAL: &'static [&'static str] = &["every engine and decoder", "memory, permissions and dirty tracking", "program loading", "snapshot code"];
    const STUB: &'static [&'static str] = &["host-call handlers", "tiny trace decoder (extra engine)"];

    fn gen(rng: &mut Rng, _t: Tier) -> Any {
        if rng.chance(1, 8) {
            return Bare(bare::gen(rng));
        }
        Machine(access::gen(rng, Mood::Big))
    }
    fn run(c: &Any, st: &mut Stats) -> Result<(), Violation> {
        match c {
            Bare(c) => bare::check(c, st),
            Machine(c) => access::check(c, st, Mood::Big),
        }
    }
    fn atoms(c: &Any) -> usize {
        match c {
            Bare(c) => c.steps.len(),
            Machine(c) => access::atoms(c),
        }
    }
    fn without(c: &Any, lo: usize, hi: usize) -> Any {
        match c {
            Bare(c) => Bare(bare::without(c, lo, hi)),
            Machine(c) => Machine(access::without(c, lo, hi)),
        }
    }
    fn simpler(c: &Any) -> Vec<Any> {
        match c {
            Bare(_) => vec![],
            Machine(c) => access::simpler(c).into_iter().map(Machine).collect(),
        }
    }
}
