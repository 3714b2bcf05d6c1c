//! What every scenario shares: running a guest on an engine and collecting
//! everything an observer could tell afterwards.

use crate::core::{ec, state, State, EC};
use crate::engine::{build, Cfg, Cost, Engine, Hook, Kind};
use crate::kernel::{kernel, Event, K};
use crate::prog::{Built, Prog};
use crate::rng::Rng;
use ckb_vm::{Bytes, Error};
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, HashSet};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Tier {
    Quick,
    Thorough,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Violation {
    /// what kind of breakage; minimisation keeps it
    pub kind: String,
    pub msg: String,
    pub trace: Vec<String>,
}

pub fn viol<T>(kind: &str, msg: String) -> Result<T, Violation> {
    Err(Violation { kind: kind.into(), msg, trace: vec![] })
}

#[derive(Default, Serialize, Deserialize, Clone)]
pub struct Stats {
    pub cases: u64,
    pub runs: u64,
    /// simulated time: guest instructions (or priced units) executed
    pub units: u64,
    pub host_calls: u64,
    pub faults: BTreeMap<String, u64>,
    pub probes: BTreeMap<String, u64>,
    pub engines: BTreeMap<String, u64>,
    #[serde(skip)]
    pub sigs: HashSet<u64>,
    /// digest of everything observed in this case
    #[serde(skip)]
    pub digest: u64,
    pub replayed: u64,
    pub replay_diverged: u64,
}

impl Stats {
    pub fn fault(&mut self, what: &str, n: u64) {
        if n > 0 {
            *self.faults.entry(what.into()).or_default() += n;
        }
    }
    pub fn probe(&mut self, what: &str) {
        *self.probes.entry(what.into()).or_default() += 1;
    }
    pub fn probe_n(&mut self, what: &str, n: u64) {
        if n > 0 {
            *self.probes.entry(what.into()).or_default() += n;
        }
    }
    /// fold an observation into this case's digest
    pub fn see(&mut self, x: u64) {
        self.digest = crate::rng::mix(self.digest.rotate_left(13) ^ x);
    }
    /// count a distinct behaviour
    pub fn sig(&mut self, x: u64) {
        if self.sigs.len() < 4_000_000 {
            self.sigs.insert(x);
        }
    }
    pub fn merge(&mut self, o: &Stats) {
        self.cases += o.cases;
        self.runs += o.runs;
        self.units += o.units;
        self.host_calls += o.host_calls;
        self.replayed += o.replayed;
        self.replay_diverged += o.replay_diverged;
        for (a, b) in [(&mut self.faults, &o.faults), (&mut self.probes, &o.probes), (&mut self.engines, &o.engines)] {
            for (k, v) in b {
                *a.entry(k.clone()).or_default() += v;
            }
        }
    }
    pub fn kernel(&mut self, k: &K) {
        let k = k.lock().unwrap();
        self.host_calls += k.events.len() as u64;
        for (n, v) in &k.fired {
            self.fault(n, *v);
        }
    }
}

#[derive(Clone, Debug)]
pub struct Outcome {
    pub res: Result<i8, EC>,
    pub st: State,
    pub events: Vec<Event>,
}
impl Outcome {
    pub fn sig(&self) -> u64 {
        let mut h = self.st.digest();
        for e in &self.events {
            h = crate::rng::mix(h ^ e.regs ^ e.nr.rotate_left(32) ^ e.cycles.rotate_left(7) ^ e.ret);
        }
        h ^ match self.res {
            Ok(x) => x as u64,
            Err(e) => as_u64(e),
        }
    }
}
fn as_u64(e: EC) -> u64 {
    crate::rng::hash_str(&format!("{:?}", e))
}

pub fn cls(r: &Result<i8, Error>) -> Result<i8, EC> {
    match r {
        Ok(x) => Ok(*x),
        Err(e) => Err(ec(e)),
    }
}

pub struct Guest {
    pub built: Built,
    pub args: Vec<Bytes>,
}
impl Guest {
    pub fn new(p: &Prog) -> Guest {
        Guest { built: p.build(), args: p.arg_bytes() }
    }
}

pub fn cfg(p: &Prog, kind: Kind, cost: Cost) -> Cfg {
    Cfg {
        kind,
        rv32: p.rv32,
        version: p.version,
        isa: p.isa,
        mem: p.mem,
        max_cycles: u64::MAX,
        cost,
        persistent: false,
        handlers: 1,
        debugger: true,
        step_limit: 3_000_000,
        chaos: None,
    }
}

/// A machine with the program loaded, and its kernel.
pub fn boot(c: &Cfg, g: &Guest, hook: Option<Hook>) -> Result<(Box<dyn Engine>, K), Error> {
    let k = kernel();
    let mut e = build(c, &k, hook);
    e.load(&g.built.elf, &g.args)?;
    Ok((e, k))
}

pub fn outcome(e: &mut dyn Engine, r: Result<i8, Error>, k: &K) -> Result<Outcome, Violation> {
    let st = match state(e.core()) {
        Ok(mut s) => {
            if r.is_err() {
                s.open = e.refused();
            }
            s
        }
        Err(x) => return viol("observe", format!("memory cannot be read back: {:?}", x)),
    };
    Ok(Outcome { res: cls(&r), st, events: k.lock().unwrap().events.clone() })
}

pub fn random_cost(rng: &mut Rng) -> Cost {
    match rng.below(8) {
        0 => Cost::Zero,
        1 | 2 => Cost::One,
        3 | 4 => Cost::Estimate,
        5 => Cost::Op(rng.next(), rng.range(1, 12) as u8),
        6 => Cost::Inst(rng.next(), rng.range(1, 12) as u8),
        _ => Cost::Inst(rng.next(), rng.range(12, 40) as u8),
    }
}

pub trait Prop {
    type Case: Clone + Serialize + serde::de::DeserializeOwned + std::fmt::Debug;
    const ID: &'static str;
    /// how cases are made, and what makes one non-trivial
    const RULE: &'static str;
    /// what the engine components are: real or stub
    const REAL: &'static [&'static str];
    const STUB: &'static [&'static str];
    fn gen(rng: &mut Rng, tier: Tier) -> Self::Case;
    fn run(c: &Self::Case, st: &mut Stats) -> Result<(), Violation>;
    fn atoms(c: &Self::Case) -> usize;
    fn without(c: &Self::Case, lo: usize, hi: usize) -> Self::Case;
    fn simpler(c: &Self::Case) -> Vec<Self::Case>;
    /// known findings, by id: reproduces the finding, or says why not
    fn known(_id: &str) -> Option<Result<String, String>> {
        None
    }
    /// run each case in a process of its own
    const ISOLATED: bool = false;
}
