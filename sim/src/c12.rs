//! C12: concurrent machines are isolated and independent of scheduling.
//!
//! Machines form a Kahn network: blocking reads of exact lengths, unbounded
//! writes, one writer and one reader per pipe. What each machine computes is
//! then a function of the programs alone, whatever the schedule: the reference
//! is one fair schedule of reference machines.

use crate::c01::drop_range;
use crate::c10::insert;
use crate::core::{Dirty, EC};
use crate::engine::{build, kinds, Cfg, Cost, Engine, Kind};
use crate::kernel::{self as kk, diff_events, kernel, Event, Req, K};
use crate::prog::{generate, Arg, Gen, HostGen, Node, Prog};
use crate::rng::{mix, Rng};
use crate::scn::*;
use ckb_vm::snapshot::Snapshot;
use ckb_vm::Error;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Act {
    /// a slice of at most this many cycles; a pause request may already wait
    Run { quantum: Option<u64>, pause: bool },
    /// save the machine
    Save,
    /// lose the machine; a new one of this kind continues from the last save
    Crash(Kind),
    /// move to another engine without loss
    Migrate(Kind),
    /// another machine comes to life, runs a little
    Noise(Kind, u64),
    NoiseRun(u64),
    NoiseDrop,
    /// a pause is requested, the machine's turn comes later
    Ask,
    NoiseAsk,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub nodes: Vec<(Prog, Kind, bool, Cost)>,
    pub noise: Prog,
    pub turns: Vec<(u8, Act)>,
}

pub struct C12;

#[derive(Clone)]
struct KSave {
    events: Vec<Event>,
    calls: u64,
    breaks: u64,
}
struct Saved {
    snap: Snapshot,
    /// the host's own record: a full snapshot carries no cycles
    cycles: u64,
    k: KSave,
    recvs: usize,
    sends: usize,
}
enum State {
    Ready,
    Recv { from: usize, addr: u64, len: u64 },
    Done,
}
struct Node_ {
    cfg: Cfg,
    e: Box<dyn Engine>,
    k: K,
    st: State,
    res: Option<Result<i8, Error>>,
    saved: Option<Saved>,
    /// everything received so far, for replay after a crash
    log: Vec<Option<Vec<u8>>>,
    recvs: usize,
    sends: usize,
    sent: usize,
    stops: u64,
    /// a pause request it has not answered yet
    asked: bool,
}

struct World {
    n: Vec<Node_>,
    pipes: BTreeMap<(usize, usize), Vec<u8>>,
    noise: Vec<(Box<dyn Engine>, K)>,
    /// a pause nobody asked this machine for
    stolen: Option<usize>,
}

fn ksave(k: &K) -> KSave {
    let k = k.lock().unwrap();
    KSave { events: k.events.clone(), calls: k.calls, breaks: k.breaks }
}
fn krestore(k: &K, s: &KSave) {
    let mut k = k.lock().unwrap();
    k.events = s.events.clone();
    k.calls = s.calls;
    k.breaks = s.breaks;
    k.req = None;
}

fn boot_world(c: &Case, model: bool) -> Result<World, Error> {
    let mut n = vec![];
    for (p, kind, persistent, cost) in &c.nodes {
        let kind = if model { Kind::Model } else { *kind };
        let mut cf = cfg(p, kind, *cost);
        cf.persistent = *persistent;
        let k = kernel();
        let g = Guest::new(p);
        let mut e = build(&cf, &k, None);
        e.load(&g.built.elf, &g.args)?;
        n.push(Node_ {
            cfg: cf,
            e,
            k,
            st: State::Ready,
            res: None,
            saved: None,
            log: vec![],
            recvs: 0,
            sends: 0,
            sent: 0,
            stops: 0,
            asked: false,
        });
    }
    Ok(World { n, pipes: BTreeMap::new(), noise: vec![], stolen: None })
}

impl World {
    fn done(&self) -> bool {
        self.n.iter().all(|x| matches!(x.st, State::Done))
    }
    /// hand over data (or the end of it) to machine i
    fn deliver(&mut self, i: usize, data: Option<Vec<u8>>) {
        let x = &mut self.n[i];
        if let State::Recv { addr, .. } = x.st {
            let core = x.e.core();
            let v = match &data {
                None => 0,
                Some(d) => match core.store_bytes(addr, d) {
                    Ok(()) => d.len() as u64,
                    Err(_) => u32::MAX as u64,
                },
            };
            core.set_reg(10, v);
            x.recvs += 1;
            if x.recvs > x.log.len() {
                x.log.push(data);
            }
            x.st = State::Ready;
        }
    }
    /// let a blocked machine continue if it can
    fn unblock(&mut self, i: usize) -> bool {
        let (from, len) = match self.n[i].st {
            State::Recv { from, len, .. } => (from, len),
            _ => return false,
        };
        let x = &self.n[i];
        if x.recvs < x.log.len() {
            // received before the crash
            let d = x.log[x.recvs].clone();
            self.deliver(i, d);
            return true;
        }
        let over = matches!(self.n[from].st, State::Done);
        let buf = self.pipes.entry((from, i)).or_default();
        let len = len.min(4096) as usize;
        if buf.len() >= len {
            let d: Vec<u8> = buf.drain(..len).collect();
            self.deliver(i, Some(d));
            true
        } else if over {
            let d: Vec<u8> = std::mem::take(buf);
            self.deliver(i, if d.is_empty() { None } else { Some(d) });
            true
        } else {
            false
        }
    }
    fn turn(&mut self, i: usize, quantum: Option<u64>, pause: bool, st: &mut Stats) {
        self.unblock(i);
        let many = self.n.len();
        let x = &mut self.n[i];
        if !matches!(x.st, State::Ready) {
            return;
        }
        let max = match quantum {
            Some(q) => x.e.core().cyc().saturating_add(q),
            None => u64::MAX,
        };
        x.e.core().set_max_cyc(max);
        if pause {
            x.e.pause().interrupt();
            x.asked = true;
            st.fault("pause before the slice", 1);
        }
        st.runs += 1;
        x.stops += 1;
        let r = x.e.run();
        match r {
            Err(Error::Pause) => {
                let by_guest = std::mem::take(&mut x.k.lock().unwrap().asked);
                if !std::mem::take(&mut x.asked) && by_guest == 0 {
                    self.stolen = Some(i);
                }
            }
            Err(Error::CyclesExceeded) if max != u64::MAX => st.fault("slice ended by its limit", 1),
            Err(Error::Yield) => {
                let req = x.k.lock().unwrap().req.take();
                st.fault("slice ended by a host call", 1);
                match req {
                    None => (),
                    Some(Req::Send { pipe, data }) => {
                        let to = pipe as usize % many;
                        x.sends += 1;
                        if x.sends > x.sent {
                            x.sent = x.sends;
                            self.pipes.entry((i, to)).or_default().extend(data);
                        } else {
                            st.fault("message sent before the crash", 1);
                        }
                    }
                    Some(Req::Recv { pipe, addr, len }) => {
                        x.st = State::Recv { from: pipe as usize % many, addr, len };
                        self.unblock(i);
                    }
                }
            }
            r => {
                x.res = Some(r);
                x.st = State::Done;
            }
        }
    }
    fn save(&mut self, i: usize) -> Result<bool, Error> {
        let x = &mut self.n[i];
        if !matches!(x.st, State::Ready) {
            return Ok(false);
        }
        let snap = x.e.core().snap1()?;
        x.saved = Some(Saved { snap, cycles: x.e.core().cyc(), k: ksave(&x.k), recvs: x.recvs, sends: x.sends });
        Ok(true)
    }
    fn crash(&mut self, i: usize, kind: Kind) -> Result<bool, Error> {
        let x = &mut self.n[i];
        if matches!(x.st, State::Done) {
            return Ok(false);
        }
        let s = match &x.saved {
            Some(s) => s,
            None => return Ok(false),
        };
        x.cfg.kind = kind;
        // the old machine is gone before the new one exists
        let k = kernel();
        x.e = build(&x.cfg, &k, None);
        x.asked = false;
        x.k = k;
        krestore(&x.k, &s.k);
        x.e.core().resume1(&s.snap)?;
        x.e.core().set_cyc(s.cycles);
        x.recvs = s.recvs;
        x.sends = s.sends;
        x.st = State::Ready;
        Ok(true)
    }
    /// Everybody still there is blocked: the lowest one sees the end.
    fn quiet(&mut self) {
        for _ in 0..2 {
            for i in 0..self.n.len() {
                if matches!(self.n[i].st, State::Ready) || self.unblock(i) {
                    return;
                }
            }
        }
        for i in 0..self.n.len() {
            if let State::Recv { .. } = self.n[i].st {
                self.deliver(i, None);
                return;
            }
        }
    }
    fn finish(&mut self, st: &mut Stats) -> bool {
        for _ in 0..20_000 {
            if self.done() {
                return true;
            }
            let mut moved = false;
            for i in 0..self.n.len() {
                if matches!(self.n[i].st, State::Ready) || self.unblock(i) {
                    self.turn(i, None, false, st);
                    moved = true;
                }
            }
            if !moved {
                self.quiet();
            }
        }
        false
    }
}

impl Prop for C12 {
    type Case = Case;
    const ID: &'static str = "C12";
    const RULE: &'static str = "a case is 2 to 5 guests on any mix of engines exchanging messages through host calls, and a schedule of slices (by limit, pending pause, suspending host call), saves, crashes with message replay, migrations to other engines, and unrelated machines created, run and dropped in between; each machine's result, cycles, host-call history and memory is compared with one fair schedule of reference machines; non-trivial if at least two machines ran interleaved and the (schedule outcome) was not seen before";
    const REAL: &'static [&'static str] = &["every engine and decoder", "pause and cycle limit", "snapshot code", "memory", "program loading"];
    const STUB: &'static [&'static str] = &["scheduler, pipes and host-call handlers", "durable storage", "tiny trace decoder (extra engine)"];

    fn gen(rng: &mut Rng, _t: Tier) -> Case {
        let n = rng.range(2, 5) as usize;
        let mut nodes = vec![];
        for _ in 0..n {
            let mut g = Gen::random(rng);
            g.budget = 700;
            g.mem = 1 << 20;
            g.body = rng.range(3, 12) as usize;
            g.host.push((2, HostGen::Yield));
            let mut p = if !nodes.is_empty() && rng.chance(1, 4) {
                // the same program again, or nearly
                let (p, ..): &(Prog, Kind, bool, Cost) = rng.pick(&nodes);
                p.clone()
            } else {
                generate(rng, &g)
            };
            for _ in 0..rng.below(6) {
                let len = if rng.chance(1, 6) { rng.below(4096) } else { rng.range(1, 64) };
                let addr = *rng.pick(&[0x61000u64, 0x61800, 0x7ffe0, 0x80000, 0x62ff0]) + rng.below(64);
                let who = rng.below(n as u64);
                let nr = if rng.chance(3, 5) { kk::SEND } else { kk::RECV };
                let f = rng.usize(p.funcs.len());
                let mut body = std::mem::take(&mut p.funcs[f].body);
                insert(rng, &mut body, Node::Host(nr, vec![Arg::I(who), Arg::I(addr), Arg::I(len)]));
                p.funcs[f].body = body;
            }
            let mut kind = *rng.pick(kinds(p.rv32));
            while kind.trace() && p.isa & ckb_vm::ISA_MOP != 0 && p.version == 0 {
                kind = *rng.pick(kinds(p.rv32));
            }
            nodes.push((p, kind, rng.bool(), random_cost(rng)));
        }
        let mut g = Gen::random(rng);
        g.budget = 300;
        g.rv32 = false;
        let noise = generate(rng, &g);
        let ok = |p: &Prog, k: Kind| !(k.trace() && p.isa & ckb_vm::ISA_MOP != 0 && p.version == 0);
        let t = rng.range(4, 60);
        let turns = (0..t)
            .map(|_| {
                let i = rng.usize(n);
                let pick = |rng: &mut Rng, p: &Prog| loop {
                    let k = *rng.pick(kinds(p.rv32));
                    if ok(p, k) {
                        break k;
                    }
                };
                let act = match rng.below(20) {
                    0 | 1 => Act::Save,
                    2 => Act::Crash(pick(rng, &nodes[i].0)),
                    3 => Act::Migrate(pick(rng, &nodes[i].0)),
                    4 => Act::Noise(pick(rng, &noise), rng.logscale(400)),
                    5 => Act::NoiseRun(rng.logscale(400)),
                    6 => Act::NoiseDrop,
                    7 => Act::Ask,
                    8 => Act::NoiseAsk,
                    _ => Act::Run {
                        quantum: if rng.chance(2, 3) { Some(rng.logscale(1500)) } else { None },
                        pause: rng.chance(1, 4),
                    },
                };
                (i as u8, act)
            })
            .collect();
        Case { nodes, noise, turns }
    }

    fn run(c: &Case, st: &mut Stats) -> Result<(), Violation> {
        if c.nodes.is_empty() {
            return Ok(());
        }
        let mut m = match boot_world(c, true) {
            Ok(m) => m,
            Err(_) => return Ok(()),
        };
        if !m.finish(&mut Stats::default()) {
            return Ok(());
        }
        for x in &m.n {
            if x.e.disputed().is_some() || matches!(x.res, Some(Err(Error::Unexpected(_)))) {
                return Ok(());
            }
        }
        let mut trace = vec![];
        let mut w = match boot_world(c, false) {
            Ok(w) => w,
            Err(e) => return viol("load", format!("a program the reference loads is refused: {:?}", e)),
        };
        for (i, a) in &c.turns {
            let i = *i as usize % c.nodes.len();
            let fail = |what: &str, e: Error, trace: &Vec<String>| {
                Err(Violation { kind: "snapshot".into(), msg: format!("machine {}: {} fails: {:?}", i, what, e), trace: trace.clone() })
            };
            match a {
                Act::Run { quantum, pause } => {
                    w.turn(i, *quantum, *pause, st);
                }
                Act::Save => match w.save(i) {
                    Ok(x) => st.fault("saved", x as u64),
                    Err(e) => return fail("saving", e, &trace),
                },
                Act::Crash(k) => match w.crash(i, *k) {
                    Ok(x) => st.fault("crash, restored from an older save", x as u64),
                    Err(e) => return fail("restoring", e, &trace),
                },
                Act::Migrate(k) => {
                    let r = w.save(i).and_then(|x| if x { w.crash(i, *k) } else { Ok(false) });
                    match r {
                        Ok(x) => st.fault("migrated", x as u64),
                        Err(e) => return fail("migrating", e, &trace),
                    }
                }
                Act::Noise(k, q) => {
                    let g = Guest::new(&c.noise);
                    let cf = cfg(&c.noise, *k, Cost::One);
                    if let Ok((mut e, k)) = boot(&cf, &g, None) {
                        e.set_max(*q);
                        let _ = e.run();
                        st.fault("unrelated machine created", 1);
                        w.noise.push((e, k));
                    }
                }
                Act::NoiseRun(q) => {
                    if let Some((e, _)) = w.noise.last_mut() {
                        let m = e.core().max_cyc().saturating_add(*q);
                        if e.core().cyc() > 0 {
                            e.core().set_max_cyc(m);
                            let _ = e.run();
                        }
                    }
                }
                Act::Ask => {
                    let x = &mut w.n[i];
                    x.e.pause().interrupt();
                    x.asked = true;
                    st.fault("pause requested while others run", 1);
                }
                Act::NoiseAsk => {
                    if let Some((e, _)) = w.noise.last_mut() {
                        e.pause().interrupt();
                        st.fault("pause requested of an unrelated machine", 1);
                    }
                }
                Act::NoiseDrop => {
                    if !w.noise.is_empty() {
                        w.noise.remove(0);
                        st.fault("unrelated machine dropped", 1);
                    }
                }
            }
            let x = &mut w.n[i];
            trace.push(format!("{}: {:?} -> pc {:#x} cycles {}{}", i, a, x.e.core().pc(), x.e.core().cyc(), if matches!(x.st, State::Done) { " done" } else { "" }));
        }
        let busy = w.n.iter().filter(|x| x.stops > 0).count();
        let done = w.finish(st);
        if let Some(i) = w.stolen {
            return viol("pause", format!("machine {} ({}) stops for a pause that was requested of another machine", i, w.n[i].cfg.kind.name()));
        }
        if !done {
            return Err(Violation { kind: "liveness".into(), msg: "the machines never finish once faults stop".into(), trace });
        }
        let mut sig = 0;
        for i in 0..c.nodes.len() {
            let (a, b) = (&mut m.n[i], &mut w.n[i]);
            let who = format!("machine {} ({})", i, b.cfg.kind.name());
            let want = outcome(a.e.as_mut(), a.res.take().unwrap(), &a.k)?;
            let got = outcome(b.e.as_mut(), b.res.take().unwrap(), &b.k)?;
            st.kernel(&b.k);
            st.units += want.st.cycles.min(1 << 20);
            *st.engines.entry(b.cfg.kind.name()).or_default() += 1;
            st.see(got.sig());
            sig = mix(sig ^ want.sig() ^ b.stops);
            let fail = |kind: &str, msg: String| Err(Violation { kind: kind.into(), msg: format!("{}: {}", who, msg), trace: trace.clone() });
            if matches!(got.res, Err(EC::CyclesOverflow)) && b.cfg.kind.asm() && want.res.is_err() {
                continue;
            }
            if want.res != got.res {
                return fail("result", format!("{:?}, expected {:?}", got.res, want.res));
            }
            if let Some(d) = diff_events(&want.events, &got.events) {
                return fail("history", d);
            }
            let ok = want.res.is_ok();
            if let Some(d) = want.st.diff(&got.st, ok, ok || !b.cfg.kind.asm(), Dirty::AtLeast) {
                return fail("state", d);
            }
        }
        if busy > 1 {
            st.sig(sig);
        }
        Ok(())
    }

    fn atoms(c: &Case) -> usize {
        c.turns.len() + c.nodes.iter().map(|n| n.0.atoms()).sum::<usize>()
    }
    fn without(c: &Case, lo: usize, hi: usize) -> Case {
        let mut d = c.clone();
        let n = c.turns.len();
        d.turns = drop_range(&c.turns, lo, hi);
        let mut at = n;
        for (p, ..) in d.nodes.iter_mut() {
            let k = p.atoms();
            if hi > at && lo < at + k {
                *p = p.without(lo.saturating_sub(at), (hi - at).min(k));
            }
            at += k;
        }
        d
    }
    fn simpler(c: &Case) -> Vec<Case> {
        let mut v = vec![];
        if c.nodes.len() > 1 {
            let mut d = c.clone();
            d.nodes.pop();
            v.push(d);
        }
        for i in 0..c.nodes.len() {
            for p in c.nodes[i].0.simpler() {
                let mut d = c.clone();
                d.nodes[i].0 = p;
                v.push(d);
            }
            if c.nodes[i].3 != Cost::One {
                let mut d = c.clone();
                d.nodes[i].3 = Cost::One;
                v.push(d);
            }
            if c.nodes[i].2 {
                let mut d = c.clone();
                d.nodes[i].2 = false;
                v.push(d);
            }
        }
        v
    }
}
