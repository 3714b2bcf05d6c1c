//! C05 and C06: crash and restart at arbitrary points, with nothing but a
//! snapshot surviving, is equivalent to not crashing.

use crate::c01::{drop_range, terminal};
use crate::core::{state, Blobs, Ctx2, Dirty, Snap2, EC};
use crate::engine::{build, kinds, Cfg, Cost, Engine, Kind};
use crate::kernel::{bytes_for, diff_events, kernel, Inj, K};
use crate::prog::{generate, Gen, HostGen, Prog};
use crate::rng::{mix, Rng};
use crate::scn::*;
use crate::trap;
use ckb_vm::machine::Pause;
use ckb_vm::snapshot::Snapshot;
use ckb_vm::{Bytes, Error};
use serde::{Deserialize, Serialize};

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Stop {
    /// a pause request at the n-th poll of the flag from here
    Poll(u64),
    /// a cycle limit this much above the consumption
    Limit(u64),
    /// the n-th host call from here suspends
    Yield(u64),
    /// the n-th host call from here fails
    Fail(u64),
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Act {
    /// make a snapshot durable
    Save,
    /// the process dies; restart from the last durable snapshot
    Crash,
    /// save, then die at once
    Move,
    /// just go on
    None,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Step {
    pub stop: Stop,
    pub act: Act,
    /// what the restarted machine is, if this step restarts it
    pub kind: Kind,
    pub persistent: bool,
    /// the restarted process repeats the restore (it died while restoring)
    pub torn: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub prog: Prog,
    pub cost: Cost,
    pub kind: Kind,
    pub persistent: bool,
    pub steps: Vec<Step>,
    /// data source blobs, as (seed, length)
    pub blobs: Vec<(u64, u64)>,
    /// bytes before the program in its own blob
    pub lead: u64,
    pub max: u64,
}

/// What survives: the snapshot, and the host's own record of the history up to it.
struct Durable {
    snap: Vec<u8>,
    cycles: u64,
    events: usize,
    calls: u64,
    breaks: u64,
    pages2: u64,
    dirty2: u64,
}

pub fn gen(rng: &mut Rng, two: bool) -> Case {
    let mut g = Gen::random(rng);
    g.rv32 = rng.chance(1, 6);
    if g.rv32 {
        g.isa &= !ckb_vm::ISA_B;
    }
    g.budget = 800;
    g.host_rate = 14;
    g.host.push((1, HostGen::InitPages));
    if two {
        g.host.push((8, HostGen::Store2));
        g.host.push((2, HostGen::ReadPage));
    }
    let mut prog = generate(rng, &g);
    if rng.chance(1, 8) {
        let t = terminal(rng, &prog);
        prog.funcs[0].body.extend(t);
    }
    if two && rng.chance(1, 3) {
        overlap(rng, &mut prog);
    }
    let seam = two && rng.chance(1, 3);
    if seam {
        seams(rng, &mut prog);
    }
    // single engines and mixed chains; the trace machine alone runs MOP on version 0
    let all: Vec<Kind> = kinds(prog.rv32).to_vec();
    let kind = *rng.pick(&all);
    let n = rng.range(1, 10);
    let steps = (0..n)
        .map(|_| Step {
            stop: match rng.below(8) {
                0..=2 => Stop::Poll(1 + rng.logscale(400)),
                3 | 4 => Stop::Limit(rng.logscale(3000)),
                5 | 6 => Stop::Yield(rng.logscale(8)),
                _ => Stop::Fail(rng.logscale(8)),
            },
            act: match rng.below(8) {
                0 | 1 => Act::Save,
                2 | 3 => Act::Crash,
                4 => Act::None,
                _ => Act::Move,
            },
            kind: if rng.chance(1, 3) { kind } else { *rng.pick(&all) },
            persistent: rng.bool(),
            torn: rng.chance(1, 10),
        })
        .collect();
    let blobs = (0..3)
        .map(|i| {
            let l = match rng.below(5) {
                _ if seam => 4096 * 6 + rng.below(2) * rng.below(5000),
                0 => 0,
                1 => 4096 * rng.range(1, 4),
                2 => rng.range(1, 4095),
                _ => rng.range(4000, 20000),
            };
            (rng.next() | i, l)
        })
        .collect();
    Case {
        prog,
        cost: if rng.chance(1, 3) { random_cost(rng) } else { Cost::One },
        kind,
        persistent: rng.bool(),
        steps,
        blobs,
        lead: if rng.bool() { 0 } else { rng.below(9000) },
        max: if rng.bool() { u64::MAX } else { 1 << 60 | rng.next() >> 8 },
    }
}

/// Neighbouring pages loaded one after the other, from the same blob or from
/// another one, at offsets that continue or do not.
fn seams(rng: &mut Rng, p: &mut Prog) {
    use crate::prog::{Arg::I, Node};
    let mut at = (p.bases[rng.usize(2)] & !4095) + 4096 * rng.below(3);
    let mut off = 4096 * rng.below(2);
    let mut v = vec![];
    for _ in 0..rng.range(2, 4) {
        let n = 4096 * rng.range(1, 2);
        v.push(Node::Host(crate::kernel::SNAP2_STORE, vec![I(at), I(rng.below(3)), I(off), I(n), I(p.bases[0])]));
        at += n;
        off += if rng.chance(1, 6) { 0 } else { n };
    }
    if rng.bool() {
        v.reverse();
    }
    let f = 0;
    let i = rng.usize(p.funcs[f].body.len() + 1);
    p.funcs[f].body.splice(i..i, v);
}

/// Data segments that share pages (legal from version 1: they are not frozen).
pub fn overlap(rng: &mut Rng, p: &mut Prog) {
    if p.version == 0 {
        return;
    }
    let d = p.data[0].clone();
    let at = d.addr - d.addr % 4096 + rng.below(3) * 4096 + rng.below(2) * rng.below(4096);
    let n = rng.range(1, 6000) as usize;
    let memsz = match rng.below(6) {
        0 => rng.range(1, n as u64),
        1 | 2 => n as u64,
        _ => n as u64 + rng.below(5000),
    };
    p.data.push(crate::prog::DataSeg { addr: at, init: rng.bytes(n), memsz, write: true });
}

fn source(c: &Case, elf: &Bytes) -> Blobs {
    let mut v: Vec<Bytes> = c.blobs.iter().map(|(s, l)| Bytes::from(bytes_for(*s, *l))).collect();
    let mut prog = bytes_for(99, c.lead);
    prog.extend_from_slice(elf);
    prog.extend_from_slice(&bytes_for(98, 300));
    v.push(Bytes::from(prog));
    Blobs::new(v)
}

struct Sut {
    e: Box<dyn Engine>,
    k: K,
    pause: Option<Pause>,
    kind: Kind,
}

fn machine(c: &Case, kind: Kind, persistent: bool, k: &K, pause: &Option<Pause>) -> Box<dyn Engine> {
    let mut ec: Cfg = cfg(&c.prog, kind, c.cost);
    ec.persistent = persistent;
    ec.max_cycles = c.max;
    let mut e = build(&ec, k, None);
    if let Some(p) = pause {
        p.clone().free();
        e.set_pause(p.clone());
        k.lock().unwrap().pause = Some(p.clone());
    }
    e
}

/// Load the program, and mark it as coming from the data source.
fn load(c: &Case, e: &mut dyn Engine, k: &K, g: &Guest, two: bool) -> Result<(), Error> {
    if !two {
        return e.load(&g.built.elf, &g.args).map(|_| ());
    }
    let m = e.parse(&g.built.elf)?;
    e.load_meta(&g.built.elf, &m, &g.args)?;
    let mut ctx = Ctx2::new(source(c, &g.built.elf));
    e.core().mark2(&mut ctx, &m, 3, c.lead)?;
    k.lock().unwrap().ctx2 = Some(ctx);
    Ok(())
}

/// Serialise a snapshot of the machine, checking that this does not disturb it.
fn save(s: &mut Sut, two: bool) -> Result<Durable, Violation> {
    let who = s.kind.name();
    let before = match state(s.e.core()) {
        Ok(x) => x,
        Err(x) => return viol("observe", format!("{}: memory cannot be read: {:?}", who, x)),
    };
    let (max0, pc0) = (s.e.core().max_cyc(), s.e.core().pc());
    let mut k = s.k.lock().unwrap();
    let (mut pages2, mut dirty2) = (0, 0);
    let bytes = if two {
        let ctx = k.ctx2.take().unwrap();
        let r = s.e.core().snap2(&ctx);
        k.ctx2 = Some(ctx);
        match r {
            Ok(x) => {
                pages2 = x.pages_from_source.iter().map(|p| p.4 / 4096).sum();
                dirty2 = x.dirty_pages.len() as u64;
                serde_json::to_vec(&x).unwrap()
            }
            Err(e) => return viol("save", format!("{}: a snapshot cannot be made: {}", who, e)),
        }
    } else {
        match s.e.core().snap1() {
            Ok(x) => serde_json::to_vec(&x).unwrap(),
            Err(e) => return viol("save", format!("{}: a snapshot cannot be made: {}", who, e)),
        }
    };
    let d = Durable {
        snap: bytes,
        cycles: s.e.core().cyc(),
        events: k.events.len(),
        calls: k.calls,
        breaks: k.breaks,
        pages2,
        dirty2,
    };
    drop(k);
    let after = state(s.e.core()).unwrap();
    if before != after || (max0, pc0) != (s.e.core().max_cyc(), s.e.core().pc()) {
        let what = before.diff(&after, true, true, Dirty::Equal).unwrap_or("the limit".into());
        return viol("disturb", format!("{}: taking a snapshot changes the machine: {}", who, what));
    }
    Ok(d)
}

/// A new process: a fresh machine holding what the snapshot says.
fn restore(c: &Case, s: &mut Sut, d: &Durable, st: &Step, two: bool) -> Result<(), Violation> {
    let mut e = machine(c, st.kind, st.persistent, &s.k, &s.pause);
    let who = format!("{} restored from a snapshot", st.kind.name());
    {
        let mut k = s.k.lock().unwrap();
        k.events.truncate(d.events);
        k.calls = d.calls;
        k.breaks = d.breaks;
        k.inject.clear();
        k.req = None;
    }
    if two {
        let snap: Snap2 = serde_json::from_slice(&d.snap).unwrap();
        let src = source(c, &Guest::new(&c.prog).built.elf);
        // a resume may also reuse a context that tracked another machine
        let used = s.k.lock().unwrap().ctx2.take();
        let mut ctx = match used {
            Some(c) if st.persistent && !st.torn => c,
            _ => Ctx2::new(src),
        };
        if let Err(x) = e.core().resume2(&mut ctx, &snap) {
            return viol("restore", format!("{}: refused: {}", who, x));
        }
        // what was kept by reference still is
        match e.core().snap2(&ctx) {
            Ok(x) if serde_json::to_vec(&x).unwrap() == d.snap => (),
            Ok(x) => {
                let n = |s: &Snap2| {
                    (s.pages_from_source.iter().map(|p| p.4 / 4096).sum::<u64>(), s.dirty_pages.iter().map(|p| p.2.len() / 4096).sum::<usize>())
                };
                return viol(
                    "again",
                    format!("{}: another snapshot right away is not the same one: {:?} pages by reference and by value, expected {:?}", who, n(&x), n(&snap)),
                );
            }
            Err(x) => return viol("again", format!("{}: no snapshot can be made of it: {}", who, x)),
        }
        s.k.lock().unwrap().ctx2 = Some(ctx);
    } else {
        let snap: Snapshot = serde_json::from_slice(&d.snap).unwrap();
        if let Err(x) = e.core().resume1(&snap) {
            return viol("restore", format!("{}: refused: {}", who, x));
        }
        match e.core().snap1() {
            Ok(x) if serde_json::to_vec(&x).unwrap() == d.snap => (),
            Ok(x) => {
                return viol("again", format!("{}: another snapshot right away is not the same one: {} pages, expected {}", who, x.pages.len(), snap.pages.len()))
            }
            Err(x) => return viol("again", format!("{}: no snapshot can be made of it: {}", who, x)),
        }
        // this kind of snapshot leaves accounting to the host
        e.core().set_cyc(d.cycles);
    }
    s.e = e;
    s.kind = st.kind;
    Ok(())
}

fn mirror(want: &crate::core::State, s: &mut Sut, max: Option<u64>) -> Result<(), Violation> {
    let got = match state(s.e.core()) {
        Ok(x) => x,
        Err(x) => return viol("observe", format!("restored memory cannot be read: {:?}", x)),
    };
    if let Some(d) = want.diff(&got, true, true, Dirty::Ignore) {
        return viol("restored", format!("{}: the restored machine is not the saved one: {}", s.kind.name(), d));
    }
    if let Some(m) = max {
        if s.e.core().max_cyc() != m {
            return viol("restored", format!("{}: the restored limit is {}, expected {}", s.kind.name(), s.e.core().max_cyc(), m));
        }
    }
    Ok(())
}

fn go(s: &mut Sut, plan: &trap::Plan) -> Result<i8, Error> {
    if s.pause.is_some() && !plan.before.is_empty() {
        let e = &mut s.e;
        trap::with(plan, || e.run()).0
    } else {
        s.e.run()
    }
}

pub fn check(c: &Case, st: &mut Stats, two: bool) -> Result<(), Violation> {
    trap::no_mailbox();
    let bad_mop = |k: Kind| k.trace() && c.prog.isa & ckb_vm::ISA_MOP != 0 && c.prog.version == 0;
    if bad_mop(c.kind) || c.steps.iter().any(|s| bad_mop(s.kind)) {
        return Ok(());
    }
    let g = Guest::new(&c.prog);
    // without crashes
    let k = kernel();
    let mut e = machine(c, Kind::Model, false, &k, &None);
    if load(c, e.as_mut(), &k, &g, two).is_err() {
        st.probe("not loadable");
        return Ok(());
    }
    let r = e.run();
    let want = outcome(e.as_mut(), r, &k)?;
    if want.res == Err(EC::Unexpected) || e.disputed().is_some() {
        return Ok(());
    }
    st.units += want.st.cycles.min(1 << 24);
    // with crashes
    let k = kernel();
    let pause = trap::new_pause();
    let e = machine(c, c.kind, c.persistent, &k, &pause);
    let mut s = Sut { e, k, pause, kind: c.kind };
    if let Err(x) = load(c, s.e.as_mut(), &s.k.clone(), &g, two) {
        return viol("load", format!("{}: refuses what the reference loads: {}", s.kind.name(), x));
    }
    let mut trace: Vec<String> = vec![];
    let r = script(c, st, two, &mut s, &want, &mut trace);
    st.kernel(&s.k);
    s.k.lock().unwrap().pause = None;
    r.map_err(|mut v| {
        trace.truncate(60);
        v.trace = trace;
        v
    })
}

fn script(c: &Case, st: &mut Stats, two: bool, s: &mut Sut, want: &Outcome, trace: &mut Vec<String>) -> Result<(), Violation> {
    let mut durable: Option<(Durable, crate::core::State, u64)> = None;
    let mut sig = want.sig();
    let mut restarts = 0u64;
    let mut fin: Option<Result<i8, Error>> = None;
    for step in &c.steps {
        let cyc = s.e.core().cyc();
        let mut plan = trap::Plan::default();
        match step.stop {
            Stop::Poll(n) => plan.before = vec![n],
            Stop::Limit(d) => s.e.set_max(cyc.saturating_add(d)),
            Stop::Yield(n) | Stop::Fail(n) => {
                let mut k = s.k.lock().unwrap();
                let at = k.calls + n;
                let inj = if matches!(step.stop, Stop::Yield(_)) { Inj::Yield } else { Inj::Fail };
                k.inject.insert(at, inj);
            }
        }
        let r = go(s, &plan);
        st.runs += 1;
        s.k.lock().unwrap().inject.clear();
        let at = (s.e.core().pc(), s.e.core().cyc());
        trace.push(format!("{}: {:?} -> {:?}, pc {:#x}, {} cycles; {:?}", s.kind.name(), step.stop, cls(&r), at.0, at.1, step.act));
        match &r {
            Err(Error::Pause) => st.fault("stopped by a pause", 1),
            Err(Error::CyclesExceeded) => st.fault("stopped by the cycle limit", 1),
            Err(Error::Yield) => st.fault("stopped by a suspending host call", 1),
            Err(Error::External(_)) => st.fault("stopped by a failing host call", 1),
            _ => {
                fin = Some(r);
                break;
            }
        }
        sig = mix(sig ^ at.0 ^ at.1.rotate_left(32) ^ (step.act as u64) << 60 ^ step.kind.asm() as u64);
        if matches!(step.act, Act::Save | Act::Move) {
            let full = state(s.e.core()).map_err(|e| Violation { kind: "observe".into(), msg: format!("{:?}", e), trace: vec![] })?;
            let max = s.e.core().max_cyc();
            let d = save(s, two)?;
            st.probe("snapshots saved");
            st.probe_n("pages saved by reference", d.pages2);
            st.probe_n("pages saved by value (runs)", d.dirty2);
            durable = Some((d, full, max));
        }
        if matches!(step.act, Act::Crash | Act::Move) {
            if let Some((d, full, max)) = &durable {
                restarts += 1;
                st.fault(if step.act == Act::Move { "crash right after a snapshot" } else { "crash losing work since the snapshot" }, 1);
                if step.torn {
                    // the first restart dies before it finishes; nothing of it survives
                    restore(c, s, d, step, two)?;
                    st.fault("crash while restoring", 1);
                }
                restore(c, s, d, step, two)?;
                mirror(full, s, if two { Some(*max) } else { None })?;
                *st.engines.entry(step.kind.name()).or_default() += 1;
            }
        }
        s.e.set_max(c.max);
    }
    let res = match fin {
        Some(r) => r,
        None => {
            let mut n = 0;
            loop {
                st.runs += 1;
                match go(s, &trap::Plan::default()) {
                    // a pause whose request was pending when the machine stopped for another reason
                    Err(Error::Pause) if n < 20 => n += 1,
                    x => break x,
                }
            }
        }
    };
    let got = outcome(s.e.as_mut(), res, &s.k)?;
    st.see(got.sig() ^ sig);
    if restarts > 0 {
        st.sig(sig);
        st.probe("restarted and finished");
        st.probe_n("restarts", restarts);
    }
    let who = format!("{} after {} restarts", s.kind.name(), restarts);
    if c.steps.iter().any(|x| matches!(x.stop, Stop::Limit(_))) && got.res == Err(EC::CyclesExceeded) && want.res.is_err() {
        // the limit struck a block that faults later
        return Ok(());
    }
    if let Some(d) = diff_events(&want.events, &got.events) {
        return viol("history", format!("{}: {}", who, d));
    }
    if want.res != got.res {
        return viol("result", format!("{}: result {:?}, expected {:?}", who, got.res, want.res));
    }
    let ok = want.res.is_ok();
    let exact = ok || !(s.kind.asm() || c.kind.asm() || c.steps.iter().any(|x| x.kind.asm()));
    if let Some(d) = want.st.diff(&got.st, ok, exact, Dirty::Ignore) {
        return viol("state", format!("{}: {}", who, d));
    }
    Ok(())
}

pub fn atoms(c: &Case) -> usize {
    c.steps.len() + c.prog.atoms()
}
pub fn without(c: &Case, lo: usize, hi: usize) -> Case {
    let n = c.steps.len();
    let mut d = c.clone();
    d.steps = drop_range(&c.steps, lo, hi);
    if hi > n {
        d.prog = c.prog.without(lo.saturating_sub(n), hi - n);
    }
    d
}
pub fn simpler(c: &Case) -> Vec<Case> {
    let mut v: Vec<Case> = c.prog.simpler().into_iter().map(|p| Case { prog: p, ..c.clone() }).collect();
    if c.cost != Cost::One {
        v.push(Case { cost: Cost::One, ..c.clone() });
    }
    if c.lead != 0 {
        v.push(Case { lead: 0, ..c.clone() });
    }
    for i in 0..c.steps.len() {
        let s = &c.steps[i];
        if s.torn {
            let mut d = c.clone();
            d.steps[i].torn = false;
            v.push(d);
        }
        if s.kind != c.kind {
            let mut d = c.clone();
            d.steps[i].kind = c.kind;
            v.push(d);
        }
        if s.act == Act::Crash || s.act == Act::Save {
            let mut d = c.clone();
            d.steps[i].act = Act::Move;
            v.push(d);
        }
    }
    if c.kind != Kind::InterpSparse {
        let mut d = c.clone();
        for s in d.steps.iter_mut() {
            if s.kind == c.kind {
                s.kind = Kind::InterpSparse;
            }
        }
        d.kind = Kind::InterpSparse;
        v.push(d);
    }
    v
}
