//! C02: pausing and resuming never changes what a program computes.

use crate::c01::{drop_range, terminal};
use crate::core::{Dirty, EC};
use crate::engine::{build, kinds, Cost, Engine, Hook, HookState, Kind};
use crate::kernel::{diff_events, kernel, Inj, K};
use crate::prog::{generate, Gen, HostGen, Prog};
use crate::rng::Rng;
use crate::scn::*;
use crate::trap;
use ckb_vm::Error;
use serde::{Deserialize, Serialize};
use std::sync::{Arc, Mutex};

/// Where a pause request arrives. Fractions (of 2^16) of what the
/// uninterrupted run went through.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum At {
    /// just before a poll of the pause flag
    Poll(u16),
    /// just after a poll has read the flag
    AfterPoll(u16),
    /// while a host call is served
    Call(u16),
    Break(u16),
    /// while an instruction is priced (assembly machine: while a trace is built)
    Price(u16),
    /// while the assembly machine asks for a trace
    Decode(u16),
    /// before the first run
    Before,
    /// while stopped for the n-th time
    Stopped(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub prog: Prog,
    pub cost: Cost,
    pub kind: Kind,
    pub persistent: bool,
    pub at: Vec<At>,
    /// also pause at every n-th poll (0: no)
    pub every: u32,
    /// single steps taken after each stop
    pub steps: u32,
    /// forget cached code after each stop
    pub cold: bool,
}

pub struct C02;

pub fn frac(f: u16, n: u64) -> u64 {
    (f as u64 * n) >> 16
}

pub struct Rig {
    pub e: Box<dyn Engine>,
    pub k: K,
    pub hook: Hook,
    pub trapped: bool,
}

pub fn rig(c: &crate::engine::Cfg, use_hook: bool) -> Rig {
    let k = kernel();
    let hook: Hook = Arc::new(Mutex::new(HookState::default()));
    let mut e = build(c, &k, if use_hook { Some(hook.clone()) } else { None });
    let mut trapped = false;
    if let Some(p) = trap::new_pause() {
        e.set_pause(p.clone());
        k.lock().unwrap().pause = Some(p.clone());
        hook.lock().unwrap().pause = Some(p);
        trapped = true;
    }
    trap::no_mailbox();
    Rig { e, k, hook, trapped }
}

impl Rig {
    /// Drop the handles so that the trapped page can be reused.
    pub fn done(self) {
        self.k.lock().unwrap().pause = None;
        self.hook.lock().unwrap().pause = None;
    }
    pub fn run(&mut self, plan: &trap::Plan) -> (Result<i8, Error>, trap::Seen) {
        if self.trapped {
            let e = &mut self.e;
            trap::with(plan, || e.run())
        } else {
            (self.e.run(), trap::Seen { polls: 0, mails: 0, raised: 0 })
        }
    }
}

pub fn gen_prog(rng: &mut Rng, interrupting: bool) -> Prog {
    let mut g = Gen::random(rng);
    g.rv32 = rng.chance(1, 12);
    if g.rv32 {
        g.isa &= !ckb_vm::ISA_B;
    }
    g.budget = 1500;
    g.host_rate = 10;
    if interrupting {
        g.host.push((2, HostGen::Interrupt));
    }
    generate(rng, &g)
}

impl Prop for C02 {
    type Case = Case;
    const ID: &'static str = "C02";
    const RULE: &'static str = "a case is a generated guest on one engine and a set of instants at which a pause request arrives (before any poll of the flag, right after it, inside host calls, breakpoints, pricing and trace building, before the run, while stopped); it is run to the end by running again after every pause and compared with the uninterrupted run of the same engine; non-trivial if it paused at least once and the (program, engine, stop positions) combination was not seen before";
    const REAL: &'static [&'static str] = &["every engine and decoder", "Pause", "memory", "program loading"];
    const STUB: &'static [&'static str] = &["host-call handlers", "tiny trace decoder (extra engine)"];

    fn gen(rng: &mut Rng, _t: Tier) -> Case {
        let mut prog = gen_prog(rng, false);
        if rng.chance(1, 6) {
            let t = terminal(rng, &prog);
            prog.funcs[0].body.extend(t);
        }
        let all = kinds(prog.rv32);
        let kind = *rng.pick(&all);
        let n = match rng.below(4) {
            0 => 1,
            1 => 2,
            _ => rng.range(1, 12),
        };
        let mut at = vec![];
        for _ in 0..n {
            let f = rng.next() as u16;
            at.push(match rng.below(16) {
                0..=5 => At::Poll(f),
                6 => At::AfterPoll(f),
                7..=9 => At::Call(f),
                10 => At::Break(f),
                11 | 12 => At::Price(f),
                13 => At::Decode(f),
                14 => At::Before,
                _ => At::Stopped(rng.below(4) as u8),
            });
        }
        let every = if rng.chance(1, 10) { rng.range(3, 40) as u32 } else { 0 };
        Case {
            prog,
            cost: random_cost(rng),
            kind,
            persistent: rng.bool(),
            at,
            every,
            steps: if rng.chance(1, 6) { rng.range(1, 12) as u32 } else { 0 },
            cold: rng.chance(1, 4),
        }
    }

    fn run(c: &Case, st: &mut Stats) -> Result<(), Violation> {
        let g = Guest::new(&c.prog);
        let mut ec = cfg(&c.prog, c.kind, c.cost);
        ec.persistent = c.persistent;
        {
            // does it end at all?
            let k = kernel();
            let mut m = build(&cfg(&c.prog, Kind::Model, Cost::Zero), &k, None);
            if m.load(&g.built.elf, &g.args).is_ok() && matches!(m.run(), Err(Error::Unexpected(_))) {
                st.probe("model step or event limit");
                return Ok(());
            }
        }
        let use_hook = c.at.iter().any(|a| matches!(a, At::Price(_) | At::Decode(_)));
        // the uninterrupted run
        let mut r = rig(&ec, use_hook);
        r.k.lock().unwrap().mem_every = 7;
        if r.e.load(&g.built.elf, &g.args).is_err() {
            st.probe("not loadable");
            r.done();
            return Ok(());
        }
        let (res, seen) = r.run(&trap::Plan::default());
        let want = outcome(r.e.as_mut(), res, &r.k)?;
        let (calls, breaks) = {
            let k = r.k.lock().unwrap();
            (k.calls, k.breaks)
        };
        let (priced, decoded) = {
            let h = r.hook.lock().unwrap();
            (h.priced, h.decoded)
        };
        let polls = seen.polls;
        r.done();
        st.units += want.st.cycles.min(1 << 32);
        if want.res == Err(EC::Unexpected) {
            return Ok(());
        }
        if want.res == Err(EC::Pause) {
            return viol("spurious", format!("{}: a run nobody asked to pause reports a pause", c.kind.name()));
        }

        // the interrupted run
        let mut r = rig(&ec, use_hook);
        r.k.lock().unwrap().mem_every = 7;
        r.e.load(&g.built.elf, &g.args).ok();
        let mut pos: Vec<u64> = vec![];
        let mut stopped: Vec<u8> = vec![];
        let mut after = 0;
        {
            let mut k = r.k.lock().unwrap();
            let mut h = r.hook.lock().unwrap();
            for a in &c.at {
                match a {
                    At::Poll(f) => pos.push(1 + frac(*f, polls)),
                    At::AfterPoll(f) => after = 1 + frac(*f, polls),
                    At::Call(f) => {
                        if calls > 0 {
                            k.inject.insert(frac(*f, calls), Inj::Interrupt);
                        }
                    }
                    At::Break(f) => {
                        if breaks > 0 {
                            k.inject_break.insert(frac(*f, breaks), Inj::Interrupt);
                        }
                    }
                    At::Price(f) => {
                        h.price_at.insert(1 + frac(*f, priced));
                    }
                    At::Decode(f) => {
                        h.decode_at.insert(1 + frac(*f, decoded));
                    }
                    At::Before => (),
                    At::Stopped(n) => stopped.push(*n),
                }
            }
        }
        pos.sort();
        if c.at.contains(&At::Before) {
            r.e.pause().interrupt();
            st.fault("pause before the run", 1);
        }
        let mut base = 0u64; // polls of the uninterrupted run already passed
        let mut stops = 0u32;
        let mut sig = want.sig();
        let mut trace: Vec<String> = vec![];
        let res = loop {
            // the next requests, as polls of this run
            let mut before: Vec<u64> = vec![];
            while let Some(p) = pos.first() {
                if *p <= base {
                    before.push(1);
                    pos.remove(0);
                    break;
                }
                before.push(*p - base);
                break;
            }
            if c.every > 0 && stops < 400 {
                before.push(c.every as u64);
            }
            before.sort();
            before.dedup();
            let plan = trap::Plan { before, after: if after > base { after - base } else { 0 }, mail: 0 };
            let (res, seen) = r.run(&plan);
            st.fault("pause at a poll of the flag", seen.raised);
            match res {
                Err(Error::Pause) => {
                    stops += 1;
                    let at = base + seen.polls;
                    pos.retain(|p| *p > at || plan.before.first() != Some(&1));
                    if pos.first().map_or(false, |p| *p <= at) {
                        pos.remove(0);
                    }
                    if after != 0 && after <= at {
                        after = 0;
                    }
                    base = at.saturating_sub(1);
                    sig = crate::rng::mix(sig ^ at ^ (r.e.core().pc() << 20));
                    trace.push(format!("paused at pc {:#x} after {} cycles", r.e.core().pc(), r.e.core().cyc()));
                    if stopped.iter().any(|n| *n as u32 + 1 == stops) {
                        r.e.pause().interrupt();
                        st.fault("pause while stopped", 1);
                    } else if c.steps > 0 && c.kind != Kind::Model {
                        let mut fin = None;
                        for _ in 0..c.steps {
                            if !r.e.running() {
                                fin = Some(Ok(r.e.exit_code()));
                                break;
                            }
                            if let Err(e) = r.e.step() {
                                fin = Some(Err(e));
                                break;
                            }
                        }
                        if let Some(Err(Error::Pause)) = fin {
                            fin = None;
                        }
                        if fin.is_none() && !r.e.running() {
                            fin = Some(Ok(r.e.exit_code()));
                        }
                        if let Some(f) = fin {
                            break f;
                        }
                    }
                    if c.cold {
                        r.e.cold();
                    }
                    if stops > 5000 {
                        return viol("progress", format!("{}: no end after {} pauses", c.kind.name(), stops));
                    }
                }
                x => break x,
            }
        };
        let got = outcome(r.e.as_mut(), res, &r.k)?;
        st.kernel(&r.k);
        {
            let h = r.hook.lock().unwrap();
            st.fault("pause while pricing or building a trace", h.fired);
        }
        r.done();
        st.runs += 1 + stops as u64;
        *st.engines.entry(c.kind.name()).or_default() += 1;
        st.see(got.sig() ^ sig);
        if stops > 0 {
            st.sig(sig);
            st.probe("paused and resumed");
            st.probe_n("stops", stops as u64);
        }
        let who = format!("{} with {} pauses", c.kind.name(), stops);
        let v = (|| {
            if let Some(d) = diff_events(&want.events, &got.events) {
                return viol("history", format!("{}: {}", who, d));
            }
            if want.res != got.res {
                return viol("result", format!("{}: result {:?}, expected {:?}", who, got.res, want.res));
            }
            let exact = want.res.is_ok() || (c.steps == 0 && !c.kind.asm());
            if let Some(d) = want.st.diff(&got.st, exact, exact, Dirty::Equal) {
                return viol("state", format!("{}: {}", who, d));
            }
            Ok(())
        })();
        v.map_err(|mut v: Violation| {
            trace.truncate(50);
            v.trace = trace;
            v
        })
    }
    fn atoms(c: &Case) -> usize {
        c.at.len() + c.prog.atoms()
    }
    fn without(c: &Case, lo: usize, hi: usize) -> Case {
        let n = c.at.len();
        let mut d = c.clone();
        d.at = drop_range(&c.at, lo, hi);
        if hi > n {
            d.prog = c.prog.without(lo.saturating_sub(n), hi - n);
        }
        d
    }
    fn simpler(c: &Case) -> Vec<Case> {
        let mut v: Vec<Case> = c.prog.simpler().into_iter().map(|p| Case { prog: p, ..c.clone() }).collect();
        if c.cost != Cost::One {
            v.push(Case { cost: Cost::One, ..c.clone() });
        }
        if c.every != 0 {
            v.push(Case { every: 0, ..c.clone() });
        }
        if c.steps != 0 {
            v.push(Case { steps: 0, ..c.clone() });
        }
        if c.cold {
            v.push(Case { cold: false, ..c.clone() });
        }
        if c.persistent {
            v.push(Case { persistent: false, ..c.clone() });
        }
        v
    }
}
