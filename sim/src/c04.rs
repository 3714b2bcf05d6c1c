//! C04: the cycle limit is exact, sound and restartable.

use crate::c01::{drop_range, terminal};
use crate::c02::frac;
use crate::core::{ec, Dirty, EC};
use crate::engine::{build, kinds, Cost, Engine, Kind};
use crate::kernel::{diff_events, kernel, Inj, K};
use crate::prog::{generate, Gen, HostGen, Node, Prog};
use crate::rng::{mix, Rng};
use crate::scn::*;
use ckb_vm::Error;
use serde::{Deserialize, Serialize};

/// A limit, relative to what the unlimited run consumed.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Lim {
    Frac(u16),
    Total(i64),
    /// consumed at the n-th host call, plus
    Call(u16, i64),
    /// what was consumed when the last limit struck, plus
    More(u64),
    Abs(u64),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub prog: Prog,
    pub cost: Cost,
    pub kind: Kind,
    pub persistent: bool,
    pub limits: Vec<Lim>,
    /// the host starts the consumption here (wraps below the top if high)
    pub start: u64,
    /// `start` counts down from the point where the total would just overflow
    pub near_top: Option<i64>,
    /// pause requests inside host calls
    pub pauses: Vec<u16>,
    pub steps: bool,
    pub cold: bool,
}

pub struct C04;

struct Sut {
    e: Box<dyn Engine>,
    k: K,
}

/// Run until something other than a pause happens.
fn go(s: &mut Sut, steps: bool, st: &mut Stats) -> Result<i8, Error> {
    for _ in 0..10_000 {
        let r = if steps { stepped(s.e.as_mut()) } else { s.e.run() };
        st.runs += 1;
        match r {
            Err(Error::Pause) => continue,
            x => return x,
        }
    }
    Err(Error::Unexpected("endless pauses".into()))
}

fn stepped(e: &mut dyn Engine) -> Result<i8, Error> {
    e.set_running(true);
    for _ in 0..4_000_000 {
        if !e.running() {
            return Ok(e.exit_code());
        }
        e.step()?;
    }
    Err(Error::Unexpected("too many steps".into()))
}

fn start(c: &Case, kind: Kind, g: &Guest, from: u64, calls: u64) -> Option<Sut> {
    let mut ec = cfg(&c.prog, kind, c.cost);
    ec.persistent = c.persistent;
    let k = kernel();
    let mut e = build(&ec, &k, None);
    e.load(&g.built.elf, &g.args).ok()?;
    e.core().set_cyc(from);
    if calls > 0 && kind != Kind::Model {
        let mut k = k.lock().unwrap();
        for f in &c.pauses {
            k.inject.insert(frac(*f, calls), Inj::Interrupt);
        }
    }
    Some(Sut { e, k })
}

impl Prop for C04 {
    type Case = Case;
    const ID: &'static str = "C04";
    const RULE: &'static str = "a case is a generated guest under a cost function, an engine and a history of limits placed around what the unlimited run consumes in total and at its host calls, with the consumption optionally starting next to the 64-bit top and pauses in between; every invocation is compared with the reference model under the same limit, the end with the unlimited run; non-trivial if a limit struck at least once and the (outcome, stop positions) combination was not seen before";
    const REAL: &'static [&'static str] = &["every engine and decoder", "cycle accounting", "memory", "program loading"];
    const STUB: &'static [&'static str] = &["host-call handlers", "cost function", "tiny trace decoder (extra engine)"];

    fn gen(rng: &mut Rng, _t: Tier) -> Case {
        let mut g = Gen::random(rng);
        g.rv32 = rng.chance(1, 12);
        if g.rv32 {
            g.isa &= !ckb_vm::ISA_B;
        }
        g.budget = 1200;
        g.host_rate = 10;
        g.host.push((3, HostGen::AddCycles));
        g.host.push((2, HostGen::Cycles));
        if rng.bool() {
            g.host.push((2, HostGen::LimitUp));
        }
        let mut prog = generate(rng, &g);
        if rng.chance(1, 8) {
            let t = terminal(rng, &prog);
            prog.funcs[0].body.extend(t);
        }
        let all = kinds(prog.rv32);
        let kind = *rng.pick(&all);
        let cost = match rng.below(6) {
            0 => Cost::Inst(rng.next(), *rng.pick(&[56u8, 60, 62, 63, 64])),
            1 => Cost::Op(rng.next(), *rng.pick(&[56u8, 60, 62, 63, 64])),
            _ => random_cost(rng),
        };
        if matches!(cost, Cost::Inst(_, 56..) | Cost::Op(_, 56..)) && rng.bool() {
            // a host call within the first stretch, whose cost may not be countable
            prog.funcs[0].body.insert(0, Node::Host(crate::kernel::LOG, vec![]));
        }
        let n = rng.range(1, 8);
        let limits = (0..n)
            .map(|_| match rng.below(10) {
                0..=2 => Lim::Frac(rng.next() as u16),
                3 | 4 => Lim::Total(rng.below(5) as i64 - 3),
                5 | 6 => Lim::Call(rng.next() as u16, rng.below(5) as i64 - 2),
                7 | 8 => Lim::More(rng.logscale(300)),
                _ => Lim::Abs(rng.edge64()),
            })
            .collect();
        let near = rng.chance(1, 4);
        Case {
            prog,
            cost,
            kind,
            persistent: rng.bool(),
            limits,
            start: if rng.chance(1, 4) { rng.edge64() >> 1 } else { 0 },
            near_top: if near { Some(if rng.bool() { rng.below(5) as i64 - 2 } else { rng.logscale(2000) as i64 }) } else { None },
            pauses: if rng.chance(1, 4) { (0..rng.range(1, 4)).map(|_| rng.next() as u16).collect() } else { vec![] },
            steps: rng.chance(1, 10),
            cold: rng.chance(1, 4),
        }
    }

    fn run(c: &Case, st: &mut Stats) -> Result<(), Violation> {
        let g = Guest::new(&c.prog);
        if c.kind.trace() && c.prog.isa & ckb_vm::ISA_MOP != 0 && c.prog.version == 0 {
            return Ok(());
        }
        // how much does the program cost?
        let mut m = match start(c, Kind::Model, &g, 0, 0) {
            Some(m) => m,
            None => return Ok(()),
        };
        let r0 = m.e.run();
        let total0 = m.e.core().cyc();
        if m.e.disputed().is_some() || matches!(r0, Err(Error::Unexpected(_))) {
            return Ok(());
        }
        let from = match c.near_top {
            Some(d) if !matches!(r0, Err(Error::CyclesOverflow)) => (u64::MAX - total0).saturating_add_signed(d),
            _ => c.start,
        };
        // the unlimited run
        let mut m = start(c, Kind::Model, &g, from, 0).unwrap();
        let r = m.e.run();
        let want = outcome(m.e.as_mut(), r, &m.k)?;
        let (total, calls) = (want.st.cycles, m.k.lock().unwrap().calls);
        if want.res == Err(EC::Unexpected) {
            return Ok(());
        }
        st.units += total.wrapping_sub(from).min(1 << 24);
        let overflow = want.res == Err(EC::CyclesOverflow);
        if overflow {
            st.probe("total cost overflows");
        }
        let who = c.kind.name();
        let mut m = start(c, Kind::Model, &g, from, 0).unwrap();
        let mut s = match start(c, c.kind, &g, from, calls) {
            Some(s) => s,
            None => return viol("load", format!("{}: refuses a program the reference loads", who)),
        };
        let mut sig = want.sig();
        let mut struck = 0;
        let mut trace = vec![];
        let mut lockstep = true;
        let mut lims: Vec<Option<&Lim>> = c.limits.iter().map(Some).collect();
        lims.push(None);
        lims.push(None); // a guest may lower nothing, but a handler may have refused in between
        let mut fin: Option<Result<i8, Error>> = None;
        for l in lims {
            let near = |at: u64, d: i64| (at as i128 + d as i128).clamp(0, u64::MAX as i128) as u64;
            let lim = match l {
                None => u64::MAX,
                Some(Lim::Frac(f)) => from + (((total - from.min(total)) as u128 * *f as u128) >> 16) as u64,
                Some(Lim::Total(d)) => near(total, *d),
                Some(Lim::Call(f, d)) => match want.events.get(frac(*f, calls) as usize) {
                    Some(e) => near(e.cycles, *d),
                    None => total,
                },
                Some(Lim::More(d)) => s.e.core().cyc().saturating_add(*d),
                Some(Lim::Abs(x)) => *x,
            };
            if c.cold ^ c.persistent {
                s.e.set_max(lim);
            } else {
                s.e.core().set_max_cyc(lim);
            }
            if s.e.core().max_cyc() != lim {
                let m = s.e.core().max_cyc();
                return viol("set", format!("{}: a limit of {} set after {} cycles reads {}", who, lim, s.e.core().cyc(), m));
            }
            m.e.core().set_max_cyc(lim);
            let ncalls = s.k.lock().unwrap().calls;
            let r = go(&mut s, c.steps, st);
            let used = s.e.core().cyc();
            let at = s.e.core().pc();
            let cls_s = cls(&r);
            trace.push(format!("limit {}: {:?}, consumed {}, pc {:#x}", lim, cls_s, used, at));
            st.fault("cycle limit set", 1);
            let fail = |kind: &str, msg: String| {
                Err(Violation { kind: kind.into(), msg, trace: trace.clone() })
            };
            // the limit in force (a host call may have raised it)
            let now = s.e.core().max_cyc();
            if r.is_ok() && used > now {
                return fail("sound", format!("{}: exits with {} cycles under a limit of {}", who, used, now));
            }
            if let Err(Error::CyclesExceeded) = r {
                let added = s.k.lock().unwrap().calls > ncalls;
                if used > now && !added && used > lim.max(from) && struck == 0 {
                    return fail("sound", format!("{}: consumed {} cycles under a limit of {} without a host call adding any", who, used, now));
                }
            }
            if lockstep {
                let rm = go(&mut m, false, &mut Stats::default());
                let cls_m = cls(&rm);
                let same = cls_s == cls_m
                    || (c.kind.asm()
                        && !c.steps
                        && match (&cls_m, &cls_s) {
                            // a block that cannot be paid is not entered, even if it would fault half way
                            (Err(_), Err(EC::CyclesExceeded)) => true,
                            // one charge for the block; nor is one whose cost cannot be counted
                            (Err(EC::CyclesExceeded), Err(EC::CyclesOverflow)) => want.res.is_err(),
                            (Err(_), Err(EC::CyclesOverflow)) => true,
                            _ => false,
                        });
                if !same {
                    return fail(
                        "limit",
                        format!("{}: under a limit of {} the run gives {:?}, expected {:?} (whole program: {:?} at {})", who, lim, cls_s, cls_m, want.res, total),
                    );
                }
                if cls_s != cls_m {
                    lockstep = false;
                }
                if lockstep && cls_s == Err(EC::CyclesExceeded) && (!c.kind.asm() || c.steps) {
                    // the machine must not have gone further or less far
                    if (at, used) != (m.e.core().pc(), m.e.core().cyc()) && !(c.kind.asm() && at == m.e.core().pc() && used == m.e.core().cyc()) {
                        return fail(
                            "exact",
                            format!("{}: limit {} strikes at pc {:#x} after {} cycles, expected pc {:#x} after {}", who, lim, at, used, m.e.core().pc(), m.e.core().cyc()),
                        );
                    }
                }
            }
            match r {
                Err(Error::CyclesExceeded) => {
                    struck += 1;
                    st.fault("limit struck", 1);
                    sig = mix(sig ^ used.rotate_left(20) ^ at);
                    if c.cold {
                        s.e.cold();
                    }
                }
                x => {
                    fin = Some(x);
                    break;
                }
            }
        }
        let res = match fin {
            Some(x) => x,
            None => Err(Error::CyclesExceeded),
        };
        let got = outcome(s.e.as_mut(), res, &s.k)?;
        st.kernel(&s.k);
        st.see(got.sig() ^ sig);
        *st.engines.entry(who.clone()).or_default() += 1;
        if struck > 0 {
            st.sig(sig);
            st.probe_n("limit stops", struck);
        }
        let fail = |kind: &str, msg: String| Err(Violation { kind: kind.into(), msg, trace: trace.clone() });
        // an overflowing program may be stopped by the overflow earlier in
        // whole-block accounting, not with different host calls
        if let Some(d) = diff_events(&want.events, &got.events) {
            return fail("history", format!("{}: {}", who, d));
        }
        if c.kind.asm() && !c.steps && want.res.is_err() && got.res == Err(EC::CyclesOverflow) {
            st.probe("block cost overflow");
            return Ok(());
        }
        if want.res != got.res {
            return fail("result", format!("{}: after {} limit stops the result is {:?}, expected {:?}", who, struck, got.res, want.res));
        }
        let ok = want.res.is_ok();
        let exact = ok || !c.kind.asm();
        if !overflow || !c.kind.asm() || c.steps {
            if let Some(d) = want.st.diff(&got.st, ok, exact, Dirty::AtLeast) {
                return fail("state", format!("{}: after {} limit stops: {}", who, struck, d));
            }
        }
        let _ = ec;
        Ok(())
    }
    fn atoms(c: &Case) -> usize {
        c.limits.len() + c.pauses.len() + c.prog.atoms()
    }
    fn without(c: &Case, lo: usize, hi: usize) -> Case {
        let (n, p) = (c.limits.len(), c.pauses.len());
        let mut d = c.clone();
        d.limits = drop_range(&c.limits, lo, hi);
        d.pauses = drop_range(&c.pauses, lo.saturating_sub(n), hi.saturating_sub(n));
        if hi > n + p {
            d.prog = c.prog.without(lo.saturating_sub(n + p), hi - n - p);
        }
        d
    }
    fn simpler(c: &Case) -> Vec<Case> {
        let mut v: Vec<Case> = c.prog.simpler().into_iter().map(|p| Case { prog: p, ..c.clone() }).collect();
        if c.cost != Cost::One {
            v.push(Case { cost: Cost::One, ..c.clone() });
        }
        if c.start != 0 {
            v.push(Case { start: 0, ..c.clone() });
        }
        if c.near_top.is_some() {
            v.push(Case { near_top: None, ..c.clone() });
        }
        if c.cold {
            v.push(Case { cold: false, ..c.clone() });
        }
        if c.steps {
            v.push(Case { steps: false, ..c.clone() });
        }
        if c.persistent {
            v.push(Case { persistent: false, ..c.clone() });
        }
        v
    }
}
