//! C11: host calls are delivered exactly once, in order, with a consistent
//! machine.

use crate::c01::{drive, drop_range, terminal, Slice};
use crate::core::{regs_of, Dirty, EC};
use crate::engine::{build, kinds, Cost, Engine, Kind};
use crate::kernel::{diff_events, kernel, verdict, Delivery, Inj, ACCEPT, DECLINE, FAIL, K};
use crate::prog::{generate, Arg, Node, Gen, HostGen, Prog};
use crate::rng::{mix, Rng};
use crate::scn::*;
use ckb_vm::Error;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub prog: Prog,
    pub kind: Kind,
    pub persistent: bool,
    pub slice: Slice,
    pub cost: Cost,
    pub handlers: u32,
    pub router: Option<u64>,
    pub debugger: bool,
    pub calls: Vec<(u64, Inj)>,
    pub breaks: Vec<(u64, Inj)>,
    pub limit: Option<u64>,
    /// drop the decoder after these stops
    pub cold: u64,
    pub reload: bool,
    pub mem_every: u64,
}

pub struct C11;

struct S {
    e: Box<dyn Engine>,
    k: K,
}
fn make(c: &Case, kind: Kind) -> S {
    let mut ec = cfg(&c.prog, kind, c.cost);
    ec.persistent = c.persistent;
    ec.handlers = c.handlers;
    ec.debugger = c.debugger;
    ec.max_cycles = c.limit.unwrap_or(u64::MAX);
    let k = kernel();
    {
        let mut k = k.lock().unwrap();
        k.router = c.router.map(|s| (s, c.handlers));
        k.inject = c.calls.iter().cloned().collect();
        k.inject_break = c.breaks.iter().cloned().collect();
        k.mem_every = c.mem_every;
    }
    let e = build(&ec, &k, None);
    S { e, k }
}

/// run until something other than a pause
fn go(s: &mut S, sl: &Slice, st: &mut Stats) -> Result<i8, Error> {
    for _ in 0..5000 {
        let r = drive(s.e.as_mut(), sl, 400_000);
        st.runs += 1;
        match r {
            Err(Error::Pause) => continue,
            x => return x,
        }
    }
    Err(Error::Unexpected("endless pauses".into()))
}

/// What deliveries the registration order allows, from the decisions alone.
fn lawful(seed: u64, n: u32, d: &[Delivery]) -> Option<String> {
    let mut ordinal = 0u64;
    let mut next = 0u32;
    for (i, x) in d.iter().enumerate() {
        if x.handler != next {
            return Some(format!("delivery {}: handler {} is asked, expected handler {}", i, x.handler, next));
        }
        if x.nr == 93 {
            return Some(format!("delivery {}: exit reaches handler {}", i, x.handler));
        }
        if x.verdict != verdict(seed, n, ordinal, x.handler) {
            return Some(format!("delivery {}: call {} counted differently", i, ordinal));
        }
        match x.verdict {
            DECLINE if next + 1 < n => next += 1,
            DECLINE | ACCEPT | FAIL | _ => {
                ordinal += 1;
                next = 0;
            }
        }
    }
    None
}

impl Prop for C11 {
    type Case = Case;
    const ID: &'static str = "C11";
    const RULE: &'static str = "a case is a generated guest making many host calls and breakpoints, a stack of 0 to 5 handlers whose decisions (accept, decline, fail, suspend, interrupt, change registers, memory, limits) are drawn per call, an engine, and a schedule of continuations after every stop; every delivery (handler, number, registers, pc, cycles) and every stop is compared with the reference model; non-trivial if at least one stop other than a pause or one declined delivery happened and the history was not seen before";
    const REAL: &'static [&'static str] = &["every engine and decoder", "host-call and breakpoint dispatch", "memory", "program loading"];
    const STUB: &'static [&'static str] = &["host-call handlers and debugger", "tiny trace decoder (extra engine)"];

    fn gen(rng: &mut Rng, _t: Tier) -> Case {
        let mut g = Gen::random(rng);
        g.budget = 1500;
        g.host_rate = rng.range(10, 35);
        g.host.push((3, HostGen::Ebreak));
        g.host.push((2, HostGen::Yield));
        g.host.push((2, HostGen::Interrupt));
        g.host.push((2, HostGen::SetRegs));
        g.host.push((1, HostGen::LimitUp));
        g.host.push((1, HostGen::Stop));
        let mut prog = generate(rng, &g);
        if rng.chance(1, 8) {
            let t = terminal(rng, &prog);
            prog.funcs[0].body.extend(t);
        }
        let limit = if rng.chance(1, 6) { Some(rng.logscale(6000)) } else { None };
        if let (Some(l), true) = (limit, rng.chance(1, 2)) {
            // a host call that goes over the limit before something else that
            // would end the run
            let f = rng.usize(prog.funcs.len());
            let at = rng.usize(prog.funcs[f].body.len() + 1);
            let mut v = vec![Node::Host(crate::kernel::ADD_CYCLES, vec![Arg::I(l + 1)])];
            if rng.bool() {
                v.push(Node::W(vec![*rng.pick(&[0u32, 0xffff_ffff, 0x73, 0x0010_0073])]));
            }
            prog.funcs[f].body.splice(at..at, v);
        }
        let inj = |rng: &mut Rng| *rng.pick(&[Inj::Interrupt, Inj::Yield, Inj::Fail, Inj::Stop]);
        let kind = *rng.pick(kinds(prog.rv32));
        let handlers = if rng.chance(1, 20) { 0 } else { rng.range(1, 5) as u32 };
        let calls = (0..rng.below(6)).map(|_| (rng.logscale(60), inj(rng))).collect();
        let breaks = (0..rng.below(3)).map(|_| (rng.below(8), inj(rng))).collect();
        Case {
            prog,
            kind,
            persistent: rng.bool(),
            slice: match rng.below(6) {
                0 => Slice::Steps,
                1 => Slice::StepsThenRun(rng.below(60), rng.bool()),
                _ => Slice::Run,
            },
            cost: random_cost(rng),
            handlers,
            router: if rng.chance(3, 4) || handlers != 1 { Some(rng.next()) } else { None },
            debugger: rng.chance(4, 5),
            calls,
            breaks,
            limit,
            cold: if rng.chance(1, 3) { rng.next() } else { 0 },
            reload: rng.chance(1, 8),
            mem_every: *rng.pick(&[0, 0, 0, 1, 5]),
        }
    }

    fn run(c: &Case, st: &mut Stats) -> Result<(), Violation> {
        if c.kind.trace() && c.prog.isa & ckb_vm::ISA_MOP != 0 && c.prog.version == 0 {
            return Ok(());
        }
        let g = Guest::new(&c.prog);
        let who = c.kind.name();
        let (mut m, mut s) = (make(c, Kind::Model), make(c, c.kind));
        let mut loads = 0u32;
        let mut load = |m: &mut S, s: &mut S| -> Result<bool, Violation> {
            let (a, b) = (m.e.load(&g.built.elf, &g.args), s.e.load(&g.built.elf, &g.args));
            if a.is_ok() != b.is_ok() {
                return viol("load", format!("{}: loading gives {:?}, expected {:?}", who, b, a));
            }
            loads += 1;
            let k = s.k.lock().unwrap();
            for h in 0..c.handlers as usize {
                let n = k.inits.get(h).copied().unwrap_or(0);
                if n != loads {
                    return viol("init", format!("{}: handler {} was initialised {} times for {} loads", who, h, n, loads));
                }
            }
            let n = k.fired.get("debugger_init").copied().unwrap_or(0);
            if n != if c.debugger { loads as u64 } else { 0 } {
                return viol("init", format!("{}: the debugger was initialised {} times for {} loads", who, n, loads));
            }
            Ok(a.is_ok())
        };
        if !load(&mut m, &mut s)? {
            return Ok(());
        }
        let mut trace: Vec<String> = vec![];
        let mut sig = 0u64;
        let mut stops = 0u64;
        let mut fin = None;
        for n in 0..400u64 {
            let rm = go(&mut m, &Slice::Run, &mut Stats::default());
            if m.e.disputed().is_some() || matches!(rm, Err(Error::Unexpected(_))) {
                return Ok(());
            }
            let rs = go(&mut s, &c.slice, st);
            let (cm, cs) = (cls(&rm), cls(&rs));
            trace.push(format!("stop {}: {:?} at pc {:#x} after {} deliveries", n, cs, s.e.core().pc(), s.k.lock().unwrap().deliveries.len()));
            let fail = |kind: &str, msg: String| Err(Violation { kind: kind.into(), msg: format!("{}: stop {}: {}", who, n, msg), trace: trace.clone() });
            let block = c.kind.asm() && c.slice != Slice::Steps && rm.is_err() && matches!(cs, Err(EC::CyclesExceeded) | Err(EC::CyclesOverflow));
            {
                let (km, ks) = (m.k.lock().unwrap(), s.k.lock().unwrap());
                let l = km.deliveries.len().max(ks.deliveries.len());
                for i in 0..l {
                    let (a, b) = (km.deliveries.get(i), ks.deliveries.get(i));
                    if a != b && !(block && b.is_none()) {
                        return fail("delivery", format!("delivery {}: {:x?}, expected {:x?}", i, b, a));
                    }
                }
                if let Some((seed, n)) = ks.router {
                    if let Some(d) = lawful(seed, n, &ks.deliveries) {
                        return fail("order", d);
                    }
                }
                if let Some(d) = diff_events(&km.events, &ks.events) {
                    if !(block && ks.events.len() < km.events.len()) {
                        return fail("history", d);
                    }
                }
            }
            if cm != cs && !block {
                return fail("result", format!("{:?}, expected {:?}", cs, cm));
            }
            sig = mix(sig ^ crate::rng::hash_str(&format!("{:?}", cm)));
            let ended = |k: &K| std::mem::take(&mut k.lock().unwrap().stopped) > 0;
            let (em, es) = (ended(&m.k), ended(&s.k));
            match cm {
                Ok(_) | Err(EC::External) | Err(EC::Yield) | Err(EC::InvalidEcall) if cm.is_err() || em && es => {
                    stops += 1;
                    if let Err(e) = cm {
                        st.fault(&format!("stopped by {:?}", e), 1);
                    }
                    let (a, b) = (regs_of(m.e.core()), regs_of(s.e.core()));
                    if let Some(r) = (0..32).find(|r| a[*r] != b[*r]) {
                        return fail("state", format!("x{} is {:#x}, expected {:#x}", r, b[r], a[r]));
                    }
                    let (a, b) = (m.e.core(), s.e.core());
                    if a.pc() != b.pc() {
                        return fail("state", format!("pc is {:#x} after {:?}, expected {:#x}", b.pc(), cm, a.pc()));
                    }
                    if a.cyc() != b.cyc() {
                        return fail("state", format!("{} cycles after {:?}, expected {}", b.cyc(), cm, a.cyc()));
                    }
                    if (c.cold >> (n % 64)) & 1 == 1 {
                        s.e.cold();
                    }
                }
                _ => {
                    fin = Some((rm, rs));
                    break;
                }
            }
        }
        let (rm, rs) = match fin {
            Some(x) => x,
            None => return Ok(()),
        };
        let got = outcome(s.e.as_mut(), rs, &s.k)?;
        let want = outcome(m.e.as_mut(), rm, &m.k)?;
        st.kernel(&s.k);
        st.units += want.st.cycles.min(1 << 20);
        st.see(got.sig() ^ sig);
        *st.engines.entry(who.clone()).or_default() += 1;
        let declined = s.k.lock().unwrap().deliveries.iter().filter(|d| d.verdict == DECLINE).count() as u64;
        st.probe_n("declined deliveries", declined);
        st.probe_n("deliveries", s.k.lock().unwrap().deliveries.len() as u64);
        if stops + declined > 0 {
            st.sig(mix(sig ^ want.sig()));
        }
        if matches!(got.res, Err(EC::CyclesExceeded) | Err(EC::CyclesOverflow)) {
            return Ok(());
        }
        let ok = want.res.is_ok();
        if let Some(d) = want.st.diff(&got.st, ok, ok || !c.kind.asm(), Dirty::AtLeast) {
            return Err(Violation { kind: "state".into(), msg: format!("{}: at the end: {}", who, d), trace });
        }
        if c.reload {
            for x in [&mut m, &mut s] {
                if let Err(e) = x.e.core().do_reset(u64::MAX) {
                    return viol("reset", format!("{}: {:?}", who, e));
                }
            }
            load(&mut m, &mut s)?;
        }
        Ok(())
    }

    fn atoms(c: &Case) -> usize {
        c.calls.len() + c.breaks.len() + c.prog.atoms()
    }
    fn without(c: &Case, lo: usize, hi: usize) -> Case {
        let (n, p) = (c.calls.len(), c.breaks.len());
        let mut d = c.clone();
        d.calls = drop_range(&c.calls, lo, hi);
        d.breaks = drop_range(&c.breaks, lo.saturating_sub(n), hi.saturating_sub(n));
        if hi > n + p {
            d.prog = c.prog.without(lo.saturating_sub(n + p), hi - n - p);
        }
        d
    }
    fn simpler(c: &Case) -> Vec<Case> {
        let mut v: Vec<Case> = c.prog.simpler().into_iter().map(|p| Case { prog: p, ..c.clone() }).collect();
        if c.router.is_some() && c.handlers == 1 {
            v.push(Case { router: None, ..c.clone() });
        }
        if c.handlers > 1 {
            v.push(Case { handlers: c.handlers - 1, ..c.clone() });
        }
        if c.slice != Slice::Run {
            v.push(Case { slice: Slice::Run, ..c.clone() });
        }
        if c.persistent {
            v.push(Case { persistent: false, ..c.clone() });
        }
        if c.cost != Cost::One {
            v.push(Case { cost: Cost::One, ..c.clone() });
        }
        if c.limit.is_some() {
            v.push(Case { limit: None, ..c.clone() });
        }
        if c.reload {
            v.push(Case { reload: false, ..c.clone() });
        }
        if c.mem_every != 0 {
            v.push(Case { mem_every: 0, ..c.clone() });
        }
        v
    }
}
