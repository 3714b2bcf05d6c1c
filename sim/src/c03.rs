//! C03: a pause request is honoured promptly, once, and is never lost or
//! invented.

use crate::c01::drop_range;
use crate::c02::{frac, rig};
use crate::core::{Dirty, EC};
use crate::engine::{build, kinds, Cost, Hook, Kind};
use crate::kernel::{diff_events, kernel, Inj};
use crate::prog::{generate, Gen, HostGen, Node, Prog};
use crate::rng::Rng;
use crate::scn::*;
use crate::trap;
use ckb_vm::machine::Pause;
use ckb_vm::Error;
use serde::{Deserialize, Serialize};


/// The instant at which the one request of a latency case arrives.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum When {
    /// during the n-th guest access to the mailbox (assembly machine)
    Mail(u16),
    /// while the n-th instruction is priced
    Price(u16),
    Call(u16),
    Poll(u16),
    AfterPoll(u16),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Op {
    New(u8),
    Set(u8, u8),
    Get(u8, u8),
    Dup(u8, u8),
    Drop(u8),
    Interrupt(u8),
    Cancel(u8),
    /// run machine m; a request arrives in its n-th host call from now
    Run(u8, Option<u8>),
    /// the same, the request arriving through handle h
    RunBy(u8, u8, u8),
    /// advance machine m by single steps
    Step(u8, u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Case {
    Latency { prog: Prog, kind: Kind, persistent: bool, when: When },
    History { progs: Vec<(Prog, Kind)>, ops: Vec<Op> },
}

pub struct C03;
pub const MAILBOX: u64 = 0x78ff8;

fn sprinkle(rng: &mut Rng, ns: &mut Vec<Node>, depth: u32) {
    for n in ns.iter_mut() {
        match n {
            Node::Loop(_, b) => sprinkle(rng, b, depth + 1),
            Node::If { a, b, .. } => {
                sprinkle(rng, a, depth + 1);
                sprinkle(rng, b, depth + 1);
            }
            _ => (),
        }
    }
    for _ in 0..rng.range(1, 3) {
        let at = rng.usize(ns.len() + 1);
        let st = rng.bool();
        ns.insert(at, Node::Abs { st, f3: 2, r: 5, addr: MAILBOX });
    }
}

fn small(rng: &mut Rng, rv32: bool) -> Prog {
    let mut g = Gen::random(rng);
    g.rv32 = rv32;
    if rv32 {
        g.isa &= !ckb_vm::ISA_B;
    }
    g.mem = 1 << 20;
    g.budget = 800;
    g.host_rate = 14;
    g.host = vec![
        (4, HostGen::Log),
        (1, HostGen::StoreBytes),
        (1, HostGen::Digest),
        (1, HostGen::LoadW),
        (1, HostGen::StoreW),
        (1, HostGen::SetRegs),
        (1, HostGen::Ebreak),
    ];
    generate(rng, &g)
}

fn latency(prog: &Prog, kind: Kind, persistent: bool, when: &When, st: &mut Stats) -> Result<(), Violation> {
    let g = Guest::new(prog);
    // what the reference says about instants
    let mc = cfg(prog, Kind::Model, Cost::One);
    let k = kernel();
    let mut me = build(&mc, &k, None);
    if me.load(&g.built.elf, &g.args).is_err() {
        return Ok(());
    }
    me.log((MAILBOX, MAILBOX + 8));
    let r = me.run();
    let mwant = outcome(me.as_mut(), r, &k)?;
    if mwant.res == Err(EC::Unexpected) {
        return Ok(());
    }
    let (transfers, watched) = me.logs();
    let calls: Vec<u64> = mwant.events.iter().filter(|e| e.nr != 1).map(|e| e.cycles).collect();

    let mut ec = cfg(prog, kind, Cost::One);
    ec.persistent = persistent;
    // uninterrupted run on the same engine
    let hooked = matches!(when, When::Price(_));
    let mut r = rig(&ec, hooked);
    r.e.load(&g.built.elf, &g.args).ok();
    let (res, seen) = r.run(&trap::Plan::default());
    let want = outcome(r.e.as_mut(), res, &r.k)?;
    let priced = r.hook.lock().unwrap().priced;
    let polls = seen.polls;
    let trapped = r.trapped;
    r.done();
    let who = format!("{} asked to pause at {:?}", kind.name(), when);
    if want.res == Err(EC::Pause) {
        return viol("spurious", format!("{}: a run nobody asked to pause reports a pause", kind.name()));
    }

    let mut r = rig(&ec, hooked);
    r.e.load(&g.built.elf, &g.args).ok();
    let mut plan = trap::Plan::default();
    // cycles consumed when the request arrives, where the reference knows
    let mut at: Option<u64> = None;
    let mut poll = 0;
    match when {
        When::Mail(f) => {
            let p = match r.e.mem_ptr() {
                Some(p) if trapped && !watched.is_empty() => p,
                _ => {
                    r.done();
                    return Ok(());
                }
            };
            let n = frac(*f, watched.len() as u64);
            // memory is set up before the page is closed
            r.e.core().store(MAILBOX, 8, 0).ok();
            trap::set_mailbox(p + MAILBOX as usize, 8);
            plan.mail = n + 1;
            at = Some(watched[n as usize]);
        }
        When::Price(f) => {
            if priced == 0 {
                r.done();
                return Ok(());
            }
            let n = frac(*f, priced);
            r.hook.lock().unwrap().price_at.insert(n + 1);
            if !kind.asm() {
                at = Some(n + 1);
            }
        }
        When::Call(f) => {
            if calls.is_empty() {
                r.done();
                return Ok(());
            }
            let n = frac(*f, calls.len() as u64);
            r.k.lock().unwrap().inject.insert(n, Inj::Interrupt);
            at = Some(calls[n as usize]);
        }
        When::Poll(f) => {
            if polls == 0 {
                r.done();
                return Ok(());
            }
            poll = 1 + frac(*f, polls);
            plan.before = vec![poll];
        }
        When::AfterPoll(f) => {
            if polls == 0 {
                r.done();
                return Ok(());
            }
            poll = 1 + frac(*f, polls);
            plan.after = poll;
            poll += 1;
        }
    }
    let (res, seen) = r.run(&plan);
    trap::no_mailbox();
    let raised = seen.raised > 0
        || r.hook.lock().unwrap().fired > 0
        || r.k.lock().unwrap().fired.contains_key("pause_in_hostcall");
    let out = (|| {
        if !raised {
            if matches!(when, When::Mail(_)) && seen.mails != watched.len() as u64 {
                // the engine stopped early for another reason: C01's business
                return Ok(());
            }
            st.probe("request never arrived");
            return Ok(());
        }
        st.fault(
            match when {
                When::Mail(_) => "pause in the middle of a trace",
                When::Price(_) => "pause while pricing or building a trace",
                When::Call(_) => "pause inside a host call",
                _ => "pause at a poll of the flag",
            },
            1,
        );
        let stop = r.e.core().cyc();
        let pending = r.e.pause().has_interrupted();
        let due = at.and_then(|a| transfers.iter().find(|t| **t > a).copied());
        let mut res = res;
        if matches!(res, Err(Error::Pause)) {
            st.probe("stopped");
            if pending {
                return viol("not consumed", format!("{}: stopped, but the request is still pending", who));
            }
            if let (Some(a), Some(d)) = (at, due) {
                if stop > d {
                    return viol(
                        "late",
                        format!("{}: the request came at cycle {}, the next jump completed at {}, the stop came at {}", who, a, d, stop),
                    );
                }
            }
            if poll > 0 && seen.polls > poll + 1 {
                return viol("late", format!("{}: polled {} more times after the request", who, seen.polls - poll));
            }
            st.sig(crate::rng::mix(want.sig() ^ stop ^ crate::rng::hash_str(&who)));
            // nobody asks again: it runs to the end
            res = r.run(&trap::Plan::default()).0;
            if matches!(res, Err(Error::Pause)) {
                return viol("spurious", format!("{}: one request stopped it twice", who));
            }
        } else {
            st.probe("ended before the request was due");
            if !pending {
                return viol("lost", format!("{}: the run ended with {:?} and the request is gone", who, cls(&res)));
            }
            if let Some(d) = due {
                return viol("late", format!("{}: a jump completed at cycle {} after the request, but the run went on to its end", who, d));
            }
            if poll > 0 && poll <= polls && plan.after == 0 {
                return viol("late", format!("{}: the run went on to its end", who));
            }
            // the request stays pending for the next run of a machine that
            // shares the signal
            let k2 = kernel();
            let mut n = build(&ec, &k2, None);
            n.set_pause(r.e.pause());
            n.load(&g.built.elf, &g.args).ok();
            let again = n.run();
            if !matches!(again, Err(Error::Pause)) && !transfers.is_empty() {
                return viol("lost", format!("{}: the pending request does not stop the next run: {:?}", who, cls(&again)));
            }
            if let (Some(d), Err(Error::Pause)) = (transfers.first(), &again) {
                if n.core().cyc() > *d {
                    return viol("late", format!("{}: the pending request stops the next run only after {} cycles", who, n.core().cyc()));
                }
            }
            if r.e.pause().has_interrupted() == matches!(again, Err(Error::Pause)) {
                return viol("not consumed", format!("{}: next run {:?}, pending afterwards {}", who, cls(&again), r.e.pause().has_interrupted()));
            }
            st.probe("pending request met the next run");
        }
        let got = outcome(r.e.as_mut(), res, &r.k)?;
        st.see(got.sig());
        if let Some(d) = diff_events(&want.events, &got.events) {
            return viol("history", format!("{}: {}", who, d));
        }
        if want.res != got.res {
            return viol("result", format!("{}: result {:?}, expected {:?}", who, got.res, want.res));
        }
        let exact = want.res.is_ok();
        // the mailbox page was touched by the host beforehand
        if let Some(d) = want.st.diff(&got.st, exact, exact, Dirty::Ignore) {
            return viol("state", format!("{}: {}", who, d));
        }
        Ok(())
    })();
    st.kernel(&r.k);
    r.done();
    st.runs += 3;
    st.units += want.st.cycles;
    *st.engines.entry(kind.name()).or_default() += 1;
    out
}

fn history(progs: &[(Prog, Kind)], ops: &[Op], st: &mut Stats) -> Result<(), Violation> {
    struct M {
        e: Box<dyn crate::engine::Engine>,
        k: crate::kernel::K,
        sig: usize,
        done: bool,
        kind: Kind,
        transfers: Vec<u64>,
    }
    let mut pending: Vec<bool> = vec![];
    let mut ms: Vec<M> = vec![];
    for (p, kind) in progs {
        let g = Guest::new(p);
        let mk = kernel();
        let mut me = build(&cfg(p, Kind::Model, Cost::One), &mk, None);
        if me.load(&g.built.elf, &g.args).is_err() {
            return Ok(());
        }
        me.log((0, 0));
        if matches!(me.run(), Err(Error::Unexpected(_))) {
            return Ok(());
        }
        let k = kernel();
        let h: Option<Hook> = None;
        let mut e = build(&cfg(p, *kind, Cost::One), &k, h);
        if e.load(&g.built.elf, &g.args).is_err() {
            return Ok(());
        }
        pending.push(false);
        ms.push(M { e, k, sig: pending.len() - 1, done: false, kind: *kind, transfers: me.logs().0 });
    }
    let mut hs: Vec<Option<(Pause, usize)>> = vec![None, None, None, None];
    let nh = hs.len();
    let nm = ms.len();
    let mut trace: Vec<String> = vec![];
    let mut sig = 0u64;
    for op in ops {
        trace.push(format!("{:?}", op));
        let fail = |kind: &str, msg: String| -> Result<(), Violation> {
            Err(Violation { kind: kind.into(), msg, trace: trace.clone() })
        };
        match op {
            Op::New(h) => {
                pending.push(false);
                hs[*h as usize % nh] = Some((Pause::new(), pending.len() - 1));
            }
            Op::Drop(h) => hs[*h as usize % nh] = None,
            Op::Dup(a, b) => {
                let c = hs[*a as usize % nh].clone();
                hs[*b as usize % nh] = c;
            }
            Op::Set(m, h) => {
                if let Some((p, s)) = &hs[*h as usize % nh] {
                    let m = &mut ms[*m as usize % nm];
                    m.e.set_pause(p.clone());
                    m.k.lock().unwrap().pause = Some(p.clone());
                    m.sig = *s;
                }
            }
            Op::Get(m, h) => {
                let m = &ms[*m as usize % nm];
                hs[*h as usize % nh] = Some((m.e.pause(), m.sig));
            }
            Op::Interrupt(h) => {
                if let Some((p, s)) = &hs[*h as usize % nh] {
                    p.interrupt();
                    pending[*s] = true;
                    st.fault("pause while not running", 1);
                }
            }
            Op::Cancel(h) => {
                if let Some((p, s)) = &mut hs[*h as usize % nh] {
                    p.free();
                    pending[*s] = false;
                    st.fault("request withdrawn", 1);
                }
            }
            Op::Run(..) | Op::RunBy(..) => {
                let (mi, inj, by) = match op {
                    Op::Run(m, i) => (*m as usize % nm, *i, None),
                    Op::RunBy(m, i, h) => (*m as usize % nm, Some(*i), hs[*h as usize % nh].clone()),
                    _ => unreachable!(),
                };
                let m = &mut ms[mi];
                if m.done {
                    continue;
                }
                let mut target = m.sig;
                {
                    let mut k = m.k.lock().unwrap();
                    k.inject.clear();
                    k.fired.clear();
                    if let Some(i) = inj {
                        let at = k.calls + i as u64 % 6;
                        k.inject.insert(at, Inj::Interrupt);
                        k.pause = Some(m.e.pause());
                        if let Some((p, s)) = &by {
                            k.pause = Some(p.clone());
                            target = *s;
                        }
                    }
                }
                let c0 = m.e.core().cyc();
                let was = pending[m.sig];
                let e0 = m.k.lock().unwrap().events.len();
                let r = m.e.run();
                st.runs += 1;
                *st.engines.entry(m.kind.name()).or_default() += 1;
                // the call that carried the request, if it was made
                let carried = {
                    let k = m.k.lock().unwrap();
                    if k.fired.contains_key("pause_in_hostcall") {
                        let calls: Vec<u64> = k.events.iter().filter(|e| e.nr != 1).map(|e| e.cycles).collect();
                        let skip = k.events[..e0].iter().filter(|e| e.nr != 1).count();
                        calls.get(skip + inj.unwrap_or(0) as usize % 6).copied()
                    } else {
                        None
                    }
                };
                let paused = matches!(r, Err(Error::Pause));
                let stop = m.e.core().cyc();
                sig = crate::rng::mix(sig ^ stop ^ (mi as u64) << 60);
                let name = m.kind.name();
                if carried.is_some() {
                    st.fault("pause inside a host call", 1);
                    pending[target] = true;
                }
                // since when the machine could have known
                let since = if was {
                    Some(c0)
                } else if target == m.sig {
                    carried
                } else {
                    None
                };
                if paused && since.is_none() {
                    return fail("spurious", format!("machine {} ({}) reports a pause nobody asked for", mi, name));
                }
                if let Some(a) = since {
                    let due = m.transfers.iter().find(|t| **t > a);
                    match due {
                        Some(d) if !paused => {
                            return fail("lost", format!("machine {} ({}): asked to pause at cycle {}, it passed a jump at {} and ended with {:?}", mi, name, a, d, cls(&r)));
                        }
                        Some(d) if stop > *d => {
                            return fail("late", format!("machine {} ({}): asked to pause at cycle {}, the next jump completed at {}, the stop came at {}", mi, name, a, d, stop));
                        }
                        _ => (),
                    }
                }
                if paused {
                    pending[m.sig] = false;
                    st.probe("stopped");
                } else {
                    m.done = true;
                }
                m.k.lock().unwrap().pause = None;
            }
            // whether a step looks at the flag is the engine's choice; a stop
            // must have been asked for, and uses the request up
            Op::Step(m, n) => {
                let mi = *m as usize % nm;
                let m = &mut ms[mi];
                m.k.lock().unwrap().inject.clear();
                if m.done {
                    continue;
                }
                m.e.set_running(true);
                for _ in 0..*n {
                    let r = m.e.step();
                    st.runs += 1;
                    if matches!(r, Err(Error::Pause)) {
                        if !pending[m.sig] {
                            return fail("spurious", format!("a step of machine {} ({}) reports a pause nobody asked for", mi, m.kind.name()));
                        }
                        pending[m.sig] = false;
                        st.probe("step stopped");
                        if m.e.pause().has_interrupted() {
                            return fail("not consumed", format!("a step of machine {} ({}) stopped, but the request is still pending", mi, m.kind.name()));
                        }
                        continue;
                    }
                    if r.is_err() || !m.e.running() {
                        m.done = true;
                        break;
                    }
                }
            }
        }
        // every handle tells the same story
        for (i, h) in hs.iter().enumerate() {
            if let Some((p, s)) = h {
                if p.has_interrupted() != pending[*s] {
                    return fail("flag", format!("handle {} says pending={}, expected {}", i, p.has_interrupted(), pending[*s]));
                }
            }
        }
        for (i, m) in ms.iter().enumerate() {
            if m.e.pause().has_interrupted() != pending[m.sig] {
                return fail("flag", format!("machine {} says pending={}, expected {}", i, !pending[m.sig], pending[m.sig]));
            }
        }
    }
    st.sig(sig);
    st.see(sig);
    Ok(())
}

impl Prop for C03 {
    type Case = Case;
    const ID: &'static str = "C03";
    const RULE: &'static str = "a case is either one pause request arriving at a chosen instant of one run (in the middle of a trace through a trapped guest page, at or after a poll of the flag, while pricing, inside a host call), checked against the control transfers the reference model records, or a random history of requests, withdrawals, copies, runs and single steps over several machines and handles sharing signals, checked against a one-bit-per-signal model; non-trivial if a stop happened at a position not seen before";
    const REAL: &'static [&'static str] = &["Pause", "every engine's run loop and pause polls", "decoders"];
    const STUB: &'static [&'static str] = &["host-call handlers", "tiny trace decoder (extra engine)"];

    fn gen(rng: &mut Rng, _t: Tier) -> Case {
        if rng.chance(2, 3) {
            let rv32 = rng.chance(1, 16);
            let mut prog = small(rng, rv32);
            let kind = *rng.pick(&kinds(rv32));
            let f = rng.next() as u16;
            let when = if kind.asm() && rng.chance(1, 2) {
                for f in prog.funcs.iter_mut() {
                    sprinkle(rng, &mut f.body, 0);
                }
                When::Mail(f)
            } else {
                match rng.below(6) {
                    0 | 1 => When::Poll(f),
                    2 => When::AfterPoll(f),
                    3 | 4 => When::Price(f),
                    _ => When::Call(f),
                }
            };
            Case::Latency { prog, kind, persistent: rng.bool(), when }
        } else {
            let n = rng.range(1, 3);
            let progs = (0..n)
                .map(|_| {
                    let p = small(rng, false);
                    let k = *rng.pick(&kinds(false));
                    (p, k)
                })
                .collect();
            let n = rng.range(4, 30);
            let ops = (0..n)
                .map(|_| {
                    let (a, b) = (rng.below(4) as u8, rng.below(4) as u8);
                    match rng.below(20) {
                        0 => Op::New(a),
                        1 | 2 => Op::Set(a, b),
                        3..=5 => Op::Get(a, b),
                        6 => Op::Dup(a, b),
                        7 => Op::Drop(a),
                        8..=10 => Op::Interrupt(a),
                        11 => Op::Cancel(a),
                        12 => Op::RunBy(a, rng.below(6) as u8, b),
                        13 => Op::Step(a, rng.range(1, 60) as u8),
                        _ => Op::Run(a, if rng.chance(4, 5) { Some(rng.below(6) as u8) } else { None }),
                    }
                })
                .collect();
            Case::History { progs, ops }
        }
    }
    fn run(c: &Case, st: &mut Stats) -> Result<(), Violation> {
        match c {
            Case::Latency { prog, kind, persistent, when } => latency(prog, *kind, *persistent, when, st),
            Case::History { progs, ops } => history(progs, ops, st),
        }
    }
    fn atoms(c: &Case) -> usize {
        match c {
            Case::Latency { prog, .. } => prog.atoms(),
            Case::History { progs, ops } => ops.len() + progs.iter().map(|p| p.0.atoms()).sum::<usize>(),
        }
    }
    fn without(c: &Case, lo: usize, hi: usize) -> Case {
        let mut d = c.clone();
        match &mut d {
            Case::Latency { prog, .. } => *prog = prog.without(lo, hi),
            Case::History { progs, ops } => {
                let n = ops.len();
                *ops = drop_range(ops, lo, hi);
                let mut base = n;
                for p in progs.iter_mut() {
                    let k = p.0.atoms();
                    if hi > base && lo < base + k {
                        p.0 = p.0.without(lo.saturating_sub(base), hi.min(base + k) - base);
                    }
                    base += k;
                }
            }
        }
        d
    }
    fn simpler(c: &Case) -> Vec<Case> {
        match c {
            Case::Latency { prog, kind, persistent, when } => {
                let mut v: Vec<Case> = prog
                    .simpler()
                    .into_iter()
                    .map(|p| Case::Latency { prog: p, kind: *kind, persistent: *persistent, when: when.clone() })
                    .collect();
                if *persistent {
                    v.push(Case::Latency { prog: prog.clone(), kind: *kind, persistent: false, when: when.clone() });
                }
                v
            }
            Case::History { progs, ops } => {
                let mut v = vec![];
                for (i, p) in progs.iter().enumerate() {
                    for q in p.0.simpler() {
                        let mut ps = progs.clone();
                        ps[i].0 = q;
                        v.push(Case::History { progs: ps, ops: ops.clone() });
                    }
                }
                v
            }
        }
    }
}

