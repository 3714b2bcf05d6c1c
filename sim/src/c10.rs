//! C10: resetting a machine and loading another program leaves no trace of
//! the old one.

use crate::c01::{drop_range, drive, terminal, Slice};
use crate::core::{regs_of, Blobs, Ctx2, Dirty, Snap2, EC};
use crate::engine::{build, kinds, Cost, Engine, Kind};
use crate::kernel::{self as kk, diff_events, kernel, Image, Inj, K};
use crate::prog::{generate, Arg, Gen, HostGen, Node, Prog};
use crate::rng::{mix, Rng};
use crate::scn::*;
use ckb_vm::{Bytes, Error};
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Round {
    pub image: usize,
    /// how the program gets into memory
    #[serde(default)]
    pub how: How,
    /// cycle limit for this round
    pub limit: Option<u64>,
    pub pauses: Vec<u64>,
    pub fails: Vec<u64>,
    /// give up at the first suspension
    pub abandon: bool,
    /// the host does not reset between loads: it resets here
    pub double_reset: bool,
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Default)]
pub enum How {
    #[default]
    Elf,
    /// the host writes the pages, flags and registers itself
    Copy,
    /// from a snapshot taken after this many steps of another machine
    Snap1(u64),
    Snap2(u64),
}

/// An image that is refused.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Bad {
    Cut(u16),
    Magic,
    /// all segments fine but the last: beyond memory
    Beyond,
    Wx,
    Empty,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub progs: Vec<Prog>,
    pub bad: Vec<Bad>,
    pub kind: Kind,
    pub persistent: bool,
    pub slice: Slice,
    pub cost: Cost,
    pub rounds: Vec<Round>,
    pub look: u64,
}

pub struct C10;

pub fn insert(rng: &mut Rng, ns: &mut Vec<Node>, n: Node) {
    if !ns.is_empty() && rng.chance(1, 3) {
        let i = rng.usize(ns.len());
        match &mut ns[i] {
            Node::Loop(_, b) => return insert(rng, b, n),
            Node::If { a, b, .. } => {
                let t = if rng.bool() { a } else { b };
                return insert(rng, t, n);
            }
            _ => (),
        }
    }
    let i = rng.usize(ns.len() + 1);
    ns.insert(i, n);
}

/// A slightly different program with the same shape: the hardest to tell
/// apart for anything that remembers code by address.
fn mutate(rng: &mut Rng, ns: &mut Vec<Node>, left: &mut u32) {
    for n in ns.iter_mut() {
        if *left == 0 {
            return;
        }
        match n {
            Node::W(v) if rng.chance(1, 3) => {
                for w in v.iter_mut() {
                    // addi: another immediate
                    if *w & 0x707f == 0x13 && *w != crate::isa::NOP && *w >> 7 & 31 != 2 {
                        *w ^= ((rng.next() as u32 & 0x7ff) | 1) << 20;
                        *left -= 1;
                        break;
                    }
                    // another destination among the pool
                    if matches!(*w & 0x7f, 0x33 | 0x13 | 0x3b | 0x1b) && *w != crate::isa::NOP {
                        let rd = *rng.pick(&crate::prog::POOL);
                        *w = *w & !0xf80 | rd << 7;
                        *left -= 1;
                        break;
                    }
                }
            }
            Node::Li(_, v) if rng.chance(1, 3) => {
                // keeps the number of words
                if (-2000..2000).contains(&(*v as i64)) {
                    *v = (rng.below(2000) as i64 - 1000) as u64;
                    *left -= 1;
                }
            }
            Node::Loop(k, b) => {
                if rng.chance(1, 3) {
                    *k = rng.range(1, 6) as u32;
                    *left -= 1;
                }
                mutate(rng, b, left)
            }
            Node::If { a, b, f3, .. } => {
                if rng.chance(1, 3) {
                    *f3 ^= 1;
                    *left = left.saturating_sub(1);
                }
                mutate(rng, a, left);
                mutate(rng, b, left)
            }
            Node::Nops(k) if *k > 0 && rng.chance(1, 4) => {
                *n = Node::W(vec![crate::isa::addi(5, 5, 1); *k as usize]);
                *left -= 1;
            }
            _ => (),
        }
    }
}

fn break_image(c: &Case, b: &Bad) -> Bytes {
    let e = c.progs[0].build().elf.to_vec();
    let rv32 = c.progs[0].rv32;
    let text = c.progs[0].text;
    let code = [0x13u8, 0, 0, 0];
    match b {
        Bad::Cut(n) => Bytes::from(e[..(*n as usize % 50).min(e.len())].to_vec()),
        Bad::Magic => {
            let mut e = e;
            e[1] ^= 0x20;
            Bytes::from(e)
        }
        Bad::Beyond => Bytes::from(crate::prog::make_elf(
            rv32,
            text,
            &[(5, text, 4, &code), (6, text + 0x4000, 0x100, &[1; 64]), (6, c.progs[0].mem - 4096, 8192, &[7; 8])],
        )),
        Bad::Wx => Bytes::from(crate::prog::make_elf(rv32, text, &[(5, text, 4, &code), (7, text + 0x4000, 0x100, &[1; 64])])),
        Bad::Empty => Bytes::new(),
    }
}

fn images(c: &Case) -> Vec<Image> {
    let mut v: Vec<Image> = c
        .progs
        .iter()
        .map(|p| Image { elf: p.build().elf, args: p.arg_bytes() })
        .collect();
    for b in &c.bad {
        v.push(Image { elf: break_image(c, b), args: vec![] });
    }
    v
}

struct S {
    e: Box<dyn Engine>,
    k: K,
}
fn fresh(c: &Case, kind: Kind, im: &[Image]) -> S {
    let mut ec = cfg(&c.progs[0], kind, c.cost);
    ec.persistent = c.persistent;
    ec.step_limit = 150_000;
    let k = kernel();
    {
        let mut k = k.lock().unwrap();
        k.images = im.to_vec();
        k.exec_limit = Some(12);
        k.exec_look = Some(c.look);
    }
    let e = build(&ec, &k, None);
    S { e, k }
}
fn arm(s: &S, r: &Round) {
    let mut k = s.k.lock().unwrap();
    k.events.clear();
    k.calls = 0;
    k.breaks = 0;
    k.exec_count = 0;
    k.inject.clear();
    for p in &r.pauses {
        k.inject.insert(*p, Inj::Interrupt);
    }
    for p in &r.fails {
        k.inject.insert(*p, Inj::Fail);
    }
}

/// run until something other than a suspension; Err(None): abandoned
fn go(s: &mut S, r: &Round, sl: &Slice, st: &mut Stats) -> Result<Result<i8, Error>, ()> {
    for _ in 0..1000 {
        let x = drive(s.e.as_mut(), sl, 400_000);
        st.runs += 1;
        match x {
            Err(Error::Pause) | Err(Error::Yield) => {
                if r.abandon {
                    return Err(());
                }
            }
            x => return Ok(x),
        }
    }
    Ok(Err(Error::Unexpected("endless suspensions".into())))
}

enum Templ {
    Elf,
    Copy { pages: Vec<(u64, Vec<u8>)>, flags: Vec<u8>, regs: Vec<u64>, pc: u64 },
    Snap1(ckb_vm::snapshot::Snapshot),
    Snap2(Snap2, Bytes),
}

/// None: this image cannot be brought in that way
fn template(c: &Case, im: &[Image], r: &Round, img: &Image) -> Option<Templ> {
    if r.how == How::Elf {
        return Some(Templ::Elf);
    }
    let kind = if c.progs[0].rv32 { Kind::InterpSparse } else { Kind::InterpFlat };
    let make = |steps: u64| {
        let mut s = fresh(c, kind, im);
        s.e.load(&img.elf, &img.args).ok()?;
        s.e.set_running(true);
        for _ in 0..steps {
            if s.e.step().is_err() || !s.e.running() || s.k.lock().unwrap().exec_count > 0 {
                return None;
            }
        }
        Some(s)
    };
    match r.how {
        How::Elf => None,
        How::Copy => {
            let mut s = make(0)?;
            let m = s.e.core();
            let n = m.size() / 4096;
            let mut pages = vec![];
            let mut flags = vec![];
            for p in 0..n {
                let b = m.load_bytes(p * 4096, 4096).ok()?;
                if b.iter().any(|x| *x != 0) {
                    pages.push((p * 4096, b.to_vec()));
                }
                flags.push(m.flag(p).ok()?);
            }
            Some(Templ::Copy { pages, flags, regs: regs_of(m), pc: m.pc() })
        }
        How::Snap1(k) => {
            let mut s = make(k).or_else(|| make(0))?;
            Some(Templ::Snap1(s.e.core().snap1().ok()?))
        }
        How::Snap2(k) => {
            let mut s = make(k).or_else(|| make(0))?;
            let m = s.e.core();
            let mut ctx = Ctx2::new(Blobs::new(vec![img.elf.clone()]));
            if k == 0 {
                // only then is what the image says still what memory holds
                let md = m.parse(&img.elf).ok()?;
                m.mark2(&mut ctx, &md, 0, 0).ok()?;
            }
            let s2 = m.snap2(&ctx).ok()?;
            Some(Templ::Snap2(s2, img.elf.clone()))
        }
    }
}

fn bring(e: &mut dyn Engine, t: &Templ, img: &Image) -> Result<(), Error> {
    match t {
        Templ::Elf => e.load(&img.elf, &img.args).map(|_| ()),
        Templ::Copy { pages, flags, regs, pc } => {
            let m = e.core();
            for (a, b) in pages {
                m.store_bytes(*a, b)?;
            }
            for (p, f) in flags.iter().enumerate() {
                if f & 3 != 0 {
                    m.set_flag(p as u64, f & 3)?;
                }
            }
            for i in 1..32 {
                m.set_reg(i, regs[i]);
            }
            m.set_pc(*pc);
            Ok(())
        }
        Templ::Snap1(s) => e.core().resume1(s),
        Templ::Snap2(s, elf) => {
            let mut ctx = Ctx2::new(Blobs::new(vec![elf.clone()]));
            e.core().resume2(&mut ctx, s)
        }
    }
}

impl Prop for C10 {
    type Case = Case;
    const ID: &'static str = "C10";
    const RULE: &'static str = "a case is a family of programs sharing addresses (including variants of each other differing in single instructions), refused images, and rounds of loading and running them on one machine, with exec-style host calls in mid-program, rounds cut short by pauses, limits, failures and faults, and resets in between; each round is compared with a fresh reference machine; non-trivial if a program was replaced at least once and the history was not seen before";
    const REAL: &'static [&'static str] = &["every engine and decoder", "reset and its signalling", "program loading", "memory"];
    const STUB: &'static [&'static str] = &["host-call handlers", "tiny trace decoder (extra engine)"];

    fn gen(rng: &mut Rng, _t: Tier) -> Case {
        let mut g = Gen::random(rng);
        g.budget = 900;
        g.body = rng.range(3, 14) as usize;
        g.host.push((2, HostGen::Yield));
        g.host.push((1, HostGen::SetDirty));
        // a run ended by the host has no exit code of its own, which matters to
        // whoever calls run
        let stops = rng.chance(1, 3);
        if stops {
            g.host.push((1, HostGen::Stop));
        }
        let mut progs = vec![generate(rng, &g)];
        let n = rng.range(2, 4) as usize;
        while progs.len() < n {
            if rng.chance(2, 3) {
                let mut p = rng.pick(&progs).clone();
                let mut left = rng.range(1, 4) as u32;
                for f in p.funcs.iter_mut() {
                    mutate(rng, &mut f.body, &mut left);
                }
                if rng.chance(1, 4) {
                    p.regs = (0..p.regs.len()).map(|_| rng.edge64()).collect();
                }
                if rng.chance(1, 4) {
                    p.data.pop();
                }
                progs.push(p);
            } else {
                g.funcs = rng.range(1, 4) as usize;
                progs.push(generate(rng, &g));
            }
        }
        let bad: Vec<Bad> = (0..rng.below(3))
            .map(|_| match rng.below(6) {
                0 => Bad::Cut(rng.next() as u16),
                1 => Bad::Magic,
                2 | 3 => Bad::Beyond,
                4 => Bad::Wx,
                _ => Bad::Empty,
            })
            .collect();
        let total = (n + bad.len()) as u64;
        for i in 0..n {
            if rng.chance(2, 3) {
                let a = rng.below(total);
                let extra = rng.below(2);
                let b = rng.below(n as u64 + extra);
                let f = rng.usize(progs[i].funcs.len());
                let h = Node::Host(kk::EXEC, vec![Arg::I(a), Arg::I(b)]);
                let mut body = std::mem::take(&mut progs[i].funcs[f].body);
                insert(rng, &mut body, h);
                progs[i].funcs[f].body = body;
            } else if rng.chance(1, 4) {
                let t = terminal(rng, &progs[i]);
                progs[i].funcs[0].body.extend(t);
            }
        }
        if g.atomics && rng.chance(1, 3) {
            // one program leaves a reservation behind, another may find it
            let f3 = if g.rv32 { 2 } else { rng.range(2, 3) as u32 };
            let (base, off) = (rng.usize(3), -(8 * rng.range(1, 40) as i32));
            let (i, j) = (rng.usize(n), rng.usize(n));
            let lr = Node::Amo { f3, f5: 2, rd: 5, rs2: 0, base, off };
            let sc = Node::Amo { f3, f5: 3, rd: 6, rs2: 7, base, off };
            let mut body = std::mem::take(&mut progs[i].funcs[0].body);
            if rng.bool() {
                body.push(lr);
            } else {
                insert(rng, &mut body, lr);
            }
            progs[i].funcs[0].body = body;
            progs[j].funcs[0].body.insert(0, sc);
        }
        let k = rng.range(1, 5);
        let rounds = (0..k)
            .map(|_| Round {
                how: match rng.below(12) {
                    0 => How::Copy,
                    1 => How::Snap1(*rng.pick(&[0, 1, 30, 200])),
                    2 => How::Snap2(*rng.pick(&[0, 0, 1, 30, 200])),
                    _ => How::Elf,
                },
                image: if rng.chance(1, 12) { rng.usize(total as usize) } else { rng.usize(n) },
                limit: if rng.chance(1, 5) { Some(rng.logscale(3000)) } else { None },
                pauses: if rng.chance(1, 3) { (0..rng.range(1, 3)).map(|_| rng.below(8)).collect() } else { vec![] },
                fails: if rng.chance(1, 6) { vec![rng.below(8)] } else { vec![] },
                abandon: rng.chance(1, 2),
                double_reset: rng.chance(1, 8),
            })
            .collect();
        let slice = match rng.below(8) {
            0 => Slice::Steps,
            1 => Slice::StepsThenRun(rng.below(60), rng.bool()),
            _ => Slice::Run,
        };
        let kind = *rng.pick(kinds(progs[0].rv32));
        // stepping a trace machine consumes the reset signal its traces need
        let slice = if stops || kind.trace() && slice != Slice::Steps { Slice::Run } else { slice };
        Case {
            kind,
            progs,
            bad,
            persistent: rng.chance(2, 3),
            slice,
            cost: random_cost(rng),
            rounds,
            look: rng.next(),
        }
    }

    fn run(c: &Case, st: &mut Stats) -> Result<(), Violation> {
        if c.progs.is_empty() || c.kind.trace() && c.progs[0].isa & ckb_vm::ISA_MOP != 0 && c.progs[0].version == 0 {
            return Ok(());
        }
        let im = images(c);
        let who = c.kind.name();
        let mut s = fresh(c, c.kind, &im);
        let mut trace: Vec<String> = vec![];
        let mut sig = 0u64;
        let mut replaced = 0u64;
        for (n, r) in c.rounds.iter().enumerate() {
            let img = match im.get(r.image) {
                Some(x) => x,
                None => continue,
            };
            let max = r.limit.unwrap_or(u64::MAX);
            let tm = match template(c, &im, r, img) {
                Some(t) => t,
                None => continue,
            };
            match r.how {
                How::Elf => (),
                How::Copy => st.fault("memory filled by the host after a reset", 1),
                _ => st.fault("snapshot resumed after a reset", 1),
            }
            let fail = |kind: &str, msg: String, trace: &Vec<String>| {
                Err(Violation { kind: kind.into(), msg: format!("{}: round {}: {}", who, n, msg), trace: trace.clone() })
            };
            // the machine under test, used before
            if n > 0 {
                for _ in 0..1 + r.double_reset as u32 {
                    if let Err(e) = s.e.core().do_reset(max) {
                        return fail("reset", format!("reset fails: {:?}", e), &trace);
                    }
                }
                st.fault("reset between runs", 1);
            } else {
                s.e.set_max(max);
            }
            arm(&s, r);
            let ls = bring(s.e.as_mut(), &tm, img);
            // a fresh reference machine
            let mut m = fresh(c, Kind::Model, &im);
            m.e.core().set_max_cyc(max);
            arm(&m, r);
            let lm = bring(m.e.as_mut(), &tm, img);
            if r.how != How::Elf {
                for e in [&mut s.e, &mut m.e] {
                    e.core().set_max_cyc(max);
                }
            }
            if lm.is_ok() != ls.is_ok() {
                return fail("load", format!("loading image {} gives {:?}, a fresh machine {:?}", r.image, ls, lm), &trace);
            }
            if lm.is_err() {
                st.fault("refused image", 1);
                trace.push(format!("round {}: image {} refused", n, r.image));
                continue;
            }
            if n > 0 {
                replaced += 1;
            }
            let rm = go(&mut m, r, &Slice::Run, &mut Stats::default());
            if m.e.disputed().is_some() {
                return Ok(());
            }
            if matches!(rm, Ok(Err(Error::Unexpected(_)))) {
                return Ok(());
            }
            let rs = go(&mut s, r, &c.slice, st);
            let execs = m.k.lock().unwrap().exec_count;
            replaced += execs;
            st.fault("program replaced by itself", execs);
            trace.push(format!("round {}: image {}: {:?}, {} host calls", n, r.image, rs, s.k.lock().unwrap().calls));
            st.units += m.e.core().cyc().min(1 << 20);
            let (rm, rs) = match (rm, rs) {
                (Ok(a), Ok(b)) => (a, b),
                (Err(()), Err(())) => {
                    st.fault("abandoned while suspended", 1);
                    continue;
                }
                // a request is honoured at the next poll, which comes at
                // different places
                _ => {
                    st.probe("abandoned on one side");
                    continue;
                }
            };
            let got = outcome(s.e.as_mut(), rs, &s.k)?;
            let want = outcome(m.e.as_mut(), rm, &m.k)?;
            st.kernel(&s.k);
            s.k.lock().unwrap().fired.clear();
            sig = mix(sig ^ want.sig());
            st.see(got.sig());
            // a whole block is paid for at its entry
            let block = c.kind.asm() && c.slice != Slice::Steps && want.res.is_err() && matches!(got.res, Err(EC::CyclesExceeded) | Err(EC::CyclesOverflow));
            if want.res != got.res && !block {
                return fail("result", format!("{:?}, on a fresh machine {:?}", got.res, want.res), &trace);
            }
            if let Some(d) = diff_events(&want.events, &got.events) {
                if !(block && got.events.len() < want.events.len() && want.events[..got.events.len()] == got.events[..]) {
                    return fail("history", d, &trace);
                }
            }
            if matches!(got.res, Err(EC::CyclesExceeded) | Err(EC::CyclesOverflow)) {
                st.fault("abandoned at a cycle limit", 1);
                continue;
            }
            if want.res.is_err() {
                st.fault("abandoned after an error", 1);
            }
            let ok = want.res.is_ok();
            let exact = ok || !c.kind.asm();
            if let Some(d) = want.st.diff(&got.st, ok, exact, Dirty::AtLeast) {
                return fail("state", d, &trace);
            }
        }
        *st.engines.entry(who.clone()).or_default() += 1;
        if replaced > 0 {
            st.sig(sig);
            st.probe_n("programs replaced", replaced);
        }
        Ok(())
    }

    fn atoms(c: &Case) -> usize {
        c.rounds.len() + c.progs.iter().map(|p| p.atoms()).sum::<usize>()
    }
    fn without(c: &Case, lo: usize, hi: usize) -> Case {
        let mut d = c.clone();
        let n = c.rounds.len();
        d.rounds = drop_range(&c.rounds, lo, hi);
        let mut at = n;
        for p in d.progs.iter_mut() {
            let k = p.atoms();
            if hi > at && lo < at + k {
                *p = p.without(lo.saturating_sub(at), (hi - at).min(k));
            }
            at += k;
        }
        d
    }
    fn simpler(c: &Case) -> Vec<Case> {
        let mut v = vec![];
        for i in 0..c.progs.len() {
            for p in c.progs[i].simpler() {
                let mut d = c.clone();
                d.progs[i] = p;
                v.push(d);
            }
        }
        for i in 0..c.rounds.len() {
            let r = &c.rounds[i];
            let plain = Round { image: r.image, how: How::Elf, limit: None, pauses: vec![], fails: vec![], abandon: false, double_reset: false };
            if *r != plain {
                let mut d = c.clone();
                d.rounds[i] = plain;
                v.push(d);
            }
        }
        if c.slice != Slice::Run {
            v.push(Case { slice: Slice::Run, ..c.clone() });
        }
        if c.persistent {
            v.push(Case { persistent: false, ..c.clone() });
        }
        if c.cost != Cost::One {
            v.push(Case { cost: Cost::One, ..c.clone() });
        }
        v
    }
}
