//! C13: guest memory starts as zero, whatever the host's allocator hands out.
//!
//! The allocator is the fault: every block it hands out uninitialised is full
//! of a poison byte. Histories are orders of first accesses over all frames.

use crate::access::{go, host, pages, Mood, Step, B, LIMIT, R};
use crate::alloc;
use crate::c01::drop_range;
use crate::core::{ec, regs_of, state, Dirty, EC};
use crate::engine::{build, kinds, Cfg, Cost, Engine, Kind};
use crate::kernel::{self as kk, diff_events, kernel, K};
use crate::prog::{generate, Arg, DataSeg, Func, Gen, Node, Place, Prog};
use crate::rng::{mix, Rng};
use crate::scn::*;
use ckb_vm::Error;
use serde::{Deserialize, Serialize};
use std::sync::atomic::Ordering::Relaxed;

/// A data segment with content made on the spot.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Seg {
    pub addr: u64,
    pub memsz: u64,
    pub file: u64,
    pub write: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub prog: Prog,
    pub segs: Vec<Seg>,
    pub kind: Kind,
    pub persistent: bool,
    pub poison: u8,
    /// blocks allocated and freed before the machine is created
    pub churn: Vec<u64>,
    /// randomised-memory mode, with its seed
    pub chaos: Option<u32>,
    pub steps: Vec<Step>,
}

pub struct C13;

const FRAME: u64 = 1 << 18;

fn addr(rng: &mut Rng, mem: u64, w: u64) -> u64 {
    let f = rng.below(mem / FRAME) * FRAME;
    let a = match rng.below(8) {
        0 => f + FRAME - rng.range(0, w + 1),
        1 => f,
        2 => f + FRAME - 4096 + rng.below(4096),
        3 => f + FRAME - 4096 - rng.below(16),
        4 => f + rng.below(64) * 4096,
        5 => f + rng.below(64) * 4096 + 4096 - rng.range(1, w + 1),
        _ => f + rng.below(FRAME),
    };
    if rng.chance(1, 40) {
        mem - rng.below(2 * w + 2)
    } else {
        a
    }
}
/// a size, biased to whole pages and whole frames, give or take
fn size(rng: &mut Rng) -> u64 {
    let pages = match rng.below(6) {
        0 => 63,
        1 => 64,
        2 => 62 + rng.below(70),
        _ => rng.below(70),
    };
    let n = pages * 4096;
    match rng.below(4) {
        0 => n + rng.below(4096),
        1 => n.saturating_sub(rng.below(16)),
        2 => n + rng.below(16),
        _ => n,
    }
}
fn at(rng: &mut Rng, mem: u64) -> u64 {
    let f = rng.range(2, (mem - mem / 4) / FRAME - 1) * FRAME;
    match rng.below(4) {
        0 | 1 => f,
        2 => f + rng.below(64) * 4096,
        _ => f + FRAME - 4096 * rng.range(1, 3),
    }
}

fn episode(b: &mut B, mem: u64, i: usize) -> Func {
    let mut body = vec![];
    for _ in 0..b.rng.range(1, 8) {
        match b.rng.below(8) {
            0 => {
                let n = b.rng.logscale(70 * 4096);
                let a = addr(b.rng, mem, 16);
                let (nr, args) = match b.rng.below(5) {
                    0 => (kk::STORE_BYTES, vec![Arg::I(a), Arg::I(n), Arg::I(b.rng.below(1000))]),
                    1 => (kk::FILL, vec![Arg::I(a), Arg::I(n), Arg::I(b.rng.below(256))]),
                    2 => (kk::LOADW, vec![Arg::I(a), Arg::I(1 << b.widths())]),
                    _ => (kk::DIGEST, vec![Arg::I(a), Arg::I(n)]),
                };
                body.push(Node::Host(nr, args));
            }
            _ => {
                let f3 = b.widths();
                let a = addr(b.rng, mem, 1 << f3);
                b.access_at(&mut body, a, f3);
                // keep every loaded value
                if b.rng.bool() {
                    let r = *b.rng.pick(&[5u32, 6, 7, 30]);
                    body.push(Node::W(vec![crate::isa::r_type(0x33, 4, 0, 18, 18, r)]));
                }
            }
        }
    }
    body.push(Node::Exit(i as u32));
    Func { place: Place::Seq, body, cret: false }
}

fn step(b: &mut B, mem: u64, eps: u64, rv32: bool) -> Step {
    let w = 1u64 << b.widths();
    let a = addr(b.rng, mem, w);
    match b.rng.below(24) {
        0..=6 => Step::Run(b.rng.range(1, eps) as usize),
        7 | 8 => Step::LoadW(a, w),
        9 => Step::StoreW(a, w, b.rng.next()),
        10 | 11 => Step::Read(a, b.rng.logscale(70 * 4096)),
        12 => Step::Store(a, b.rng.logscale(70 * 4096), b.rng.below(1000)),
        13 => Step::Fill(a, b.rng.logscale(70 * 4096), b.rng.next() as u8),
        14 => Step::SetFlag(a >> 12, 2),
        15 => Step::Fetch16(a & !1),
        16 => Step::Fetch32(a & !1),
        17 => Step::RunAt(a & !1),
        18..=20 => {
            let s = size(b.rng) & !4095;
            let src = match b.rng.below(3) {
                0 => 0,
                1 => s,
                _ => b.rng.logscale(s + 100),
            };
            let off = if b.rng.chance(1, 3) { b.rng.below(s.max(1)) } else { 0 };
            Step::Init(at(b.rng, mem), s, *b.rng.pick(&[0, 0, 2]), src, off)
        }
        21 => Step::Restore(*b.rng.pick(kinds(rv32))),
        22 => Step::Reset,
        _ => Step::Look,
    }
}

struct Poison;
impl Poison {
    fn on(v: u8) -> Poison {
        alloc::POISON.store(v as u64, Relaxed);
        Poison
    }
}
impl Drop for Poison {
    fn drop(&mut self) {
        alloc::POISON.store(0, Relaxed);
    }
}

struct M {
    e: Box<dyn Engine>,
    k: K,
    cf: Cfg,
    poison: u8,
}
impl M {
    fn new(c: &Case, kind: Kind, poison: u8) -> M {
        let mut cf = cfg(&c.prog, kind, Cost::One);
        cf.max_cycles = LIMIT;
        cf.persistent = c.persistent;
        if kind.asm() {
            cf.chaos = c.chaos;
        }
        let _p = Poison::on(poison);
        {
            let v: Vec<Vec<u8>> = c.churn.iter().map(|n| vec![poison; *n as usize]).collect();
            drop(v);
        }
        let k = kernel();
        M { e: build(&cf, &k, None), k, cf, poison }
    }
    fn act(&mut self, f: &mut dyn FnMut(&mut M) -> R) -> R {
        let _p = Poison::on(self.poison);
        f(self)
    }
}

fn conv(r: Result<i8, Error>) -> R {
    match r {
        Ok(x) => Ok(x as u8 as u64),
        Err(e) => Err(ec(&e)),
    }
}

fn apply(m: &mut M, c: &Case, g: &Guest, s: &Step, sp: u64) -> R {
    m.act(&mut |m: &mut M| match s {
        Step::Run(n) => conv(go(m.e.as_mut(), g.built.funcs[*n % g.built.funcs.len()] + if *n == 0 { 0 } else { 8 }, sp, false)),
        Step::RunAt(a) => conv(go(m.e.as_mut(), *a, sp, false)),
        Step::Reset => {
            m.e.core().do_reset(LIMIT).map_err(|e| ec(&e))?;
            m.e.load(&g.built.elf, &g.args).map_err(|e| ec(&e))
        }
        Step::Restore(k) => {
            let snap = m.e.core().snap1().map_err(|e| ec(&e))?;
            let prot: Vec<u8> = (0..c.prog.mem >> 12).map(|p| m.e.core().flag(p).unwrap_or(0)).collect();
            let mut cf = m.cf.clone();
            if cf.kind != Kind::Model {
                cf.kind = *k;
            }
            cf.chaos = if k.asm() { c.chaos } else { None };
            let mut e = build(&cf, &m.k, None);
            e.core().resume1(&snap).map_err(|e| ec(&e))?;
            for (p, f) in prot.iter().enumerate() {
                if f & 4 == 0 && f & 3 != 0 {
                    e.core().set_flag(p as u64, f & 3).map_err(|e| ec(&e))?;
                }
            }
            e.core().set_max_cyc(LIMIT);
            m.e = e;
            m.cf = cf;
            Ok(0)
        }
        Step::Look => {
            let s = state(m.e.core()).map_err(|e| ec(&e))?;
            Ok(s.pages.iter().fold(0, |h, p| mix(h ^ p)))
        }
        x => host(m.e.core(), x).unwrap_or(Ok(0)),
    })
}
impl Prop for C13 {
    type Case = Case;
    const ID: &'static str = "C13";
    const RULE: &'static str = "a case is an image with segments of awkward sizes, a poison byte for all memory the allocator recycles, and a script of guest and host first accesses of every width over all frames (with page initialisation, execution of untouched pages, resets and restores into new machines); every answer and in the end all of memory is compared with a reference whose memory starts as zero, or in randomised-memory mode with the same machine on a heap with other garbage; non-trivial if the allocator handed out poison and the (answers, contents) history was not seen before";
    const REAL: &'static [&'static str] = &["every engine and decoder", "memory initialisation", "program loading", "snapshot code"];
    const STUB: &'static [&'static str] = &["memory allocator (system allocator behind a poisoning seam)", "host-call handlers"];

    fn gen(rng: &mut Rng, _t: Tier) -> Case {
        let mut g = Gen::random(rng);
        g.funcs = 1;
        g.body = 1;
        g.placement = false;
        g.mem = *rng.pick(&[1 << 20, 1 << 20, 1 << 20, 2 << 20, 4 << 20]);
        let mut prog = generate(rng, &g);
        prog.funcs = vec![Func { place: Place::Seq, body: vec![], cret: false }];
        let mem = prog.mem;
        let n = rng.below(4);
        let mut segs: Vec<Seg> = vec![];
        for _ in 0..n {
            let memsz = size(rng).max(1);
            let file = match rng.below(4) {
                0 => 0,
                1 => rng.below(memsz),
                _ => memsz,
            };
            let pad = if rng.bool() { 0 } else { rng.below(4096) };
            let s = Seg { addr: at(rng, mem) + pad, memsz, file, write: rng.chance(2, 3) };
            if s.addr + s.memsz <= mem {
                segs.push(s);
            }
        }
        let p = pages(&prog);
        let isa = prog.sel();
        let mut b = B { rng, p, isa, mood: Mood::Dirt, old_high: false };
        let n = b.rng.range(1, 5);
        for i in 1..=n {
            let f = episode(&mut b, mem, i as usize);
            prog.funcs.push(f);
        }
        let k = b.rng.range(1, 16);
        let steps = (0..k).map(|_| step(&mut b, mem, n, prog.rv32)).collect();
        let kind = if rng.chance(3, 4) && !prog.rv32 { *rng.pick(&kinds(false)[4..]) } else { *rng.pick(kinds(prog.rv32)) };
        Case {
            segs,
            kind,
            persistent: rng.bool(),
            poison: rng.range(1, 255) as u8,
            churn: (0..rng.below(4)).map(|_| rng.logscale(5 << 20)).collect(),
            chaos: if kind.asm() && rng.chance(1, 5) { Some(rng.next() as u32) } else { None },
            steps,
            prog,
        }
    }

    fn run(c: &Case, st: &mut Stats) -> Result<(), Violation> {
        let mop0 = c.prog.isa & ckb_vm::ISA_MOP != 0 && c.prog.version == 0;
        if c.kind.trace() && mop0 {
            return Ok(());
        }
        let mut p = c.prog.clone();
        for s in &c.segs {
            p.data.push(DataSeg { addr: s.addr, init: kk::bytes_for(s.addr ^ s.file, s.file), memsz: s.memsz, write: s.write });
        }
        let g = Guest::new(&p);
        let before = alloc::poisoned();
        let mut s = M::new(c, c.kind, c.poison);
        // in randomised mode the reference is the same machine on another heap
        let mut m = match c.chaos {
            None => M::new(c, Kind::Model, 0),
            Some(_) => M::new(c, c.kind, !c.poison | 1),
        };
        let load = |x: &mut M| x.act(&mut |x: &mut M| x.e.load(&g.built.elf, &g.args).map_err(|e| ec(&e)));
        let (a, b) = (load(&mut m), load(&mut s));
        if a.is_err() && b.is_err() {
            return Ok(());
        }
        if a != b {
            return viol("load", format!("{}: loading gives {:?}, expected {:?}", c.kind.name(), b, a));
        }
        let sp = c.prog.mem - 0x10000;
        let mut trace = vec![];
        let mut sig = 0;
        let mut steps = vec![Step::Run(0)];
        steps.extend(c.steps.iter().cloned());
        steps.push(Step::Look);
        for (i, x) in steps.iter().enumerate() {
            if let Step::Restore(k) = x {
                if c.prog.rv32 && k.asm() || k.trace() && mop0 || c.chaos.is_some() && !k.asm() {
                    continue;
                }
                st.fault("crash and restore", 1);
            }
            if let Step::RunAt(a) = x {
                // only where nothing was ever written
                if c.chaos.is_some() {
                    continue;
                }
                let zero = m.e.core().load(*a, 4).map_or(false, |v| v == 0);
                let exec = |q: u64, m: &mut M| m.e.core().flag(q).map_or(false, |f| f & 2 != 0);
                if !zero || !exec(*a >> 12, &mut m) || !exec((*a + 3) >> 12, &mut m) || m.e.stale(Some(*a >> 12)) {
                    continue;
                }
            }
            if matches!(x, Step::Reset) {
                st.fault("reset", 1);
            }
            let rm = apply(&mut m, c, &g, x, sp);
            if m.e.disputed().is_some() {
                return Ok(());
            }
            let rs = apply(&mut s, c, &g, x, sp);
            st.runs += 1;
            trace.push(format!("{:x?} -> {:x?}", x, rs));
            let fail = |kind: &str, msg: String| {
                Err(Violation { kind: kind.into(), msg: format!("{}: step {} {:x?}: {}", c.kind.name(), i, x, msg), trace: trace.clone() })
            };
            // which of two reasons refuses an access across the end is open
            let two = |r: R| matches!(r, Err(EC::Oob | EC::Perm));
            let open = two(rm) && two(rs);
            if rm != rs && !open {
                return fail("answer", format!("answers {:x?}, expected {:x?}", rs, rm));
            }
            sig = mix(sig ^ match rm {
                Ok(v) => v,
                Err(e) => crate::rng::hash_str(&format!("{:?}", e)),
            });
            if matches!(x, Step::Run(_) | Step::RunAt(_)) {
                st.units += m.e.core().cyc();
                if rm == Err(EC::InvalidInstruction) || matches!(rm, Err(EC::Unexpected)) {
                    continue;
                }
                let d = diff_events(&m.k.lock().unwrap().events, &s.k.lock().unwrap().events);
                if let Some(d) = d {
                    return fail("history", d);
                }
                let (a, b) = (regs_of(m.e.core()), regs_of(s.e.core()));
                if rm.is_err() {
                    // a refused atomic may or may not have set its register
                    for r in 5..32 {
                        s.e.core().set_reg(r, a[r]);
                    }
                    let lr = m.e.core().lr();
                    s.e.core().set_lr(lr);
                } else if let Some(r) = (0..32).find(|r| a[*r] != b[*r]) {
                    return fail("registers", format!("x{} is {:#x}, expected {:#x}", r, b[r], a[r]));
                }
            }
        }
        let (a, b) = (state(m.e.core()), state(s.e.core()));
        match (a, b) {
            (Ok(a), Ok(b)) => {
                if let Some(d) = a.diff(&b, false, false, Dirty::Ignore) {
                    return Err(Violation { kind: "state".into(), msg: format!("{}: at the end: {}", c.kind.name(), d), trace });
                }
                st.see(b.digest());
            }
            _ => return viol("observe", "memory cannot be read back".into()),
        }
        let n = alloc::poisoned() - before;
        st.fault("allocation handed out full of poison", n);
        st.fault("randomised-memory mode", c.chaos.is_some() as u64);
        st.kernel(&s.k);
        *st.engines.entry(c.kind.name()).or_default() += 1;
        if n > 0 {
            st.sig(sig);
        }
        Ok(())
    }

    fn atoms(c: &Case) -> usize {
        c.steps.len() + c.segs.len() + c.churn.len() + c.prog.atoms()
    }
    fn without(c: &Case, lo: usize, hi: usize) -> Case {
        let mut d = c.clone();
        let (a, b) = (c.steps.len(), c.steps.len() + c.segs.len());
        let e = b + c.churn.len();
        d.steps = drop_range(&c.steps, lo, hi);
        d.segs = drop_range(&c.segs, lo.saturating_sub(a), hi.saturating_sub(a));
        d.churn = drop_range(&c.churn, lo.saturating_sub(b), hi.saturating_sub(b));
        if hi > e {
            d.prog = c.prog.without(lo.saturating_sub(e), hi - e);
        }
        d
    }
    fn simpler(c: &Case) -> Vec<Case> {
        let mut v = vec![];
        for p in c.prog.simpler() {
            if p.funcs.len() == c.prog.funcs.len() {
                v.push(Case { prog: p, ..c.clone() });
            }
        }
        if c.persistent {
            v.push(Case { persistent: false, ..c.clone() });
        }
        if c.kind.asm() && c.kind != Kind::AsmSimple {
            v.push(Case { kind: Kind::AsmSimple, ..c.clone() });
        }
        if c.chaos.is_some() {
            v.push(Case { chaos: None, ..c.clone() });
        }
        for i in 0..c.segs.len() {
            let mut d = c.clone();
            d.segs[i].file /= 2;
            if c.segs[i].file > 0 {
                v.push(d);
            }
        }
        v
    }
}
