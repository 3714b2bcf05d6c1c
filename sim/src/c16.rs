//! C16: hostile guests. Arbitrary code and registers under a finite budget,
//! interrupted and poked at from outside: a run comes back, nothing outside
//! guest memory is touched, and the machine can be used afterwards.

use crate::alloc as al;
use crate::c01::drop_range;
use crate::core::{ec, regs_of, state, Blobs, Ctx2, Dirty, EC};
use crate::engine::{build, kinds, Cfg, Cost, Engine, Hook, HookState, Kind};
use crate::isa::*;
use crate::kernel::{bytes_for, kernel, EXEC};
use crate::prog::{generate, Gen, Prog};
use crate::rng::{mix, Rng};
use crate::scn::*;
use ckb_vm::{Bytes, Error};
use serde::{Deserialize, Serialize};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::Ordering::Relaxed;
use std::sync::{Arc, Mutex};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Chunk {
    pub addr: u64,
    /// 16-bit parcels
    pub code: Vec<u16>,
    pub flags: u8,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Op {
    /// run for this many cycles more, a pause request arriving at these
    /// instants: (at a decode, else at a pricing; ordinal)
    Run(u64, Vec<(bool, u64)>),
    Interrupt,
    Steps(u16),
    Pc(u64),
    Reg(u8, u64),
    Lr(u64),
    Cold,
    Again,
    Store(u64, u8, u64),
    Load(u64, u8),
    StoreBytes(u64, u32),
    LoadBytes(u64, u64),
    Fill(u64, u64, u8),
    Init(u64, u64, u8, u32, u64),
    SetFlag(u64, u8),
    ClearFlag(u64, u8),
    Fetch(u64),
    /// the host stores data that it can find again: address, source, offset,
    /// length, where to put the full length
    Store2(u64, u64, u64, u64, u64),
    Untrack2(u64, u64),
    /// the host takes a snapshot and throws it away
    Snap(bool),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub rv32: bool,
    pub version: u32,
    pub isa: u8,
    pub mem: u64,
    pub cost: Cost,
    pub persistent: bool,
    pub chunks: Vec<Chunk>,
    pub regs: Vec<u64>,
    pub pc: u64,
    pub ops: Vec<Op>,
    pub poison: u8,
    /// run on the machine once it is reset
    pub after: Prog,
    pub kinds: Vec<Kind>,
}

pub struct C16;

/// An address a hostile guest would try.
fn addr(rng: &mut Rng, mem: u64) -> u64 {
    match rng.below(14) {
        0 => mem - rng.below(20),
        1 => mem + rng.below(20),
        2 => rng.below(16).wrapping_neg(),
        3 => u64::MAX / 2 - 8 + rng.below(20),
        4 => (1u64 << 32) - 8 + rng.below(20),
        5 => (1u64 << 31) - 8 + rng.below(20),
        6 => 1u64 << rng.below(64),
        7 => rng.below(mem).wrapping_sub(1u64 << rng.range(18, 63)),
        8 => rng.below(mem).wrapping_add(1u64 << rng.range(18, 63)),
        9 => (rng.below(mem) & !4095) + 4096 - rng.below(10),
        10 => rng.next(),
        11 => (rng.below(mem / (256 * 1024) + 1) * 256 * 1024).wrapping_sub(rng.below(10)),
        _ => rng.below(mem),
    }
}

fn word(rng: &mut Rng, isa: IsaSel) -> u32 {
    let reg = |rng: &mut Rng| rng.below(32) as u32;
    let (a, b, d) = (reg(rng), reg(rng), reg(rng));
    match rng.below(22) {
        0 => rng.next() as u32,
        1 => rng.next() as u32 | 3,
        // a valid major opcode, the rest noise
        2..=4 => {
            let op = *rng.pick(&[0x03u32, 0x0f, 0x13, 0x17, 0x1b, 0x23, 0x2f, 0x33, 0x37, 0x3b, 0x63, 0x67, 0x6f, 0x73, 0x07, 0x27, 0x43, 0x53, 0x5b]);
            (rng.next() as u32 & !0x7f) | op
        }
        5..=7 => random_alu(rng, isa, d, |r| r.below(32) as u32),
        8 => random_alu(rng, isa, d, |r| r.below(32) as u32) ^ 1 << rng.below(32),
        9 | 10 => i_type(0x03, rng.below(8) as u32, d, a, (rng.next() & 0xfff) as i32),
        11 | 12 => s_type(0x23, rng.below(5) as u32, a, b, (rng.next() as i32) << 20 >> 20),
        13 => {
            let f5 = *rng.pick(&[0u32, 1, 2, 3, 4, 8, 12, 16, 20, 24, 28]);
            r_type(0x2f, rng.range(2, 3) as u32, f5 << 2 | rng.below(4) as u32, d, a, if f5 == 2 { 0 } else { b })
        }
        14 | 15 => b_type(*rng.pick(&[0u32, 1, 4, 5, 6, 7, 2]), a, b, (rng.below(64) as i32 - 32) * 2),
        16 => b_type(*rng.pick(&[0u32, 1, 4, 5, 6, 7]), a, b, (rng.next() as i32) << 19 >> 19),
        17 => jal(d, (rng.below(64) as i32 - 32) * 2),
        18 => jal(d, (rng.next() as i32) << 11 >> 11),
        19 => jalr(d, a, (rng.next() as i32) << 20 >> 20),
        20 => *rng.pick(&[0x73u32, 0x73, 0x0010_0073, 0x0000_000f, 0x0000_100f, 0x3020_0073, 0xc000_2573, 0, !0]),
        _ => {
            if rng.bool() {
                lui(d, rng.next() as u32)
            } else {
                auipc(d, rng.next() as u32)
            }
        }
    }
}

/// Code that mostly survives, so that what is hostile comes late.
fn tame(rng: &mut Rng, isa: IsaSel, mem: u64) -> Vec<u32> {
    let d = *rng.pick(&crate::prog::POOL);
    let base = rng.range(18, 21) as u32;
    match rng.below(17) {
        // an access at an edge
        16 => {
            let a = if rng.chance(1, 2) { mem - rng.below(16) } else { addr(rng, mem) };
            let mut v = crate::prog::li_words(T, a, isa.rv32);
            let lim = if isa.rv32 { 2 } else { 3 };
            v.push(match rng.below(4) {
                0 | 1 => i_type(0x03, if rng.bool() { lim } else { rng.below(if isa.rv32 { 3 } else { 7 }) as u32 }, d, T, 0),
                2 => s_type(0x23, rng.below(lim as u64 + 1) as u32, T, rng.below(32) as u32, 0),
                _ => jalr(rng.below(2) as u32, T, 0),
            });
            v
        }
        0..=6 => {
            let s = move |r: &mut Rng| r.below(32) as u32;
            // divisions by anything are fine too
            vec![random_alu(rng, isa, d, s)]
        }
        7 | 8 => vec![i_type(0x03, rng.below(if isa.rv32 { 3 } else { 7 }) as u32, d, base, (rng.next() as i32) << 20 >> 20)],
        9 | 10 => vec![s_type(0x23, rng.below(if isa.rv32 { 3 } else { 4 }) as u32, base, rng.below(32) as u32, (rng.next() as i32) << 20 >> 20)],
        11 | 12 => vec![b_type(*rng.pick(&[0u32, 1, 4, 5, 6, 7]), rng.below(32) as u32, rng.below(32) as u32, rng.range(1, 6) as i32 * 4)],
        13 => vec![b_type(*rng.pick(&[0u32, 1, 4, 5, 6, 7]), rng.below(32) as u32, rng.below(32) as u32, rng.range(1, 12) as i32 * -4)],
        14 if isa.a => {
            let f5 = *rng.pick(&[0u32, 1, 2, 3, 3, 2, 4, 8, 12, 16, 20, 24, 28]);
            let f3 = if isa.rv32 { 2 } else { rng.range(2, 3) as u32 };
            vec![addi(T, base, 0), r_type(0x2f, f3, f5 << 2, d, T, if f5 == 2 { 0 } else { rng.below(32) as u32 })]
        }
        _ => match rng.below(6) {
            0 => vec![addi(17, 0, 93), 0x73],
            1 => vec![addi(17, 0, rng.range(1000, 1006) as i32), 0x73],
            2 => vec![jal(1, 8), jalr(0, 1, 0)],
            _ => vec![jal(0, rng.range(1, 10) as i32 * 4)],
        },
    }
}
const T: u32 = 25;

fn code(rng: &mut Rng, isa: IsaSel, n: usize, mem: u64) -> Vec<u16> {
    let mut v = vec![];
    let style = rng.below(6);
    let rate = *rng.pick(&[0u64, 0, 1, 3, 30]);
    if rng.chance(2, 3) {
        while v.len() < n {
            let w = if rng.below(100) < rate { vec![word(rng, isa)] } else { tame(rng, isa, mem) };
            for x in w {
                v.extend([x as u16, (x >> 16) as u16]);
            }
        }
        v.truncate(n);
        return v;
    }
    while v.len() < n {
        match (style, rng.below(10)) {
            (0, _) => v.push(rng.next() as u16),
            // nothing but compressed noise
            (1, _) | (_, 0) => v.push((rng.next() as u16 & !3) | rng.below(3) as u16),
            (_, 1) => v.push(random_rvc(rng, isa, rng.clone().below(32) as u32, rng.clone().below(32) as u32, 8 + rng.clone().below(8) as u32, 8 + rng.clone().below(8) as u32)),
            // fusable sequences
            (2, 2..=5) | (_, 2) => {
                let (a, b, c, d) = (rng.below(32) as u32, rng.below(32) as u32, rng.below(32) as u32, rng.below(32) as u32);
                let f = *rng.pick(&[0u32, 1, 2, 3]);
                let w = match rng.below(6) {
                    0 => vec![r_type(0x33, f, 1, a, b, c), r_type(0x33, 0, 1, d, b, c)],
                    1 => vec![r_type(0x33, *rng.pick(&[4, 5]), 1, a, b, c), r_type(0x33, *rng.pick(&[6, 7]), 1, d, b, c)],
                    2 => vec![lui(a, rng.next() as u32), jalr(*rng.pick(&[1, 0, a]), a, (rng.next() as i32) << 20 >> 20)],
                    3 => vec![auipc(a, rng.next() as u32), jalr(*rng.pick(&[1, 0, a]), a, (rng.next() as i32) << 20 >> 20)],
                    4 => vec![lui(a, rng.next() as u32), addiw(a, a, (rng.next() as i32) << 20 >> 20)],
                    _ => vec![add(a, b, c), r_type(0x33, 3, 0, d, a, b), add(a, a, rng.below(32) as u32)],
                };
                for x in w {
                    v.extend([x as u16, (x >> 16) as u16]);
                }
            }
            _ => {
                let x = word(rng, isa);
                v.extend([x as u16, (x >> 16) as u16]);
            }
        }
    }
    v.truncate(n);
    v
}

fn lay(c: &Case, e: &mut dyn Engine) -> Result<(), Error> {
    let m = e.core();
    for k in &c.chunks {
        let b: Vec<u8> = k.code.iter().flat_map(|x| x.to_le_bytes()).collect();
        let base = k.addr & !4095;
        let off = k.addr - base;
        let size = (off + b.len() as u64 + 4095) & !4095;
        // one that does not fit, or meets a frozen page, is refused
        let _ = m.init_pages(base, size, k.flags, Some(Bytes::from(b)), off);
    }
    for (i, v) in c.regs.iter().enumerate().skip(1) {
        m.set_reg(i, *v);
    }
    m.set_pc(c.pc);
    e.set_running(true);
    Ok(())
}

#[derive(Clone, Debug, PartialEq)]
struct Obs {
    res: Result<u64, EC>,
    pc: u64,
    regs: Vec<u64>,
    cycles: u64,
    mem: u64,
    priced: u64,
}

fn cf(c: &Case, kind: Kind) -> Cfg {
    Cfg {
        kind,
        rv32: c.rv32,
        version: c.version,
        isa: c.isa,
        mem: c.mem,
        max_cycles: 0,
        cost: c.cost,
        persistent: c.persistent,
        handlers: 1,
        debugger: true,
        step_limit: 0,
        chaos: None,
    }
}

fn drive(c: &Case, kind: Kind, st: &mut Stats) -> Result<Vec<Obs>, Violation> {
    let hook: Hook = Arc::new(Mutex::new(HookState::default()));
    let k = kernel();
    k.lock().unwrap().event_limit = usize::MAX;
    k.lock().unwrap().fixed_limit = true;
    k.lock().unwrap().ctx2 = Some(Ctx2::new(blobs()));
    al::POISON.store(c.poison as u64, Relaxed);
    al::GUARD.store(1, Relaxed);
    let mut e = build(&cf(c, kind), &k, Some(hook.clone()));
    al::GUARD.store(0, Relaxed);
    al::POISON.store(0, Relaxed);
    let p = e.pause();
    hook.lock().unwrap().pause = Some(p.clone());
    k.lock().unwrap().pause = Some(p);
    let _ = lay(c, e.as_mut());
    let mut out = vec![];
    for (i, o) in c.ops.iter().enumerate() {
        let fail = |kd: &str, msg: String| viol(kd, format!("{}: operation {} ({:?}): {}", kind.name(), i, o, msg));
        let before = e.core().cyc();
        let r = catch_unwind(AssertUnwindSafe(|| one(&k, e.as_mut(), &hook, o)));
        let res = match r {
            Ok(r) => r,
            Err(_) => return fail("panic", "panics".into()),
        };
        {
            let mut k = k.lock().unwrap();
            st.host_calls += k.events.len() as u64;
            k.events.clear();
        }
        let class = res.as_ref().map(|x| *x).map_err(|e| ec(e));
        if let Op::Run(n, at) = o {
            st.runs += 1;
            let cyc = e.core().cyc();
            let max = before.saturating_add(*n);
            st.units += cyc.saturating_sub(before).min(*n);
            if res.is_ok() && cyc > max {
                return fail("budget", format!("ends well after {} cycles with {} allowed", cyc, max));
            }
            st.fault("pause request", hook.lock().unwrap().fired.min(at.len() as u64));
            match &class {
                Ok(_) => st.probe("run ended with a result"),
                Err(x) => st.probe(&format!("run ended with {:?}", x)),
            }
        }
        if !al::intact() {
            return fail("escape", "memory next to the machine's own was written".into());
        }
        let m = e.core();
        let regs = regs_of(m);
        if c.rv32 && regs.iter().any(|r| *r > u32::MAX as u64) {
            return fail("registers", format!("a 32-bit machine holds {:x?}", regs));
        }
        if regs[0] != 0 {
            return fail("registers", format!("x0 is {:x}", regs[0]));
        }
        let mem = if matches!(o, Op::Run(..)) { state(m).map(|s| s.digest()).unwrap_or(1) } else { 0 };
        let (pc, cycles) = (m.pc(), m.cyc());
        out.push(Obs { res: class, pc, regs, cycles, mem, priced: hook.lock().unwrap().priced });
    }
    // what it is good for now
    {
        let mut h = hook.lock().unwrap();
        h.price_at.clear();
        h.decode_at.clear();
        h.pause = None;
    }
    let g = Guest::new(&c.after);
    let fresh = {
        let k = kernel();
        let mut e = build(&cf(c, kind), &k, None);
        e.core().set_max_cyc(1_000_000);
        again(&g, e.as_mut(), &k)
    };
    let used = {
        let r = catch_unwind(AssertUnwindSafe(|| {
            e.core().do_reset(1_000_000)?;
            e.pause().free();
            let mut k = k.lock().unwrap();
            k.pause = None;
            k.ctx2 = None;
            k.calls = 0;
            k.breaks = 0;
            Ok::<_, Error>(())
        }));
        match r {
            Ok(Ok(())) => again(&g, e.as_mut(), &k),
            Ok(Err(x)) => return viol("reuse", format!("{}: cannot be reset: {:?}", kind.name(), x)),
            Err(_) => return viol("reuse", format!("{}: reset panics", kind.name())),
        }
    };
    let (fresh, used) = (fresh?, used?);
    if fresh.res != used.res {
        return viol("reuse", format!("{}: after a reset the next program gives {:?}, on a new machine {:?}", kind.name(), used.res, fresh.res));
    }
    if fresh.events != used.events {
        return viol("reuse", format!("{}: after a reset the next program's host calls differ from a new machine's", kind.name()));
    }
    if let Some(d) = fresh.st.diff(&used.st, fresh.res.is_ok(), true, Dirty::Equal) {
        return viol("reuse", format!("{}: after a reset the next program leaves another state than on a new machine: {}", kind.name(), d));
    }
    drop(e);
    if !al::intact() {
        return viol("escape", format!("{}: memory next to the machine's own was written", kind.name()));
    }
    Ok(out)
}

fn again(g: &Guest, e: &mut dyn Engine, k: &crate::kernel::K) -> Result<Outcome, Violation> {
    let r = e.load(&g.built.elf, &g.args);
    let r = match r {
        Ok(_) => e.run(),
        Err(x) => Err(x),
    };
    outcome(e, r, k)
}

fn blobs() -> Blobs {
    let b = Blobs::default();
    b.v.lock().unwrap().blobs = vec![Bytes::from(bytes_for(7, 20000)), Bytes::new()];
    b
}

fn with2<T>(k: &crate::kernel::K, f: impl FnOnce(&mut Ctx2) -> T) -> T {
    let mut x = k.lock().unwrap().ctx2.take().unwrap();
    let r = f(&mut x);
    k.lock().unwrap().ctx2 = Some(x);
    r
}

fn one(k: &crate::kernel::K, e: &mut dyn Engine, hook: &Hook, o: &Op) -> Result<u64, Error> {
    match o {
        Op::Run(n, at) => {
            {
                let mut h = hook.lock().unwrap();
                h.priced = 0;
                h.decoded = 0;
                h.fired = 0;
                h.price_at = at.iter().filter(|x| !x.0).map(|x| x.1).collect();
                h.decode_at = at.iter().filter(|x| x.0).map(|x| x.1).collect();
            }
            let m = e.core().cyc().saturating_add(*n);
            e.core().set_max_cyc(m);
            let mut left = at.len() + 2;
            loop {
                match e.run() {
                    // continue as the host would
                    Err(Error::Pause) if left > 0 => left -= 1,
                    r => return r.map(|x| x as u8 as u64),
                }
            }
        }
        Op::Interrupt => {
            e.pause().interrupt();
            Ok(0)
        }
        Op::Steps(n) => {
            if !e.can_step() {
                return Ok(0);
            }
            for _ in 0..*n {
                e.step()?;
            }
            Ok(0)
        }
        Op::Pc(a) => {
            e.core().set_pc(*a);
            Ok(0)
        }
        Op::Reg(r, v) => {
            e.core().set_reg(*r as usize, *v);
            Ok(0)
        }
        Op::Lr(v) => {
            e.core().set_lr(*v);
            Ok(0)
        }
        Op::Cold => {
            e.cold();
            Ok(0)
        }
        Op::Again => {
            e.set_running(true);
            Ok(0)
        }
        Op::Store(a, w, v) => e.core().store(*a, *w as u64, *v).map(|_| 0),
        Op::Load(a, w) => e.core().load(*a, *w as u64),
        Op::StoreBytes(a, n) => e.core().store_bytes(*a, &bytes_for(*n as u64, *n as u64)).map(|_| 0),
        Op::LoadBytes(a, n) => e.core().load_bytes(*a, *n).map(|b| crate::rng::hash_bytes(1, &b)),
        Op::Fill(a, n, v) => e.core().fill(*a, *n, *v).map(|_| 0),
        Op::Init(a, n, f, s, o) => {
            let b = Bytes::from(bytes_for(*s as u64, *s as u64));
            e.core().init_pages(*a, *n, *f, if *s == 0 { None } else { Some(b) }, *o).map(|_| 0)
        }
        Op::SetFlag(p, f) => e.core().set_flag(*p, *f).map(|_| 0),
        Op::ClearFlag(p, f) => e.core().clear_flag(*p, *f).map(|_| 0),
        Op::Fetch(a) => {
            let m = e.core();
            Ok(m.fetch16(*a)? as u64 ^ (m.fetch32(*a)? as u64) << 16)
        }
        Op::Store2(a, id, off, n, sz) => with2(k, |x| e.core().store2(x, *a, *id, *off, *n, *sz)).map(|r| r.0 ^ r.1 << 32),
        Op::Untrack2(a, n) => with2(k, |x| e.core().untrack2(x, *a, *n)).map(|_| 0),
        Op::Snap(true) => with2(k, |x| e.core().snap2(x)).map(|_| 0),
        Op::Snap(false) => e.core().snap1().map(|_| 0),
    }
}

fn same_class(a: &Result<u64, EC>, b: &Result<u64, EC>) -> bool {
    // which of two reasons refuses an access across the end of memory is open
    let n = |r: &Result<u64, EC>| match r {
        Err(EC::Oob | EC::Perm) => Err(EC::Oob),
        x => *x,
    };
    n(a) == n(b)
}

impl Prop for C16 {
    type Case = Case;
    const ID: &'static str = "C16";
    const RULE: &'static str = "a case is a hostile guest (noise, mutated and valid instructions, hostile jumps, accesses, atomics and host calls; hostile registers and entry; code at page, frame and memory ends) and a script of runs under finite limits with pause requests at arbitrary instants, single steps, register, pc and memory changes by the host; on every chosen engine each operation must come back, the surroundings of the machine's memory stay intact (guard pages and canaries), and after a reset the machine must behave as a new one; the two interpreters and the two trace machines must agree with each other in everything, and all with the interpreter as long as runs end well; distinct by what was observed, non-trivial if guest code ran";
    const REAL: &'static [&'static str] = &["every engine and decoder", "instruction decoding and execution", "memory and its checks", "reset"];
    const STUB: &'static [&'static str] = &["host-call handlers", "memory allocator (guard pages)"];

    fn gen(rng: &mut Rng, _t: Tier) -> Case {
        let rv32 = rng.chance(1, 6);
        let version = *rng.pick(&[0u32, 1, 2, 2]);
        let mut isa = if rv32 { *rng.pick(&[0u8, 2, 4, 6]) } else { rng.below(8) as u8 };
        if version == 0 && rng.chance(19, 20) {
            isa &= !ckb_vm::ISA_MOP;
        }
        let mem = *rng.pick(&[1u64 << 20, 1 << 20, 2 << 20, 4 << 20]);
        let sel = IsaSel { rv32, b: isa & 1 != 0, a: isa & 4 != 0, mop: isa & 2 != 0, version };
        let mut chunks = vec![];
        let mut starts = vec![];
        for _ in 0..rng.range(1, 3) {
            let n = match rng.below(4) {
                0 => rng.range(1, 4),
                1 => rng.range(1, 4000),
                _ => rng.range(4, 400),
            };
            let len = n * 2;
            let a = match rng.below(7) {
                // ending at the end of memory / a frame / a page
                0 => mem - len,
                1 => rng.range(1, mem / 262144) * 262144 - len,
                2 => rng.range(1, mem / 4096) * 4096 - len.min(4096),
                3 => rng.range(1, mem / 262144) * 262144 - rng.below(len / 2 + 1) * 2,
                _ => rng.below(mem - len) & !1,
            };
            let flags = *rng.pick(&[2u8, 2, 3, 3, 3, 0, 1]);
            let n = n.min((mem - a.min(mem)) / 2).max(1) as usize;
            starts.push(a);
            chunks.push(Chunk { addr: a, code: code(rng, sel, n, mem), flags });
        }
        let pc = match rng.below(10) {
            0 => addr(rng, mem),
            1 => starts[0] + rng.below(16) * 2,
            2 => starts[0] + rng.below(64),
            _ => *rng.pick(&starts),
        };
        let regs = (0..32)
            .map(|i| {
                let v = match rng.below(6) {
                    _ if (18..22).contains(&i) && rng.chance(9, 10) => rng.below(mem) & !7,
                    0 => rng.edge64(),
                    1 | 2 => addr(rng, mem),
                    3 => rng.pick(&starts).wrapping_add(rng.below(32) * 2),
                    4 => rng.below(mem),
                    _ => rng.below(64),
                };
                let v = if i == 17 {
                    match rng.below(4) {
                        0 => 93,
                        1 => v,
                        _ => {
                            let n = rng.range(1000, 1021);
                            if n == EXEC {
                                1000
                            } else {
                                n
                            }
                        }
                    }
                } else {
                    v
                };
                if rv32 {
                    v & 0xffff_ffff
                } else {
                    v
                }
            })
            .collect();
        let mask = |v: u64| if rv32 { v & 0xffff_ffff } else { v };
        let n = rng.range(1, 8);
        let mut ops = vec![];
        for _ in 0..n {
            let a = addr(rng, mem);
            ops.push(match rng.below(34) {
                0 => Op::Interrupt,
                1 => Op::Steps(rng.logscale(40) as u16),
                2 => Op::Pc(mask(a)),
                3 | 4 => Op::Pc(rng.pick(&starts).wrapping_add(rng.below(20) * 2)),
                5 | 6 => Op::Reg(rng.range(1, 31) as u8, mask(if rng.bool() { a } else { rng.edge64() })),
                7 => Op::Lr(mask(a)),
                8 => Op::Cold,
                9 => Op::Again,
                10 | 11 => Op::Store(mask(a), *rng.pick(&[1, 2, 4, 8]), rng.next()),
                12 => Op::Load(mask(a), *rng.pick(&[1, 2, 4, 8])),
                13 => Op::StoreBytes(a, rng.logscale(20000) as u32),
                14 => Op::LoadBytes(a, if rng.bool() { rng.logscale(9000) } else { addr(rng, mem) }),
                15 => Op::Fill(a, if rng.bool() { rng.logscale(9000) } else { addr(rng, mem) }, rng.next() as u8),
                16 => {
                    let (x, y) = (rng.logscale(9000), addr(rng, mem));
                    let al = if rng.chance(3, 4) { !4095 } else { !0 };
                    Op::Init(a & al, if rng.bool() { (x + 4095) & al } else { y & al }, rng.below(8) as u8, rng.logscale(9000) as u32, if rng.bool() { 0 } else { rng.logscale(9000) })
                }
                17 => Op::SetFlag(if rng.chance(3, 4) { a >> 12 } else { a }, rng.below(8) as u8),
                18 => Op::ClearFlag(if rng.chance(3, 4) { a >> 12 } else { a }, rng.below(8) as u8),
                19 => Op::Fetch(a),
                20 | 21 => {
                    let n = *rng.pick(&[0u64, 1, 4096, 8192, 20000, a]);
                    // also to end at the end of everything
                    let a = if rng.chance(1, 4) { n.wrapping_neg() } else { a };
                    let off = if rng.chance(1, 4) { addr(rng, mem) } else { rng.logscale(20000) };
                    let sz = if rng.chance(3, 4) { rng.below(mem) & !7 } else { addr(rng, mem) };
                    Op::Store2(a, rng.below(3), off, n, sz)
                }
                22 => Op::Untrack2(a, if rng.bool() { rng.logscale(9000) } else { addr(rng, mem) }),
                23 => Op::Snap(rng.bool()),
                _ => {
                    let k = if rng.chance(1, 3) { rng.range(1, 4) } else { 0 };
                    let at = (0..k).map(|_| (rng.bool(), rng.logscale(200) + 1)).collect();
                    Op::Run(rng.logscale(20_000), at)
                }
            });
        }
        if !ops.iter().any(|o| matches!(o, Op::Run(..))) {
            ops.push(Op::Run(rng.logscale(20_000), vec![]));
        }
        let mut g = Gen::random(rng);
        g.rv32 = rv32;
        g.version = version;
        g.isa = isa;
        g.mem = mem;
        g.budget = 100;
        g.body = 4;
        g.funcs = 1;
        let after = generate(rng, &g);
        let all = kinds(rv32);
        let mut ks = vec![Kind::InterpSparse];
        if rv32 {
            ks.push(*rng.pick(&all[1..]));
        } else {
            ks.push(*rng.pick(&all[4..]));
            if rng.bool() {
                ks.push(*rng.pick(&all[1..]));
            }
        }
        if ks.contains(&Kind::TraceFlat) {
            ks.push(Kind::TraceSparse);
        }
        ks.dedup();
        // a price for everything, so that the limit bounds every run
        let cost = *rng.pick(&[Cost::One, Cost::One, Cost::Estimate]);
        Case { rv32, version, isa, mem, cost, persistent: rng.bool(), chunks, regs, pc, ops, poison: rng.next() as u8, after, kinds: ks }
    }

    fn run(c: &Case, st: &mut Stats) -> Result<(), Violation> {
        let mop0 = c.isa & ckb_vm::ISA_MOP != 0 && c.version == 0;
        let mut seen: Vec<(Kind, Vec<Obs>)> = vec![];
        for k in &c.kinds {
            if c.rv32 && k.asm() || mop0 && k.trace() {
                continue;
            }
            *st.engines.entry(k.name()).or_default() += 1;
            let o = drive(c, *k, st)?;
            for x in &o {
                st.see(mix(x.mem ^ x.pc) ^ x.cycles);
            }
            seen.push((*k, o));
        }
        let mut sig = 0;
        if let Some((_, o)) = seen.first() {
            for x in o {
                sig = mix(sig ^ x.mem ^ x.cycles ^ x.pc.rotate_left(9));
            }
            if o.iter().any(|x| x.priced > 0) {
                st.sig(sig);
            }
        }
        for (i, (ka, a)) in seen.iter().enumerate() {
            for (kb, b) in &seen[i + 1..] {
                let twins = ka.interp() && kb.interp() || ka.trace() && kb.trace();
                for (n, (x, y)) in a.iter().zip(b).enumerate() {
                    let fail = |what: &str| {
                        viol("differ", format!("operation {} ({:?}): {} differs: {} gives {:x?}, {} gives {:x?}", n, c.ops[n], what, ka.name(), x, kb.name(), y))
                    };
                    if twins {
                        if !same_class(&x.res, &y.res) {
                            return fail("the result");
                        }
                        if (&x.regs, x.pc, x.cycles, x.mem, x.priced) != (&y.regs, y.pc, y.cycles, y.mem, y.priced) {
                            return fail("the state");
                        }
                        continue;
                    }
                    if ka != &Kind::InterpSparse {
                        break;
                    }
                    match (&c.ops[n], &x.res) {
                        (Op::Run(..), Ok(_)) => {
                            st.probe("runs compared across engines");
                            if x.res != y.res || x.regs != y.regs || x.mem != y.mem || x.cycles != y.cycles {
                                return fail("the outcome");
                            }
                        }
                        // from here on they may differ
                        (Op::Run(..) | Op::Steps(_) | Op::Init(..) | Op::SetFlag(..) | Op::ClearFlag(..) | Op::Interrupt, _) => break,
                        _ => {
                            if !same_class(&x.res, &y.res) || x.regs != y.regs {
                                return fail("the result");
                            }
                        }
                    }
                }
            }
        }
        Ok(())
    }

    fn atoms(c: &Case) -> usize {
        c.ops.len() + c.chunks.len() + c.chunks.iter().map(|k| k.code.len()).sum::<usize>() + 32 + c.after.atoms()
    }
    fn without(c: &Case, lo: usize, hi: usize) -> Case {
        let mut d = c.clone();
        let cut = |at: usize| (lo.saturating_sub(at), hi.saturating_sub(at));
        d.ops = drop_range(&c.ops, lo, hi);
        let mut at = c.ops.len();
        let (a, b) = cut(at);
        at += c.chunks.len();
        // chunks whole, else their contents
        let mut i = 0;
        d.chunks.clear();
        for (n, k) in c.chunks.iter().enumerate() {
            let (a2, b2) = cut(at);
            let mut k2 = k.clone();
            // what remains keeps its place: noise becomes no-ops
            for x in a2..b2.min(k.code.len()) {
                k2.code[x] = 1;
            }
            at += k.code.len();
            if !(n >= a && n < b) {
                d.chunks.push(k2);
            }
            i += 1;
        }
        let _ = i;
        let (a, b) = cut(at);
        for r in a..b.min(32) {
            d.regs[r] = 0;
        }
        at += 32;
        let (a, b) = cut(at);
        let k = c.after.atoms();
        if b > 0 && a < k {
            d.after = c.after.without(a, b.min(k));
        }
        d
    }
    fn known(id: &str) -> Option<Result<String, String>> {
        if id != "C16-v1-high-code" {
            return None;
        }
        // a machine of version 1 with more than 4 GiB, code behind them
        use ckb_vm::machine::asm::{traces::*, AsmCoreMachine, AsmMachine};
        use ckb_vm::{CoreMachine, DefaultMachineBuilder, Instruction, Memory};
        use ckb_vm::machine::DefaultMachine;
        use ckb_vm::ckb_vm_definitions::asm::FixedTrace;
        struct Count<D: ckb_vm::decoder::InstDecoder>(SimpleFixedTraceDecoder<D>, u64);
        impl<D: ckb_vm::decoder::InstDecoder> ckb_vm::decoder::InstDecoder for Count<D> {
            fn decode<M: Memory>(&mut self, m: &mut M, pc: u64) -> Result<Instruction, Error> {
                self.0.decode(m, pc)
            }
            fn reset_instructions_cache(&mut self) -> Result<(), Error> {
                self.0.reset_instructions_cache()
            }
        }
        impl<D: ckb_vm::decoder::InstDecoder> TraceDecoder for Count<D> {
            fn fixed_traces(&self) -> *const FixedTrace {
                self.0.fixed_traces()
            }
            fn fixed_trace_size(&self) -> u64 {
                self.0.fixed_trace_size()
            }
            fn prepare_traces(&mut self, m: &mut DefaultMachine<Box<AsmCoreMachine>>) -> Result<(), Error> {
                self.1 += 1;
                if self.1 > 1000 {
                    return Err(Error::External("no progress".into()));
                }
                self.0.prepare_traces(m)
            }
            fn reset(&mut self) -> Result<(), Error> {
                self.0.reset()
            }
        }
        let at = 4u64 << 30;
        let core = AsmCoreMachine::new_with_memory(ckb_vm::ISA_IMC, 1, 100, (4 << 30) + 0x40000);
        let mut m = AsmMachine::new(DefaultMachineBuilder::new(core).instruction_cycle_func(Box::new(|_| 1)).build());
        let mut code = vec![];
        for w in [addi(10, 0, 7), addi(17, 0, 93), ECALL] {
            code.extend_from_slice(&w.to_le_bytes());
        }
        let ready = m.machine.memory_mut().store_bytes(at, &code).and_then(|_| m.machine.memory_mut().set_flag(at >> 12, 2));
        if let Err(e) = ready {
            return Some(Err(format!("the probe cannot be set up: {:?}", e)));
        }
        m.machine.update_pc(at);
        m.machine.commit_pc();
        let mut d = Count(SimpleFixedTraceDecoder::new(ckb_vm::decoder::build_decoder::<u64>(ckb_vm::ISA_IMC, 1)), 0);
        Some(match m.run_with_decoder(&mut d) {
            Err(Error::External(_)) => Ok("[C16-v1-high-code] a version 1 assembly machine with 4 GiB + 256 KiB of memory, jumping to an exit at 0x100000000, decodes it over and over without consuming a cycle".into()),
            r => Err(format!("the run gives {:?}", r)),
        })
    }
    fn simpler(c: &Case) -> Vec<Case> {
        let mut v = vec![];
        for i in 0..c.kinds.len() {
            if c.kinds.len() > 1 {
                let mut d = c.clone();
                d.kinds.remove(i);
                v.push(d);
            }
        }
        for i in 0..c.ops.len() {
            if let Op::Run(n, at) = &c.ops[i] {
                if !at.is_empty() {
                    let mut d = c.clone();
                    d.ops[i] = Op::Run(*n, vec![]);
                    v.push(d);
                }
                if *n > 1 {
                    let mut d = c.clone();
                    d.ops[i] = Op::Run(*n / 2, at.clone());
                    v.push(d);
                }
            }
        }
        if c.persistent {
            v.push(Case { persistent: false, ..c.clone() });
        }
        v
    }
}
