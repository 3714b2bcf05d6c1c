//! Histories of guest and host accesses (C08, C09): short guest episodes,
//! host memory and flag operations, refused accesses followed by more runs,
//! resets and restores, in lock-step with the reference model.

use crate::c01::drop_range;
use crate::core::{ec, page_digest, regs_of, Core, Dirty, EC};
use crate::engine::{build, kinds, Cfg, Cost, Engine, Kind};
use crate::isa::*;
use crate::kernel::{self as kk, bytes_for, diff_events, kernel, K};
use crate::prog::{generate, Arg, Func, Gen, Node, Place, Prog, T1};
use crate::rng::{mix, Rng};
use crate::scn::*;
use ckb_vm::{Bytes, Error};
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Step {
    /// run episode n from its start
    Run(usize),
    /// run from this address
    RunAt(u64),
    SetFlag(u64, u8),
    ClearFlag(u64, u8),
    Store(u64, u64, u64),
    /// code that exits with this value, written by the host
    Code(u64, u32),
    Fill(u64, u64, u8),
    StoreW(u64, u64, u64),
    LoadW(u64, u64),
    Fetch16(u64),
    Fetch32(u64),
    Read(u64, u64),
    Init(u64, u64, u8, u64, u64),
    ClearDirty(u64),
    ClearAll,
    /// write to each of n pages from here
    Crowd(u64, u64, u64),
    /// write across the start of a page, then read it with every width and
    /// alignment that straddles it
    Seam(u64, u64),
    Reset,
    /// full snapshot, resumed by a new machine of this kind
    Restore(Kind),
    /// look at every window page
    Look,
}
use Step::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub prog: Prog,
    pub kind: Kind,
    pub persistent: bool,
    pub stepped: bool,
    pub steps: Vec<Step>,
}

pub const LIMIT: u64 = 50_000;

pub struct Pages {
    pub rw: Vec<u64>,
    pub last: u64,
    pub ro: Vec<u64>,
    /// pages holding code the host writes
    pub slots: [u64; 4],
    /// eight pages from here hold no code
    pub hole: u64,
}
/// memory too large to be looked at as a whole
pub fn big(p: &Prog) -> bool {
    p.mem > 64 << 20
}
pub fn pages(p: &Prog) -> Pages {
    let last = p.mem / 4096 - 1;
    if big(p) {
        // around the largest power of two inside
        let mut b = 0x4000;
        while 2 * b < last {
            b *= 2;
        }
        if b > 0x100000 && p.mem % 3 == 1 {
            b = 0x100000;
        }
        return Pages {
            rw: vec![b - 2, b - 1, b, b + 1, b + 2, 0xfffe.min(last - 4), 0xffff.min(last - 3), 0x10000.min(last - 2), 0, 1, 0x3f, 0x40, last - 1],
            last,
            ro: vec![0x10, 0x11, 0x6a],
            // see known-findings.json: versions 0 and 1 cannot run code there
            slots: if p.version < 2 && b >= 0x100000 - 12 { [0x88, 0x89, 0x8c, 0xc0] } else { [0x88, 0x89, b + 8, b + 12] },
            hole: b - 5,
        };
    }
    Pages {
        // around a frame boundary, the data segment, low memory, stack top
        rw: vec![0x7e, 0x7f, 0x80, 0x81, 0x82, 0x61, 0x62, 0x63, 0, 1, 0x3f, 0x40, last - 1],
        last,
        ro: vec![0x10, 0x11, 0x6a],
        slots: [0x88, 0x89, 0x8c, 0xc0],
        hole: 0x7d,
    }
}

fn any_page(rng: &mut Rng, p: &Pages) -> u64 {
    match rng.below(20) {
        0 | 1 => p.last,
        2 | 3 => *rng.pick(&p.slots),
        4 => *rng.pick(&p.ro),
        5 => p.last + 1 + rng.logscale(1 << 30),
        6..=12 => *rng.pick(&p.rw[..5]),
        _ => *rng.pick(&p.rw),
    }
}
/// pages whose flags the guest or host may change freely
fn flag_page(rng: &mut Rng, p: &Pages) -> u64 {
    if rng.chance(1, 30) {
        return p.last + 1 + rng.below(9);
    }
    if rng.chance(2, 3) {
        *rng.pick(&p.rw[..5])
    } else {
        // neither the last page (which of two refusals comes first is open)
        // nor the stack
        *rng.pick(&p.rw[..12])
    }
}
fn address(rng: &mut Rng, p: &Pages, w: u64) -> u64 {
    if rng.chance(1, 16) {
        return match rng.below(4) {
            0 => u64::MAX - rng.below(16),
            1 => (p.last + 1) * 4096 + rng.below(8200),
            2 => 1 << 63,
            _ => (1 << 52) - 4,
        };
    }
    let b = any_page(rng, p).wrapping_mul(4096);
    match rng.below(8) {
        0 | 1 => b.wrapping_add(4096).wrapping_sub(rng.range(1, w.max(2) + 1)),
        2 => b.wrapping_add(4096).wrapping_sub(w),
        3 => b,
        4 => b.wrapping_add(rng.below(16)),
        _ => b.wrapping_add(rng.below(4096)),
    }
}

pub struct B<'a> {
    pub rng: &'a mut Rng,
    pub p: Pages,
    pub isa: IsaSel,
    /// (flag changes, dirty clearing)
    pub mood: Mood,
    /// no code up there (see known-findings.json)
    pub old_high: bool,
}
#[derive(Clone, Copy, PartialEq)]
pub enum Mood {
    Perm,
    Dirt,
    /// memories of any size
    Big,
}

impl<'a> B<'a> {
    pub fn widths(&mut self) -> u32 {
        let m = if self.isa.rv32 { 3 } else { 4 };
        self.rng.below(m) as u32
    }
    /// one guest access
    fn access(&mut self, out: &mut Vec<Node>) {
        let f3 = self.widths();
        let a = address(self.rng, &self.p, 1 << f3);
        self.access_at(out, a, f3);
    }
    pub fn access_at(&mut self, out: &mut Vec<Node>, a: u64, f3: u32) {
        let rng = &mut *self.rng;
        let imm = if rng.bool() { 0 } else { rng.range(0, 4095) as i32 - 2048 };
        let base = a.wrapping_sub(imm as i64 as u64);
        let r = *rng.pick(&[0u32, 5, 6, 7, 9, 10, 11, 24, 28]);
        out.push(Node::Li(T1, base));
        match rng.below(10) {
            0..=5 => out.push(Node::W(vec![s_type(0x23, f3, T1, r, imm)])),
            6 | 7 => out.push(Node::W(vec![i_type(0x03, f3, r, T1, imm)])),
            8 if !self.isa.rv32 => {
                // compressed stores: c.sw / c.sd through x8..x15
                out.push(Node::Li(9, a & !7));
                let funct = if f3 == 3 { 7 } else { 6 };
                out.push(Node::H(vec![(funct << 13 | 1 << 7 | 2 << 2) as u16]));
            }
            _ if self.isa.a => {
                out.pop();
                out.push(Node::Li(T1, a));
                let f3 = if self.isa.rv32 { 2 } else { *rng.pick(&[2u32, 3]) };
                let f5 = *rng.pick(&[2u32, 3, 0, 1, 4, 8, 12, 16, 20, 24, 28]);
                let rs2 = if f5 == 2 { 0 } else { *rng.pick(&[5u32, 6, 7]) };
                let mut v = vec![];
                if f5 == 3 && rng.chance(3, 4) {
                    v.push(r_type(0x2f, f3, 2 << 2, 29, T1, 0));
                }
                v.push(r_type(0x2f, f3, f5 << 2, *rng.pick(&[0u32, 30, 31]), T1, rs2));
                out.push(Node::W(v));
            }
            _ => out.push(Node::W(vec![s_type(0x23, f3, T1, r, imm)])),
        }
    }
    /// a host operation requested by the guest
    fn host(&mut self) -> Node {
        use Arg::I;
        let p = flag_page(self.rng, &self.p);
        let rng = &mut *self.rng;
        let dirt = self.mood == Mood::Dirt;
        match rng.below(12) {
            0 | 1 if !dirt => Node::Host(kk::SET_FLAG, vec![I(p), I(*rng.pick(&[2u64, 2, 1, 3, 4]))]),
            2 | 3 if !dirt => Node::Host(kk::CLEAR_FLAG, vec![I(p), I(*rng.pick(&[2u64, 2, 2, 1, 3, 7, 4]))]),
            0 | 1 => Node::Host(kk::CLEAR_DIRTY, vec![]),
            2 | 3 => Node::Host(kk::CLEAR_FLAG, vec![I(p), I(4)]),
            4 | 5 => {
                let n = rng.logscale(9000);
                let a = address(rng, &self.p, n);
                Node::Host(kk::STORE_BYTES, vec![I(a), I(n), I(rng.below(1000))])
            }
            6 => {
                let n = rng.logscale(9000);
                let a = address(rng, &self.p, n);
                Node::Host(kk::FILL, vec![I(a), I(n), I(rng.below(256))])
            }
            7 => {
                let w = 1 << self.widths();
                let a = address(self.rng, &self.p, w);
                Node::Host(kk::STOREW, vec![I(a), I(w), I(self.rng.below(1000))])
            }
            8 => {
                let w = 1 << self.widths();
                let a = address(self.rng, &self.p, w);
                Node::Host(kk::LOADW, vec![I(a), I(w)])
            }
            9 => {
                // which of two reasons refuses a fetch across the end is open
                let a = address(rng, &self.p, 2) & !1;
                Node::Host(kk::FETCH, vec![I(a)])
            }
            10 => {
                let (a, n, f, s, o) = self.init();
                Node::Host(kk::INIT_PAGES, vec![I(a), I(n), I(f as u64), I(s), I(o)])
            }
            _ => Node::Host(kk::DIGEST, vec![I(p * 4096), I(4096)]),
        }
    }
    fn init(&mut self) -> (u64, u64, u8, u64, u64) {
        let rng = &mut *self.rng;
        let hole = self.p.hole;
        let lo = rng.range(hole, hole + 7);
        let n = rng.range(0, hole + 8 - lo);
        let mut a = lo * 4096;
        let mut sz = n * 4096;
        match rng.below(20) {
            0 => a += rng.range(1, 4095),
            1 => sz += rng.range(1, 4095),
            2 => {
                a = self.p.last * 4096;
                sz = 8192
            }
            3 => {
                a = u64::MAX & !0xfff;
                sz = 4096
            }
            _ => (),
        }
        let f = match self.mood {
            Mood::Perm | Mood::Big => *rng.pick(&[0u8, 0, 1, 2, 3, 4]),
            Mood::Dirt => *rng.pick(&[0u8, 0, 0, 4]),
        };
        let src = if rng.chance(1, 4) { 0 } else { rng.logscale(n * 4096 + 100) };
        let off = match rng.below(6) {
            0..=2 => 0,
            3 => sz,
            4 => sz.wrapping_add(1),
            _ => rng.below(sz.max(1)),
        };
        (a, sz, f, src, off)
    }
    fn episode(&mut self, i: usize) -> Func {
        let mut body = vec![];
        let n = self.rng.range(1, 10);
        for _ in 0..n {
            match self.rng.below(10) {
                0 | 1 => body.push(self.host()),
                2 if self.rng.bool() => {
                    // the same page over and over, from both sides
                    let f3 = self.widths();
                    let a = address(self.rng, &self.p, 1 << f3);
                    for _ in 0..self.rng.range(2, 3) {
                        self.access_at(&mut body, a, f3);
                    }
                }
                3 if self.rng.bool() => {
                    let mut inner = vec![];
                    self.access(&mut inner);
                    self.access(&mut inner);
                    body.push(Node::Loop(self.rng.range(2, 4) as u32, inner));
                }
                _ => self.access(&mut body),
            }
        }
        if self.mood != Mood::Dirt && self.rng.chance(1, 5) {
            let s = self.slot_entry();
            body.push(Node::Jump(s));
        }
        body.push(Node::Exit(i as u32));
        let place = match self.rng.below(4) {
            0 => Place::PageEnd(2 * self.rng.range(1, 40)),
            _ => Place::Seq,
        };
        Func { place, body, cret: self.rng.bool() }
    }
    fn slot_entry(&mut self) -> u64 {
        let s = *self.rng.pick(&self.p.slots);
        s * 4096 + *self.rng.pick(&[0u64, 64, 0xffe, 0xffe])
    }
    fn step(&mut self, eps: usize, rv32: bool) -> Step {
        let dirt = self.mood == Mood::Dirt;
        let p = flag_page(self.rng, &self.p);
        let ep = self.rng.range(1, eps as u64 - 1) as usize;
        match self.rng.below(40) {
            0..=12 => Run(ep),
            13 | 14 if !dirt => {
                let s = *self.rng.pick(&self.p.slots);
                SetFlag(s, 2)
            }
            15 if !dirt => {
                let s = *self.rng.pick(&self.p.slots);
                ClearFlag(s, 2)
            }
            16..=18 if !dirt => {
                let a = self.slot_entry();
                Code(a, self.rng.below(100) as u32)
            }
            19..=21 if !dirt => RunAt(self.slot_entry()),
            22 | 23 if !dirt => SetFlag(p, *self.rng.pick(&[2u8, 2, 1, 3, 4])),
            24 | 25 if !dirt => ClearFlag(p, *self.rng.pick(&[2u8, 2, 2, 3, 7, 1, 4])),
            13..=17 => ClearAll,
            18..=21 => ClearDirty(p),
            22 => SetFlag(p, 4),
            26 => {
                let n = self.rng.logscale(9000);
                Store(address(self.rng, &self.p, n), n, self.rng.below(1000))
            }
            27 => {
                let n = self.rng.logscale(9000);
                Fill(address(self.rng, &self.p, n), n, self.rng.next() as u8)
            }
            28 => {
                let w = 1 << self.widths();
                StoreW(address(self.rng, &self.p, w), w, self.rng.next())
            }
            29 => {
                let w = 1 << self.widths();
                LoadW(address(self.rng, &self.p, w), w)
            }
            30 => Fetch16(address(self.rng, &self.p, 2)),
            31 => Fetch32(address(self.rng, &self.p, 4)),
            32 => {
                let n = self.rng.logscale(9000);
                Read(address(self.rng, &self.p, n), n)
            }
            33 | 34 => {
                let (a, n, f, s, o) = self.init();
                Init(a, n, f, s, o)
            }
            35 => Reset,
            36 => Restore(*self.rng.pick(kinds(rv32))),
            37 => Look,
            _ => {
                // jump somewhere that holds no code
                if dirt {
                    Run(ep)
                } else {
                    let q = if self.old_high { 0x3f } else { *self.rng.pick(&self.p.rw[..3]) };
                    RunAt(q * 4096 + *self.rng.pick(&[0u64, 0xffe]))
                }
            }
        }
    }
}

pub fn gen(rng: &mut Rng, mood: Mood) -> Case {
    let mut g = Gen::random(rng);
    g.funcs = 1;
    g.body = 1;
    g.placement = false;
    if mood == Mood::Big {
        let m = 1u64 << 20;
        let sizes = [m, 4 * m, 64 * m + 0x40000, 128 * m, 256 * m - 0x40000, 256 * m, 256 * m + 0x40000, 300 * m, 512 * m, 1024 * m, 2048 * m + 0x40000, 4096 * m - 0x40000, 4096 * m, 4096 * m + 0x40000, 5000 * m, 8192 * m];
        g.mem = *rng.pick(&sizes[..if g.rv32 { 12 } else { 16 }]);
    }
    let mut prog = generate(rng, &g);
    prog.funcs = vec![Func { place: Place::Seq, body: vec![], cret: false }];
    let p = pages(&prog);
    let isa = prog.sel();
    let old_high = prog.version < 2 && prog.mem > 4 << 30;
    let mut b = B { rng, p, isa, mood, old_high };
    let n = b.rng.range(1, 6) as usize;
    for i in 1..=n {
        let f = b.episode(i);
        prog.funcs.push(f);
    }
    let k = b.rng.range(2, 24);
    let mut steps: Vec<Step> = (0..k).map(|_| b.step(n + 1, prog.rv32)).collect();
    if mood == Mood::Big && b.p.last > 66_000 && b.rng.chance(1, 24) {
        let at = b.rng.usize(steps.len() + 1);
        let n = 65_536 - 40 + b.rng.below(100);
        steps.insert(at, Crowd(0x100 + b.rng.below(0x100), n, b.rng.next()));
    }
    if mood == Mood::Big {
        for _ in 0..b.rng.below(4) {
            let at = b.rng.usize(steps.len() + 1);
            let q = any_page(b.rng, &b.p);
            steps.insert(at, Seam(q, b.rng.next()));
        }
        if b.rng.chance(1, 6) {
            let at = b.rng.usize(steps.len() + 1);
            let from = 0x90 + b.rng.below(16);
            let n = b.rng.logscale(600).min(b.p.last - b.p.last / 4 - from);
            steps.insert(at, Crowd(from, n, b.rng.next()));
            if b.rng.bool() {
                let at = at + 1 + b.rng.usize(steps.len() - at);
                steps.insert(at, Reset);
            }
            steps.push(Read(from * 4096, n * 4096));
        }
    }
    if b.rng.chance(1, 2) {
        steps.push(Run(b.rng.range(1, n as u64) as usize));
    }
    let kind = *rng.pick(kinds(prog.rv32));
    Case { prog, kind, persistent: rng.bool(), stepped: rng.chance(1, 10), steps }
}

struct M {
    e: Box<dyn Engine>,
    k: K,
}

fn machine(c: &Case, kind: Kind) -> M {
    let mut cf: Cfg = cfg(&c.prog, kind, Cost::One);
    cf.max_cycles = LIMIT;
    cf.persistent = c.persistent;
    let k = kernel();
    k.lock().unwrap().show_class = true;
    let e = build(&cf, &k, None);
    M { e, k }
}

pub fn go(e: &mut dyn Engine, pc: u64, sp: u64, stepped: bool) -> Result<i8, Error> {
    let core = e.core();
    core.set_pc(pc);
    core.set_reg(2, sp);
    core.set_cyc(0);
    if !stepped {
        return e.run();
    }
    e.set_running(true);
    for _ in 0..LIMIT + 10 {
        if !e.running() {
            return Ok(e.exit_code());
        }
        e.step()?;
    }
    Err(Error::Unexpected("too many steps".into()))
}

/// exits with k: li a0, k; li a7, 93; ecall
fn code_words(k: u32) -> Vec<u8> {
    let mut v = vec![];
    for w in [addi(10, 0, k as i32), addi(17, 0, 93), ECALL] {
        v.extend_from_slice(&w.to_le_bytes());
    }
    v
}

fn jumps(ns: &[Node], out: &mut Vec<u64>) {
    for n in ns {
        match n {
            Node::Jump(a) => out.push(*a),
            Node::Loop(_, b) => jumps(b, out),
            _ => (),
        }
    }
}

pub type R = Result<u64, EC>;
pub fn host(c: &mut dyn Core, s: &Step) -> Option<R> {
    let r: Result<u64, Error> = match s {
        SetFlag(p, f) => c.set_flag(*p, *f).map(|_| 0),
        ClearFlag(p, f) => c.clear_flag(*p, *f).map(|_| 0),
        Store(a, n, s) => c.store_bytes(*a, &bytes_for(*s, *n)).map(|_| 0),
        Code(a, k) => c.store_bytes(*a, &code_words(*k)).map(|_| 0),
        Fill(a, n, v) => c.fill(*a, *n, *v).map(|_| 0),
        StoreW(a, w, v) => c.store(*a, *w, *v).map(|_| 0),
        LoadW(a, w) => c.load(*a, *w),
        Fetch16(a) => c.fetch16(*a).map(|x| x as u64),
        Fetch32(a) => c.fetch32(*a).map(|x| x as u64),
        Read(a, n) => c.load_bytes(*a, *n).map(|b| page_digest(&b)),
        Init(a, n, f, s, o) => {
            let src = if *s == 0 { None } else { Some(Bytes::from(bytes_for(*s, *s))) };
            c.init_pages(*a, *n, *f, src, *o).map(|_| 0)
        }
        ClearDirty(p) => c.clear_flag(*p, 4).map(|_| 0),
        ClearAll => {
            let n = c.size() / 4096;
            (0..n).try_for_each(|p| c.clear_flag(p, 4)).map(|_| 0)
        }
        Crowd(p, n, v) => (*p..p.saturating_add(*n)).try_for_each(|p| c.store(p * 4096 + 8, 8, p.wrapping_mul(v | 1))).map(|_| 0),
        Seam(p, v) => (|| {
            let at = p.wrapping_mul(4096);
            let wide = if *v & 1 == 0 { c.bits() as u64 / 8 } else { 4 };
            if v & 2 == 0 {
                c.store_bytes(at.wrapping_sub(8), &bytes_for(*v, 16))?;
            } else {
                c.store(at.wrapping_sub(1 + v % wide), wide, v.wrapping_mul(0x9e3779b97f4a7c15) >> (64 - 8 * wide))?;
            }
            let mut d = *v;
            let mut w = 2;
            while w <= c.bits() as u64 / 8 {
                for k in 0..=w {
                    d = mix(d ^ c.load(at.wrapping_sub(k), w)?);
                }
                w *= 2;
            }
            Ok(d)
        })(),
        _ => return None,
    };
    Some(r.map_err(|e| ec(&e)))
}

pub fn check(c: &Case, st: &mut Stats, mood: Mood) -> Result<(), Violation> {
    if c.kind.trace() && c.prog.isa & ckb_vm::ISA_MOP != 0 && c.prog.version == 0 {
        return Ok(());
    }
    let g = Guest::new(&c.prog);
    let mut m = machine(c, Kind::Model);
    let mut s = machine(c, c.kind);
    let mut kind = c.kind;
    let load = |x: &mut M| x.e.load(&g.built.elf, &g.args).map_err(|e| ec(&e));
    let (a, b) = (load(&mut m), load(&mut s));
    if a.is_err() && b.is_err() {
        return Ok(());
    }
    if a != b {
        return viol("load", format!("{}: loading gives {:?}, expected {:?}", kind.name(), b, a));
    }
    let pg = pages(&c.prog);
    let mut window: Vec<u64> = pg.rw.iter().chain(&pg.slots).copied().collect();
    window.extend([pg.hole, pg.hole + 6, pg.hole + 7, 0x10, 0x11, pg.last]);
    window.retain(|p| *p <= pg.last);
    let sp = c.prog.mem - 0x10000;
    let trusted = if mood == Mood::Dirt { Dirty::AtLeast } else { Dirty::Ignore };
    let mut cleared = false;
    let mut crowd = false;
    let big = big(&c.prog);
    let mut trace: Vec<String> = vec![];
    let mut sig = 0u64;
    let mut refused = 0u64;
    // how each machine first gets its registers
    let mut steps = vec![Run(0)];
    steps.extend(c.steps.iter().cloned());
    steps.push(Look);
    for (i, step) in steps.iter().enumerate() {
        let who = kind.name();
        let mut ran = false;
        let note: String;
        let (rm, rs): (R, R) = match step {
            Run(_) | RunAt(_) => {
                let (pc, js) = match step {
                    Run(n) if *n < g.built.funcs.len() => {
                        let mut js = vec![];
                        jumps(&c.prog.funcs[*n].body, &mut js);
                        (g.built.funcs[*n] + if *n == 0 { 0 } else { 8 }, js)
                    }
                    RunAt(a) => (*a, vec![*a]),
                    _ => continue,
                };
                let near = |a: &u64| m.e.stale(Some(a >> 12)) || m.e.stale(Some((a + 2) >> 12));
                if js.iter().any(near) {
                    continue;
                }
                ran = true;
                // code that was never meant as code: where in a block it faults
                // is open, that its first fetch is refused is not
                let loose = js.iter().any(|a| {
                    let f = |p: u64, m: &mut M| m.e.core().flag(p).map_or(false, |f| f & 2 != 0);
                    let short = m.e.core().load(*a, 1).map_or(true, |b| b & 3 != 3);
                    f(a >> 12, &mut m) && (short || f((a + 2) >> 12, &mut m))
                });
                let rm = go(m.e.as_mut(), pc, sp, false);
                if m.e.disputed().is_some() || matches!(rm, Err(Error::Unexpected(_))) {
                    return Ok(());
                }
                if m.e.stale(None) {
                    // code decoded earlier and changed since
                    st.probe("stale code reached");
                    return Ok(());
                }
                let rs = go(s.e.as_mut(), pc, sp, c.stepped);
                st.runs += 1;
                if matches!(rm, Err(Error::CyclesExceeded)) {
                    // garbage code that loops: where it stops is another matter
                    if !matches!(rs, Err(Error::CyclesExceeded)) {
                        trace.push(format!("{:?}", step));
                        return Err(Violation { kind: "answer".into(), msg: format!("{}: step {} {:x?} gives {:?}, expected CyclesExceeded", who, i, step, rs), trace });
                    }
                    return Ok(());
                }
                st.units += m.e.core().cyc();
                if loose && rm.is_err() && rs.is_err() {
                    st.probe("loose code faulted");
                    return Ok(());
                }
                let conv = |r: Result<i8, Error>| match r {
                    Ok(x) => Ok(x as u8 as u64),
                    Err(e) => Err(ec(&e)),
                };
                (conv(rm), conv(rs))
            }
            // these would touch all of memory
            Reset if c.prog.mem > 512 << 20 && kind.flat() => continue,
            Reset => {
                let mut f = |x: &mut M| -> R {
                    x.e.core().do_reset(LIMIT).map_err(|e| ec(&e))?;
                    load(x)?;
                    let r = go(x.e.as_mut(), g.built.funcs[0], sp, false);
                    r.map(|x| x as u8 as u64).map_err(|e| ec(&e))
                };
                cleared = false;
                st.fault("reset", 1);
                (f(&mut m), f(&mut s))
            }
            Restore(k2) => {
                if cleared || crowd || c.prog.rv32 && k2.asm() {
                    continue;
                }
                if k2.trace() && c.prog.isa & ckb_vm::ISA_MOP != 0 && c.prog.version == 0 {
                    continue;
                }
                let snap = match s.e.core().snap1() {
                    Ok(x) => x,
                    Err(e) => return viol("snapshot", format!("{}: cannot be saved: {:?}", who, e)),
                };
                let mut n = machine(c, *k2);
                if let Err(e) = n.e.core().resume1(&snap) {
                    return viol("snapshot", format!("{}: refuses a snapshot by {}: {:?}", k2.name(), who, e));
                }
                // protections of never-written pages are the host's to restore
                for p in 0..=pg.last {
                    let f = m.e.core().flag(p).unwrap_or(0);
                    if f & 4 == 0 && f & 3 != 0 {
                        let _ = n.e.core().set_flag(p, f & 3);
                    }
                }
                {
                    let old = s.k.lock().unwrap();
                    let mut new = n.k.lock().unwrap();
                    new.events = old.events.clone();
                    new.calls = old.calls;
                    new.breaks = old.breaks;
                }
                s = n;
                kind = *k2;
                m.e.fresh();
                st.fault("crash and restore", 1);
                (Ok(0), Ok(0))
            }
            Look => (Ok(0), Ok(0)),
            x => {
                match x {
                    Crowd(..) => {
                        crowd = true;
                        st.probe("more than 65000 pages in use");
                    }
                    ClearDirty(_) | ClearAll => {
                        cleared = true;
                        st.fault("dirty marks cleared", 1)
                    }
                    SetFlag(..) => st.fault("protection changed", 1),
                    _ => (),
                }
                if let ClearFlag(_, f) = x {
                    st.fault("protection changed", 1);
                    if f & 4 != 0 {
                        cleared = true;
                    }
                }
                (host(m.e.core(), x).unwrap(), host(s.e.core(), x).unwrap())
            }
        };
        note = format!("{:?}: {:x?}", step, rs);
        trace.push(note);
        let fail = |kind: &str, msg: String| Err(Violation { kind: kind.into(), msg, trace: trace.clone() });
        if rm.is_err() {
            refused += 1;
            st.fault(&format!("refused: {:?}", rm.unwrap_err()), 1);
        }
        let open = match step {
            Fetch16(a) | Fetch32(a) => *a < c.prog.mem && rm == Err(EC::Oob) && rs == Err(EC::Perm),
            _ => false,
        };
        if rm != rs && !open {
            return fail("answer", format!("{}: step {} {:x?} answers {:x?}, expected {:x?}", who, i, step, rs, rm));
        }
        sig = mix(sig ^ match rm {
            Ok(x) => x,
            Err(e) => crate::rng::hash_str(&format!("{:?}", e)),
        });
        if ran {
            // guest-initiated clearing
            if m.k.lock().unwrap().op_counts.iter().any(|(n, _)| *n == kk::CLEAR_DIRTY || *n == kk::CLEAR_FLAG) {
                cleared = true;
            }
            let d = diff_events(&m.k.lock().unwrap().events, &s.k.lock().unwrap().events);
            if let Some(d) = d {
                return fail("history", format!("{}: step {} {:x?}: {}", who, i, step, d));
            }
            let (a, mut b) = (regs_of(m.e.core()), regs_of(s.e.core()));
            if rm.is_err() && c.prog.isa & ckb_vm::ISA_A != 0 {
                // a refused atomic may or may not have set its result register
                // and reservation
                let d: Vec<usize> = (0..32).filter(|r| a[*r] != b[*r]).collect();
                if d.len() == 1 && d[0] != 2 && d[0] >= 5 {
                    s.e.core().set_reg(d[0], a[d[0]]);
                    b[d[0]] = a[d[0]];
                }
                let lr = m.e.core().lr();
                s.e.core().set_lr(lr);
            }
            if let Some(r) = (0..32).find(|r| a[*r] != b[*r]) {
                return fail("registers", format!("{}: step {} {:x?}: x{} is {:#x}, expected {:#x}", who, i, step, r, b[r], a[r]));
            }
            if m.e.core().lr() != s.e.core().lr() {
                return fail("registers", format!("{}: step {} {:x?}: reservation {:#x}, expected {:#x}", who, i, step, s.e.core().lr(), m.e.core().lr()));
            }
            if rm.is_ok() && m.e.core().cyc() != s.e.core().cyc() {
                return fail("cycles", format!("{}: step {} {:x?}: {} cycles, expected {}", who, i, step, s.e.core().cyc(), m.e.core().cyc()));
            }
        }
        // protection and dirty marks of every page, after every step
        let every: &mut dyn Iterator<Item = u64> = if big && i != steps.len() - 1 { &mut window.iter().copied() } else { &mut (0..=pg.last) };
        for p in every {
            let (fm, fs) = (m.e.core().flag(p).unwrap_or(99), s.e.core().flag(p).unwrap_or(98));
            if fm & 3 != fs & 3 {
                return fail("protection", format!("{}: after step {} {:x?} page {:#x} has flags {}, expected {}", who, i, step, p, fs & 3, fm & 3));
            }
            if trusted == Dirty::AtLeast && fm & 4 != 0 && fs & 4 == 0 {
                return fail("dirty", format!("{}: after step {} {:x?} page {:#x} was written but is not marked dirty", who, i, step, p));
            }
            sig = mix(sig ^ (fm as u64) << 3 ^ p);
        }
        if matches!(step, Look) {
            let mut looked = window.clone();
            if big && i == steps.len() - 1 {
                let mut n = 0;
                for p in 0..=pg.last {
                    if m.e.core().flag(p).unwrap_or(0) & 4 == 0 {
                        continue;
                    }
                    n += 1;
                    if n < 500 {
                        looked.push(p);
                    } else {
                        let a = p * 4096 + 8;
                        let (x, y) = (m.e.core().load(a, 8), s.e.core().load(a, 8));
                        if x.as_ref().ok() != y.as_ref().ok() {
                            return fail("content", format!("{}: at the end {:#x} holds {:x?}, expected {:x?}", who, a, y.ok(), x.ok()));
                        }
                    }
                }
            }
            for p in &looked {
                let (a, b) = (m.e.core().load_bytes(p * 4096, 4096), s.e.core().load_bytes(p * 4096, 4096));
                match (a, b) {
                    (Ok(a), Ok(b)) if a == b => sig = mix(sig ^ page_digest(&a)),
                    (Ok(a), Ok(b)) => {
                        let o = (0..4096).find(|i| a[*i] != b[*i]).unwrap();
                        return fail(
                            "content",
                            format!("{}: at step {} byte {:#x} is {:#x}, expected {:#x}", who, i, p * 4096 + o as u64, b[o], a[o]),
                        );
                    }
                    (a, b) => return fail("content", format!("{}: page {:#x} cannot be read: {:?} / {:?}", who, p, a.err(), b.err())),
                }
            }
        }
    }
    let (a, b) = if big { (Ok(None), Ok(None)) } else { (crate::core::state(m.e.core()).map(Some), crate::core::state(s.e.core()).map(Some)) };
    match (a, b) {
        (Ok(None), _) => (),
        (Ok(Some(a)), Ok(Some(b))) => {
            if let Some(d) = a.diff(&b, false, false, trusted) {
                return Err(Violation { kind: "state".into(), msg: format!("{}: at the end: {}", kind.name(), d), trace });
            }
            st.see(b.digest());
        }
        _ => return viol("observe", "memory cannot be read back".into()),
    }
    st.kernel(&s.k);
    st.see(sig);
    st.probe_n("refused operations", refused);
    *st.engines.entry(c.kind.name()).or_default() += 1;
    let did = match mood {
        Mood::Perm => refused > 0,
        Mood::Dirt => cleared,
        Mood::Big => c.steps.len() > 1,
    };
    if big {
        st.probe("memory of more than 64 MiB");
    }
    if c.prog.mem > 4 << 30 {
        st.probe("memory of more than 4 GiB");
    }
    if did {
        st.sig(sig);
    }
    Ok(())
}

pub fn atoms(c: &Case) -> usize {
    c.steps.len() + c.prog.atoms()
}
pub fn without(c: &Case, lo: usize, hi: usize) -> Case {
    let n = c.steps.len();
    let mut d = c.clone();
    d.steps = drop_range(&c.steps, lo, hi);
    if hi > n {
        d.prog = c.prog.without(lo.saturating_sub(n), hi - n);
    }
    d
}
pub fn simpler(c: &Case) -> Vec<Case> {
    let mut v = vec![];
    for p in c.prog.simpler() {
        if p.funcs.len() == c.prog.funcs.len() {
            v.push(Case { prog: p, ..c.clone() });
        }
    }
    if c.stepped {
        v.push(Case { stepped: false, ..c.clone() });
    }
    if c.persistent {
        v.push(Case { persistent: false, ..c.clone() });
    }
    if c.kind.asm() && c.kind != Kind::AsmSimple {
        v.push(Case { kind: Kind::AsmSimple, ..c.clone() });
    }
    v
}
