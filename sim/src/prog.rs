//! Structured guest programs: generation, assembly to an ELF image, shrinking.
//!
//! Programs always terminate: control flow is a tree (counted loops, two-way
//! conditionals, calls to functions with a higher index only).

use crate::isa::*;
use crate::rng::Rng;
use ckb_vm::Bytes;
use serde::{Deserialize, Serialize};

// Register conventions of generated code.
pub const CNT: u32 = 22; // loop counter
pub const T1: u32 = 25; // address temporary
pub const T2: u32 = 26; // second temporary
/// Base registers of the memory regions guests touch.
pub const BASE: [u32; 4] = [18, 19, 20, 21];
pub const R_DATA: usize = 0; // the writable data segment
pub const R_FRESH: usize = 1; // memory no image covers, around a frame edge
pub const R_END: usize = 2; // the last bytes of memory
pub const R_RO: usize = 3; // code / read-only data
/// Registers generated computation may use freely.
pub const POOL: [u32; 22] = [
    3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 23, 24, 27, 28, 29, 30, 31,
];

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Arg {
    I(u64),
    R(u32),
    /// guest address of function n
    F(usize),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Node {
    /// raw instruction words, kept together (one whose upper half is zero and
    /// which is not a 32-bit encoding is emitted as a halfword)
    W(Vec<u32>),
    /// raw compressed instructions
    H(Vec<u16>),
    Li(u32, u64),
    /// load (st=false) or store at a register-dependent address
    Idx { st: bool, f3: u32, r: u32, idx: u32, base: usize, mask: u32, back: bool },
    /// load / store with an absolute address
    Abs { st: bool, f3: u32, r: u32, addr: u64 },
    /// f5 = AMO function (2 = LR, 3 = SC)
    Amo { f3: u32, f5: u32, rd: u32, rs2: u32, base: usize, off: i32 },
    /// LR, `mid`, SC at a possibly different offset
    LrSc { f3: u32, rd: u32, rs2: u32, base: usize, off: i32, off2: i32, mid: Vec<Node> },
    SetBase(usize, u64),
    Call(usize, u32),
    Loop(u32, Vec<Node>),
    If { f3: u32, rs1: u32, rs2: u32, a: Vec<Node>, b: Vec<Node> },
    Host(u64, Vec<Arg>),
    Ebreak,
    Nops(u32),
    /// jump to an absolute address (control does not come back)
    Jump(u64),
    /// jump to the start of a function plus these upper address bits (the
    /// second field links through ra)
    Far(usize, u64, bool),
    /// jump over filler so that what follows starts a new trace
    Skip(u32),
    /// a control transfer spanning exactly `dist` bytes (or the nearest the form
    /// can express), over filler, forwards or backwards; whichever way it goes
    /// shows in `mark`
    Hop { form: u8, f3: u32, r: u32, r2: u32, rd: u32, mark: u32, dist: u32, back: bool, imm: i32 },
    /// jump to an all-zero (illegal) instruction
    Illegal,
    /// exit with this code
    Exit(u32),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Place {
    /// right after the previous function
    Seq,
    /// starting this many bytes before the next page end
    PageEnd(u64),
    /// starting this many bytes before the next 256 KiB frame end
    FrameEnd(u64),
    /// at the next address congruent (mod 32 KiB) to that function's start:
    /// both then compete for one trace-cache slot
    Alias(usize),
    /// ending exactly at a page end
    PageTail,
    /// this many MiB above that function
    Above(usize, u64),
    /// here
    High(u64),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Func {
    pub place: Place,
    pub body: Vec<Node>,
    /// how it returns: jalr, c.jr
    #[serde(default)]
    pub cret: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct DataSeg {
    pub addr: u64,
    pub init: Vec<u8>,
    pub memsz: u64,
    pub write: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Prog {
    pub rv32: bool,
    pub version: u32,
    pub isa: u8,
    pub mem: u64,
    pub text: u64,
    pub bases: [u64; 4],
    pub funcs: Vec<Func>,
    pub data: Vec<DataSeg>,
    pub args: Vec<Vec<u8>>,
    pub regs: Vec<u64>,
}

#[derive(Clone, Debug)]
pub struct Built {
    pub elf: Bytes,
    pub entry: u64,
    pub funcs: Vec<u64>,
    /// address ranges of code bytes
    pub code: Vec<(u64, Vec<u8>)>,
}

enum Fix {
    Local(usize, usize, u32), // position, label, base word: jal or branch patched in
    Far(usize, usize, u32),   // position, function, kind
    FuncAddr(usize, usize, u32), // position of lui+addi pair, function, rd
    LocalAddr(usize, usize, u32, i32), // position of lui+addi pair, label, rd, offset
}

struct Asm {
    b: Vec<u8>,
    labels: Vec<usize>,
    fix: Vec<Fix>,
    rv32: bool,
}

impl Asm {
    fn w(&mut self, x: u32) {
        self.b.extend_from_slice(&x.to_le_bytes());
    }
    fn h(&mut self, x: u16) {
        self.b.extend_from_slice(&x.to_le_bytes());
    }
    fn label(&mut self) -> usize {
        self.labels.push(usize::MAX);
        self.labels.len() - 1
    }
    fn here(&mut self, l: usize) {
        self.labels[l] = self.b.len();
    }
    fn local(&mut self, l: usize, word: u32) {
        self.fix.push(Fix::Local(self.b.len(), l, word));
        self.w(0);
    }
    fn li(&mut self, rd: u32, v: u64) {
        for w in li_words(rd, v, self.rv32) {
            self.w(w);
        }
    }
    fn ld(&self) -> u32 {
        if self.rv32 {
            2
        } else {
            3
        }
    }
    fn nodes(&mut self, ns: &[Node], me: usize, prog: &Prog) {
        for n in ns {
            self.node(n, me, prog);
        }
    }
    fn node(&mut self, n: &Node, me: usize, p: &Prog) {
        match n {
            Node::W(v) => {
                for x in v {
                    if x & 3 != 3 && x >> 16 == 0 {
                        self.h(*x as u16);
                    } else {
                        self.w(*x);
                    }
                }
            }
            Node::H(v) => {
                for x in v {
                    self.h(*x);
                }
            }
            Node::Li(rd, v) => self.li(*rd, *v),
            Node::Idx { st, f3, r, idx, base, mask, back } => {
                self.w(i_type(0x13, 7, T1, *idx, *mask as i32));
                if *back {
                    self.w(r_type(0x33, 0, 0x20, T1, BASE[*base], T1));
                } else {
                    self.w(add(T1, BASE[*base], T1));
                }
                self.mem(*st, *f3, *r, T1, 0);
            }
            Node::Abs { st, f3, r, addr } => {
                self.li(T1, *addr);
                self.mem(*st, *f3, *r, T1, 0);
            }
            Node::Amo { f3, f5, rd, rs2, base, off } => {
                self.w(addi(T1, BASE[*base], *off));
                let rs2 = if *f5 == 2 { 0 } else { *rs2 };
                self.w(r_type(0x2f, *f3, f5 << 2, *rd, T1, rs2));
            }
            Node::LrSc { f3, rd, rs2, base, off, off2, mid } => {
                self.w(addi(T1, BASE[*base], *off));
                self.w(r_type(0x2f, *f3, 2 << 2, *rd, T1, 0));
                self.nodes(mid, me, p);
                self.w(addi(T1, BASE[*base], *off2));
                self.w(r_type(0x2f, *f3, 3 << 2, *rd, T1, *rs2));
            }
            Node::SetBase(i, v) => self.li(BASE[*i], *v),
            Node::Call(f, kind) => {
                if *f > me && *f < p.funcs.len() {
                    self.fix.push(Fix::Far(self.b.len(), *f, *kind));
                    for _ in 0..if p.wide() { WIDE } else { 3 } {
                        self.w(NOP);
                    }
                }
            }
            Node::Loop(n, body) => {
                if *n == 0 {
                    return;
                }
                let f = self.ld();
                self.w(addi(SP, SP, -16));
                self.w(s_type(0x23, f, SP, CNT, 0));
                self.w(addi(CNT, 0, *n as i32));
                let top = self.label();
                self.here(top);
                self.nodes(body, me, p);
                self.w(addi(CNT, CNT, -1));
                self.w(b_type(0, CNT, 0, 8));
                self.local(top, 0x6f);
                self.w(i_type(0x03, f, CNT, SP, 0));
                self.w(addi(SP, SP, 16));
            }
            Node::If { f3, rs1, rs2, a, b } => {
                let (l, e) = (self.label(), self.label());
                self.w(b_type(*f3, *rs1, *rs2, 8));
                self.local(l, 0x6f);
                self.nodes(a, me, p);
                self.local(e, 0x6f);
                self.here(l);
                self.nodes(b, me, p);
                self.here(e);
            }
            Node::Host(nr, args) => {
                // a register argument must be read before it is overwritten
                for (i, x) in args.iter().enumerate() {
                    if let Arg::R(r) = x {
                        let bad = (A0..A0 + i as u32).contains(r);
                        self.w(addi(A0 + i as u32, if bad { 0 } else { *r }, 0));
                    } else if let Arg::F(f) = x {
                        self.fix.push(Fix::FuncAddr(self.b.len(), *f, A0 + i as u32));
                        for _ in 0..if p.wide() { WIDE } else { 2 } {
                            self.w(NOP);
                        }
                    } else if let Arg::I(v) = x {
                        self.li(A0 + i as u32, *v);
                    }
                }
                self.li(A7, *nr);
                self.w(ECALL);
            }
            Node::Ebreak => self.w(EBREAK),
            Node::Nops(k) => {
                for _ in 0..*k {
                    self.w(NOP);
                }
            }
            Node::Jump(a) => {
                self.li(T1, *a);
                self.w(jalr(0, T1, 0));
            }
            Node::Far(f, high, link) => {
                self.fix.push(Fix::FuncAddr(self.b.len(), *f, T1));
                for _ in 0..if p.wide() { WIDE } else { 2 } {
                    self.w(NOP);
                }
                self.li(T2, *high);
                self.w(add(T1, T1, T2));
                self.w(jalr(*link as u32, T1, 0));
            }
            Node::Skip(k) => {
                self.w(jal(0, 4 + 2 * *k as i32));
                for _ in 0..*k {
                    self.h(0);
                }
            }
            Node::Hop { form, f3, r, r2, rd, mark, dist, back, imm } => {
                let (size, max) = hop_span(*form);
                // forward: the transfer, what a branch not taken does, filler
                let min = if *back { 8 } else { size + 8 };
                let d = (*dist).clamp(min, max - !*back as u32 * 2) & !1;
                let d = if *form == 11 { d.div_ceil(4096) * 4096 } else { d };
                let (to, end) = (self.label(), self.label());
                if !*back {
                    self.hop(*form, *f3, *r, *r2, *rd, *imm, to, d as i32);
                    self.w(addi(*mark, *mark, 1));
                    self.local(to, 0x6f);
                    for _ in 0..(d - size - 8) / 2 {
                        self.h(0);
                    }
                    self.here(to);
                } else {
                    let enter = self.label();
                    self.local(enter, 0x6f);
                    self.here(to);
                    self.w(addi(*mark, *mark, 2));
                    self.local(end, 0x6f);
                    // the register forms set their address up first
                    let pre = if (7..11).contains(form) { 8 } else { 0 };
                    for _ in 0..d.saturating_sub(8 + pre) / 2 {
                        self.h(0);
                    }
                    self.here(enter);
                    self.hop(*form, *f3, *r, *r2, *rd, *imm, to, -(d as i32));
                    self.w(addi(*mark, *mark, 1));
                    self.here(end);
                }
            }
            Node::Illegal => {
                self.w(jal(0, 4));
                self.w(0);
            }
            Node::Exit(c) => {
                self.w(addi(A0, 0, *c as i32));
                self.w(addi(A7, 0, 93));
                self.w(ECALL);
            }
        }
    }
    /// A transfer `d` bytes away (register forms: to `to`, wherever that is).
    #[allow(clippy::too_many_arguments)]
    fn hop(&mut self, form: u8, f3: u32, r: u32, r2: u32, rd: u32, imm: i32, to: usize, d: i32) {
        let cj = |d: i32| {
            let i = d as u32;
            let b = |n: u32| i >> n & 1;
            b(11) << 12 | b(4) << 11 | (i >> 8 & 3) << 9 | b(10) << 8 | b(6) << 7 | b(7) << 6 | (i >> 1 & 7) << 3 | b(5) << 2
        };
        let cb = |d: i32| {
            let i = d as u32;
            (i >> 8 & 1) << 12 | (i >> 3 & 3) << 10 | (i >> 6 & 3) << 5 | (i >> 1 & 3) << 3 | (i >> 5 & 1) << 2
        };
        match form {
            0 => self.w(b_type(f3, r, r2, d)),
            1 => self.h((0xc001 | (r & 7) << 7 | cb(d)) as u16),
            2 => self.h((0xe001 | (r & 7) << 7 | cb(d)) as u16),
            3 => self.h((0xa001 | cj(d)) as u16),
            4 => self.h((0x2001 | cj(d)) as u16),
            5 | 6 => self.w(jal(rd, d)),
            11 => {
                self.w(auipc(RA, d as u32));
                self.h((0x9002 | RA << 7) as u16);
            }
            _ => {
                let imm = if form >= 9 { 0 } else { imm };
                self.fix.push(Fix::LocalAddr(self.b.len(), to, T1, imm & !1));
                self.w(NOP);
                self.w(NOP);
                match form {
                    9 => self.h((0x8002 | T1 << 7) as u16),
                    10 => self.h((0x9002 | T1 << 7) as u16),
                    // an odd sum is rounded down
                    _ => self.w(jalr(rd, T1, imm)),
                }
            }
        }
    }
    fn mem(&mut self, st: bool, f3: u32, r: u32, base: u32, off: i32) {
        if st {
            self.w(s_type(0x23, f3 & 3, base, r, off));
        } else {
            self.w(i_type(0x03, f3, r, base, off));
        }
    }
}

/// Bytes a transfer takes and how far it reaches backwards.
fn hop_span(form: u8) -> (u32, u32) {
    match form {
        0 => (4, 4096),
        1 | 2 => (2, 256),
        3 | 4 => (2, 2048),
        5 | 6 => (4, 1 << 20),
        9 | 10 => (10, 1 << 20),
        11 => (6, 1 << 16),
        _ => (12, 1 << 20),
    }
}

/// Words loading an arbitrary constant.
pub fn li_words(rd: u32, v: u64, rv32: bool) -> Vec<u32> {
    fn rec(rd: u32, v: i64, out: &mut Vec<u32>) {
        if (-2048..2048).contains(&v) {
            out.push(addi(rd, 0, v as i32));
        } else if v >= i32::MIN as i64 && v <= i32::MAX as i64 {
            let lo = ((v << 52) >> 52) as i32;
            let hi = (v.wrapping_sub(lo as i64)) as u32;
            out.push(lui(rd, hi));
            // addiw wraps to 32 bits, which also covers hi = 0x80000000
            out.push(addiw(rd, rd, lo));
        } else {
            let lo = (v << 52) >> 52;
            let mut hi = v.wrapping_sub(lo) >> 12;
            let mut sh = 12;
            while hi & 1 == 0 {
                hi >>= 1;
                sh += 1;
            }
            rec(rd, hi, out);
            out.push(slli(rd, rd, sh));
            if lo != 0 {
                out.push(addi(rd, rd, lo as i32));
            }
        }
    }
    let mut out = vec![];
    if rv32 {
        let v = v as u32 as i32;
        if (-2048..2048).contains(&v) {
            out.push(addi(rd, 0, v));
        } else {
            let lo = (v << 20) >> 20;
            out.push(lui(rd, v.wrapping_sub(lo) as u32));
            out.push(addi(rd, rd, lo));
        }
    } else {
        rec(rd, v as i64, &mut out);
    }
    out
}

/// The compressed form of an instruction, if it has one.
fn compress(w: u32, rv64: bool) -> Option<u16> {
    let (op, rd, f3, rs1, rs2, f7) =
        (w & 0x7f, w >> 7 & 31, w >> 12 & 7, w >> 15 & 31, w >> 20 & 31, w >> 25);
    let imm = (w as i32) >> 20;
    let i6 = |v: i32| (v as u32 & 31) << 2 | (v as u32 >> 5 & 1) << 12;
    let small = (-32..32).contains(&imm);
    let c = |r: u32| (8..16).contains(&r);
    let cc = |x: u32| x | (rd & 7) << 7 | (rs2 & 7) << 2;
    Some(match (op, f3, f7) {
        (0x33, 0, 0) if rd == rs1 && rd != 0 && rs2 != 0 => 0x9002 | rd << 7 | rs2 << 2,
        (0x33, 0, 0) if rd == rs2 && rd != 0 && rs1 != 0 => 0x9002 | rd << 7 | rs1 << 2,
        (0x33, 0, 0x20) if rd == rs1 && c(rd) && c(rs2) => cc(0x8c01),
        (0x33, 4, 0) if rd == rs1 && c(rd) && c(rs2) => cc(0x8c21),
        (0x33, 6, 0) if rd == rs1 && c(rd) && c(rs2) => cc(0x8c41),
        (0x33, 7, 0) if rd == rs1 && c(rd) && c(rs2) => cc(0x8c61),
        (0x13, 0, _) if rd == rs1 && rd != 0 && small && imm != 0 => 0x0001 | rd << 7 | i6(imm),
        (0x13, 0, _) if w == NOP => 0x0001,
        (0x1b, 0, _) if rv64 && rd == rs1 && rd != 0 && small => 0x2001 | rd << 7 | i6(imm),
        (0x37, ..) if rd != 0 && rd != 2 && w >> 12 != 0 && (-32..32).contains(&((w as i32) >> 12)) => {
            0x6001 | rd << 7 | i6((w as i32) >> 12)
        }
        _ => return None,
    } as u16)
}

fn addi16sp(v: i32) -> u16 {
    let i = v as u32;
    let b = |n: u32| i >> n & 1;
    (0x6101 | b(9) << 12 | b(4) << 6 | b(6) << 5 | (i >> 7 & 3) << 3 | b(5) << 2) as u16
}

fn hi_lo(d: i64) -> (u32, i32) {
    let lo = ((d << 52) >> 52) as i32;
    ((d - lo as i64) as u32, lo)
}

impl Prog {
    pub fn xlen(&self) -> u32 {
        if self.rv32 {
            32
        } else {
            64
        }
    }
    pub fn sel(&self) -> IsaSel {
        IsaSel {
            rv32: self.rv32,
            b: self.isa & ckb_vm::ISA_B != 0,
            a: self.isa & ckb_vm::ISA_A != 0,
            mop: self.isa & ckb_vm::ISA_MOP != 0,
            version: self.version,
        }
    }
    pub fn arg_bytes(&self) -> Vec<Bytes> {
        self.args.iter().map(|a| Bytes::from(a.clone())).collect()
    }

    pub fn build(&self) -> Built {
        // assemble
        let mut parts: Vec<Asm> = vec![];
        for (i, f) in self.funcs.iter().enumerate() {
            let mut a =
                Asm { b: vec![], labels: vec![], fix: vec![], rv32: self.rv32 };
            let ld = a.ld();
            if i == 0 {
                // a guest-visible stack clear of the end of memory
                a.li(T1, 8192);
                a.w(r_type(0x33, 0, 0x20, SP, SP, T1));
                for (j, v) in self.bases.iter().enumerate() {
                    a.li(BASE[j], *v);
                }
                for (j, v) in self.regs.iter().enumerate() {
                    a.li(POOL[j % POOL.len()], *v);
                }
            } else {
                a.w(addi(SP, SP, -16));
                a.w(s_type(0x23, ld, SP, RA, 0));
            }
            a.nodes(&f.body, i, self);
            if i == 0 {
                // exit code: a digest of a few registers
                a.w(r_type(0x33, 4, 0, A0, A0, 5));
                a.w(r_type(0x33, 0, 0, A0, A0, 9));
                a.li(A7, 93);
                a.w(ECALL);
            } else {
                a.w(i_type(0x03, ld, RA, SP, 0));
                a.w(addi(SP, SP, 16));
                if f.cret {
                    a.h(0x8082);
                } else {
                    a.w(jalr(0, RA, 0));
                }
            }
            parts.push(a);
        }
        // place
        let mut at = self.text;
        let mut addr: Vec<u64> = vec![];
        let mut highs: Vec<(u64, u64)> = vec![];
        for (i, f) in self.funcs.iter().enumerate() {
            let len = parts[i].b.len() as u64;
            let want = match f.place {
                Place::Seq => at,
                Place::PageEnd(k) => (at + k).div_ceil(4096) * 4096 - k.min(at),
                Place::FrameEnd(k) => (at + k).div_ceil(1 << 18) * (1 << 18) - k.min(at),
                Place::Alias(j) if j < i && addr[j] <= at => {
                    let a = addr[j];
                    a + (at - a).div_ceil(32768) * 32768
                }
                Place::Alias(_) => at,
                Place::PageTail => (at + len).div_ceil(4096) * 4096 - len,
                Place::Above(j, k) if j < i => {
                    let a = addr[j] + (k << 20);
                    let clear = |x: u64| (0x4000..0x3c000).contains(&(x % 0x40000));
                    let free = highs.iter().all(|(x, l)| a >= x + l + 0x4000 || a + len + 0x4000 <= *x);
                    // clear of the memory programs use as data
                    if clear(a) && clear(a + len) && len < 0x10000 && a + len < self.mem - self.mem / 4 && free {
                        highs.push((a, len));
                        addr.push(a);
                        continue;
                    }
                    at
                }
                Place::High(a) => {
                    let free = highs.iter().all(|(x, l)| a >= x + l + 0x4000 || a + len + 0x4000 <= *x);
                    if self.wide() && len < 0x10000 && a > 1 << 30 && a + len < self.mem - self.mem / 4 && free {
                        highs.push((a, len));
                        addr.push(a);
                        continue;
                    }
                    at
                }
                Place::Above(..) => at,
            };
            // never leave the room set aside for code
            let want = if want < at || want + len > self.code_limit() { at } else { want };
            addr.push(want);
            at = (want + len + 3) & !3;
        }
        // patch
        for (i, a) in parts.iter_mut().enumerate() {
            let here = addr[i];
            for f in &a.fix {
                let (pos, words) = match f {
                    Fix::Local(pos, l, _) => {
                        let d = a.labels[*l] as i64 - *pos as i64;
                        (*pos, vec![jal(0, d as i32)])
                    }
                    Fix::LocalAddr(pos, l, rd, off) => {
                        let t = here as i64 + a.labels[*l] as i64 - *off as i64;
                        if self.wide() {
                            let (hi, lo) = hi_lo(t - (here + *pos as u64) as i64);
                            (*pos, vec![auipc(*rd, hi), addi(*rd, *rd, lo)])
                        } else {
                            let (hi, lo) = hi_lo(t);
                            (*pos, vec![lui(*rd, hi), addi(*rd, *rd, lo)])
                        }
                    }
                    Fix::FuncAddr(pos, f, rd) if self.wide() => {
                        let mut w = li_words(*rd, *addr.get(*f).unwrap_or(&addr[0]), false);
                        assert!(w.len() <= WIDE);
                        w.resize(WIDE, NOP);
                        (*pos, w)
                    }
                    Fix::FuncAddr(pos, f, rd) => {
                        let (hi, lo) = hi_lo(*addr.get(*f).unwrap_or(&addr[0]) as i64);
                        (*pos, vec![lui(*rd, hi), addi(*rd, *rd, lo)])
                    }
                    Fix::Far(pos, f, kind) => {
                        let t = addr[*f];
                        let pc = here + *pos as u64;
                        let d = t as i64 - pc as i64;
                        let (hi, lo) = hi_lo(d);
                        // version 0 computes a jalr target after writing the
                        // link register: rd and rs1 must differ there
                        let kind = if self.version == 0 && (*kind == 0 || *kind > 3) {
                            &2
                        } else {
                            kind
                        };
                        let near = |x: i64| x.abs() < (1 << 31) - 4096;
                        let w = match kind {
                            0 if !near(d) => far_call(t),
                            // which leads to 2^64 - 2^31 and above on RV64
                            4 if t < 1 << 31 && hi_lo(t as i64).0 == 1 << 31 => {
                                vec![lui(RA, 1 << 31), jalr(RA, RA, lo_of(t)), NOP]
                            }
                            2..=5 if !near(t as i64) => far_call(t),
                            0 => vec![auipc(RA, hi), jalr(RA, RA, lo), NOP],
                            1 if d.abs() < (1 << 20) - 64 => vec![jal(RA, d as i32), NOP, NOP],
                            2 => {
                                let (h, l) = hi_lo(t as i64);
                                vec![lui(T1, h), addi(T1, T1, l), jalr(RA, T1, 0)]
                            }
                            3 => {
                                let (h, l) = hi_lo(t as i64);
                                // c.jalr x25; c.nop
                                vec![
                                    lui(T1, h),
                                    addi(T1, T1, l),
                                    0x9002 | (T1 << 7) | (0x0001 << 16),
                                ]
                            }
                            5 if (1..32).contains(&(hi_lo(t as i64).0 >> 12)) => {
                                // c.lui ra; jalr ra; c.nop ...
                                let (h, l) = hi_lo(t as i64);
                                let c = 0x6001 | RA << 7 | (h >> 12) << 2;
                                let j = jalr(RA, RA, l);
                                vec![c | j << 16, j >> 16 | 1 << 16, 0x0001_0001]
                            }
                            4 | 5 => {
                                let (h, l) = hi_lo(t as i64);
                                vec![lui(RA, h), jalr(RA, RA, l), NOP]
                            }
                            _ if !near(d) => far_call(t),
                            _ if self.version == 0 => {
                                let (h, l) = hi_lo(t as i64);
                                vec![lui(T1, h), addi(T1, T1, l), jalr(RA, T1, 0)]
                            }
                            _ => vec![auipc(RA, hi), jalr(RA, RA, lo), NOP],
                        };
                        (*pos, w)
                    }
                };
                for (k, w) in words.iter().enumerate() {
                    a.b[pos + 4 * k..pos + 4 * k + 4].copy_from_slice(&w.to_le_bytes());
                }
            }
        }
        let code: Vec<(u64, Vec<u8>)> =
            addr.iter().zip(parts.into_iter()).map(|(a, p)| (*a, p.b)).collect();
        let mut sorted: Vec<&(u64, Vec<u8>)> = code.iter().collect();
        sorted.sort_by_key(|x| x.0);
        // group into executable segments
        let mut segs: Vec<(u64, Vec<u8>)> = vec![];
        for (a, b) in sorted {
            match segs.last_mut() {
                Some((sa, sb)) if *a < *sa + sb.len() as u64 + 8192 => {
                    sb.resize((*a - *sa) as usize, 0);
                    sb.extend_from_slice(b);
                }
                _ => segs.push((*a / 4096 * 4096, {
                    let mut v = vec![0; (*a % 4096) as usize];
                    v.extend_from_slice(b);
                    v
                })),
            }
        }
        let mut ph: Vec<(u32, u64, u64, &[u8])> = vec![];
        for (a, b) in &segs {
            ph.push((5, *a, b.len() as u64, b));
        }
        for d in &self.data {
            ph.push((if d.write { 6 } else { 4 }, d.addr, d.memsz, &d.init));
        }
        let elf = make_elf(self.rv32, addr[0], &ph);
        Built { elf: Bytes::from(elf), entry: addr[0], funcs: addr, code }
    }

    /// Code may lie more than 2 GiB away.
    pub fn wide(&self) -> bool {
        self.mem > 1 << 31
    }

    /// First address code may not reach.
    pub fn code_limit(&self) -> u64 {
        self.bases[R_DATA] & !0xffff
    }
}

/// (flags, vaddr, memsz, file bytes)
pub fn make_elf(rv32: bool, entry: u64, segs: &[(u32, u64, u64, &[u8])]) -> Vec<u8> {
    let mut v: Vec<u8> = vec![];
    let (eh, phs) = if rv32 { (52u64, 32u64) } else { (64, 56) };
    v.extend_from_slice(b"\x7fELF");
    v.push(if rv32 { 1 } else { 2 });
    v.extend_from_slice(&[1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0]);
    v[7] = 0;
    v.truncate(16);
    let w = |v: &mut Vec<u8>, x: u64, n: usize| v.extend_from_slice(&x.to_le_bytes()[..n]);
    let word = if rv32 { 4 } else { 8 };
    w(&mut v, 2, 2);
    w(&mut v, 243, 2);
    w(&mut v, 1, 4);
    w(&mut v, entry, word);
    w(&mut v, eh, word);
    w(&mut v, 0, word);
    w(&mut v, 0, 4);
    w(&mut v, eh, 2);
    w(&mut v, phs, 2);
    w(&mut v, segs.len() as u64, 2);
    w(&mut v, if rv32 { 40 } else { 64 }, 2);
    w(&mut v, 0, 2);
    w(&mut v, 0, 2);
    let mut off = eh + phs * segs.len() as u64;
    let mut offs = vec![];
    for s in segs {
        // keep offset congruent to the address, as linkers do
        off = off.div_ceil(4096) * 4096 + s.1 % 4096;
        offs.push(off);
        off += s.3.len() as u64;
    }
    for (s, o) in segs.iter().zip(&offs) {
        if rv32 {
            for x in [1, *o, s.1, s.1, s.3.len() as u64, s.2, s.0 as u64, 4096] {
                w(&mut v, x, 4);
            }
        } else {
            w(&mut v, 1, 4);
            w(&mut v, s.0 as u64, 4);
            for x in [*o, s.1, s.1, s.3.len() as u64, s.2, 4096] {
                w(&mut v, x, 8);
            }
        }
    }
    for (s, o) in segs.iter().zip(&offs) {
        v.resize(*o as usize, 0);
        v.extend_from_slice(s.3);
    }
    v
}

// ---------------------------------------------------------------- generation

#[derive(Clone, Debug)]
pub struct Gen {
    pub rv32: bool,
    pub version: u32,
    pub isa: u8,
    pub mem: u64,
    pub funcs: usize,
    pub body: usize,
    /// (weight, kind) of host calls
    pub host: Vec<(u64, HostGen)>,
    /// out of 100 nodes, how many are host calls
    pub host_rate: u64,
    pub budget: u64,
    pub atomics: bool,
    pub loads: bool,
    pub placement: bool,
    pub straight: bool,
    /// out of 100 nodes, how many are sequences the decoder may fuse
    pub fuse: u64,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum HostGen {
    Log,
    Yield,
    StoreBytes,
    Fill,
    Digest,
    LoadW,
    StoreW,
    SetDirty,
    ClearDirty,
    InitPages,
    AddCycles,
    Cycles,
    Interrupt,
    SetRegs,
    Stop,
    SetFlag,
    ClearFlag,
    Ebreak,
    Store2,
    ReadPage,
    LimitUp,
}

pub const VERSIONS: [u32; 3] = [0, 1, 2];

impl Gen {
    pub fn random(rng: &mut Rng) -> Gen {
        let rv32 = rng.chance(1, 8);
        let version = *rng.pick(&[0u32, 1, 1, 2, 2, 2]);
        let mut isa = ckb_vm::ISA_IMC;
        if rng.chance(3, 4) {
            isa |= ckb_vm::ISA_A;
        }
        if !rv32 && rng.chance(3, 4) {
            isa |= ckb_vm::ISA_B;
        }
        if version > 0 && rng.chance(2, 3) {
            isa |= ckb_vm::ISA_MOP;
        }
        Gen {
            rv32,
            version,
            isa,
            fuse: if isa & ckb_vm::ISA_MOP != 0 && rng.chance(2, 5) { rng.range(10, 60) } else { 0 },
            mem: match rng.below(16) {
                0 => 4 << 20,
                1..=3 => 2 << 20,
                _ => 1 << 20,
            },
            funcs: rng.range(1, 4) as usize,
            body: rng.range(4, 24) as usize,
            host: vec![
                (4, HostGen::Log),
                (2, HostGen::StoreBytes),
                (1, HostGen::Fill),
                (2, HostGen::Digest),
                (2, HostGen::LoadW),
                (2, HostGen::StoreW),
                (1, HostGen::AddCycles),
                (1, HostGen::Cycles),
                (1, HostGen::SetRegs),
                (1, HostGen::Ebreak),
            ],
            host_rate: 8,
            budget: 6000,
            atomics: isa & ckb_vm::ISA_A != 0,
            loads: true,
            placement: true,
            straight: true,
        }
    }
}

pub struct G<'a> {
    pub c: &'a Gen,
    pub rng: &'a mut Rng,
    pub nfun: usize,
    pub bases: [u64; 4],
    pub alts: [Vec<u64>; 4],
}

fn pool(rng: &mut Rng) -> u32 {
    *rng.pick(&POOL)
}
/// source: mostly the pool, sometimes zero, sp or a base
fn src(rng: &mut Rng) -> u32 {
    match rng.below(12) {
        0 => 0,
        1 => *rng.pick(&[2, 18, 19, 20, 21, 22]),
        _ => pool(rng),
    }
}
/// destination: the pool, sometimes x0
fn dst(rng: &mut Rng) -> u32 {
    if rng.chance(1, 24) {
        0
    } else {
        pool(rng)
    }
}
fn comp(rng: &mut Rng) -> u32 {
    rng.range(8, 15) as u32
}

impl<'a> G<'a> {
    fn isa(&self) -> IsaSel {
        IsaSel {
            rv32: self.c.rv32,
            b: self.c.isa & ckb_vm::ISA_B != 0,
            a: self.c.isa & ckb_vm::ISA_A != 0,
            mop: self.c.isa & ckb_vm::ISA_MOP != 0,
            version: self.c.version,
        }
    }
    /// An offset valid in region `r` for an access of `w` bytes.
    pub fn off(&mut self, r: usize, w: i64) -> i32 {
        let (lo, hi) = match r {
            R_END => (-2048, 2048 - w - (self.c.version == 0) as i64),
            R_RO => (0, 2040),
            _ => (-2048, 2047),
        };
        let o = match self.rng.below(8) {
            0 => 0,
            1 => -w / 2,                                    // straddles the base
            2 => hi,                                        // the last valid one
            3 => lo,
            4 => (self.rng.below(16) as i64 - 8).clamp(lo, hi),
            5 => lo + self.rng.below((hi - lo + 1) as u64) as i64, // unaligned
            _ => (lo + self.rng.below((hi - lo + 1) as u64) as i64) & !(w - 1),
        };
        o.clamp(lo, hi) as i32
    }
    fn f3_load(&mut self) -> u32 {
        if self.c.rv32 {
            *self.rng.pick(&[0, 1, 2, 4, 5])
        } else {
            *self.rng.pick(&[0, 1, 2, 3, 3, 4, 5, 6])
        }
    }
    fn f3_store(&mut self) -> u32 {
        if self.c.rv32 {
            *self.rng.pick(&[0, 1, 2])
        } else {
            *self.rng.pick(&[0, 1, 2, 3, 3])
        }
    }
    pub fn host(&mut self) -> Node {
        let total: u64 = self.c.host.iter().map(|x| x.0).sum();
        let mut k = self.rng.below(total);
        let mut kind = self.c.host[0].1;
        for (w, h) in &self.c.host {
            if k < *w {
                kind = *h;
                break;
            }
            k -= w;
        }
        self.host_kind(kind)
    }
    /// A guest address and length for a host operation that writes.
    pub fn span(&mut self, max: u64) -> (u64, u64) {
        let r = *self.rng.pick(&[R_DATA, R_FRESH, R_FRESH, R_END]);
        let len = match self.rng.below(6) {
            0 => 0,
            1 => 4096,
            2 => self.rng.range(1, 16),
            _ => self.rng.range(1, max),
        };
        let base = *self.rng.pick(&self.alts[r]);
        let addr = match r {
            R_END => self.c.mem - len.max(1) - self.rng.below(64),
            _ => {
                if self.rng.chance(1, 3) {
                    base / 4096 * 4096
                } else {
                    base - 2048 + self.rng.below(4096)
                }
            }
        };
        (addr, len)
    }
    pub fn host_kind(&mut self, kind: HostGen) -> Node {
        use crate::kernel as k;
        use Arg::*;
        let rng = &mut *self.rng;
        match kind {
            HostGen::Log => {
                let n = rng.below(5);
                let a = (0..n).map(|_| R(*rng.pick(&[5, 6, 7, 9, 23, 24, 27, 28, 29, 30, 31]))).collect();
                let nr = if !self.c.rv32 && self.rng.chance(1, 6) {
                    let b = *self.rng.pick(&[32u64, 33, 47, 63]);
                    *self.rng.pick(&[93, 93, 0, k::LOG, k::YIELD, k::CYCLES, k::STOREW]) | 1 << b
                } else {
                    k::LOG
                };
                Node::Host(nr, a)
            }
            HostGen::Yield => Node::Host(k::YIELD, vec![]),
            HostGen::StoreBytes => {
                let (a, l) = self.span(6000);
                Node::Host(k::STORE_BYTES, vec![I(a), I(l), I(self.rng.next() & 0xffff)])
            }
            HostGen::Fill => {
                let (a, l) = self.span(6000);
                Node::Host(k::FILL, vec![I(a), I(l), I(self.rng.next() & 0xff)])
            }
            HostGen::Digest => {
                let (a, l) = self.span(8000);
                Node::Host(k::DIGEST, vec![I(a), I(l)])
            }
            HostGen::LoadW => {
                let w = 1u64 << self.rng.below(if self.c.rv32 { 3 } else { 4 });
                let r = self.rng.usize(3);
                let o = self.off(r, w as i64);
                let b = *self.rng.pick(&self.alts[r]);
                Node::Host(k::LOADW, vec![I(b.wrapping_add(o as i64 as u64)), I(w)])
            }
            HostGen::StoreW => {
                let w = 1u64 << self.rng.below(if self.c.rv32 { 3 } else { 4 });
                let r = self.rng.usize(3);
                let o = self.off(r, w as i64);
                let b = *self.rng.pick(&self.alts[r]);
                Node::Host(k::STOREW, vec![I(b.wrapping_add(o as i64 as u64)), I(w), R(5)])
            }
            HostGen::SetDirty => {
                let (a, _) = self.span(16);
                Node::Host(k::SET_FLAG, vec![I(a >> 12), I(4)])
            }
            HostGen::ClearDirty => {
                let (a, _) = self.span(16);
                if self.rng.bool() {
                    Node::Host(k::CLEAR_FLAG, vec![I(a >> 12), I(4)])
                } else {
                    Node::Host(k::CLEAR_DIRTY, vec![])
                }
            }
            HostGen::SetFlag => {
                let (a, _) = self.span(16);
                let f = *self.rng.pick(&[1u64, 2, 3, 4]);
                Node::Host(k::SET_FLAG, vec![I(a >> 12), I(f)])
            }
            HostGen::ClearFlag => {
                let (a, _) = self.span(16);
                let f = *self.rng.pick(&[1u64, 2, 3, 6]);
                Node::Host(k::CLEAR_FLAG, vec![I(a >> 12), I(f)])
            }
            HostGen::InitPages => {
                let (a, _) = self.span(16);
                let size = 4096 * self.rng.below(3);
                let fl = *self.rng.pick(&[0u64, 0, 1]);
                let src = self.rng.below(size + 100);
                let off = self.rng.below(size + 1);
                Node::Host(
                    k::INIT_PAGES,
                    vec![I(a & !4095), I(size), I(fl), I(src), I(off)],
                )
            }
            HostGen::AddCycles => Node::Host(k::ADD_CYCLES, vec![I(self.rng.logscale(500))]),
            HostGen::Cycles => Node::Host(k::CYCLES, vec![]),
            HostGen::Interrupt => Node::Host(k::INTERRUPT, vec![]),
            HostGen::SetRegs => Node::Host(k::SET_REGS, vec![R(5), I(self.rng.next() & 0xffff)]),
            HostGen::Ebreak if self.rng.bool() => Node::H(vec![0x9002]),
            HostGen::Ebreak => Node::Ebreak,
            HostGen::Store2 => {
                let r = *self.rng.pick(&[R_DATA, R_FRESH, R_FRESH]);
                let a = *self.rng.pick(&self.alts[r]) - 2048 + self.rng.below(4096);
                let off = if self.rng.bool() { self.rng.below(5000) } else { 4096 * self.rng.below(2) };
                let l = *self.rng.pick(&[0u64, 100, 4096, 5000, 8192, 12288, 20000]);
                let (a, off) = match self.rng.below(6) {
                    0..=2 => (a, off),
                    3 => (a & !4095, off),
                    // neighbours from different places at offsets that continue
                    _ => {
                        let a = (a & !4095) + 4096 * self.rng.below(4);
                        (a, a & 0x3000)
                    }
                };
                Node::Host(
                    k::SNAP2_STORE,
                    vec![I(a), I(self.rng.below(3)), I(off), I(l), I(self.bases[R_DATA])],
                )
            }
            HostGen::ReadPage => {
                let (a, _) = self.span(16);
                Node::Host(k::DIGEST, vec![I(a & !4095), I(4096)])
            }
            HostGen::Stop => Node::Host(k::STOP, vec![]),
            HostGen::LimitUp => Node::Host(k::LIMIT_UP, vec![I(self.rng.logscale(3000))]),
        }
    }
    pub fn mem_node(&mut self) -> Node {
        let st = self.rng.bool();
        let f3 = if st { self.f3_store() } else { self.f3_load() };
        let w = 1i64 << (f3 & 3);
        let r = if st { self.rng.usize(3) } else { self.rng.usize(4) };
        match self.rng.below(6) {
            0 => {
                // register-dependent
                let (mask, back) = match r {
                    R_END => (2047 - 8, true),
                    R_RO => (2040, false),
                    _ => (2047, self.rng.bool()),
                };
                let idx = src(self.rng);
                let rd = if st { src(self.rng) } else { dst(self.rng) };
                Node::Idx { st, f3, r: rd, idx, base: r, mask: mask as u32, back }
            }
            1 => {
                // stack slot through compressed forms, in a scratch window below
                // the caller's frame so saved registers are never overwritten
                let wide = !self.c.rv32 && self.rng.bool();
                let n = if wide { 8 } else { 4 };
                let off = n * match self.rng.below(3) {
                    0 => self.rng.below(8),
                    1 => 1 << self.rng.below(6),
                    _ => self.rng.below(64),
                } as u32;
                let h = match (wide, st) {
                    (true, true) => 0xe002 | ((off >> 3) & 7) << 10 | ((off >> 6) & 7) << 7 | src(self.rng) << 2,
                    (true, false) => {
                        0x6002 | ((off >> 5) & 1) << 12 | ((off >> 3) & 3) << 5 | ((off >> 6) & 7) << 2 | pool(self.rng) << 7
                    }
                    (false, true) => 0xc002 | ((off >> 2) & 0xf) << 9 | ((off >> 6) & 3) << 7 | src(self.rng) << 2,
                    (false, false) => {
                        0x4002 | ((off >> 5) & 1) << 12 | ((off >> 2) & 7) << 4 | ((off >> 6) & 3) << 2 | pool(self.rng) << 7
                    }
                };
                if self.rng.bool() {
                    let k = 16 * self.rng.range(1, 31) as i32;
                    let keep = pool(self.rng) as u16;
                    // c.mv keep, sp: the intermediate values show
                    Node::H(vec![
                        addi16sp(-512),
                        h as u16,
                        addi16sp(k),
                        0x8002 | keep << 7 | 2 << 2,
                        addi16sp(512 - k),
                    ])
                } else {
                    Node::W(vec![addi(SP, SP, -512), h & 0xffff | 0x0001 << 16, addi(SP, SP, 512)])
                }
            }
            2 => {
                // compressed register-relative, through a compact base copy
                let rc = comp(self.rng);
                let rd = comp(self.rng);
                let off = 8 * match self.rng.below(3) {
                    0 => self.rng.below(8),
                    1 => 1 << self.rng.below(5),
                    _ => self.rng.below(32),
                } as u32;
                let rv64 = !self.c.rv32 && self.rng.bool();
                let (st_op, ld_op) = if rv64 { (0xe000u32, 0x6000u32) } else { (0xc000, 0x4000) };
                let off = if rv64 { off } else { off / 2 };
                let enc = if rv64 {
                    ((off >> 3) & 7) << 10 | ((off >> 6) & 3) << 5
                } else {
                    ((off >> 3) & 7) << 10 | ((off >> 2) & 1) << 6 | ((off >> 6) & 1) << 5
                };
                let h = (if st { st_op } else { ld_op }) | enc | (rc - 8) << 7 | (rd - 8) << 2;
                let adj = if r == R_END { -300 } else { self.off(r, 64).min(1780) };
                Node::W(vec![addi(rc, BASE[r], adj), h | 0x0001 << 16])
            }
            _ => {
                let off = self.off(r, w);
                if st {
                    Node::W(vec![s_type(0x23, f3, BASE[r], src(self.rng), off)])
                } else {
                    let rd = dst(self.rng);
                    Node::W(vec![i_type(0x03, f3, rd, BASE[r], off)])
                }
            }
        }
    }
    pub fn amo(&mut self) -> Node {
        let f3 = if self.c.rv32 { 2 } else { *self.rng.pick(&[2u32, 3]) };
        let w = 1 << f3;
        let base = self.rng.usize(3);
        let off = self.off(base, w);
        let rd = dst(self.rng);
        let rs2 = src(self.rng);
        if self.rng.chance(1, 3) {
            let off2 = match self.rng.below(3) {
                0 => self.off(base, w),
                _ => off,
            };
            let mid = if self.rng.chance(1, 2) { vec![self.leaf()] } else { vec![] };
            Node::LrSc { f3, rd, rs2, base, off, off2, mid }
        } else {
            let f5 = *self.rng.pick(&[1u32, 0, 4, 12, 8, 16, 20, 24, 28, 2, 3]);
            Node::Amo { f3, f5, rd, rs2, base, off }
        }
    }
    /// Instruction sequences the decoder may fuse, and near misses.
    pub fn mop(&mut self) -> Node {
        let rng = &mut *self.rng;
        let mut rs: Vec<u32> = vec![];
        while rs.len() < 5 {
            let r = pool(rng);
            if !rs.contains(&r) {
                rs.push(r);
            }
        }
        // near miss: registers may coincide
        if rng.chance(2, 5) {
            let (i, j) = (rng.usize(5), rng.range(1, 4) as usize);
            rs[i] = rs[(i + j) % 5];
        }
        let (a, b, c, d, e) = (rs[0], rs[1], rs[2], rs[3], rs[4]);
        let add = |x, y, z| r_type(0x33, 0, 0, x, y, z);
        let sub = |x, y, z| r_type(0x33, 0, 0x20, x, y, z);
        let sltu = |x, y, z| r_type(0x33, 3, 0, x, y, z);
        let or = |x, y, z| r_type(0x33, 6, 0, x, y, z);
        let m = |f3, x, y, z| r_type(0x33, f3, 1, x, y, z);
        let which = rng.below(14);
        let mut v = match which {
            0 => vec![add(a, a, b), sltu(b, a, b), add(a, a, c), sltu(c, a, c), or(b, b, c)],
            // the borrow chain, always with the true comparison operands (see
            // known-findings: the fusion rule does not check one of them)
            1 => vec![sub(b, a, b), sltu(d, a, b), sub(a, b, c), sltu(c, b, a), or(b, c, d)],
            2 => vec![add(a, b, a), sltu(c, a, b), add(d, c, e)],
            3 => vec![add(a, b, c), sltu(b, a, b), add(d, b, e)],
            4 => vec![add(a, b, c), sltu(d, a, b), add(d, d, e)],
            5 => vec![add(a, b, c), sltu(d, a, b)],
            6 => vec![add(a, a, b), sltu(d, a, b)],
            7 => vec![sub(a, b, c), sltu(d, b, c)],
            8 => {
                let f = *rng.pick(&[1u32, 2, 3]);
                vec![m(f, a, b, c), m(0, d, b, c)]
            }
            9 => {
                let (f, g) = *rng.pick(&[(4u32, 6u32), (5, 7)]);
                vec![m(f, a, b, c), m(g, d, b, c)]
            }
            10 => {
                let i = if rng.bool() { rng.next() as u32 } else { ((rng.below(64) as i32 - 32) << 12 | (rng.below(64) as i32 - 32) & 0xfff) as u32 };
                vec![lui(a, i), if self.c.rv32 { addi(a, a, (i & 0xfff) as i32) } else { addiw(a, a, (i & 0xfff) as i32) }]
            }
            11 => {
                let i = rng.next() as u32;
                vec![auipc(a, i), addi(a, a, (rng.next() & 0xfff) as i32)]
            }
            12 => {
                let i = if rng.bool() { rng.next() as u32 } else { ((rng.below(64) as i32 - 32) << 12 | (rng.below(64) as i32 - 32) & 0xfff) as u32 };
                vec![lui(a, i), addi(if rng.bool() { a } else { b }, a, (i & 0xfff) as i32)]
            }
            _ => vec![m(3, a, b, c), m(0, a, b, c)],
        };
        // near miss: one operand is another register
        if rng.chance(1, 3) {
            let i = rng.usize(v.len());
            let f = rng.below(3) as u32;
            let imm = v[i] & 0x5f == 0x17 || v[i] & 0x5f == 0x13 && v[i] & 0x20 == 0;
            let r = if rng.chance(1, 6) { 0 } else { rs[rng.usize(5)] };
            if !(which == 1 && i == 1 && f == 2) && !(imm && f > 0) {
                let at = [7, 15, 20][f as usize];
                v[i] = v[i] & !(31 << at) | r << at;
            }
        }
        if rng.chance(1, 6) {
            v.pop();
        }
        if rng.chance(1, 8) {
            let i = rng.usize(v.len());
            v.insert(i, NOP);
        }
        if rng.chance(2, 3) {
            for x in v.iter_mut() {
                if rng.chance(2, 3) {
                    *x = compress(*x, !self.c.rv32).map_or(*x, |h| h as u32);
                }
            }
        }
        if rng.chance(1, 3) {
            // corner operands
            let mut w = li_words(b, rng.corner64(), self.c.rv32);
            w.extend(li_words(c, rng.corner64(), self.c.rv32));
            w.extend(v);
            v = w;
        }
        Node::W(v)
    }
    pub fn hop(&mut self) -> Node {
        let rng = &mut *self.rng;
        let form = loop {
            let f = rng.below(12) as u8;
            // c.jal exists on 32-bit machines only; version 0 computes a jalr
            // target after writing the link register
            if (f != 4 || self.c.rv32) && (f != 11 || self.c.version > 0 && rng.chance(1, 4)) {
                break f;
            }
        };
        let (size, max) = hop_span(form);
        let max = max.min(8192);
        let dist = match rng.below(8) {
            0 => max,
            1 => max - 2,
            2 | 3 => size + 8 + 2 * rng.below(12) as u32,
            4 if rng.chance(1, 20) => 20000 + 2 * rng.below(10000) as u32,
            4 | 5 => (1 << rng.range(4, 12)) + 2 * rng.below(8) as u32,
            _ => 2 * rng.below(max as u64 / 2) as u32,
        };
        Node::Hop {
            form,
            f3: *rng.pick(&[0u32, 1, 4, 5, 6, 7]),
            r: if form < 3 && form > 0 { comp(rng) } else { src(rng) },
            r2: src(rng),
            // version 0 computes a jalr target after writing the link register
            rd: match rng.below(5) {
                0 => 0,
                1 => RA,
                2 => T2,
                3 if self.c.version > 0 => T1,
                _ => pool(rng),
            },
            mark: pool(rng),
            dist,
            back: rng.chance(1, 2),
            imm: (rng.next() & 0xfff) as i32 - 2048,
        }
    }
    pub fn leaf(&mut self) -> Node {
        let isa = self.isa();
        match self.rng.below(13) {
            0 if self.rng.chance(1, 2) => {
                // corner operands
                let (a, b) = (pool(self.rng), pool(self.rng));
                let mut v = li_words(a, self.rng.corner64(), self.c.rv32);
                v.extend(li_words(b, self.rng.corner64(), self.c.rv32));
                let rd = pool(self.rng);
                v.push(random_alu(self.rng, isa, rd, |r| if r.bool() { a } else { b }));
                Node::W(v)
            }
            0..=3 => {
                let n = self.rng.range(1, 4);
                let v = (0..n)
                    .map(|_| {
                        let rd = dst(self.rng);
                        random_alu(self.rng, isa, rd, src)
                    })
                    .collect();
                Node::W(v)
            }
            4 | 5 => {
                let n = self.rng.range(1, 4);
                let v = (0..n)
                    .map(|_| {
                        let (rd, rs2, rc, rc2) =
                            (pool(self.rng), pool(self.rng), comp(self.rng), comp(self.rng));
                        random_rvc(self.rng, isa, rd, rs2, rc, rc2)
                    })
                    .collect();
                Node::H(v)
            }
            6 => {
                let rd = pool(self.rng);
                Node::Li(rd, self.rng.edge64())
            }
            7 | 8 if self.c.loads => self.mem_node(),
            9 if self.c.atomics => self.amo(),
            10 | 12 => self.mop(),
            11 if self.rng.chance(1, 4) => Node::Nops(self.rng.range(1, 20) as u32),
            _ if self.c.loads => self.mem_node(),
            _ => Node::Nops(1),
        }
    }
    pub fn body(&mut self, n: usize, depth: usize, me: usize) -> Vec<Node> {
        let mut v = vec![];
        for _ in 0..n {
            let node = match self.rng.below(100) {
                x if x < self.c.host_rate => self.host(),
                x if x < self.c.host_rate + 6 && depth < 3 => {
                    let k = self.rng.range(1, 6) as usize;
                    Node::Loop(self.rng.range(1, 6) as u32, self.body(k, depth + 1, me))
                }
                x if x < self.c.host_rate + 14 && depth < 3 => {
                    let (k, j) = (self.rng.range(0, 4) as usize, self.rng.range(0, 3) as usize);
                    let f3 = *self.rng.pick(&[0u32, 1, 4, 5, 6, 7]);
                    let (rs1, rs2) = (src(self.rng), src(self.rng));
                    Node::If {
                        f3,
                        rs1,
                        rs2,
                        a: self.body(k, depth + 1, me),
                        b: self.body(j, depth + 1, me),
                    }
                }
                x if x < self.c.host_rate + 19 && me + 1 < self.nfun => {
                    let f = self.rng.range(me as u64 + 1, self.nfun as u64 - 1) as usize;
                    // version 1 fuses any lui/auipc + jalr ra pair, dropping the
                    // intermediate register; only the ra form is portable there
                    let kind = *self.rng.pick(&[0u32, 1, 2, 3, 4, 5]);
                    Node::Call(f, kind)
                }
                x if x < self.c.host_rate + 22 => {
                    let r = self.rng.usize(4);
                    let a = *self.rng.pick(&self.alts[r]);
                    Node::SetBase(r, a)
                }
                x if x < self.c.host_rate + 24 => {
                    if self.rng.bool() {
                        Node::Skip(self.rng.below(12) as u32)
                    } else {
                        self.hop()
                    }
                }
                x if x < self.c.host_rate + 27 && self.rng.bool() => self.hop(),
                x if x < self.c.host_rate + 25 && self.c.straight => {
                    // a long straight run: more than one fixed trace
                    let k = match self.rng.below(8) {
                        // longer than any count a byte can hold
                        0 if depth == 0 => self.rng.range(200, 1200),
                        _ => self.rng.range(17, 60),
                    };
                    let isa = self.isa();
                    let v = (0..k)
                        .map(|_| {
                            let rd = dst(self.rng);
                            loop {
                                let w = random_alu(self.rng, isa, rd, src);
                                if w & 0x7f != 0x17 {
                                    break w;
                                }
                            }
                        })
                        .collect();
                    Node::W(v)
                }
                _ if self.rng.below(100) < self.c.fuse => {
                    let n = self.mop();
                    if self.rng.chance(1, 4) {
                        v.push(n);
                        self.host_kind(HostGen::Log)
                    } else {
                        n
                    }
                }
                _ => self.leaf(),
            };
            v.push(node);
        }
        v
    }
}

/// Rough dynamic weight (decoded instructions) of a body.
fn weigh(ns: &[Node], fw: &[u64]) -> u64 {
    ns.iter()
        .map(|n| match n {
            Node::W(v) => v.len() as u64,
            Node::H(v) => v.len() as u64,
            Node::Li(..) | Node::SetBase(..) => 5,
            Node::Loop(k, b) => 8 + *k as u64 * (3 + weigh(b, fw)),
            Node::If { a, b, .. } => 3 + weigh(a, fw).max(weigh(b, fw)),
            Node::Call(f, _) => 8 + fw.get(*f).copied().unwrap_or(0),
            Node::Host(_, a) => 4 + 6 * a.len() as u64,
            Node::LrSc { mid, .. } => 4 + weigh(mid, fw),
            Node::Nops(k) => *k as u64,
            _ => 4,
        })
        .sum()
}

fn tame(ns: &mut Vec<Node>) {
    for n in ns.iter_mut() {
        match n {
            Node::Loop(k, b) => {
                *k = (*k).min(2);
                tame(b);
            }
            Node::If { a, b, .. } => {
                tame(a);
                tame(b);
            }
            Node::LrSc { mid, .. } => tame(mid),
            _ => (),
        }
    }
}
fn drop_calls(ns: &mut Vec<Node>) {
    ns.retain(|n| !matches!(n, Node::Call(..)));
    for n in ns.iter_mut() {
        match n {
            Node::Loop(_, b) => drop_calls(b),
            Node::If { a, b, .. } => {
                drop_calls(a);
                drop_calls(b);
            }
            _ => (),
        }
    }
}

/// words set aside where a far address is to be materialised
const WIDE: usize = 10;

fn lo_of(t: u64) -> i32 {
    hi_lo(t as i64).1
}

fn far_call(t: u64) -> Vec<u32> {
    let mut w = li_words(T1, t, false);
    w.push(jalr(RA, T1, 0));
    assert!(w.len() <= WIDE);
    w.resize(WIDE, NOP);
    w
}

/// The memory of a wide program that is looked at.
pub fn windows(size: u64) -> Vec<(u64, u64)> {
    if size <= 1 << 31 {
        return vec![(0, size)];
    }
    let mut v = vec![(0, 2 << 20)];
    for at in [1u64 << 31, 1 << 32, 6 << 30] {
        if at + (1 << 20) < size - (1 << 20) {
            v.push((at - (1 << 18), (1 << 18) + (1 << 19)));
        }
    }
    v.push((size - (1 << 19), 1 << 19));
    v
}

pub fn layout(mem: u64) -> ([u64; 4], [Vec<u64>; 4], u64) {
    // code from 0x10000; data somewhere in the second frame; fresh memory
    // around frame boundaries; stack in the top quarter.
    let data = 0x60000u64;
    let fresh = 0x80000u64;
    let text = 0x10000u64;
    // page 0 is memory like any other
    let mut fr = vec![fresh, fresh + 0x10000, fresh + 0x22000 + 8, 2048];
    let mut f = fresh;
    if mem > 1 << 31 {
        for at in [1u64 << 31, 1 << 32, 6 << 30] {
            if at + (1 << 20) < mem - mem / 4 {
                fr.extend([at, at - 4, at - 4096, at + 0x30000]);
            }
        }
    }
    while f + 0x40000 < (mem - mem / 4).min(4 << 20) {
        f += 0x40000;
        fr.push(f);
        fr.push(f - 0x1000);
    }
    (
        [data + 0x1000, fresh, mem - 2048, text],
        [vec![data + 0x1000, data + 0x800, data + 0x1804], fr, vec![mem - 2048], vec![text, text + 0x40]],
        text,
    )
}

pub fn generate(rng: &mut Rng, c: &Gen) -> Prog {
    let (bases, alts, text) = layout(c.mem);
    let nfun = c.funcs;
    let mut funcs: Vec<Func> = vec![];
    {
        let mut g = G { c, rng, nfun, bases, alts };
        for i in 0..nfun {
            let n = g.rng.range(2.min(c.body as u64), c.body as u64) as usize;
            let body = g.body(n, 0, i);
            let place = if !c.placement {
                Place::Seq
            } else if c.mem > 1 << 31 && i > 0 && g.rng.chance(2, 3) {
                let span = *g.rng.pick(&[7, 14]);
                match g.rng.below(4) {
                    0 => Place::Above(g.rng.usize(i), *g.rng.pick(&[2048, 4096, 4096])),
                    1 => Place::High((1 << 31) + 0x8000 - 2 * g.rng.below(1 << span)),
                    2 => Place::High((1 << 32) + 0x8000 - 2 * g.rng.below(1 << span)),
                    _ => Place::High((*g.rng.pick(&[1u64, 2]) << 31) - 2 * g.rng.range(1, 60)),
                }
            } else {
                match g.rng.below(6) {
                    0 => Place::PageEnd(2 * g.rng.range(1, 60)),
                    1 if i > 0 => Place::FrameEnd(2 * g.rng.range(1, 60)),
                    1 | 2 if i > 0 && c.mem >= 4 << 20 => Place::Above(g.rng.usize(i), g.rng.range(1, 2)),
                    2 | 3 if i > 0 => Place::Alias(g.rng.usize(i)),
                    4 if g.rng.bool() => Place::PageTail,
                    _ => Place::Seq,
                }
            };
            funcs.push(Func { place, body, cret: g.rng.bool() });
        }
    }
    // keep the dynamic length within budget
    for round in 0..3 {
        let mut fw = vec![0; nfun];
        for i in (0..nfun).rev() {
            fw[i] = 8 + weigh(&funcs[i].body, &fw);
        }
        if fw[0] <= c.budget {
            break;
        }
        for f in funcs.iter_mut() {
            if round == 0 {
                tame(&mut f.body);
            } else {
                drop_calls(&mut f.body);
            }
        }
    }
    let data = bases[R_DATA] & !0xfff;
    let data = data - 0x1000;
    let mut segs = vec![];
    let pad = if rng.bool() { 0 } else { rng.below(64) * 8 };
    let flen = rng.range(16, 9000);
    let init = rng.bytes(flen as usize);
    let memsz = flen.max(0x3000 - pad) + rng.below(0x4000);
    segs.push(DataSeg { addr: data + pad, init, memsz, write: true });
    if rng.chance(1, 2) {
        let n = rng.range(1, 5000) as usize;
        segs.push(DataSeg { addr: data + 0xa000, init: rng.bytes(n), memsz: n as u64, write: false });
    }
    let args = (0..rng.below(4))
        .map(|_| {
            let n = rng.logscale(40) as usize;
            rng.bytes(n)
        })
        .collect();
    let regs = (0..POOL.len()).map(|_| rng.edge64()).collect();
    Prog {
        rv32: c.rv32,
        version: c.version,
        isa: c.isa,
        mem: c.mem,
        text,
        bases,
        funcs,
        data: segs,
        args,
        regs,
    }
}

// ------------------------------------------------------------------ shrinking

fn count(ns: &[Node]) -> usize {
    ns.iter()
        .map(|n| {
            1 + match n {
                Node::Loop(_, b) => count(b),
                Node::If { a, b, .. } => count(a) + count(b),
                Node::LrSc { mid, .. } => count(mid),
                _ => 0,
            }
        })
        .sum()
}

fn strip(ns: &[Node], at: &mut usize, lo: usize, hi: usize) -> Vec<Node> {
    let mut out = vec![];
    for n in ns {
        let me = *at;
        *at += 1;
        let gone = me >= lo && me < hi;
        match n {
            Node::Loop(k, b) => {
                let b = strip(b, at, lo, hi);
                if gone {
                    out.extend(b);
                } else {
                    out.push(Node::Loop(*k, b));
                }
            }
            Node::If { f3, rs1, rs2, a, b } => {
                let a = strip(a, at, lo, hi);
                let b = strip(b, at, lo, hi);
                if gone {
                    out.extend(a);
                } else {
                    out.push(Node::If { f3: *f3, rs1: *rs1, rs2: *rs2, a, b });
                }
            }
            Node::LrSc { f3, rd, rs2, base, off, off2, mid } => {
                let mid = strip(mid, at, lo, hi);
                if !gone {
                    out.push(Node::LrSc {
                        f3: *f3,
                        rd: *rd,
                        rs2: *rs2,
                        base: *base,
                        off: *off,
                        off2: *off2,
                        mid,
                    });
                }
            }
            n => {
                if !gone {
                    out.push(n.clone());
                }
            }
        }
    }
    out
}

impl Prog {
    pub fn atoms(&self) -> usize {
        self.funcs.iter().map(|f| count(&f.body)).sum()
    }
    pub fn without(&self, lo: usize, hi: usize) -> Prog {
        let mut p = self.clone();
        let mut at = 0;
        for f in p.funcs.iter_mut() {
            f.body = strip(&f.body, &mut at, lo, hi);
        }
        p
    }
    pub fn simpler(&self) -> Vec<Prog> {
        let mut v = vec![];
        if self.funcs.len() > 1 && self.funcs.last().unwrap().body.is_empty() {
            let mut p = self.clone();
            p.funcs.pop();
            v.push(p);
        }
        for i in 0..self.funcs.len() {
            if self.funcs[i].place != Place::Seq {
                let mut p = self.clone();
                p.funcs[i].place = Place::Seq;
                v.push(p);
            }
        }
        if !self.args.is_empty() {
            let mut p = self.clone();
            p.args.pop();
            v.push(p);
        }
        if self.regs.iter().any(|x| *x != 0) {
            let mut p = self.clone();
            p.regs = vec![];
            v.push(p);
            for i in 0..self.regs.len() {
                if self.regs[i] != 0 {
                    let mut p = self.clone();
                    p.regs[i] = 0;
                    v.push(p);
                }
            }
        }
        if self.data.len() > 1 {
            let mut p = self.clone();
            p.data.pop();
            v.push(p);
        }
        if self.data.first().map_or(false, |d| d.init.len() > 16 && d.init.iter().any(|x| *x != 0)) {
            let mut p = self.clone();
            p.data[0].init = vec![0; 16];
            v.push(p);
        }
        // word groups: drop single words; loops: once
        fn each(ns: &mut Vec<Node>, at: &mut usize, want: usize) -> bool {
            for n in ns.iter_mut() {
                match n {
                    Node::W(v) if v.len() > 1 => {
                        for i in 0..v.len() {
                            if *at == want {
                                v.remove(i);
                                return true;
                            }
                            *at += 1;
                        }
                    }
                    Node::H(v) if v.len() > 1 => {
                        for i in 0..v.len() {
                            if *at == want {
                                v.remove(i);
                                return true;
                            }
                            *at += 1;
                        }
                    }
                    Node::Loop(k, b) => {
                        if *k > 1 {
                            if *at == want {
                                *k = 1;
                                return true;
                            }
                            *at += 1;
                        }
                        if each(b, at, want) {
                            return true;
                        }
                    }
                    Node::If { a, b, .. } => {
                        if each(a, at, want) || each(b, at, want) {
                            return true;
                        }
                    }
                    Node::LrSc { mid, .. } => {
                        if each(mid, at, want) {
                            return true;
                        }
                    }
                    Node::Hop { dist, .. } if *dist > 24 => {
                        if *at == want {
                            *dist = 24;
                            return true;
                        }
                        *at += 1;
                    }
                    Node::Nops(k) if *k > 1 => {
                        if *at == want {
                            *k = 1;
                            return true;
                        }
                        *at += 1;
                    }
                    _ => (),
                }
            }
            false
        }
        for want in 0..200 {
            let mut p = self.clone();
            let mut at = 0;
            let mut hit = false;
            for f in p.funcs.iter_mut() {
                if each(&mut f.body, &mut at, want) {
                    hit = true;
                    break;
                }
            }
            if !hit {
                break;
            }
            v.push(p);
        }
        v
    }
}
