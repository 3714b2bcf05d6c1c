//! Histories on memories used by themselves, without the permission layer or
//! a machine around them (part of C18): a byte array is the reference.

use crate::access::Step;
use crate::c01::drop_range;
use crate::kernel::bytes_for;
use crate::rng::{mix, Rng};
use crate::scn::*;
use ckb_vm::{Bytes, Error, FlatMemory, Memory, Register, SparseMemory};
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Bare {
    pub flat: bool,
    pub rv32: bool,
    pub pages: u64,
    pub steps: Vec<Step>,
    /// reservations set after step n
    pub lrs: Vec<(usize, u64)>,
}

fn addr(rng: &mut Rng, size: u64, w: u64) -> u64 {
    match rng.below(12) {
        0 => size.wrapping_sub(rng.below(w + 2)),
        1 => size.wrapping_add(rng.logscale(1 << 33)),
        2 => u64::MAX - rng.below(20),
        3 => (u64::MAX << rng.range(12, 63)).wrapping_add(rng.below(3)).wrapping_sub(1),
        4..=7 => (rng.below(size / 4096 + 1) * 4096).wrapping_sub(rng.below(w + 2)).wrapping_add(rng.below(2)),
        _ => rng.below(size + 1),
    }
}
fn len(rng: &mut Rng, size: u64) -> u64 {
    match rng.below(12) {
        0 => 0,
        1 => size,
        2 => 4096 * rng.range(1, 3),
        3 => rng.logscale(size + 5000),
        _ => rng.logscale(9000),
    }
}

pub fn gen(rng: &mut Rng) -> Bare {
    let pages = if rng.chance(1, 30) { 0 } else { rng.range(1, 24) };
    let size = pages * 4096;
    let n = rng.range(4, 60);
    let page = |rng: &mut Rng| if rng.chance(1, 12) { pages + rng.logscale(1 << 60) } else { rng.below(pages + 1) };
    let mut steps = vec![];
    for _ in 0..n {
        let w = 1 << rng.below(4);
        let s = match rng.below(24) {
            0..=5 => Step::StoreW(addr(rng, size, w), w, rng.next()),
            6..=9 => Step::LoadW(addr(rng, size, w), w),
            10 => Step::Fetch16(addr(rng, size, 2)),
            11 => Step::Fetch32(addr(rng, size, 4)),
            12..=14 => {
                let n = len(rng, size);
                Step::Store(addr(rng, size, n.min(8192)), n, rng.next())
            }
            15 | 16 => {
                let n = if rng.chance(1, 12) { u64::MAX - rng.below(9000) } else { len(rng, size) };
                Step::Fill(addr(rng, size, n.min(8192)), n, rng.next() as u8)
            }
            17 | 18 => {
                let n = if rng.chance(1, 12) { u64::MAX - rng.below(9000) } else { len(rng, size) };
                Step::Read(addr(rng, size, n.min(8192)), n)
            }
            19 | 20 => {
                let at = addr(rng, size, 4096);
                let n = len(rng, size);
                Step::Init(at, n, rng.below(8) as u8, rng.logscale(n + 4000), if rng.bool() { 0 } else { rng.logscale(n + 4000) })
            }
            21 => Step::SetFlag(page(rng), rng.below(8) as u8),
            22 => Step::ClearFlag(page(rng), rng.below(8) as u8),
            _ if rng.chance(1, 4) => Step::Reset,
            _ => Step::Look,
        };
        steps.push(s);
    }
    let lrs = (0..rng.below(4)).map(|_| (rng.usize(steps.len()), rng.next())).collect();
    Bare { flat: rng.bool(), rv32: rng.bool(), pages, steps, lrs }
}

struct Model {
    mem: Vec<u8>,
    flags: Vec<u8>,
    lr: u64,
}
impl Model {
    fn inside(&self, a: u64, n: u64) -> bool {
        a.checked_add(n).map_or(false, |e| e <= self.mem.len() as u64)
    }
    fn put(&mut self, a: u64, n: u64, f: impl Fn(usize) -> u8) {
        for i in 0..n as usize {
            self.mem[a as usize + i] = f(i);
            self.flags[(a as usize + i) / 4096] |= 4;
        }
    }
}

fn go<M: Memory>(m: &mut M, c: &Bare, st: &mut Stats) -> Result<(), Violation> {
    let who = format!("bare {} memory of {} pages, {}-bit", if c.flat { "flat" } else { "sparse" }, c.pages, M::REG::BITS);
    let size = c.pages * 4096;
    let mask = if c.rv32 { u32::MAX as u64 } else { u64::MAX };
    let mut x = Model { mem: vec![0; size as usize], flags: vec![0; c.pages as usize], lr: mask };
    let mut trace = vec![];
    let mut sig = 0;
    let mut steps = c.steps.clone();
    steps.push(Step::Look);
    let r = |v: u64| M::REG::from_u64(v);
    for (i, s) in steps.iter().enumerate() {
        // what is expected: None: refused
        let mut want: Option<u64> = None;
        let mut open = false;
        let got: Result<u64, Error> = match s {
            Step::StoreW(a, w, v) => {
                let a = *a & mask;
                let v = *v & mask;
                if x.inside(a, *w) {
                    x.put(a, *w, |i| (v >> (8 * i)) as u8);
                    want = Some(0);
                }
                match w {
                    1 => m.store8(&r(a), &r(v)),
                    2 => m.store16(&r(a), &r(v)),
                    4 => m.store32(&r(a), &r(v)),
                    _ => m.store64(&r(a), &r(v)),
                }
                .map(|_| 0)
            }
            Step::LoadW(a, _) | Step::Fetch16(a) | Step::Fetch32(a) => {
                let (w, f) = match s {
                    Step::LoadW(_, w) => (*w, false),
                    Step::Fetch16(_) => (2, true),
                    _ => (4, true),
                };
                let a = *a & mask;
                if x.inside(a, w) {
                    let v = (0..w).fold(0, |v, k| v | (x.mem[(a + k) as usize] as u64) << (8 * k));
                    want = Some(if f { v } else { v & mask });
                }
                match (f, w) {
                    (true, 2) => m.execute_load16(a).map(|v| v as u64),
                    (true, _) => m.execute_load32(a).map(|v| v as u64),
                    (_, 1) => m.load8(&r(a)).map(|v| v.to_u64()),
                    (_, 2) => m.load16(&r(a)).map(|v| v.to_u64()),
                    (_, 4) => m.load32(&r(a)).map(|v| v.to_u64()),
                    _ => m.load64(&r(a)).map(|v| v.to_u64()),
                }
            }
            Step::Store(a, n, seed) => {
                let b = bytes_for(*seed, *n);
                if x.inside(*a, *n) {
                    x.put(*a, *n, |i| b[i]);
                    want = Some(0);
                }
                // nothing at nowhere: either is fine
                open = *n == 0;
                m.store_bytes(*a, &b).map(|_| 0)
            }
            Step::Fill(a, n, v) => {
                if x.inside(*a, *n) {
                    x.put(*a, *n, |_| *v);
                    want = Some(0);
                }
                open = *n == 0;
                m.store_byte(*a, *n, *v).map(|_| 0)
            }
            Step::Read(a, n) => {
                let f = |b: &[u8]| b.iter().fold(b.len() as u64, |h, v| mix(h ^ *v as u64));
                if x.inside(*a, *n) {
                    want = Some(f(&x.mem[*a as usize..(*a + *n) as usize]));
                }
                open = *n == 0;
                m.load_bytes(*a, *n).map(|b| f(&b))
            }
            Step::Init(a, n, f, s, o) => {
                // only what is asked for properly: a caller of the bare form
                // has checked the range
                if !x.inside(*a, *n) {
                    continue;
                }
                let src = bytes_for(*s, *s);
                let (s, o) = (*s as usize, *o as usize);
                x.put(*a, *n, |i| if i >= o && i - o < s { src[i - o] } else { 0 });
                want = Some(0);
                let src = if s == 0 { None } else { Some(Bytes::from(src)) };
                m.init_pages(*a, *n, *f, src, o as u64).map(|_| 0)
            }
            Step::SetFlag(p, f) | Step::ClearFlag(p, f) => {
                let set = matches!(s, Step::SetFlag(..));
                if *p < c.pages {
                    let q = &mut x.flags[*p as usize];
                    *q = if set { *q | f } else { *q & !f };
                    want = Some(0);
                }
                if set { m.set_flag(*p, *f) } else { m.clear_flag(*p, *f) }.map(|_| 0)
            }
            Step::Reset => {
                x.mem.iter_mut().for_each(|b| *b = 0);
                x.flags.iter_mut().for_each(|b| *b = 0);
                x.lr = mask;
                want = Some(0);
                st.fault("reset", 1);
                m.reset_memory().map(|_| 0)
            }
            _ => {
                want = Some(0);
                Ok(0)
            }
        };
        trace.push(format!("{:x?}: {:x?}", s, got));
        let fail = |kind: &str, msg: String| Err(Violation { kind: kind.into(), msg: format!("{}: after step {} {:x?}: {}", who, i, s, msg), trace: trace.clone() });
        if want.is_none() {
            st.fault("refused: Oob", 1);
        }
        if !open && got.as_ref().ok().copied() != want {
            return fail("answer", format!("answers {:x?}, expected {:x?}", got, want));
        }
        sig = mix(sig ^ want.unwrap_or(0x77));
        for (n, v) in &c.lrs {
            if *n == i {
                m.set_lr(&r(*v));
                x.lr = *v & mask;
            }
        }
        if m.lr().to_u64() != x.lr {
            return fail("registers", format!("reservation {:#x}, expected {:#x}", m.lr().to_u64(), x.lr));
        }
        if m.memory_size() as u64 != size || m.memory_pages() as u64 != c.pages {
            return fail("size", "the size changed".into());
        }
        for p in 0..c.pages {
            let f = m.fetch_flag(p);
            let w = x.flags[p as usize];
            match f {
                Ok(f) if f & 3 == w & 3 && f & w & 4 == w & 4 => (),
                f => return fail("protection", format!("page {:#x} has flags {:?}, expected {}", p, f, w)),
            }
        }
        if m.fetch_flag(c.pages).is_ok() || m.fetch_flag(u64::MAX >> 12).is_ok() {
            return fail("protection", "pages beyond the end have flags".into());
        }
        // look at everything after whatever may have written
        let reads = matches!(s, Step::LoadW(..) | Step::Read(..) | Step::Fetch16(..) | Step::Fetch32(..));
        if size > 0 && !reads {
            let b = match m.load_bytes(0, size) {
                Ok(b) => b,
                Err(e) => return fail("content", format!("cannot be read back: {:?}", e)),
            };
            if let Some(o) = (0..b.len()).find(|o| b[*o] != x.mem[*o]) {
                return fail("content", format!("byte {:#x} is {:#x}, expected {:#x}", o, b[o], x.mem[o]));
            }
        }
    }
    st.runs += 1;
    st.units += steps.len() as u64;
    st.see(sig);
    st.sig(sig);
    Ok(())
}

pub fn check(c: &Bare, st: &mut Stats) -> Result<(), Violation> {
    let n = c.pages as usize * 4096;
    *st.engines.entry(if c.flat { "bare flat memory" } else { "bare sparse memory" }.into()).or_default() += 1;
    match (c.flat, c.rv32) {
        (false, false) => go(&mut SparseMemory::<u64>::new_with_memory(n), c, st),
        (false, true) => go(&mut SparseMemory::<u32>::new_with_memory(n), c, st),
        (true, false) => go(&mut FlatMemory::<u64>::new_with_memory(n), c, st),
        (true, true) => go(&mut FlatMemory::<u32>::new_with_memory(n), c, st),
    }
}
pub fn without(c: &Bare, lo: usize, hi: usize) -> Bare {
    let mut d = c.clone();
    d.steps = drop_range(&c.steps, lo, hi);
    d
}
