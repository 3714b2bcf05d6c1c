//! C15: damaged program images. An image is refused by everybody, or loaded
//! by everybody exactly as it declares.

use crate::c01::drop_range;
use crate::core::{ec, state, Dirty, State, EC};
use crate::engine::{build, Cost, Kind};
use crate::kernel::{bytes_for, kernel};
use crate::model::read_image;
use crate::prog::{generate, DataSeg, Gen, Prog};
use crate::rng::{mix, Rng};
use crate::scn::*;
use ckb_vm::{Bytes, Error};
use serde::{Deserialize, Serialize};
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Damage {
    /// one bit of the headers / of the whole image (position modulo length)
    HeadBit(u32),
    Bit(u32),
    /// field f of program header h is replaced
    Ph(u8, u8, u64),
    /// a field of the file header is replaced: which, value
    Eh(u8, u64),
    /// the end is lost
    Torn(u32),
    /// sectors never reached the disk: this one reads as zeros
    Lost(u32, u16),
    /// a stretch is written to the wrong place
    Misplaced(u32, u32, u16),
    /// two program headers change places
    Swap(u8, u8),
    /// a program header appears twice (in place of another)
    Dup(u8, u8),
    /// bytes follow
    Extend(u32),
    /// everything behind the magic is noise
    Noise(u64),
    /// the headers are written in the other byte order
    Endian,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Image {
    pub prog: usize,
    pub damage: Vec<Damage>,
    /// argument lengths
    pub args: Vec<u32>,
    /// load on top of what is there, or reset first
    pub reset: bool,
    /// run it afterwards
    pub run: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub progs: Vec<Prog>,
    /// the machine's own shape
    pub rv32: bool,
    pub version: u32,
    pub images: Vec<Image>,
}

pub struct C15;

fn edge(rng: &mut Rng, mem: u64, len: u64) -> u64 {
    match rng.below(16) {
        0 => 0,
        1 => mem,
        2 => mem - rng.range(1, 8200),
        3 => mem + rng.below(8200),
        4 => u64::MAX - rng.below(8200),
        5 => u32::MAX as u64 - rng.below(8200),
        6 => 1 << rng.below(64),
        7 => rng.edge64(),
        8 => len,
        9 => len.wrapping_sub(rng.below(5000)),
        10 => len + rng.below(5000),
        11 => rng.below(mem) & !4095,
        12 | 13 => rng.below(mem),
        14 => rng.below(9000),
        _ => rng.range(1, 70) * 4096,
    }
}

fn damage(rng: &mut Rng, mem: u64) -> Damage {
    match rng.below(24) {
        0 | 1 => Damage::HeadBit(rng.next() as u32),
        2 => Damage::Bit(rng.next() as u32),
        3..=10 => {
            let f = rng.below(8) as u8;
            let v = if f == 1 { rng.below(10) | if rng.chance(1, 4) { 1 << rng.below(32) } else { 0 } } else if f == 0 { rng.below(4) } else { edge(rng, mem, 20000) };
            Damage::Ph(rng.next() as u8, f, v)
        }
        11 | 12 => {
            let f = rng.below(9) as u8;
            Damage::Eh(f, edge(rng, mem, 20000))
        }
        13 | 14 => Damage::Torn(rng.next() as u32),
        15 | 16 => Damage::Lost(rng.next() as u32, *rng.pick(&[512u16, 512, 4096, 1, 8])),
        17 | 18 => Damage::Misplaced(rng.next() as u32, rng.next() as u32, *rng.pick(&[512u16, 8, 56, 4096])),
        19 => Damage::Swap(rng.next() as u8, rng.next() as u8),
        20 | 21 => Damage::Dup(rng.next() as u8, rng.next() as u8),
        22 if rng.bool() => Damage::Extend(rng.logscale(9000) as u32),
        22 => Damage::Endian,
        _ => Damage::Noise(rng.next()),
    }
}

fn hurt(b: &mut Vec<u8>, rv32: bool, d: &Damage) {
    let n = b.len();
    if n < 64 {
        return;
    }
    let (eh, ps) = if rv32 { (52usize, 32usize) } else { (64, 56) };
    let num = b[if rv32 { 44 } else { 56 }] as usize;
    let put = |b: &mut Vec<u8>, o: usize, w: usize, v: u64| {
        if o + w <= b.len() {
            b[o..o + w].copy_from_slice(&v.to_le_bytes()[..w]);
        }
    };
    match d {
        Damage::HeadBit(p) => {
            let m = (eh + ps * num.min(8)).min(n) * 8;
            let p = *p as usize % m;
            b[p / 8] ^= 1 << (p % 8);
        }
        Damage::Bit(p) => {
            let p = *p as usize % (n * 8);
            b[p / 8] ^= 1 << (p % 8);
        }
        Damage::Ph(h, f, v) => {
            let o = eh + ps * (*h as usize % num.max(1));
            // type flags offset vaddr paddr filesz memsz align
            let (at, w) = if rv32 {
                ([0usize, 24, 4, 8, 12, 16, 20, 28][*f as usize % 8], 4)
            } else {
                let k = *f as usize % 8;
                ([0usize, 4, 8, 16, 24, 32, 40, 48][k], if k < 2 { 4 } else { 8 })
            };
            put(b, o + at, w, *v);
        }
        Damage::Eh(f, v) => {
            let l: [(usize, usize); 9] = if rv32 {
                [(24, 4), (28, 4), (44, 2), (42, 2), (40, 2), (4, 1), (5, 1), (32, 4), (18, 2)]
            } else {
                [(24, 8), (32, 8), (56, 2), (54, 2), (52, 2), (4, 1), (5, 1), (40, 8), (18, 2)]
            };
            let (o, w) = l[*f as usize % 9];
            let v = if w == 1 { *v % 4 } else { *v };
            put(b, o, w, v);
        }
        Damage::Torn(p) => b.truncate(*p as usize % (n + 1)),
        Damage::Lost(p, s) => {
            let s = *s as usize;
            let o = *p as usize % n / s * s;
            let e = (o + s).min(n);
            b[o..e].fill(0);
        }
        Damage::Misplaced(p, q, s) => {
            let s = *s as usize;
            let o = *p as usize % n / s * s;
            let c: Vec<u8> = b[o..(o + s).min(n)].to_vec();
            let t = *q as usize % n / s * s;
            let e = (t + c.len()).min(n);
            b[t..e].copy_from_slice(&c[..e - t]);
        }
        Damage::Swap(x, y) | Damage::Dup(x, y) => {
            let (i, j) = (eh + ps * (*x as usize % num.max(1)), eh + ps * (*y as usize % num.max(1)));
            if i + ps <= n && j + ps <= n {
                let (a, c) = (b[i..i + ps].to_vec(), b[j..j + ps].to_vec());
                b[j..j + ps].copy_from_slice(&a);
                if matches!(d, Damage::Swap(..)) {
                    b[i..i + ps].copy_from_slice(&c);
                }
            }
        }
        Damage::Extend(k) => b.extend(bytes_for(*k as u64, *k as u64)),
        Damage::Endian => {
            b[5] ^= 3;
            let mut f: Vec<(usize, usize)> = if rv32 {
                vec![(16, 2), (18, 2), (20, 4), (24, 4), (28, 4), (32, 4), (36, 4), (40, 2), (42, 2), (44, 2), (46, 2), (48, 2), (50, 2)]
            } else {
                vec![(16, 2), (18, 2), (20, 4), (24, 8), (32, 8), (40, 8), (48, 4), (52, 2), (54, 2), (56, 2), (58, 2), (60, 2), (62, 2)]
            };
            for i in 0..num {
                let o = eh + ps * i;
                if rv32 {
                    f.extend((0..8).map(|k| (o + 4 * k, 4)));
                } else {
                    f.extend([(o, 4), (o + 4, 4)]);
                    f.extend((1..7).map(|k| (o + 8 * k, 8)));
                }
            }
            for (o, w) in f {
                if o + w <= n {
                    b[o..o + w].reverse();
                }
            }
        }
        Damage::Noise(s) => {
            let v = bytes_for(*s, n as u64);
            b[16..].copy_from_slice(&v[16..]);
        }
    }
}

pub fn image(c: &Case, i: &Image) -> Bytes {
    let p = &c.progs[i.prog % c.progs.len()];
    let mut b = p.build().elf.to_vec();
    for d in &i.damage {
        hurt(&mut b, p.rv32, d);
    }
    Bytes::from(b)
}

/// a segment whose end is not a number: see known-findings.json
fn wraps(b: &[u8]) -> bool {
    read_image(b).map_or(false, |(_, _, s)| {
        s.iter().any(|s| s.memsz.checked_add(s.vaddr % 4096).and_then(|x| x.checked_add(4095)).is_none())
    })
}

struct Seen {
    load: Result<u64, EC>,
    st: State,
    stacked: bool,
    run: Option<Result<i8, EC>>,
}

fn drive(c: &Case, kind: Kind, st: &mut Stats) -> Result<Vec<Seen>, Violation> {
    let p = &c.progs[0];
    let mut cf = cfg(p, kind, Cost::One);
    cf.rv32 = c.rv32;
    cf.version = c.version;
    cf.max_cycles = 20_000;
    let k = kernel();
    let mut e = build(&cf, &k, None);
    let mut out = vec![];
    for (n, i) in c.images.iter().enumerate() {
        if i.reset && e.core().do_reset(20_000).is_err() {
            return viol("reset", format!("{}: cannot be reset", kind.name()));
        }
        let b = image(c, i);
        let args: Vec<Bytes> = i.args.iter().map(|l| Bytes::from(bytes_for(*l as u64 + 1, *l as u64))).collect();
        let r = match catch_unwind(AssertUnwindSafe(|| e.load(&b, &args))) {
            Ok(r) => r,
            Err(_) => return viol("panic", format!("{}: loading image {} panics", kind.name(), n)),
        };
        if kind != Kind::Model {
            st.runs += 1;
        }
        let s = match state(e.core()) {
            Ok(s) => s,
            Err(x) => return viol("observe", format!("{}: memory cannot be read: {:?}", kind.name(), x)),
        };
        let ok = r.is_ok();
        let mut seen = Seen { load: r.map_err(|e| ec(&e)), st: s, stacked: e.stacked(), run: None };
        if ok && i.run {
            e.core().set_cyc(0);
            let r = e.run();
            if matches!(r, Err(Error::Unexpected(_))) && kind == Kind::Model || e.disputed().is_some() {
                out.push(seen);
                return Ok(out);
            }
            seen.run = Some(r.map_err(|e| ec(&e)));
        }
        out.push(seen);
    }
    Ok(out)
}

impl Prop for C15 {
    type Case = Case;
    const ID: &'static str = "C15";
    const RULE: &'static str = "a case is one to three program images, each damaged by a chain of disk and transport faults (bit flips, torn and lost and misplaced writes, duplicated or swapped headers, hostile header fields, noise), loaded with arguments of any size one after another into one machine; every engine must decide like the reference loader and reach the same memory, protection and registers, and run what was loaded to the same result; non-trivial if at least one image was damaged and the (decisions, memories) were not seen before";
    const REAL: &'static [&'static str] = &["ELF parsing", "program loading", "stack set-up", "every engine's memory", "every engine"];
    const STUB: &'static [&'static str] = &["storage of images", "host-call handlers"];

    fn gen(rng: &mut Rng, _t: Tier) -> Case {
        let mut g = Gen::random(rng);
        g.budget = 200;
        g.body = rng.range(2, 5) as usize;
        g.funcs = rng.range(1, 2) as usize;
        g.mem = *rng.pick(&[1 << 20, 1 << 20, 1 << 20, 1 << 20, 2 << 20, 4 << 20]);
        let mut progs = vec![];
        for i in 0..rng.range(1, 2) {
            if i > 0 && rng.chance(1, 6) {
                g.rv32 = !g.rv32;
                g.isa &= !ckb_vm::ISA_B;
            }
            let mut p = generate(rng, &g);
            for _ in 0..rng.below(4) {
                let n = rng.logscale(6000) as usize;
                let addr = rng.below(p.mem - 4096);
                let memsz = n as u64 + rng.below(2) * rng.logscale(300_000);
                p.data.push(DataSeg { addr, init: rng.bytes(n), memsz, write: rng.chance(2, 3) });
            }
            progs.push(p);
        }
        let (rv32, version) = (progs[0].rv32, progs[0].version);
        let rv32 = if rng.chance(1, 20) { !rv32 } else { rv32 };
        let mem = progs[0].mem;
        let n = rng.range(1, 3);
        let images = (0..n)
            .map(|_| Image {
                prog: rng.usize(progs.len()),
                damage: if rng.chance(1, 8) { vec![] } else { (0..rng.range(1, 4)).map(|_| damage(rng, mem)).collect() },
                args: match rng.below(8) {
                    0 => (0..rng.below(5)).map(|_| rng.logscale(mem) as u32).collect(),
                    1 => (0..rng.logscale(60_000)).map(|_| rng.below(3) as u32).collect(),
                    2 => vec![(mem / 4) as u32 - rng.below(80) as u32],
                    _ => (0..rng.below(4)).map(|_| rng.below(40) as u32).collect(),
                },
                reset: rng.chance(1, 2),
                run: rng.chance(3, 4),
            })
            .collect();
        Case { progs, rv32, version, images }
    }

    fn run(c: &Case, st: &mut Stats) -> Result<(), Violation> {
        let mut damaged = false;
        for i in &c.images {
            let b = image(c, i);
            if wraps(&b) {
                st.probe("segment size wraps (known finding)");
                return Ok(());
            }
            for d in &i.damage {
                let w = format!("{:?}", d);
                st.fault(&w[..w.find('(').unwrap_or(w.len())], 1);
                damaged = true;
            }
        }
        let want = drive(c, Kind::Model, st)?;
        let mut sig = 0;
        for w in &want {
            sig = mix(sig ^ w.st.digest() ^ crate::rng::hash_str(&format!("{:?}", w.load)));
            st.probe(if w.load.is_ok() { "image loaded" } else { "image refused" });
            if let Some(Ok(_)) = w.run {
                st.probe("image ran to its end");
            }
        }
        let mut first: Option<(Kind, Vec<Seen>)> = None;
        // the memories there are, and one engine more
        let more = [Kind::TraceSparse, Kind::TraceFlat, Kind::AsmFixed, Kind::AsmDyn, Kind::AsmTiny(2)];
        for kind in &[Kind::InterpSparse, Kind::InterpFlat, Kind::AsmSimple, more[sig as usize % 5]] {
            if c.rv32 && kind.asm() {
                continue;
            }
            let mop0 = c.progs[0].isa & ckb_vm::ISA_MOP != 0 && c.version == 0;
            if kind.trace() && mop0 {
                continue;
            }
            *st.engines.entry(kind.name()).or_default() += 1;
            let got = drive(c, *kind, st)?;
            for (i, (w, g)) in want.iter().zip(&got).enumerate() {
                let fail = |k: &str, msg: String| viol(k, format!("{}: image {}: {}", kind.name(), i, msg));
                if w.load.is_ok() != g.load.is_ok() || w.load.is_ok() && w.load != g.load {
                    return fail("decision", format!("loading gives {:?}, expected {:?}", g.load, w.load));
                }
                if let Some((k0, f)) = &first {
                    if f[i].load != g.load {
                        return fail("decision", format!("loading gives {:?}, {} gives {:?}", g.load, k0.name(), f[i].load));
                    }
                }
                let mut a = w.st.clone();
                let mut open = false;
                if w.load.is_err() {
                    // what registers a refused load leaves is open
                    a.regs = g.st.regs.clone();
                    // so is how much of the arguments it wrote; the engines agree
                    // on that
                    if let Some((k0, f)) = &first {
                        if let Some(p) = (0..a.pages.len()).find(|p| f[i].st.pages[*p] != g.st.pages[*p]) {
                            return fail("memory", format!("after a refused load page {:#x} is not as on {}", p, k0.name()));
                        }
                    }
                }
                if w.load.is_err() && w.stacked {
                    let n = c.images[i].args.iter().map(|l| *l as u64 + 9).sum::<u64>() + 64;
                    let top = a.pages.len();
                    let low = (c.progs[0].mem / 4 * 3).saturating_sub(n) as usize / 4096;
                    for p in low.min(top)..top {
                        open |= a.pages[p] != g.st.pages[p];
                        a.pages[p] = g.st.pages[p];
                    }
                }
                if let Some(d) = a.diff(&g.st, w.load.is_ok(), false, Dirty::Ignore) {
                    return fail("memory", format!("after {}: {}", if w.load.is_ok() { "loading" } else { "a refused load" }, d));
                }
                if let Some(r) = &w.run {
                    let same = match (r, &g.run) {
                        (Ok(a), Some(Ok(b))) => a == b,
                        (Err(_), Some(Err(_))) => true,
                        _ => false,
                    };
                    if !same {
                        return fail("result", format!("the run gives {:?}, expected {:?}", g.run, r));
                    }
                    if r.is_err() && i + 1 < want.len() {
                        // what garbage did before it failed is another matter
                        break;
                    }
                }
                st.see(g.st.digest());
                if open {
                    break;
                }
            }
            if first.is_none() {
                first = Some((*kind, got));
            }
        }
        if damaged {
            st.sig(sig);
        }
        Ok(())
    }

    fn known(id: &str) -> Option<Result<String, String>> {
        if id != "C15-memsz-wraps" {
            return None;
        }
        // a program with one segment more, whose end is 2^64
        let mut rng = Rng::new(15);
        let mut g = Gen::random(&mut rng);
        g.rv32 = false;
        g.mem = 1 << 20;
        let mut p = generate(&mut rng, &g);
        p.data.push(DataSeg { addr: 0x40000, init: vec![], memsz: u64::MAX - 0x1f, write: true });
        let elf = p.build().elf;
        if !wraps(&elf) {
            return Some(Err("the probe's image does not wrap".into()));
        }
        let mut said = vec![];
        let mut why = vec![];
        for kind in [Kind::InterpSparse, Kind::InterpFlat, Kind::AsmSimple] {
            let k = kernel();
            let mut e = build(&cfg(&p, kind, Cost::One), &k, None);
            match catch_unwind(AssertUnwindSafe(|| e.load(&elf, &[]))) {
                Ok(Ok(_)) => said.push(kind.name()),
                Ok(Err(e)) => why.push(format!("{:?}", e)),
                Err(_) => said.push(format!("{} (panic)", kind.name())),
            }
        }
        Some(if said.is_empty() {
            Err(format!("every engine refuses the image: {:?}", why))
        } else {
            Ok(format!("[C15-memsz-wraps] a segment at 0x40000 declaring 2^64-0x20 bytes of memory is not refused but loaded as an empty one by {}", said.join(", ")))
        })
    }

    fn atoms(c: &Case) -> usize {
        c.images.len() + c.images.iter().map(|i| i.damage.len() + i.args.len().min(64)).sum::<usize>() + c.progs.iter().map(|p| p.atoms() + p.data.len()).sum::<usize>()
    }
    fn without(c: &Case, lo: usize, hi: usize) -> Case {
        let mut d = c.clone();
        d.images = drop_range(&c.images, lo, hi);
        if d.images.is_empty() {
            d.images = c.images[..1].to_vec();
        }
        let mut at = c.images.len();
        let cut = |lo: usize, hi: usize, at: usize| (lo.saturating_sub(at), hi.saturating_sub(at));
        if d.images.len() == c.images.len() {
            for (i, im) in d.images.iter_mut().enumerate() {
                let (a, b) = cut(lo, hi, at);
                im.damage = drop_range(&c.images[i].damage, a, b);
                at += c.images[i].damage.len();
                let (a, b) = cut(lo, hi, at);
                let k = c.images[i].args.len().min(64);
                if b > 0 && a < k {
                    // many arguments go in bulk
                    let n = c.images[i].args.len();
                    im.args = drop_range(&c.images[i].args, a * n / k.max(1), b.min(k) * n / k.max(1));
                }
                at += k;
            }
            for (i, p) in d.progs.iter_mut().enumerate() {
                let (a, b) = cut(lo, hi, at);
                let k = c.progs[i].atoms();
                if b > 0 && a < k {
                    *p = p.without(a, b.min(k));
                }
                at += k;
                let (a, b) = cut(lo, hi, at);
                p.data = drop_range(&c.progs[i].data, a, b);
                at += c.progs[i].data.len();
            }
        }
        d
    }
    fn simpler(c: &Case) -> Vec<Case> {
        let mut v = vec![];
        for i in 0..c.progs.len() {
            for p in c.progs[i].simpler() {
                let mut d = c.clone();
                d.progs[i] = p;
                v.push(d);
            }
        }
        for i in 0..c.images.len() {
            if c.images[i].run {
                let mut d = c.clone();
                d.images[i].run = false;
                v.push(d);
            }
        }
        v
    }
}
