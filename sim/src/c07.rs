//! C07: restoring from damaged or missing data fails cleanly; a data source
//! that fails during a run changes nothing.

use crate::c01::drop_range;
use crate::core::{state, Blobs, Ctx2, Dirty, Snap2, State, EC};
use crate::crash::overlap;
use crate::engine::{build, kinds, Cost, Kind};
use crate::kernel::{bytes_for, kernel};
use crate::prog::{generate, Gen, HostGen, Prog};
use crate::rng::Rng;
use crate::scn::*;
use ckb_vm::snapshot::Snapshot;
use ckb_vm::{Bytes, Error};
use serde::{Deserialize, Serialize};
use std::panic::{catch_unwind, AssertUnwindSafe};

/// What happened to the snapshot between saving and restoring. Positions are
/// taken modulo the number of entries.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Damage {
    Version(u32),
    Pc(u64),
    Reg(u8, u64),
    Lr(u64),
    /// an entry is lost from one of the lists of a full snapshot (0 index, 1 flag, 2 content)
    Lose(u8, u16),
    /// a list is cut to this fraction
    Cut(u8, u16),
    /// an index / address is replaced
    Index(u16, u64),
    Flag(u16, u8),
    /// a page's content has another length
    Resize(u16, u64),
    Flip(u16, u16),
    Dup(u16, u16),
    Swap(u16, u16),
    /// data-source entries: offset, length, id replaced
    SrcOffset(u16, u64),
    SrcLength(u16, u64),
    SrcId(u16, u64),
    SrcAddr(u16, u64),
    SrcFlag(u16, u8),
    SrcDup(u16),
    /// serialised form: one bit flips, or the end is lost
    Bit(u32),
    Torn(u32),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub prog: Prog,
    pub kind: Kind,
    /// what the damaged snapshot is restored into
    pub into: Kind,
    pub two: bool,
    /// the run is cut after this many cycles
    pub cut: u64,
    pub damage: Vec<Damage>,
    pub blobs: Vec<(u64, u64)>,
    /// the data source finds nothing / is cut short at these loads of the run
    pub missing: Option<u64>,
    pub short: Option<(u64, u64)>,
    /// the same for the restore
    pub rmissing: Option<u64>,
    pub rshort: Option<(u64, u64)>,
    /// the blob behind an id is gone (or shorter) when restoring
    pub gone: Option<(u8, u64)>,
}

pub struct C07;

fn addr(rng: &mut Rng, mem: u64) -> u64 {
    match rng.below(10) {
        0 => mem,
        1 => mem - 4096,
        2 => u64::MAX - 4095,
        3 => u64::MAX,
        4 => rng.edge64(),
        5 => rng.edge64() & !4095,
        6 => mem + 4096,
        7 => rng.below(mem),
        _ => rng.below(mem) & !4095,
    }
}

fn source(c: &Case, elf: &Bytes, gone: Option<(u8, u64)>) -> Blobs {
    let mut v: Vec<Bytes> = c.blobs.iter().map(|(s, l)| Bytes::from(bytes_for(*s, *l))).collect();
    v.push(elf.clone());
    if let Some((i, by)) = gone {
        let i = i as usize % v.len();
        if by == 0 {
            v.truncate(i);
        } else {
            let n = v[i].len() as u64;
            v[i] = v[i].slice(0..n.saturating_sub(by) as usize);
        }
    }
    Blobs::new(v)
}

/// What a restored machine must hold; None if only an error will do.
struct Expect {
    mem: Vec<u8>,
    flags: Vec<u8>,
    ok: bool,
}
impl Expect {
    fn new(mem: u64) -> Expect {
        Expect { mem: vec![0; mem as usize], flags: vec![0; (mem / 4096) as usize], ok: true }
    }
    fn put(&mut self, a: u64, f: u8, data: &[u8]) {
        if !self.ok || data.is_empty() {
            return;
        }
        let n = data.len() as u64;
        match a.checked_add(n) {
            Some(e) if a % 4096 == 0 && n % 4096 == 0 && e <= self.mem.len() as u64 => {
                for p in (a / 4096)..(e / 4096) {
                    if self.flags[p as usize] & 2 != 0 {
                        self.ok = false;
                        return;
                    }
                }
                self.mem[a as usize..e as usize].copy_from_slice(data);
                for p in (a / 4096)..(e / 4096) {
                    self.flags[p as usize] |= f;
                }
            }
            _ => self.ok = false,
        }
    }
}

fn at(n: usize, i: u16) -> usize {
    i as usize % n
}

fn damage1(s: &mut Snapshot, d: &Damage) {
    let n = s.page_indices.len();
    match d {
        Damage::Version(v) => s.version = *v,
        Damage::Pc(v) => s.pc = *v,
        Damage::Reg(i, v) => s.registers[1 + *i as usize % 31] = *v,
        Damage::Lr(v) => s.load_reservation_address = *v,
        Damage::Lose(w, i) => match w % 3 {
            0 if !s.page_indices.is_empty() => drop(s.page_indices.remove(at(s.page_indices.len(), *i))),
            1 if !s.page_flags.is_empty() => drop(s.page_flags.remove(at(s.page_flags.len(), *i))),
            2 if !s.pages.is_empty() => drop(s.pages.remove(at(s.pages.len(), *i))),
            _ => (),
        },
        Damage::Cut(w, f) => {
            let cut = |n: usize| n * (*f as usize) >> 16;
            match w % 3 {
                0 => s.page_indices.truncate(cut(s.page_indices.len())),
                1 => s.page_flags.truncate(cut(s.page_flags.len())),
                _ => s.pages.truncate(cut(s.pages.len())),
            }
        }
        Damage::Index(i, v) if n > 0 => s.page_indices[at(n, *i)] = *v,
        Damage::Flag(i, f) if !s.page_flags.is_empty() => {
            let n = s.page_flags.len();
            s.page_flags[at(n, *i)] = *f
        }
        Damage::Resize(i, l) if !s.pages.is_empty() => {
            let n = s.pages.len();
            s.pages[at(n, *i)].resize(*l as usize, 0xa5)
        }
        Damage::Flip(i, o) if !s.pages.is_empty() => {
            let n = s.pages.len();
            let p = &mut s.pages[at(n, *i)];
            if !p.is_empty() {
                let l = p.len();
                p[*o as usize % l] ^= 1 << (*o >> 13);
            }
        }
        Damage::Dup(i, j) if n > 0 && s.page_flags.len() == n && s.pages.len() == n => {
            let (i, j) = (at(n, *i), at(n, *j));
            let x = (s.page_indices[i], s.page_flags[i], s.pages[i].clone());
            s.page_indices.insert(j, x.0);
            s.page_flags.insert(j, x.1);
            s.pages.insert(j, x.2);
        }
        Damage::Swap(i, j) if n > 0 => s.page_indices.swap(at(n, *i), at(n, *j)),
        _ => (),
    }
}

fn damage2(s: &mut Snap2, d: &Damage) {
    let n = s.dirty_pages.len();
    let m = s.pages_from_source.len();
    match d {
        Damage::Version(v) => s.version = *v,
        Damage::Pc(v) => s.pc = *v,
        Damage::Reg(i, v) => s.registers[1 + *i as usize % 31] = *v,
        Damage::Lr(v) => s.load_reservation_address = *v,
        Damage::Lose(_, i) if n > 0 => drop(s.dirty_pages.remove(at(n, *i))),
        Damage::Cut(_, f) => s.dirty_pages.truncate(n * (*f as usize) >> 16),
        Damage::Index(i, v) if n > 0 => s.dirty_pages[at(n, *i)].0 = *v,
        Damage::Flag(i, f) if n > 0 => s.dirty_pages[at(n, *i)].1 = *f,
        Damage::Resize(i, l) if n > 0 => s.dirty_pages[at(n, *i)].2.resize(*l as usize, 0xa5),
        Damage::Flip(i, o) if n > 0 => {
            let p = &mut s.dirty_pages[at(n, *i)].2;
            if !p.is_empty() {
                let l = p.len();
                p[*o as usize % l] ^= 1 << (*o >> 13);
            }
        }
        Damage::Dup(i, j) if n > 0 => {
            let x = s.dirty_pages[at(n, *i)].clone();
            s.dirty_pages.insert(at(n, *j), x);
        }
        Damage::Swap(i, j) if n > 0 => s.dirty_pages.swap(at(n, *i), at(n, *j)),
        Damage::SrcOffset(i, v) if m > 0 => s.pages_from_source[at(m, *i)].3 = *v,
        Damage::SrcLength(i, v) if m > 0 => s.pages_from_source[at(m, *i)].4 = *v,
        Damage::SrcId(i, v) if m > 0 => s.pages_from_source[at(m, *i)].2 = *v,
        Damage::SrcAddr(i, v) if m > 0 => s.pages_from_source[at(m, *i)].0 = *v,
        Damage::SrcFlag(i, v) if m > 0 => s.pages_from_source[at(m, *i)].1 = *v,
        Damage::SrcDup(i) if m > 0 => {
            let x = s.pages_from_source[at(m, *i)].clone();
            s.pages_from_source.push(x);
        }
        _ => (),
    }
}

fn raw(b: &mut Vec<u8>, d: &Damage) {
    match d {
        Damage::Bit(k) => {
            // the readable form is mostly page content: spread over head and tail too
            let n = b.len() * 8;
            let at = match k % 3 {
                0 => (*k as usize / 3) % n,
                1 => (*k as usize / 3) % n.min(4000),
                _ => n - 1 - (*k as usize / 3) % n.min(40000),
            };
            b[at / 8] ^= 1 << (at % 8);
        }
        Damage::Torn(k) => {
            let n = b.len();
            b.truncate(n - 1 - (*k as usize % n.min(5000)));
        }
        _ => (),
    }
}

impl Prop for C07 {
    type Case = Case;
    const ID: &'static str = "C07";
    const RULE: &'static str = "a case is a generated guest cut at some point, the snapshot taken there damaged (entries lost, duplicated, swapped, resized, with other addresses, flags, offsets, lengths, ids, versions; bits flipped or the end torn off in the serialised form) and/or a data source that finds nothing, too little, or has lost a blob, during the run or the restore; the restored machine is compared with what the damaged snapshot literally says, then run; non-trivial if the damaged snapshot could still be parsed and (outcome, damage) was not seen before";
    const REAL: &'static [&'static str] = &["snapshot code of both kinds", "every engine's memory", "engines (after the restore)"];
    const STUB: &'static [&'static str] = &["host-call handlers", "durable storage (damaged by the simulator)", "data source (fails on schedule)"];

    fn gen(rng: &mut Rng, _t: Tier) -> Case {
        let mut g = Gen::random(rng);
        g.rv32 = rng.chance(1, 6);
        if g.rv32 {
            g.isa &= !ckb_vm::ISA_B;
        }
        g.mem = 1 << 20;
        g.budget = 300;
        g.body = 10;
        g.host_rate = 20;
        let two = rng.chance(2, 3);
        if two {
            g.host.push((12, HostGen::Store2));
        }
        let mut prog = generate(rng, &g);
        if two && rng.chance(1, 4) {
            overlap(rng, &mut prog);
        }
        let all = kinds(prog.rv32);
        let mem = prog.mem;
        let n = rng.range(0, 4);
        let damage = (0..n)
            .map(|_| {
                let (i, j) = (rng.next() as u16, rng.next() as u16);
                let len = *rng.pick(&[0u64, 1, 4095, 4097, 8192, 12288, 2000, 1 << 20]);
                let pageno = match rng.below(4) {
                    0 => rng.below(mem / 4096),
                    1 => mem / 4096 + rng.below(2),
                    2 => (1 << 52) + rng.below(mem / 4096),
                    _ => rng.edge64(),
                };
                let a = addr(rng, mem);
                match rng.below(if two { 20 } else { 14 }) {
                    0 => Damage::Version(rng.below(5) as u32),
                    1 => Damage::Pc(rng.edge64()),
                    2 => Damage::Reg(i as u8, rng.edge64()),
                    3 => Damage::Lr(rng.edge64()),
                    4 => Damage::Lose(rng.below(3) as u8, i),
                    5 => Damage::Cut(rng.below(3) as u8, i),
                    6 => Damage::Index(i, if two { a } else { pageno }),
                    7 => Damage::Flag(i, rng.next() as u8),
                    8 => Damage::Resize(i, len),
                    9 => Damage::Flip(i, j),
                    10 => Damage::Dup(i, j),
                    11 => Damage::Swap(i, j),
                    12 => Damage::Bit(rng.next() as u32),
                    13 => Damage::Torn(rng.next() as u32),
                    14 => Damage::SrcOffset(i, if rng.bool() { rng.below(30000) } else { rng.edge64() }),
                    15 => Damage::SrcLength(i, if rng.bool() { 4096 * rng.below(5) } else { rng.edge64() }),
                    16 => Damage::SrcId(i, rng.below(6)),
                    17 => Damage::SrcAddr(i, a),
                    18 => Damage::SrcFlag(i, rng.next() as u8),
                    _ => Damage::SrcDup(i),
                }
            })
            .collect();
        let fault = |rng: &mut Rng, f: u64| if two && rng.chance(1, f) { Some(1 + rng.logscale(10)) } else { None };
        let blobs = (0..3)
            .map(|_| (rng.next(), if rng.chance(1, 3) { 4096 * rng.range(1, 4) } else { rng.below(20000) }))
            .collect();
        let short = fault(rng, 4).map(|n| (n, rng.range(1, 9000)));
        let rshort = fault(rng, 4).map(|n| (n, *rng.pick(&[1, 100, 4096, 8192])));
        Case {
            kind: *rng.pick(&all),
            into: *rng.pick(&all),
            prog,
            two,
            cut: rng.logscale(600),
            damage,
            blobs,
            missing: fault(rng, 3),
            short,
            rmissing: fault(rng, 4),
            rshort,
            gone: if two && rng.chance(1, 5) { Some((rng.next() as u8, *rng.pick(&[0u64, 1, 4096, 9000]))) } else { None },
        }
    }

    fn run(c: &Case, st: &mut Stats) -> Result<(), Violation> {
        let g = Guest::new(&c.prog);
        let mut ec = cfg(&c.prog, c.kind, Cost::One);
        let k = kernel();
        let mut e = build(&ec, &k, None);
        // the run, with a failing data source
        let src = source(c, &g.built.elf, None);
        {
            let mut s = src.v.lock().unwrap();
            s.missing_at = c.missing;
            s.short_at = c.short;
        }
        if c.two {
            let m = match e.parse(&g.built.elf) {
                Ok(m) => m,
                Err(_) => return Ok(()),
            };
            if e.load_meta(&g.built.elf, &m, &g.args).is_err() {
                return Ok(());
            }
            let mut ctx = Ctx2::new(src.clone());
            if e.core().mark2(&mut ctx, &m, 3, 0).is_err() {
                return Ok(());
            }
            let mut k = k.lock().unwrap();
            k.ctx2 = Some(ctx);
            k.guard2 = true;
        } else if e.load(&g.built.elf, &g.args).is_err() {
            return Ok(());
        }
        e.core().set_max_cyc(c.cut);
        let r = e.run();
        st.runs += 1;
        let who = c.kind.name();
        {
            let k = k.lock().unwrap();
            if let Some(x) = &k.guard_broken {
                return viol("source", format!("{}: {}", who, x));
            }
            st.fault("data source failed during the run", k.snap2_errors);
            st.host_calls += k.calls;
            for n in [c.missing.is_some(), c.short.is_some()] {
                if n {
                    st.probe("runs with a faulty data source");
                }
            }
        }
        // after an exit or a program error there is nothing to continue, but
        // the machine can still be saved
        let saved = match state(e.core()) {
            Ok(s) => s,
            Err(x) => return viol("observe", format!("{}: memory cannot be read: {:?}", who, x)),
        };
        // save, damage
        let mut ex = Expect::new(c.prog.mem);
        let mut bytes = if c.two {
            let ctx = k.lock().unwrap().ctx2.take().unwrap();
            let mut s = match e.core().snap2(&ctx) {
                Ok(s) => s,
                Err(x) => return viol("save", format!("{}: a snapshot cannot be made: {}", who, x)),
            };
            c.damage.iter().for_each(|d| damage2(&mut s, d));
            serde_json::to_vec(&s).unwrap()
        } else {
            let mut s = match e.core().snap1() {
                Ok(s) => s,
                Err(x) => return viol("save", format!("{}: a snapshot cannot be made: {}", who, x)),
            };
            c.damage.iter().for_each(|d| damage1(&mut s, d));
            serde_json::to_vec(&s).unwrap()
        };
        drop(e);
        c.damage.iter().for_each(|d| raw(&mut bytes, d));
        st.fault("damage done to a snapshot", c.damage.len() as u64);
        // restore into a fresh machine, from a source that may have lost data
        ec.kind = c.into;
        let k = kernel();
        let mut e = build(&ec, &k, None);
        let src = source(c, &g.built.elf, c.gone);
        let who = format!("{} from a damaged snapshot of {}", c.into.name(), who);
        let (version, pc, regs, lr, cycles);
        let mut doubtful = false;
        let calls;
        let r2 = if c.two {
            let s: Snap2 = match serde_json::from_slice(&bytes) {
                Ok(s) => s,
                Err(_) => {
                    st.probe("unreadable after damage");
                    return Ok(());
                }
            };
            (version, pc, regs, lr, cycles) =
                (s.version, s.pc, s.registers, s.load_reservation_address, Some((s.cycles, s.max_cycles)));
            let blobs: Vec<Bytes> = src.v.lock().unwrap().blobs.clone();
            let mut n = 0;
            for (a, f, id, o, l) in &s.pages_from_source {
                n += 1;
                let b = match blobs.get(*id as usize) {
                    Some(b) => b.clone(),
                    None => Bytes::new(),
                };
                let o = (*o).min(b.len() as u64) as usize;
                let avail = b.len() - o;
                if *l == 0 {
                    doubtful = true;
                }
                let cut = match c.rshort {
                    Some((w, by)) if w == n => by,
                    _ => 0,
                };
                if *id as usize >= blobs.len()
                    || c.rmissing == Some(n)
                    || ((avail as u64).min(*l).saturating_sub(cut)) < *l
                    || *l % 4096 != 0
                    || *a % 4096 != 0
                {
                    ex.ok = false;
                } else {
                    ex.put(*a, *f, &b[o..o + *l as usize]);
                }
            }
            for (a, f, b) in &s.dirty_pages {
                if b.is_empty() && a % 4096 != 0 {
                    doubtful = true;
                }
                ex.put(*a, *f, b);
            }
            {
                let mut v = src.v.lock().unwrap();
                v.missing_at = c.rmissing;
                v.short_at = c.rshort;
            }
            let mut ctx = Ctx2::new(src.clone());
            let r = catch_unwind(AssertUnwindSafe(|| e.core().resume2(&mut ctx, &s)));
            calls = src.v.lock().unwrap().calls;
            if let Ok(Ok(())) = r {
                // the context must know what it just restored
                let again = e.core().snap2(&ctx);
                k.lock().unwrap().ctx2 = Some(ctx);
                if let (Ok(again), false) = (again, doubtful) {
                    let by_ref: u64 = again.pages_from_source.iter().map(|p| p.4).sum();
                    let by_val: u64 = again.dirty_pages.iter().map(|p| p.2.len() as u64).sum();
                    st.probe_n("pages restored", (by_ref + by_val) / 4096);
                }
            }
            r
        } else {
            let s: Snapshot = match serde_json::from_slice(&bytes) {
                Ok(s) => s,
                Err(_) => {
                    st.probe("unreadable after damage");
                    return Ok(());
                }
            };
            (version, pc, regs, lr, cycles) = (s.version, s.pc, s.registers, s.load_reservation_address, None);
            let n = s.page_indices.len();
            if s.page_flags.len() != n || s.pages.len() != n {
                ex.ok = false;
            } else {
                for i in 0..n {
                    match s.page_indices[i].checked_mul(4096) {
                        Some(a) if s.pages[i].len() == 4096 => ex.put(a, s.page_flags[i], &s.pages[i]),
                        _ => ex.ok = false,
                    }
                }
            }
            calls = 0;
            catch_unwind(AssertUnwindSafe(|| e.core().resume1(&s)))
        };
        st.probe_n("data-source loads while restoring", calls);
        ex.ok &= version == c.prog.version;
        st.sig(saved.digest() ^ crate::rng::hash_str(&format!("{:?}{:?}{:?}{:?}", c.damage, c.rmissing, c.rshort, c.gone)));
        st.runs += 1;
        *st.engines.entry(c.into.name()).or_default() += 1;
        match r2 {
            Err(_) => return viol("panic", format!("{}: restoring panics", who)),
            Ok(Err(x)) => {
                st.probe(&format!("refused with {:?}", crate::core::ec(&x)));
                if c.damage.is_empty() && c.rmissing.is_none() && c.rshort.is_none() && c.gone.is_none() && ex.ok {
                    return viol("refused", format!("{}: an undamaged snapshot is refused: {}", who, x));
                }
                st.see(crate::rng::hash_str(&format!("{:?}", crate::core::ec(&x))));
            }
            Ok(Ok(())) => {
                st.probe("restored despite damage");
                if !ex.ok && !doubtful {
                    return viol("accepted", format!("{}: accepted although it cannot be restored as it says", who));
                }
                if ex.ok && !doubtful {
                    let mask = if c.prog.rv32 { 0xffff_ffffu64 } else { u64::MAX };
                    let want = State {
                        open: None,
                        pc: pc & mask,
                        regs: regs.iter().map(|x| x & mask).collect(),
                        cycles: cycles.map_or(0, |x| x.0),
                        lr: lr & mask,
                        pages: ex.mem.chunks(4096).map(crate::core::page_digest).collect(),
                        flags: ex.flags.clone(),
                    };
                    let got = match state(e.core()) {
                        Ok(s) => s,
                        Err(x) => return viol("observe", format!("{}: memory cannot be read: {:?}", who, x)),
                    };
                    if let Some(d) = want.diff(&got, true, cycles.is_some(), Dirty::Ignore) {
                        return viol("restored", format!("{}: not what the snapshot says: {}", who, d));
                    }
                    if let Some((_, m)) = cycles {
                        if e.core().max_cyc() != m {
                            return viol("restored", format!("{}: limit {}, expected {}", who, e.core().max_cyc(), m));
                        }
                    }
                    st.see(got.digest());
                }
            }
        }
        // whatever came of it, the machine can be run
        let cyc = e.core().cyc();
        if k.lock().unwrap().ctx2.is_none() {
            k.lock().unwrap().ctx2 = Some(Ctx2::new(source(c, &g.built.elf, None)));
        }
        e.core().set_max_cyc(cyc.saturating_add(3000));
        let r3 = match catch_unwind(AssertUnwindSafe(|| e.run())) {
            Ok(r) => r,
            Err(_) => return viol("panic", format!("{}: running the restored machine panics", who)),
        };
        st.see(crate::rng::hash_str(&format!("{:?}", cls(&r3))));
        st.units += e.core().cyc().wrapping_sub(cyc).min(1 << 20);
        if matches!(r3, Err(Error::Pause)) {
            return viol("spurious", format!("{}: reports a pause nobody asked for", who));
        }
        let _ = (r, EC::Pause);
        Ok(())
    }
    fn atoms(c: &Case) -> usize {
        c.damage.len() + c.prog.atoms()
    }
    fn without(c: &Case, lo: usize, hi: usize) -> Case {
        let n = c.damage.len();
        let mut d = c.clone();
        d.damage = drop_range(&c.damage, lo, hi);
        if hi > n {
            d.prog = c.prog.without(lo.saturating_sub(n), hi - n);
        }
        d
    }
    fn simpler(c: &Case) -> Vec<Case> {
        let mut v: Vec<Case> = c.prog.simpler().into_iter().map(|p| Case { prog: p, ..c.clone() }).collect();
        let mut push = |f: &dyn Fn(&mut Case)| {
            let mut d = c.clone();
            f(&mut d);
            v.push(d);
        };
        if c.missing.is_some() {
            push(&|d| d.missing = None);
        }
        if c.short.is_some() {
            push(&|d| d.short = None);
        }
        if c.rmissing.is_some() {
            push(&|d| d.rmissing = None);
        }
        if c.rshort.is_some() {
            push(&|d| d.rshort = None);
        }
        if c.gone.is_some() {
            push(&|d| d.gone = None);
        }
        if c.kind != Kind::InterpSparse {
            push(&|d| d.kind = Kind::InterpSparse);
        }
        if c.into != Kind::InterpSparse {
            push(&|d| d.into = Kind::InterpSparse);
        }
        v
    }
}
