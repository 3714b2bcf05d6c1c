//! C19: what a program finds when it starts: its image, its arguments, and
//! nothing else.

use crate::c01::drop_range;
use crate::core::{ec, page_digest, state, Dirty, State, EC};
use crate::engine::{build, Cost, Engine, Kind};
use crate::kernel::kernel;
use crate::model::{read_image, Seg};
use crate::prog::{generate, DataSeg, Gen, Prog};
use crate::rng::{mix, Rng};
use crate::scn::*;
use ckb_vm::{Bytes, Error};
use serde::{Deserialize, Serialize};
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Start {
    pub prog: usize,
    pub args: Vec<Vec<u8>>,
    /// the image is parsed once, by somebody else, and loaded from metadata
    pub meta: bool,
    /// reset the machine before
    pub reset: bool,
    /// steps of the program to run afterwards (0: to its end)
    pub run: Option<u64>,
    /// the image's entry is somewhere else by this much (and it is not run)
    #[serde(default)]
    pub bump: u64,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub progs: Vec<Prog>,
    pub starts: Vec<Start>,
    pub kinds: Vec<Kind>,
}

pub struct C19;

struct Seen {
    load: Result<u64, EC>,
    st: State,
    run: Option<Result<i8, EC>>,
    end: Option<State>,
}

/// the arguments, as the program would look for them
fn arguments(e: &mut dyn Engine, p: &Prog, s: &Start, used: u64) -> Result<(), String> {
    let (mem, w) = (p.mem, if p.rv32 { 4u64 } else { 8 });
    let c = e.core();
    let sp = c.reg(2);
    if sp < mem - mem / 4 || sp > mem {
        return Err(format!("sp {:#x} lies outside the stack", sp));
    }
    if used != mem - sp {
        return Err(format!("{} bytes reported, {} used", used, mem - sp));
    }
    if p.version >= 1 && sp % 16 != 0 {
        return Err(format!("sp {:#x} is not aligned", sp));
    }
    if s.args.is_empty() && p.version >= 1 {
        return Ok(());
    }
    let mut word = |i: u64| c.load(sp + w * i, if p.version == 0 { 4 } else { w }).map_err(|e| format!("{:?}", e));
    let argc = word(0)?;
    if argc != s.args.len() as u64 {
        return Err(format!("argc is {}, {} given", argc, s.args.len()));
    }
    let ptrs = (0..argc).map(|i| word(1 + i)).collect::<Result<Vec<u64>, String>>()?;
    if p.version >= 1 && word(1 + argc)? != 0 {
        return Err("argv does not end with a null pointer".into());
    }
    let mut low = mem;
    for (i, (a, v)) in ptrs.iter().zip(&s.args).enumerate() {
        let n = v.len() as u64 + 1;
        let b = c.load_bytes(*a, n).map_err(|e| format!("argument {}: {:?}", i, e))?;
        if b[..v.len()] != v[..] || b[v.len()] != 0 {
            return Err(format!("argument {} at {:#x} is not what was given", i, a));
        }
        if *a < sp + w * (argc + 1) || a + n > low {
            return Err(format!("argument {} at {:#x} overlaps something else", i, a));
        }
        low = *a;
    }
    Ok(())
}

/// the last word on every byte: later segments win, what no segment names and
/// lies on their pages is zero
fn contents(e: &mut dyn Engine, segs: &[Seg], b: &[u8], mem: u64) -> Result<u64, String> {
    let mut at = std::collections::BTreeMap::new();
    for s in segs {
        let lo = s.vaddr & !4095;
        let hi = (s.vaddr + s.memsz + 4095) & !4095;
        for p in (lo..hi).step_by(4096) {
            let page: &mut Vec<u8> = at.entry(p).or_insert_with(|| vec![0; 4096]);
            for i in 0..4096u64 {
                let a = p + i;
                // a segment takes its pages as a whole
                page[i as usize] = if a >= s.vaddr && a < s.vaddr + s.filesz { b[(s.offset + a - s.vaddr) as usize] } else { 0 };
            }
        }
    }
    let stack = mem - mem / 4;
    let mut n = 0;
    for (p, want) in &at {
        if *p + 4096 > stack {
            continue;
        }
        let got = e.core().load_bytes(*p, 4096).map_err(|e| format!("{:?}", e))?;
        if let Some(i) = (0..4096).find(|i| got[*i] != want[*i]) {
            return Err(format!("byte {:#x} is {:#x}, the image says {:#x}", p + i as u64, got[i], want[i]));
        }
        n = mix(n ^ page_digest(&got));
    }
    Ok(n)
}

fn drive(c: &Case, kind: Kind, st: &mut Stats) -> Result<Vec<Seen>, Violation> {
    let p = &c.progs[0];
    let mut cf = cfg(p, kind, Cost::One);
    cf.max_cycles = 50_000;
    let k = kernel();
    let mut e = build(&cf, &k, None);
    let mut out = vec![];
    let mut clean = true;
    for (n, s) in c.starts.iter().enumerate() {
        let p = &c.progs[s.prog % c.progs.len()];
        let fail = |kind2: &str, msg: String| viol(kind2, format!("{}: start {}: {}", kind.name(), n, msg));
        if s.reset {
            if e.core().do_reset(50_000).is_err() {
                return fail("reset", "cannot be reset".into());
            }
            clean = true;
        }
        let mut b = p.build().elf;
        if s.bump != 0 {
            let mut v = b.to_vec();
            let w = if p.rv32 { 4 } else { 8 };
            let mut x = [0u8; 8];
            x[..w].copy_from_slice(&v[24..24 + w]);
            let x = u64::from_le_bytes(x).wrapping_add(s.bump);
            v[24..24 + w].copy_from_slice(&x.to_le_bytes()[..w]);
            b = Bytes::from(v);
        }
        let args: Vec<Bytes> = s.args.iter().map(|a| Bytes::from(a.clone())).collect();
        let r = catch_unwind(AssertUnwindSafe(|| -> Result<u64, Error> {
            if s.meta {
                let m = e.parse(&b)?;
                e.load_meta(&b, &m, &args)
            } else {
                e.load(&b, &args)
            }
        }));
        let r = match r {
            Ok(r) => r,
            Err(_) => return fail("panic", "loading panics".into()),
        };
        if kind != Kind::Model {
            st.runs += 1;
        }
        if let (Ok(total), true) = (&r, kind != Kind::Model) {
            let (_, entry, segs) = match read_image(&b) {
                Some(x) => x,
                None => return fail("image", "a broken image is loaded".into()),
            };
            let filed: u64 = segs.iter().map(|s| s.filesz).sum();
            if *total < filed {
                return fail("bytes", format!("{} bytes reported, the segments hold {}", total, filed));
            }
            if e.core().pc() != entry {
                return fail("entry", format!("pc is {:#x}, the entry {:#x}", e.core().pc(), entry));
            }
            if let Err(m) = arguments(e.as_mut(), p, s, total - filed) {
                return fail("arguments", m);
            }
            if let Err(m) = contents(e.as_mut(), &segs, &b, p.mem) {
                return fail("image", m);
            }
            if clean {
                for r in 1..32 {
                    let v = e.core().reg(r);
                    if r != 2 && v != 0 {
                        return fail("registers", format!("x{} is {:#x}", r, v));
                    }
                }
            }
        }
        let ok = r.is_ok();
        let look = |e: &mut dyn Engine| state(e.core()).map_err(|x| Violation { kind: "observe".into(), msg: format!("{}: memory cannot be read: {:?}", kind.name(), x), trace: vec![] });
        let mut seen = Seen { load: r.map_err(|e| ec(&e)), st: look(e.as_mut())?, run: None, end: None };
        clean = false;
        if let (true, Some(limit), 0) = (ok, s.run, s.bump) {
            e.core().set_cyc(0);
            e.core().set_max_cyc(if limit == 0 { 50_000 } else { limit });
            let r = e.run();
            if matches!(r, Err(Error::Unexpected(_))) && kind == Kind::Model || e.disputed().is_some() {
                out.push(seen);
                return Ok(out);
            }
            e.core().set_max_cyc(50_000);
            if r.is_ok() {
                seen.end = Some(look(e.as_mut())?);
            }
            seen.run = Some(r.map_err(|e| ec(&e)));
            // where a limited run stops is another matter
            if !matches!(seen.run, Some(Ok(_))) {
                out.push(seen);
                if c.starts.get(n + 1).map_or(false, |s| !s.reset) {
                    return Ok(out);
                }
                continue;
            }
        }
        out.push(seen);
    }
    Ok(out)
}

impl Prop for C19 {
    type Case = Case;
    const ID: &'static str = "C19";
    const RULE: &'static str = "a case is one to three sound images (many segments, unaligned, overlapping, sharing pages, with zero tails, near the memory's end) and a history of starting them in one machine with argument lists of any number and size, directly or from metadata parsed before, after a reset or on top of what ran before; what the program finds (entry, registers, every byte of its segments, argc, argv, strings, stack) is compared with what image and arguments say and with the reference loader, on every memory; distinct by (decisions, memories)";
    const REAL: &'static [&'static str] = &["ELF parsing", "program loading", "stack set-up", "every engine's memory", "every engine"];
    const STUB: &'static [&'static str] = &["host-call handlers"];

    fn gen(rng: &mut Rng, _t: Tier) -> Case {
        let mut g = Gen::random(rng);
        g.budget = 300;
        g.body = rng.range(2, 6) as usize;
        g.funcs = rng.range(1, 3) as usize;
        g.mem = *rng.pick(&[1 << 20, 1 << 20, 2 << 20, 4 << 20]);
        let mut progs = vec![];
        for _ in 0..rng.range(1, 3) {
            let mut p = generate(rng, &g);
            // a neighbourhood of segments
            let mut at = 0x40000 + rng.below(0x1000);
            for _ in 0..rng.logscale(12) {
                let n = rng.logscale(9000);
                let memsz = match rng.below(12) {
                    0 => rng.below(n + 1),
                    1..=5 => n,
                    _ => n + rng.logscale(20_000),
                };
                let addr = match rng.below(8) {
                    0 => rng.below(0xc000),
                    1 => (p.mem - p.mem / 4).wrapping_sub(rng.range(1, 20) * 4096) + rng.below(4096),
                    2 => p.mem - memsz.max(1),
                    3 => at & !4095,
                    4 => at + rng.below(40_000),
                    _ => at,
                };
                at = addr + memsz;
                let n = n as usize;
                p.data.push(DataSeg { addr, init: rng.bytes(n), memsz, write: rng.chance(14, 15) });
            }
            progs.push(p);
        }
        let quarter = progs[0].mem / 4;
        let w = if g.rv32 { 4 } else { 8 };
        let starts = (0..rng.range(1, 4))
            .map(|_| Start {
                prog: rng.usize(progs.len()),
                args: match rng.below(12) {
                    0 => vec![],
                    // the stack filled to its last byte, or one too many
                    1 => {
                        let n = rng.range(1, 4);
                        let mut left = quarter - w * (n + 1 + (g.version > 0) as u64) - n;
                        left = (left + rng.below(3)).saturating_sub(1 + rng.below(2) * rng.below(40));
                        let mut v: Vec<Vec<u8>> = (1..n).map(|_| vec![7; rng.below(50) as usize]).collect();
                        let used: u64 = v.iter().map(|x| x.len() as u64).sum();
                        v.insert(rng.usize(v.len() + 1), rng.bytes((left - used) as usize));
                        v
                    }
                    2 => (0..rng.logscale(quarter / 8)).map(|i| vec![i as u8; rng.below(3) as usize]).collect(),
                    3 => vec![vec![]; rng.range(1, 20) as usize],
                    _ => (0..rng.below(6))
                        .map(|_| {
                            let n = rng.logscale(5000) as usize;
                            rng.bytes(n)
                        })
                        .collect(),
                },
                bump: match rng.below(12) {
                    0 => *rng.pick(&[1u64, 2, 3, 5]),
                    1 => rng.edge64(),
                    _ => 0,
                },
                meta: rng.chance(1, 3),
                reset: rng.chance(2, 3),
                run: match rng.below(4) {
                    0 => None,
                    1 => Some(rng.range(1, 60)),
                    _ => Some(0),
                },
            })
            .collect();
        let more: &[Kind] = if g.rv32 { &[Kind::TraceSparse, Kind::TraceFlat] } else { &[Kind::TraceSparse, Kind::TraceFlat, Kind::AsmFixed, Kind::AsmDyn, Kind::AsmTiny(2)] };
        let mut kinds = vec![Kind::InterpSparse, Kind::InterpFlat];
        if !g.rv32 {
            kinds.push(Kind::AsmSimple);
        }
        kinds.push(*rng.pick(more));
        Case { progs, starts, kinds }
    }

    fn run(c: &Case, st: &mut Stats) -> Result<(), Violation> {
        let want = drive(c, Kind::Model, st)?;
        let mut sig = 0;
        for w in &want {
            sig = mix(sig ^ w.st.digest() ^ crate::rng::hash_str(&format!("{:?}", w.load)));
            match w.load {
                Ok(_) => st.probe("started"),
                Err(e) => st.probe(&format!("refused: {:?}", e)),
            }
        }
        st.fault("start after a reset", c.starts.iter().skip(1).filter(|s| s.reset).count() as u64);
        st.fault("start on top of another program", c.starts.iter().skip(1).filter(|s| !s.reset).count() as u64);
        for kind in &c.kinds {
            if kind.trace() && c.progs[0].isa & ckb_vm::ISA_MOP != 0 && c.progs[0].version == 0 {
                continue;
            }
            *st.engines.entry(kind.name()).or_default() += 1;
            let got = drive(c, *kind, st)?;
            for (i, (w, g)) in want.iter().zip(&got).enumerate() {
                let fail = |k: &str, msg: String| viol(k, format!("{}: start {}: {}", kind.name(), i, msg));
                if w.load != g.load {
                    return fail("decision", format!("loading gives {:?}, expected {:?}", g.load, w.load));
                }
                let mut a = w.st.clone();
                if w.load.is_err() {
                    a.regs = g.st.regs.clone();
                }
                if let Some(d) = a.diff(&g.st, w.load.is_ok(), false, Dirty::Ignore) {
                    return fail("memory", format!("after loading: {}", d));
                }
                match (&w.run, &g.run) {
                    (Some(Ok(a)), b) if *b != Some(Ok(*a)) => return fail("result", format!("the run gives {:?}, expected {:?}", g.run, w.run)),
                    (Some(Err(_)), Some(Ok(_))) => return fail("result", format!("the run gives {:?}, expected {:?}", g.run, w.run)),
                    _ => (),
                }
                if let (Some(a), Some(b)) = (&w.end, &g.end) {
                    if let Some(d) = a.diff(b, false, true, Dirty::Ignore) {
                        return fail("memory", format!("after the run: {}", d));
                    }
                }
                st.see(g.st.digest());
            }
        }
        if c.starts.len() > 1 || !c.starts[0].args.is_empty() {
            st.sig(sig);
        }
        Ok(())
    }

    fn atoms(c: &Case) -> usize {
        c.starts.len() + c.progs.iter().map(|p| p.data.len()).sum::<usize>() + c.starts.iter().map(|s| s.args.len()).sum::<usize>()
    }
    fn without(c: &Case, lo: usize, hi: usize) -> Case {
        let mut d = c.clone();
        let mut at = c.starts.len();
        d.starts = drop_range(&c.starts, lo, hi);
        if d.starts.is_empty() {
            d.starts = vec![c.starts[0].clone()];
        }
        for (i, p) in c.progs.iter().enumerate() {
            d.progs[i].data = drop_range(&p.data, lo.saturating_sub(at), hi.saturating_sub(at));
            at += p.data.len();
        }
        if d.starts.len() == c.starts.len() {
            for (i, s) in c.starts.iter().enumerate() {
                d.starts[i].args = drop_range(&s.args, lo.saturating_sub(at), hi.saturating_sub(at));
                at += s.args.len();
            }
        }
        d
    }
    fn simpler(c: &Case) -> Vec<Case> {
        let mut v = vec![];
        for (i, s) in c.starts.iter().enumerate() {
            let mut put = |f: &dyn Fn(&mut Start)| {
                let mut d = c.clone();
                f(&mut d.starts[i]);
                v.push(d);
            };
            if s.meta {
                put(&|s| s.meta = false);
            }
            if !s.reset {
                put(&|s| s.reset = true);
            }
            if s.run.is_some() {
                put(&|s| s.run = None);
            }
            for (j, a) in s.args.iter().enumerate().take(8) {
                if a.len() > 1 {
                    put(&|s| {
                        let n = s.args[j].len() / 2;
                        s.args[j].truncate(n)
                    });
                }
            }
        }
        for k in 0..c.kinds.len() {
            if c.kinds.len() > 1 {
                let mut d = c.clone();
                d.kinds.remove(k);
                v.push(d);
            }
        }
        for (i, p) in c.progs.iter().enumerate() {
            for q in p.simpler().into_iter().take(30) {
                let mut d = c.clone();
                d.progs[i] = q;
                v.push(d);
            }
        }
        v
    }
}
