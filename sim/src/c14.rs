//! C14: host memory runs out at any single allocation (or for good from some
//! allocation on), in a process of its own; and what was allocated is given
//! back the way it was obtained.

use crate::alloc as al;
use crate::c01::drop_range;
use crate::core::{ec, state, Blobs, Ctx2};
use crate::engine::{build, kinds, Cfg, Cost, Engine, Kind};
use crate::kernel::{kernel, K};
use crate::prog::{generate, Gen, HostGen, Prog};
use crate::rng::{hash_str, mix, Rng};
use crate::scn::*;
use ckb_vm::{Bytes, Error};
use serde::{Deserialize, Serialize};
use std::io::Read;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::Ordering::Relaxed;

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Op {
    /// run for at most this many cycles
    Run(u64),
    RunPaused,
    Save1(Kind),
    Save2(Kind),
    Reset,
    Cold,
    Look,
    /// another machine beside this one
    Twin(Kind),
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Fail {
    /// one allocation, by its place among all, in 1/65536 of their number
    One(u16),
    /// one of the big ones
    Big(u16),
    /// everything from there on
    From(u16),
    /// everything larger than this
    Above(u64),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub prog: Prog,
    pub kind: Kind,
    pub persistent: bool,
    pub ops: Vec<Op>,
    pub fails: Vec<Fail>,
}

pub struct C14;

#[derive(Serialize, Deserialize, Default, Debug, Clone)]
struct Report {
    /// what each operation answered, digested
    answers: Vec<u64>,
    /// the operation that reported an error while memory was short
    stopped: Option<String>,
    panicked: Option<String>,
    allocs: u64,
    bigs: Vec<u64>,
    failed: u64,
    wrong: u64,
    wrong_what: Vec<usize>,
    units: u64,
}

struct W {
    e: Box<dyn Engine>,
    k: K,
    ctx: Option<Ctx2>,
    twins: Vec<Box<dyn Engine>>,
}

fn cf(c: &Case, kind: Kind) -> Cfg {
    let mut f = cfg(&c.prog, kind, Cost::One);
    f.persistent = c.persistent;
    f
}

fn begin(c: &Case, g: &Guest) -> Result<W, Error> {
    let k = kernel();
    let mut e = build(&cf(c, c.kind), &k, None);
    let m = e.parse(&g.built.elf)?;
    e.load_meta(&g.built.elf, &m, &g.args)?;
    let mut ctx = Ctx2::new(Blobs::new(vec![Bytes::new(), Bytes::new(), Bytes::new(), g.built.elf.clone()]));
    e.core().mark2(&mut ctx, &m, 3, 0)?;
    Ok(W { e, k, ctx: Some(ctx), twins: vec![] })
}

fn op(c: &Case, g: &Guest, w: &mut W, o: &Op) -> Result<u64, Error> {
    let run = |w: &mut W| match w.e.run() {
        Ok(x) => Ok(x as u64 & 0xff),
        // the ordinary ways to stop
        Err(e @ (Error::IO { .. } | Error::External(_))) => Err(e),
        Err(e) => Ok(hash_str(&format!("{:?}", ec(&e)))),
    };
    match o {
        Op::Run(n) => {
            let m = w.e.core().cyc().saturating_add(*n);
            w.e.core().set_max_cyc(m);
            run(w)
        }
        Op::RunPaused => {
            w.e.pause().interrupt();
            run(w)
        }
        Op::Save1(k) => {
            let s = w.e.core().snap1()?;
            let mut e = build(&cf(c, *k), &w.k, None);
            e.core().resume1(&s)?;
            w.e = e;
            w.ctx = None;
            Ok(s.pages.len() as u64)
        }
        Op::Save2(k) => {
            let ctx = match w.ctx.take() {
                Some(x) => x,
                None => return Ok(0),
            };
            let s = w.e.core().snap2(&ctx)?;
            let mut e = build(&cf(c, *k), &w.k, None);
            let mut ctx = Ctx2::new(Blobs::new(vec![Bytes::new(), Bytes::new(), Bytes::new(), g.built.elf.clone()]));
            e.core().resume2(&mut ctx, &s)?;
            w.e = e;
            w.ctx = Some(ctx);
            Ok(s.dirty_pages.len() as u64)
        }
        Op::Reset => {
            w.e.core().do_reset(u64::MAX)?;
            w.ctx = None;
            w.e.load(&g.built.elf, &g.args)
        }
        Op::Cold => {
            w.e.cold();
            Ok(0)
        }
        Op::Look => {
            let s = state(w.e.core())?;
            Ok(s.digest())
        }
        Op::Twin(k) => {
            let kk = kernel();
            let mut e = build(&cf(c, *k), &kk, None);
            e.load(&g.built.elf, &g.args)?;
            e.core().set_max_cyc(200);
            let r = e.run();
            let r = match r {
                Ok(x) => x as u64,
                Err(e) => hash_str(&format!("{:?}", ec(&e))),
            };
            w.twins.push(e);
            Ok(r)
        }
    }
}

/// The script, with the armed allocator. Every answer counts.
fn script(c: &Case, g: &Guest) -> Report {
    let mut r = Report::default();
    r.answers.reserve(c.ops.len() + 4);
    let mut w: Option<W> = None;
    let res = catch_unwind(AssertUnwindSafe(|| {
        al::ARMED.store(true, Relaxed);
        match begin(c, g) {
            Ok(x) => w = Some(x),
            Err(e) => {
                al::ARMED.store(false, Relaxed);
                r.stopped = Some(format!("load: {:?}", e));
                return;
            }
        }
        al::ARMED.store(false, Relaxed);
        r.answers.push(1);
        for o in &c.ops {
            al::ARMED.store(true, Relaxed);
            let x = op(c, g, w.as_mut().unwrap(), o);
            al::ARMED.store(false, Relaxed);
            match x {
                Ok(v) => r.answers.push(v),
                Err(e) => {
                    r.stopped = Some(format!("{:?}: {:?}", o, e));
                    return;
                }
            }
        }
        let x = w.as_mut().unwrap();
        r.units = x.e.core().cyc().min(1 << 24);
        let s = state(x.e.core()).map(|s| s.digest()).unwrap_or(1);
        r.answers.push(s);
        r.answers.push(x.k.lock().unwrap().events.iter().fold(0, |h, e| mix(h ^ e.regs ^ e.ret)));
    }));
    al::ARMED.store(false, Relaxed);
    if res.is_err() {
        r.panicked = Some("panicked".into());
    }
    // a machine that lost its memory must not be touched by its own end either
    al::ARMED.store(true, Relaxed);
    drop(w);
    al::ARMED.store(false, Relaxed);
    r.allocs = al::COUNT.load(Relaxed);
    r.bigs = al::BIG.iter().take(al::NBIG.load(Relaxed).min(al::BIGS)).map(|x| x.load(Relaxed)).collect();
    r.failed = al::FAILED.load(Relaxed);
    r.wrong = al::WRONG.load(Relaxed);
    r.wrong_what = al::WRONG_WHAT.iter().map(|x| x.load(Relaxed)).collect();
    r
}

enum End {
    Report(Report),
    Signal(i32),
    Exit(i32),
}

/// Run the script in a process of its own.
fn child(c: &Case, g: &Guest, setup: &dyn Fn()) -> End {
    let mut fds = [0i32; 2];
    unsafe {
        libc::pipe(fds.as_mut_ptr());
        let pid = libc::fork();
        if pid == 0 {
            libc::close(fds[0]);
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            for s in [libc::SIGSEGV, libc::SIGBUS, libc::SIGILL, libc::SIGFPE, libc::SIGABRT, libc::SIGTRAP] {
                libc::signal(s, libc::SIG_DFL);
            }
            let t = libc::itimerval {
                it_interval: libc::timeval { tv_sec: 0, tv_usec: 0 },
                it_value: libc::timeval { tv_sec: 20, tv_usec: 0 },
            };
            libc::setitimer(libc::ITIMER_PROF, &t, std::ptr::null_mut());
            al::COUNT.store(0, Relaxed);
            al::NBIG.store(0, Relaxed);
            al::FAILED.store(0, Relaxed);
            al::WRONG.store(0, Relaxed);
            al::CHECK.store(true, Relaxed);
            setup();
            let r = script(c, g);
            al::CHECK.store(false, Relaxed);
            al::HUGE.store(0, Relaxed);
            let b = serde_json::to_vec(&r).unwrap();
            let mut o = 0;
            while o < b.len() {
                let n = libc::write(fds[1], b[o..].as_ptr() as *const _, b.len() - o);
                if n <= 0 {
                    break;
                }
                o += n as usize;
            }
            libc::_exit(0);
        }
        libc::close(fds[1]);
        let mut f = <std::fs::File as std::os::fd::FromRawFd>::from_raw_fd(fds[0]);
        let mut s = String::new();
        let _ = f.read_to_string(&mut s);
        let mut status = 0;
        libc::waitpid(pid, &mut status, 0);
        if libc::WIFSIGNALED(status) {
            return End::Signal(libc::WTERMSIG(status));
        }
        match serde_json::from_str(&s) {
            Ok(r) => End::Report(r),
            Err(_) => End::Exit(libc::WEXITSTATUS(status)),
        }
    }
}

impl Prop for C14 {
    type Case = Case;
    const ID: &'static str = "C14";
    const RULE: &'static str = "a case is a guest, an engine and a script (create, load, run in slices, save and restore in both snapshot forms, reset, a second machine, drop), first run with all allocations granted to count them, then once per chosen fault in a process of its own: one allocation refused, all from some point refused, or all above a size; each must abort, report an error, or answer exactly as without the fault, and every block must be given back with the layout it was obtained with; non-trivial if a refusal took effect; distinct by (script answers, refused allocation)";
    const REAL: &'static [&'static str] = &["every engine and decoder", "memory", "program loading", "both snapshot forms", "Drop implementations"];
    const STUB: &'static [&'static str] = &["memory allocator (system allocator behind a failing seam)", "host-call handlers", "data source"];

    fn gen(rng: &mut Rng, t: Tier) -> Case {
        let mut g = Gen::random(rng);
        g.budget = 300;
        g.body = rng.range(3, 10) as usize;
        if rng.bool() {
            // long straight code: the dynamic traces
            g.straight = true;
        }
        g.host.push((2, HostGen::Yield));
        g.mem = *rng.pick(&[1 << 20, 1 << 20, 4 << 20]);
        let prog = generate(rng, &g);
        let ks = kinds(prog.rv32);
        let kind = if rng.chance(2, 3) { ks[rng.usize(ks.len()).max(rng.usize(ks.len()))] } else { *rng.pick(ks) };
        let n = rng.range(1, 7);
        let ops = (0..n)
            .map(|_| match rng.below(12) {
                0 => Op::RunPaused,
                1 | 2 => Op::Save1(*rng.pick(ks)),
                3 | 4 => Op::Save2(*rng.pick(ks)),
                5 => Op::Reset,
                6 => Op::Cold,
                7 => Op::Look,
                8 => Op::Twin(*rng.pick(ks)),
                _ => Op::Run(rng.logscale(1000)),
            })
            .collect();
        let n = if t == Tier::Quick { rng.range(4, 24) } else { rng.range(8, 60) };
        let fails = (0..n)
            .map(|_| {
                let x = rng.next() as u16;
                match rng.below(8) {
                    0..=2 => Fail::One(x),
                    3..=5 => Fail::Big(x),
                    6 => Fail::From(x),
                    _ => Fail::Above(rng.logscale(8 << 20)),
                }
            })
            .collect();
        Case { prog, kind, persistent: rng.chance(3, 4), ops, fails }
    }

    fn run(c: &Case, st: &mut Stats) -> Result<(), Violation> {
        let mop0 = c.prog.isa & ckb_vm::ISA_MOP != 0 && c.prog.version == 0;
        let usable = |k: &Kind| !(c.prog.rv32 && k.asm() || mop0 && k.trace());
        let ok = c.ops.iter().all(|o| match o {
            Op::Save1(k) | Op::Save2(k) | Op::Twin(k) => usable(k),
            _ => true,
        });
        if !usable(&c.kind) || !ok {
            return Ok(());
        }
        let g = Guest::new(&c.prog);
        let base = match child(c, &g, &|| ()) {
            End::Report(r) => r,
            End::Signal(s) => return viol("crash", format!("{}: without any fault the process dies of signal {}", c.kind.name(), s)),
            End::Exit(x) => panic!("child exits with {}", x),
        };
        if let Some(p) = &base.panicked {
            return viol("crash", format!("{}: without any fault: {}", c.kind.name(), p));
        }
        if base.stopped.is_some() {
            st.probe("script stopped without a fault");
        }
        if base.wrong > 0 {
            let w = &base.wrong_what;
            return viol(
                "layout",
                format!("{}: {} blocks given back wrongly; the first was obtained as {} bytes aligned to {} and returned as {} bytes aligned to {}", c.kind.name(), base.wrong, w[0], w[1], w[2], w[3]),
            );
        }
        *st.engines.entry(c.kind.name()).or_default() += 1;
        st.units += base.units;
        st.probe_n("allocations counted", base.allocs);
        let sig = base.answers.iter().fold(0, |h, x| mix(h ^ x));
        let mut trace = vec![format!("{} allocations, {} of them big", base.allocs, base.bigs.len())];
        for f in &c.fails {
            let pick = |x: u16| 1 + x as u64 * base.allocs / 65536;
            let (what, n): (&str, u64) = match f {
                Fail::One(x) => ("one allocation refused", pick(*x)),
                Fail::Big(x) => {
                    if base.bigs.is_empty() {
                        continue;
                    }
                    ("one big allocation refused", base.bigs[*x as usize * base.bigs.len() / 65536])
                }
                Fail::From(x) => ("all allocations refused from one on", pick(*x)),
                Fail::Above(n) => ("all large allocations refused", *n),
            };
            st.runs += 1;
            let e = child(c, &g, &|| match f {
                Fail::One(_) | Fail::Big(_) => al::FAIL_AT.store(n, Relaxed),
                Fail::From(_) => al::FAIL_FROM.store(n, Relaxed),
                Fail::Above(_) => al::HUGE.store(n.max(2048) as usize, Relaxed),
            });
            let fail = |kind: &str, msg: String| {
                Err(Violation { kind: kind.into(), msg: format!("{}: {} ({}): {}", c.kind.name(), what, n, msg), trace: trace.clone() })
            };
            let o = match e {
                End::Signal(libc::SIGABRT) => {
                    st.fault(what, 1);
                    st.probe("aborted");
                    1
                }
                End::Signal(libc::SIGPROF) => return fail("hang", "the process hangs".into()),
                End::Signal(s) => return fail("invalid", format!("the process dies of signal {} instead of stopping cleanly", s)),
                End::Exit(x) => panic!("child exits with {}", x),
                End::Report(r) => {
                    if r.failed > 0 {
                        st.fault(what, 1);
                    }
                    if r.wrong > 0 {
                        return fail("layout", format!("blocks given back wrongly: {:?}", r.wrong_what));
                    }
                    if r.panicked.is_some() {
                        st.probe("panicked");
                        2
                    } else if r.stopped != base.stopped {
                        st.probe("reported an error");
                        3
                    } else if r.answers != base.answers {
                        return fail("broken", "the machine goes on with other results than with enough memory".into());
                    } else {
                        st.probe("no effect");
                        4
                    }
                }
            };
            trace.push(format!("{} {} -> {}", what, n, o));
            st.see(mix(sig ^ n) ^ o);
            if o != 4 {
                st.sig(mix(sig ^ n));
            }
        }
        Ok(())
    }

    fn atoms(c: &Case) -> usize {
        c.fails.len() + c.ops.len() + c.prog.atoms()
    }
    fn without(c: &Case, lo: usize, hi: usize) -> Case {
        let mut d = c.clone();
        let (a, b) = (c.fails.len(), c.fails.len() + c.ops.len());
        d.fails = drop_range(&c.fails, lo, hi);
        d.ops = drop_range(&c.ops, lo.saturating_sub(a), hi.saturating_sub(a));
        if hi > b {
            d.prog = c.prog.without(lo.saturating_sub(b), hi - b);
        }
        d
    }
    fn simpler(c: &Case) -> Vec<Case> {
        let mut v = vec![];
        for p in c.prog.simpler() {
            v.push(Case { prog: p, ..c.clone() });
        }
        if c.persistent {
            v.push(Case { persistent: false, ..c.clone() });
        }
        if c.kind.asm() && c.kind != Kind::AsmSimple {
            v.push(Case { kind: Kind::AsmSimple, ..c.clone() });
        }
        v
    }
}
