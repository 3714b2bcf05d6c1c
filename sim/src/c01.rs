//! C01: every engine runs every program to the same, specified result.

use crate::core::Dirty;
use crate::engine::{build, kinds, Cost, Engine, Kind};
use crate::kernel::{diff_events, kernel};
use crate::prog::{generate, Gen, Node, Prog};
use crate::rng::Rng;
use crate::scn::*;
use ckb_vm::Error;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Slice {
    /// one call to run
    Run,
    /// through the single-step interface only
    Steps,
    /// n steps, then run; the decoder is dropped before run when `cold`
    StepsThenRun(u64, bool),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub prog: Prog,
    pub cost: Cost,
    pub engines: Vec<(Kind, bool, Slice)>,
}

pub struct C01;

/// Something that ends the program abnormally.
pub fn terminal(rng: &mut Rng, p: &Prog) -> Vec<Node> {
    let mut v = vec![];
    let m = p.mem;
    let wild = |rng: &mut Rng| match rng.below(7) {
        0 => m,
        1 => m - 1,
        2 => m + rng.below(1 << 20),
        3 => u64::MAX - rng.below(16),
        4 => rng.next() | 1 << 40,
        5 => m - rng.range(1, 7),
        _ => (m & 0xffff_ffff) | 1 << 31,
    };
    v.push(Node::Skip(0));
    // older versions let the trace engines compare addresses by their lower
    // half
    let far = if p.version >= 2 && !p.rv32 { 3 } else { 0 };
    match rng.below(8 + far) {
        8.. => {
            let f = rng.usize(p.funcs.len());
            let b = *rng.pick(&[32u64, 33, 40, 63]);
            v.push(Node::Far(f, 1 << b, rng.bool()))
        }
        0 => v.push(Node::Illegal),
        1 | 2 => {
            let a = wild(rng);
            v.push(Node::Abs { st: false, f3: *rng.pick(&[0, 1, 2, 4, 5]), r: 5, addr: a })
        }
        3 | 4 => {
            let a = wild(rng);
            v.push(Node::Abs { st: true, f3: *rng.pick(&[0, 1, 2]), r: 5, addr: a })
        }
        5 => v.push(Node::Abs { st: true, f3: rng.below(3) as u32, r: 5, addr: p.text + rng.below(64) }),
        6 => {
            let a = *rng.pick(&[p.bases[0], p.bases[1], m, m - 4096]);
            v.push(Node::Jump(a & !3))
        }
        _ => v.push(Node::Host(*rng.pick(&[0x7777u64, 93 + 256, 0, 92, 94, 93 << 8, 0xffff_ffff, 0x8000_005d]), vec![])),
    }
    v
}

pub fn drive(e: &mut dyn Engine, s: &Slice, budget: u64) -> Result<i8, Error> {
    match s {
        Slice::Run => e.run(),
        Slice::Steps => {
            e.set_running(true);
            let mut n = 0;
            while e.running() {
                e.step()?;
                n += 1;
                if n > budget {
                    return Err(Error::Unexpected("too many steps".into()));
                }
            }
            Ok(e.exit_code())
        }
        Slice::StepsThenRun(k, cold) => {
            e.set_running(true);
            for _ in 0..*k {
                if !e.running() {
                    return Ok(e.exit_code());
                }
                e.step()?;
            }
            if *cold {
                e.cold();
            }
            if !e.running() {
                return Ok(e.exit_code());
            }
            e.run()
        }
    }
}

impl Prop for C01 {
    type Case = Case;
    const ID: &'static str = "C01";
    const RULE: &'static str = "a case is one generated guest program (random instructions of every supported extension, fusable sequences, loops, calls placed at page/frame ends and at aliasing cache slots, host calls, a normal or faulting end) run on the reference model and on a random subset of engines, decoders and slicings; non-trivial if the program made a host call and its observable outcome (host-call history with registers and cycles, final state) was not seen before";
    const REAL: &'static [&'static str] = &["decoder", "interpreter", "trace machine", "assembly machine and its three decoders", "flat/sparse/W^X memory", "ELF loading", "stack initialisation"];
    const STUB: &'static [&'static str] = &["host-call handlers", "tiny trace decoder (extra engine)"];

    fn gen(rng: &mut Rng, _t: Tier) -> Case {
        let mut g = Gen::random(rng);
        if rng.chance(1, 16) {
            // code and data more than 2 GiB apart
            g.rv32 = false;
            g.version = 2;
            g.mem = *rng.pick(&[3, 6, 8]) << 30;
            g.funcs = g.funcs.max(2);
        }
        let mut prog = generate(rng, &g);
        if rng.chance(1, 4) {
            let t = terminal(rng, &prog);
            prog.funcs[0].body.extend(t);
        }
        let cost = random_cost(rng);
        let all = kinds(prog.rv32);
        let mut engines = vec![];
        let n = rng.range(2, 4) as usize;
        let start = rng.usize(all.len());
        for i in 0..n {
            let k = all[(start + i * 3) % all.len()];
            let s = match rng.below(8) {
                0 => Slice::Steps,
                1 => Slice::StepsThenRun(rng.logscale(500), rng.bool()),
                _ => Slice::Run,
            };
            engines.push((k, rng.bool(), s));
        }
        Case { prog, cost, engines }
    }

    fn run(c: &Case, st: &mut Stats) -> Result<(), Violation> {
        let g = Guest::new(&c.prog);
        // reference
        let mc = cfg(&c.prog, Kind::Model, c.cost);
        let k = kernel();
        k.lock().unwrap().mem_every = 5;
        let mut me = build(&mc, &k, None);
        let lr = me.load(&g.built.elf, &g.args);
        let want = match &lr {
            Ok(_) => {
                let r = me.run();
                outcome(me.as_mut(), r, &k)?
            }
            Err(e) => outcome(me.as_mut(), Err(clone_err(e)), &k)?,
        };
        st.kernel(&k);
        if let Some(e) = me.disputed() {
            return viol("decode", format!("a legal instruction is refused: {}", e));
        }
        st.units += want.st.cycles.min(1 << 32);
        st.see(want.sig());
        if want.res == Err(crate::core::EC::Unexpected) {
            st.probe("model step or event limit");
            return Ok(());
        }
        if !want.events.is_empty() {
            st.sig(want.sig());
        }
        match want.res {
            Ok(_) => st.probe("normal exit"),
            Err(e) => st.probe(&format!("ended by {:?}", e)),
        }
        for (kind, persistent, slice) in &c.engines {
            let mut ec = cfg(&c.prog, *kind, c.cost);
            ec.persistent = *persistent;
            let k = kernel();
            k.lock().unwrap().mem_every = 5;
            let mut e = build(&ec, &k, None);
            let el = e.load(&g.built.elf, &g.args);
            let who = format!("{} ({:?})", kind.name(), slice);
            match (&lr, &el) {
                (Ok(a), Ok(b)) if a == b => (),
                (Err(a), Err(b)) if crate::core::ec(a) == crate::core::ec(b) => continue,
                _ => return viol("load", format!("{}: loading gives {:?}, expected {:?}", who, el, lr)),
            }
            // the trace machine alone accepts MOP on version 0
            if kind.trace() && c.prog.isa & ckb_vm::ISA_MOP != 0 && c.prog.version == 0 {
                continue;
            }
            let r = drive(e.as_mut(), slice, 4_000_000);
            let got = outcome(e.as_mut(), r, &k)?;
            st.kernel(&k);
            st.runs += 1;
            *st.engines.entry(kind.name()).or_default() += 1;
            if *slice != Slice::Run {
                st.fault("sliced by single steps", 1);
            }
            compare(&want, &got, *kind, &who)?;
        }
        Ok(())
    }
    fn known(id: &str) -> Option<Result<String, String>> {
        if id != "C01-sbb-operand" {
            return None;
        }
        // the borrow chain of macro-op fusion, its first comparison against
        // a register that has nothing to do with it
        let mut rng = Rng::new(1);
        let mut g = Gen::random(&mut rng);
        g.rv32 = false;
        g.version = 2;
        g.isa = ckb_vm::ISA_MOP;
        let mut p = generate(&mut rng, &g);
        let rr = crate::isa::r_type;
        let mut body: Vec<Node> = [(5u32, 100u64), (6, 1), (7, 3), (28, 50), (9, 500)].iter().map(|(r, v)| Node::Li(*r, *v)).collect();
        body.push(Node::W(vec![
            rr(0x33, 0, 0x20, 6, 5, 6),
            rr(0x33, 3, 0, 28, 5, 9),
            rr(0x33, 0, 0x20, 5, 6, 7),
            rr(0x33, 3, 0, 7, 6, 5),
            rr(0x33, 6, 0, 6, 7, 28),
        ]));
        body.push(Node::Host(crate::kernel::LOG, vec![]));
        p.funcs.truncate(1);
        p.funcs[0].body = body;
        let guest = Guest::new(&p);
        let mut values = vec![];
        for kind in [Kind::Model, Kind::InterpSparse, Kind::AsmSimple] {
            let k = kernel();
            let mut e = build(&cfg(&p, kind, Cost::One), &k, None);
            if let Err(x) = e.load(&guest.built.elf, &guest.args) {
                return Some(Err(format!("the probe does not load: {:?}", x)));
            }
            let r = e.run();
            values.push((kind.name(), e.core().reg(6), r.map_err(|x| crate::core::ec(&x))));
        }
        Some(if values.iter().any(|v| v.1 != values[0].1) {
            Ok(format!("[C01-sbb-operand] sub x6,x5,x6; sltu x28,x5,x9; sub x5,x6,x7; sltu x7,x6,x5; or x6,x7,x28 with macro-op fusion gives x6 = {}", values.iter().map(|v| format!("{} on {}", v.1, v.0)).collect::<Vec<_>>().join(", ")))
        } else {
            Err(format!("all agree: {:?}", values))
        })
    }

    fn atoms(c: &Case) -> usize {
        c.engines.len() + c.prog.atoms()
    }
    fn without(c: &Case, lo: usize, hi: usize) -> Case {
        let n = c.engines.len();
        let mut d = c.clone();
        d.engines = drop_range(&c.engines, lo, hi);
        if hi > n {
            d.prog = c.prog.without(lo.saturating_sub(n), hi - n);
        }
        d
    }
    fn simpler(c: &Case) -> Vec<Case> {
        let mut v: Vec<Case> = c.prog.simpler().into_iter().map(|p| Case { prog: p, ..c.clone() }).collect();
        if c.cost != Cost::One {
            v.push(Case { cost: Cost::One, ..c.clone() });
        }
        for i in 0..c.engines.len() {
            if c.engines[i].2 != Slice::Run {
                let mut d = c.clone();
                d.engines[i].2 = Slice::Run;
                v.push(d);
            }
            if c.engines[i].1 {
                let mut d = c.clone();
                d.engines[i].1 = false;
                v.push(d);
            }
        }
        v
    }
}

pub fn drop_range<T: Clone>(v: &[T], lo: usize, hi: usize) -> Vec<T> {
    v.iter()
        .enumerate()
        .filter(|(i, _)| *i < lo || *i >= hi)
        .map(|(_, x)| x.clone())
        .collect()
}

pub fn clone_err(e: &Error) -> Error {
    e.clone()
}

/// An engine's outcome against the model's.
pub fn compare(want: &Outcome, got: &Outcome, kind: Kind, who: &str) -> Result<(), Violation> {
    if let Some(d) = diff_events(&want.events, &got.events) {
        return viol("history", format!("{}: {}", who, d));
    }
    if want.res != got.res {
        return viol("result", format!("{}: result {:?}, expected {:?}", who, got.res, want.res));
    }
    // after an error the program counter is unspecified, and the assembly
    // machine has charged for the whole block
    let ok = want.res.is_ok();
    if let Some(d) = want.st.diff(&got.st, ok, ok || !kind.asm(), Dirty::AtLeast) {
        return viol("state", format!("{}: {}", who, d));
    }
    Ok(())
}
