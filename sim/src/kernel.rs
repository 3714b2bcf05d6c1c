//! The host side: deterministic handlers guests call, the recorded history,
//! and the places where the simulator injects faults into a host call.

use crate::core::{ec, regs_digest, Core, Ctx2, EC};
use crate::prog::POOL;
use crate::rng::{hash_bytes, mix, Rng};
use ckb_vm::machine::Pause;
use ckb_vm::{Bytes, Debugger, Error, SupportMachine, Syscalls};
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};

pub const LOG: u64 = 1000;
pub const YIELD: u64 = 1001;
pub const STORE_BYTES: u64 = 1002;
pub const FILL: u64 = 1003;
pub const DIGEST: u64 = 1004;
pub const LOADW: u64 = 1005;
pub const STOREW: u64 = 1006;
pub const SET_FLAG: u64 = 1007;
pub const CLEAR_FLAG: u64 = 1008;
pub const CLEAR_DIRTY: u64 = 1009;
pub const INIT_PAGES: u64 = 1010;
pub const ADD_CYCLES: u64 = 1011;
pub const CYCLES: u64 = 1012;
pub const INTERRUPT: u64 = 1013;
pub const SET_REGS: u64 = 1014;
pub const SNAP2_STORE: u64 = 1015;
pub const LIMIT_UP: u64 = 1016;
/// exec(program, program to fall back to if the first is refused)
pub const EXEC: u64 = 1017;
pub const SEND: u64 = 1018; // pipe, addr, len
pub const RECV: u64 = 1019; // pipe, addr, len
pub const FETCH: u64 = 1020; // addr: can the host fetch an instruction there?
pub const STOP: u64 = 1021; // the host ends the run
pub const EBREAK_NR: u64 = 1;

/// What the simulator does to one particular host call.
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq)]
pub enum Inj {
    /// a pause request arrives while the host call is being served
    Interrupt,
    /// the call is served, then the handler suspends the machine
    Yield,
    /// the call is served, then the handler reports an external failure
    Fail,
    /// the call is served and the host ends the run
    Stop,
}

#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct Event {
    pub nr: u64,
    pub pc: u64,
    pub cycles: u64,
    pub regs: u64,
    pub ret: u64,
    pub mem: u64,
}

/// One delivery to one handler of a stack (C11).
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Delivery {
    pub handler: u32,
    pub nr: u64,
    pub pc: u64,
    pub cycles: u64,
    pub regs: u64,
    pub verdict: u8,
}

#[derive(Clone, Debug)]
pub enum Req {
    Send { pipe: u64, data: Vec<u8> },
    Recv { pipe: u64, addr: u64, len: u64 },
}

#[derive(Clone, Debug, Default)]
pub struct Image {
    pub elf: Bytes,
    pub args: Vec<Bytes>,
}

#[derive(Default)]
pub struct Kernel {
    pub pc_bias: u64,
    pub events: Vec<Event>,
    pub calls: u64,
    pub breaks: u64,
    pub inject: BTreeMap<u64, Inj>,
    pub inject_break: BTreeMap<u64, Inj>,
    pub fired: BTreeMap<String, u64>,
    pub pause: Option<Pause>,
    pub ctx2: Option<Ctx2>,
    pub images: Vec<Image>,
    pub req: Option<Req>,
    /// pauses requested from inside host calls
    pub asked: u64,
    /// digest all of memory at every n-th call (0: never)
    pub mem_every: u64,
    /// one log per handler: initialisations
    pub inits: Vec<u32>,
    pub deliveries: Vec<Delivery>,
    /// seed of the handler stack's decisions; None: handler 0 serves all
    pub router: Option<(u64, u32)>,
    /// host calls are answered by a guest-visible result in a0
    pub last_err: Option<EC>,
    /// the result class of failing operations is shown to the guest
    pub show_class: bool,
    pub event_limit: usize,
    /// instants (poll counts etc.) at which something fired, for the trace
    pub trace: Vec<String>,
    pub op_counts: BTreeMap<u64, u64>,
    /// fault injection into guest-initiated snapshot2 operations
    pub snap2_errors: u64,
    /// check that a load the data source fails changes nothing
    pub guard2: bool,
    pub guard_broken: Option<String>,
    pub exec_count: u64,
    /// after this many, exec does nothing
    pub exec_limit: Option<u64>,
    /// the host does not raise the cycle limit
    pub fixed_limit: bool,
    /// how often the host ended the run
    pub stopped: u64,
    /// look at the machine right after an exec (at some, all of memory)
    pub exec_look: Option<u64>,
}

pub type K = Arc<Mutex<Kernel>>;

pub fn kernel() -> K {
    Arc::new(Mutex::new(Kernel { event_limit: 20000, ..Default::default() }))
}

pub fn bytes_for(seed: u64, n: u64) -> Vec<u8> {
    let n = n.min(1 << 20) as usize;
    Rng::new(seed ^ 0xb1ab).bytes(n)
}

fn code(k: &mut Kernel, r: &Result<u64, Error>) -> u64 {
    match r {
        Ok(v) => *v,
        Err(e) => {
            k.last_err = Some(ec(e));
            if k.show_class {
                0x100 + class_code(ec(e))
            } else {
                1
            }
        }
    }
}
fn class_code(e: EC) -> u64 {
    match e {
        EC::Oob => 1,
        EC::Perm => 2,
        EC::Frozen => 3,
        EC::Unaligned => 4,
        EC::Elf => 5,
        EC::SnapshotData => 6,
        _ => 7,
    }
}

/// Everything a failed data-source load must leave alone.
fn guard(c: &mut dyn Core, ctx: &Ctx2) -> Option<(u64, Vec<u8>)> {
    let st = crate::core::state(c).ok()?;
    let s = c.snap2(ctx).ok()?;
    let mut t = vec![];
    for p in &s.pages_from_source {
        t.extend_from_slice(format!("{:?}", p).as_bytes());
    }
    t.extend_from_slice(&st.flags);
    Some((st.digest(), t))
}

pub fn digest_mem(c: &mut dyn Core) -> u64 {
    let mut h = 0;
    for (at, n) in crate::prog::windows(c.size()) {
        h = match c.load_bytes(at, n) {
            Ok(b) => hash_bytes(7 ^ h, &b),
            Err(_) => 0xdead,
        };
    }
    h
}

impl Kernel {
    pub fn fire(&mut self, what: &str) {
        *self.fired.entry(what.to_string()).or_default() += 1;
    }

    fn event(&mut self, c: &mut dyn Core, nr: u64) -> usize {
        let mut bias = self.pc_bias;
        if bias != 0 && nr == EBREAK_NR && c.fetch16(c.pc().wrapping_sub(2)).ok() == Some(0x9002) {
            // a compressed breakpoint
            bias = 2;
        }
        let pc = c.pc().wrapping_sub(bias);
        let pc = if c.bits() == 32 { pc & 0xffff_ffff } else { pc };
        let mem = if self.mem_every != 0 && (self.events.len() as u64) % self.mem_every == 0 {
            digest_mem(c)
        } else {
            0
        };
        self.events.push(Event { nr, pc, cycles: c.cyc(), regs: regs_digest(c), ret: 0, mem });
        self.events.len() - 1
    }

    fn stop(&mut self, c: &mut dyn Core) {
        self.fire("run ended by the host");
        self.stopped += 1;
        c.stop();
    }

    fn after(&mut self, c: &mut dyn Core, inj: Option<Inj>) -> Result<(), Error> {
        match inj {
            None => Ok(()),
            Some(Inj::Interrupt) => {
                self.fire("pause_in_hostcall");
                if let Some(p) = &self.pause {
                    p.interrupt();
                }
                self.asked += 1;
                Ok(())
            }
            Some(Inj::Yield) => {
                self.fire("handler_yield");
                Err(Error::Yield)
            }
            Some(Inj::Stop) => {
                self.stop(c);
                Ok(())
            }
            Some(Inj::Fail) => {
                self.fire("handler_failure");
                Err(Error::External("injected".into()))
            }
        }
    }

    pub fn hostcall(&mut self, c: &mut dyn Core) -> Result<(), Error> {
        let nr = c.reg(17);
        let ordinal = self.calls;
        self.calls += 1;
        if self.events.len() >= self.event_limit {
            return Err(Error::Unexpected("event limit".into()));
        }
        let at = self.event(c, nr);
        *self.op_counts.entry(nr).or_default() += 1;
        let r = self.op(c, nr);
        let inj = self.inject.remove(&ordinal);
        match r {
            Ok(Some(v)) => {
                let v = if c.bits() == 32 { v & 0xffff_ffff } else { v };
                self.events[at].ret = v;
                c.set_reg(10, v);
                self.after(c, inj)
            }
            Ok(None) => self.after(c, inj),
            Err(e) => Err(e),
        }
    }

    pub fn ebreak(&mut self, c: &mut dyn Core) -> Result<(), Error> {
        let ordinal = self.breaks;
        self.breaks += 1;
        if self.events.len() >= self.event_limit {
            return Err(Error::Unexpected("event limit".into()));
        }
        self.event(c, EBREAK_NR);
        // a debugger may change registers
        let r = POOL[(ordinal % POOL.len() as u64) as usize] as usize;
        let v = c.reg(r) ^ ordinal;
        c.set_reg(r, v);
        let inj = self.inject_break.remove(&ordinal);
        self.after(c, inj)
    }

    /// Ok(Some(v)): done, v goes to a0. Ok(None): a0 untouched.
    fn op(&mut self, c: &mut dyn Core, nr: u64) -> Result<Option<u64>, Error> {
        let a: Vec<u64> = (10..16).map(|i| c.reg(i)).collect();
        let r: Result<u64, Error> = match nr {
            LOG => Ok(0),
            YIELD => {
                c.set_reg(10, 0);
                return Err(Error::Yield);
            }
            STORE_BYTES => {
                let v = bytes_for(a[2], a[1]);
                c.store_bytes(a[0], &v).map(|_| 0)
            }
            FILL => c.fill(a[0], a[1], a[2] as u8).map(|_| 0),
            DIGEST => c.load_bytes(a[0], a[1]).map(|b| hash_bytes(3, &b)),
            LOADW => c.load(a[0], a[1]).map(|v| mix(v) | 2),
            STOREW => c.store(a[0], a[1], a[2]).map(|_| 0),
            SET_FLAG => c.set_flag(a[0], a[1] as u8).map(|_| 0),
            CLEAR_FLAG => c.clear_flag(a[0], a[1] as u8).map(|_| 0),
            CLEAR_DIRTY => {
                let n = c.size() / 4096;
                for p in 0..n {
                    c.clear_flag(p, 4)?;
                }
                Ok(0)
            }
            INIT_PAGES => {
                let s = Bytes::from(bytes_for(a[3], a[3]));
                let s = if a[3] == 0 { None } else { Some(s) };
                c.init_pages(a[0], a[1], a[2] as u8, s, a[4]).map(|_| 0)
            }
            ADD_CYCLES => c.add_cyc_nc(a[0]).map(|_| 0),
            CYCLES => Ok(c.cyc()),
            INTERRUPT => {
                if let Some(p) = &self.pause {
                    p.interrupt();
                }
                self.asked += 1;
                self.fire("pause_in_hostcall");
                Ok(0)
            }
            SET_REGS => {
                for i in 0..4u64 {
                    let h = mix(a[0] ^ a[1].rotate_left(20) ^ i);
                    let r = POOL[(h % POOL.len() as u64) as usize] as usize;
                    if r != 10 && r != 17 {
                        let v = mix(h);
                        let v = if c.bits() == 32 { v & 0xffff_ffff } else { v };
                        c.set_reg(r, v);
                    }
                }
                Ok(0)
            }
            STOP if !self.fixed_limit => {
                self.stop(c);
                Ok(0)
            }
            LIMIT_UP if !self.fixed_limit => {
                let m = c.max_cyc().saturating_add(a[0]);
                c.set_max_cyc(m);
                Ok(0)
            }
            SNAP2_STORE => {
                let mut ctx = match self.ctx2.take() {
                    Some(x) => x,
                    None => return Ok(Some(9)),
                };
                let before = if self.guard2 { guard(c, &ctx) } else { None };
                let r = c.store2(&mut ctx, a[0], a[1], a[2], a[3], a[4]);
                if let (true, Err(Error::SnapshotDataLoadError)) = (self.guard2, &r) {
                    if guard(c, &ctx) != before {
                        self.guard_broken = Some(format!(
                            "a load of {} bytes that the data source refused changed memory or tracking",
                            a[3]
                        ));
                    }
                }
                self.ctx2 = Some(ctx);
                if r.is_err() {
                    self.snap2_errors += 1;
                }
                r.map(|(x, y)| mix(x ^ y.rotate_left(32)))
            }
            EXEC => {
                if self.exec_limit.map_or(false, |n| self.exec_count >= n) {
                    return Ok(Some(77));
                }
                self.exec_count += 1;
                let (cyc, max) = (c.cyc(), c.max_cyc());
                let mut r = Err(Error::Unexpected("no image".into()));
                for i in [a[0], a[1]] {
                    let img = match self.images.get(i as usize) {
                        Some(x) => x.clone(),
                        None => continue,
                    };
                    c.do_reset(max)?;
                    c.set_cyc(cyc);
                    r = c.elf(&img.elf).and_then(|_| c.stack(&img.args));
                    if r.is_ok() {
                        break;
                    }
                    self.fire("failed_exec");
                }
                if let (Ok(_), Some(seed)) = (&r, self.exec_look) {
                    let mut h = c.lr();
                    for p in 0..c.size() / 4096 {
                        h = mix(h ^ (c.flag(p)? & 3) as u64);
                    }
                    let deep = mix(seed ^ self.exec_count) % 4 == 0;
                    let mem = if deep { digest_mem(c) } else { 0 };
                    self.events.push(Event { nr, pc: c.pc(), cycles: c.cyc(), regs: regs_digest(c), ret: h, mem });
                }
                return r.map(|_| None);
            }
            FETCH => c.fetch16(a[0]).map(|v| v as u64 | 1 << 20),
            SEND => {
                let data = match c.load_bytes(a[1], a[2]) {
                    Ok(d) => d.to_vec(),
                    Err(e) => {
                        let v = code(self, &Err(e));
                        return Ok(Some(v));
                    }
                };
                self.req = Some(Req::Send { pipe: a[0], data });
                c.set_reg(10, 0);
                return Err(Error::Yield);
            }
            RECV => {
                self.req = Some(Req::Recv { pipe: a[0], addr: a[1], len: a[2] });
                return Err(Error::Yield);
            }
            // a number that only looks like another in its lower half
            n if n >> 32 != 0 => Ok(mix(n)),
            n => return Err(Error::InvalidEcall(n)),
        };
        Ok(Some(code(self, &r)))
    }
}

/// A handler in a stack of handlers.
pub struct KSys {
    pub k: K,
    pub id: u32,
}

pub const DECLINE: u8 = 0;
pub const ACCEPT: u8 = 1;
pub const FAIL: u8 = 2;

/// What handler `id` of `n` decides about call number `ordinal`.
pub fn verdict(seed: u64, n: u32, ordinal: u64, id: u32) -> u8 {
    let h = mix(seed ^ mix(ordinal << 8 | id as u64));
    if h % 17 == 0 {
        FAIL
    } else if h % 3 == 0 || (id + 1 == n && h % 29 != 0) {
        ACCEPT
    } else {
        DECLINE
    }
}

impl<M: SupportMachine> Syscalls<M> for KSys {
    fn initialize(&mut self, _m: &mut M) -> Result<(), Error> {
        let mut k = self.k.lock().unwrap();
        let id = self.id as usize;
        if k.inits.len() <= id {
            k.inits.resize(id + 1, 0);
        }
        k.inits[id] += 1;
        Ok(())
    }
    fn ecall(&mut self, m: &mut M) -> Result<bool, Error> {
        let mut k = self.k.lock().unwrap();
        let c: &mut dyn Core = m;
        match k.router {
            None => {
                k.hostcall(c)?;
                Ok(true)
            }
            Some((seed, n)) => {
                let v = verdict(seed, n, k.calls, self.id);
                let pc = c.pc().wrapping_sub(k.pc_bias);
                let pc = if c.bits() == 32 { pc & 0xffff_ffff } else { pc };
                let d = Delivery {
                    handler: self.id,
                    nr: c.reg(17),
                    pc,
                    cycles: c.cyc(),
                    regs: regs_digest(c),
                    verdict: v,
                };
                k.deliveries.push(d);
                if v == DECLINE && mix(seed ^ k.calls ^ (self.id as u64) << 40) % 19 == 0 {
                    // someone else's call, but nothing runs after it
                    k.stop(c);
                }
                match v {
                    DECLINE => {
                        if self.id + 1 == n {
                            // nobody takes it: the call still counts
                            k.calls += 1;
                        }
                        Ok(false)
                    }
                    FAIL => {
                        k.calls += 1;
                        k.fire("handler_failure");
                        Err(Error::External("handler".into()))
                    }
                    _ => {
                        k.hostcall(c)?;
                        Ok(true)
                    }
                }
            }
        }
    }
}

pub struct KDbg {
    pub k: K,
}
impl<M: SupportMachine> Debugger<M> for KDbg {
    fn initialize(&mut self, _m: &mut M) -> Result<(), Error> {
        let mut k = self.k.lock().unwrap();
        k.fire("debugger_init");
        Ok(())
    }
    fn ebreak(&mut self, m: &mut M) -> Result<(), Error> {
        self.k.lock().unwrap().ebreak(m)
    }
}

/// A comparison of two histories; the first difference in words.
pub fn diff_events(want: &[Event], got: &[Event]) -> Option<String> {
    for i in 0..want.len().max(got.len()) {
        match (want.get(i), got.get(i)) {
            (Some(a), Some(b)) if a == b => continue,
            (Some(a), Some(b)) => {
                let what = if a.nr != b.nr {
                    "number"
                } else if a.pc != b.pc {
                    "pc"
                } else if a.cycles != b.cycles {
                    "cycles"
                } else if a.regs != b.regs {
                    "registers"
                } else if a.mem != b.mem {
                    "memory"
                } else {
                    "result"
                };
                return Some(format!(
                    "host call {} has a different {}: got {:x?}, expected {:x?}",
                    i, what, b, a
                ));
            }
            (Some(a), None) => return Some(format!("host call {} was never made: {:x?}", i, a)),
            (None, Some(b)) => return Some(format!("extra host call {}: {:x?}", i, b)),
            _ => (),
        }
    }
    None
}
