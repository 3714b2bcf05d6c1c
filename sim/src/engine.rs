//! The machines under test, behind one face; plus the reference model behind
//! the same face.

use crate::core::Core;
use crate::kernel::{KDbg, KSys, K};
use crate::model::{Model, ModelCore};
use crate::rng::mix;
use ckb_vm::cost_model::estimate_cycles;
use ckb_vm::decoder::{build_decoder, Decoder, InstDecoder};
use ckb_vm::elf::ProgramMetadata;
use ckb_vm::instructions::extract_opcode;
use ckb_vm::machine::asm::traces::{
    decode_fixed_trace, MemoizedDynamicTraceDecoder, MemoizedFixedTraceDecoder,
    SimpleFixedTraceDecoder, TraceDecoder,
};
use ckb_vm::machine::asm::{AsmCoreMachine, AsmMachine};
use ckb_vm::machine::trace::TraceMachine;
use ckb_vm::machine::Pause;
use ckb_vm::memory::flat::FlatMemory;
use ckb_vm::memory::sparse::SparseMemory;
use ckb_vm::memory::wxorx::WXorXMemory;
use ckb_vm::{
    Bytes, CoreMachine, DefaultCoreMachine, DefaultMachine, DefaultMachineBuilder, Error,
    Instruction, Memory, Register, SupportMachine,
};
use ckb_vm::ckb_vm_definitions::asm::FixedTrace;
use serde::{Deserialize, Serialize};
use std::collections::BTreeSet;
use std::sync::{Arc, Mutex};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize, Hash, PartialOrd, Ord)]
pub enum Kind {
    InterpSparse,
    InterpFlat,
    TraceSparse,
    TraceFlat,
    AsmSimple,
    AsmFixed,
    AsmDyn,
    /// a decoder of the simulator's own with 2^n slots
    AsmTiny(u8),
    Model,
}
use Kind::*;
pub const RUST: [Kind; 4] = [InterpSparse, InterpFlat, TraceSparse, TraceFlat];
pub const ALL64: [Kind; 10] = [
    InterpSparse,
    InterpFlat,
    TraceSparse,
    TraceFlat,
    AsmSimple,
    AsmFixed,
    AsmDyn,
    AsmTiny(0),
    AsmTiny(2),
    AsmTiny(5),
];

impl Kind {
    pub fn asm(self) -> bool {
        matches!(self, AsmSimple | AsmFixed | AsmDyn | AsmTiny(_))
    }
    pub fn trace(self) -> bool {
        matches!(self, TraceSparse | TraceFlat)
    }
    pub fn interp(self) -> bool {
        matches!(self, InterpSparse | InterpFlat)
    }
    pub fn flat(self) -> bool {
        matches!(self, Kind::InterpFlat | Kind::TraceFlat)
    }
    pub fn name(self) -> String {
        format!("{:?}", self)
    }
}

pub fn kinds(rv32: bool) -> &'static [Kind] {
    if rv32 {
        &RUST
    } else {
        &ALL64
    }
}

/// The price of an instruction.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Cost {
    Zero,
    One,
    Estimate,
    /// a pseudo-random price per opcode, up to 2^n
    Op(u64, u8),
    /// a pseudo-random price per instruction (operands included)
    Inst(u64, u8),
}
impl Cost {
    pub fn price(self, i: Instruction) -> u64 {
        match self {
            Cost::Zero => 0,
            Cost::One => 1,
            Cost::Estimate => estimate_cycles(i),
            Cost::Op(s, n) => scale(mix(s ^ extract_opcode(i) as u64), n),
            Cost::Inst(s, n) => scale(mix(s ^ mix(i)), n),
        }
    }
}
fn scale(h: u64, n: u8) -> u64 {
    if n >= 64 {
        h
    } else {
        h & ((1u64 << n) - 1)
    }
}

/// Instants of a run at which the simulator can act: the moments the machine
/// under test calls out to the cost function or to the trace decoder.
#[derive(Default)]
pub struct HookState {
    pub priced: u64,
    pub price_at: BTreeSet<u64>,
    pub decoded: u64,
    pub decode_at: BTreeSet<u64>,
    pub pause: Option<Pause>,
    pub fired: u64,
    /// decode call number at the moment of the last request
    pub last_fired: u64,
    /// once more than this many instructions were priced, fail the run
    pub price_limit: u64,
}
pub type Hook = Arc<Mutex<HookState>>;

fn price(h: &Option<Hook>, c: Cost, i: Instruction) -> u64 {
    if let Some(h) = h {
        let mut h = h.lock().unwrap();
        h.priced += 1;
        let n = h.priced;
        if h.price_at.remove(&n) {
            h.fired += 1;
            if let Some(p) = &h.pause {
                p.interrupt();
            }
        }
    }
    c.price(i)
}

#[derive(Clone, Debug)]
pub struct Cfg {
    pub kind: Kind,
    pub rv32: bool,
    pub version: u32,
    pub isa: u8,
    pub mem: u64,
    pub max_cycles: u64,
    pub cost: Cost,
    /// keep one decoder for the machine's life instead of one per run
    pub persistent: bool,
    pub handlers: u32,
    pub debugger: bool,
    pub step_limit: u64,
    pub chaos: Option<u32>,
}

pub trait Engine {
    fn run(&mut self) -> Result<i8, Error>;
    /// one step through the engine's single-step interface
    fn step(&mut self) -> Result<(), Error>;
    fn core(&mut self) -> &mut dyn Core;
    fn load(&mut self, p: &Bytes, args: &[Bytes]) -> Result<u64, Error>;
    fn load_meta(&mut self, p: &Bytes, m: &ProgramMetadata, args: &[Bytes]) -> Result<u64, Error>;
    fn exit_code(&self) -> i8;
    /// the limit, through the machine's own method
    fn set_max(&mut self, v: u64);
    fn pause(&self) -> Pause;
    fn set_pause(&mut self, p: Pause);
    fn running(&mut self) -> bool;
    fn can_step(&self) -> bool;
    /// forget the persistent decoder: the next run starts cold
    fn cold(&mut self);
    fn set_running(&mut self, r: bool);
    /// host address of guest memory, where that is one contiguous buffer
    fn mem_ptr(&mut self) -> Option<usize> {
        None
    }
    /// reference model only: record control transfers and accesses to a range
    fn log(&mut self, _watch: (u64, u64)) {}
    fn logs(&self) -> (Vec<u64>, Vec<u64>) {
        (vec![], vec![])
    }
    /// reference model only: the run ended in an atomic whose access was
    /// refused; this is its destination
    fn refused(&self) -> Option<u8> {
        None
    }
    /// reference model only: the last load got as far as the start-up stack
    fn stacked(&self) -> bool {
        false
    }
    /// the decoder refused an instruction the reference executed
    fn disputed(&self) -> Option<Error> {
        None
    }
    /// reference model only: was decoded code at this page overtaken by a
    /// change? Some(page): would it be; None: has such code run
    fn stale(&self, _page: Option<u64>) -> bool {
        false
    }
    /// reference model only: forget what was decoded
    fn fresh(&mut self) {}
    fn parse(&mut self, p: &Bytes) -> Result<ProgramMetadata, Error> {
        self.core().parse(p)
    }
}

fn builder<I: SupportMachine + 'static>(
    inner: I,
    cfg: &Cfg,
    k: &K,
    hook: &Option<Hook>,
) -> DefaultMachine<I> {
    let (c, h) = (cfg.cost, hook.clone());
    let mut b = DefaultMachineBuilder::new(inner)
        .instruction_cycle_func(Box::new(move |i| price(&h, c, i)));
    for id in 0..cfg.handlers {
        b = b.syscall(Box::new(KSys { k: k.clone(), id }));
    }
    if cfg.debugger {
        b = b.debugger(Box::new(KDbg { k: k.clone() }));
    }
    b.build()
}

struct Interp<I: SupportMachine> {
    m: DefaultMachine<I>,
    d: Option<Decoder>,
    persistent: bool,
}
impl<I: SupportMachine + 'static> Interp<I> {
    fn dec(&mut self) -> Decoder {
        let (i, v) = (self.m.isa(), self.m.version());
        self.d.take().unwrap_or_else(|| build_decoder::<I::REG>(i, v))
    }
}
impl<I: SupportMachine + 'static> Engine for Interp<I> {
    fn run(&mut self) -> Result<i8, Error> {
        if !self.persistent {
            return self.m.run();
        }
        let mut d = self.dec();
        let r = self.m.run_with_decoder(&mut d);
        self.d = Some(d);
        r
    }
    fn step(&mut self) -> Result<(), Error> {
        let mut d = self.dec();
        let r = if self.m.reset_signal() { d.reset_instructions_cache() } else { Ok(()) };
        let r = r.and_then(|_| self.m.step(&mut d));
        if self.persistent {
            self.d = Some(d);
        }
        r
    }
    fn core(&mut self) -> &mut dyn Core {
        self.m.inner_mut()
    }
    fn load(&mut self, p: &Bytes, args: &[Bytes]) -> Result<u64, Error> {
        self.m.load_program(p, args)
    }
    fn load_meta(&mut self, p: &Bytes, m: &ProgramMetadata, args: &[Bytes]) -> Result<u64, Error> {
        self.m.load_program_with_metadata(p, m, args)
    }
    fn set_max(&mut self, v: u64) {
        self.m.set_max_cycles(v)
    }
    fn exit_code(&self) -> i8 {
        self.m.exit_code()
    }
    fn pause(&self) -> Pause {
        self.m.pause()
    }
    fn set_pause(&mut self, p: Pause) {
        self.m.set_pause(p)
    }
    fn running(&mut self) -> bool {
        self.m.running()
    }
    fn set_running(&mut self, r: bool) {
        self.m.set_running(r)
    }
    fn can_step(&self) -> bool {
        true
    }
    fn cold(&mut self) {
        self.d = None
    }
}

struct Tracer<I: SupportMachine> {
    m: TraceMachine<I>,
    d: Option<Decoder>,
    persistent: bool,
}
impl<I: SupportMachine + 'static> Engine for Tracer<I> {
    fn run(&mut self) -> Result<i8, Error> {
        if !self.persistent {
            return self.m.run();
        }
        let (i, v) = (self.m.machine.isa(), self.m.machine.version());
        let mut d = self.d.take().unwrap_or_else(|| build_decoder::<I::REG>(i, v));
        let r = self.m.run_with_decoder(&mut d);
        self.d = Some(d);
        r
    }
    fn step(&mut self) -> Result<(), Error> {
        let (i, v) = (self.m.machine.isa(), self.m.machine.version());
        if self.m.machine.reset_signal() {
            self.d = None;
        }
        let mut d = self.d.take().unwrap_or_else(|| build_decoder::<I::REG>(i, v));
        let r = self.m.machine.step(&mut d);
        if self.persistent {
            self.d = Some(d);
        }
        r
    }
    fn core(&mut self) -> &mut dyn Core {
        self.m.machine.inner_mut()
    }
    fn load(&mut self, p: &Bytes, args: &[Bytes]) -> Result<u64, Error> {
        self.m.load_program(p, args)
    }
    fn load_meta(&mut self, p: &Bytes, m: &ProgramMetadata, args: &[Bytes]) -> Result<u64, Error> {
        self.m.load_program_with_metadata(p, m, args)
    }
    fn set_max(&mut self, v: u64) {
        self.m.set_max_cycles(v)
    }
    fn exit_code(&self) -> i8 {
        self.m.machine.exit_code()
    }
    fn pause(&self) -> Pause {
        self.m.machine.pause()
    }
    fn set_pause(&mut self, p: Pause) {
        self.m.machine.set_pause(p)
    }
    fn running(&mut self) -> bool {
        self.m.machine.running()
    }
    fn set_running(&mut self, r: bool) {
        self.m.machine.set_running(r)
    }
    fn can_step(&self) -> bool {
        true
    }
    fn cold(&mut self) {
        self.d = None
    }
}

/// Wraps any trace decoder to observe (and act at) decode instants.
pub struct HookDec<D> {
    d: D,
    hook: Option<Hook>,
}
impl<D: InstDecoder> InstDecoder for HookDec<D> {
    fn decode<M: Memory>(&mut self, memory: &mut M, pc: u64) -> Result<Instruction, Error> {
        self.d.decode(memory, pc)
    }
    fn reset_instructions_cache(&mut self) -> Result<(), Error> {
        self.d.reset_instructions_cache()
    }
}
impl<D: TraceDecoder> TraceDecoder for HookDec<D> {
    fn fixed_traces(&self) -> *const FixedTrace {
        self.d.fixed_traces()
    }
    fn fixed_trace_size(&self) -> u64 {
        self.d.fixed_trace_size()
    }
    fn prepare_traces(&mut self, m: &mut DefaultMachine<Box<AsmCoreMachine>>) -> Result<(), Error> {
        if let Some(h) = &self.hook {
            let mut h = h.lock().unwrap();
            h.decoded += 1;
            let n = h.decoded;
            if h.decode_at.remove(&n) {
                h.fired += 1;
                h.last_fired = n;
                if let Some(p) = &h.pause {
                    p.interrupt();
                }
            }
        }
        self.d.prepare_traces(m)
    }
    fn reset(&mut self) -> Result<(), Error> {
        self.d.reset()
    }
}

/// A small direct-mapped trace table: nearly every transfer is a miss.
pub struct Tiny {
    d: Decoder,
    t: Vec<FixedTrace>,
    max: usize,
}
impl Tiny {
    fn new(d: Decoder, bits: u8) -> Tiny {
        Tiny {
            d,
            t: (0..1usize << (bits & 7)).map(|_| FixedTrace::default()).collect(),
            max: if bits & 1 == 1 { 3 } else { 16 },
        }
    }
}
impl InstDecoder for Tiny {
    fn decode<M: Memory>(&mut self, memory: &mut M, pc: u64) -> Result<Instruction, Error> {
        self.d.decode(memory, pc)
    }
    fn reset_instructions_cache(&mut self) -> Result<(), Error> {
        self.d.reset_instructions_cache()
    }
}
impl TraceDecoder for Tiny {
    fn fixed_traces(&self) -> *const FixedTrace {
        self.t.as_ptr()
    }
    fn fixed_trace_size(&self) -> u64 {
        self.t.len() as u64
    }
    fn prepare_traces(&mut self, m: &mut DefaultMachine<Box<AsmCoreMachine>>) -> Result<(), Error> {
        let (t, _) = decode_fixed_trace(&mut self.d, m, Some(self.max))?;
        let slot = (*CoreMachine::pc(&*m) >> 2) as usize & (self.t.len() - 1);
        self.t[slot] = t;
        Ok(())
    }
    fn reset(&mut self) -> Result<(), Error> {
        for t in self.t.iter_mut() {
            *t = FixedTrace::default();
        }
        self.d.reset_instructions_cache()
    }
}

enum AnyDec {
    Simple(HookDec<SimpleFixedTraceDecoder<Decoder>>),
    Fixed(HookDec<MemoizedFixedTraceDecoder<Decoder>>),
    Dyn(HookDec<MemoizedDynamicTraceDecoder<Decoder>>),
    Tiny(HookDec<Tiny>),
}

struct Asm {
    m: AsmMachine,
    kind: Kind,
    d: Option<AnyDec>,
    sd: Option<Decoder>,
    persistent: bool,
    hook: Option<Hook>,
}
impl Asm {
    fn dec(&mut self) -> AnyDec {
        if let Some(d) = self.d.take() {
            return d;
        }
        let d = build_decoder::<u64>(self.m.machine.isa(), self.m.machine.version());
        let hook = self.hook.clone();
        match self.kind {
            AsmFixed => AnyDec::Fixed(HookDec { d: MemoizedFixedTraceDecoder::new(d), hook }),
            AsmDyn => AnyDec::Dyn(HookDec { d: MemoizedDynamicTraceDecoder::new(d), hook }),
            AsmTiny(n) => AnyDec::Tiny(HookDec { d: Tiny::new(d, n), hook }),
            _ => AnyDec::Simple(HookDec { d: SimpleFixedTraceDecoder::new(d), hook }),
        }
    }
}
impl Engine for Asm {
    fn run(&mut self) -> Result<i8, Error> {
        self.sd = None;
        if self.kind == AsmSimple && !self.persistent && self.hook.is_none() {
            return self.m.run();
        }
        let mut d = self.dec();
        let r = match &mut d {
            AnyDec::Simple(d) => self.m.run_with_decoder(d),
            AnyDec::Fixed(d) => self.m.run_with_decoder(d),
            AnyDec::Dyn(d) => self.m.run_with_decoder(d),
            AnyDec::Tiny(d) => self.m.run_with_decoder(d),
        };
        if self.persistent {
            self.d = Some(d);
        }
        r
    }
    fn step(&mut self) -> Result<(), Error> {
        let (i, v) = (self.m.machine.isa(), self.m.machine.version());
        // whoever steps answers the reset signal
        if self.m.machine.reset_signal() {
            self.d = None;
            self.sd = None;
        }
        let mut d = self.sd.take().unwrap_or_else(|| build_decoder::<u64>(i, v));
        let r = self.m.step(&mut d);
        if self.persistent {
            self.sd = Some(d);
        }
        r
    }
    fn core(&mut self) -> &mut dyn Core {
        self.m.machine.inner_mut()
    }
    fn load(&mut self, p: &Bytes, args: &[Bytes]) -> Result<u64, Error> {
        self.m.load_program(p, args)
    }
    fn load_meta(&mut self, p: &Bytes, m: &ProgramMetadata, args: &[Bytes]) -> Result<u64, Error> {
        self.m.load_program_with_metadata(p, m, args)
    }
    fn set_max(&mut self, v: u64) {
        self.m.set_max_cycles(v)
    }
    fn exit_code(&self) -> i8 {
        self.m.machine.exit_code()
    }
    fn pause(&self) -> Pause {
        self.m.machine.pause()
    }
    fn set_pause(&mut self, p: Pause) {
        self.m.machine.set_pause(p)
    }
    fn running(&mut self) -> bool {
        self.m.machine.running()
    }
    fn set_running(&mut self, r: bool) {
        self.m.machine.set_running(r)
    }
    fn can_step(&self) -> bool {
        true
    }
    fn cold(&mut self) {
        self.d = None;
        self.sd = None;
    }
    fn mem_ptr(&mut self) -> Option<usize> {
        Some(self.m.machine.inner_mut().memory_ptr as usize)
    }
}

pub struct ModelEngine<R: Register + 'static> {
    pub m: Model<R>,
    debugger: bool,
    k: K,
}
impl<R: Register + 'static> Engine for ModelEngine<R> {
    fn run(&mut self) -> Result<i8, Error> {
        self.m.run()
    }
    fn step(&mut self) -> Result<(), Error> {
        self.m.step()
    }
    fn core(&mut self) -> &mut dyn Core {
        &mut self.m.core
    }
    fn load(&mut self, p: &Bytes, args: &[Bytes]) -> Result<u64, Error> {
        let r = self.m.load_program(p, args)?;
        if self.debugger {
            self.k.lock().unwrap().fire("debugger_init");
        }
        Ok(r)
    }
    fn load_meta(&mut self, p: &Bytes, _m: &ProgramMetadata, args: &[Bytes]) -> Result<u64, Error> {
        self.load(p, args)
    }
    fn set_max(&mut self, v: u64) {
        self.m.core.set_max_cycles(v)
    }
    fn exit_code(&self) -> i8 {
        self.m.exit_code
    }
    fn pause(&self) -> Pause {
        self.m.pause.clone()
    }
    fn set_pause(&mut self, p: Pause) {
        self.m.pause = p;
    }
    fn running(&mut self) -> bool {
        self.m.core.running
    }
    fn set_running(&mut self, r: bool) {
        self.m.core.running = r;
    }
    fn can_step(&self) -> bool {
        true
    }
    fn cold(&mut self) {}
    fn log(&mut self, watch: (u64, u64)) {
        self.m.log = true;
        self.m.core.mem.watch = watch;
    }
    fn logs(&self) -> (Vec<u64>, Vec<u64>) {
        (self.m.transfers.clone(), self.m.watched.clone())
    }
    fn refused(&self) -> Option<u8> {
        self.m.refused
    }
    fn stacked(&self) -> bool {
        self.m.stacked
    }
    fn disputed(&self) -> Option<Error> {
        self.m.disputed.clone()
    }
    fn stale(&self, page: Option<u64>) -> bool {
        match page {
            Some(p) => self.m.core.mem.ran.get(p as usize).map_or(false, |x| x & 2 != 0),
            None => self.m.core.mem.stale,
        }
    }
    fn fresh(&mut self) {
        self.m.core.mem.ran.fill(0);
        self.m.forget();
    }
}

pub fn model<R: Register + 'static>(cfg: &Cfg, k: &K) -> ModelEngine<R> {
    let core = ModelCore::<R>::new(cfg.isa, cfg.version, cfg.max_cycles, cfg.mem as usize);
    let c = cfg.cost;
    let mut m = Model::new(core, Box::new(move |i| c.price(i)));
    m.step_limit = cfg.step_limit;
    for id in 0..cfg.handlers {
        m.syscalls.push(Box::new(KSys { k: k.clone(), id }));
    }
    if cfg.debugger {
        let kk = k.clone();
        m.ebreak = Some(Box::new(move |c| kk.lock().unwrap().ebreak(c)));
    }
    ModelEngine { m, debugger: cfg.debugger, k: k.clone() }
}

fn rust_engine<R: Register + 'static>(
    cfg: &Cfg,
    k: &K,
    hook: &Option<Hook>,
) -> Box<dyn Engine> {
    let (isa, v, max, mem) = (cfg.isa, cfg.version, cfg.max_cycles, cfg.mem as usize);
    macro_rules! core {
        ($m:ty) => {
            DefaultCoreMachine::<R, WXorXMemory<$m>>::new_with_memory(
                isa,
                v,
                max,
                WXorXMemory::new(<$m>::new_with_memory(mem)),
            )
        };
    }
    let p = cfg.persistent;
    match cfg.kind {
        InterpSparse => {
            let m = builder(core!(SparseMemory<R>), cfg, k, hook);
            Box::new(Interp { m, d: None, persistent: p })
        }
        InterpFlat => {
            let m = builder(core!(FlatMemory<R>), cfg, k, hook);
            Box::new(Interp { m, d: None, persistent: p })
        }
        TraceSparse => {
            let m = builder(core!(SparseMemory<R>), cfg, k, hook);
            Box::new(Tracer { m: TraceMachine::new(m), d: None, persistent: p })
        }
        TraceFlat => {
            let m = builder(core!(FlatMemory<R>), cfg, k, hook);
            Box::new(Tracer { m: TraceMachine::new(m), d: None, persistent: p })
        }
        Model => Box::new(model::<R>(cfg, k)),
        _ => unreachable!(),
    }
}

/// Builds a machine. The kernel learns the machine's pause handle.
pub fn build(cfg: &Cfg, k: &K, hook: Option<Hook>) -> Box<dyn Engine> {
    let e: Box<dyn Engine> = if cfg.kind.asm() {
        assert!(!cfg.rv32);
        let mut core =
            AsmCoreMachine::new_with_memory(cfg.isa, cfg.version, cfg.max_cycles, cfg.mem as usize);
        if let Some(s) = cfg.chaos {
            core.chaos_mode = 1;
            core.chaos_seed = s;
        }
        let m = builder(core, cfg, k, &hook);
        k.lock().unwrap().pc_bias = 4;
        Box::new(Asm {
            m: AsmMachine::new(m),
            kind: cfg.kind,
            d: None,
            sd: None,
            persistent: cfg.persistent,
            hook: hook.clone(),
        })
    } else {
        k.lock().unwrap().pc_bias = 0;
        if cfg.rv32 {
            rust_engine::<u32>(cfg, k, &hook)
        } else {
            rust_engine::<u64>(cfg, k, &hook)
        }
    };
    let p = e.pause();
    k.lock().unwrap().pause = Some(p.clone());
    if let Some(h) = &hook {
        h.lock().unwrap().pause = Some(p);
    }
    e
}
