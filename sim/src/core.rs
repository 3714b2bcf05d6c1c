//! A uniform, object-safe view of a machine's state, over every engine and the
//! reference model.

use crate::rng::hash_bytes;
use ckb_vm::snapshot::{make_snapshot, resume, Snapshot};
use ckb_vm::snapshot2::{DataSource, Snapshot2, Snapshot2Context};
use ckb_vm::elf::ProgramMetadata;
use ckb_vm::{Bytes, Error, Memory, Register, SupportMachine};
use serde::{Deserialize, Serialize};
use std::sync::{Arc, Mutex};

/// Error classes: what an observer may rely on across engines. Addresses and
/// texts are not part of it.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize, Hash, PartialOrd, Ord)]
pub enum EC {
    Asm(u8),
    CyclesExceeded,
    CyclesOverflow,
    Elf,
    External,
    InvalidEcall,
    InvalidInstruction,
    InvalidVersion,
    Io,
    Oob,
    OutOfStack,
    Unaligned,
    Perm,
    Frozen,
    Pause,
    SnapshotData,
    Unexpected,
    Yield,
    Other,
}

pub fn ec(e: &Error) -> EC {
    match e {
        Error::Asm(x) => EC::Asm(*x),
        Error::CyclesExceeded => EC::CyclesExceeded,
        Error::CyclesOverflow => EC::CyclesOverflow,
        Error::ElfBits
        | Error::ElfParseError(_)
        | Error::ElfSegmentUnreadable(_)
        | Error::ElfSegmentWritableAndExecutable(_)
        | Error::ElfSegmentAddrOrSizeError(_) => EC::Elf,
        Error::External(_) => EC::External,
        Error::InvalidEcall(_) => EC::InvalidEcall,
        Error::InvalidInstruction { .. } | Error::InvalidOp(_) => EC::InvalidInstruction,
        Error::InvalidVersion => EC::InvalidVersion,
        Error::IO { .. } => EC::Io,
        Error::MemOutOfBound(..) => EC::Oob,
        Error::MemOutOfStack => EC::OutOfStack,
        Error::MemPageUnalignedAccess(_) => EC::Unaligned,
        Error::MemWriteOnExecutablePage(_) => EC::Perm,
        Error::MemWriteOnFreezedPage(_) => EC::Frozen,
        Error::Pause => EC::Pause,
        Error::SnapshotDataLoadError => EC::SnapshotData,
        Error::Unexpected(_) => EC::Unexpected,
        Error::Yield => EC::Yield,
    }
}

/// Immutable blobs a guest can have copied into its memory.
#[derive(Clone, Debug, Default)]
pub struct Blobs {
    pub v: Arc<Mutex<BlobState>>,
}
#[derive(Debug, Default)]
pub struct BlobState {
    pub blobs: Vec<Bytes>,
    /// fault injection: calls (1-based) that find nothing / are cut short
    pub calls: u64,
    pub missing_at: Option<u64>,
    pub short_at: Option<(u64, u64)>,
}
impl Blobs {
    pub fn new(blobs: Vec<Bytes>) -> Blobs {
        Blobs { v: Arc::new(Mutex::new(BlobState { blobs, ..Default::default() })) }
    }
}
impl DataSource<u64> for Blobs {
    fn load_data(&self, id: &u64, offset: u64, length: u64) -> Option<(Bytes, u64)> {
        let mut s = self.v.lock().unwrap();
        s.calls += 1;
        if s.missing_at == Some(s.calls) {
            return None;
        }
        let calls = s.calls;
        let short = s.short_at;
        let b = s.blobs.get(*id as usize)?;
        let n = b.len() as u64;
        let o = offset.min(n);
        let full = n - o;
        let mut l = if length == 0 { full } else { full.min(length) };
        if let Some((at, by)) = short {
            if at == calls {
                l = l.saturating_sub(by);
            }
        }
        Some((b.slice(o as usize..(o + l) as usize), full))
    }
}
pub type Ctx2 = Snapshot2Context<u64, Blobs>;
pub type Snap2 = Snapshot2<u64>;

pub trait Core {
    fn bits(&self) -> u32;
    fn pc(&self) -> u64;
    fn set_pc(&mut self, pc: u64);
    fn reg(&self, i: usize) -> u64;
    fn set_reg(&mut self, i: usize, v: u64);
    fn ver(&self) -> u32;
    fn cyc(&self) -> u64;
    fn set_cyc(&mut self, v: u64);
    fn max_cyc(&self) -> u64;
    fn set_max_cyc(&mut self, v: u64);
    /// nothing is executed after the current instruction
    fn stop(&mut self);
    fn add_cyc(&mut self, v: u64) -> Result<(), Error>;
    fn add_cyc_nc(&mut self, v: u64) -> Result<(), Error>;
    fn do_reset(&mut self, max: u64) -> Result<(), Error>;
    fn lr(&self) -> u64;
    fn set_lr(&mut self, v: u64);
    fn size(&self) -> u64;
    fn load_bytes(&mut self, a: u64, n: u64) -> Result<Bytes, Error>;
    fn store_bytes(&mut self, a: u64, v: &[u8]) -> Result<(), Error>;
    fn fill(&mut self, a: u64, n: u64, v: u8) -> Result<(), Error>;
    fn load(&mut self, a: u64, w: u64) -> Result<u64, Error>;
    fn store(&mut self, a: u64, w: u64, v: u64) -> Result<(), Error>;
    fn fetch16(&mut self, a: u64) -> Result<u16, Error>;
    fn fetch32(&mut self, a: u64) -> Result<u32, Error>;
    fn flag(&mut self, p: u64) -> Result<u8, Error>;
    fn set_flag(&mut self, p: u64, f: u8) -> Result<(), Error>;
    fn clear_flag(&mut self, p: u64, f: u8) -> Result<(), Error>;
    fn init_pages(&mut self, a: u64, n: u64, f: u8, s: Option<Bytes>, o: u64) -> Result<(), Error>;
    fn elf(&mut self, p: &Bytes) -> Result<u64, Error>;
    fn binary(&mut self, p: &Bytes, m: &ProgramMetadata) -> Result<u64, Error>;
    fn stack(&mut self, args: &[Bytes]) -> Result<u64, Error>;
    fn parse(&self, p: &Bytes) -> Result<ProgramMetadata, Error>;
    fn snap1(&mut self) -> Result<Snapshot, Error>;
    fn resume1(&mut self, s: &Snapshot) -> Result<(), Error>;
    fn snap2(&mut self, c: &Ctx2) -> Result<Snap2, Error>;
    fn resume2(&mut self, c: &mut Ctx2, s: &Snap2) -> Result<(), Error>;
    fn mark2(&mut self, c: &mut Ctx2, m: &ProgramMetadata, id: u64, off: u64) -> Result<(), Error>;
    fn store2(&mut self, c: &mut Ctx2, a: u64, id: u64, off: u64, len: u64, sz: u64) -> Result<(u64, u64), Error>;
    fn untrack2(&mut self, c: &mut Ctx2, a: u64, len: u64) -> Result<(), Error>;
}

fn r<M: SupportMachine>(v: u64) -> M::REG {
    M::REG::from_u64(v)
}

impl<M: SupportMachine> Core for M {
    fn bits(&self) -> u32 {
        M::REG::BITS as u32
    }
    fn pc(&self) -> u64 {
        ckb_vm::CoreMachine::pc(self).to_u64()
    }
    fn set_pc(&mut self, pc: u64) {
        self.update_pc(r::<M>(pc));
        self.commit_pc();
    }
    fn reg(&self, i: usize) -> u64 {
        self.registers()[i].to_u64()
    }
    fn set_reg(&mut self, i: usize, v: u64) {
        self.set_register(i, r::<M>(v))
    }
    fn ver(&self) -> u32 {
        self.version()
    }
    fn cyc(&self) -> u64 {
        self.cycles()
    }
    fn set_cyc(&mut self, v: u64) {
        self.set_cycles(v)
    }
    fn max_cyc(&self) -> u64 {
        self.max_cycles()
    }
    fn stop(&mut self) {
        self.set_running(false)
    }
    fn set_max_cyc(&mut self, v: u64) {
        self.set_max_cycles(v)
    }
    fn add_cyc(&mut self, v: u64) -> Result<(), Error> {
        self.add_cycles(v)
    }
    fn add_cyc_nc(&mut self, v: u64) -> Result<(), Error> {
        self.add_cycles_no_checking(v)
    }
    fn do_reset(&mut self, max: u64) -> Result<(), Error> {
        self.reset(max)
    }
    fn lr(&self) -> u64 {
        self.memory().lr().to_u64()
    }
    fn set_lr(&mut self, v: u64) {
        self.memory_mut().set_lr(&r::<M>(v))
    }
    fn size(&self) -> u64 {
        self.memory().memory_size() as u64
    }
    fn load_bytes(&mut self, a: u64, n: u64) -> Result<Bytes, Error> {
        self.memory_mut().load_bytes(a, n)
    }
    fn store_bytes(&mut self, a: u64, v: &[u8]) -> Result<(), Error> {
        self.memory_mut().store_bytes(a, v)
    }
    fn fill(&mut self, a: u64, n: u64, v: u8) -> Result<(), Error> {
        self.memory_mut().store_byte(a, n, v)
    }
    fn load(&mut self, a: u64, w: u64) -> Result<u64, Error> {
        let a = r::<M>(a);
        let m = self.memory_mut();
        Ok(match w {
            1 => m.load8(&a)?,
            2 => m.load16(&a)?,
            4 => m.load32(&a)?,
            _ => m.load64(&a)?,
        }
        .to_u64())
    }
    fn store(&mut self, a: u64, w: u64, v: u64) -> Result<(), Error> {
        let (a, v) = (r::<M>(a), r::<M>(v));
        let m = self.memory_mut();
        match w {
            1 => m.store8(&a, &v),
            2 => m.store16(&a, &v),
            4 => m.store32(&a, &v),
            _ => m.store64(&a, &v),
        }
    }
    fn fetch16(&mut self, a: u64) -> Result<u16, Error> {
        self.memory_mut().execute_load16(a)
    }
    fn fetch32(&mut self, a: u64) -> Result<u32, Error> {
        self.memory_mut().execute_load32(a)
    }
    fn flag(&mut self, p: u64) -> Result<u8, Error> {
        self.memory_mut().fetch_flag(p)
    }
    fn set_flag(&mut self, p: u64, f: u8) -> Result<(), Error> {
        self.memory_mut().set_flag(p, f)
    }
    fn clear_flag(&mut self, p: u64, f: u8) -> Result<(), Error> {
        self.memory_mut().clear_flag(p, f)
    }
    fn init_pages(&mut self, a: u64, n: u64, f: u8, s: Option<Bytes>, o: u64) -> Result<(), Error> {
        self.memory_mut().init_pages(a, n, f, s, o)
    }
    fn elf(&mut self, p: &Bytes) -> Result<u64, Error> {
        self.load_elf(p, true)
    }
    fn binary(&mut self, p: &Bytes, m: &ProgramMetadata) -> Result<u64, Error> {
        self.load_binary(p, m, true)
    }
    fn stack(&mut self, args: &[Bytes]) -> Result<u64, Error> {
        let ms = self.memory().memory_size() as u64;
        let st = ms / 4;
        self.initialize_stack(args, ms - st, st)
    }
    fn parse(&self, p: &Bytes) -> Result<ProgramMetadata, Error> {
        ckb_vm::elf::parse_elf::<M::REG>(p, self.version())
    }
    fn snap1(&mut self) -> Result<Snapshot, Error> {
        make_snapshot(self)
    }
    fn resume1(&mut self, s: &Snapshot) -> Result<(), Error> {
        resume(self, s)
    }
    fn snap2(&mut self, c: &Ctx2) -> Result<Snap2, Error> {
        c.make_snapshot(self)
    }
    fn resume2(&mut self, c: &mut Ctx2, s: &Snap2) -> Result<(), Error> {
        c.resume(self, s)
    }
    fn mark2(&mut self, c: &mut Ctx2, m: &ProgramMetadata, id: u64, off: u64) -> Result<(), Error> {
        c.mark_program(self, m, &id, off)
    }
    fn store2(&mut self, c: &mut Ctx2, a: u64, id: u64, off: u64, len: u64, sz: u64) -> Result<(u64, u64), Error> {
        c.store_bytes(self, a, &id, off, len, sz)
    }
    fn untrack2(&mut self, c: &mut Ctx2, a: u64, len: u64) -> Result<(), Error> {
        c.untrack_pages(self, a, len)
    }
}

/// Everything a later observer of a stopped machine can see.
#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct State {
    pub pc: u64,
    pub regs: Vec<u64>,
    pub cycles: u64,
    pub lr: u64,
    pub pages: Vec<u64>,
    pub flags: Vec<u8>,
    /// a refused atomic may or may not have set this register and the
    /// reservation
    pub open: Option<u8>,
}

pub fn regs_of(c: &dyn Core) -> Vec<u64> {
    (0..32).map(|i| c.reg(i)).collect()
}
pub fn regs_digest(c: &dyn Core) -> u64 {
    let mut h = 0x1234u64;
    for i in 0..32 {
        h = (h.rotate_left(7) ^ c.reg(i)).wrapping_mul(0x9E37_79B9_7F4A_7C15);
    }
    h
}

/// Memory through the widest interface; digested per page.
pub fn state(c: &mut dyn Core) -> Result<State, Error> {
    let mut pages = vec![];
    let mut flags = vec![];
    for (at, len) in crate::prog::windows(c.size()) {
        let all = c.load_bytes(at, len)?;
        for p in 0..len / 4096 {
            let b = &all[(p * 4096) as usize..(p * 4096 + 4096) as usize];
            pages.push(page_digest(b));
            flags.push(c.flag(at / 4096 + p)?);
        }
    }
    Ok(State { pc: c.pc(), regs: regs_of(c), cycles: c.cyc(), lr: c.lr(), pages, flags, open: None })
}

pub fn page_digest(b: &[u8]) -> u64 {
    if b.iter().all(|x| *x == 0) {
        0
    } else {
        hash_bytes(1, b) | 1
    }
}

impl State {
    /// The first difference, in words.
    pub fn diff(&self, o: &State, pc: bool, cycles: bool, dirty: Dirty) -> Option<String> {
        for i in 0..self.regs.len() {
            if self.regs[i] != o.regs[i] && self.open != Some(i as u8) {
                return Some(format!("register x{} is {:#x}, expected {:#x}", i, o.regs[i], self.regs[i]));
            }
        }
        if pc && self.pc != o.pc {
            return Some(format!("pc is {:#x}, expected {:#x}", o.pc, self.pc));
        }
        if cycles && self.cycles != o.cycles {
            return Some(format!("consumed cycles {}, expected {}", o.cycles, self.cycles));
        }
        if self.lr != o.lr && self.open.is_none() {
            return Some(format!("load reservation {:#x}, expected {:#x}", o.lr, self.lr));
        }
        for i in 0..self.pages.len() {
            if self.pages[i] != o.pages[i] {
                return Some(format!("memory page {:#x} differs", i));
            }
            if self.flags[i] & 3 != o.flags[i] & 3 {
                return Some(format!(
                    "page {:#x} has permission flags {}, expected {}",
                    i,
                    o.flags[i] & 3,
                    self.flags[i] & 3
                ));
            }
            let (a, b) = (self.flags[i] & 4 != 0, o.flags[i] & 4 != 0);
            let bad = match dirty {
                Dirty::Ignore => false,
                Dirty::Equal => a != b,
                Dirty::AtLeast => a && !b,
            };
            if bad {
                return Some(format!("page {:#x}: dirty is {}, expected {}", i, b, a));
            }
        }
        None
    }
    pub fn digest(&self) -> u64 {
        let mut h = crate::rng::mix(self.pc ^ self.cycles.rotate_left(32));
        for x in self.regs.iter().chain(&self.pages) {
            h = (h.rotate_left(9) ^ x).wrapping_mul(0x9E37_79B9_7F4A_7C15);
        }
        h ^ self.lr
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Dirty {
    Ignore,
    Equal,
    /// every page dirty in the expectation is dirty here
    AtLeast,
}
