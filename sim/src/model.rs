//! The reference model: a small, independent interpreter for the RISC-V subset
//! CKB-VM implements, written from the ISA manual and the repository's
//! documentation, not from the engines' code. It shares no execution,
//! memory, permission, stack or image-loading code with the machine under
//! test. From the code under test it takes only the *price tag* of the next
//! instruction (the instruction decoder's fused length, so that costs are
//! charged per decoded instruction); the bits it executes are read from its own
//! memory and executed unfused, one architectural instruction at a time.

use ckb_vm::decoder::{build_decoder, Decoder, InstDecoder};
use ckb_vm::elf::ProgramMetadata;
use ckb_vm::error::OutOfBoundKind;
use ckb_vm::instructions::instruction_length;
use ckb_vm::machine::Pause;
use ckb_vm::{
    Bytes, CoreMachine, Error, Instruction, Memory, Register, SupportMachine, Syscalls,
};
use std::collections::HashMap;

pub const PAGE: u64 = 4096;
pub const F_FREEZED: u8 = 1;
pub const F_EXEC: u8 = 2;
pub const F_DIRTY: u8 = 4;

pub struct ModelMem<R> {
    pub data: Vec<u8>,
    pub flags: Vec<u8>,
    pub lr: R,
    /// guest word accesses in this range are counted
    pub watch: (u64, u64),
    pub hits: std::cell::Cell<u64>,
    /// per page: 1 = code here may have been decoded, 2 = and it may have
    /// changed since, or lost its permission
    pub ran: Vec<u8>,
    /// such a page was executed: what is decoded is not specified
    pub stale: bool,
}

fn oob(a: u64) -> Error {
    Error::MemOutOfBound(a, OutOfBoundKind::Memory)
}

impl<R: Register> ModelMem<R> {
    pub fn new(size: usize) -> Self {
        ModelMem {
            data: vec![0; size],
            flags: vec![0; size / PAGE as usize],
            lr: R::from_u64(u64::MAX),
            watch: (0, 0),
            hits: std::cell::Cell::new(0),
            ran: vec![0; size / PAGE as usize],
            stale: false,
        }
    }
    fn range(&self, addr: u64, len: u64) -> Result<(usize, usize), Error> {
        let size = self.data.len() as u64;
        if addr >= size {
            return Err(oob(addr));
        }
        match addr.checked_add(len) {
            Some(e) if e <= size => Ok((addr as usize, e as usize)),
            _ => Err(oob(addr.wrapping_add(len))),
        }
    }
    fn pages(addr: u64, len: u64) -> std::ops::RangeInclusive<u64> {
        addr / PAGE..=(addr + len - 1) / PAGE
    }
    fn may_write(&self, addr: u64, len: u64) -> Result<(usize, usize), Error> {
        let r = self.range(addr, len)?;
        for p in Self::pages(addr, len) {
            if self.flags[p as usize] & F_EXEC != 0 {
                return Err(Error::MemWriteOnExecutablePage(p));
            }
        }
        Ok(r)
    }
    fn mark(&mut self, addr: u64, len: u64) {
        for p in Self::pages(addr, len) {
            self.flags[p as usize] |= F_DIRTY;
        }
    }
    pub fn write(&mut self, addr: u64, v: &[u8]) -> Result<(), Error> {
        if v.is_empty() {
            return Ok(());
        }
        let (a, b) = self.may_write(addr, v.len() as u64)?;
        self.data[a..b].copy_from_slice(v);
        self.mark(addr, v.len() as u64);
        Ok(())
    }
    pub fn fill(&mut self, addr: u64, len: u64, v: u8) -> Result<(), Error> {
        if len == 0 {
            return Ok(());
        }
        let (a, b) = self.may_write(addr, len)?;
        self.data[a..b].fill(v);
        self.mark(addr, len);
        Ok(())
    }
    pub fn read(&self, addr: u64, len: u64) -> Result<&[u8], Error> {
        if len == 0 {
            return Ok(&[]);
        }
        let (a, b) = self.range(addr, len)?;
        Ok(&self.data[a..b])
    }
    pub fn rd(&self, addr: u64, w: u64) -> Result<u64, Error> {
        if addr >= self.watch.0 && addr < self.watch.1 {
            self.hits.set(self.hits.get() + 1);
        }
        let s = self.read(addr, w)?;
        let mut b = [0u8; 8];
        b[..s.len()].copy_from_slice(s);
        Ok(u64::from_le_bytes(b))
    }
    pub fn wr(&mut self, addr: u64, w: u64, v: u64) -> Result<(), Error> {
        if addr >= self.watch.0 && addr < self.watch.1 {
            self.hits.set(self.hits.get() + 1);
        }
        let b = v.to_le_bytes();
        self.write(addr, &b[..w as usize])
    }
    fn fetch(&self, addr: u64, w: u64) -> Result<u64, Error> {
        self.range(addr, w)?;
        for p in Self::pages(addr, w) {
            if self.flags[p as usize] & F_EXEC == 0 {
                return Err(Error::MemWriteOnExecutablePage(p));
            }
        }
        self.rd(addr, w)
    }
    fn spoil(&mut self, page: u64) {
        let r = &mut self.ran[page as usize];
        if *r & 1 != 0 {
            *r |= 2;
        }
    }
    /// The bytes of one instruction: `w` of them at `addr` must be executable.
    pub fn executing(&mut self, addr: u64, w: u64) -> Result<(), Error> {
        self.range(addr, w)?;
        for p in Self::pages(addr, w) {
            let i = p as usize;
            if self.ran[i] & 2 != 0 {
                self.stale = true;
            }
            if self.flags[i] & F_EXEC == 0 {
                return Err(Error::MemWriteOnExecutablePage(p));
            }
            self.ran[i] |= 1;
            if let Some(r) = self.ran.get_mut(i + 1) {
                *r |= 1;
            }
        }
        Ok(())
    }
    /// Page initialisation: refused as a whole, or performed as a whole.
    pub fn init(
        &mut self,
        addr: u64,
        size: u64,
        flags: u8,
        src: Option<&[u8]>,
        off: u64,
    ) -> Result<(), Error> {
        let ms = self.data.len() as u64;
        if addr % PAGE != 0 {
            return Err(Error::MemPageUnalignedAccess(addr));
        }
        if size % PAGE != 0 {
            return Err(Error::MemPageUnalignedAccess(addr.wrapping_add(size)));
        }
        if addr > ms {
            return Err(oob(addr));
        }
        if size > ms || addr + size > ms {
            return Err(oob(addr.wrapping_add(size)));
        }
        if off > size {
            return Err(Error::MemOutOfBound(off, OutOfBoundKind::ExternalData));
        }
        for p in addr / PAGE..(addr + size) / PAGE {
            if self.flags[p as usize] & F_FREEZED != 0 {
                return Err(Error::MemWriteOnFreezedPage(p));
            }
        }
        for p in addr / PAGE..(addr + size) / PAGE {
            self.spoil(p);
        }
        let d = &mut self.data[addr as usize..(addr + size) as usize];
        d.fill(0);
        if let Some(s) = src {
            let n = s.len().min((size - off) as usize);
            d[off as usize..off as usize + n].copy_from_slice(&s[..n]);
        }
        for p in addr / PAGE..(addr + size) / PAGE {
            self.flags[p as usize] |= flags | F_DIRTY;
        }
        Ok(())
    }
}

impl<R: Register> Memory for ModelMem<R> {
    type REG = R;
    fn reset_memory(&mut self) -> Result<(), Error> {
        self.data = vec![0; self.data.len()];
        self.flags.fill(0);
        self.ran.fill(0);
        self.lr = R::from_u64(u64::MAX);
        Ok(())
    }
    fn init_pages(
        &mut self,
        addr: u64,
        size: u64,
        flags: u8,
        source: Option<Bytes>,
        off: u64,
    ) -> Result<(), Error> {
        self.init(addr, size, flags, source.as_ref().map(|b| b.as_ref()), off)
    }
    fn fetch_flag(&mut self, page: u64) -> Result<u8, Error> {
        self.flags.get(page as usize).copied().ok_or(oob(page << 12))
    }
    fn set_flag(&mut self, page: u64, flag: u8) -> Result<(), Error> {
        *self.flags.get_mut(page as usize).ok_or(oob(page << 12))? |= flag;
        Ok(())
    }
    fn clear_flag(&mut self, page: u64, flag: u8) -> Result<(), Error> {
        *self.flags.get_mut(page as usize).ok_or(oob(page << 12))? &= !flag;
        if flag & F_EXEC != 0 {
            self.spoil(page);
        }
        Ok(())
    }
    fn memory_size(&self) -> usize {
        self.data.len()
    }
    fn store_byte(&mut self, addr: u64, size: u64, value: u8) -> Result<(), Error> {
        self.fill(addr, size, value)
    }
    fn store_bytes(&mut self, addr: u64, value: &[u8]) -> Result<(), Error> {
        self.write(addr, value)
    }
    fn load_bytes(&mut self, addr: u64, size: u64) -> Result<Bytes, Error> {
        Ok(Bytes::from(self.read(addr, size)?.to_vec()))
    }
    fn execute_load16(&mut self, addr: u64) -> Result<u16, Error> {
        Ok(self.fetch(addr, 2)? as u16)
    }
    fn execute_load32(&mut self, addr: u64) -> Result<u32, Error> {
        Ok(self.fetch(addr, 4)? as u32)
    }
    fn load8(&mut self, addr: &R) -> Result<R, Error> {
        Ok(R::from_u64(self.rd(addr.to_u64(), 1)?))
    }
    fn load16(&mut self, addr: &R) -> Result<R, Error> {
        Ok(R::from_u64(self.rd(addr.to_u64(), 2)?))
    }
    fn load32(&mut self, addr: &R) -> Result<R, Error> {
        Ok(R::from_u64(self.rd(addr.to_u64(), 4)?))
    }
    fn load64(&mut self, addr: &R) -> Result<R, Error> {
        Ok(R::from_u64(self.rd(addr.to_u64(), 8)?))
    }
    fn store8(&mut self, addr: &R, v: &R) -> Result<(), Error> {
        self.wr(addr.to_u64(), 1, v.to_u64())
    }
    fn store16(&mut self, addr: &R, v: &R) -> Result<(), Error> {
        self.wr(addr.to_u64(), 2, v.to_u64())
    }
    fn store32(&mut self, addr: &R, v: &R) -> Result<(), Error> {
        self.wr(addr.to_u64(), 4, v.to_u64())
    }
    fn store64(&mut self, addr: &R, v: &R) -> Result<(), Error> {
        self.wr(addr.to_u64(), 8, v.to_u64())
    }
    fn lr(&self) -> &R {
        &self.lr
    }
    fn set_lr(&mut self, value: &R) {
        self.lr = value.clone();
    }
}

pub struct ModelCore<R> {
    pub regs: Vec<R>,
    pub pc: R,
    pub mem: ModelMem<R>,
    pub cycles: u64,
    pub max_cycles: u64,
    pub running: bool,
    pub isa: u8,
    pub version: u32,
    pub was_reset: bool,
    pending_pc: Option<R>,
    /// set while a host call is in progress: (the call's own pc was replaced)
    jumped: bool,
}

impl<R: Register> ModelCore<R> {
    pub fn new(isa: u8, version: u32, max_cycles: u64, size: usize) -> Self {
        ModelCore {
            regs: vec![R::zero(); 32],
            pc: R::zero(),
            mem: ModelMem::new(size),
            cycles: 0,
            max_cycles,
            running: false,
            isa,
            version,
            was_reset: false,
            pending_pc: None,
            jumped: false,
        }
    }
    fn g(&self, i: u32) -> u64 {
        self.regs[i as usize].to_u64()
    }
    fn w(&mut self, i: u32, v: u64) {
        if i != 0 {
            self.regs[i as usize] = R::from_u64(v);
        }
    }
}

impl<R: Register> CoreMachine for ModelCore<R> {
    type REG = R;
    type MEM = ModelMem<R>;
    fn pc(&self) -> &R {
        &self.pc
    }
    fn update_pc(&mut self, pc: R) {
        self.pending_pc = Some(pc);
    }
    fn commit_pc(&mut self) {
        if let Some(p) = self.pending_pc.take() {
            self.pc = p;
            self.jumped = true;
        }
    }
    fn memory(&self) -> &Self::MEM {
        &self.mem
    }
    fn memory_mut(&mut self) -> &mut Self::MEM {
        &mut self.mem
    }
    fn registers(&self) -> &[R] {
        &self.regs
    }
    fn set_register(&mut self, idx: usize, value: R) {
        self.regs[idx] = value;
    }
    fn version(&self) -> u32 {
        self.version
    }
    fn isa(&self) -> u8 {
        self.isa
    }
}

/// A loadable segment as an ELF file declares it.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Seg {
    pub vaddr: u64,
    pub memsz: u64,
    pub filesz: u64,
    pub offset: u64,
    pub flags: u32,
}

/// Reads what an ELF image declares. `None`: not an image.
pub fn read_image(b: &[u8]) -> Option<(u8, u64, Vec<Seg>)> {
    let u = |o: usize, n: usize| -> Option<u64> {
        let s = b.get(o..o.checked_add(n)?)?;
        let mut x = [0u8; 8];
        x[..n].copy_from_slice(s);
        if b[5] == 2 {
            x[..n].reverse();
        }
        Some(u64::from_le_bytes(x))
    };
    if b.get(0..4)? != b"\x7fELF" || !matches!(b.get(5)?, 1 | 2) {
        return None;
    }
    let class = *b.get(4)?;
    let (entry, phoff, phentsize, phnum) = match class {
        2 => (u(24, 8)?, u(32, 8)?, 56usize, u(56, 2)?),
        1 => (u(24, 4)?, u(28, 4)?, 32usize, u(44, 2)?),
        _ => return None,
    };
    let mut segs = vec![];
    for i in 0..phnum as usize {
        let o = (phoff as usize).checked_add(i * phentsize)?;
        let (ty, fl, off, va, fs, ms) = if class == 2 {
            (u(o, 4)?, u(o + 4, 4)?, u(o + 8, 8)?, u(o + 16, 8)?, u(o + 32, 8)?, u(o + 40, 8)?)
        } else {
            (u(o, 4)?, u(o + 24, 4)?, u(o + 4, 4)?, u(o + 8, 4)?, u(o + 16, 4)?, u(o + 20, 4)?)
        };
        // the whole header must be inside the file
        u(o, phentsize.min(8))?;
        b.get(o..o + phentsize)?;
        if ty == 1 {
            segs.push(Seg { vaddr: va, memsz: ms, filesz: fs, offset: off, flags: fl as u32 });
        }
    }
    Some((class, entry, segs))
}

/// Page flags a segment gets (documented: executable segments are frozen and
/// executable; read-only ones frozen; writable ones plain, except that
/// machine version 0 froze those too).
pub fn seg_flags(version: u32, s: &Seg) -> Result<u8, Error> {
    let (x, w, r) = (s.flags & 1 != 0, s.flags & 2 != 0, s.flags & 4 != 0);
    if !r {
        return Err(Error::ElfSegmentUnreadable(s.vaddr));
    }
    if w && x {
        return Err(Error::ElfSegmentWritableAndExecutable(s.vaddr));
    }
    Ok(if x {
        F_EXEC | F_FREEZED
    } else if w && version >= 1 {
        0
    } else {
        F_FREEZED
    })
}

impl<R: Register> SupportMachine for ModelCore<R> {
    fn cycles(&self) -> u64 {
        self.cycles
    }
    fn set_cycles(&mut self, c: u64) {
        self.cycles = c;
    }
    fn max_cycles(&self) -> u64 {
        self.max_cycles
    }
    fn set_max_cycles(&mut self, c: u64) {
        self.max_cycles = c;
    }
    fn running(&self) -> bool {
        self.running
    }
    fn set_running(&mut self, r: bool) {
        self.running = r;
    }
    fn reset(&mut self, max: u64) -> Result<(), Error> {
        self.regs = vec![R::zero(); 32];
        self.pc = R::zero();
        self.mem.reset_memory()?;
        self.cycles = 0;
        self.max_cycles = max;
        self.was_reset = true;
        Ok(())
    }
    fn reset_signal(&mut self) -> bool {
        std::mem::take(&mut self.was_reset)
    }
    fn add_cycles(&mut self, n: u64) -> Result<(), Error> {
        let t = self.cycles as u128 + n as u128;
        if t > u64::MAX as u128 {
            return Err(Error::CyclesOverflow);
        }
        if t > self.max_cycles as u128 {
            return Err(Error::CyclesExceeded);
        }
        self.cycles = t as u64;
        Ok(())
    }
    fn add_cycles_no_checking(&mut self, n: u64) -> Result<(), Error> {
        let t = self.cycles as u128 + n as u128;
        if t > u64::MAX as u128 {
            return Err(Error::CyclesOverflow);
        }
        self.cycles = t as u64;
        Ok(())
    }
    fn load_elf(&mut self, program: &Bytes, update_pc: bool) -> Result<u64, Error> {
        let (class, entry, segs) =
            read_image(program).ok_or(Error::ElfParseError("model".into()))?;
        if (class == 2) != (R::BITS == 64) {
            return Err(Error::ElfBits);
        }
        let mut plan = vec![];
        for s in &segs {
            let start = s.vaddr / PAGE * PAGE;
            let pad = s.vaddr - start;
            let size = s.memsz.wrapping_add(pad).wrapping_add(PAGE - 1) / PAGE * PAGE;
            let end = s.offset.checked_add(s.filesz);
            match end {
                Some(e) if e <= program.len() as u64 => (),
                _ => return Err(Error::ElfSegmentAddrOrSizeError(s.vaddr)),
            }
            plan.push((start, size, pad, seg_flags(self.version, s)?, s.clone()));
        }
        let mut total = 0;
        for (start, size, pad, flags, s) in plan {
            let src = &program[s.offset as usize..(s.offset + s.filesz) as usize];
            self.mem.init(start, size, flags, Some(src), pad)?;
            if self.version < 1 {
                self.mem.fill(start, pad, 0)?;
            }
            total += s.filesz;
        }
        if update_pc {
            self.update_pc(R::from_u64(entry));
            self.commit_pc();
        }
        Ok(total)
    }
    fn load_binary(
        &mut self,
        program: &Bytes,
        metadata: &ProgramMetadata,
        update_pc: bool,
    ) -> Result<u64, Error> {
        let mut total = 0;
        for a in &metadata.actions {
            let src = &program[a.source.start as usize..a.source.end as usize];
            self.mem.init(a.addr, a.size, a.flags, Some(src), a.offset_from_addr)?;
            if self.version < 1 {
                self.mem.fill(a.addr, a.offset_from_addr, 0)?;
            }
            total += src.len() as u64;
        }
        if update_pc {
            self.update_pc(R::from_u64(metadata.entry));
            self.commit_pc();
        }
        Ok(total)
    }
    /// System V style start-up stack: strings from the top downwards, then
    /// (from low to high) argc, argv pointers, a null; 16-byte aligned.
    /// Version 0: no null, no alignment, 4-byte stores only.
    fn initialize_stack(&mut self, args: &[Bytes], start: u64, size: u64) -> Result<u64, Error> {
        let top = start + size;
        let ws = R::BITS as u64 / 8;
        if self.version >= 1 && args.is_empty() {
            let sp = (top - ws) & !15;
            self.w(2, sp);
            return Ok(top - sp);
        }
        let mut sp = top;
        let mut words = vec![args.len() as u64];
        for a in args {
            sp = R::from_u64(sp.wrapping_sub(a.len() as u64 + 1)).to_u64();
            self.mem.write(sp, a)?;
            self.mem.fill(sp + a.len() as u64, 1, 0)?;
            words.push(sp);
        }
        if self.version >= 1 {
            words.push(0);
            sp = sp.wrapping_sub(ws * words.len() as u64) & !15;
            sp = R::from_u64(sp).to_u64();
        } else {
            sp = R::from_u64(sp.wrapping_sub(ws * words.len() as u64)).to_u64();
        }
        for (i, v) in words.iter().enumerate().rev() {
            let w = if self.version >= 1 { ws } else { 4 };
            self.mem.wr(R::from_u64(sp.wrapping_add(i as u64 * ws)).to_u64(), w, *v)?;
        }
        self.w(2, sp);
        if sp < start {
            return Err(Error::MemOutOfStack);
        }
        Ok(top - sp)
    }
}

pub type CycleFn = Box<dyn Fn(Instruction) -> u64 + Send + Sync>;

pub struct Model<R: Register> {
    pub core: ModelCore<R>,
    pub pause: Pause,
    pub cost: CycleFn,
    pub syscalls: Vec<Box<dyn Syscalls<ModelCore<R>>>>,
    pub ebreak: Option<Box<dyn FnMut(&mut ModelCore<R>) -> Result<(), Error> + Send>>,
    pub exit_code: i8,
    pub steps: u64,
    pub step_limit: u64,
    /// the decoder refused an instruction the reference executed
    pub disputed: Option<Error>,
    /// destination of the atomic whose access was refused in the last step
    pub refused: Option<u8>,
    /// the last load got as far as the start-up stack
    pub stacked: bool,
    /// record the instants below
    pub log: bool,
    /// cycles consumed when each control transfer was complete
    pub transfers: Vec<u64>,
    /// cycles consumed when each access to the watched range was under way
    pub watched: Vec<u64>,
    decoder: Decoder,
    decoded: HashMap<u64, (Instruction, u64)>,
}

fn sx(v: u64, bits: u32) -> u64 {
    ((v << (64 - bits)) as i64 >> (64 - bits)) as u64
}

impl<R: Register> Model<R> {
    pub fn new(core: ModelCore<R>, cost: CycleFn) -> Self {
        let decoder = build_decoder::<R>(core.isa, core.version);
        Model {
            core,
            pause: Pause::new(),
            cost,
            syscalls: vec![],
            ebreak: None,
            exit_code: 0,
            steps: 0,
            step_limit: u64::MAX,
            disputed: None,
            refused: None,
            stacked: false,
            log: false,
            transfers: vec![],
            watched: vec![],
            decoder,
            decoded: HashMap::new(),
        }
    }

    pub fn load_program(&mut self, image: &Bytes, args: &[Bytes]) -> Result<u64, Error> {
        self.stacked = false;
        let a = self.core.load_elf(image, true)?;
        for s in self.syscalls.iter_mut() {
            s.initialize(&mut self.core)?;
        }
        let ms = self.core.mem.data.len() as u64;
        let st = ms / 4;
        self.stacked = true;
        Ok(a + self.core.initialize_stack(args, ms - st, st)?)
    }

    pub fn run(&mut self) -> Result<i8, Error> {
        if self.core.isa & ckb_vm::ISA_MOP != 0 && self.core.version == 0 {
            return Err(Error::InvalidVersion);
        }
        self.exit_code = 0;
        self.core.running = true;
        while self.core.running {
            if self.pause.has_interrupted() {
                self.pause.free();
                return Err(Error::Pause);
            }
            self.step()?;
        }
        Ok(self.exit_code)
    }

    pub fn forget(&mut self) {
        let _ = self.decoder.reset_instructions_cache();
        self.decoded.clear();
    }

    /// One priced unit: one decoded instruction, which may stand for several
    /// architectural ones.
    pub fn step(&mut self) -> Result<(), Error> {
        if self.core.reset_signal() {
            self.decoder.reset_instructions_cache()?;
            self.decoded.clear();
        }
        self.steps += 1;
        self.refused = None;
        if self.steps > self.step_limit {
            return Err(Error::Unexpected("model step limit".into()));
        }
        let start = self.core.pc.to_u64();
        let (inst, len) = match self.decoded.get(&start) {
            Some(x) => *x,
            None => {
                match self.decoder.decode(&mut self.core.mem, start) {
                    Ok(inst) => {
                        let x = (inst, instruction_length(inst) as u64);
                        self.decoded.insert(start, x);
                        x
                    }
                    Err(e @ Error::InvalidInstruction { .. }) => {
                        // the decoder is under test: whether this is an
                        // instruction is for the reference to say
                        self.exec_at(start)?;
                        self.disputed = Some(e);
                        return Ok(());
                    }
                    Err(e) => return Err(e),
                }
            }
        };
        let c = (self.cost)(inst);
        self.core.add_cycles(c)?;
        let end = R::from_u64(start.wrapping_add(len)).to_u64();
        loop {
            let pc = self.core.pc.to_u64();
            let seen = self.core.mem.hits.get();
            let r = self.exec_at(pc);
            if self.log {
                for _ in seen..self.core.mem.hits.get() {
                    self.watched.push(self.core.cycles);
                }
            }
            let ilen = r?;
            let seq = R::from_u64(pc.wrapping_add(ilen)).to_u64();
            if self.log && self.core.pc.to_u64() != seq {
                self.transfers.push(self.core.cycles);
            }
            if seq == end || self.core.pc.to_u64() != seq {
                return Ok(());
            }
        }
    }

    fn exec_at(&mut self, pc: u64) -> Result<u64, Error> {
        self.core.mem.executing(pc, 2)?;
        let lo = self.core.mem.rd(pc, 2)? as u32;
        let (bits, len) = if lo & 3 == 3 {
            self.core.mem.executing(pc + 2, 2)?;
            (lo | (self.core.mem.rd(pc + 2, 2)? as u32) << 16, 4)
        } else {
            let e = expand_rvc(lo, R::BITS == 64)
                .ok_or(Error::InvalidInstruction { pc, instruction: lo })?;
            (e, 2)
        };
        let r = self.exec32(pc, bits, len);
        if r.is_err() && bits & 0x7f == 0x2f {
            self.refused = Some((bits >> 7 & 31) as u8);
        }
        r.map(|_| len)
    }

    fn hostcall(&mut self, pc: u64, len: u64) -> Result<(), Error> {
        let nr = self.core.g(17);
        // the call is complete, as far as the program counter goes, unless the
        // host put it somewhere else
        self.core.jumped = false;
        self.core.pending_pc = None;
        let next = R::from_u64(pc.wrapping_add(len));
        let r = if nr == 93 {
            self.exit_code = self.core.g(10) as i8;
            self.core.running = false;
            Ok(())
        } else {
            let mut res = Err(Error::InvalidEcall(nr));
            for s in self.syscalls.iter_mut() {
                match s.ecall(&mut self.core) {
                    Ok(false) => continue,
                    Ok(true) => {
                        res = if self.core.cycles > self.core.max_cycles {
                            Err(Error::CyclesExceeded)
                        } else {
                            Ok(())
                        };
                        break;
                    }
                    Err(e) => {
                        res = Err(e);
                        break;
                    }
                }
            }
            res
        };
        if !self.core.jumped {
            self.core.pc = next;
        }
        r
    }

    fn exec32(&mut self, pc: u64, b: u32, len: u64) -> Result<(), Error> {
        let xl = R::BITS as u32;
        let ill = Err(Error::InvalidInstruction { pc, instruction: b });
        let op = b & 0x7f;
        let rd = (b >> 7) & 31;
        let f3 = (b >> 12) & 7;
        let rs1 = (b >> 15) & 31;
        let rs2 = (b >> 20) & 31;
        let f7 = b >> 25;
        let a = self.core.g(rs1);
        let c = self.core.g(rs2);
        let v0 = self.core.version == 0;
        // sign-extended views
        let sa = sx(a, xl) as i64;
        let sc = sx(c, xl) as i64;
        let imm_i = sx((b >> 20) as u64, 12);
        let imm_s = sx(((b >> 25 << 5) | ((b >> 7) & 31)) as u64, 12);
        let imm_u = sx((b & 0xffff_f000) as u64, 32);
        let next = R::from_u64(pc.wrapping_add(len)).to_u64();
        let mut npc = next;
        let m = |v: u64| R::from_u64(v).to_u64();
        match op {
            0x37 => self.core.w(rd, imm_u),
            0x17 => self.core.w(rd, pc.wrapping_add(imm_u)),
            0x6f => {
                let imm = sx(
                    (((b >> 31) & 1) << 20
                        | ((b >> 12) & 0xff) << 12
                        | ((b >> 20) & 1) << 11
                        | ((b >> 21) & 0x3ff) << 1) as u64,
                    21,
                );
                npc = m(pc.wrapping_add(imm));
                self.core.w(rd, next);
            }
            0x67 if f3 == 0 => {
                let base = if v0 && rd != 0 && rd == rs1 { next } else { a };
                npc = m(base.wrapping_add(imm_i)) & !1;
                self.core.w(rd, next);
            }
            0x63 => {
                let imm = sx(
                    (((b >> 31) & 1) << 12
                        | ((b >> 7) & 1) << 11
                        | ((b >> 25) & 0x3f) << 5
                        | ((b >> 8) & 0xf) << 1) as u64,
                    13,
                );
                let t = match f3 {
                    0 => a == c,
                    1 => a != c,
                    4 => sa < sc,
                    5 => sa >= sc,
                    6 => a < c,
                    7 => a >= c,
                    _ => return ill,
                };
                if t {
                    npc = m(pc.wrapping_add(imm));
                }
            }
            0x03 => {
                let addr = m(a.wrapping_add(imm_i));
                let w = 1u64 << (f3 & 3);
                if f3 == 7 || (xl == 32 && (f3 == 3 || f3 == 6)) {
                    return ill;
                }
                if v0 {
                    // version 0 cannot read the last byte of memory
                    match addr.checked_add(w) {
                        Some(e) if e != self.core.mem.data.len() as u64 => (),
                        _ => return Err(oob(addr)),
                    }
                }
                let v = self.core.mem.rd(addr, w)?;
                let v = if f3 & 4 != 0 { v } else { sx(v, 8 * w as u32) };
                self.core.w(rd, v);
            }
            0x23 => {
                let addr = m(a.wrapping_add(imm_s));
                if f3 > 3 || (xl == 32 && f3 == 3) {
                    return ill;
                }
                self.core.mem.wr(addr, 1 << f3, c)?;
            }
            0x13 => {
                let shbits = if xl == 64 { 6 } else { 5 };
                let sh = (b >> 20) & ((1 << shbits) - 1);
                let top = (b >> 20) >> shbits << shbits; // imm without shamt
                let v = match f3 {
                    0 => a.wrapping_add(imm_i),
                    2 => (sa < imm_i as i64) as u64,
                    3 => (a < m(imm_i)) as u64,
                    4 => a ^ imm_i,
                    6 => a | imm_i,
                    7 => a & imm_i,
                    1 => match top {
                        0 => a << sh,
                        0x480 => a & !(1 << sh),
                        0x680 => a ^ (1 << sh),
                        0x280 => a | (1 << sh),
                        0x600 => match sh {
                            0 => a.leading_zeros() as u64 - (64 - xl as u64),
                            1 => (a as u128 | 1u128 << xl).trailing_zeros() as u64,
                            2 => a.count_ones() as u64,
                            4 => sx(a, 8),
                            5 => sx(a, 16),
                            _ => return ill,
                        },
                        _ => return ill,
                    },
                    _ => match top {
                        0 => a >> sh,
                        0x400 => (sa >> sh) as u64,
                        0x480 => (a >> sh) & 1,
                        0x600 => ror(a, sh, xl),
                        _ => match b >> 20 {
                            0x287 => {
                                let mut o = 0;
                                for i in 0..8 {
                                    if (a >> (8 * i)) & 0xff != 0 {
                                        o |= 0xff << (8 * i);
                                    }
                                }
                                o
                            }
                            0x6b8 if xl == 64 => a.swap_bytes(),
                            0x698 if xl == 32 => (a as u32).swap_bytes() as u64,
                            _ => return ill,
                        },
                    },
                };
                self.core.w(rd, v);
            }
            0x33 => {
                let shm = (c & (xl as u64 - 1)) as u32;
                let (ua, uc) = (a as u128, c as u128);
                let v = match (f7, f3) {
                    (0, 0) => a.wrapping_add(c),
                    (0x20, 0) => a.wrapping_sub(c),
                    (0, 1) => a << shm,
                    (0, 2) => (sa < sc) as u64,
                    (0, 3) => (a < c) as u64,
                    (0, 4) => a ^ c,
                    (0, 5) => a >> shm,
                    (0x20, 5) => (sa >> shm) as u64,
                    (0, 6) => a | c,
                    (0, 7) => a & c,
                    (1, 0) => a.wrapping_mul(c),
                    (1, 1) => ((sa as i128 * sc as i128) >> xl) as u64,
                    (1, 2) => ((sa as i128).wrapping_mul(uc as i128) >> xl) as u64,
                    (1, 3) => ((ua * uc) >> xl) as u64,
                    (1, 4) => {
                        if sc == 0 {
                            u64::MAX
                        } else {
                            sa.wrapping_div(sc) as u64
                        }
                    }
                    (1, 5) => a.checked_div(c).unwrap_or(u64::MAX),
                    (1, 6) => {
                        if sc == 0 {
                            a
                        } else {
                            sa.wrapping_rem(sc) as u64
                        }
                    }
                    (1, 7) => a.checked_rem(c).unwrap_or(a),
                    (0x20, 7) => a & !c,
                    (0x20, 6) => a | !c,
                    (0x20, 4) => !(a ^ c),
                    (0x30, 1) => ror(a, (xl - shm) % xl, xl),
                    (0x30, 5) => ror(a, shm, xl),
                    (0x34, 1) => a ^ (1 << shm),
                    (0x14, 1) => a | (1 << shm),
                    (0x24, 1) => a & !(1 << shm),
                    (0x24, 5) => (a >> shm) & 1,
                    (0x10, 2) => (a << 1).wrapping_add(c),
                    (0x10, 4) => (a << 2).wrapping_add(c),
                    (0x10, 6) => (a << 3).wrapping_add(c),
                    (5, 1) => clmul(a, c) as u64,
                    (5, 3) => (clmul(a, c) >> xl) as u64,
                    (5, 2) => (clmul(a, c) >> (xl - 1)) as u64,
                    (5, 4) => if sa < sc { a } else { c },
                    (5, 5) => a.min(c),
                    (5, 6) => if sa > sc { a } else { c },
                    (5, 7) => a.max(c),
                    (4, 4) if xl == 32 && rs2 == 0 => a & 0xffff,
                    _ => return ill,
                };
                self.core.w(rd, v);
            }
            0x1b if xl == 64 => {
                let sh = rs2;
                let w = a as u32;
                let v = match (f3, f7) {
                    (0, _) => sx(a.wrapping_add(imm_i), 32),
                    (1, 0) => sx((w << sh) as u64, 32),
                    (5, 0) => sx((w >> sh) as u64, 32),
                    (5, 0x20) => ((w as i32) >> sh) as i64 as u64,
                    (5, 0x30) => sx(w.rotate_right(sh) as u64, 32),
                    (1, 4) | (1, 5) => (w as u64) << ((b >> 20) & 63),
                    (1, 0x30) => match sh {
                        0 => w.leading_zeros() as u64,
                        1 => w.trailing_zeros() as u64,
                        2 => w.count_ones() as u64,
                        _ => return ill,
                    },
                    _ => return ill,
                };
                self.core.w(rd, v);
            }
            0x3b if xl == 64 => {
                let (w, x) = (a as u32, c as u32);
                let (iw, ix) = (w as i32, x as i32);
                let s = x & 31;
                let v = match (f7, f3) {
                    (0, 0) => sx(w.wrapping_add(x) as u64, 32),
                    (0x20, 0) => sx(w.wrapping_sub(x) as u64, 32),
                    (0, 1) => sx((w << s) as u64, 32),
                    (0, 5) => sx((w >> s) as u64, 32),
                    (0x20, 5) => (iw >> s) as i64 as u64,
                    (1, 0) => sx(w.wrapping_mul(x) as u64, 32),
                    (1, 4) => {
                        if ix == 0 {
                            u64::MAX
                        } else {
                            iw.wrapping_div(ix) as i64 as u64
                        }
                    }
                    (1, 5) => sx(w.checked_div(x).unwrap_or(u32::MAX) as u64, 32),
                    (1, 6) => {
                        if ix == 0 {
                            iw as i64 as u64
                        } else {
                            iw.wrapping_rem(ix) as i64 as u64
                        }
                    }
                    (1, 7) => sx(w.checked_rem(x).unwrap_or(w) as u64, 32),
                    (4, 0) => (w as u64).wrapping_add(c),
                    (4, 4) if rs2 == 0 => a & 0xffff,
                    (0x10, 2) => ((w as u64) << 1).wrapping_add(c),
                    (0x10, 4) => ((w as u64) << 2).wrapping_add(c),
                    (0x10, 6) => ((w as u64) << 3).wrapping_add(c),
                    (0x30, 1) => sx(w.rotate_left(s) as u64, 32),
                    (0x30, 5) => sx(w.rotate_right(s) as u64, 32),
                    _ => return ill,
                };
                self.core.w(rd, v);
            }
            0x2f if f3 == 2 || (f3 == 3 && xl == 64) => {
                let w = 1u64 << f3;
                let bits = 8 * w as u32;
                let f5 = f7 >> 2;
                let old = self.core.mem.rd(a, w)?;
                let so = sx(old, bits);
                match f5 {
                    2 => {
                        self.core.w(rd, so);
                        self.core.mem.lr = R::from_u64(a);
                    }
                    3 => {
                        let ok = self.core.mem.lr.to_u64() == a;
                        self.core.mem.wr(a, w, if ok { c } else { old })?;
                        self.core.w(rd, !ok as u64);
                        self.core.mem.lr = R::from_u64(u64::MAX);
                    }
                    _ => {
                        let cw = sx(c, bits);
                        let (zo, zc) = (old, if w == 4 { c as u32 as u64 } else { c });
                        let v = match f5 {
                            1 => c,
                            0 => so.wrapping_add(c),
                            4 => so ^ c,
                            12 => so & c,
                            8 => so | c,
                            16 => if (so as i64) < (cw as i64) { so } else { c },
                            20 => if (so as i64) > (cw as i64) { so } else { c },
                            24 => zo.min(zc),
                            28 => zo.max(zc),
                            _ => return ill,
                        };
                        // the destination is written first, so a refused store
                        // leaves it written
                        self.core.w(rd, so);
                        self.core.mem.wr(a, w, v)?;
                    }
                }
            }
            0x0f => (),
            0x73 => match b {
                0x73 => return self.hostcall(pc, len),
                0x0010_0073 => {
                    self.core.jumped = false;
                    self.core.pending_pc = None;
                    let r = match self.ebreak.as_mut() {
                        Some(f) => f(&mut self.core),
                        None => Ok(()),
                    };
                    if !self.core.jumped {
                        self.core.pc = R::from_u64(next);
                    }
                    return r;
                }
                _ => return ill,
            },
            _ => return ill,
        }
        self.core.pc = R::from_u64(npc);
        Ok(())
    }
}

fn ror(a: u64, s: u32, xl: u32) -> u64 {
    if xl == 64 {
        a.rotate_right(s)
    } else {
        (a as u32).rotate_right(s) as u64
    }
}

fn clmul(a: u64, b: u64) -> u128 {
    let mut r = 0u128;
    for i in 0..64 {
        if (b >> i) & 1 == 1 {
            r ^= (a as u128) << i;
        }
    }
    r
}

/// Expands a compressed instruction to the 32-bit one it abbreviates.
fn expand_rvc(h: u32, rv64: bool) -> Option<u32> {
    use crate::isa::*;
    let b = |i: u32| (h >> i) & 1;
    let fld = |hi: u32, lo: u32| (h >> lo) & ((1 << (hi - lo + 1)) - 1);
    let rdf = fld(11, 7);
    let rs2f = fld(6, 2);
    let rdc = fld(4, 2) + 8;
    let rs1c = fld(9, 7) + 8;
    let imm6 = sx((b(12) << 5 | fld(6, 2)) as u64, 6) as i32;
    let sh = b(12) << 5 | fld(6, 2);
    let load = |f3, rd, rs1, i: u32| i_type(0x03, f3, rd, rs1, i as i32);
    let stor = |f3, rs1, rs2, i: u32| s_type(0x23, f3, rs1, rs2, i as i32);
    let uw = fld(12, 10) << 3 | b(6) << 2 | b(5) << 6;
    let ud = fld(12, 10) << 3 | fld(6, 5) << 6;
    let cj = || -> i32 {
        let v = b(12) << 11
            | b(11) << 4
            | fld(10, 9) << 8
            | b(8) << 10
            | b(7) << 6
            | b(6) << 7
            | fld(5, 3) << 1
            | b(2) << 5;
        sx(v as u64, 12) as i32
    };
    let cb = || -> i32 {
        let v = b(12) << 8 | fld(11, 10) << 3 | fld(6, 5) << 6 | fld(4, 3) << 1 | b(2) << 5;
        sx(v as u64, 9) as i32
    };
    Some(match (h & 3, h >> 13) {
        (0, 0) => {
            let i = fld(12, 11) << 4 | fld(10, 7) << 6 | b(6) << 2 | b(5) << 3;
            if i == 0 {
                return None;
            }
            addi(rdc, 2, i as i32)
        }
        (0, 2) => load(2, rdc, rs1c, uw),
        (0, 3) if rv64 => load(3, rdc, rs1c, ud),
        (0, 6) => stor(2, rs1c, rdc, uw),
        (0, 7) if rv64 => stor(3, rs1c, rdc, ud),
        (1, 0) => addi(rdf, rdf, imm6),
        (1, 1) if rv64 => {
            if rdf == 0 {
                return None;
            }
            addiw(rdf, rdf, imm6)
        }
        (1, 1) => jal(1, cj()),
        (1, 2) => addi(rdf, 0, imm6),
        (1, 3) if rdf == 2 => {
            let v = b(12) << 9 | b(6) << 4 | b(5) << 6 | fld(4, 3) << 7 | b(2) << 5;
            if v == 0 {
                return None;
            }
            addi(2, 2, sx(v as u64, 10) as i32)
        }
        (1, 3) => {
            if imm6 == 0 {
                return None;
            }
            lui(rdf, (imm6 as u32) << 12)
        }
        (1, 4) => match fld(11, 10) {
            0 => i_type(0x13, 5, rs1c, rs1c, sh as i32),
            1 => i_type(0x13, 5, rs1c, rs1c, (sh | 0x400) as i32),
            2 => i_type(0x13, 7, rs1c, rs1c, imm6),
            _ => match (b(12), fld(6, 5)) {
                (0, 0) => r_type(0x33, 0, 0x20, rs1c, rs1c, rdc),
                (0, 1) => r_type(0x33, 4, 0, rs1c, rs1c, rdc),
                (0, 2) => r_type(0x33, 6, 0, rs1c, rs1c, rdc),
                (0, 3) => r_type(0x33, 7, 0, rs1c, rs1c, rdc),
                (1, 0) if rv64 => r_type(0x3b, 0, 0x20, rs1c, rs1c, rdc),
                (1, 1) if rv64 => r_type(0x3b, 0, 0, rs1c, rs1c, rdc),
                _ => return None,
            },
        },
        (1, 5) => jal(0, cj()),
        (1, 6) => b_type(0, rs1c, 0, cb()),
        (1, 7) => b_type(1, rs1c, 0, cb()),
        (2, 0) => i_type(0x13, 1, rdf, rdf, sh as i32),
        (2, 2) if rdf != 0 => load(2, rdf, 2, b(12) << 5 | fld(6, 4) << 2 | fld(3, 2) << 6),
        (2, 3) if rv64 && rdf != 0 => load(3, rdf, 2, b(12) << 5 | fld(6, 5) << 3 | fld(4, 2) << 6),
        (2, 4) => match (b(12), rdf, rs2f) {
            (0, 0, 0) => return None,
            (0, r, 0) => jalr(0, r, 0),
            (0, r, s) => add(r, 0, s),
            (_, 0, 0) => EBREAK,
            (_, r, 0) => jalr(1, r, 0),
            (_, r, s) => add(r, r, s),
        },
        (2, 6) => stor(2, 2, rs2f, fld(12, 9) << 2 | fld(8, 7) << 6),
        (2, 7) if rv64 => stor(3, 2, rs2f, fld(12, 10) << 3 | fld(9, 7) << 6),
        _ => return None,
    })
}
