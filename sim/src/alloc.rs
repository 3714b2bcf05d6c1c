//! The allocator is a seam: the simulator decides what recycled memory
//! contains, which allocation fails, and puts guard pages around buffers.

use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::Relaxed};

pub struct SimAlloc;

/// fill memory that is handed out uninitialised
pub static POISON: AtomicU64 = AtomicU64::new(0);
/// number of allocations seen while armed
pub static COUNT: AtomicU64 = AtomicU64::new(0);
/// the allocation (1-based, counted while armed) that fails; 0: none
pub static FAIL_AT: AtomicU64 = AtomicU64::new(0);
pub static ARMED: AtomicBool = AtomicBool::new(false);
pub static FAILED: AtomicU64 = AtomicU64::new(0);
/// allocations of at least this many bytes get guard pages; 0: none
pub static GUARD: AtomicUsize = AtomicUsize::new(0);
/// byte budget for allocations: anything larger fails (0: no bound)
pub static HUGE: AtomicUsize = AtomicUsize::new(0);
/// next allocation goes to this address (one shot)
pub static ROUTE: AtomicUsize = AtomicUsize::new(0);
static ROUTED: AtomicUsize = AtomicUsize::new(0);
/// from this allocation on, everything fails; 0: never
pub static FAIL_FROM: AtomicU64 = AtomicU64::new(0);
/// which armed allocations were big (at least 1 KiB)
pub const BIGS: usize = 512;
pub static BIG: [AtomicU64; BIGS] = [const { AtomicU64::new(0) }; BIGS];
pub static NBIG: AtomicUsize = AtomicUsize::new(0);
/// check that blocks come back as they were handed out
pub static CHECK: AtomicBool = AtomicBool::new(false);
pub static WRONG: AtomicU64 = AtomicU64::new(0);
pub static WRONG_WHAT: [AtomicUsize; 4] = [const { AtomicUsize::new(0) }; 4];
const TAB: usize = 1 << 17;
static TP: [AtomicUsize; TAB] = [const { AtomicUsize::new(0) }; TAB];
static TS: [AtomicUsize; TAB] = [const { AtomicUsize::new(0) }; TAB];
static TA: [AtomicUsize; TAB] = [const { AtomicUsize::new(0) }; TAB];

fn note(p: *mut u8, l: &Layout) {
    if !CHECK.load(Relaxed) || p.is_null() {
        return;
    }
    let mut i = (p as usize >> 4).wrapping_mul(0x9E37_79B1) % TAB;
    for _ in 0..64 {
        let v = TP[i].load(Relaxed);
        if v <= 1 {
            TP[i].store(p as usize, Relaxed);
            TS[i].store(l.size(), Relaxed);
            TA[i].store(l.align(), Relaxed);
            return;
        }
        i = (i + 1) % TAB;
    }
}
fn give_back(p: *mut u8, l: &Layout) {
    if !CHECK.load(Relaxed) {
        return;
    }
    let mut i = (p as usize >> 4).wrapping_mul(0x9E37_79B1) % TAB;
    for _ in 0..64 {
        let v = TP[i].load(Relaxed);
        if v == 0 {
            return;
        }
        if v == p as usize {
            let (s, a) = (TS[i].load(Relaxed), TA[i].load(Relaxed));
            if (s != l.size() || a != l.align()) && WRONG.fetch_add(1, Relaxed) == 0 {
                for (w, x) in WRONG_WHAT.iter().zip([s, a, l.size(), l.align()]) {
                    w.store(x, Relaxed);
                }
            }
            TP[i].store(1, Relaxed);
            return;
        }
        i = (i + 1) % TAB;
    }
}
static POISONED: AtomicU64 = AtomicU64::new(0);

const MAXG: usize = 4096;
static GTAB: [AtomicUsize; MAXG] = [const { AtomicUsize::new(0) }; MAXG];
static GLEN: [AtomicUsize; MAXG] = [const { AtomicUsize::new(0) }; MAXG];
static GSIZE: [AtomicUsize; MAXG] = [const { AtomicUsize::new(0) }; MAXG];
/// blocks whose surroundings were written to
pub static SMASHED: AtomicU64 = AtomicU64::new(0);
pub static GUARDED: AtomicU64 = AtomicU64::new(0);
const CANARY: u8 = 0xa7;

unsafe fn whole(at: usize, size: usize, total: usize) -> bool {
    let base = (at & !4095).min(at);
    let end = (at & !4095) + total - 8192;
    // [start of the first page, block) and [end of the block, end of the last page)
    (base..at).chain(at + size..end).all(|a| std::ptr::read(a as *const u8) == CANARY)
}
/// Are the surroundings of all guarded blocks intact?
pub fn intact() -> bool {
    for i in 0..MAXG {
        let at = GTAB[i].load(Relaxed);
        if at != 0 && unsafe { !whole(at, GSIZE[i].load(Relaxed), GLEN[i].load(Relaxed)) } {
            return false;
        }
    }
    SMASHED.load(Relaxed) == 0
}

pub fn routed() -> bool {
    ROUTED.load(Relaxed) != 0
}
pub fn poisoned() -> u64 {
    POISONED.load(Relaxed)
}

unsafe fn guarded(l: Layout) -> *mut u8 {
    let size = l.size();
    let body = (size + 4095) & !4095;
    let total = body + 8192;
    let p = libc::mmap(
        std::ptr::null_mut(),
        total,
        libc::PROT_NONE,
        libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
        -1,
        0,
    );
    if p == libc::MAP_FAILED {
        return std::ptr::null_mut();
    }
    let base = p as usize + 4096;
    libc::mprotect(base as *mut _, body, libc::PROT_READ | libc::PROT_WRITE);
    // the end of the buffer touches the guard page
    let at = (base + body - size) & !(l.align() - 1);
    for i in 0..MAXG {
        if GTAB[i].compare_exchange(0, at, Relaxed, Relaxed).is_ok() {
            GLEN[i].store(total, Relaxed);
            GSIZE[i].store(size, Relaxed);
            std::ptr::write_bytes(base as *mut u8, CANARY, at - base);
            std::ptr::write_bytes((at + size) as *mut u8, CANARY, base + body - at - size);
            GUARDED.fetch_add(1, Relaxed);
            return at as *mut u8;
        }
    }
    libc::munmap(p, total);
    std::ptr::null_mut()
}
unsafe fn unguard(p: *mut u8) -> bool {
    let a = p as usize;
    if a % 4096 != 0 && GUARD.load(Relaxed) == 0 && !ANY.load(Relaxed) {
        return false;
    }
    for i in 0..MAXG {
        if GTAB[i].load(Relaxed) == a {
            let total = GLEN[i].load(Relaxed);
            if !whole(a, GSIZE[i].load(Relaxed), total) {
                SMASHED.fetch_add(1, Relaxed);
            }
            GTAB[i].store(0, Relaxed);
            let base = (a & !4095) - 4096;
            libc::munmap(base as *mut _, total);
            return true;
        }
    }
    false
}
static ANY: AtomicBool = AtomicBool::new(false);

#[inline]
fn fails(l: &Layout) -> bool {
    if ARMED.load(Relaxed) {
        let n = COUNT.fetch_add(1, Relaxed) + 1;
        if l.size() >= 1024 {
            let i = NBIG.fetch_add(1, Relaxed);
            if i < BIGS {
                BIG[i].store(n, Relaxed);
            }
        }
        let from = FAIL_FROM.load(Relaxed);
        if n == FAIL_AT.load(Relaxed) || from != 0 && n >= from {
            FAILED.fetch_add(1, Relaxed);
            return true;
        }
    }
    let h = HUGE.load(Relaxed);
    h != 0 && l.size() > h
}

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let r = ROUTE.load(Relaxed);
        if r != 0 {
            ROUTE.store(0, Relaxed);
            ROUTED.store(r, Relaxed);
            return r as *mut u8;
        }
        if fails(&l) {
            return std::ptr::null_mut();
        }
        let g = GUARD.load(Relaxed);
        let p = if g != 0 && l.size() >= g {
            ANY.store(true, Relaxed);
            guarded(l)
        } else {
            System.alloc(l)
        };
        note(p, &l);
        let v = POISON.load(Relaxed);
        if v != 0 && !p.is_null() && l.size() >= 64 {
            POISONED.fetch_add(1, Relaxed);
            std::ptr::write_bytes(p, v as u8, l.size());
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if fails(&l) {
            return std::ptr::null_mut();
        }
        let g = GUARD.load(Relaxed);
        let p = if g != 0 && l.size() >= g {
            ANY.store(true, Relaxed);
            guarded(l)
        } else {
            System.alloc_zeroed(l)
        };
        note(p, &l);
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if p as usize == ROUTED.load(Relaxed) && !p.is_null() {
            ROUTED.store(0, Relaxed);
            return;
        }
        give_back(p, &l);
        if ANY.load(Relaxed) && unguard(p) {
            return;
        }
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if fails(&Layout::from_size_align_unchecked(n, l.align())) {
            return std::ptr::null_mut();
        }
        let special = ANY.load(Relaxed)
            || GUARD.load(Relaxed) != 0
            || POISON.load(Relaxed) != 0
            || CHECK.load(Relaxed)
            || p as usize == ROUTED.load(Relaxed);
        if !special {
            return System.realloc(p, l, n);
        }
        let armed = ARMED.swap(false, Relaxed);
        let q = self.alloc(Layout::from_size_align_unchecked(n, l.align()));
        if !q.is_null() {
            std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
            self.dealloc(p, l);
        }
        ARMED.store(armed, Relaxed);
        q
    }
}
