//! Traps on single pages: the seam through which a pause request arrives at
//! an exact instant of a run that the simulator otherwise cannot enter.
//!
//! * The pause flag lives on a page of its own which is inaccessible while a
//!   machine runs. Every poll of the flag faults; the fault handler counts it,
//!   raises the flag if the schedule says so, lets the one instruction through
//!   (single stepping) and closes the page again.
//! * One page of guest memory (the mailbox) can be closed the same way: the
//!   n-th guest access to it raises the flag, in the middle of a trace.

use ckb_vm::machine::Pause;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::Relaxed};

const MAXS: usize = 4096;

static PAGE: AtomicUsize = AtomicUsize::new(0);
static FLAG: AtomicUsize = AtomicUsize::new(0);
static MAIL: AtomicUsize = AtomicUsize::new(0);
static MAIL_LO: AtomicUsize = AtomicUsize::new(0);
static MAIL_HI: AtomicUsize = AtomicUsize::new(0);
static ON: AtomicBool = AtomicBool::new(false);
static STEPPING: AtomicUsize = AtomicUsize::new(0);
pub static POLLS: AtomicU64 = AtomicU64::new(0);
pub static MAILS: AtomicU64 = AtomicU64::new(0);
pub static RAISED: AtomicU64 = AtomicU64::new(0);
/// raise the flag after this poll has been let through (0: none)
static AFTER: AtomicU64 = AtomicU64::new(0);
static RAISE_NOW: AtomicBool = AtomicBool::new(false);
static SCHED: [AtomicU64; MAXS] = [const { AtomicU64::new(0) }; MAXS];
static NS: AtomicUsize = AtomicUsize::new(0);
static POS: AtomicUsize = AtomicUsize::new(0);
static MAIL_AT: AtomicU64 = AtomicU64::new(0);

unsafe fn prot(page: usize, open: bool) {
    if page != 0 {
        let p = if open { libc::PROT_READ | libc::PROT_WRITE } else { libc::PROT_NONE };
        libc::mprotect(page as *mut _, 4096, p);
    }
}

unsafe extern "C" fn on_segv(_s: i32, info: *mut libc::siginfo_t, ctx: *mut libc::c_void) {
    let a = (*info).si_addr() as usize;
    let page = PAGE.load(Relaxed);
    let mail = MAIL.load(Relaxed);
    let uc = ctx as *mut libc::ucontext_t;
    let armed = ON.load(Relaxed);
    let hit = if armed && page != 0 && a & !4095 == page {
        page
    } else if armed && mail != 0 && a & !4095 == mail {
        mail
    } else {
        // somebody else's fault: die of it
        libc::signal(libc::SIGSEGV, libc::SIG_DFL);
        return;
    };
    let write = (*uc).uc_mcontext.gregs[libc::REG_ERR as usize] & 2 != 0;
    // both pages are opened: one instruction may touch only one of them, but
    // a fault in between must not recurse
    prot(page, true);
    prot(mail, true);
    let flag = FLAG.load(Relaxed) as *mut u8;
    if hit == page {
        if a == flag as usize && !write {
            let n = POLLS.fetch_add(1, Relaxed) + 1;
            let i = POS.load(Relaxed);
            if i < NS.load(Relaxed) && SCHED[i].load(Relaxed) == n {
                POS.store(i + 1, Relaxed);
                std::ptr::write_volatile(flag, 1);
                RAISED.fetch_add(1, Relaxed);
            }
            if AFTER.load(Relaxed) == n {
                RAISE_NOW.store(true, Relaxed);
            }
        }
    } else if a >= MAIL_LO.load(Relaxed) && a < MAIL_HI.load(Relaxed) {
        let n = MAILS.fetch_add(1, Relaxed) + 1;
        if MAIL_AT.load(Relaxed) == n {
            std::ptr::write_volatile(flag, 1);
            RAISED.fetch_add(1, Relaxed);
        }
    }
    STEPPING.store(1, Relaxed);
    (*uc).uc_mcontext.gregs[libc::REG_EFL as usize] |= 0x100;
}

unsafe extern "C" fn on_trap(_s: i32, _info: *mut libc::siginfo_t, ctx: *mut libc::c_void) {
    let uc = ctx as *mut libc::ucontext_t;
    if STEPPING.swap(0, Relaxed) == 0 {
        libc::signal(libc::SIGTRAP, libc::SIG_DFL);
        return;
    }
    (*uc).uc_mcontext.gregs[libc::REG_EFL as usize] &= !0x100;
    if RAISE_NOW.swap(false, Relaxed) {
        std::ptr::write_volatile(FLAG.load(Relaxed) as *mut u8, 1);
        RAISED.fetch_add(1, Relaxed);
    }
    if ON.load(Relaxed) {
        prot(PAGE.load(Relaxed), false);
        prot(MAIL.load(Relaxed), false);
    }
}

unsafe fn install() {
    let size = 65536;
    let stack = libc::mmap(
        std::ptr::null_mut(),
        size,
        libc::PROT_READ | libc::PROT_WRITE,
        libc::MAP_PRIVATE | libc::MAP_ANONYMOUS,
        -1,
        0,
    );
    let ss = libc::stack_t { ss_sp: stack, ss_flags: 0, ss_size: size };
    libc::sigaltstack(&ss, std::ptr::null_mut());
    for (sig, f) in [(libc::SIGSEGV, on_segv as usize), (libc::SIGTRAP, on_trap as usize)] {
        let mut sa: libc::sigaction = std::mem::zeroed();
        sa.sa_sigaction = f;
        sa.sa_flags = libc::SA_SIGINFO | libc::SA_ONSTACK;
        libc::sigaction(sig, &sa, std::ptr::null_mut());
    }
}

/// A pause signal whose flag is on the trapped page; None if that page is in
/// use or the signal turns out not to live there.
pub fn new_pause() -> Option<Pause> {
    unsafe {
        if PAGE.load(Relaxed) == 0 {
            let p = libc::mmap(
                std::ptr::null_mut(),
                4096,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_PRIVATE | libc::MAP_ANONYMOUS,
                -1,
                0,
            );
            if p == libc::MAP_FAILED {
                return None;
            }
            PAGE.store(p as usize, Relaxed);
        }
        install();
    }
    let page = PAGE.load(Relaxed);
    if crate::alloc::routed() {
        return None;
    }
    crate::alloc::ROUTE.store(page, Relaxed);
    let p = Pause::new();
    crate::alloc::ROUTE.store(0, Relaxed);
    let f = p.get_raw_ptr() as usize;
    if f & !4095 != page {
        return None;
    }
    FLAG.store(f, Relaxed);
    Some(p)
}

/// The host page that covers guest address `at` of a memory starting at `mem`.
pub fn set_mailbox(lo: usize, len: usize) {
    MAIL.store(lo & !4095, Relaxed);
    MAIL_LO.store(lo, Relaxed);
    MAIL_HI.store(lo + len, Relaxed);
}
pub fn no_mailbox() {
    MAIL.store(0, Relaxed);
}

#[derive(Default, Clone, Debug)]
pub struct Plan {
    /// polls (1-based, ascending) just before which the flag is raised
    pub before: Vec<u64>,
    /// poll right after which it is raised
    pub after: u64,
    /// mailbox access at which it is raised
    pub mail: u64,
}

pub struct Seen {
    pub polls: u64,
    pub mails: u64,
    pub raised: u64,
}

/// Run `f` with the pages closed.
pub fn with<T>(p: &Plan, f: impl FnOnce() -> T) -> (T, Seen) {
    struct Off;
    impl Drop for Off {
        fn drop(&mut self) {
            ON.store(false, Relaxed);
            unsafe {
                prot(PAGE.load(Relaxed), true);
                prot(MAIL.load(Relaxed), true);
            }
        }
    }
    POLLS.store(0, Relaxed);
    MAILS.store(0, Relaxed);
    RAISED.store(0, Relaxed);
    POS.store(0, Relaxed);
    AFTER.store(p.after, Relaxed);
    MAIL_AT.store(p.mail, Relaxed);
    let n = p.before.len().min(MAXS);
    for i in 0..n {
        SCHED[i].store(p.before[i], Relaxed);
    }
    NS.store(n, Relaxed);
    let off = Off;
    ON.store(true, Relaxed);
    unsafe {
        prot(PAGE.load(Relaxed), false);
        prot(MAIL.load(Relaxed), false);
    }
    let r = f();
    drop(off);
    (r, Seen { polls: POLLS.load(Relaxed), mails: MAILS.load(Relaxed), raised: RAISED.load(Relaxed) })
}
