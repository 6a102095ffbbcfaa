//! Simulated allocator: accounting, failure injection, size cap, guard pages.
//! Installed as the global allocator of the simulator binary only.

use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, AtomicUsize, Ordering::Relaxed};

pub struct SimAlloc;

static LIVE_BYTES: AtomicI64 = AtomicI64::new(0);
static LIVE_BLOCKS: AtomicI64 = AtomicI64::new(0);
static CALLS: AtomicU64 = AtomicU64::new(0);
/// countdown to the failing call; 0 = disarmed
static FAIL_IN: AtomicU64 = AtomicU64::new(0);
/// once the first failure fired, keep failing until disarmed
static STICKY: AtomicBool = AtomicBool::new(false);
static FAILED: AtomicU64 = AtomicU64::new(0);
static CAP: AtomicUsize = AtomicUsize::new(usize::MAX);
static CAP_HIT: AtomicU64 = AtomicU64::new(0);

static GUARD_ON: AtomicBool = AtomicBool::new(false);
static GUARD_FRONT: AtomicBool = AtomicBool::new(false);
static G_BASE: AtomicUsize = AtomicUsize::new(0);
static G_NEXT: AtomicUsize = AtomicUsize::new(0);
const G_SIZE: usize = 64 << 30;
static BAD_FREE: AtomicU64 = AtomicU64::new(0);
static G_STATE: AtomicUsize = AtomicUsize::new(0);

const PAGE: usize = 4096;

pub const CAP_BYTES: usize = 1 << 30;

pub fn live() -> (i64, i64) {
    (LIVE_BYTES.load(Relaxed), LIVE_BLOCKS.load(Relaxed))
}
pub fn calls() -> u64 {
    CALLS.load(Relaxed)
}
pub fn arm(n: u64, sticky: bool) {
    STICKY.store(sticky, Relaxed);
    FAIL_IN.store(n, Relaxed);
}
/// disarm; returns true if the armed failure fired
pub fn disarm() -> bool {
    FAIL_IN.store(0, Relaxed);
    STICKY.store(false, Relaxed);
    FAILED.swap(0, Relaxed) > 0
}
/// suspend an armed failure (and the call count) while the simulator works on its own behalf
pub fn pause() -> (u64, u64) {
    (FAIL_IN.swap(0, Relaxed), CALLS.load(Relaxed))
}
pub fn resume(s: (u64, u64)) {
    FAIL_IN.store(s.0, Relaxed);
    CALLS.store(s.1, Relaxed);
}
pub fn set_cap(c: usize) {
    CAP.store(c, Relaxed);
}
pub fn take_cap_hit() -> bool {
    CAP_HIT.swap(0, Relaxed) > 0
}
pub fn bad_free() -> bool {
    BAD_FREE.load(Relaxed) > 0
}

/// switch guard-page placement on (for allocations made from now on)
pub fn guard_on(front: bool) {
    if G_BASE.load(Relaxed) == 0 {
        unsafe {
            let p = libc::mmap(
                std::ptr::null_mut(),
                G_SIZE,
                libc::PROT_NONE,
                libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
                -1,
                0,
            );
            let s = libc::mmap(
                std::ptr::null_mut(),
                G_SIZE / PAGE,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
                -1,
                0,
            );
            if p == libc::MAP_FAILED || s == libc::MAP_FAILED {
                crate::sim::inconclusive("cannot reserve guard region");
            }
            G_STATE.store(s as usize, Relaxed);
            G_NEXT.store(p as usize + PAGE, Relaxed);
            G_BASE.store(p as usize, Relaxed);
        }
    }
    GUARD_FRONT.store(front, Relaxed);
    GUARD_ON.store(true, Relaxed);
}
pub fn guard_off() {
    GUARD_ON.store(false, Relaxed);
}
/// where does an address lie relative to the guard region?
pub fn in_guard(addr: usize) -> bool {
    let b = G_BASE.load(Relaxed);
    b != 0 && addr >= b && addr < b + G_SIZE
}

unsafe fn guard_alloc(l: Layout) -> *mut u8 {
    let size = l.size().max(1);
    let pages = size.div_ceil(PAGE);
    let start = G_NEXT.fetch_add((pages + 1) * PAGE, Relaxed);
    if start + (pages + 1) * PAGE > G_BASE.load(Relaxed) + G_SIZE {
        return std::ptr::null_mut();
    }
    if libc::mprotect(start as *mut _, pages * PAGE, libc::PROT_READ | libc::PROT_WRITE) != 0 {
        return std::ptr::null_mut();
    }
    let off = if GUARD_FRONT.load(Relaxed) { 0 } else { (pages * PAGE - size) & !(l.align() - 1) };
    let state = G_STATE.load(Relaxed) as *mut u8;
    *state.add((start - G_BASE.load(Relaxed)) / PAGE) = 1;
    // fresh pages are zero: fill with a pattern so that uninitialised reads are visible
    std::ptr::write_bytes(start as *mut u8, 0xA5, pages * PAGE);
    (start + off) as *mut u8
}

unsafe fn guard_free(p: *mut u8, l: Layout) {
    let start = p as usize & !(PAGE - 1);
    let size = l.size().max(1);
    let pages = size.div_ceil(PAGE);
    let state = G_STATE.load(Relaxed) as *mut u8;
    let s = state.add((start - G_BASE.load(Relaxed)) / PAGE);
    if *s != 1 {
        BAD_FREE.fetch_add(1, Relaxed);
        return;
    }
    *s = 2;
    libc::mprotect(start as *mut _, pages * PAGE, libc::PROT_NONE);
    libc::madvise(start as *mut _, pages * PAGE, libc::MADV_DONTNEED);
}

fn gate(size: usize) -> bool {
    CALLS.fetch_add(1, Relaxed);
    let f = FAIL_IN.load(Relaxed);
    if f > 0 {
        if f == 1 {
            FAILED.fetch_add(1, Relaxed);
            if !STICKY.load(Relaxed) {
                FAIL_IN.store(0, Relaxed);
            }
            return false;
        }
        FAIL_IN.store(f - 1, Relaxed);
    }
    if size > CAP.load(Relaxed) {
        CAP_HIT.fetch_add(1, Relaxed);
        return false;
    }
    true
}

/// is this one of the simulator's own counters?
pub fn own_cell(cell: usize) -> bool {
    let at = |p: *const AtomicU64| p as usize & !7 == cell;
    at(&CALLS) || at(&FAIL_IN) || at(&FAILED) || at(&CAP_HIT) || at(&BAD_FREE)
        || at((&raw const LIVE_BYTES).cast()) || at((&raw const LIVE_BLOCKS).cast())
        || at((&raw const G_NEXT).cast()) || at((&raw const G_STATE).cast()) || at((&raw const STICKY).cast())
}

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !gate(l.size()) {
            return std::ptr::null_mut();
        }
        let p = if GUARD_ON.load(Relaxed) { guard_alloc(l) } else { System.alloc(l) };
        if !p.is_null() {
            LIVE_BYTES.fetch_add(l.size() as i64, Relaxed);
            LIVE_BLOCKS.fetch_add(1, Relaxed);
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE_BYTES.fetch_sub(l.size() as i64, Relaxed);
        LIVE_BLOCKS.fetch_sub(1, Relaxed);
        if in_guard(p as usize) {
            guard_free(p, l);
        } else {
            System.dealloc(p, l);
        }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if !gate(l.size()) {
            return std::ptr::null_mut();
        }
        let p = if GUARD_ON.load(Relaxed) {
            let p = guard_alloc(l);
            if !p.is_null() {
                std::ptr::write_bytes(p, 0, l.size());
            }
            p
        } else {
            System.alloc_zeroed(l)
        };
        if !p.is_null() {
            LIVE_BYTES.fetch_add(l.size() as i64, Relaxed);
            LIVE_BLOCKS.fetch_add(1, Relaxed);
        }
        p
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        if !gate(new) {
            return std::ptr::null_mut();
        }
        let nl = Layout::from_size_align_unchecked(new, l.align());
        if GUARD_ON.load(Relaxed) || in_guard(p as usize) {
            let q = if GUARD_ON.load(Relaxed) { guard_alloc(nl) } else { System.alloc(nl) };
            if q.is_null() {
                return q;
            }
            std::ptr::copy_nonoverlapping(p, q, l.size().min(new));
            if in_guard(p as usize) {
                guard_free(p, l);
            } else {
                System.dealloc(p, l);
            }
            LIVE_BYTES.fetch_add(new as i64 - l.size() as i64, Relaxed);
            return q;
        }
        let q = System.realloc(p, l, new);
        if !q.is_null() {
            LIVE_BYTES.fetch_add(new as i64 - l.size() as i64, Relaxed);
        }
        q
    }
}

/// hook for infallible allocations that failed: unwind with the injected payload
pub fn on_alloc_error(_l: Layout) {
    // the payload and the unwinder need memory
    let sticky = STICKY.load(Relaxed);
    FAIL_IN.store(0, Relaxed);
    let _ = sticky;
    std::panic::resume_unwind(Box::new(crate::sim::Injected("alloc-failure")));
}
