//! Single-token scheduler over real threads.
//!
//! Exactly one simulated thread runs at any time. While it is inside library code the CPU trap flag is set, so the
//! SIGTRAP handler sees every machine instruction; after a drawn number of instructions inside the program text the
//! thread is parked and the scheduler draws who runs next and for how long. Blocking futex calls (locks, once cells) of
//! simulated threads are trapped by a seccomp filter and become scheduling points, too.

use crate::ch::Ch;
use crate::sim::{self, count, count_n, fail};
use std::sync::atomic::{AtomicBool, AtomicI32, AtomicU64, AtomicUsize, Ordering::SeqCst};

pub const MAX_THREADS: usize = 6;

struct Slot {
    fd: AtomicI32,
    quota: AtomicU64,
    state: AtomicUsize, // 0 ready, 1 blocked, 2 done
    /// instructions of the current bounded operation, and how many it may take
    spent: AtomicU64,
    limit: AtomicU64,
    /// instructions this thread executed under observation
    total: AtomicU64,
    /// accesses to shared memory (see hot.rs) until the thread stops, and how many there were
    hot: AtomicU64,
    hot_total: AtomicU64,
    tag: AtomicUsize,
}

static SLOTS: [Slot; MAX_THREADS] = [const { Slot { fd: AtomicI32::new(-1), quota: AtomicU64::new(0), state: AtomicUsize::new(0), spent: AtomicU64::new(0), limit: AtomicU64::new(u64::MAX), total: AtomicU64::new(0), hot: AtomicU64::new(u64::MAX), hot_total: AtomicU64::new(0), tag: AtomicUsize::new(0) } }; MAX_THREADS];
static CTRL: AtomicI32 = AtomicI32::new(-1);
static CUR: AtomicUsize = AtomicUsize::new(0);
static TEXT_LO: AtomicUsize = AtomicUsize::new(0);
static TEXT_HI: AtomicUsize = AtomicUsize::new(0);
static STEPS: AtomicU64 = AtomicU64::new(0);
static STEP_CAP: AtomicU64 = AtomicU64::new(0);
static OUTSIDE: AtomicU64 = AtomicU64::new(0);
const OUTSIDE_CAP: u64 = 300_000;
/// look for accesses to shared memory?
static ACTIVE: AtomicBool = AtomicBool::new(false);
static FUTEX_TRAPS: AtomicU64 = AtomicU64::new(0);
/// hash over (thread, instruction offset) of every preemption point
static SWITCH_HASH: AtomicU64 = AtomicU64::new(0);

fn efd() -> i32 {
    let f = unsafe { libc::eventfd(0, libc::EFD_CLOEXEC) };
    if f < 0 {
        sim::inconclusive("eventfd failed");
    }
    f
}
fn post(fd: i32) {
    let one = 1u64;
    unsafe {
        libc::write(fd, &one as *const u64 as *const _, 8);
    }
}
fn take(fd: i32) {
    let mut v = 0u64;
    unsafe {
        while libc::read(fd, &mut v as *mut u64 as *mut _, 8) != 8 {}
    }
}

fn text_range() -> (usize, usize) {
    let maps = std::fs::read_to_string("/proc/self/maps").unwrap_or_default();
    let me = text_range as *const () as usize;
    for l in maps.lines() {
        let Some((r, _)) = l.split_once(' ') else { continue };
        let Some((a, b)) = r.split_once('-') else { continue };
        let (Ok(a), Ok(b)) = (usize::from_str_radix(a, 16), usize::from_str_radix(b, 16)) else { continue };
        if me >= a && me < b {
            return (a, b);
        }
    }
    sim::inconclusive("no text mapping");
}

/// give the token back; returns when the controller hands it to us again
fn yield_token(state: usize) {
    let me = CUR.load(SeqCst);
    SLOTS[me].state.store(state, SeqCst);
    post(CTRL.load(SeqCst));
    take(SLOTS[me].fd.load(SeqCst));
}

extern "C" fn on_trap(_s: libc::c_int, _i: *mut libc::siginfo_t, c: *mut libc::c_void) {
    let uc = c as *mut libc::ucontext_t;
    let rip = unsafe { (*uc).uc_mcontext.gregs[libc::REG_RIP as usize] } as usize;
    let me = CUR.load(SeqCst);
    let spent = SLOTS[me].spent.fetch_add(1, SeqCst) + 1;
    if spent > SLOTS[me].limit.load(SeqCst) {
        over_limit(me);
    }
    let lo = TEXT_LO.load(SeqCst);
    if rip < lo || rip >= TEXT_HI.load(SeqCst) {
        // system libraries: seen, never preempted; long copies there end the stepping
        if OUTSIDE.fetch_add(1, SeqCst) > OUTSIDE_CAP {
            unsafe {
                (*uc).uc_mcontext.gregs[libc::REG_EFL as usize] &= !0x100;
            }
        }
        return;
    }
    let n = STEPS.fetch_add(1, SeqCst) + 1;
    if n >= STEP_CAP.load(SeqCst) {
        // budget used up: run on without preemption
        unsafe {
            (*uc).uc_mcontext.gregs[libc::REG_EFL as usize] &= !0x100;
        }
        return;
    }
    SLOTS[me].total.fetch_add(1, SeqCst);
    let mut stop = false;
    if unsafe { crate::hot::is_hot(&(*uc).uc_mcontext.gregs, rip, me, SLOTS[me].tag.load(SeqCst)) } {
        SLOTS[me].hot_total.fetch_add(1, SeqCst);
        let h = SLOTS[me].hot.load(SeqCst);
        if h != u64::MAX {
            SLOTS[me].hot.store(h - 1, SeqCst);
            stop = h <= 1;
        }
    }
    let q = SLOTS[me].quota.load(SeqCst);
    if q > 1 && !stop {
        SLOTS[me].quota.store(q - 1, SeqCst);
        return;
    }
    let h = SWITCH_HASH.load(SeqCst);
    SWITCH_HASH.store((h ^ ((rip - lo) as u64) ^ ((me as u64) << 56)).wrapping_mul(0x0000_0100_0000_01B3).rotate_left(11), SeqCst);
    yield_token(0);
}

/// a bounded operation used up its steps: report without touching the allocator, which may be in the middle of a call
fn over_limit(me: usize) -> ! {
    let (p, n) = (SLOTS_DESC[me][0].load(SeqCst) as *const u8, SLOTS_DESC[me][1].load(SeqCst));
    let d = unsafe { std::str::from_utf8_unchecked(std::slice::from_raw_parts(p, n)) };
    let (class, msg) = d.split_once('|').unwrap_or(("steps", d));
    let s = sim::sh();
    s.add_trace("VIOLATION: the running operation used up its steps");
    s.set_violation(class, msg);
    unsafe { libc::_exit(1) }
}

static SLOTS_DESC: [[AtomicUsize; 2]; MAX_THREADS] = [const { [AtomicUsize::new(0), AtomicUsize::new(0)] }; MAX_THREADS];

/// like `stepped`, with a bound on the number of instructions; `desc` is "class|message" of the violation.
/// Returns the number of instructions used.
pub fn bounded<R>(limit: u64, desc: &str, f: impl FnOnce() -> R) -> (R, u64) {
    let me = CUR.load(SeqCst);
    SLOTS_DESC[me][0].store(desc.as_ptr() as usize, SeqCst);
    SLOTS_DESC[me][1].store(desc.len(), SeqCst);
    SLOTS[me].spent.store(0, SeqCst);
    SLOTS[me].limit.store(limit, SeqCst);
    let r = stepped(f);
    SLOTS[me].limit.store(u64::MAX, SeqCst);
    (r, SLOTS[me].spent.load(SeqCst))
}

extern "C" fn on_sys(_s: libc::c_int, _i: *mut libc::siginfo_t, c: *mut libc::c_void) {
    // a simulated thread is about to block: let somebody else run, then let it re-check its condition
    let uc = c as *mut libc::ucontext_t;
    if ACTIVE.load(SeqCst) {
        FUTEX_TRAPS.fetch_add(1, SeqCst);
        yield_token(1);
    } else {
        unsafe { libc::sched_yield() };
    }
    unsafe {
        (*uc).uc_mcontext.gregs[libc::REG_RAX as usize] = -i64::from(libc::EAGAIN);
    }
}

fn install_handlers() {
    unsafe {
        let mut sa: libc::sigaction = std::mem::zeroed();
        sa.sa_sigaction = on_trap as *const () as usize;
        sa.sa_flags = libc::SA_SIGINFO;
        libc::sigaction(libc::SIGTRAP, &sa, std::ptr::null_mut());
        let mut sa: libc::sigaction = std::mem::zeroed();
        sa.sa_sigaction = on_sys as *const () as usize;
        sa.sa_flags = libc::SA_SIGINFO | libc::SA_NODEFER;
        libc::sigaction(libc::SIGSYS, &sa, std::ptr::null_mut());
    }
}

/// trap FUTEX_WAIT / FUTEX_WAIT_BITSET of this thread
fn trap_futex() {
    #[repr(C)]
    struct F {
        code: u16,
        jt: u8,
        jf: u8,
        k: u32,
    }
    let f = |code: u32, jt: u8, jf: u8, k: u32| F { code: code as u16, jt, jf, k };
    let prog = [
        f(0x20, 0, 0, 4),                         // load arch
        f(0x15, 0, 6, 0xC000_003E),               // x86-64?
        f(0x20, 0, 0, 0),                         // load nr
        f(0x15, 0, 4, libc::SYS_futex as u32),    // futex?
        f(0x20, 0, 0, 24),                        // load arg1 (op), low half
        f(0x54, 0, 0, 0x7f),                      // strip flags
        f(0x15, 2, 0, 0),                         // FUTEX_WAIT -> trap
        f(0x15, 1, 0, 9),                         // FUTEX_WAIT_BITSET -> trap
        f(0x06, 0, 0, 0x7fff_0000),               // allow
        f(0x06, 0, 0, 0x0003_0000),               // trap
    ];
    #[repr(C)]
    struct Prog {
        len: u16,
        p: *const F,
    }
    let p = Prog { len: prog.len() as u16, p: prog.as_ptr() };
    unsafe {
        libc::prctl(libc::PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0);
        // failure is fine: blocking calls are then detected as a hang
        libc::syscall(libc::SYS_seccomp, 1, 0, &p as *const Prog);
    }
}

/// the next operation of this simulated thread is number `tag` (below 64) of the run
pub fn tag(tag: usize) {
    SLOTS[CUR.load(SeqCst)].tag.store(tag % 64, SeqCst);
}

/// run a piece of library code with every instruction visible to the scheduler
#[inline(never)]
pub fn stepped<R>(f: impl FnOnce() -> R) -> R {
    if !ACTIVE.load(SeqCst) || STEPS.load(SeqCst) >= STEP_CAP.load(SeqCst) {
        return f();
    }
    struct Off;
    impl Drop for Off {
        fn drop(&mut self) {
            unsafe {
                std::arch::asm!("pushfq", "and qword ptr [rsp], -257", "popfq");
            }
        }
    }
    let off = Off;
    unsafe {
        std::arch::asm!("pushfq", "or qword ptr [rsp], 256", "popfq");
    }
    let r = f();
    drop(off);
    r
}

/// a voluntary scheduling point between operations
pub fn point() {
    if ACTIVE.load(SeqCst) {
        yield_token(0);
    }
}

pub struct Outcome {
    pub steps: u64,
    pub switches: u64,
    pub preemptions: u64,
    /// operations (by tag) between which data passed through memory
    pub met: u64,
}

/// instructions and accesses to shared memory until the next stop
fn draw_quota(ch: &mut Ch, profile: usize) -> (u64, u64) {
    const NO: u64 = u64::MAX;
    match profile {
        0 => match ch.weighted(&[5, 4, 2]) {
            0 => (ch.range(1, 30), NO),
            1 => (ch.range(1, 150), NO),
            _ => (ch.range(1, 1500), NO),
        },
        1 => (ch.range(1, 12), NO),
        2 => (ch.range(20, 400), NO),
        // stop somewhere inside one operation, then let others finish theirs
        3 => match ch.weighted(&[3, 2, 1]) {
            0 => (NO, NO),
            1 => (ch.range(1, 300), NO),
            _ => (ch.range(1, 60), NO),
        },
        // stop at shared memory
        _ => match ch.weighted(&[4, 4, 2, 1]) {
            0 => (NO, NO),
            1 => (NO, ch.range(1, 4)),
            2 => (NO, ch.range(1, 20)),
            _ => (ch.range(1, 200), NO),
        },
    }
}

/// where a thread stops for good
#[derive(Clone, Copy, Debug)]
pub enum Stall {
    /// after so many of its instructions
    At(u64),
    /// at so many accesses to shared memory
    Hot(u64),
}

/// Run the bodies under the scheduler until all are done.
pub fn run<'a>(ch: &mut Ch, step_cap: u64, bodies: Vec<Box<dyn FnOnce() + Send + 'a>>) -> Outcome {
    run_stalling(ch, step_cap, bodies, &[])
}

/// The same with the schedules of a duel: one thread stops inside an operation while others complete theirs.
pub fn run_duel<'a>(ch: &mut Ch, step_cap: u64, bodies: Vec<Box<dyn FnOnce() + Send + 'a>>) -> Outcome {
    let profile = [4, 3, 0][ch.weighted(&[6, 3, 1])];
    run_profile(ch, step_cap, bodies, &[], profile)
}

/// The same, with threads that stop for good after so many of their instructions: they get the processor back only
/// when all others are done.
pub fn run_stalling<'a>(ch: &mut Ch, step_cap: u64, bodies: Vec<Box<dyn FnOnce() + Send + 'a>>, stalls: &[Option<Stall>]) -> Outcome {
    let profile = ch.weighted(&[5, 2, 3, 3, 3]);
    run_profile(ch, step_cap, bodies, stalls, profile)
}

fn run_profile<'a>(ch: &mut Ch, step_cap: u64, bodies: Vec<Box<dyn FnOnce() + Send + 'a>>, stalls: &[Option<Stall>], profile: usize) -> Outcome {
    let n = bodies.len();
    assert!(n <= MAX_THREADS);
    let (lo, hi) = text_range();
    TEXT_LO.store(lo, SeqCst);
    TEXT_HI.store(hi, SeqCst);
    STEPS.store(0, SeqCst);
    OUTSIDE.store(0, SeqCst);
    STEP_CAP.store(step_cap, SeqCst);
    SWITCH_HASH.store(0, SeqCst);
    CTRL.store(efd(), SeqCst);
    install_handlers();
    for s in SLOTS.iter().take(n) {
        s.fd.store(efd(), SeqCst);
        s.state.store(0, SeqCst);
        s.limit.store(u64::MAX, SeqCst);
        s.total.store(0, SeqCst);
        s.hot.store(u64::MAX, SeqCst);
        s.hot_total.store(0, SeqCst);
        s.tag.store(0, SeqCst);
    }
    crate::hot::reset();
    let mut switches = 0u64;
    let mut pre = 0u64;
    let mut last = usize::MAX;
    ACTIVE.store(true, SeqCst);
    std::thread::scope(|sc| {
        let mut handles = vec![];
        for (i, b) in bodies.into_iter().enumerate() {
            let r = std::thread::Builder::new().stack_size(1 << 20).spawn_scoped(sc, move || {
                trap_futex();
                post(CTRL.load(SeqCst));
                take(SLOTS[i].fd.load(SeqCst));
                b();
                SLOTS[i].state.store(2, SeqCst);
                post(CTRL.load(SeqCst));
                // stay until everybody is done: thread teardown is not part of the simulation
                take(SLOTS[i].fd.load(SeqCst));
            });
            match r {
                Ok(h) => handles.push(h),
                Err(_) => sim::inconclusive("thread creation failed"),
            }
            take(CTRL.load(SeqCst));
        }
        let mut stuck = vec![false; n];
        let mut live: Vec<usize> = (0..n).collect();
        let mut stalled: Vec<usize> = vec![];
        let mut stalls: Vec<Option<Stall>> = stalls.to_vec();
        stalls.resize(n, None);
        while !live.is_empty() || !stalled.is_empty() {
            if live.is_empty() {
                sim::log(|| format!("sched: stalled threads {stalled:?} run again"));
                live.append(&mut stalled);
                stalls.fill(None);
            }
            let k = ch.usz(live.len());
            let t = live[k];
            let (mut q, mut h) = draw_quota(ch, profile);
            match stalls[t] {
                Some(Stall::At(s)) => q = q.min(s.saturating_sub(SLOTS[t].total.load(SeqCst)).max(1)),
                Some(Stall::Hot(s)) => h = h.min(s.saturating_sub(SLOTS[t].hot_total.load(SeqCst)).max(1)),
                None => {}
            }
            SLOTS[t].quota.store(q, SeqCst);
            SLOTS[t].hot.store(h, SeqCst);
            CUR.store(t, SeqCst);
            switches += 1;
            if last != t && last != usize::MAX && live.contains(&last) {
                pre += 1;
            }
            last = t;
            sim::log(|| match (q, h) {
                (u64::MAX, u64::MAX) => format!("sched: thread {t} runs to its next stop"),
                (u64::MAX, h) => format!("sched: thread {t} runs up to its access {h} to shared memory"),
                (q, _) => format!("sched: thread {t} runs up to {q} instructions"),
            });
            post(SLOTS[t].fd.load(SeqCst));
            take(CTRL.load(SeqCst));
            match SLOTS[t].state.load(SeqCst) {
                2 => {
                    live.remove(k);
                    stuck.fill(false);
                }
                1 => {
                    stuck[t] = true;
                    sim::log(|| format!("sched: thread {t} would block"));
                    if live.iter().all(|t| stuck[*t]) && !stalled.is_empty() {
                        fail("sched.waits-for-stalled", &format!("threads {live:?} wait for threads {stalled:?}, which are stalled inside a query"));
                    }
                    if live.iter().all(|t| stuck[*t]) {
                        fail("sched.deadlock", "every live thread waits for a lock nobody releases");
                    }
                }
                _ => {
                    stuck.fill(false);
                    if stalls[t].is_some_and(|s| match s {
                        Stall::At(s) => SLOTS[t].total.load(SeqCst) >= s,
                        Stall::Hot(s) => SLOTS[t].hot_total.load(SeqCst) >= s,
                    }) {
                        sim::log(|| format!("sched: thread {t} stalls"));
                        live.remove(k);
                        stalled.push(t);
                        count("fault.thread-stalled");
                    }
                }
            }
            if switches > 500_000 {
                fail("sched.livelock", "threads make no progress within the switch budget");
            }
        }
        ACTIVE.store(false, SeqCst);
        // one at a time: the C library blocks all signals while a thread exits
        for (s, h) in SLOTS.iter().zip(handles) {
            post(s.fd.load(SeqCst));
            if h.join().is_err() {
                fail("sched.panic", "a panic escaped from a simulated thread");
            }
        }
    });
    for s in SLOTS.iter().take(n) {
        unsafe { libc::close(s.fd.swap(-1, SeqCst)) };
    }
    unsafe { libc::close(CTRL.swap(-1, SeqCst)) };
    let steps = STEPS.load(SeqCst);
    sim::sh().mix(SWITCH_HASH.load(SeqCst));
    sim::sh().mix(steps);
    count_n("sched.instructions", steps);
    count_n("sched.switches", switches);
    count_n("sched.preemptions", pre);
    count_n("sched.shared-accesses", SLOTS.iter().take(n).map(|s| s.hot_total.load(SeqCst)).sum());
    count_n("sched.blocking-calls-trapped", FUTEX_TRAPS.swap(0, SeqCst));
    Outcome { steps, switches, preemptions: pre, met: crate::hot::met() }
}
