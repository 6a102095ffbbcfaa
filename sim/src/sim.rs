//! Per-run context: draws, event log, counters, verdicts.

use crate::ch::Ch;
use crate::shared::Shared;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicPtr, Ordering::Relaxed};

static SHARED: AtomicPtr<Shared> = AtomicPtr::new(std::ptr::null_mut());

pub fn set_shared(s: &'static Shared) {
    SHARED.store(s as *const Shared as *mut Shared, Relaxed);
}
pub fn sh() -> &'static Shared {
    unsafe { &*SHARED.load(Relaxed) }
}
pub fn have_shared() -> bool {
    !SHARED.load(Relaxed).is_null()
}

pub struct Sim {
    pub ch: Ch,
}

/// payload of panics that the simulator injects on purpose
pub struct Injected(pub &'static str);

/// end the run with a violation
pub fn fail(class: &str, msg: &str) -> ! {
    let s = sh();
    if s.trace_on.load(Relaxed) == 1 {
        s.add_trace(&format!("VIOLATION {class}: {msg}"));
    }
    s.set_violation(class, msg);
    unsafe { libc::_exit(1) }
}
pub fn inconclusive(msg: &str) -> ! {
    sh().set_inconclusive(msg);
    unsafe { libc::_exit(0) }
}
pub fn log(f: impl FnOnce() -> String) {
    let s = sh();
    if s.trace_on.load(Relaxed) == 1 {
        s.add_trace(&f());
    }
}
/// one simulated event: feeds the run's history hash
pub fn ev(tag: &str, a: u64) {
    let s = sh();
    let mut h = 0u64;
    for b in tag.bytes() {
        h = h.wrapping_mul(31).wrapping_add(u64::from(b));
    }
    s.mix(h ^ a.rotate_left(32));
    s.steps.fetch_add(1, Relaxed);
}
pub fn count(name: &str) {
    sh().count(name, 1);
}
pub fn count_n(name: &str, n: u64) {
    if n > 0 {
        sh().count(name, n);
    }
}
pub fn nontrivial() {
    sh().nontrivial.store(1, Relaxed);
}
pub fn phase(s: &str) {
    sh().set_phase(s);
}

#[derive(Debug, Clone, PartialEq)]
pub enum Stop {
    /// the simulator's own injected panic or allocation failure
    Injected(&'static str),
    /// the library panicked by itself
    Panic(String),
}

/// Run library code; a panic is caught and classified.
pub fn guard<R>(f: impl FnOnce() -> R) -> Result<R, Stop> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => Ok(r),
        Err(p) => {
            if let Some(i) = p.downcast_ref::<Injected>() {
                Err(Stop::Injected(i.0))
            } else {
                // dropping the payload later keeps the message alive
                Err(Stop::Panic(if have_shared() { sh().get_panic() } else { String::from("panic") }))
            }
        }
    }
}

/// Run library code that must not panic; report a violation under `class` if it does.
pub fn must<R>(class: &str, what: impl FnOnce() -> String, f: impl FnOnce() -> R) -> R {
    match guard(f) {
        Ok(r) => r,
        Err(e) => fail(&format!("{class}.panic"), &format!("{} panicked: {e:?}", what())),
    }
}

/// raise an injected panic without running the panic hook
pub fn inject(what: &'static str) -> ! {
    count(what);
    nontrivial();
    std::panic::resume_unwind(Box::new(Injected(what)))
}

struct Buf {
    b: [u8; 480],
    n: usize,
}
impl std::fmt::Write for Buf {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        let k = s.len().min(self.b.len() - self.n);
        self.b[self.n..self.n + k].copy_from_slice(&s.as_bytes()[..k]);
        self.n += k;
        Ok(())
    }
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        use std::fmt::Write;
        if !have_shared() {
            return;
        }
        let mut b = Buf { b: [0; 480], n: 0 };
        if let Some(l) = info.location() {
            let _ = write!(b, "{}:{}: ", l.file(), l.line());
        }
        if let Some(s) = info.payload().downcast_ref::<&str>() {
            let _ = write!(b, "{s}");
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            let _ = write!(b, "{s}");
        }
        let mut e = b.n;
        while std::str::from_utf8(&b.b[..e]).is_err() {
            e -= 1;
        }
        sh().set_panic(std::str::from_utf8(&b.b[..e]).unwrap_or(""));
    }));
}
