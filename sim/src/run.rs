//! One run = one forked process; the supervisor classifies how it ended.

use crate::ch::{mix, Ch, Rng, Source, RARE_MARK};
use crate::shared::Shared;
use crate::sim::{self, Sim};
use std::sync::atomic::Ordering::Relaxed;

pub const CPU_LIMIT_S: u64 = 20;
/// for runs that announce that they take long
const LONG_CPU_LIMIT_S: u64 = 300;
pub fn long_run() {
    unsafe {
        let l = libc::rlimit { rlim_cur: LONG_CPU_LIMIT_S, rlim_max: 10 * LONG_CPU_LIMIT_S };
        libc::setrlimit(libc::RLIMIT_CPU, &l);
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Verdict {
    Ok,
    Violation { class: String, msg: String },
    Inconclusive(String),
    /// the simulator itself failed
    Harness(String),
}

pub struct RunResult {
    pub verdict: Verdict,
    pub choices: Vec<u64>,
    pub hash: u64,
    pub steps: u64,
    pub nontrivial: bool,
    pub stats: Vec<(String, u64)>,
    pub trace: String,
}

fn signame(s: i32) -> &'static str {
    match s {
        libc::SIGSEGV => "SEGV",
        libc::SIGBUS => "BUS",
        libc::SIGILL => "ILL",
        libc::SIGFPE => "FPE",
        libc::SIGABRT => "ABRT",
        libc::SIGTRAP => "TRAP",
        libc::SIGSYS => "SYS",
        _ => "OTHER",
    }
}

pub fn run_once(shared: &'static Shared, prop: &str, src: Source, trace: bool, full: bool) -> RunResult {
    shared.reset(trace);
    sim::set_shared(shared);
    let pid = unsafe { libc::fork() };
    if pid < 0 {
        return RunResult {
            verdict: Verdict::Harness("fork failed".into()),
            choices: vec![],
            hash: 0,
            steps: 0,
            nontrivial: false,
            stats: vec![],
            trace: String::new(),
        };
    }
    if pid == 0 {
        child(shared, prop, src);
    }
    let mut st = 0;
    loop {
        let r = unsafe { libc::waitpid(pid, &mut st, 0) };
        if r == pid {
            break;
        }
    }
    let status = shared.status.load(Relaxed);
    let verdict = if libc::WIFSIGNALED(st) {
        let s = libc::WTERMSIG(st);
        let ph = shared.get_phase();
        if prop == "P12" && (s == libc::SIGXCPU || (s == libc::SIGABRT && !shared.get_panic().contains("unsafe precondition"))) {
            // endless loops and aborts are allowed on damaged data
            shared.count(if s == libc::SIGXCPU { "damaged-endless" } else { "damaged-aborted" }, 1);
            Verdict::Ok
        } else if s == libc::SIGXCPU {
            Verdict::Violation { class: format!("hang@{ph}"), msg: format!("no progress within the CPU time limit during {ph}") }
        } else if s == libc::SIGKILL {
            Verdict::Inconclusive("killed (out of memory)".into())
        } else {
            Verdict::Violation {
                class: format!("signal.{}@{ph}", signame(s)),
                msg: format!("process died from signal {s} during {ph}; last panic: {}", shared.get_panic()),
            }
        }
    } else if status == 2 {
        Verdict::Violation { class: shared.get_class(), msg: shared.get_msg() }
    } else if status == 3 {
        Verdict::Inconclusive(shared.get_msg())
    } else if status == 1 && shared.overflow.load(Relaxed) == 0 {
        Verdict::Ok
    } else if status == 1 {
        Verdict::Inconclusive("choice buffer full".into())
    } else {
        let m = format!("run ended with wait status {st:#x}, phase {}, panic {}", shared.get_phase(), shared.get_panic());
        Verdict::Harness(m)
    };
    let bad = !matches!(verdict, Verdict::Ok);
    RunResult {
        choices: if bad || full { shared.choices() } else { vec![] },
        hash: shared.hash.load(Relaxed),
        steps: shared.steps.load(Relaxed),
        nontrivial: shared.nontrivial.load(Relaxed) == 1,
        stats: shared.stats(),
        trace: if trace { shared.get_trace() } else { String::new() },
        verdict,
    }
}

fn child(shared: &'static Shared, prop: &str, src: Source) -> ! {
    unsafe {
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
        let cpu = if prop == "P12" { crate::props::p12::CPU_LIMIT_S } else { CPU_LIMIT_S };
        let l = libc::rlimit { rlim_cur: cpu, rlim_max: 10 * LONG_CPU_LIMIT_S };
        libc::setrlimit(libc::RLIMIT_CPU, &l);
        let l = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &l);
    }
    crate::alloc::set_cap(crate::alloc::CAP_BYTES);
    let r = sim::guard(|| {
        let mut s = Sim { ch: Ch { src, shared } };
        crate::props::run(prop, &mut s);
    });
    match r {
        Ok(()) => {
            shared.status.store(1, Relaxed);
            unsafe { libc::_exit(0) }
        }
        Err(e) => {
            let at = shared.get_panic();
            let ph = shared.get_phase();
            if at.starts_with("/repo/src") || at.contains("vers_vecs") {
                sim::fail(&format!("panic@{ph}"), &format!("library panicked: {e:?}"));
            }
            shared.set_panic(&format!("escaped in {ph}: {e:?} {at}"));
            unsafe { libc::_exit(70) }
        }
    }
}

pub fn run_seed(seed: u64, prop: &str, cfg: u64, index: u64) -> u64 {
    let p: u64 = prop.bytes().fold(0, |a, b| a * 131 + u64::from(b));
    let s = mix(mix(seed, p), mix(cfg + 1, index));
    // every worker takes the rare choice once soon after the start, but not all of them at the same time
    let costly = matches!(prop, "P08" | "P10");
    if index == 20 + 40 * cfg || (!costly && index == 41 + 40 * cfg) {
        s & !RARE_MARK
    } else {
        s | u64::from(s & RARE_MARK == 0)
    }
}

pub fn seed_source(s: u64) -> Source {
    Source::Seed(Rng::new(s))
}

/// shrink a failing choice sequence while the violation class stays the same
pub fn shrink(shared: &'static Shared, prop: &str, start: Vec<u64>, class: &str, secs: f64) -> (Vec<u64>, u64) {
    let t0 = std::time::Instant::now();
    let mut best = start;
    let mut tries = 0u64;
    let mut hangs = 0;
    let is_hang = class.starts_with("hang");
    let mut test = |cand: &[u64], best: &mut Vec<u64>| -> bool {
        if is_hang {
            hangs += 1;
            if hangs > 3 {
                return false;
            }
        }
        tries += 1;
        let r = run_once(shared, prop, Source::Replay(cand.to_vec(), 0), false, true);
        if let Verdict::Violation { class: c, .. } = &r.verdict {
            if c == class {
                // what the run really consumed is the canonical form
                let mut used = r.choices;
                if used.len() > cand.len() {
                    // draws beyond the end of the replay were zeros
                    while used.len() > cand.len() && used.last() == Some(&0) {
                        used.pop();
                    }
                }
                if used.len() < best.len() || (used.len() == best.len() && used < *best) {
                    *best = used;
                    return true;
                }
            }
        }
        false
    };
    let over = |t0: &std::time::Instant| t0.elapsed().as_secs_f64() > secs;
    loop {
        let before = best.clone();
        // delete chunks
        let mut size = (best.len() / 2).max(1);
        while size >= 1 && !over(&t0) {
            let mut i = 0;
            while i < best.len() && !over(&t0) {
                let e = (i + size).min(best.len());
                let mut c = best[..i].to_vec();
                c.extend_from_slice(&best[e..]);
                if !test(&c, &mut best) {
                    i += size;
                }
            }
            if size == 1 || (best.len() > 3000 && size <= 8) {
                break;
            }
            size /= 2;
        }
        // zero chunks
        let mut size = (best.len() / 4).clamp(1, 64);
        while size >= 1 && !over(&t0) {
            let mut i = 0;
            while i < best.len() && !over(&t0) {
                let e = (i + size).min(best.len());
                if best[i..e].iter().any(|x| *x != 0) {
                    let mut c = best.clone();
                    c[i..e].fill(0);
                    test(&c, &mut best);
                }
                i += size;
            }
            if size == 1 {
                break;
            }
            size /= 4;
            size = size.max(1);
        }
        // lower single values
        let mut i = 0;
        while i < best.len() && !over(&t0) {
            let mut lo = 0u64;
            let mut guard = 0;
            while i < best.len() && lo < best[i] && guard < 70 && !over(&t0) {
                guard += 1;
                let mid = lo + (best[i] - lo) / 2;
                let mut c = best.clone();
                c[i] = mid;
                if !test(&c, &mut best) {
                    lo = mid + 1;
                }
            }
            i += 1;
        }
        if best == before || over(&t0) {
            break;
        }
    }
    (best, tries)
}
