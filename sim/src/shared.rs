//! Memory shared between the supervising process and the forked run: survives any crash of the run.

use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::Relaxed};

pub const MAX_CHOICES: usize = 1 << 20;
pub const MAX_TRACE: usize = 1 << 20;
pub const MAX_STATS: usize = 160;

/// plain bytes written by one process and read by another after it ended
#[repr(transparent)]
pub struct Bytes<const N: usize>(std::cell::UnsafeCell<[u8; N]>);
unsafe impl<const N: usize> Sync for Bytes<N> {}
impl<const N: usize> Bytes<N> {
    fn ptr(&self) -> *mut u8 {
        self.0.get() as *mut u8
    }
    fn put(&self, at: usize, b: &[u8]) -> usize {
        let n = b.len().min(N - at);
        for (i, x) in b.iter().take(n).enumerate() {
            unsafe { self.ptr().add(at + i).write_volatile(*x) };
        }
        n
    }
    fn get(&self, n: usize) -> Vec<u8> {
        (0..n.min(N)).map(|i| unsafe { self.ptr().add(i).read_volatile() }).collect()
    }
    fn at(&self, i: usize) -> u8 {
        unsafe { self.ptr().add(i).read_volatile() }
    }
}

#[repr(C)]
pub struct Stat {
    pub name: Bytes<56>,
    pub value: AtomicU64,
}

#[repr(C)]
pub struct Shared {
    pub n_choices: AtomicUsize,
    pub overflow: AtomicUsize,
    pub status: AtomicUsize, // 0 running, 1 ok, 2 violation, 3 inconclusive
    pub nontrivial: AtomicUsize,
    pub hash: AtomicU64,
    pub steps: AtomicU64, // simulated events
    pub trace_on: AtomicUsize,
    pub class_len: AtomicUsize,
    pub msg_len: AtomicUsize,
    pub trace_len: AtomicUsize,
    pub phase_len: AtomicUsize,
    pub panic_len: AtomicUsize,
    pub class: Bytes<128>,
    pub msg: Bytes<4096>,
    pub phase: Bytes<96>,
    pub panic: Bytes<512>,
    pub stats: [Stat; MAX_STATS],
    pub trace: Bytes<MAX_TRACE>,
    pub choices: [AtomicU64; MAX_CHOICES],
}

impl Shared {
    pub fn map() -> &'static Shared {
        unsafe {
            let p = libc::mmap(
                std::ptr::null_mut(),
                std::mem::size_of::<Shared>(),
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
                -1,
                0,
            );
            assert!(p != libc::MAP_FAILED);
            &*(p as *const Shared)
        }
    }
    pub fn reset(&self, trace: bool) {
        for a in [
            &self.n_choices,
            &self.overflow,
            &self.status,
            &self.nontrivial,
            &self.class_len,
            &self.msg_len,
            &self.trace_len,
            &self.phase_len,
            &self.panic_len,
        ] {
            a.store(0, Relaxed);
        }
        self.hash.store(0xcbf2_9ce4_8422_2325, Relaxed);
        self.steps.store(0, Relaxed);
        self.trace_on.store(usize::from(trace), Relaxed);
        for s in &self.stats {
            if s.value.load(Relaxed) != 0 {
                s.value.store(0, Relaxed);
            }
        }
    }
    #[inline]
    pub fn push_choice(&self, v: u64) {
        let n = self.n_choices.load(Relaxed);
        if n < MAX_CHOICES {
            self.choices[n].store(v, Relaxed);
            self.n_choices.store(n + 1, Relaxed);
        } else {
            self.overflow.store(1, Relaxed);
        }
        self.mix(v);
    }
    #[inline]
    pub fn mix(&self, v: u64) {
        let h = self.hash.load(Relaxed);
        self.hash.store((h ^ v).wrapping_mul(0x0000_0100_0000_01B3).rotate_left(23), Relaxed);
    }
    pub fn choices(&self) -> Vec<u64> {
        let n = self.n_choices.load(Relaxed);
        (0..n).map(|i| self.choices[i].load(Relaxed)).collect()
    }
    fn put<const N: usize>(buf: &Bytes<N>, len: &AtomicUsize, s: &str) {
        len.store(buf.put(0, s.as_bytes()), Relaxed);
    }
    fn get<const N: usize>(buf: &Bytes<N>, len: &AtomicUsize) -> String {
        String::from_utf8_lossy(&buf.get(len.load(Relaxed))).into_owned()
    }
    pub fn set_violation(&self, class: &str, msg: &str) {
        Self::put(&self.class, &self.class_len, class);
        Self::put(&self.msg, &self.msg_len, msg);
        self.status.store(2, Relaxed);
    }
    pub fn set_inconclusive(&self, msg: &str) {
        Self::put(&self.msg, &self.msg_len, msg);
        self.status.store(3, Relaxed);
    }
    pub fn set_phase(&self, s: &str) {
        Self::put(&self.phase, &self.phase_len, s);
    }
    pub fn get_phase(&self) -> String {
        Self::get(&self.phase, &self.phase_len)
    }
    pub fn set_panic(&self, s: &str) {
        Self::put(&self.panic, &self.panic_len, s);
    }
    pub fn get_panic(&self) -> String {
        Self::get(&self.panic, &self.panic_len)
    }
    pub fn get_class(&self) -> String {
        Self::get(&self.class, &self.class_len)
    }
    pub fn get_msg(&self) -> String {
        Self::get(&self.msg, &self.msg_len)
    }
    pub fn add_trace(&self, s: &str) {
        let at = self.trace_len.load(Relaxed);
        let n = (s.len() + 1).min(MAX_TRACE - at);
        if n <= 1 {
            return;
        }
        self.trace.put(at, &s.as_bytes()[..n - 1]);
        self.trace.put(at + n - 1, b"\n");
        self.trace_len.store(at + n, Relaxed);
    }
    pub fn get_trace(&self) -> String {
        Self::get(&self.trace, &self.trace_len)
    }
    pub fn count(&self, name: &str, n: u64) {
        let nb = name.as_bytes();
        let mut h: usize = 1469598103;
        for b in nb {
            h = (h ^ *b as usize).wrapping_mul(16777619);
        }
        for k in 0..MAX_STATS {
            let s = &self.stats[(h + k) % MAX_STATS];
            let l = nb.len().min(55);
            if s.name.at(0) == 0 {
                s.name.put(0, &nb[..l]);
                s.value.fetch_add(n, Relaxed);
                return;
            }
            if s.name.at(l) == 0 && (0..l).all(|i| s.name.at(i) == nb[i]) {
                s.value.fetch_add(n, Relaxed);
                return;
            }
        }
    }
    pub fn stats(&self) -> Vec<(String, u64)> {
        let mut v = vec![];
        for s in &self.stats {
            let x = s.value.load(Relaxed);
            if s.name.at(0) != 0 && x != 0 {
                let b = s.name.get(55);
                let e = b.iter().position(|b| *b == 0).unwrap_or(55);
                v.push((String::from_utf8_lossy(&b[..e]).into_owned(), x));
            }
        }
        v.sort();
        v
    }
}
