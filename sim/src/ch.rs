//! Choice engine: every decision of a run (data, operations, schedule, faults) is one recorded draw.
//! A run is a pure function of the draw sequence; a replay file is that sequence.

use crate::shared::Shared;

#[derive(Clone)]
pub struct Rng(pub u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed)
    }
    #[inline]
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    #[inline]
    pub fn below(&mut self, n: u64) -> u64 {
        if n <= 1 {
            return 0;
        }
        ((self.next() as u128 * n as u128) >> 64) as u64
    }
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut r = Rng(a ^ b.wrapping_mul(0xD6E8_FEB8_6659_FD93));
    r.next() ^ r.next().rotate_left(17)
}

/// a seed with these bits clear marks a run that takes its rare choice (`rare` must be the first draw)
pub const RARE_MARK: u64 = 0xffff;

pub enum Source {
    Seed(Rng),
    Replay(Vec<u64>, usize),
}

pub struct Ch {
    pub src: Source,
    pub shared: &'static Shared,
}

impl Ch {
    /// uniform draw in 0..n; value 0 is the simplest choice
    pub fn below(&mut self, n: u64) -> u64 {
        let n = n.max(1);
        let v = match &mut self.src {
            Source::Seed(r) => r.below(n),
            Source::Replay(v, p) => {
                let x = v.get(*p).copied().unwrap_or(0);
                *p += 1;
                x.min(n - 1)
            }
        };
        self.shared.push_choice(v);
        v
    }
    /// raw 64 bit draw
    pub fn word(&mut self) -> u64 {
        let v = match &mut self.src {
            Source::Seed(r) => r.next(),
            Source::Replay(v, p) => {
                let x = v.get(*p).copied().unwrap_or(0);
                *p += 1;
                x
            }
        };
        self.shared.push_choice(v);
        v
    }
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
    pub fn usz(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// true with probability num/den (true = the complex alternative)
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        let v = match &mut self.src {
            Source::Seed(r) => u64::from(r.below(den) < num),
            Source::Replay(v, p) => {
                let x = v.get(*p).copied().unwrap_or(0);
                *p += 1;
                x.min(1)
            }
        };
        self.shared.push_choice(v);
        v == 1
    }
    /// a choice too expensive to leave to chance alone: runs with a marked seed always take it
    pub fn rare(&mut self, den: u64) -> bool {
        let v = match &mut self.src {
            Source::Seed(r) => {
                let forced = r.0 & RARE_MARK == 0;
                u64::from(r.below(den) == 0 || forced)
            }
            Source::Replay(v, p) => {
                let x = v.get(*p).copied().unwrap_or(0);
                *p += 1;
                x.min(1)
            }
        };
        self.shared.push_choice(v);
        v == 1
    }
    /// index drawn by weight
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let v = match &mut self.src {
            Source::Seed(r) => {
                let total: u64 = w.iter().map(|x| u64::from(*x)).sum();
                let mut t = r.below(total);
                let mut i = 0;
                while i + 1 < w.len() && t >= u64::from(w[i]) {
                    t -= u64::from(w[i]);
                    i += 1;
                }
                i as u64
            }
            Source::Replay(v, p) => {
                let x = v.get(*p).copied().unwrap_or(0);
                *p += 1;
                let mut i = x.min(w.len() as u64 - 1) as usize;
                // a weight of zero is never drawn
                while w[i] == 0 {
                    i = (i + 1) % w.len();
                }
                i as u64
            }
        };
        self.shared.push_choice(v);
        v as usize
    }
    pub fn pick<T: Copy>(&mut self, xs: &[T]) -> T {
        xs[self.usz(xs.len())]
    }
}
