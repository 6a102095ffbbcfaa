//! Deterministic bulk data: a small description expands to bits, numbers or parentheses.

use crate::ch::{Ch, Rng};
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct DataSpec {
    pub pat: u8,
    pub len: usize,
    pub seed: u64,
    pub p1: u64,
    pub p2: u64,
}

/// lengths around word / block / super-block / select-sample boundaries
pub fn draw_len(ch: &mut Ch, max: usize) -> usize {
    let n = match ch.weighted(&[10, 12, 12, 10, 10, 6]) {
        0 => ch.usz(20),
        1 => ch.usz(200),
        2 => {
            let b = ch.range(1, 20) as usize * 64;
            (b + ch.usz(7)).saturating_sub(3)
        }
        3 => {
            let b = ch.range(1, 24) as usize * 512;
            (b + ch.usz(7)).saturating_sub(3)
        }
        4 => {
            let b = ch.range(1, 8) as usize * 8192;
            let off = ch.pick(&[0usize, 1, 2, 63, 64, 65, 511, 512, 513, 4096]);
            if ch.chance(1, 2) {
                b + off
            } else {
                b - off.min(b)
            }
        }
        _ => ch.usz(max + 1),
    };
    n.min(max)
}

pub const BIT_PATS: u64 = 15;

pub fn draw_bits(ch: &mut Ch, max: usize) -> DataSpec {
    let len = draw_len(ch, max);
    draw_bits_len(ch, len)
}

pub fn draw_bits_len(ch: &mut Ch, len: usize) -> DataSpec {
    let pat = ch.weighted(&[3, 3, 12, 8, 6, 5, 4, 4, 3, 6, 3, 6, 4, 4, 4]) as u8;
    let seed = ch.word();
    let p1 = match pat {
        2 => ch.pick(&[128, 1, 255, 8, 250, 64, 200]),
        3 => ch.pick(&[3, 20, 64, 600, 5000, 9000, 20000]),
        5 | 12 => ch.pick(&[2, 3, 7, 63, 64, 65, 511, 512, 1000, 8191, 8192]),
        _ => ch.below(1024),
    };
    let p2 = ch.below(1024);
    DataSpec { pat, len, seed, p1, p2 }
}

pub fn gen_bits(d: &DataSpec) -> Vec<bool> {
    let n = d.len;
    let mut r = Rng::new(d.seed);
    let mut v = vec![false; n];
    match d.pat {
        0 => {}
        1 => v.fill(true),
        2 => {
            for b in v.iter_mut() {
                *b = (r.next() & 255) < d.p1.max(1);
            }
        }
        3 => {
            let mut cur = d.p2 & 1 == 1;
            let mut i = 0;
            while i < n {
                let run = 1 + r.below(2 * d.p1.max(1)) as usize;
                for b in v.iter_mut().skip(i).take(run) {
                    *b = cur;
                }
                i += run;
                cur = !cur;
            }
        }
        4 => {
            // block-structured: whole blocks empty / full / random
            let bs = [64usize, 512, 8192, 4096][(d.p1 % 4) as usize];
            let mut i = 0;
            while i < n {
                let e = (i + bs).min(n);
                match r.below(4) {
                    0 => v[i..e].fill(true),
                    1 => {
                        for b in &mut v[i..e] {
                            *b = r.next() & 1 == 1;
                        }
                    }
                    2 => {
                        let k = i + r.below((e - i) as u64) as usize;
                        v[k] = true;
                    }
                    _ => {}
                }
                i = e;
            }
        }
        5 => {
            let p = d.p1.max(1) as usize;
            let mut i = (d.p2 as usize) % p;
            while i < n {
                v[i] = true;
                i += p;
            }
        }
        6 => {
            if n > 0 {
                v[(d.p1 as usize * n / 1024).min(n - 1)] = true;
            }
        }
        7 => {
            let h = (d.p1 as usize * n / 1024).min(n);
            v[..h].fill(true);
            if d.p2 & 1 == 1 {
                for b in v.iter_mut() {
                    *b = !*b;
                }
            }
        }
        8 => {
            v.fill(true);
            if n > 0 {
                v[(d.p1 as usize * n / 1024).min(n - 1)] = false;
            }
        }
        9 => {
            // dense head, very sparse tail (or reverse)
            let h = (d.p1 as usize * n / 1024).min(n);
            for (i, b) in v.iter_mut().enumerate() {
                *b = if i < h { r.below(8) != 0 } else { r.below(3000) == 0 };
            }
            if d.p2 & 1 == 1 {
                v.reverse();
            }
            if d.p2 & 2 == 2 {
                for b in v.iter_mut() {
                    *b = !*b;
                }
            }
        }
        10 => {
            for (i, b) in v.iter_mut().enumerate() {
                *b = (i as u64 ^ d.p1) & 1 == 1;
            }
        }
        11 => {
            // few isolated ones (or zeros), far apart
            let k = 1 + r.below(12);
            for _ in 0..k {
                if n > 0 {
                    v[r.below(n as u64) as usize] = true;
                }
            }
            if d.p2 & 1 == 1 {
                for b in v.iter_mut() {
                    *b = !*b;
                }
            }
        }
        12 => {
            // periodic zeros
            v.fill(true);
            let p = d.p1.max(1) as usize;
            let mut i = (d.p2 as usize) % p;
            while i < n {
                v[i] = false;
                i += p;
            }
        }
        13 => {
            // word patterns: each 64-bit word one of a few special words
            let specials = [0u64, !0, 1, 1 << 63, 0xaaaa_aaaa_aaaa_aaaa, 0x8000_0000_0000_0001, 0x0000_ffff_0000_ffff];
            for (w, chunk) in v.chunks_mut(64).enumerate() {
                let x = specials[r.below(7) as usize].rotate_left((w as u32) & 3);
                for (i, b) in chunk.iter_mut().enumerate() {
                    *b = (x >> i) & 1 == 1;
                }
            }
        }
        _ => {
            // density changes per region
            let mut i = 0;
            while i < n {
                let run = 1 + r.below(12000) as usize;
                let dens = [0u64, 1, 10, 128, 246, 255, 256][r.below(7) as usize];
                for b in v.iter_mut().skip(i).take(run) {
                    *b = (r.next() & 255) < dens;
                }
                i += run;
            }
        }
    }
    v
}

/// monotone sequences over u64
pub fn draw_mono(ch: &mut Ch, max: usize) -> DataSpec {
    let len = match ch.weighted(&[3, 6, 8, 6, 4]) {
        0 => ch.usz(4),
        1 => ch.usz(20),
        2 => ch.usz(300),
        3 => ch.usz(3000),
        _ => ch.usz(max + 1),
    }
    .min(max);
    DataSpec {
        pat: ch.weighted(&[6, 4, 4, 6, 4, 5, 4, 4, 6, 4, 3]) as u8,
        len,
        seed: ch.word(),
        p1: ch.below(65),
        p2: ch.below(8),
    }
}

pub fn gen_mono(d: &DataSpec) -> Vec<u64> {
    let n = d.len;
    let mut r = Rng::new(d.seed);
    let mask = |b: u64| if b >= 64 { u64::MAX } else { (1u64 << b) - 1 };
    let mut v: Vec<u64> = Vec::with_capacity(n);
    match d.pat {
        0 => {
            for _ in 0..n {
                v.push(r.next() & mask(d.p1));
            }
        }
        1 => {
            // arithmetic progression
            let step = 1 + r.below(1 << d.p1.min(40));
            let base = if d.p2 & 1 == 1 { r.next() >> 8 } else { 0 };
            for i in 0..n as u64 {
                v.push(base.saturating_add(step.saturating_mul(i)));
            }
        }
        2 => {
            // all equal
            let x = match d.p2 {
                0 => 0,
                1 => u64::MAX,
                2 => 1 << 63,
                _ => r.next() & mask(d.p1),
            };
            v.resize(n, x);
        }
        3 => {
            // clusters with huge gaps
            let mut cur = r.next() & mask(d.p1.min(50));
            while v.len() < n {
                let c = 1 + r.below(60);
                for _ in 0..c {
                    if v.len() < n {
                        v.push(cur);
                        cur = cur.saturating_add(r.below(3));
                    }
                }
                cur = cur.saturating_add(r.next() & mask(d.p1.min(56)));
            }
        }
        4 => {
            // close to the top of the range
            for _ in 0..n {
                v.push(u64::MAX - (r.next() & mask(d.p1.min(30))));
            }
        }
        5 => {
            // extremes present
            for _ in 0..n {
                v.push(r.next() & mask(d.p1));
            }
            if n > 0 {
                v[0] = u64::MAX;
            }
            if n > 1 {
                v[1] = 0;
            }
            if n > 2 && d.p2 & 1 == 1 {
                v[2] = u64::MAX - 1;
            }
        }
        6 => {
            // heavy duplicates
            let k = 1 + r.below(6);
            let vals: Vec<u64> = (0..k).map(|_| r.next() & mask(d.p1)).collect();
            for _ in 0..n {
                v.push(vals[r.below(k) as usize]);
            }
        }
        7 => {
            // dense consecutive
            let base = r.next() & mask(d.p1.min(60));
            for i in 0..n as u64 {
                v.push(base.saturating_add(i));
            }
        }
        8 => {
            // one dense cluster sharing upper bits, few far elements (adversarial for in-block search)
            let base = r.next() & mask(d.p1.min(62));
            let far = 1 + r.below(4) as usize;
            for i in 0..n {
                if i < far {
                    v.push(r.next());
                } else {
                    v.push(base.saturating_add(r.below(1 + n as u64 * (1 + d.p2))));
                }
            }
        }
        9 => {
            // steps at powers of two
            for _ in 0..n {
                let b = r.below(64);
                v.push((1u64 << b).wrapping_add(r.below(3)).wrapping_sub(1));
            }
        }
        _ => {
            // offset universe with small spread
            let base = r.next();
            for _ in 0..n {
                v.push(base.saturating_add(r.below(1 + (1 << d.p1.min(20)))));
            }
        }
    }
    v.sort_unstable();
    v
}

/// distinct positions of ones in a vector of at most `u64::MAX` bits
pub fn gen_positions(d: &DataSpec) -> Vec<u64> {
    let mut v = gen_mono(d);
    v.dedup();
    if v.last() == Some(&u64::MAX) {
        v.pop();
    }
    v
}

/// unordered numbers for range-minimum structures
pub fn draw_nums(ch: &mut Ch, max: usize) -> DataSpec {
    let len = match ch.weighted(&[3, 6, 8, 8, 4]) {
        0 => ch.usz(4),
        1 => ch.usz(70),
        2 => {
            let b = ch.range(1, 12) as usize * 128;
            (b + ch.usz(7)).saturating_sub(3)
        }
        3 => {
            let p = 1usize << ch.range(1, 12);
            (p + ch.usz(5)).saturating_sub(2)
        }
        _ => ch.usz(max + 1),
    }
    .min(max);
    DataSpec {
        pat: ch.weighted(&[6, 6, 3, 3, 4, 3, 4, 3]) as u8,
        len,
        seed: ch.word(),
        p1: ch.below(65),
        p2: ch.below(64),
    }
}

pub fn gen_nums(d: &DataSpec) -> Vec<u64> {
    let n = d.len;
    let mut r = Rng::new(d.seed);
    let mask = |b: u64| if b >= 64 { u64::MAX } else { (1u64 << b) - 1 };
    let m = mask(d.p1);
    let mut v: Vec<u64> = match d.pat {
        0 => (0..n).map(|_| r.next() & m).collect(),
        1 => (0..n).map(|_| r.below(2 + d.p2)).collect(),
        2 => (0..n as u64).collect(),
        3 => (0..n as u64).rev().collect(),
        4 => (0..n as u64).map(|i| i % (1 + d.p2 * 3)).collect(),
        5 => vec![if d.p2 & 1 == 1 { u64::MAX } else { 0 }; n],
        6 => {
            // mostly large, few local minima
            let mut v = vec![u64::MAX; n];
            for _ in 0..1 + d.p2 {
                if n > 0 {
                    let k = r.below(n as u64) as usize;
                    v[k] = r.below(10);
                }
            }
            v
        }
        _ => {
            // valley / hill
            let mid = (d.p2 as usize * n) / 64;
            (0..n).map(|i| (i as i64 - mid as i64).unsigned_abs()).collect()
        }
    };
    if d.pat == 7 && d.p1 & 1 == 1 {
        for x in v.iter_mut() {
            *x = u64::MAX - *x;
        }
    }
    v
}

/// symbol sequences for wavelet matrices, `k` bits each
pub fn draw_syms(ch: &mut Ch, max: usize) -> DataSpec {
    let len = match ch.weighted(&[3, 8, 8, 5, 2]) {
        0 => ch.usz(4),
        1 => ch.usz(40),
        2 => ch.usz(200),
        3 => {
            let b = ch.range(1, 4) as usize * 512;
            (b + ch.usz(5)).saturating_sub(2)
        }
        _ => ch.usz(max + 1),
    }
    .min(max);
    DataSpec { pat: ch.weighted(&[8, 4, 4, 4, 4]) as u8, len, seed: ch.word(), p1: ch.below(64), p2: ch.below(64) }
}

pub fn gen_syms(d: &DataSpec, k: u16) -> Vec<u128> {
    let n = d.len;
    let mut r = Rng::new(d.seed);
    let mask: u128 = if k >= 128 { u128::MAX } else { (1u128 << k) - 1 };
    let word = |r: &mut Rng| ((r.next() as u128) << 64 | r.next() as u128) & mask;
    match d.pat {
        0 => (0..n).map(|_| word(&mut r)).collect(),
        1 => {
            let a = 1 + d.p1 % 8;
            let alpha: Vec<u128> = (0..a).map(|_| word(&mut r)).collect();
            (0..n).map(|_| alpha[r.below(a) as usize]).collect()
        }
        2 => {
            let x = match d.p1 % 3 {
                0 => 0,
                1 => mask,
                _ => word(&mut r),
            };
            vec![x; n]
        }
        3 => (0..n as u128).map(|i| (i / (1 + d.p1 as u128)) & mask).collect(),
        _ => {
            let mut v: Vec<u128> = (0..n).map(|_| word(&mut r)).collect();
            v.sort_unstable();
            if d.p1 & 1 == 1 {
                v.reverse();
            }
            v
        }
    }
}

/// parenthesis sequences; p2 bit 0 set = may be unbalanced
pub fn draw_paren(ch: &mut Ch, max: usize, unbalanced: bool) -> DataSpec {
    let len = match ch.weighted(&[2, 8, 8, 6, 4]) {
        0 => ch.usz(4),
        1 => ch.usz(40),
        2 => ch.usz(300),
        3 => {
            let b = (1usize << ch.range(2, 11)) + ch.usz(5);
            b.saturating_sub(2)
        }
        _ => ch.usz(max + 1),
    }
    .min(max);
    let p2 = if unbalanced && ch.chance(1, 4) { 1 } else { 0 };
    DataSpec { pat: ch.weighted(&[8, 4, 4, 4, 5, 5, 3]) as u8, len, seed: ch.word(), p1: ch.below(256), p2 }
}

pub fn gen_paren(d: &DataSpec) -> Vec<bool> {
    let mut r = Rng::new(d.seed);
    if d.p2 & 1 == 1 {
        let n = d.len;
        return match d.pat {
            0 => (0..n).map(|_| r.next() & 1 == 1).collect(),
            1 => vec![true; n],
            2 => vec![false; n],
            3 => (0..n).map(|_| r.below(256) < d.p1).collect(),
            4 => {
                // closings first
                let h = (d.p1 as usize * n) / 256;
                (0..n).map(|i| i >= h).collect()
            }
            5 => {
                let h = (d.p1 as usize * n) / 256;
                (0..n).map(|i| i < h).collect()
            }
            _ => {
                // a balanced sequence with one flipped bit
                let mut v = gen_paren(&DataSpec { p2: 0, ..d.clone() });
                if !v.is_empty() {
                    let k = r.below(v.len() as u64) as usize;
                    v[k] = !v[k];
                }
                v
            }
        };
    }
    let nodes = d.len / 2;
    if nodes == 0 {
        return vec![];
    }
    let inner = nodes - 1;
    let mut v = vec![true];
    match d.pat {
        0 => walk(&mut v, inner, &mut r, 128),
        1 => {
            v.extend(std::iter::repeat(true).take(inner));
            v.extend(std::iter::repeat(false).take(inner));
        }
        2 => {
            for _ in 0..inner {
                v.push(true);
                v.push(false);
            }
        }
        3 => walk(&mut v, inner, &mut r, d.p1.clamp(20, 235)),
        4 => {
            // caterpillar: spine with leaves
            let mut left = inner;
            let mut open = 0;
            while left > 0 {
                if r.below(256) < d.p1 && left > 0 {
                    v.push(true);
                    v.push(false);
                } else {
                    v.push(true);
                    open += 1;
                }
                left -= 1;
            }
            v.extend(std::iter::repeat(false).take(open));
        }
        5 => {
            // wide and deep alternation
            let mut left = inner;
            while left > 0 {
                let k = (1 + r.below(1 + d.p1) as usize).min(left);
                v.extend(std::iter::repeat(true).take(k));
                v.extend(std::iter::repeat(false).take(k));
                left -= k;
            }
        }
        _ => {
            // a forest: no common root
            v.clear();
            walk(&mut v, nodes, &mut r, 128);
            return v;
        }
    }
    v.push(false);
    v
}

fn walk(v: &mut Vec<bool>, nodes: usize, r: &mut Rng, bias: u64) {
    let (mut opens, mut depth) = (nodes, 0usize);
    while opens > 0 || depth > 0 {
        if depth == 0 || (opens > 0 && r.below(256) < bias) {
            v.push(true);
            opens -= 1;
            depth += 1;
        } else {
            v.push(false);
            depth -= 1;
        }
    }
}
