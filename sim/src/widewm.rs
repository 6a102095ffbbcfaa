//! P07: wavelet matrices of symbols far wider than a machine word (up to the limit of 65535 bits).

use crate::ch::{Ch, Rng};
use crate::sim::*;
use vers_vecs::*;

/// least significant bit first
type Sym = Vec<bool>;

fn bv(s: &[bool]) -> BitVec {
    BitVec::from_bools(s)
}
fn key(s: &Sym) -> Vec<bool> {
    s.iter().rev().copied().collect()
}

pub fn run(ch: &mut Ch) {
    let k = match ch.weighted(&[4, 3, 2, 1]) {
        0 => ch.range(129, 320),
        1 => ch.pick(&[128u64, 255, 256, 257, 511, 512, 513]),
        2 => ch.range(320, 3000),
        _ => ch.pick(&[4096u64, 8191, 32_767, 32_768, 65_535]),
    } as usize;
    let n = 1 + ch.usz((150_000 / k).clamp(2, 400));
    let seed = ch.word();
    let mut r = Rng::new(seed);
    // symbols share long prefixes and differ at drawn levels
    let diffs: Vec<usize> = (0..ch.range(1, 12)).map(|_| match r.below(4) {
        0 => 0,
        1 => k - 1,
        _ => r.below(k as u64) as usize,
    }).collect();
    let base: Sym = (0..k).map(|_| r.below(2) == 1).collect();
    let dense = ch.chance(1, 4);
    let syms: Vec<Sym> = (0..n)
        .map(|_| {
            if dense {
                (0..k).map(|_| r.below(2) == 1).collect()
            } else {
                let mut s = base.clone();
                for d in &diffs {
                    if r.below(2) == 1 {
                        s[*d] = !s[*d];
                    }
                }
                s
            }
        })
        .collect();
    log(|| format!("wavelet matrix of {n} symbols of {k} bits, seed {seed:#x}, differing at {diffs:?}, dense {dense}"));
    phase("wide-symbols");
    let all: Vec<bool> = syms.iter().flatten().copied().collect();
    let m = must("Wm.wide.build", || format!("matrix of {n} symbols of {k} bits"), || WaveletMatrix::from_bit_vec(&bv(&all), k as u16));
    let m = if ch.chance(1, 3) { must("Wm.wide.clone", || "clone".into(), || m.clone()) } else { m };
    let keys: Vec<Vec<bool>> = syms.iter().map(key).collect();
    let mut order: Vec<usize> = (0..n).collect();
    order.sort_by(|a, b| keys[*a].cmp(&keys[*b]));
    macro_rules! eq {
        ($what:expr, $got:expr, $want:expr) => {{
            let what: String = $what;
            let got = must("Wm.wide", || what.clone(), || $got);
            let want = $want;
            if got != want {
                fail("Wm.wide.wrong", &format!("{what} on {n} symbols of {k} bits (seed {seed:#x}) is wrong"));
            }
            count("queries");
        }};
    }
    eq!("shape".into(), (m.len(), m.bits_per_element()), (n, k));
    for _ in 0..ch.range(5, 40) {
        let (a, b) = (ch.usz(n), ch.usz(n));
        let (a, b) = (a.min(b), a.max(b) + 1);
        // a present symbol, or one with a few bits changed
        let mut s = syms[ch.usz(n)].clone();
        for _ in 0..ch.below(3) {
            let d = if ch.chance(1, 2) { ch.pick(&diffs) } else { ch.usz(k) };
            s[d] = !s[d];
        }
        let sk = key(&s);
        let sb = bv(&s);
        let sub: Vec<usize> = order.iter().copied().filter(|i| (a..b).contains(i)).collect();
        let q = ch.below(16);
        ev("wide-query", q);
        match q {
            0 => eq!(format!("get_value({a})"), m.get_value(a), Some(bv(&syms[a]))),
            1 => eq!(format!("rank_range({a}..{b})"), m.rank_range(a..b, &sb), Some((a..b).filter(|i| syms[*i] == s).count())),
            2 => eq!(format!("rank({b})"), m.rank(b, &sb), Some((0..b).filter(|i| syms[*i] == s).count())),
            3 => {
                let c = ch.usz(4);
                eq!(format!("select({c})"), m.select(c, &sb), (0..n).filter(|i| syms[*i] == s).nth(c));
            }
            4 => {
                let c = ch.usz(3);
                eq!(format!("select_offset({a}, {c})"), m.select_offset(a, c, &sb), (a..n).filter(|i| syms[*i] == s).nth(c));
            }
            5 => {
                let c = ch.usz(b - a + 1);
                eq!(format!("quantile({a}..{b}, {c})"), m.quantile(a..b, c), sub.get(c).map(|i| bv(&syms[*i])));
            }
            6 => eq!(format!("get_sorted({a})"), m.get_sorted(a), Some(bv(&syms[order[a]]))),
            7 => eq!(format!("range_min({a}..{b})"), m.range_min(a..b), sub.first().map(|i| bv(&syms[*i]))),
            8 => eq!(format!("range_max({a}..{b})"), m.range_max(a..b), sub.last().map(|i| bv(&syms[*i]))),
            9 => eq!(format!("range_median({a}..{b})"), m.range_median(a..b), Some(bv(&syms[sub[(b - a - 1) / 2]]))),
            10 | 11 => eq!(
                format!("predecessor({a}..{b})"),
                m.predecessor(a..b, &sb),
                sub.iter().filter(|i| keys[**i] <= sk).next_back().map(|i| bv(&syms[*i]))
            ),
            12 | 13 => eq!(
                format!("successor({a}..{b})"),
                m.successor(a..b, &sb),
                sub.iter().find(|i| keys[**i] >= sk).map(|i| bv(&syms[*i]))
            ),
            14 => {
                // numbers cannot hold such symbols
                eq!("get_u64".into(), m.get_u64(a), None);
                eq!("rank_u64".into(), m.rank_u64(b, 5), None);
                eq!("rank_range_u64".into(), m.rank_range_u64(a..b, 5), None);
                eq!("rank_offset_u64".into(), m.rank_offset_u64(a, b, 5), None);
                eq!("select_u64".into(), m.select_u64(0, 5), None);
                eq!("select_offset_u64".into(), m.select_offset_u64(a, 0, 5), None);
                eq!("quantile_u64".into(), m.quantile_u64(a..b, 0), None);
                eq!("get_sorted_u64".into(), m.get_sorted_u64(a), None);
                eq!("range_min_u64".into(), m.range_min_u64(a..b), None);
                eq!("range_max_u64".into(), m.range_max_u64(a..b), None);
                eq!("range_median_u64".into(), m.range_median_u64(a..b), None);
                eq!("predecessor_u64".into(), m.predecessor_u64(a..b, 5), None);
                eq!("successor_u64".into(), m.successor_u64(a..b, 5), None);
                eq!("iter_u64".into(), m.iter_u64().is_none(), true);
                eq!("iter_sorted_u64".into(), m.iter_sorted_u64().is_none(), true);
            }
            _ => {
                // symbols of the wrong width
                let w = ch.pick(&[0usize, 1, 64, k - 1, k + 1, k % 256, k + 256]);
                let sb = bv(&vec![true; w]);
                let none = |x: Option<usize>| x.is_none() || w == k;
                eq!(format!("rank with {w} bits"), none(m.rank(b, &sb)), true);
                eq!(format!("rank_range with {w} bits"), none(m.rank_range(a..b, &sb)), true);
                eq!(format!("select with {w} bits"), none(m.select(0, &sb)), true);
                eq!(format!("select_offset with {w} bits"), none(m.select_offset(a, 0, &sb)), true);
                eq!(format!("predecessor with {w} bits"), m.predecessor(a..b, &sb).is_none() || w == k, true);
                eq!(format!("successor with {w} bits"), m.successor(a..b, &sb).is_none() || w == k, true);
            }
        }
    }
    if ch.chance(1, 3) {
        eq!("iteration".into(), m.iter().map(|b| b.iter().map(|x| x == 1).collect::<Vec<bool>>()).collect::<Vec<_>>(), syms.clone());
        eq!(
            "sorted iteration".into(),
            m.iter_sorted().map(|b| b.iter().map(|x| x == 1).collect::<Vec<bool>>()).collect::<Vec<_>>(),
            order.iter().map(|i| syms[*i].clone()).collect::<Vec<_>>()
        );
    }
    count("wide-symbol-matrices");
    nontrivial();
}
