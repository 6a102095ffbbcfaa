//! P03: equality and hashing of replicas that reached their content by different histories.

use super::p02::history;
use crate::bvops::*;
use crate::ch::{Ch, Rng};
use crate::data::*;
use crate::objs::*;
use crate::sim::*;
use std::hash::{Hash, Hasher};
use vers_vecs::*;

struct Rec(Vec<u8>);
impl Hasher for Rec {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, b: &[u8]) {
        self.0.extend_from_slice(b);
    }
}
fn hash_of(b: &BitVec) -> (u64, u64) {
    // two hashers: the standard one with fixed keys, and FNV over the byte stream
    #[allow(deprecated)]
    let mut h = std::hash::SipHasher::new();
    b.hash(&mut h);
    let mut r = Rec(vec![]);
    b.hash(&mut r);
    let mut f = 0xcbf2_9ce4_8422_2325u64;
    for x in &r.0 {
        f = (f ^ u64::from(*x)).wrapping_mul(0x0000_0100_0000_01B3);
    }
    (h.finish(), f)
}

/// bring a replica to a given content by some route
fn reach(ch: &mut Ch, want: &[bool]) -> BitVec {
    let n = want.len();
    match ch.weighted(&[6, 4, 4, 4, 3, 3, 2, 2, 2]) {
        0 => {
            let r = ch.below(BV_ROUTES) as u8;
            build_bv(want, r)
        }
        1 => {
            // a longer vector with junk, cut
            let extra = 1 + ch.usz(130);
            let mut v = want.to_vec();
            let mut r = Rng::new(ch.word());
            v.extend((0..extra).map(|_| r.next() & 1 == 1));
            let route = ch.below(BV_ROUTES) as u8;
            let mut b = build_bv(&v, route);
            b.drop_last(extra);
            b
        }
        2 => {
            // split off
            let pre = ch.usz(130);
            let mut r = Rng::new(ch.word());
            let mut v: Vec<bool> = (0..pre).map(|_| r.next() & 1 == 1).collect();
            v.extend_from_slice(want);
            match build_bv(&v, 3).split_at(pre) {
                Ok((_, b)) => b,
                Err(b) => b,
            }
        }
        3 => {
            // in chunks
            let mut b = BitVec::new();
            let mut i = 0;
            let junk = ch.word();
            while i < n {
                let l = 1 + ch.usz(64).min(n - i - 1);
                let mut w = 0u64;
                for k in 0..l {
                    w |= u64::from(want[i + k]) << k;
                }
                if l < 64 {
                    w |= junk << l;
                }
                b.append_bits(w, l);
                i += l;
                if n > 2000 && ch.chance(1, 4) {
                    b.extend_bitvec(&build_bv(&want[i..], 3));
                    i = n;
                }
            }
            b
        }
        4 => {
            // arbitrary content, xored into place
            let d = draw_bits_len(ch, n);
            let x = gen_bits(&d);
            let diff: Vec<bool> = x.iter().zip(want).map(|(a, b)| a ^ b).collect();
            let mut b = build_bv(&x, 3);
            let m = build_bv(&diff, 3);
            if ch.chance(1, 2) {
                let _ = b.apply_mask_custom(&m, m_xor);
                b
            } else {
                b.mask_custom(&m, |p, q| p ^ q).map(|v| v.to_bit_vec()).unwrap_or_default()
            }
        }
        5 => {
            // complement and invert everything including the storage behind the end
            let comp: Vec<bool> = want.iter().map(|b| !b).collect();
            let mut b = build_bv(&comp, 0);
            let z = BitVec::from_zeros(n);
            let _ = b.apply_mask_custom(&z, m_nor);
            b
        }
        6 => RsVec::from_bit_vec(build_bv(want, 3)).into_bit_vec(),
        7 => {
            let b = build_bv(want, 3);
            bincode::serialize(&b).ok().and_then(|v| bincode::deserialize(&v).ok()).unwrap_or_default()
        }
        _ => {
            // interrupted: the extension unwinds, then the rest is added again
            let mut b = BitVec::new();
            let cut = ch.usz(n + 1);
            let parts = [build_bv(&want[..cut], 3), build_bv(&want[cut..], 3)];
            let r = guard(|| b.extend(Bomb { it: parts.iter(), fuse: Some(1), hint: 0 }));
            debug_assert!(r.is_err());
            let have = b.len().min(n);
            b.extend_bitvec(&build_bv(&want[have..], 4));
            b
        }
    }
}

fn compare(a: &BitVec, b: &BitVec, same: bool, what: &str) {
    let (e1, e2, n1, h1, h2) = must("eq", || format!("comparing {what}"), || (a == b, b == a, a != b, hash_of(a), hash_of(b)));
    if e1 != same || e2 != same || n1 == same {
        fail("eq.wrong", &format!("{what}: lengths {} and {}: a==b {e1}, b==a {e2}, a!=b {n1}, want equal={same}", a.len(), b.len()));
    }
    if same && h1 != h2 {
        fail("hash.wrong", &format!("{what}: equal vectors of length {} hash to {h1:?} and {h2:?}", a.len()));
    }
    count(if same { "compare.equal" } else { "compare.unequal" });
}

fn compare_rs(a: &RsVec, b: &RsVec, same: bool, what: &str) {
    let v = must("rs-eq", || format!("comparing rank/select vectors, {what}"), || {
        [
            ("==", a == b),
            ("== swapped", b == a),
            ("full", a.full_equals(b)),
            ("full swapped", b.full_equals(a)),
            ("sparse ones", a.sparse_equals::<false>(b)),
            ("sparse ones swapped", b.sparse_equals::<false>(a)),
            ("sparse zeros", a.sparse_equals::<true>(b)),
            ("sparse zeros swapped", b.sparse_equals::<true>(a)),
        ]
    });
    for (name, r) in v {
        if r != same {
            fail("rs-eq.wrong", &format!("{what}: rank/select vectors of {} and {} bits: {name} says {r}, want {same}", a.len(), b.len()));
        }
    }
    count(if same { "compare-rs.equal" } else { "compare-rs.unequal" });
}

/// change the content a little
fn perturb(ch: &mut Ch, m: &[bool]) -> Vec<bool> {
    let mut v = m.to_vec();
    let n = v.len();
    match ch.weighted(&[5, 3, 3, 2, 2]) {
        0 if n > 0 => {
            let p = inside(ch, n as u64) as usize;
            v[p] = !v[p];
        }
        1 if n > 0 => {
            // the last bits
            let p = n - 1 - ch.usz(n.min(3));
            v[p] = !v[p];
        }
        2 if n > 1 => {
            // same counts: move a bit
            let p = inside(ch, n as u64) as usize;
            if let Some(q) = (0..n).map(|k| (p + 1 + k) % n).find(|q| v[*q] != v[p]) {
                v.swap(p, q);
            } else {
                v[p] = !v[p];
            }
        }
        3 => v.push(ch.chance(1, 2)),
        _ if n > 0 => {
            v.pop();
        }
        _ => v.push(false),
    }
    v
}

pub fn run(s: &mut Sim) {
    let ch = &mut s.ch;
    if ch.rare(20000) {
        return crate::colossal::p03(ch);
    }
    crate::reent::draw(ch);
    if ch.chance(1, 250) {
        return big(ch);
    }
    let mut reps: Vec<Rep> = vec![];
    for _ in 0..ch.range(1, 3) {
        let r = if ch.chance(1, 3) {
            let d = draw_bits(ch, 40_000);
            let m = gen_bits(&d);
            let bv = reach(ch, &m);
            Rep { bv, model: m, clean: false }
        } else {
            history(ch, 15)
        };
        reps.push(r);
    }
    for _ in 0..ch.range(1, 6) {
        let i = ch.usz(reps.len());
        let base = reps[i].clone();
        phase("reach");
        let target = match ch.weighted(&[4, 3, 1]) {
            0 => base.model.clone(),
            1 => perturb(ch, &base.model),
            _ => {
                let j = ch.usz(reps.len());
                reps[j].model.clone()
            }
        };
        let same = target == base.model;
        log(|| format!("replica of {} bits against one of {} bits reached by another history, equal: {same}", base.model.len(), target.len()));
        let other = must("reach", || "building the other replica".into(), || reach(ch, &target));
        phase("compare");
        ev("compare", u64::from(same));
        compare(&base.bv, &other, same, "two histories");
        nontrivial();
        if ch.chance(1, 2) {
            phase("compare-rs");
            let ra = must("rs", || "RsVec".into(), || RsVec::from_bit_vec(base.bv.clone()));
            let rb = must("rs", || "RsVec".into(), || RsVec::from_bit_vec(other.clone()));
            compare_rs(&ra, &rb, same, "two histories");
            if ch.chance(1, 2) {
                // and back
                let a: BitVec = ra.into();
                let b: BitVec = rb.into();
                compare(&a, &b, same, "after conversion to rank/select and back");
                compare(&a, &base.bv, true, "after conversion to rank/select and back");
            }
        }
        if ch.chance(1, 3) {
            reps.push(Rep { bv: other, model: target, clean: false });
        }
        for k in 0..reps.len() {
            for l in 0..reps.len() {
                if reps[k].model.len() < 3000 {
                    compare(&reps[k].bv, &reps[l].bv, reps[k].model == reps[l].model, "all pairs");
                }
            }
        }
    }
}

/// sizes at which the comparison strategy changes
fn big(ch: &mut Ch) {
    phase("big");
    let n = ch.pick(&[4_000_001usize, 4_000_000, 4_000_064, 4_100_003]);
    let dens = ch.pick(&[3u64, 253, 128, 0, 256]);
    let seed = ch.word();
    let mk = |junk: u64| -> Vec<u64> {
        let mut r = Rng::new(seed);
        let mut w: Vec<u64> = (0..n.div_ceil(64))
            .map(|_| match dens {
                0 => 0,
                256 => !0,
                128 => r.next(),
                3 => r.next() & r.next() & r.next() & r.next() & r.next() & r.next(),
                _ => !(r.next() & r.next() & r.next() & r.next() & r.next() & r.next()),
            })
            .collect();
        if n % 64 != 0 {
            let last = w.len() - 1;
            w[last] = (w[last] & ((1 << (n % 64)) - 1)) | (junk << (n % 64));
        }
        w
    };
    let cut = |w: Vec<u64>| {
        let mut b = BitVec::from_vec(w);
        let l = b.len();
        b.drop_last(l - n);
        b
    };
    let a = cut(mk(0));
    let mut b = cut(mk(!0));
    let mut same = true;
    match ch.weighted(&[3, 3, 3]) {
        0 => {}
        1 => {
            let p = match ch.weighted(&[2, 1, 1]) {
                0 => ch.usz(n),
                1 => n - 1,
                _ => 0,
            };
            b.flip_bit(p);
            same = false;
        }
        _ => {
            // same counts
            let p = ch.usz(n);
            let v = b.get(p);
            if let Some(q) = (0..n).map(|k| (p + 1 + k) % n).find(|q| b.get(*q) != v) {
                b.flip_bit(p);
                b.flip_bit(q);
                same = false;
            }
        }
    }
    log(|| format!("{n} bits at density {dens}/256, equal: {same}"));
    ev("big", n as u64);
    compare(&a, &b, same, "large vectors");
    let (ra, rb) = must("rs", || "RsVec".into(), || (RsVec::from_bit_vec(a), RsVec::from_bit_vec(b)));
    compare_rs(&ra, &rb, same, "large vectors");
    count("large-comparisons");
    nontrivial();
}
