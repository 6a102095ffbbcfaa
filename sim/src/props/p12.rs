//! P12: damaged snapshots under an allocator with guard pages.
//! Errors, panics, wrong answers and endless loops are all allowed; memory errors are not.

use super::shared_struct::{make_slot, Slot};
use crate::alloc;
use crate::ch::Ch;
use crate::disk::*;
use crate::objs::*;
use crate::sim::*;
use serde_json::Value;
use vers_vecs::*;

pub const CPU_LIMIT_S: u64 = 2;
const CAP: usize = 16 << 20;

fn nasty(ch: &mut Ch, old: u64) -> u64 {
    match ch.weighted(&[4, 3, 4, 2, 2, 2]) {
        0 => old.wrapping_add(ch.below(9)).wrapping_sub(4),
        1 => ch.pick(&[0u64, 1, u64::MAX, u64::MAX - 1, 1 << 63, (1 << 63) - 1, 1 << 32, 0xFFFF, 1 << 58]),
        2 => old ^ (1 << ch.below(64)),
        3 => old.wrapping_mul(2),
        4 => ch.below(2000),
        _ => old ^ (1 << ch.below(20)),
    }
}

fn damage_bin(ch: &mut Ch, b: &mut Vec<u8>, stale: &[u8]) {
    if b.is_empty() {
        return;
    }
    let n = b.len();
    let at = |ch: &mut Ch| match ch.weighted(&[3, 2, 2, 3]) {
        0 => ch.usz(n),
        1 => ch.usz(n.min(64)),
        2 => n - 1 - ch.usz(n.min(128)),
        _ => (ch.usz(n) / 8 * 8).min(n - 1),
    };
    match ch.weighted(&[4, 3, 3, 3, 6, 2, 2]) {
        0 => {
            for _ in 0..ch.range(1, 8) {
                let i = at(ch);
                b[i] ^= 1 << ch.below(8);
            }
            count("fault.bit-flip");
        }
        1 => {
            let i = at(ch);
            let k = ch.pick(&[1usize, 8, 64, 512]);
            let e = (i + k).min(n);
            let v = ch.pick(&[0u8, 0xFF]);
            b[i..e].fill(v);
            count("fault.zeroed-sector");
        }
        2 => {
            let k = ch.pick(&[8usize, 64, 512]);
            if n >= 2 * k {
                let (x, y) = (ch.usz(n / k) * k, ch.usz(n / k) * k);
                for j in 0..k {
                    b.swap(x + j, y + j);
                }
            }
            count("fault.swapped-sector");
        }
        3 => {
            // old content under the new length, or a new head on an old tail
            if !stale.is_empty() {
                let i = at(ch).min(stale.len());
                if ch.chance(1, 2) {
                    let e = (i + ch.pick(&[8usize, 64, 512, 4096])).min(n).min(stale.len());
                    if i < e {
                        b[i..e].copy_from_slice(&stale[i..e]);
                    }
                } else {
                    let mut x = b[..i.min(n)].to_vec();
                    x.extend_from_slice(&stale[i..]);
                    *b = x;
                }
            }
            count("fault.stale-sector");
        }
        4 => {
            // one aligned word changes
            let i = at(ch) / 8 * 8;
            if i + 8 <= n {
                let mut w = [0u8; 8];
                w.copy_from_slice(&b[i..i + 8]);
                let x = nasty(ch, u64::from_le_bytes(w));
                b[i..i + 8].copy_from_slice(&x.to_le_bytes());
            }
            count("fault.changed-word");
        }
        5 => {
            let (i, j) = (at(ch), at(ch));
            let k = ch.pick(&[1usize, 8, 64]).min(n - i.max(j));
            let src = b[i..i + k].to_vec();
            b[j..j + k].copy_from_slice(&src);
            count("fault.misdirected-write");
        }
        _ => {
            // a missing or doubled stretch
            let i = at(ch);
            let k = ch.pick(&[1usize, 2, 8, 64]).min(n - i);
            if ch.chance(1, 2) {
                b.drain(i..i + k);
            } else {
                let src = b[i..i + k].to_vec();
                b.splice(i..i, src);
            }
            count("fault.shifted");
        }
    }
}

/// damage that keeps the encoding well-formed: numbers and array lengths change
fn damage_json(ch: &mut Ch, v: &mut Value) {
    match v {
        Value::Object(m) => {
            let n = m.len();
            if n == 0 {
                return;
            }
            let i = ch.usz(n);
            if let Some(x) = m.values_mut().nth(i) {
                damage_json(ch, x);
            }
        }
        Value::Array(a) => {
            let n = a.len();
            let op = ch.weighted(&[6, 2, 2, 2, 1, 1]);
            if n == 0 {
                if op > 2 {
                    a.push(Value::from(0));
                }
                return;
            }
            let i = match ch.weighted(&[3, 1, 2]) {
                0 => ch.usz(n),
                1 => 0,
                _ => n - 1,
            };
            match op {
                0 => damage_json(ch, &mut a[i]),
                1 => {
                    let k = ch.usz(n + 1);
                    a.truncate(k);
                    count("fault.shortened-array");
                }
                2 => {
                    a.remove(i);
                    count("fault.shortened-array");
                }
                3 => {
                    let x = a[i].clone();
                    a.push(x);
                    count("fault.lengthened-array");
                }
                4 => {
                    let j = ch.usz(n);
                    a.swap(i, j);
                    count("fault.swapped-elements");
                }
                _ => {
                    a.clear();
                    count("fault.shortened-array");
                }
            }
        }
        Value::Number(x) => {
            let old = x.as_u64().or_else(|| x.as_i64().map(|y| y as u64)).unwrap_or(0);
            let new = nasty(ch, old);
            let r = ch.weighted(&[4, 2, 1]);
            *v = match r {
                0 => Value::from(new),
                // narrow fields refuse big numbers
                1 => Value::from(new & 0xFFFF),
                _ => Value::from(new as i64),
            };
            count("fault.changed-number");
        }
        Value::Bool(b) => *b = !*b,
        _ => {}
    }
}

fn claimed(o: &Obj) -> u64 {
    (match o {
        Obj::Bits(v) => v.len(),
        Obj::Rs(v) => v.len(),
        Obj::Sparse(v) => v.len() as usize,
        Obj::Ef(v) => v.len(),
        Obj::Bin(v) => v.len(),
        Obj::Fast(v) => v.len(),
        Obj::Wm(v) => v.len(),
        Obj::Bp(t) => with_bp!(t, t => t.size() * 2),
    }) as u64
}

const STEPS: usize = 1500;
fn eat<I: Iterator>(mut it: I, k: usize) -> u64 {
    let mut n = 0;
    let _ = it.nth(k);
    for x in it.take(STEPS) {
        std::hint::black_box(x);
        n += 1;
    }
    n
}
fn eat2<I: DoubleEndedIterator + ExactSizeIterator + Clone>(mut it: I, k: usize, j: usize) -> u64 {
    let mut n = it.len() as u64;
    std::hint::black_box(it.nth_back(k));
    std::hint::black_box(it.nth(j));
    let c = it.clone();
    for _ in 0..STEPS {
        match it.next_back() {
            Some(x) => std::hint::black_box(x),
            None => break,
        };
    }
    n = n.wrapping_add(eat(c, 0));
    n
}

fn iterate(o: &Obj, k: usize, j: usize, way: usize) -> u64 {
    match o {
        Obj::Bits(v) => match way % 2 {
            0 => eat2(v.iter(), k, j),
            _ => eat2(v.clone().into_iter(), k, j),
        },
        Obj::Rs(v) => match way {
            0 => eat2(v.iter(), k, j),
            1 => eat2(v.iter0(), k, j),
            2 => eat2(v.iter1(), k, j),
            3 => eat2(v.clone().into_iter0(), k, j),
            4 => eat2(v.clone().into_iter1(), k, j),
            #[cfg(all(
                feature = "full",
                target_arch = "x86_64",
                target_feature = "avx",
                target_feature = "avx2",
                target_feature = "avx512f",
                target_feature = "avx512bw"
            ))]
            5 | 6 => eat(v.bit_set_iter0(), k).wrapping_add(eat(v.bit_set_iter1(), j)),
            _ => eat2(v.clone().into_iter(), k, j),
        },
        Obj::Sparse(v) => eat(v.iter1(), k),
        Obj::Ef(v) => match way % 2 {
            0 => eat2(v.iter(), k, j),
            _ => eat2(v.clone().into_iter(), k, j),
        },
        Obj::Bin(v) => v.iter().fold(0, |a, b| a ^ *b),
        Obj::Fast(v) => v.iter().fold(0, |a, b| a ^ *b),
        Obj::Wm(v) => match way {
            0 => eat2(v.iter(), k, j),
            1 => eat2(v.iter_sorted(), k, j),
            2 => v.iter_u64().map_or(0, |i| eat2(i, k, j)),
            3 => v.iter_sorted_u64().map_or(0, |i| eat2(i, k, j)),
            4 => eat2(v.clone().into_iter(), k, j),
            _ => eat2(v.clone().into_iter_sorted(), k, j),
        },
        Obj::Bp(t) => with_bp!(t, t => match way {
            0 => eat(t.iter(), k),
            1 => eat(t.dfs_post_iter(), k),
            2 => eat(t.subtree_iter(j), 0),
            3 => eat(t.subtree_post_iter(j), 0),
            4 => eat(t.children(j), 0),
            5 => eat(t.rev_children(j), 0),
            _ => eat2(t.clone().into_iter(), k, j),
        }),
    }
}

/// conversions, comparison, edits: everything else one can do with it
fn misuse(o: Obj, p: &Obj, k: usize, way: usize) -> u64 {
    match (o, p) {
        (Obj::Bits(mut v), Obj::Bits(w)) => match way {
            0 => u64::from(v == *w),
            1 => {
                v.append_word(k as u64);
                v.append_bits(k as u64, 33);
                v.append(true);
                v.len() as u64
            }
            2 => {
                v.drop_last(k);
                v.append(true);
                v.count_ones()
            }
            3 => {
                v.extend_bitvec(w);
                v.len() as u64
            }
            4 => v.mask_xor(w).map_or(0, |m| m.to_bit_vec().count_ones()),
            5 => {
                let _ = v.apply_mask_or(w);
                v.flip_bit(k);
                v.count_zeros()
            }
            6 => v.split_at(k).map_or(0, |(a, b)| a.count_ones() + b.count_ones()),
            7 => RsVec::from_bit_vec(v).rank1(k) as u64,
            8 => {
                use std::hash::{Hash, Hasher};
                let mut h = std::collections::hash_map::DefaultHasher::new();
                v.hash(&mut h);
                h.finish()
            }
            _ => {
                v.set(k, 1).ok();
                v.set_unchecked(k, 1);
                v.flip_bit_unchecked(k);
                v.heap_size() as u64
            }
        },
        (Obj::Rs(v), Obj::Rs(w)) => match way {
            0 => u64::from(v == *w),
            1 => u64::from(v.sparse_equals::<true>(w)) + u64::from(w.sparse_equals::<true>(&v)),
            2 => u64::from(v.sparse_equals::<false>(w)) + u64::from(w.sparse_equals::<false>(&v)),
            3 => u64::from(v.full_equals(w)),
            4 => BitVec::from(v).count_ones(),
            _ => v.into_bit_vec().len() as u64,
        },
        (Obj::Bp(t), _) => match way % 3 {
            0 => t.into_rs().rank0(k) as u64,
            1 => t.into_bv().count_ones(),
            _ => t.into_iter_nodes().take(STEPS).count() as u64,
        },
        (Obj::Sparse(v), _) => v.heap_size() as u64,
        (Obj::Ef(v), _) => v.heap_size() as u64,
        (Obj::Wm(v), _) => v.heap_size() as u64,
        _ => 0,
    }
}

fn exercise(ch: &mut Ch, sl: &Slot, mut o: Obj) {
    let n = guard(|| claimed(&o)).unwrap_or(0);
    let steps = ch.range(5, 60);
    for _ in 0..steps {
        match ch.weighted(&[20, 5, 1, 2]) {
            0 => {
                let mut q = draw_query(ch, sl.spec.kind, &sl.model);
                if ch.chance(1, 3) {
                    q.a = idx(ch, n);
                    if ch.chance(1, 2) && !matches!(q.op, Op::GetBits | Op::GetBitsUn | Op::Unpack | Op::UnpackUn) {
                        q.b = idx(ch, n);
                    }
                }
                phase(&format!("damaged.{:?}", q.op));
                let a = exec(&o, &q);
                log(|| format!("{q:?} -> {}", short(&a)));
                drop(a);
            }
            1 => {
                let (k, j, way) = (idx(ch, n.min(4000)) as usize, idx(ch, n.min(4000)) as usize, ch.usz(7));
                phase(&format!("damaged.iterate.{way}"));
                log(|| format!("iterate way {way} skipping {k}/{j}"));
                let _ = guard(|| iterate(&o, k, j, way));
            }
            2 => {
                phase("damaged.clone");
                if let Ok(c) = guard(|| o.clone()) {
                    drop(std::mem::replace(&mut o, c));
                }
            }
            _ => {
                let (k, way) = (idx(ch, n) as usize, ch.usz(10));
                phase(&format!("damaged.misuse.{way}"));
                log(|| format!("misuse way {way} with {k}"));
                if let Ok(c) = guard(|| o.clone()) {
                    let _ = guard(|| misuse(c, if way & 1 == 0 { &sl.obj } else { &o }, k, way));
                }
            }
        }
        count("operations-on-damaged");
        let _ = alloc::take_cap_hit();
    }
}

pub fn run(s: &mut Sim) {
    let ch = &mut s.ch;
    let kind = ch.pick(&[Kind::Rs, Kind::Bits, Kind::Rs, Kind::Sparse, Kind::Ef, Kind::Bin, Kind::Fast, Kind::Wm, Kind::Bp, Kind::Wide]);
    let sc = ch.pick(&[2_000usize, 100, 12_000, 20_000, 40_000, 140_000]);
    let sl = make_slot(ch, kind, sc);
    let old = make_slot(ch, kind, sc);
    let fmt = if sl.spec.data.len <= 20_000 && ch.chance(2, 3) { Fmt::Json } else { Fmt::Bin };
    let (mut b, mut stale) = (vec![], vec![]);
    if save(&sl.obj, fmt, &mut b).is_err() || save(&old.obj, fmt, &mut stale).is_err() {
        fail("snapshot.write.refused", "serialising failed without a fault");
    }
    let front = ch.chance(1, 4);
    let tries = ch.range(1, 3);
    for _ in 0..tries {
        let mut d = b.clone();
        let hits = ch.range(1, 3);
        if fmt == Fmt::Json && ch.chance(9, 10) {
            if let Ok(mut v) = serde_json::from_slice::<Value>(&d) {
                for _ in 0..hits {
                    damage_json(ch, &mut v);
                }
                d = serde_json::to_vec(&v).unwrap_or_default();
            }
        } else {
            for _ in 0..hits {
                damage_bin(ch, &mut d, &stale);
            }
        }
        ev("damaged", d.len() as u64);
        phase("damaged.restore");
        log(|| format!("restore {} damaged bytes as {fmt:?}", d.len()));
        alloc::set_cap(CAP);
        alloc::guard_on(front);
        let mut r: &[u8] = &d;
        let k = sl.spec.k;
        let got = guard(|| load(kind, k, fmt, &mut r));
        match got {
            Ok(Ok(o)) => {
                count("damaged-accepted");
                nontrivial();
                exercise(ch, &sl, o);
            }
            Ok(Err(e)) => {
                drop(e);
                count("damaged-refused");
            }
            Err(_) => count("damaged-panicked"),
        }
        alloc::guard_off();
        if alloc::bad_free() {
            fail("memory.bad-free", "a block was freed twice or was never allocated");
        }
        alloc::set_cap(alloc::CAP_BYTES);
    }
    // the undamaged structure is still fine
    for _ in 0..10 {
        let q = draw_query(ch, kind, &sl.model);
        super::shared_struct::check(&sl.spec, &sl.obj, &sl.model, &q, "undamaged neighbour");
    }
}
