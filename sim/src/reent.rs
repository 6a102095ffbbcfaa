//! Re-entrancy: the caller's iterators and closures use the library themselves, in the middle of an operation that
//! called them. The nested work is small, exact and judged on the spot.

use crate::ch::Ch;
use crate::sim::*;
use std::cell::Cell;
use vers_vecs::*;

thread_local! {
    /// every n-th callback re-enters (0 = never), callbacks seen, nested runs left, currently inside
    static EVERY: Cell<u64> = const { Cell::new(0) };
    static SEEN: Cell<u64> = const { Cell::new(0) };
    static LEFT: Cell<u64> = const { Cell::new(0) };
    static INSIDE: Cell<bool> = const { Cell::new(false) };
}

pub fn draw(ch: &mut Ch) {
    let e = if ch.chance(1, 5) { ch.pick(&[1u64, 2, 3, 7, 20, 65]) } else { 0 };
    EVERY.with(|x| x.set(e));
    LEFT.with(|x| x.set(60));
}

pub fn tick() {
    let e = EVERY.with(Cell::get);
    if e == 0 || INSIDE.with(Cell::get) {
        return;
    }
    let s = SEEN.with(|x| {
        x.set(x.get() + 1);
        x.get()
    });
    let l = LEFT.with(Cell::get);
    if !s.is_multiple_of(e) || l == 0 {
        return;
    }
    LEFT.with(|x| x.set(l - 1));
    INSIDE.with(|x| x.set(true));
    let saved = crate::alloc::pause();
    let r = guard(|| nested(s));
    crate::alloc::resume(saved);
    INSIDE.with(|x| x.set(false));
    count("fault.reentrant-callback");
    if let Err(e) = r {
        fail("reentrant.panic", &format!("a callback that uses the library itself saw a panic: {e:?}"));
    }
}

fn want<T: PartialEq + std::fmt::Debug>(what: &str, got: T, want: T) {
    if got != want {
        fail("reentrant.wrong", &format!("inside a callback: {what} gave {got:?} instead of {want:?}"));
    }
}

fn nested(s: u64) {
    let n = 65 + (s * 37 % 140) as usize;
    let f = |i: usize| i.is_multiple_of(3) || i == n - 1;
    let ones = (0..n).filter(|i| f(*i)).count();
    match s % 6 {
        0 => {
            let mut b = BitVec::from_bool_iter((0..n).map(f));
            b.extend(vec![BitVec::from_ones(5), BitVec::from_zeros(70)]);
            want("count_ones", b.count_ones(), ones as u64 + 5);
            want("len", b.len(), n + 75);
            let m = BitVec::from_ones(n + 75);
            want("view", b.mask_custom(&m, |a, b| a ^ b).map(|v| v.count_ones()).ok(), Some((n - ones + 70) as u64));
            want("materialised", b.mask_and(&m).map(|v| v.to_bit_vec() == b).ok(), Some(true));
            want("apply", b.apply_mask_custom(&m, |a, b| a & !b).is_ok(), true);
            want("count_ones", b.count_ones(), 0);
        }
        1 => {
            let v = RsVec::from_bit_vec(BitVec::from_bool_iter((0..n).map(f)));
            want("rank1", v.rank1(n), ones);
            want("select1", v.select1(ones - 1), n - 1);
            want("select0", v.select0(0), 1);
            want("iterator", v.iter1().count(), ones);
        }
        2 => {
            let e: Vec<u64> = (0..n as u64).map(|i| i * i).collect();
            let v = EliasFanoVec::from_slice(&e);
            want("get", v.get(n - 1), Some(e[n - 1]));
            want("predecessor", v.predecessor(50), Some(49));
            want("successor", v.successor(50), Some(64));
            want("iterator", v.iter().eq(e.iter().copied()), true);
        }
        3 => {
            let e: Vec<u64> = (0..n as u64).map(|i| i * 7 % 64).collect();
            let v = WaveletMatrix::from_slice(&e, 6);
            want("get", v.get_u64(n - 1), Some(e[n - 1]));
            want("rank", v.rank_u64(n, 7), Some(e.iter().filter(|x| **x == 7).count()));
            let mut t = e.clone();
            t.sort_unstable();
            want("quantile", v.quantile_u64(0..n, n / 2), Some(t[n / 2]));
        }
        4 => {
            let e: Vec<u64> = (0..n as u64).map(|i| (i * 7 + 3) % 97).collect();
            let i = (0..n).min_by_key(|i| e[*i]).unwrap_or(0);
            let v: FastRmq = e.iter().copied().collect();
            want("range_min", e[v.range_min(0, n - 1)], e[i]);
            let v: BinaryRmq = e.iter().copied().collect();
            want("range_min", e[v.range_min(0, n - 1)], e[i]);
        }
        _ => {
            let mut b = BpBuilder::<16>::with_capacity(4);
            for _ in 0..n {
                trees::TreeBuilder::enter_node(&mut b);
            }
            for _ in 0..n {
                trees::TreeBuilder::leave_node(&mut b);
            }
            match trees::TreeBuilder::build(b) {
                Ok(t) => {
                    want("size", trees::Tree::size(&t), n);
                    want("depth", trees::Tree::depth(&t, n - 1), n as u64 - 1);
                }
                Err(e) => fail("reentrant.wrong", &format!("balanced tree refused with {e}")),
            }
        }
    }
}
