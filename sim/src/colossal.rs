//! Vectors of more than 2^32 bits: periodic content with a few exceptions, so that the reference model is arithmetic.

use crate::ch::{Ch, Rng};
use crate::sim::*;
use std::collections::hash_map::DefaultHasher;
use std::collections::BTreeMap;
use std::hash::{Hash, Hasher};
use vers_vecs::trees::bp::BpBuilder;
use vers_vecs::trees::TreeBuilder;
use vers_vecs::{BitVec, RsVec};

#[derive(Clone)]
pub struct Colo {
    tpl: Vec<u64>,
    /// ones before each word of the template, and in all of it
    pre: Vec<u64>,
    /// where the periodic part ends
    base: u64,
    pub len: u64,
    /// bits that differ from the periodic part, and all bits behind it
    over: BTreeMap<u64, bool>,
}

impl Colo {
    fn base_bit(&self, i: u64) -> bool {
        i < self.base && self.tpl[(i / 64 % self.tpl.len() as u64) as usize] >> (i % 64) & 1 == 1
    }
    pub fn bit(&self, i: u64) -> bool {
        self.over.get(&i).copied().unwrap_or_else(|| self.base_bit(i))
    }
    fn base_rank(&self, pos: u64) -> u64 {
        let p = self.tpl.len() as u64;
        let w = pos / 64;
        let in_word = self.tpl[(w % p) as usize] & ((1u64 << (pos % 64)) - 1);
        w / p * self.pre[p as usize] + self.pre[(w % p) as usize] + u64::from(in_word.count_ones())
    }
    pub fn rank1(&self, pos: u64) -> u64 {
        let pos = pos.min(self.len);
        let mut r = self.base_rank(pos.min(self.base)) as i64;
        for (i, b) in self.over.range(..pos) {
            r += i64::from(*b) - i64::from(self.base_bit(*i));
        }
        r as u64
    }
    pub fn rank0(&self, pos: u64) -> u64 {
        pos.min(self.len) - self.rank1(pos)
    }
    pub fn count(&self, zero: bool) -> u64 {
        if zero { self.rank0(self.len) } else { self.rank1(self.len) }
    }
    /// position of the bit with the given rank, or the length
    pub fn select(&self, zero: bool, rank: u64) -> u64 {
        let f = |p| if zero { self.rank0(p) } else { self.rank1(p) };
        if rank >= f(self.len) {
            return self.len;
        }
        let (mut lo, mut hi) = (0, self.len);
        while lo < hi {
            let m = lo + (hi - lo) / 2;
            if f(m + 1) > rank {
                hi = m;
            } else {
                lo = m + 1;
            }
        }
        lo
    }
    pub fn bits(&self, at: u64, n: u64) -> u64 {
        (0..n).map(|k| u64::from(self.bit(at + k)) << k).sum()
    }
    fn set(&mut self, i: u64, b: bool) {
        if i < self.base && self.base_bit(i) == b {
            self.over.remove(&i);
        } else {
            self.over.insert(i, b);
        }
    }
    fn push(&mut self, b: bool) {
        self.len += 1;
        self.over.insert(self.len - 1, b);
    }
    fn cut(&mut self, n: u64) {
        self.len = n;
        self.base = self.base.min(n);
        self.over.split_off(&n);
    }
}

const G: u64 = 1 << 32;

/// a position where something could wrap or a block ends
fn spot(ch: &mut Ch, len: u64) -> u64 {
    let near = |ch: &mut Ch, c: u64| (c + ch.below(300)).saturating_sub(150).min(len - 1);
    match ch.below(6) {
        0 => near(ch, G),
        1 => near(ch, len),
        2 => near(ch, G / 2),
        3 => {
            let c = G + ch.below((len.max(G + 8192) - G) / 8192) * 8192;
            near(ch, c)
        }
        4 => G.min(len - 1) + ch.below(len - G.min(len - 1)),
        _ => ch.below(len),
    }
}

/// a vector of more than 2^32 bits and its model; `sparse`: one kind of bit is rare
pub fn draw(ch: &mut Ch, sparse: bool) -> (Colo, BitVec) {
    crate::alloc::set_cap(3 << 30);
    crate::run::long_run();
    phase("colossal");
    count("colossal-structures");
    let words = (1usize << 26) + ch.below(1 << 22) as usize;
    let period = ch.pick(&[64usize, 1, 7, 1000, 129, 8192, 50_000]);
    let mut r = Rng::new(ch.word());
    let shape = ch.below(if sparse { 4 } else { 5 });
    let mut tpl = vec![if shape % 2 == 0 { 0u64 } else { !0 }; period];
    match shape {
        0 | 1 => {
            let at = r.below(period as u64) as usize;
            if period > 1 || !sparse {
                tpl[at] ^= 1 << r.below(64);
            }
        }
        2 | 3 => {}
        _ => tpl.iter_mut().for_each(|w| *w = r.next() & r.next()),
    }
    let mut pre = vec![0u64];
    for w in &tpl {
        pre.push(pre[pre.len() - 1] + u64::from(w.count_ones()));
    }
    let mut v: Vec<u64> = Vec::with_capacity(words);
    while v.len() + period <= words {
        v.extend_from_slice(&tpl);
    }
    let rest = words - v.len();
    v.extend_from_slice(&tpl[..rest]);
    let len = words as u64 * 64;
    let mut m = Colo { tpl, pre, base: len, len, over: BTreeMap::new() };
    let mut bv = BitVec::from_vec(v);
    let cut = ch.below(130);
    bv.drop_last(cut as usize);
    m.cut(len - cut);
    for _ in 0..ch.below(8) {
        let p = spot(ch, m.len);
        let b = !m.bit(p);
        m.set(p, b);
        bv.flip_bit(p as usize);
    }
    log(|| format!("a bit vector of {} bits, period {period} words, shape {shape}, exceptions {:?}", m.len, m.over));
    ev("colossal", m.len);
    nontrivial();
    (m, bv)
}

fn check<T: PartialEq + std::fmt::Debug>(what: &str, args: &dyn std::fmt::Debug, m: &Colo, got: T, want: T) {
    if got != want {
        fail(what, &format!("{what}({args:?}) on a vector of {} bits gives {got:?}, expected {want:?}", m.len));
    }
}

fn ask_rs(ch: &mut Ch, m: &Colo, rs: &RsVec, n: u64) {
    phase("query.colossal");
    for _ in 0..n {
        let p = spot(ch, m.len);
        match ch.below(8) {
            0 => check("RsVec.rank1", &p, m, rs.rank1(p as usize) as u64, m.rank1(p)),
            1 => check("RsVec.rank0", &p, m, rs.rank0(p as usize) as u64, m.rank0(p)),
            2 | 3 => {
                let r = if ch.chance(1, 2) { m.rank1(p) } else { spot(ch, m.count(false).max(2)) };
                check("RsVec.select1", &r, m, rs.select1(r as usize) as u64, m.select(false, r));
            }
            4 | 5 => {
                let r = if ch.chance(1, 2) { m.rank0(p) } else { spot(ch, m.count(true).max(2)) };
                check("RsVec.select0", &r, m, rs.select0(r as usize) as u64, m.select(true, r));
            }
            6 => check("RsVec.get", &p, m, rs.get(p as usize), Some(u64::from(m.bit(p)))),
            _ => {
                let k = ch.range(1, 64);
                let want = if p + k <= m.len { Some(m.bits(p, k)) } else { None };
                check("RsVec.get_bits", &(p, k), m, rs.get_bits(p as usize, k as usize), want);
            }
        }
    }
    check("RsVec.len", &(), m, rs.len() as u64, m.len);
    for past in [m.len, m.len + 1, u64::MAX] {
        check("RsVec.rank1", &past, m, rs.rank1(past as usize) as u64, m.count(false));
        check("RsVec.rank0", &past, m, rs.rank0(past as usize) as u64, m.count(true));
    }
    count_n("queries", n);
}

pub fn p04(ch: &mut Ch) {
    let (m, bv) = draw(ch, false);
    let rs = must("RsVec.build", || "building".into(), || RsVec::from_bit_vec(bv));
    let n = ch.range(50, 600);
    ask_rs(ch, &m, &rs, n);
}

/// both ends of a double ended iterator, by rank
fn walk<T: PartialEq + std::fmt::Debug>(
    ch: &mut Ch,
    name: &str,
    m: &Colo,
    it: &mut (impl DoubleEndedIterator<Item = T> + ExactSizeIterator),
    total: u64,
    at: impl Fn(u64) -> T,
) {
    phase(&format!("iter.{name}"));
    let (mut lo, mut hi) = (0u64, total);
    for _ in 0..ch.range(2, 25) {
        let left = hi - lo;
        let k = match ch.below(4) {
            0 => 0,
            1 => ch.below(100),
            2 => ch.below(left.max(1)),
            _ => spot(ch, total.max(2)).saturating_sub(lo),
        };
        let (got, want);
        if ch.chance(1, 2) {
            got = if k == 0 { it.next() } else { it.nth(k as usize) };
            want = if k < left { Some(at(lo + k)) } else { None };
            lo = hi.min(lo + k + 1);
        } else {
            got = if k == 0 { it.next_back() } else { it.nth_back(k as usize) };
            want = if k < left { Some(at(hi - 1 - k)) } else { None };
            hi = lo.max(hi.saturating_sub(k + 1));
        }
        check(name, &k, m, got, want);
        check(&format!("{name}.len"), &(), m, it.len() as u64, hi - lo);
        check(&format!("{name}.size_hint"), &(), m, it.size_hint(), ((hi - lo) as usize, Some((hi - lo) as usize)));
    }
}

pub fn p09(ch: &mut Ch) {
    let (m, bv) = draw(ch, false);
    if ch.chance(1, 3) {
        walk(ch, "BitVec.iter", &m, &mut bv.iter(), m.len, |i| u64::from(m.bit(i)));
        walk(ch, "BitVec.into_iter", &m, &mut bv.into_iter(), m.len, |i| u64::from(m.bit(i)));
        return;
    }
    let rs = must("RsVec.build", || "building".into(), || RsVec::from_bit_vec(bv));
    for _ in 0..ch.range(1, 6) {
        walk(ch, "RsVec.iter1", &m, &mut rs.iter1(), m.count(false), |r| m.select(false, r) as usize);
        walk(ch, "RsVec.iter0", &m, &mut rs.iter0(), m.count(true), |r| m.select(true, r) as usize);
        walk(ch, "RsVec.iter", &m, &mut rs.iter(), m.len, |i| u64::from(m.bit(i)));
    }
    check("RsVec.iter1.last", &(), &m, rs.iter1().last(), m.count(false).checked_sub(1).map(|r| m.select(false, r) as usize));
    check("RsVec.iter0.count", &(), &m, rs.iter0().count() as u64, m.count(true));
    walk(ch, "RsVec.into_iter0", &m, &mut rs.into_iter0(), m.count(true), |r| m.select(true, r) as usize);
}

fn verify_bv(ch: &mut Ch, m: &Colo, bv: &BitVec) {
    check("BitVec.len", &(), m, bv.len() as u64, m.len);
    for _ in 0..6 {
        let p = spot(ch, m.len);
        check("BitVec.get", &p, m, bv.get(p as usize), Some(u64::from(m.bit(p))));
        check("BitVec.is_bit_set", &p, m, bv.is_bit_set(p as usize), Some(m.bit(p)));
        let k = ch.range(1, 64);
        let want = if p + k <= m.len { Some(m.bits(p, k)) } else { None };
        check("BitVec.get_bits", &(p, k), m, bv.get_bits(p as usize, k as usize), want);
    }
    let p = ch.below(G / 2);
    check("BitVec.get", &(p + G), m, bv.get((p + G) as usize), if p + G < m.len { Some(u64::from(m.bit(p + G))) } else { None });
    check("BitVec.get", &m.len, m, bv.get(m.len as usize), None);
}

pub fn p01(ch: &mut Ch) {
    let (mut m, mut bv) = draw(ch, false);
    verify_bv(ch, &m, &bv);
    phase("edit.colossal");
    for _ in 0..ch.range(1, 40) {
        let p = spot(ch, m.len);
        match ch.below(9) {
            0 => {
                bv.flip_bit(p as usize);
                let b = !m.bit(p);
                m.set(p, b);
                log(|| format!("flip {p}"));
            }
            1 => {
                let b = ch.chance(1, 2);
                let r = bv.set(p as usize, u64::from(b)).is_ok();
                check("BitVec.set", &p, &m, r, true);
                m.set(p, b);
                log(|| format!("set {p} {b}"));
            }
            2 => {
                let b = ch.chance(1, 2);
                bv.append(b);
                m.push(b);
                log(|| format!("append {b}"));
            }
            3 => {
                let (w, k) = (ch.word(), ch.below(65));
                bv.append_bits(w, k as usize);
                (0..k).for_each(|i| m.push(w >> i & 1 == 1));
                log(|| format!("append {k} bits of {w:x}"));
            }
            4 => {
                let k = ch.below(200);
                bv.drop_last(k as usize);
                m.cut(m.len - k);
                log(|| format!("drop {k}"));
            }
            5 => {
                let w: Vec<bool> = (0..ch.below(200)).map(|_| ch.chance(1, 2)).collect();
                let mut o = BitVec::new();
                w.iter().for_each(|b| o.append(*b));
                bv.extend_bitvec(&o);
                w.iter().for_each(|b| m.push(*b));
                log(|| format!("extend by {}", w.len()));
            }
            6 => {
                check("BitVec.count_ones", &(), &m, bv.count_ones(), m.count(false));
                check("BitVec.count_zeros", &(), &m, bv.count_zeros(), m.count(true));
            }
            7 if ch.chance(1, 4) => {
                log(|| format!("split at {p}"));
                let at = p;
                let (l, r) = must("BitVec.split_at", || "split".into(), || bv.split_at(at as usize).unwrap_or_else(|_| fail("BitVec.split_at", "refused")));
                check("BitVec.split_at.len", &at, &m, (l.len() as u64, r.len() as u64), (at, m.len - at));
                for _ in 0..10 {
                    let q = spot(ch, m.len);
                    let got = if q < at { l.get(q as usize) } else { r.get((q - at) as usize) };
                    check("BitVec.split_at.get", &(at, q), &m, got, Some(u64::from(m.bit(q))));
                }
                bv = l;
                m.cut(at);
                if at <= 64 {
                    return;
                }
            }
            _ => {
                let r = bv.set((m.len + ch.below(100)) as usize, 1).is_err();
                check("BitVec.set", &"past the end", &m, r, true);
            }
        }
        if m.len < 1000 {
            return;
        }
        verify_bv(ch, &m, &bv);
        count("edits");
    }
}

fn h(v: &BitVec) -> u64 {
    let mut h = DefaultHasher::new();
    v.hash(&mut h);
    h.finish()
}

pub fn p03(ch: &mut Ch) {
    let (m, a) = draw(ch, true);
    // the same content through another history
    let mut b = a.clone();
    let k = ch.below(150);
    b.append_word(ch.word());
    b.append_word(ch.word());
    b.append_word(ch.word());
    b.drop_last(192 + k as usize);
    for i in m.len - k..m.len {
        b.append(m.bit(i));
    }
    let p = spot(ch, m.len);
    let differs = ch.chance(1, 2);
    if differs {
        b.flip_bit(p as usize);
    }
    log(|| format!("compare, {}", if differs { format!("bit {p} differs") } else { "equal".into() }));
    phase("compare.colossal");
    check("BitVec.eq", &p, &m, a == b, !differs);
    if differs || ch.chance(1, 2) {
        check("BitVec.hash", &p, &m, h(&a) == h(&b), !differs);
    }
    let (a, b) = (RsVec::from_bit_vec(a), RsVec::from_bit_vec(b));
    check("RsVec.full_equals", &p, &m, a.full_equals(&b), !differs);
    check("RsVec.eq", &p, &m, a == b, !differs);
    let zero = m.count(true) < m.count(false);
    let s = if zero { a.sparse_equals::<true>(&b) } else { a.sparse_equals::<false>(&b) };
    check("RsVec.sparse_equals", &p, &m, s, !differs);
    count("comparisons");
}

pub fn p11(ch: &mut Ch) {
    let (m, bv) = draw(ch, false);
    phase("snapshot.colossal");
    if ch.chance(1, 2) {
        let b = bincode::serialize(&bv).unwrap_or_else(|e| fail("Bits.save", &format!("{e}")));
        drop(bv);
        let r: BitVec = bincode::deserialize(&b).unwrap_or_else(|e| fail("Bits.restore", &format!("{e}")));
        drop(b);
        verify_bv(ch, &m, &r);
        check("BitVec.count_ones", &(), &m, r.count_ones(), m.count(false));
    } else {
        let rs = RsVec::from_bit_vec(bv);
        let b = bincode::serialize(&rs).unwrap_or_else(|e| fail("Rs.save", &format!("{e}")));
        drop(rs);
        let r: RsVec = bincode::deserialize(&b).unwrap_or_else(|e| fail("Rs.restore", &format!("{e}")));
        drop(b);
        ask_rs(ch, &m, &r, 100);
    }
    count("round-trips");
}

/// more than 2^31 events in one direction
pub fn p10(ch: &mut Ch) {
    phase("events.colossal");
    crate::alloc::set_cap(3 << 30);
    crate::run::long_run();
    let n = (1u64 << 31) + ch.range(1, 1000);
    let leave = ch.chance(1, 2);
    let back = ch.below(3);
    log(|| format!("{n} {} events, then {back} of the other", if leave { "leave" } else { "enter" }));
    let mut b = BpBuilder::<512>::with_capacity(n / 2 + 8);
    for _ in 0..n {
        if leave {
            b.leave_node();
        } else {
            b.enter_node();
        }
    }
    for _ in 0..back {
        if leave {
            b.enter_node();
        } else {
            b.leave_node();
        }
    }
    let want = (n - back) as i64 * if leave { -1 } else { 1 };
    match b.build() {
        Ok(_) => fail("builder.surplus", &format!("a surplus of {want} enters gives a tree")),
        Err(e) if e != want => fail("builder.surplus", &format!("a surplus of {want} enters is reported as {e}")),
        Err(_) => {}
    }
    count("colossal-streams");
    ev("colossal", n);
    nontrivial();
}

/// views of more than 2^32 bits; the mask is uniform with a few exceptions
pub fn p02(ch: &mut Ch) {
    let (m, a) = draw(ch, false);
    let ones = ch.chance(1, 2);
    let mut b = if ones { BitVec::from_ones(m.len as usize) } else { BitVec::from_zeros(m.len as usize) };
    let mut flips = std::collections::BTreeSet::new();
    for _ in 0..ch.below(6) {
        let p = spot(ch, m.len);
        if flips.insert(p) {
            b.flip_bit(p as usize);
        }
    }
    let op = ch.below(3);
    let f = |x: bool, y: bool| match op {
        0 => x ^ y,
        1 => x & y,
        _ => x | y,
    };
    let bit = |i: u64| f(m.bit(i), ones != flips.contains(&i));
    // f(x, ones) is a constant, the bit or its inverse
    let (of0, of1) = (f(false, ones), f(true, ones));
    let mut total = (if of0 { m.count(true) } else { 0 } + if of1 { m.count(false) } else { 0 }) as i64;
    for p in &flips {
        total += i64::from(bit(*p)) - i64::from(f(m.bit(*p), ones));
    }
    log(|| format!("view {} with a mask of {}, except at {flips:?}", ["xor", "and", "or"][op as usize], if ones { "ones" } else { "zeros" }));
    phase("view.colossal");
    let names = ["get", "is_bit_set", "get_bits"];
    let ask = |ch: &mut Ch, get: &dyn Fn(usize, usize, u64) -> Option<u64>| {
        for _ in 0..ch.range(10, 80) {
            let p = spot(ch, m.len);
            let k = ch.range(1, 64);
            let w = ch.below(3) as usize;
            let want = match w {
                0 | 1 => Some(u64::from(bit(p))),
                _ => (p + k <= m.len).then(|| (0..k).map(|i| u64::from(bit(p + i)) << i).sum()),
            };
            check(&format!("view.{}", names[w]), &(p, k), &m, get(w, p as usize, k), want);
        }
        check("view.get", &m.len, &m, get(0, m.len as usize, 1), None);
    };
    macro_rules! view {
        ($v:expr) => {{
            let v = $v.unwrap_or_else(|e| fail("view.make", &format!("refused: {e}")));
            ask(ch, &|w, p, k| match w {
                0 => v.get(p),
                1 => v.is_bit_set(p).map(u64::from),
                _ => v.get_bits(p, k as usize),
            });
            check("view.count_ones", &(), &m, v.count_ones(), total as u64);
            check("view.count_zeros", &(), &m, v.count_zeros(), m.len - total as u64);
            v.to_bit_vec()
        }};
    }
    let r = match op {
        0 => view!(a.mask_xor(&b)),
        1 => view!(a.mask_and(&b)),
        _ => view!(a.mask_or(&b)),
    };
    drop((a, b));
    ask(ch, &|w, p, k| match w {
        0 => r.get(p),
        1 => r.is_bit_set(p).map(u64::from),
        _ => r.get_bits(p, k as usize),
    });
    check("materialised.len", &(), &m, r.len() as u64, m.len);
    check("materialised.count_ones", &(), &m, r.count_ones(), total as u64);
    count("view-reads");
}

/// more than 2^32 bits of lower halves in an Elias-Fano vector; values are arithmetic
pub fn p05(ch: &mut Ch) {
    use vers_vecs::{EliasFanoVec, SparseRSVec};
    crate::alloc::set_cap(3 << 30);
    crate::run::long_run();
    phase("colossal");
    count("colossal-structures");
    let n = (1u64 << 27) + ch.below(1 << 20);
    let bits = ch.range(34, 36);
    let step = 1u64 << bits;
    let base = if ch.chance(1, 2) { 0 } else { ch.below(1 << 40) };
    let salt = ch.word();
    let at = |i: u64| base + i * step + ((i ^ salt).wrapping_mul(0x9e37_79b9_7f4a_7c15) >> (64 - bits));
    log(|| format!("{n} numbers, {base} + i * 2^{bits} + noise"));
    ev("colossal", n);
    nontrivial();
    let v: Vec<u64> = (0..n).map(at).collect();
    let sparse = ch.chance(1, 4);
    let last = v[v.len() - 1];
    let (ef, sp);
    if sparse {
        sp = must("Sparse.build", || "building".into(), || Some(SparseRSVec::new(&v, last + 1)));
        ef = None;
    } else {
        sp = None;
        ef = must("Ef.build", || "building".into(), || Some(EliasFanoVec::from_slice(&v)));
    }
    drop(v);
    phase("query.colossal");
    // how many numbers are smaller than x
    let rank = |x: u64| {
        if x <= base {
            return u64::from(x > at(0)) ;
        }
        let i = ((x - base) / step).min(n);
        if i == n { n } else { i + u64::from(at(i) < x) }
    };
    let near = |ch: &mut Ch| {
        let i = match ch.below(4) {
            0 => ((1u64 << 32) / bits + ch.below(400)).saturating_sub(200),
            1 => n - 1 - ch.below(300),
            2 => ch.below(300),
            _ => ch.below(n),
        };
        i.min(n - 1)
    };
    let ask = |what: &str, q: u64, got: Option<u64>, want: Option<u64>| {
        if got != want {
            fail(what, &format!("{what}({q}) on {n} numbers gives {got:?}, expected {want:?}"));
        }
    };
    for _ in 0..ch.range(50, 500) {
        let i = near(ch);
        let x = match ch.below(4) {
            0 => at(i),
            1 => at(i).saturating_add(1),
            2 => at(i).saturating_sub(1),
            _ => (base + i * step).saturating_add(ch.below(step)),
        };
        let r = rank(x);
        let here = r < n && at(r) == x;
        let pred = if here { Some(x) } else { r.checked_sub(1).map(at) };
        let succ = (r < n).then(|| at(r));
        if let Some(s) = &sp {
            match ch.below(4) {
                0 => ask("Sparse.select1", i, Some(s.select1(i as usize)), Some(at(i))),
                1 => ask("Sparse.rank1", x, Some(s.rank1(x)), Some(r)),
                2 => ask("Sparse.rank0", x, Some(s.rank0(x)), Some(x.min(last + 1) - r)),
                _ => ask("Sparse.get", x, s.get(x), (x <= last).then_some(u64::from(here))),
            }
        } else if let Some(e) = &ef {
            match ch.below(5) {
                0 => ask("Ef.get", i, e.get(i as usize), Some(at(i))),
                1 => ask("Ef.rank", x, Some(e.rank(x)), Some(r)),
                2 => ask("Ef.predecessor", x, e.predecessor(x), pred),
                3 => ask("Ef.successor", x, e.successor(x), succ),
                _ => ask("Ef.delta", i, e.delta(i as usize), Some(if i == 0 { at(0) } else { at(i) - at(i - 1) })),
            }
        }
    }
    count("queries");
}

/// a path of more than 2^31 nodes that ends in many leaves
pub fn p08(ch: &mut Ch) {
    if ch.chance(1, 2) {
        deep::<512>(ch)
    } else {
        deep::<1024>(ch)
    }
}

fn deep<const B: usize>(ch: &mut Ch) {
    use vers_vecs::trees::bp::BpTree;
    use vers_vecs::trees::{IsAncestor, LevelTree, SubtreeSize, Tree};
    crate::alloc::set_cap(3 << 30);
    crate::run::long_run();
    phase("colossal");
    count("colossal-structures");
    let d = (1u64 << 31) + ch.below(5000);
    let w = ch.below(3000);
    let len = 2 * (d + w);
    log(|| format!("a path of {d} nodes with {w} leaves below it, blocks of {B}"));
    ev("colossal", len);
    nontrivial();
    let mut bv = BitVec::with_capacity(len as usize + 64);
    let words = d / 64;
    for _ in 0..words {
        bv.append_word(u64::MAX);
    }
    (words * 64..d).for_each(|_| bv.append_bit(1));
    for _ in 0..w {
        bv.append_bits(1, 2);
    }
    for _ in 0..words {
        bv.append_word(0);
    }
    (words * 64..d).for_each(|_| bv.append_bit(0));
    let t: BpTree<B> = must("Bp.build", || "building".into(), || BpTree::from_bit_vector(bv));
    phase("query.colossal");
    let tail = d + 2 * w; // the first closing parenthesis of the path
    let exc = |j: u64| -> i64 {
        if j < d {
            j as i64 + 1
        } else if j < tail {
            d as i64 + 1 - ((j - d) % 2) as i64
        } else {
            d as i64 - (j - tail) as i64 - 1
        }
    };
    let ask = |what: &str, q: &dyn std::fmt::Debug, got: Option<u64>, want: Option<u64>| {
        if got != want {
            fail(what, &format!("{what}({q:?}) on a path of {d} nodes with {w} leaves, blocks of {B}, gives {got:?}, expected {want:?}"));
        }
    };
    let u = |x: Option<usize>| x.map(|v| v as u64);
    ask("Bp.size", &(), Some(t.size() as u64), Some(d + w));
    for _ in 0..ch.range(40, 400) {
        // a node on the path, sometimes near a point where a counter could wrap
        let i = match ch.below(4) {
            0 => ch.below(2000),
            1 => d - 1 - ch.below(2000),
            2 => ((1 << 30) + ch.below(2000)) - 1000,
            _ => ch.below(d),
        };
        let leaf = if w > 0 { Some(d + 2 * ch.below(w)) } else { None };
        let a = i as usize;
        match ch.below(14) {
            0 => ask("Bp.close", &i, u(t.close(a)), Some(len - 1 - i)),
            1 => ask("Bp.open", &(len - 1 - i), u(t.open((len - 1 - i) as usize)), Some(i)),
            2 => ask("Bp.parent", &i, u(t.parent(a)), i.checked_sub(1)),
            3 => ask("Bp.depth", &i, Some(t.depth(a)), Some(i)),
            4 => ask("Bp.subtree_size", &i, u(t.subtree_size(a)), Some(d - i + w)),
            5 => {
                let j = ch.below(len);
                let got = t.excess(j as usize);
                if got != exc(j) {
                    fail("Bp.excess", &format!("excess({j}) on a path of {d} nodes with {w} leaves gives {got}, expected {}", exc(j)));
                }
            }
            6 => {
                let k = if ch.chance(1, 2) { ch.below(i + 2) } else { (i + ch.below(3)).saturating_sub(1) };
                ask("Bp.level_ancestor", &(i, k), u(t.level_ancestor(a, k)), i.checked_sub(k));
            }
            7 => {
                let l = if ch.chance(1, 2) { i } else { d - 3 + ch.below(6) };
                let on = l < d;
                let left = if on { Some(l) } else { (l == d && w > 0).then_some(d) };
                let right = if on { Some(l) } else { (l == d && w > 0).then_some(tail.wrapping_sub(2)) };
                ask("Bp.level_leftmost", &l, u(t.level_leftmost(l)), left);
                ask("Bp.level_rightmost", &l, u(t.level_rightmost(l)), right);
            }
            8 => {
                let b = ch.below(d);
                ask("Bp.is_ancestor", &(i, b), t.is_ancestor(a, b as usize).map(u64::from), Some(u64::from(i <= b)));
            }
            9 => {
                let rel = if ch.chance(1, 2) { ch.below(d - i + 3) as i64 } else { -(ch.below(i + 4) as i64) };
                let x = i as i64 + 1 + rel; // the excess looked for
                let want = if rel > 0 {
                    if x <= d as i64 {
                        Some(x as u64 - 1)
                    } else {
                        (x == d as i64 + 1 && w > 0).then_some(d)
                    }
                } else if rel == 0 && i == d - 1 {
                    (w > 0).then_some(d + 1)
                } else {
                    (x >= 0).then(|| tail + (d - 1 - x as u64))
                };
                ask("Bp.fwd_search", &(i, rel), u(t.fwd_search(a, rel)), want);
            }
            10 => {
                let j = len - 1 - i; // closes node i, i + 1 parentheses are open before it
                let rel = -(1 + ch.below(i + 3) as i64);
                let x = i as i64 + 1 + rel;
                ask("Bp.bwd_search", &(j, rel), u(t.bwd_search(j as usize, rel)), (x >= 0).then_some(x as u64));
            }
            11 => {
                ask("Bp.node_index", &i, Some(t.node_index(a) as u64), Some(i));
                ask("Bp.node_handle", &i, Some(t.node_handle(a) as u64), Some(i));
            }
            12 => {
                ask("Bp.first_child", &i, u(t.first_child(a)), (i + 1 < d || w > 0).then_some(i + 1));
                ask("Bp.next_sibling", &i, u(t.next_sibling(a)), None);
                let lc = if i + 1 < d { Some(i + 1) } else { (w > 0).then(|| tail - 2) };
                ask("Bp.last_child", &i, u(t.last_child(a)), lc);
            }
            _ => {
                if let Some(l) = leaf {
                    let a = l as usize;
                    ask("Bp.parent", &l, u(t.parent(a)), Some(d - 1));
                    ask("Bp.depth", &l, Some(t.depth(a)), Some(d));
                    ask("Bp.close", &l, u(t.close(a)), Some(l + 1));
                    ask("Bp.level_next", &l, u(t.level_next(a)), (l + 2 < tail).then_some(l + 2));
                    ask("Bp.level_prev", &l, u(t.level_prev(a)), (l > d).then(|| l - 2));
                    ask("Bp.level_ancestor", &(l, i + 1), u(t.level_ancestor(a, i + 1)), Some(d - 1 - i));
                    ask("Bp.node_index", &l, Some(t.node_index(a) as u64), Some(d + (l - d) / 2));
                    ask("Bp.is_ancestor", &(i, l), t.is_ancestor(i as usize, a).map(u64::from), Some(1));
                }
            }
        }
    }
    count("queries");
}
