//! Edit histories of mutable bit vectors with a replica kept as a list of booleans.
//! Interruptions (unwinding callbacks, failed allocations) are part of the history.

use crate::alloc;
use crate::ch::Ch;
use crate::data::*;
use crate::objs::*;
use crate::sim::*;
use std::cell::Cell;
use vers_vecs::*;

#[derive(Clone)]
pub struct Rep {
    pub bv: BitVec,
    pub model: Vec<bool>,
    /// the storage behind the logical end is known to be clean (or the length is a whole number of words)
    pub clean: bool,
}

pub struct Faults {
    /// chance in 1000 of interrupting an edit
    pub rate: u64,
}

pub fn bits_of(w: u64, n: usize) -> impl Iterator<Item = bool> {
    (0..n).map(move |i| i < 64 && (w >> i) & 1 == 1)
}

/// iterator that unwinds instead of yielding element `n` (counts down)
pub struct Bomb<I> {
    pub it: I,
    pub fuse: Option<u64>,
    /// what it says about its length: exact, nothing, only an upper bound, or a low lower bound
    pub hint: u8,
}
impl<I: Iterator> Iterator for Bomb<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        match &mut self.fuse {
            Some(0) => {
                self.fuse = None;
                inject("fault.iterator-unwind")
            }
            Some(n) => *n -= 1,
            None => {}
        }
        crate::reent::tick();
        self.it.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let (lo, hi) = self.it.size_hint();
        match self.hint {
            0 => (lo, hi),
            1 => (0, None),
            2 => (0, hi.map(|h| h.saturating_add(7))),
            _ => (lo / 2, None),
        }
    }
}

thread_local! {
    pub static FUSE: Cell<u64> = const { Cell::new(u64::MAX) };
}
pub fn burn() {
    FUSE.with(|f| {
        let v = f.get();
        if v != u64::MAX {
            if v == 0 {
                f.set(u64::MAX);
                inject("fault.closure-unwind");
            }
            f.set(v - 1);
        }
    });
    crate::reent::tick();
}
pub fn m_and(a: u64, b: u64) -> u64 {
    burn();
    a & b
}
pub fn m_or(a: u64, b: u64) -> u64 {
    burn();
    a | b
}
pub fn m_xor(a: u64, b: u64) -> u64 {
    burn();
    a ^ b
}
pub fn m_andnot(a: u64, b: u64) -> u64 {
    burn();
    a & !b
}
pub fn m_nor(a: u64, b: u64) -> u64 {
    burn();
    !(a | b)
}
pub fn m_xnor(a: u64, b: u64) -> u64 {
    burn();
    !(a ^ b)
}
pub fn m_left(a: u64, _b: u64) -> u64 {
    burn();
    a
}
pub fn m_right(_a: u64, b: u64) -> u64 {
    burn();
    b
}
pub fn m_notr(_a: u64, b: u64) -> u64 {
    burn();
    !b
}
pub fn m_ones(_a: u64, _b: u64) -> u64 {
    burn();
    !0
}
pub const MASKS: [(fn(u64, u64) -> u64, &str); 10] = [
    (m_and, "and"),
    (m_or, "or"),
    (m_xor, "xor"),
    (m_andnot, "and-not"),
    (m_nor, "nor"),
    (m_xnor, "xnor"),
    (m_left, "left"),
    (m_right, "right"),
    (m_notr, "not-right"),
    (m_ones, "ones"),
];
pub fn mask_bit(k: usize, a: bool, b: bool) -> bool {
    match k {
        0 => a & b,
        1 => a | b,
        2 => a ^ b,
        3 => a & !b,
        4 => !(a | b),
        5 => !(a ^ b),
        6 => a,
        7 => b,
        8 => !b,
        _ => true,
    }
}

pub fn small_len(ch: &mut Ch) -> usize {
    match ch.weighted(&[160, 320, 240, 160, 80, 1]) {
        0 => ch.usz(4),
        1 => ch.usz(70),
        2 => ((ch.range(1, 4) * 64) as usize + ch.usz(3)).saturating_sub(1),
        3 => ch.usz(700),
        4 => draw_len(ch, 20_000),
        _ => ch.range(60_000, 300_000) as usize,
    }
}

pub fn draw_small_bits(ch: &mut Ch) -> Vec<bool> {
    let n = small_len(ch);
    let d = draw_bits_len(ch, n);
    gen_bits(&d)
}

/// a fresh vector by one of many constructors; `None` if the construction was interrupted on purpose
pub fn fresh(ch: &mut Ch, f: &Faults) -> Option<Rep> {
    let op = ch.usz(24);
    let n = small_len(ch);
    let d = draw_bits_len(ch, n);
    let bits = gen_bits(&d);
    let fault = ch.below(1000) < f.rate;
    let fuse = if fault { Some(ch.below(n as u64 + 1)) } else { None };
    let junk = ch.word();
    let hint = ch.below(4) as u8;
    log(|| format!("new vector by constructor {op}: {d:?}{}", fuse.map(|x| format!(", iterator unwinds at element {x}")).unwrap_or_default()));
    let words = words_of(&bits, 0);
    let words_bits = || words.iter().flat_map(|w| bits_of(*w, 64)).collect::<Vec<bool>>();
    // element width for packed constructors
    let w = match ch.weighted(&[6, 2, 2]) {
        0 => ch.range(1, 64) as usize,
        1 => ch.pick(&[0usize, 1, 8, 16, 32, 64]),
        _ => ch.pick(&[65usize, 7, 9, 17, 33, 100, 128, 130, 200]),
    };
    // a few elements, or enough of them for several blocks of storage
    let ne = match (words.len(), ch.weighted(&[12, 3, 1])) {
        (0, _) => 0,
        (k, 0) => k.min(40),
        (_, 1) => ch.usz(600),
        _ => ch.usz(3000),
    };
    let elems: Vec<u64> = words.iter().cycle().take(ne).enumerate().map(|(i, x)| x.rotate_left((17 + i as u32) & 63) ^ junk).collect();
    let packed = |lim: usize| -> Vec<bool> {
        elems.iter().flat_map(|e| bits_of(if lim == 64 { *e } else { *e & ((1 << lim) - 1) }, w)).collect::<Vec<bool>>()
    };
    let e32: Vec<u32> = elems.iter().map(|x| *x as u32).collect();
    let e16: Vec<u16> = elems.iter().map(|x| *x as u16).collect();
    let e8: Vec<u8> = elems.iter().map(|x| *x as u8).collect();
    // bit sources with junk above the lowest bit
    let b64: Vec<u64> = bits.iter().map(|b| (junk << 1) | u64::from(*b)).collect();
    let b32: Vec<u32> = b64.iter().map(|x| *x as u32).collect();
    let b16: Vec<u16> = b64.iter().map(|x| *x as u16).collect();
    let b8: Vec<u8> = b64.iter().map(|x| *x as u8).collect();
    let mut model = bits.clone();
    phase(&format!("construct.{op}"));
    let r = guard(|| match op {
        0 => BitVec::from_bools(&bits),
        1 => BitVec::from_bool_iter(Bomb { it: bits.iter().copied(), fuse, hint }),
        2 => BitVec::from_bits(&b8),
        3 => BitVec::from_bits_u16(&b16),
        4 => BitVec::from_bits_u32(&b32),
        5 => BitVec::from_bits_u64(&b64),
        6 => BitVec::from_bits_iter(Bomb { it: b8.iter().copied(), fuse, hint }),
        7 => BitVec::from_zeros(n),
        8 => BitVec::from_ones(n),
        9 => BitVec::from_limbs(&words),
        10 => BitVec::from_limbs_iter(Bomb { it: words.iter().copied(), fuse, hint }),
        11 => BitVec::from_vec(words.clone()),
        12 => BitVec::pack_sequence_u64(&elems, w),
        13 => BitVec::pack_sequence_u32(&e32, w),
        14 => BitVec::pack_sequence_u16(&e16, w),
        15 => BitVec::pack_sequence_u8(&e8, w),
        16 => BitVec::pack_from_iter_u64(Bomb { it: elems.iter().copied(), fuse, hint }, w),
        17 => BitVec::pack_from_iter_u32(Bomb { it: e32.iter().copied(), fuse, hint }, w),
        18 => BitVec::pack_from_iter_u16(Bomb { it: e16.iter().copied(), fuse, hint }, w),
        19 => BitVec::pack_from_iter_u8(Bomb { it: e8.iter().copied(), fuse, hint }, w),
        20 => BitVec::from(&words[..]),
        21 => BitVec::from(words.clone()),
        22 => Bomb { it: words.iter().copied(), fuse, hint }.collect::<BitVec>(),
        _ => BitVec::with_capacity(n),
    });
    count("op.construct");
    ev("construct", op as u64);
    match op {
        7 => model = vec![false; n],
        8 => model = vec![true; n],
        9..=11 | 20..=22 => model = words_bits(),
        12 | 16 => model = packed(64),
        13 | 17 => model = packed(32),
        14 | 18 => model = packed(16),
        15 | 19 => model = packed(8),
        23 => model = vec![],
        _ => {}
    }
    match r {
        Ok(bv) => Some(Rep { bv, model, clean: false }),
        Err(Stop::Injected(_)) => None,
        Err(e) => fail("bitvec.construct.panic", &format!("constructor {op} (len {n}, width {w}) panicked: {e:?}")),
    }
}

/// after an interrupted or complete edit: content must be `old[..keep]` followed by a prefix of `data`
fn settle(rep: &mut Rep, old: &[bool], data: &[bool], what: &str) {
    let len = must("bitvec.interrupted", || format!("len after interrupted {what}"), || rep.bv.len());
    if len < old.len() || len > old.len() + data.len() {
        fail("bitvec.interrupted.length", &format!("{what} interrupted: length {len}, before {} supplied {}", old.len(), data.len()));
    }
    rep.model = old.to_vec();
    rep.model.extend_from_slice(&data[..len - old.len()]);
    rep.clean = false;
    verify(rep, &format!("interrupted {what}"));
}

/// every bit through several read paths
pub fn verify(rep: &Rep, what: &str) {
    let (bv, m) = (&rep.bv, &rep.model);
    let bad = must("bitvec.read", || format!("reading after {what}"), || {
        if bv.len() != m.len() {
            return Some(format!("len {} want {}", bv.len(), m.len()));
        }
        if bv.is_empty() != m.is_empty() {
            return Some("is_empty".into());
        }
        for (i, b) in m.iter().enumerate() {
            if bv.get(i) != Some(u64::from(*b)) {
                return Some(format!("bit {i} of {}: {:?} want {b}", m.len(), bv.get(i)));
            }
        }
        if bv.get(m.len()).is_some() || bv.is_bit_set(m.len()).is_some() {
            return Some(format!("read past the end at {}", m.len()));
        }
        let ones = m.iter().filter(|b| **b).count() as u64;
        if bv.count_ones() != ones || bv.count_zeros() != m.len() as u64 - ones {
            return Some(format!("counts {}/{} want {ones}/{}", bv.count_ones(), bv.count_zeros(), m.len() as u64 - ones));
        }
        None
    });
    if let Some(b) = bad {
        fail("bitvec.content", &format!("after {what}: {b}"));
    }
}

/// random read through the whole read API
pub fn probe(ch: &mut Ch, rep: &Rep, what: &str) {
    let model = Model::Bits(BitsModel::new(rep.model.clone()));
    let spec = Spec { kind: Kind::Bits, ctor: 0, data: DataSpec { pat: 0, len: rep.model.len(), seed: 0, p1: 0, p2: 0 }, k: 0 };
    let k = ch.range(1, 30);
    for _ in 0..k {
        let q = draw_query(ch, Kind::Bits, &model);
        let a = match guard(|| exec_bits(&rep.bv, &q)) {
            Ok(a) => a,
            Err(e) => Ans::Panic(format!("{e:?}")),
        };
        if let Some(why) = judge(&model, &q, &a) {
            fail(&class_of(spec.kind, &q, &a), &format!("after {what}: {q:?} on a vector of length {}: {why}", rep.model.len()));
        }
    }
    // iterators as a read path
    let it: Vec<bool> = must("bitvec.iter", || "iterating".into(), || rep.bv.iter().map(|x| x == 1).collect());
    if it != rep.model {
        fail("bitvec.iter.content", &format!("after {what}: iteration differs from the content"));
    }
    count_n("queries", k);
}

/// One edit. `other` is an unrelated vector that some edits use.
pub fn edit(ch: &mut Ch, rep: &mut Rep, other: &Rep, f: &Faults) {
    let old = rep.model.clone();
    let n = old.len();
    let fault = f.rate > 0 && ch.below(1000) < f.rate;
    // allocation failure or unwinding callback
    let alloc_fault = fault && ch.chance(1, 2);
    let op = ch.weighted(&[6, 4, 5, 8, 10, 4, 3, 3, 6, 6, 4, 6, 6, 3, 3, 2, 3, 2]);
    ev("edit", op as u64);
    if alloc_fault && !matches!(op, 10 | 11) {
        // a full buffer, so that the next growth really allocates
        rep.bv = must("bitvec.clone", || "clone".into(), || rep.bv.clone());
    }
    let arm = |on: bool, ch: &mut Ch| {
        if on {
            let k = ch.range(1, 3);
            alloc::arm(k, false);
        }
    };
    macro_rules! appended {
        ($what:expr, $data:expr, $call:expr) => {{
            let data: Vec<bool> = $data;
            let what: String = $what;
            log(|| format!("{what}{}", if alloc_fault { " (allocation may fail)" } else { "" }));
            phase(&what[..what.len().min(40)]);
            arm(alloc_fault, ch);
            let r = guard(|| $call);
            if alloc::disarm() {
                count("fault.alloc-failure");
                nontrivial();
            }
            match r {
                Ok(_) => {
                    rep.model.extend_from_slice(&data);
                    if rep.bv.len() != rep.model.len() {
                        fail("bitvec.append.length", &format!("{what}: length {} want {}", rep.bv.len(), rep.model.len()));
                    }
                }
                Err(Stop::Injected(_)) => settle(rep, &old, &data, &what),
                Err(e) => fail("bitvec.append.panic", &format!("{what} at length {n} panicked: {e:?}")),
            }
        }};
    }
    let clean0 = rep.clean;
    rep.clean = false;
    match op {
        0 => {
            let b = ch.chance(1, 2);
            appended!(format!("append({b}) at {n}"), vec![b], rep.bv.append(b));
            rep.clean = clean0 && !alloc_fault;
        }
        1 => {
            let w = ch.word();
            let k = ch.usz(4);
            let b = w & 1 == 1;
            appended!(format!("append_bit variant {k} ({w:#x}) at {n}"), vec![b], match k {
                0 => rep.bv.append_bit(w),
                1 => rep.bv.append_bit_u32(w as u32),
                2 => rep.bv.append_bit_u16(w as u16),
                _ => rep.bv.append_bit_u8(w as u8),
            });
        }
        2 => {
            let w = ch.word();
            appended!(format!("append_word({w:#x}) at {n}"), bits_of(w, 64).collect(), rep.bv.append_word(w));
            rep.clean = !alloc_fault;
        }
        3 => {
            let w = match ch.weighted(&[4, 1, 1]) {
                0 => ch.word(),
                1 => !0,
                _ => 0,
            };
            let l = match ch.weighted(&[5, 2]) {
                0 => ch.usz(65),
                _ => ch.pick(&[0, 64, 63, 1, 64 - n % 64, (64 - n % 64 + 1).min(64), 65]),
            };
            if l == 65 {
                log(|| "append_bits with 65 bits must be refused".into());
                if guard(|| rep.bv.append_bits(w, l)).is_ok() {
                    fail("bitvec.append_bits.accepts-65", "append_bits accepted 65 bits");
                }
                count("refused-edits");
                verify(rep, "refused append_bits");
            } else {
                appended!(format!("append_bits({w:#x}, {l}) at {n}"), bits_of(w, l).collect(), rep.bv.append_bits(w, l));
            }
        }
        4 => {
            let k = match ch.weighted(&[5, 5, 2, 1]) {
                0 => ch.usz(70),
                1 => ch.usz(n + 1),
                2 => n % 64,
                _ => ch.pick(&[n, n + 1, usize::MAX, n.saturating_sub(1)]),
            };
            log(|| format!("drop_last({k}) at {n}"));
            phase("drop_last");
            must("bitvec.drop_last", || format!("drop_last({k}) at {n}"), || rep.bv.drop_last(k));
            rep.model.truncate(n.saturating_sub(k));
        }
        5 if n > 0 => {
            let p = inside(ch, n as u64) as usize;
            let v = ch.word();
            let un = ch.chance(1, 2);
            log(|| format!("set({p}, {v:#x}) at length {n}"));
            must("bitvec.set", || format!("set({p}) of {n}"), || {
                if un {
                    rep.bv.set_unchecked(p, v)
                } else if rep.bv.set(p, v).is_err() {
                    fail("bitvec.set.refused", &format!("set({p}) refused at length {n}"));
                }
            });
            rep.model[p] = v & 1 == 1;
        }
        6 if n > 0 => {
            let p = inside(ch, n as u64) as usize;
            let un = ch.chance(1, 2);
            log(|| format!("flip({p}) at length {n}"));
            must("bitvec.flip", || format!("flip({p}) of {n}"), || if un { rep.bv.flip_bit_unchecked(p) } else { rep.bv.flip_bit(p) });
            rep.model[p] = !rep.model[p];
        }
        7 => {
            // out of range positions are refused
            let p = match ch.weighted(&[3, 1]) {
                0 => n + ch.usz(70),
                _ => ch.pick(&[usize::MAX, usize::MAX / 2, n + 100_000]),
            };
            log(|| format!("set/flip at {p} of {n} must be refused"));
            let r = must("bitvec.set", || format!("set({p}) of {n}"), || rep.bv.set(p, 1).is_ok());
            let r2 = guard(|| rep.bv.flip_bit(p)).is_ok();
            if r || r2 {
                fail("bitvec.out-of-range-accepted", &format!("set {r} / flip {r2} accepted position {p} of {n}"));
            }
            count("refused-edits");
            verify(rep, "refused set/flip");
        }
        8 => {
            appended!(format!("extend_bitvec by {} at {n}", other.model.len()), other.model.clone(), rep.bv.extend_bitvec(&other.bv));
        }
        9 => {
            let k = ch.usz(5);
            let mut parts = vec![];
            for _ in 0..k {
                let bits: Vec<bool> = draw_small_bits(ch).into_iter().take(300).collect();
                let r = ch.below(BV_ROUTES) as u8;
                parts.push((build_bv(&bits, r), bits));
            }
            let data: Vec<bool> = parts.iter().flat_map(|p| p.1.clone()).collect();
            let fuse = if fault && !alloc_fault { Some(ch.below(k as u64 + 1)) } else { None };
            let byref = ch.chance(1, 2);
            let hint = ch.below(4) as u8;
            let bvs: Vec<BitVec> = parts.into_iter().map(|p| p.0).collect();
            appended!(format!("extend by {k} vectors at {n}, unwinding at {fuse:?}"), data, if byref {
                rep.bv.extend(Bomb { it: bvs.iter(), fuse, hint })
            } else {
                rep.bv.extend(Bomb { it: bvs.clone().into_iter(), fuse, hint })
            });
        }
        10 => {
            // split and keep a half, or put the halves together again
            let at = match ch.weighted(&[5, 2, 1]) {
                0 => ch.usz(n + 1),
                1 => (n / 64 * 64).min(n),
                _ => n + 1 + ch.usz(100),
            };
            let un = at <= n && ch.chance(1, 3);
            let keep = ch.usz(3);
            log(|| format!("split_at({at}) of {n}, keep {keep}"));
            phase("split");
            let bv = std::mem::take(&mut rep.bv);
            let backup = bv.clone();
            arm(alloc_fault, ch);
            let r = guard(|| if un { Ok(bv.split_at_unchecked(at)) } else { bv.split_at(at) });
            if alloc::disarm() {
                count("fault.alloc-failure");
                nontrivial();
            }
            match r {
                Ok(Ok((mut l, r))) => {
                    if at > n {
                        fail("bitvec.split.accepted", &format!("split_at({at}) of {n} accepted"));
                    }
                    verify(&Rep { bv: l.clone(), model: old[..at].to_vec(), clean: false }, "split (left half)");
                    verify(&Rep { bv: r.clone(), model: old[at..].to_vec(), clean: false }, "split (right half)");
                    match keep {
                        0 => {
                            rep.bv = l;
                            rep.model.truncate(at);
                        }
                        1 => {
                            rep.bv = r;
                            rep.model.drain(..at);
                        }
                        _ => {
                            must("bitvec.extend", || "rejoining halves".into(), || l.extend_bitvec(&r));
                            rep.bv = l;
                        }
                    }
                }
                Ok(Err(b)) => {
                    if at <= n {
                        fail("bitvec.split.refused", &format!("split_at({at}) of {n} refused"));
                    }
                    rep.bv = b;
                    count("refused-edits");
                    verify(rep, "refused split");
                }
                Err(Stop::Injected(_)) => rep.bv = backup,
                Err(e) => fail("bitvec.split.panic", &format!("split_at({at}) of {n} panicked: {e:?}")),
            }
        }
        11 => {
            // in-place mask, possibly interrupted; sometimes with the wrong length
            let k = ch.usz(MASKS.len());
            let wrong = ch.chance(1, 6);
            let mb: Vec<bool> = if wrong {
                let l = if ch.chance(1, 2) { n + 1 + ch.usz(64) } else { n.saturating_sub(1 + ch.usz(64)) };
                (0..l).map(|i| i % 3 == 0).collect()
            } else {
                let d = draw_bits_len(ch, n);
                gen_bits(&d)
            };
            let route = ch.below(BV_ROUTES) as u8;
            let mask = build_bv(&mb, route);
            let custom = ch.chance(1, 2) || k > 2;
            let fuse = if fault && custom { ch.below(n as u64 / 64 + 2) } else { u64::MAX };
            log(|| format!("apply mask {} to {n} bits, mask of {} bits, unwinding after {fuse} words", MASKS[k].1, mb.len()));
            phase("apply_mask");
            FUSE.with(|x| x.set(fuse));
            let r = guard(|| {
                if custom {
                    rep.bv.apply_mask_custom(&mask, MASKS[k].0)
                } else {
                    match k {
                        0 => rep.bv.apply_mask_and(&mask),
                        1 => rep.bv.apply_mask_or(&mask),
                        _ => rep.bv.apply_mask_xor(&mask),
                    }
                }
            });
            FUSE.with(|x| x.set(u64::MAX));
            match r {
                Ok(Ok(())) => {
                    if mb.len() != n {
                        fail("bitvec.mask.accepted", &format!("mask of length {} accepted for {n}", mb.len()));
                    }
                    rep.model = old.iter().zip(&mb).map(|(a, b)| mask_bit(k, *a, *b)).collect();
                }
                Ok(Err(_)) => {
                    if mb.len() == n {
                        fail("bitvec.mask.refused", "mask of the right length refused");
                    }
                    count("refused-edits");
                    verify(rep, "refused mask");
                }
                Err(Stop::Injected(_)) => {
                    // every bit is old or masked
                    let got: Vec<bool> = must("bitvec.interrupted", || "reading after an interrupted mask".into(), || {
                        (0..rep.bv.len()).map(|i| rep.bv.get(i) == Some(1)).collect()
                    });
                    let ok = got.len() == n
                        && (0..n).all(|i| got[i] == old[i] || got[i] == mask_bit(k, old[i], mb[i]));
                    if !ok {
                        fail("bitvec.interrupted.mask", &format!("interrupted mask {} left bits that are neither old nor masked", MASKS[k].1));
                    }
                    rep.model = got;
                    verify(rep, "interrupted mask");
                }
                Err(e) => fail("bitvec.mask.panic", &format!("mask {} on {n} bits panicked: {e:?}", MASKS[k].1)),
            }
        }
        12 => {
            // append_bits_unchecked is only specified on clean storage
            if n % 64 == 0 || clean0 {
                let l = ch.usz(64) + 1;
                let w = ch.word() & (!0 >> (64 - l));
                appended!(format!("append_bits_unchecked({w:#x}, {l}) at {n}"), bits_of(w, l).collect(), rep.bv.append_bits_unchecked(w, l));
                rep.clean = !alloc_fault;
            }
        }
        13 if ch.chance(1, 2) => {
            log(|| format!("clone_from a vector of {} bits{}", other.model.len(), if alloc_fault { " (allocation may fail)" } else { "" }));
            phase("clone_from");
            arm(alloc_fault, ch);
            let r = guard(|| rep.bv.clone_from(&other.bv));
            if alloc::disarm() {
                count("fault.alloc-failure");
                nontrivial();
            }
            match r {
                Ok(()) => rep.model = other.model.clone(),
                Err(Stop::Injected(_)) => verify(rep, "interrupted clone_from"),
                Err(e) => fail("bitvec.clone_from.panic", &format!("clone_from at {n} panicked: {e:?}")),
            }
        }
        13 => {
            log(|| "replace by clone".into());
            rep.bv = must("bitvec.clone", || "clone".into(), || rep.bv.clone());
        }
        14 => {
            // transfer through a rank/select vector
            log(|| format!("through RsVec and back at {n}"));
            phase("via-rsvec");
            let b = std::mem::take(&mut rep.bv);
            rep.bv = must("bitvec.via-rsvec", || format!("conversion to RsVec and back at {n}"), || {
                let rs = RsVec::from_bit_vec(b);
                BitVec::from(rs)
            });
        }
        15 => {
            // transfer through a snapshot
            log(|| format!("through a snapshot at {n}"));
            phase("via-snapshot");
            let r = must("bitvec.via-snapshot", || "snapshot".into(), || {
                bincode::serialize(&rep.bv).ok().and_then(|v| bincode::deserialize::<BitVec>(&v).ok())
            });
            match r {
                Some(b) => rep.bv = b,
                None => fail("bitvec.snapshot", "a bit vector could not be snapshotted and restored"),
            }
        }
        16 => {
            // transfer limb by limb, then cut
            log(|| format!("rebuild from limbs at {n}"));
            phase("via-limbs");
            rep.bv = must("bitvec.via-limbs", || "rebuild from limbs".into(), || {
                let mut b = BitVec::from_limbs_iter(rep.bv.iter_limbs());
                let l = b.len();
                if l < n {
                    fail("bitvec.limbs", &format!("limbs hold only {l} of {n} bits"));
                }
                b.drop_last(l - n);
                b
            });
        }
        _ => {
            // materialised view
            log(|| format!("materialised xor view at {n}"));
            phase("via-mask");
            let d = draw_bits_len(ch, n);
            let mb = gen_bits(&d);
            let mask = build_bv(&mb, 3);
            let r = must("bitvec.via-mask", || "materialising".into(), || rep.bv.mask_xor(&mask).map(|v| v.to_bit_vec()));
            match r {
                Ok(b) => rep.bv = b,
                Err(_) => fail("bitvec.mask.refused", "mask of the right length refused"),
            }
            rep.model = old.iter().zip(&mb).map(|(a, b)| a ^ b).collect();
        }
    }
}

pub fn exec_bits(v: &BitVec, qu: &Query) -> Ans {
    exec_bitvec(v, qu)
}
