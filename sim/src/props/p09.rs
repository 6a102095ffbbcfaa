//! P09: iterators under arbitrary consumption schedules.

use super::shared_struct::{draw_scale, make_slot_of, Force, Slot};
use crate::ch::Ch;
use crate::objs::*;
use crate::sched;
use crate::sim::*;
use vers_vecs::*;

/// what an iterator can do beyond `Iterator`
trait DynIter<'a> {
    fn next(&mut self) -> Option<u128>;
    fn nth(&mut self, n: usize) -> Option<u128>;
    fn hint(&self) -> (usize, Option<usize>);
    fn next_back(&mut self) -> Option<u128>;
    fn nth_back(&mut self, n: usize) -> Option<u128>;
    fn len(&self) -> usize;
    fn copy(&self) -> Box<dyn DynIter<'a> + 'a>;
    /// full: double ended, exact size, cloneable
    fn full(&self) -> bool;
    fn count(self: Box<Self>) -> usize;
    fn last(self: Box<Self>) -> Option<u128>;
    fn min(self: Box<Self>) -> Option<u128>;
    fn max(self: Box<Self>) -> Option<u128>;
    /// consume the rest in one of several ways
    fn rest(self: Box<Self>, how: usize, k: usize) -> Vec<u128>;
}

trait Item: Sized {
    fn code(self) -> u128;
    fn min_of(i: impl Iterator<Item = Self>) -> Option<u128> {
        i.map(Item::code).min()
    }
    fn max_of(i: impl Iterator<Item = Self>) -> Option<u128> {
        i.map(Item::code).max()
    }
}
impl Item for u64 {
    fn code(self) -> u128 {
        u128::from(self)
    }
    fn min_of(i: impl Iterator<Item = Self>) -> Option<u128> {
        i.min().map(Item::code)
    }
    fn max_of(i: impl Iterator<Item = Self>) -> Option<u128> {
        i.max().map(Item::code)
    }
}
impl Item for usize {
    fn code(self) -> u128 {
        self as u128
    }
    fn min_of(i: impl Iterator<Item = Self>) -> Option<u128> {
        i.min().map(Item::code)
    }
    fn max_of(i: impl Iterator<Item = Self>) -> Option<u128> {
        i.max().map(Item::code)
    }
}
impl Item for BitVec {
    fn code(self) -> u128 {
        let mut x = 0u128;
        for i in 0..self.len().min(128) {
            x |= u128::from(self.get_unchecked(i)) << i;
        }
        x
    }
}

struct Full<I>(I, bool);
impl<'a, I> DynIter<'a> for Full<I>
where
    I: DoubleEndedIterator + ExactSizeIterator + Clone + 'a,
    I::Item: Item,
{
    fn next(&mut self) -> Option<u128> {
        self.0.next().map(Item::code)
    }
    fn nth(&mut self, n: usize) -> Option<u128> {
        self.0.nth(n).map(Item::code)
    }
    fn hint(&self) -> (usize, Option<usize>) {
        self.0.size_hint()
    }
    fn next_back(&mut self) -> Option<u128> {
        self.0.next_back().map(Item::code)
    }
    fn nth_back(&mut self, n: usize) -> Option<u128> {
        self.0.nth_back(n).map(Item::code)
    }
    fn len(&self) -> usize {
        self.0.len()
    }
    fn copy(&self) -> Box<dyn DynIter<'a> + 'a> {
        Box::new(Full(self.0.clone(), self.1))
    }
    fn full(&self) -> bool {
        true
    }
    fn count(self: Box<Self>) -> usize {
        self.0.count()
    }
    fn last(self: Box<Self>) -> Option<u128> {
        self.0.last().map(Item::code)
    }
    fn min(self: Box<Self>) -> Option<u128> {
        Item::min_of(self.0)
    }
    fn max(self: Box<Self>) -> Option<u128> {
        Item::max_of(self.0)
    }
    fn rest(self: Box<Self>, how: usize, k: usize) -> Vec<u128> {
        match how {
            0 => self.0.map(Item::code).collect(),
            1 => self.0.rev().map(Item::code).collect(),
            2 => self.0.step_by(k + 1).map(Item::code).collect(),
            3 => self.0.skip(k).map(Item::code).collect(),
            4 => self.0.take(k).map(Item::code).collect(),
            5 => self.0.rev().step_by(k + 1).map(Item::code).collect(),
            6 => self.0.rev().skip(k).map(Item::code).collect(),
            7 => {
                // alternate the ends
                let mut it = self.0;
                let mut v = vec![];
                loop {
                    let a = it.next();
                    let b = it.next_back();
                    if a.is_none() && b.is_none() {
                        return v;
                    }
                    v.extend(a.map(Item::code));
                    v.extend(b.map(Item::code));
                }
            }
            8 => {
                let mut v = vec![];
                self.0.rev().for_each(|x| v.push(x.code()));
                v
            }
            9 => {
                // short-circuiting passes from both ends, then the rest
                let mut it = self.0;
                let mut v = vec![];
                let mut c = 0;
                it.all(|x| {
                    v.push(x.code());
                    c += 1;
                    c <= k
                });
                let mut tail = vec![];
                c = 0;
                let _ = it.rfind(|_| {
                    c += 1;
                    c > k
                });
                it.for_each(|x| tail.push(x.code()));
                v.extend(tail);
                v
            }
            10 => {
                let mut it = self.0;
                let mut v: Vec<u128> = it.by_ref().take(k).map(Item::code).collect();
                let mut w: Vec<u128> = it.by_ref().rev().take(k).map(Item::code).collect();
                v.append(&mut w);
                v.extend(it.map(Item::code));
                v
            }
            11 => {
                let mut it = self.0.peekable();
                let mut v = vec![];
                while it.peek().is_some() {
                    v.extend(it.next().map(Item::code));
                    v.extend(it.next_back().map(Item::code));
                }
                v
            }
            _ => {
                let mut v = vec![];
                self.0.for_each(|x| v.push(x.code()));
                v
            }
        }
    }
}

/// Elias-Fano iterators specialise min and max
struct EfFull<I>(I);
impl<'a, I> DynIter<'a> for EfFull<I>
where
    I: DoubleEndedIterator<Item = u64> + ExactSizeIterator + Clone + 'a,
{
    fn next(&mut self) -> Option<u128> {
        self.0.next().map(Item::code)
    }
    fn nth(&mut self, n: usize) -> Option<u128> {
        self.0.nth(n).map(Item::code)
    }
    fn hint(&self) -> (usize, Option<usize>) {
        self.0.size_hint()
    }
    fn next_back(&mut self) -> Option<u128> {
        self.0.next_back().map(Item::code)
    }
    fn nth_back(&mut self, n: usize) -> Option<u128> {
        self.0.nth_back(n).map(Item::code)
    }
    fn len(&self) -> usize {
        self.0.len()
    }
    fn copy(&self) -> Box<dyn DynIter<'a> + 'a> {
        Box::new(EfFull(self.0.clone()))
    }
    fn full(&self) -> bool {
        true
    }
    fn count(self: Box<Self>) -> usize {
        self.0.count()
    }
    fn last(self: Box<Self>) -> Option<u128> {
        self.0.last().map(Item::code)
    }
    fn min(self: Box<Self>) -> Option<u128> {
        self.0.min().map(Item::code)
    }
    fn max(self: Box<Self>) -> Option<u128> {
        self.0.max().map(Item::code)
    }
    fn rest(self: Box<Self>, how: usize, k: usize) -> Vec<u128> {
        Box::new(Full(self.0, true)).rest(how, k)
    }
}

struct Simple<I>(I);
impl<'a, I> DynIter<'a> for Simple<I>
where
    I: Iterator + 'a,
    I::Item: Item,
{
    fn next(&mut self) -> Option<u128> {
        self.0.next().map(Item::code)
    }
    fn nth(&mut self, n: usize) -> Option<u128> {
        self.0.nth(n).map(Item::code)
    }
    fn hint(&self) -> (usize, Option<usize>) {
        self.0.size_hint()
    }
    fn next_back(&mut self) -> Option<u128> {
        unreachable!()
    }
    fn nth_back(&mut self, _: usize) -> Option<u128> {
        unreachable!()
    }
    fn len(&self) -> usize {
        unreachable!()
    }
    fn copy(&self) -> Box<dyn DynIter<'a> + 'a> {
        unreachable!()
    }
    fn full(&self) -> bool {
        false
    }
    fn count(self: Box<Self>) -> usize {
        self.0.count()
    }
    fn last(self: Box<Self>) -> Option<u128> {
        self.0.last().map(Item::code)
    }
    fn min(self: Box<Self>) -> Option<u128> {
        Item::min_of(self.0)
    }
    fn max(self: Box<Self>) -> Option<u128> {
        Item::max_of(self.0)
    }
    fn rest(self: Box<Self>, how: usize, k: usize) -> Vec<u128> {
        match how {
            2 => self.0.step_by(k + 1).map(Item::code).collect(),
            3 => self.0.skip(k).map(Item::code).collect(),
            4 => self.0.take(k).map(Item::code).collect(),
            _ => {
                let mut v = vec![];
                self.0.for_each(|x| v.push(x.code()));
                v
            }
        }
    }
}

const VECTORISED: bool = cfg!(all(
    feature = "full",
    target_arch = "x86_64",
    target_feature = "avx",
    target_feature = "avx2",
    target_feature = "avx512f",
    target_feature = "avx512bw"
));

struct It<'a> {
    it: Option<Box<dyn DynIter<'a> + 'a>>,
    name: &'static str,
    slot: usize,
    want: std::rc::Rc<Vec<u128>>,
    lo: usize,
    hi: usize,
}

type Made<'a> = (Box<dyn DynIter<'a> + 'a>, &'static str, Vec<u128>);

/// one of the iterators of a structure, with what it has to yield
fn make<'a>(ch: &mut Ch, sl: &'a Slot) -> Made<'a> {
    fn f<'a, I>(i: I) -> Box<dyn DynIter<'a> + 'a>
    where
        I: DoubleEndedIterator + ExactSizeIterator + Clone + 'a,
        I::Item: Item,
    {
        Box::new(Full(i, true))
    }
    fn sm<'a, I>(i: I) -> Box<dyn DynIter<'a> + 'a>
    where
        I: Iterator + 'a,
        I::Item: Item,
    {
        Box::new(Simple(i))
    }
    phase("make-iterator");
    match (&*sl.obj, &sl.model) {
        (Obj::Bits(v), Model::Bits(m)) => {
            let w: Vec<u128> = m.bits.iter().map(|b| u128::from(*b)).collect();
            match ch.usz(3) {
                0 => (f(v.iter()), "BitVec::iter", w),
                1 => (f(v.clone().into_iter()), "BitVec::into_iter", w),
                _ => (f(v.into_iter()), "&BitVec::into_iter", w),
            }
        }
        (Obj::Rs(v), Model::Bits(m)) => {
            let bits = || m.bits.iter().map(|b| u128::from(*b)).collect::<Vec<u128>>();
            let ones = || m.ones.iter().map(|x| u128::from(*x)).collect::<Vec<u128>>();
            let zeros = || m.zeros.iter().map(|x| u128::from(*x)).collect::<Vec<u128>>();
            match ch.weighted(&[2, 2, 6, 6, 4, 4, 2, 2, if VECTORISED { 5 } else { 0 }, if VECTORISED { 5 } else { 0 }]) {
                0 => (f(v.iter()), "RsVec::iter", bits()),
                1 => (f(v.clone().into_iter()), "RsVec::into_iter", bits()),
                2 => (f(v.iter0()), "RsVec::iter0", zeros()),
                3 => (f(v.iter1()), "RsVec::iter1", ones()),
                4 => (f(v.clone().into_iter0()), "RsVec::into_iter0", zeros()),
                5 => (f(v.clone().into_iter1()), "RsVec::into_iter1", ones()),
                6 => (f(v.select_iter::<true>()), "RsVec::select_iter<true>", zeros()),
                7 => (f(v.clone().into_select_iter::<false>()), "RsVec::into_select_iter<false>", ones()),
                #[cfg(all(
                    feature = "full",
                    target_arch = "x86_64",
                    target_feature = "avx",
                    target_feature = "avx2",
                    target_feature = "avx512f",
                    target_feature = "avx512bw"
                ))]
                8 => (sm(v.bit_set_iter0()), "RsVec::bit_set_iter0", zeros()),
                #[cfg(all(
                    feature = "full",
                    target_arch = "x86_64",
                    target_feature = "avx",
                    target_feature = "avx2",
                    target_feature = "avx512f",
                    target_feature = "avx512bw"
                ))]
                _ => (sm(v.bit_set_iter1()), "RsVec::bit_set_iter1", ones()),
                #[cfg(not(all(
                    feature = "full",
                    target_arch = "x86_64",
                    target_feature = "avx",
                    target_feature = "avx2",
                    target_feature = "avx512f",
                    target_feature = "avx512bw"
                )))]
                _ => unreachable!(),
            }
        }
        (Obj::Sparse(v), Model::Bits(m)) => {
            (sm(v.iter1()), "SparseRSVec::iter1", m.ones.iter().map(|x| u128::from(*x)).collect())
        }
        (Obj::Sparse(v), Model::Pos { ones, .. }) => (sm(v.iter1()), "SparseRSVec::iter1", ones.iter().map(|x| u128::from(*x)).collect()),
        (Obj::Ef(v), Model::Mono(m)) => {
            let w: Vec<u128> = m.iter().map(|x| u128::from(*x)).collect();
            match ch.usz(3) {
                0 => (Box::new(EfFull(v.iter())), "EliasFanoVec::iter", w),
                1 => (Box::new(EfFull(v.clone().into_iter())), "EliasFanoVec::into_iter", w),
                _ => (Box::new(EfFull(v.into_iter())), "&EliasFanoVec::into_iter", w),
            }
        }
        (Obj::Wm(v), Model::Wm { v: m, k, sorted }) => {
            let bad = |n: &str| -> ! { fail("iter.refused", &format!("{n} refused at width {k}")) };
            if *k > 64 {
                let offered = must(
                    "iter.wide",
                    || "asking for number iterators of wide symbols".into(),
                    || [v.iter_u64().is_some(), v.clone().into_iter_u64().is_some(), v.iter_sorted_u64().is_some(), v.clone().into_iter_sorted_u64().is_some()],
                );
                if offered != [false; 4] {
                    fail("iter.wide.offered", &format!("iterators over numbers {offered:?} are offered for symbols of {k} bits, which no number can hold"));
                }
            }
            match ch.usz(if *k > 64 { 4 } else { 8 }) {
                0 => (f(v.iter()), "WaveletMatrix::iter", m.clone()),
                1 => (f(v.clone().into_iter()), "WaveletMatrix::into_iter", m.clone()),
                2 => (f(v.iter_sorted()), "WaveletMatrix::iter_sorted", sorted.clone()),
                3 => (f(v.clone().into_iter_sorted()), "WaveletMatrix::into_iter_sorted", sorted.clone()),
                4 => match v.iter_u64() {
                    Some(i) => (f(i), "WaveletMatrix::iter_u64", m.clone()),
                    None => bad("iter_u64"),
                },
                5 => match v.clone().into_iter_u64() {
                    Some(i) => (f(i), "WaveletMatrix::into_iter_u64", m.clone()),
                    None => bad("into_iter_u64"),
                },
                6 => match v.iter_sorted_u64() {
                    Some(i) => (f(i), "WaveletMatrix::iter_sorted_u64", sorted.clone()),
                    None => bad("iter_sorted_u64"),
                },
                _ => match v.clone().into_iter_sorted_u64() {
                    Some(i) => (f(i), "WaveletMatrix::into_iter_sorted_u64", sorted.clone()),
                    None => bad("into_iter_sorted_u64"),
                },
            }
        }
        (Obj::Bp(t), Model::Bp(m)) => {
            let nodes: Vec<u128> = m.nodes.iter().map(|x| u128::from(*x)).collect();
            let any = m.balanced && !nodes.is_empty();
            let node = if any { m.nodes[ch.usz(m.nodes.len())] as usize } else { 0 };
            let sub = |op: Op| -> Vec<u128> {
                match expect(&sl.model, &Query { op, a: node as u64, b: 0, c: 0, w: 0, wl: 0 }) {
                    Expect::Is(Ans::L(v)) => v.into_iter().map(u128::from).collect(),
                    _ => unreachable!(),
                }
            };
            match ch.weighted(&[2, 2, 3, if m.balanced { 3 } else { 0 }, if any { 3 } else { 0 }, if any { 3 } else { 0 }, if any { 3 } else { 0 }, if any { 3 } else { 0 }]) {
                0 => (with_bp!(t, t => sm(t.iter())), "BpTree::iter", nodes),
                1 => (with_bp!(t, t => sm(t.dfs_iter())), "BpTree::dfs_iter", nodes),
                2 => (with_bp!(t.clone(), t => f(t.into_iter())), "BpTree::into_iter", nodes),
                3 => (with_bp!(t, t => sm(t.dfs_post_iter())), "BpTree::dfs_post_iter", sub(Op::DfsPost)),
                4 => (with_bp!(t, t => sm(t.subtree_iter(node))), "BpTree::subtree_iter", sub(Op::SubIter)),
                5 => (with_bp!(t, t => sm(t.subtree_post_iter(node))), "BpTree::subtree_post_iter", sub(Op::SubPost)),
                6 => (with_bp!(t, t => sm(t.children(node))), "BpTree::children", sub(Op::Children)),
                _ => (with_bp!(t, t => sm(t.rev_children(node))), "BpTree::rev_children", sub(Op::RevChildren)),
            }
        }
        _ => unreachable!(),
    }
}

fn start<'a>(ch: &mut Ch, slots: &'a [Slot]) -> It<'a> {
    let i = ch.usz(slots.len());
    let r = guard(|| make(ch, &slots[i]));
    match r {
        Ok((it, name, want)) => {
            log(|| format!("open {name} over structure {i} with {} elements", want.len()));
            count(name);
            let hi = want.len();
            It { it: Some(it), name, slot: i, want: std::rc::Rc::new(want), lo: 0, hi }
        }
        Err(e) => fail("iter.open.panic", &format!("opening an iterator over {:?} panicked: {e:?}", slots[i].spec)),
    }
}

fn wrong(it: &It, slots: &[Slot], op: &str, got: &str, want: &str) -> ! {
    fail(
        &format!("iter.{}.{}", it.name, op.split('(').next().unwrap_or(op)),
        &format!("{} over {:?}: {op} gave {got}, want {want} (elements {}..{} of {} left)", it.name, slots[it.slot].spec, it.lo, it.hi, it.want.len()),
    )
}

#[derive(Clone, Copy, Debug)]
enum Call {
    Next,
    Nth(usize),
    Back,
    NthBack(usize),
    Len,
    Hint,
}

fn draw_call(ch: &mut Ch, full: bool, left: usize) -> Call {
    let far = |ch: &mut Ch| match ch.weighted(&[4, 4, 2, 2, 1]) {
        0 => ch.usz(4),
        1 => ch.usz(left + 2),
        2 => ch.usz(600),
        3 => (left + ch.usz(4)).saturating_sub(2),
        _ => ch.pick(&[usize::MAX, usize::MAX - 1, usize::MAX / 2, left + 1000]),
    };
    match ch.weighted(&[8, 6, if full { 8 } else { 0 }, if full { 6 } else { 0 }, if full { 2 } else { 0 }, 1]) {
        0 => Call::Next,
        1 => Call::Nth(far(ch)),
        2 => Call::Back,
        3 => Call::NthBack(far(ch)),
        4 => Call::Len,
        _ => Call::Hint,
    }
}

#[derive(Debug, PartialEq, Clone)]
enum Got {
    El(Option<u128>),
    Len(usize),
    Hint(usize, Option<usize>),
    Panic(String),
}

fn apply(it: &mut Box<dyn DynIter<'_> + '_>, c: Call) -> Got {
    let r = guard(|| match c {
        Call::Next => Got::El(it.next()),
        Call::Nth(n) => Got::El(it.nth(n)),
        Call::Back => Got::El(it.next_back()),
        Call::NthBack(n) => Got::El(it.nth_back(n)),
        Call::Len => Got::Len(it.len()),
        Call::Hint => {
            let (a, b) = it.hint();
            Got::Hint(a, b)
        }
    });
    r.unwrap_or_else(|e| Got::Panic(format!("{e:?}")))
}

/// reference: remaining elements are want[lo..hi]
fn judge_call(it: &mut It, slots: &[Slot], c: Call, g: &Got) {
    let left = it.hi - it.lo;
    let want = match c {
        Call::Next | Call::Nth(_) => {
            let k = if let Call::Nth(k) = c { k } else { 0 };
            if k < left {
                let e = it.want[it.lo + k];
                it.lo += k + 1;
                Some(e)
            } else {
                it.lo = it.hi;
                None
            }
        }
        Call::Back | Call::NthBack(_) => {
            let k = if let Call::NthBack(k) = c { k } else { 0 };
            if k < left {
                let e = it.want[it.hi - 1 - k];
                it.hi -= k + 1;
                Some(e)
            } else {
                it.hi = it.lo;
                None
            }
        }
        Call::Len => {
            if *g != Got::Len(left) {
                wrong(it, slots, "len", &format!("{g:?}"), &format!("{left}"));
            }
            return;
        }
        Call::Hint => {
            let full = it.it.as_ref().is_some_and(|i| i.full());
            let ok = match g {
                Got::Hint(a, b) => {
                    if full {
                        *a == left && *b == Some(left)
                    } else {
                        *a <= left && b.is_none_or(|b| b >= left)
                    }
                }
                _ => false,
            };
            if !ok {
                wrong(it, slots, "size_hint", &format!("{g:?}"), &format!("{left}"));
            }
            return;
        }
    };
    if *g != Got::El(want) {
        wrong(it, slots, &format!("{c:?}"), &format!("{g:?}"), &format!("{want:?}"));
    }
}

fn finish(ch: &mut Ch, it: &mut It, slots: &[Slot]) {
    let Some(b) = it.it.take() else { return };
    let w = it.want[it.lo..it.hi].to_vec();
    let full = b.full();
    let k = match ch.weighted(&[3, 1]) {
        0 => ch.usz(5),
        _ => ch.usz(w.len() + 3),
    };
    let op = ch.weighted(&[4, 3, 3, 2, 2, 1]);
    let how = ch.usz(13);
    log(|| format!("finish {} by {op}/{how}/{k} with {} left", it.name, w.len()));
    phase("iterator-finish");
    let (name, got, want): (&str, String, String) = match op {
        0 => {
            let want: Vec<u128> = match (how, full) {
                (1, true) => w.iter().rev().copied().collect(),
                (2, _) => w.iter().step_by(k + 1).copied().collect(),
                (3, _) => w.iter().skip(k).copied().collect(),
                (4, _) => w.iter().take(k).copied().collect(),
                (5, true) => w.iter().rev().step_by(k + 1).copied().collect(),
                (6, true) => w.iter().rev().skip(k).copied().collect(),
                (8, true) => w.iter().rev().copied().collect(),
                (9, true) => {
                    // `all` stops after k + 1 elements, `rfind` removes k + 1 from the back
                    let a = (k + 1).min(w.len());
                    let mut v = w[..a].to_vec();
                    let e = w.len().saturating_sub(k + 1).max(a);
                    v.extend_from_slice(&w[a..e]);
                    v
                }
                (10, true) => {
                    let a = k.min(w.len());
                    let e = w.len().saturating_sub(k).max(a);
                    let mut v = w[..a].to_vec();
                    v.extend(w[e..].iter().rev());
                    v.extend_from_slice(&w[a..e]);
                    v
                }
                (7 | 11, true) => {
                    let mut d: std::collections::VecDeque<u128> = w.iter().copied().collect();
                    let mut v = vec![];
                    while let Some(x) = d.pop_front() {
                        v.push(x);
                        v.extend(d.pop_back());
                    }
                    v
                }
                _ => w,
            };
            let g = guard(|| b.rest(how, k));
            match g {
                Ok(g) if g == want => return,
                Ok(g) => {
                    let p = g.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(g.len().min(want.len()));
                    ("collect", format!("{} elements, first difference at {p}: {:?}", g.len(), g.get(p)), format!("{} elements, {:?}", want.len(), want.get(p)))
                }
                Err(e) => ("collect", format!("{e:?}"), format!("{} elements", want.len())),
            }
        }
        1 => ("count", format!("{:?}", guard(|| b.count())), format!("Ok({})", w.len())),
        2 => ("last", format!("{:?}", guard(|| b.last())), format!("Ok({:?})", w.last())),
        3 => ("min", format!("{:?}", guard(|| b.min())), format!("Ok({:?})", w.iter().min())),
        4 => ("max", format!("{:?}", guard(|| b.max())), format!("Ok({:?})", w.iter().max())),
        _ => {
            drop(b); // abandoned
            count("abandoned");
            return;
        }
    };
    if got != want {
        wrong(it, slots, name, &got, &want);
    }
}

fn threads(ch: &mut Ch, slots: &[Slot]) {
    // several iterators advanced by preempted threads
    phase("iterator-threads");
    let nt = ch.range(2, 4) as usize;
    let mut its: Vec<It> = (0..nt).map(|_| start(ch, slots)).collect();
    let scripts: Vec<Vec<Call>> = its
        .iter()
        .map(|it| {
            let full = it.it.as_ref().unwrap().full();
            (0..ch.range(1, 8)).map(|_| draw_call(ch, full, it.want.len())).collect()
        })
        .collect();
    log(|| format!("threads: {scripts:?}"));
    let cap = ch.range(1000, 6000);
    let mut got: Vec<Vec<Got>> = scripts.iter().map(|_| vec![]).collect();
    {
        let mut bodies: Vec<Box<dyn FnOnce() + Send + '_>> = vec![];
        for ((it, sc), g) in its.iter_mut().zip(&scripts).zip(got.iter_mut()) {
            let f = Force((it.it.as_mut().unwrap(), sc, g));
            bodies.push(Box::new(move || {
                let (it, sc, g) = f.get();
                for c in sc {
                    let r = sched::stepped(|| apply(it, *c));
                    g.push(r);
                    sched::point();
                }
            }));
        }
        let o = sched::run(ch, cap, bodies);
        ev("iter-threads", o.switches);
        if o.preemptions > 0 {
            nontrivial();
        }
        count("concurrent-phases");
    }
    for ((it, sc), g) in its.iter_mut().zip(&scripts).zip(&got) {
        for (c, g) in sc.iter().zip(g) {
            judge_call(it, slots, *c, g);
        }
    }
    for it in &mut its {
        finish(ch, it, slots);
    }
}

pub fn run(s: &mut Sim) {
    let ch = &mut s.ch;
    if ch.rare(4000) {
        return crate::colossal::p09(ch);
    }
    let n = ch.range(1, 2) as usize;
    let mut slots = vec![];
    for _ in 0..n {
        let kind = ch.pick(&[Kind::Rs, Kind::Bits, Kind::Ef, Kind::Rs, Kind::Sparse, Kind::Wm, Kind::Bp, Kind::Wide]);
        let sc = draw_scale(ch).min(if kind == Kind::Wm { 20_000 } else { 140_000 });
        let spec = draw_any(ch, kind, sc, 100, 5);
        slots.push(make_slot_of(spec));
    }
    let slots = slots;
    if ch.chance(1, 6) {
        threads(ch, &slots);
    }
    let mut its: Vec<It> = vec![start(ch, &slots)];
    let steps = ch.range(1, 120);
    for _ in 0..steps {
        match ch.weighted(&[40, 2, 2, 1]) {
            0 => {
                let i = ch.usz(its.len());
                let it = &mut its[i];
                let full = it.it.as_ref().unwrap().full();
                let c = draw_call(ch, full, it.hi - it.lo);
                phase(&format!("iter.{}", it.name));
                let g = apply(it.it.as_mut().unwrap(), c);
                log(|| format!("{i} {} {c:?} -> {g:?}", it.name));
                judge_call(it, &slots, c, &g);
                count("iterator-calls");
                ev("call", it.lo as u64);
            }
            1 if its.len() < 4 => its.push(start(ch, &slots)),
            2 if its.len() < 4 => {
                let i = ch.usz(its.len());
                if its[i].it.as_ref().unwrap().full() {
                    log(|| format!("clone {i}"));
                    let c = must("iter.clone", || "clone".into(), || its[i].it.as_ref().unwrap().copy());
                    let n = It { it: Some(c), name: its[i].name, slot: its[i].slot, want: its[i].want.clone(), lo: its[i].lo, hi: its[i].hi };
                    its.push(n);
                    count("iterator-clones");
                }
            }
            _ => {
                if its.len() > 1 {
                    let i = ch.usz(its.len());
                    let mut it = its.remove(i);
                    finish(ch, &mut it, &slots);
                }
            }
        }
        nontrivial();
    }
    for mut it in its {
        finish(ch, &mut it, &slots);
    }
}

/// open one iterator of one of the structures and consume it completely
pub fn drain(ch: &mut Ch, slots: &[Slot]) {
    let mut it = start(ch, slots);
    finish(ch, &mut it, slots);
}
