//! The structures under test, their reference models, and the queries that connect them.

use crate::ch::Ch;
use crate::data::*;
use crate::sim::{count, guard, Stop};
use serde::{Deserialize, Serialize};
use std::ops::Bound;
use vers_vecs::*;

// ---------------------------------------------------------------- specs

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub enum Kind {
    Bits,
    Rs,
    Sparse,
    Ef,
    Bin,
    Fast,
    Wm,
    Bp,
    /// sparse vector over a universe far larger than memory
    Wide,
}

pub const ALL_KINDS: [Kind; 9] =
    [Kind::Bits, Kind::Rs, Kind::Sparse, Kind::Ef, Kind::Bin, Kind::Fast, Kind::Wm, Kind::Bp, Kind::Wide];

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Spec {
    pub kind: Kind,
    pub ctor: u8,
    pub data: DataSpec,
    /// bits per element (wavelet matrix) or block-size index (tree)
    pub k: u16,
}


/// compile-time probe: is `$t` Send + Sync? (never a compile error)
macro_rules! is_sync_impl {
    ($t:ty) => {{
        struct P<T: ?Sized>(std::marker::PhantomData<T>);
        #[allow(dead_code)]
        trait No {
            const R: bool = false;
        }
        impl<T: ?Sized> No for P<T> {}
        #[allow(dead_code)]
        impl<T: ?Sized + Send + Sync> P<T> {
            const R: bool = true;
        }
        P::<$t>::R
    }};
}
pub(crate) use is_sync_impl as is_sync;

macro_rules! rmq_range {
    ($v:expr, $a:expr, $b:expr, $c:expr) => {{
        let (a, b) = ($a, $b);
        let r = match $c {
            0 => $v.range_min_with_range(a..=b),
            1 => $v.range_min_with_range(a..b.saturating_add(1)),
            2 => $v.range_min_with_range(a..),
            3 => $v.range_min_with_range(..=b),
            4 => $v.range_min_with_range(..b.saturating_add(1)),
            5 => $v.range_min_with_range(..),
            6 => $v.range_min_with_range((Bound::Included(a), Bound::Excluded(b.saturating_add(1)))),
            7 if a > 0 => $v.range_min_with_range((Bound::Excluded(a - 1), Bound::Included(b))),
            _ => $v.range_min_with_range((Bound::Included(a), Bound::Unbounded)),
        };
        r as u64
    }};
}

/// a tree builder of any block size
pub trait DynBuilder {
    fn enter(&mut self);
    fn leave(&mut self);
    fn build(self: Box<Self>) -> Result<BpAny, i64>;
}
struct BuilderBox<B: TreeBuilder>(B, fn(B::Tree) -> BpAny);
impl<B: TreeBuilder> DynBuilder for BuilderBox<B> {
    fn enter(&mut self) {
        self.0.enter_node();
    }
    fn leave(&mut self) {
        self.0.leave_node();
    }
    fn build(self: Box<Self>) -> Result<BpAny, i64> {
        let BuilderBox(b, wrap) = *self;
        b.build().map(wrap)
    }
}

pub trait Decoder {
    fn get<T: serde::de::DeserializeOwned>(&mut self) -> Result<T, String>;
}

macro_rules! bp_any {
    ($($v:ident = $n:literal @ $i:literal),*) => {
        #[derive(Clone, Serialize, Deserialize)]
        pub enum BpAny { $($v(BpTree<$n>)),* }
        impl BpAny {
            pub fn build(i: u16, bv: BitVec) -> BpAny {
                match i { $($i => BpAny::$v(BpTree::<$n>::from_bit_vector(bv)),)* _ => unreachable!() }
            }
            pub fn assign_from(&mut self, s: &BpAny) {
                match (self, s) {
                    $((BpAny::$v(a), BpAny::$v(b)) => a.clone_from(b),)*
                    (a, b) => *a = b.clone(),
                }
            }
            /// drive a builder with an event stream
            pub fn via_builder(i: u16, ev: &[bool], cap: Option<u64>) -> Result<BpAny, i64> {
                match i { $($i => {
                    let mut b = match cap { Some(c) => BpBuilder::<$n>::with_capacity(c), None => BpBuilder::<$n>::new() };
                    for e in ev { if *e { b.enter_node() } else { b.leave_node() } }
                    b.build().map(BpAny::$v)
                })* _ => unreachable!() }
            }
            pub fn builder(i: u16, cap: Option<u64>) -> Box<dyn DynBuilder> {
                match i { $($i => {
                    let b = match cap { Some(c) => BpBuilder::<$n>::with_capacity(c), None => BpBuilder::<$n>::new() };
                    let wrap: fn(BpTree<$n>) -> BpAny = BpAny::$v;
                    Box::new(BuilderBox(b, wrap))
                })* _ => unreachable!() }
            }
            pub fn from_bv(i: u16, bv: BitVec) -> BpAny {
                match i { $($i => BpAny::$v(bv.into()),)* _ => unreachable!() }
            }
            pub fn into_rs(self) -> RsVec {
                match self { $(BpAny::$v(t) => t.into_parentheses_vec(),)* }
            }
            pub fn into_rs2(self) -> RsVec {
                match self { $(BpAny::$v(t) => t.into(),)* }
            }
            pub fn into_bv(self) -> BitVec {
                match self { $(BpAny::$v(t) => t.into(),)* }
            }
            pub fn into_iter_nodes(self) -> Box<dyn Iterator<Item = usize>> {
                match self { $(BpAny::$v(t) => Box::new(t.into_iter()),)* }
            }
            /// restore the tree with block size number `i`
            pub fn restored(i: u16, d: &mut impl Decoder) -> Result<BpAny, String> {
                Ok(match i { $($i => BpAny::$v(d.get()?),)* _ => unreachable!() })
            }
            pub fn index(&self) -> u16 { match self { $(BpAny::$v(_) => $i,)* } }
        }
        #[macro_export]
        macro_rules! with_bp {
            ($e:expr, $t:ident => $body:expr) => {
                match $e { $($crate::objs::BpAny::$v($t) => $body,)* }
            };
        }
        pub const BP_BLOCKS: &[usize] = &[$($n),*];
        pub const BP_SYNC: bool = true $(&& is_sync!(BpTree<$n>))*;
    };
}


bp_any!(B512=512@0, B4=4@1, B8=8@2, B64=64@3, B2=2@4, B16=16@5, B128=128@6, B1024=1024@7, B32=32@8, B12=12@9, B24=24@10, B100=100@11, B40000=40000@12, B1=1@13, B3=3@14, B17=17@15, B9=9@16);

#[derive(Clone, Serialize, Deserialize)]
pub enum Obj {
    Bits(BitVec),
    Rs(RsVec),
    Sparse(SparseRSVec),
    Ef(EliasFanoVec),
    Bin(BinaryRmq),
    Fast(FastRmq),
    Wm(WaveletMatrix),
    Bp(BpAny),
}

/// assignment that may reuse what the target holds
pub fn assign_from(t: &mut Obj, s: &Obj) {
    match (t, s) {
        (Obj::Bits(a), Obj::Bits(b)) => a.clone_from(b),
        (Obj::Rs(a), Obj::Rs(b)) => a.clone_from(b),
        (Obj::Sparse(a), Obj::Sparse(b)) => a.clone_from(b),
        (Obj::Ef(a), Obj::Ef(b)) => a.clone_from(b),
        (Obj::Bin(a), Obj::Bin(b)) => a.clone_from(b),
        (Obj::Fast(a), Obj::Fast(b)) => a.clone_from(b),
        (Obj::Wm(a), Obj::Wm(b)) => a.clone_from(b),
        (Obj::Bp(a), Obj::Bp(b)) => a.assign_from(b),
        (a, b) => *a = b.clone(),
    }
}

/// whether the structures of this kind may be shared between threads at all
pub fn shareable(k: Kind) -> bool {
    match k {
        Kind::Bits => is_sync!(BitVec),
        Kind::Rs => is_sync!(RsVec),
        Kind::Sparse | Kind::Wide => is_sync!(SparseRSVec),
        Kind::Ef => is_sync!(EliasFanoVec),
        Kind::Bin => is_sync!(BinaryRmq),
        Kind::Fast => is_sync!(FastRmq),
        Kind::Wm => is_sync!(WaveletMatrix),
        Kind::Bp => BP_SYNC,
    }
}

// ---------------------------------------------------------------- models

pub struct BitsModel {
    pub bits: Vec<bool>,
    pub ones: Vec<u32>,
    pub zeros: Vec<u32>,
}

impl BitsModel {
    pub fn new(bits: Vec<bool>) -> Self {
        let mut ones = vec![];
        let mut zeros = vec![];
        for (i, b) in bits.iter().enumerate() {
            if *b {
                ones.push(i as u32);
            } else {
                zeros.push(i as u32);
            }
        }
        BitsModel { bits, ones, zeros }
    }
    fn rank(v: &[u32], pos: u64) -> u64 {
        v.partition_point(|x| u64::from(*x) < pos) as u64
    }
    fn select(v: &[u32], r: u64, len: u64) -> u64 {
        if r < v.len() as u64 {
            u64::from(v[r as usize])
        } else {
            len
        }
    }
    fn get_bits(&self, pos: u64, len: u64) -> u64 {
        let mut x = 0u64;
        for i in 0..len {
            if self.bits[(pos + i) as usize] {
                x |= 1 << i;
            }
        }
        x
    }
}

pub struct BpModel {
    pub par: Vec<bool>,
    /// excess after position i
    pub exc: Vec<i64>,
    pub close: Vec<Option<u32>>,
    pub open: Vec<Option<u32>>,
    pub parent: Vec<Option<u32>>,
    pub nodes: Vec<u32>,
    pub balanced: bool,
}

impl BpModel {
    pub fn new(par: Vec<bool>) -> Self {
        let n = par.len();
        let mut exc = vec![0; n];
        let (mut close, mut open, mut parent) = (vec![None; n], vec![None; n], vec![None; n]);
        let mut st: Vec<u32> = vec![];
        let mut e = 0i64;
        let mut nodes = vec![];
        let mut balanced = true;
        for i in 0..n {
            if par[i] {
                parent[i] = st.last().copied();
                st.push(i as u32);
                nodes.push(i as u32);
                e += 1;
            } else {
                e -= 1;
                if let Some(o) = st.pop() {
                    open[i] = Some(o);
                    close[o as usize] = Some(i as u32);
                } else {
                    balanced = false;
                }
            }
            exc[i] = e;
        }
        if !st.is_empty() {
            balanced = false;
        }
        BpModel { par, exc, close, open, parent, nodes, balanced }
    }
    fn fwd(&self, i: usize, rel: i64) -> Option<u64> {
        if i >= self.par.len() {
            return None;
        }
        let t = self.exc[i].checked_add(rel)?;
        (i + 1..self.par.len()).find(|j| self.exc[*j] == t).map(|j| j as u64)
    }
    fn bwd(&self, i: usize, rel: i64) -> Option<u64> {
        if i >= self.par.len() {
            return None;
        }
        // positions j < i such that the excess before j differs from the excess before i by `rel`
        let before = |j: usize| if j == 0 { 0 } else { self.exc[j - 1] };
        let t = before(i).checked_add(rel)?;
        (0..i).rev().find(|j| before(*j) == t).map(|j| j as u64)
    }
}

pub enum Model {
    Bits(BitsModel),
    Mono(Vec<u64>),
    Nums(Vec<u64>),
    /// positions of ones in a vector of the given length
    Pos { ones: Vec<u64>, len: u64 },
    Wm { v: Vec<u128>, k: u16, sorted: Vec<u128> },
    Bp(BpModel),
}

// ---------------------------------------------------------------- queries

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub enum Op {
    Len, IsEmpty, Get, GetUn, IsSet, IsSetUn, GetBits, GetBitsUn, Unpack, UnpackUn, CountOnes, CountZeros, LimbSum,
    Rank0, Rank1, Select0, Select1,
    EfGet, EfSelect, EfGetUn, EfPred, EfPredUn, EfSucc, EfSuccUn, EfDelta, EfRank,
    RmqMin, RmqRange, RmqData,
    WGet, WGetUn, WGetU, WGetUUn, WRankRange, WRankRangeUn, WRankRangeU, WRankRangeUUn, WRankOff, WRankOffUn, WRankOffU, WRankOffUUn, WRank, WRankUn, WRankU, WRankUUn,
    WSelOff, WSelOffUn, WSelOffU, WSelOffUUn, WSel, WSelUn, WSelU, WSelUUn,
    WQuant, WQuantUn, WQuantU, WQuantUUn, WSorted, WSortedUn, WSortedU, WSortedUUn,
    WMin, WMinUn, WMinU, WMinUUn, WMax, WMaxUn, WMaxU, WMaxUUn, WMed, WMedUn, WMedU, WMedUUn,
    WPred, WPredU, WSucc, WSuccU, WBits,
    Fwd, Bwd, Close, Open, Enclose, Excess, Root, Parent, FirstChild, NextSib, PrevSib, LastChild, NodeIndex, NodeHandle, IsLeaf, Depth, Size,
    IsAnc, LevelAnc, LevelNext, LevelPrev, LevelLeft, LevelRight, Subtree, Dfs, DfsPost, SubIter, SubPost, Children, RevChildren,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Query {
    pub op: Op,
    pub a: u64,
    pub b: u64,
    pub c: u64,
    pub w: u128,
    pub wl: u32,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Ans {
    U(u64),
    I(i64),
    B(bool),
    O(Option<u64>),
    OB(Option<bool>),
    W(Option<(u128, u32)>),
    L(Vec<u64>),
    Panic(String),
}

pub enum Expect {
    Is(Ans),
    /// any position in lo..=hi holding the minimum of the data
    MinPos(u64, u64),
    /// any answer, but no panic
    Any,
}

fn sym(q: &Query) -> BitVec {
    let mut bv = BitVec::with_capacity(q.wl as usize);
    for i in 0..q.wl {
        bv.append((q.w >> i) & 1 == 1);
    }
    bv
}

pub fn bv_of(bits: &[bool]) -> BitVec {
    BitVec::from_bools(bits)
}

fn w_of(b: BitVec) -> (u128, u32) {
    let mut x = 0u128;
    for i in 0..b.len().min(128) {
        if b.get(i) == Some(1) {
            x |= 1 << i;
        }
    }
    (x, b.len() as u32)
}

pub fn build_model(s: &Spec) -> Model {
    match s.kind {
        Kind::Bits | Kind::Rs => Model::Bits(BitsModel::new(gen_bits(&s.data))),
        Kind::Sparse => {
            let mut b = gen_bits(&s.data);
            if matches!(s.ctor, 1 | 2 | 3) {
                // inverting constructors
                for x in b.iter_mut() {
                    *x = !*x;
                }
            }
            Model::Bits(BitsModel::new(b))
        }
        Kind::Ef => Model::Mono(gen_mono(&s.data)),
        Kind::Wide => {
            let ones = gen_positions(&s.data);
            let len = wide_len(s, &ones);
            Model::Pos { ones, len }
        }
        Kind::Bin | Kind::Fast => Model::Nums(gen_nums(&s.data)),
        Kind::Wm => {
            let v = gen_syms(&s.data, s.k);
            let mut sorted = v.clone();
            sorted.sort_unstable();
            Model::Wm { v, k: s.k, sorted }
        }
        Kind::Bp => Model::Bp(BpModel::new(gen_paren(&s.data))),
    }
}

/// length of a sparse vector with these ones: tight, a little or a lot longer, or the largest there is
pub fn wide_len(s: &Spec, ones: &[u64]) -> u64 {
    let tight = ones.last().map_or(0, |x| x + 1);
    match s.ctor {
        0 => tight,
        1 => tight.saturating_add(s.data.seed & 1023),
        2 => u64::MAX,
        3 => tight.saturating_add(s.data.seed >> (s.data.p1 & 63)),
        _ => tight.checked_next_power_of_two().unwrap_or(u64::MAX),
    }
}

/// inputs of a constructor, prepared before the simulated call
pub enum Input {
    Bits(Vec<bool>),
    Nums(Vec<u64>),
    Syms(Vec<u128>),
}

pub fn make_input(s: &Spec) -> Input {
    match s.kind {
        Kind::Bits | Kind::Rs | Kind::Sparse => Input::Bits(gen_bits(&s.data)),
        Kind::Ef => Input::Nums(gen_mono(&s.data)),
        Kind::Wide => Input::Nums(gen_positions(&s.data)),
        Kind::Bin | Kind::Fast => Input::Nums(gen_nums(&s.data)),
        Kind::Wm => Input::Syms(gen_syms(&s.data, s.k)),
        Kind::Bp => Input::Bits(gen_paren(&s.data)),
    }
}

/// build a bit vector by one of several equivalent routes
pub fn build_bv(bits: &[bool], route: u8) -> BitVec {
    match route {
        0 => BitVec::from_bools(bits),
        1 => {
            let mut b = BitVec::new();
            for x in bits {
                b.append(*x);
            }
            b
        }
        2 => {
            let mut b = BitVec::from_zeros(bits.len());
            for (i, x) in bits.iter().enumerate() {
                if *x {
                    b.set(i, 1).unwrap();
                }
            }
            b
        }
        3 => {
            // words plus truncation: leaves junk behind the logical end
            let words: Vec<u64> = words_of(bits, !0);
            let mut b = BitVec::from_vec(words);
            let extra = b.len() - bits.len();
            b.drop_last(extra);
            b
        }
        4 => {
            // ones, zeros flipped out
            let mut b = BitVec::from_ones(bits.len());
            for (i, x) in bits.iter().enumerate() {
                if !*x {
                    b.flip_bit(i);
                }
            }
            b
        }
        _ => {
            // longer vector, split
            let mut v = bits.to_vec();
            v.extend(std::iter::repeat(true).take(77));
            match BitVec::from_bools(&v).split_at(bits.len()) {
                Ok((l, _)) => l,
                Err(b) => b,
            }
        }
    }
}
pub const BV_ROUTES: u64 = 6;

pub fn words_of(bits: &[bool], fill: u64) -> Vec<u64> {
    bits.chunks(64)
        .map(|c| {
            let mut w = if c.len() == 64 { 0 } else { fill << c.len() };
            for (i, b) in c.iter().enumerate() {
                if *b {
                    w |= 1 << i;
                }
            }
            w
        })
        .collect()
}

pub fn construct(s: &Spec, inp: &Input) -> Obj {
    match (s.kind, inp) {
        (Kind::Bits, Input::Bits(b)) => Obj::Bits(build_bv(b, s.ctor)),
        (Kind::Rs, Input::Bits(b)) => {
            let bv = build_bv(b, s.ctor);
            Obj::Rs(if s.ctor & 1 == 0 { RsVec::from_bit_vec(bv) } else { bv.into() })
        }
        (Kind::Sparse, Input::Bits(b)) => Obj::Sparse(match s.ctor {
            0 => SparseRSVec::from_bitvec(&build_bv(b, 3)),
            1 => SparseRSVec::from_bitvec_inverted(&build_bv(b, 3)),
            2 => SparseRSVec::from(build_bv(b, 0)),
            3 => SparseRSVec::from(&build_bv(b, 5)),
            _ => {
                let ones: Vec<u64> = b.iter().enumerate().filter(|x| *x.1).map(|x| x.0 as u64).collect();
                SparseRSVec::new(&ones, b.len() as u64)
            }
        }),
        (Kind::Wide, Input::Nums(v)) => Obj::Sparse(SparseRSVec::new(v, wide_len(s, v))),
        (Kind::Ef, Input::Nums(v)) => Obj::Ef(EliasFanoVec::from_slice(v)),
        (Kind::Bin, Input::Nums(v)) => Obj::Bin(match s.ctor {
            0 => BinaryRmq::from_vec(v.clone()),
            1 => v.clone().into(),
            2 => v.iter().copied().collect(),
            _ => v.iter().copied().filter(|_| true).collect(),
        }),
        (Kind::Fast, Input::Nums(v)) => Obj::Fast(match s.ctor {
            0 => FastRmq::from_vec(v.clone()),
            1 => v.clone().into(),
            2 => v.iter().copied().collect(),
            _ => v.iter().copied().filter(|_| true).collect(),
        }),
        (Kind::Wm, Input::Syms(v)) => {
            let k = s.k;
            let packed = || {
                let mut b = BitVec::with_capacity(v.len() * k as usize);
                for x in v {
                    for i in 0..k {
                        b.append((x >> i) & 1 == 1);
                    }
                }
                b
            };
            let nums = || v.iter().map(|x| *x as u64).collect::<Vec<_>>();
            let c = match s.ctor {
                0 => 0,
                1 if k <= 64 => 1,
                2 if k <= 12 => 2,
                3 if k <= 12 => 3,
                _ => 0,
            };
            Obj::Wm(match c {
                0 => WaveletMatrix::from_bit_vec(&packed(), k),
                1 => WaveletMatrix::from_slice(&nums(), k),
                2 => WaveletMatrix::from_bit_vec_pc(&packed(), k),
                _ => WaveletMatrix::from_slice_pc(&nums(), k),
            })
        }
        (Kind::Bp, Input::Bits(b)) => Obj::Bp(match s.ctor {
            0 => BpAny::build(s.k, build_bv(b, 0)),
            1 => BpAny::from_bv(s.k, build_bv(b, 3)),
            _ => match BpAny::via_builder(s.k, b, if s.ctor == 2 { None } else { Some(b.len() as u64) }) {
                Ok(t) => t,
                Err(_) => BpAny::build(s.k, build_bv(b, 5)),
            },
        }),
        _ => unreachable!(),
    }
}

pub fn build(s: &Spec) -> Obj {
    construct(s, &make_input(s))
}

pub fn draw_spec(ch: &mut Ch, kind: Kind, scale: usize) -> Spec {
    let (ctor, data, k) = match kind {
        Kind::Bits => (ch.below(BV_ROUTES) as u8, draw_bits(ch, scale), 0),
        Kind::Rs => (ch.below(BV_ROUTES) as u8, draw_bits(ch, scale), 0),
        Kind::Sparse => (ch.below(5) as u8, draw_bits(ch, scale / 4), 0),
        Kind::Ef => (0, draw_mono(ch, scale / 8), 0),
        Kind::Wide => (ch.below(5) as u8, draw_mono(ch, scale / 8), 0),
        Kind::Bin => (ch.below(4) as u8, draw_nums(ch, (scale / 16).min(6000)), 0),
        Kind::Fast => (ch.below(4) as u8, draw_nums(ch, scale / 4), 0),
        Kind::Wm => {
            let ctor = ch.below(4) as u8;
            let k = match ch.weighted(&[8, 6, 4, 3, 3]) {
                0 => ch.range(1, 4),
                1 => ch.range(5, 12),
                2 => ch.range(13, 40),
                3 => ch.pick(&[63, 64, 62]),
                _ => if ch.chance(1, 3) { 65 } else { ch.range(65, 128) },
            } as u16;
            (ctor, draw_syms(ch, scale / 32), k)
        }
        Kind::Bp => {
            let ctor = ch.below(4) as u8;
            let k = ch.below(BP_BLOCKS.len() as u64) as u16;
            (ctor, draw_paren(ch, scale / 8, true), k)
        }
    };
    Spec { kind, ctor, data, k }
}

/// structures large enough for every counter width and index level inside them to matter
pub fn draw_giant(ch: &mut Ch, kind: Kind, div: u64) -> Spec {
    let sz = |ch: &mut Ch, lo: u64, hi: u64| (ch.range(lo.min(hi / div), hi / div)) as usize;
    count("giant-structures");
    match kind {
        Kind::Bits | Kind::Rs | Kind::Sparse => {
            let len = if kind == Kind::Sparse { sz(ch, 500_000, 2_000_000) } else { sz(ch, 1_000_000, 6_000_000) };
            let mut d = draw_bits_len(ch, len);
            match d.pat {
                3 => d.p1 = ch.pick(&[5_000, 60_000, 300_000, 1_000_000]),
                5 | 12 => d.p1 = ch.pick(&[7, 512, 8192, 65_536, 100_003]),
                _ => {}
            }
            let ctor = ch.below(if kind == Kind::Sparse { 5 } else { BV_ROUTES }) as u8;
            Spec { kind, ctor, data: d, k: 0 }
        }
        Kind::Ef | Kind::Wide => {
            let mut d = draw_mono(ch, 4);
            d.len = sz(ch, 100_000, 400_000);
            Spec { kind, ctor: if kind == Kind::Wide { ch.below(5) as u8 } else { 0 }, data: d, k: 0 }
        }
        Kind::Bin | Kind::Fast => {
            let mut d = draw_nums(ch, 4);
            d.len = if kind == Kind::Bin {
                sz(ch, 66_000, 150_000).max(65_540)
            } else if div == 1 && ch.chance(1, 10) {
                8_388_608 + ch.usz(20_000)
            } else {
                sz(ch, 66_000, 1_200_000)
            };
            Spec { kind, ctor: ch.below(4) as u8, data: d, k: 0 }
        }
        Kind::Wm => {
            let mut d = draw_syms(ch, 4);
            d.len = sz(ch, 66_000, 200_000);
            Spec { kind, ctor: ch.below(4) as u8, data: d, k: ch.range(1, 10) as u16 }
        }
        Kind::Bp => {
            let mut d = draw_paren(ch, 4, true);
            d.len = sz(ch, 70_000, 300_000);
            Spec { kind, ctor: ch.below(4) as u8, data: d, k: ch.below(BP_BLOCKS.len() as u64) as u16 }
        }
    }
}

/// the structure of a run: mostly small, now and then gigantic
pub fn draw_any(ch: &mut Ch, kind: Kind, scale: usize, giant: u64, div: u64) -> Spec {
    if ch.chance(1, giant) {
        draw_giant(ch, kind, div)
    } else {
        draw_spec(ch, kind, scale)
    }
}

// ---------------------------------------------------------------- query generation

/// an index in or slightly out of 0..n, biased to boundaries; sometimes far out
pub fn idx(ch: &mut Ch, n: u64) -> u64 {
    match ch.weighted(&[10, 3, 3, 2, 1]) {
        0 => ch.below(n.max(1)),
        1 => {
            let g = ch.pick(&[64u64, 512, 8192, 16, 8]);
            let m = n / g + 1;
            let b = ch.below(m) * g;
            b.saturating_add(ch.below(3)).saturating_sub(1)
        }
        2 => n.saturating_add(ch.below(4)).saturating_sub(2),
        3 => ch.below(4),
        _ => ch.pick(&[u64::MAX, u64::MAX - 1, n.wrapping_add(1000), u64::MAX - 63, 1 << 63, u64::MAX / 2]),
    }
}

/// an index strictly inside 0..n (n > 0)
pub fn inside(ch: &mut Ch, n: u64) -> u64 {
    let i = match ch.weighted(&[8, 3, 3]) {
        0 => ch.below(n),
        1 => {
            let g = ch.pick(&[64u64, 512, 8192, 16, 128]);
            let m = n / g + 1;
            let b = ch.below(m) * g;
            (b + ch.below(3)).saturating_sub(1)
        }
        _ => {
            if ch.chance(1, 2) {
                n.saturating_sub(1 + ch.below(3))
            } else {
                ch.below(3)
            }
        }
    };
    i.min(n - 1)
}

fn q(op: Op) -> Query {
    Query { op, a: 0, b: 0, c: 0, w: 0, wl: 0 }
}

pub fn draw_query(ch: &mut Ch, kind: Kind, m: &Model) -> Query {
    use Op::*;
    match (kind, m) {
        (Kind::Bits, Model::Bits(b)) => {
            let n = b.bits.len() as u64;
            let op = ch.pick(&[Get, GetBits, Unpack, IsSet, GetUn, IsSetUn, GetBitsUn, UnpackUn, CountOnes, CountZeros, Len, IsEmpty, LimbSum]);
            bits_args(ch, op, n)
        }
        (Kind::Rs, Model::Bits(b)) => {
            let n = b.bits.len() as u64;
            let op = [Rank1, Rank0, Select1, Select0, Get, GetBits, GetUn, GetBitsUn, Len, IsEmpty]
                [ch.weighted(&[8, 8, 9, 9, 2, 3, 1, 2, 1, 1])];
            match op {
                Rank0 | Rank1 => Query { a: idx(ch, n), ..q(op) },
                Select0 => Query { a: idx(ch, b.zeros.len() as u64), ..q(op) },
                Select1 => Query { a: idx(ch, b.ones.len() as u64), ..q(op) },
                _ => bits_args(ch, op, n),
            }
        }
        (Kind::Sparse, Model::Bits(b)) => {
            let n = b.bits.len() as u64;
            let op = [Rank1, Rank0, Select1, Get, IsSet, GetUn, IsSetUn, Len, IsEmpty]
                [ch.weighted(&[8, 6, 8, 3, 3, 2, 2, 1, 1])];
            match op {
                Select1 => Query { a: idx(ch, b.ones.len() as u64), ..q(op) },
                GetUn | IsSetUn if n == 0 => q(Len),
                GetUn | IsSetUn => Query { a: inside(ch, n), ..q(op) },
                _ => Query { a: idx(ch, n), ..q(op) },
            }
        }
        (Kind::Wide, Model::Pos { ones, len }) => {
            let n = *len;
            let op = [Rank1, Rank0, Select1, Get, IsSet, GetUn, IsSetUn, Len, IsEmpty]
                [ch.weighted(&[8, 7, 8, 4, 3, 2, 2, 1, 1])];
            let pos = |ch: &mut Ch| {
                if ones.is_empty() || ch.chance(1, 3) {
                    idx(ch, n)
                } else {
                    let x = ones[ch.usz(ones.len())];
                    match ch.below(3) {
                        0 => x,
                        1 => x.saturating_add(1),
                        _ => x.saturating_sub(1),
                    }
                }
            };
            match op {
                Select1 => Query { a: idx(ch, ones.len() as u64), ..q(op) },
                GetUn | IsSetUn if n == 0 => q(Len),
                GetUn | IsSetUn => Query { a: pos(ch).min(n - 1), ..q(op) },
                _ => Query { a: pos(ch), ..q(op) },
            }
        }
        (Kind::Ef, Model::Mono(v)) => {
            let n = v.len() as u64;
            let op = [EfPred, EfSucc, EfRank, EfGet, EfDelta, EfSelect, EfGetUn, EfPredUn, EfSuccUn, Len, IsEmpty]
                [ch.weighted(&[9, 9, 9, 6, 5, 2, 2, 3, 3, 1, 1])];
            match op {
                EfGet | EfSelect | EfDelta => Query { a: idx(ch, n), ..q(op) },
                EfGetUn => {
                    if n == 0 {
                        return q(Len);
                    }
                    Query { a: inside(ch, n), ..q(op) }
                }
                Len | IsEmpty => q(op),
                _ => {
                    // a value near an element, in a gap, or anywhere
                    let x = if n == 0 {
                        ch.word()
                    } else {
                        match ch.weighted(&[8, 4, 3, 2]) {
                            0 => {
                                let e = v[ch.usz(v.len())];
                                match ch.below(3) {
                                    0 => e,
                                    1 => e.saturating_add(1),
                                    _ => e.saturating_sub(1),
                                }
                            }
                            1 => {
                                let i = ch.usz(v.len());
                                let j = (i + 1).min(v.len() - 1);
                                v[i] + (v[j] - v[i]) / 2
                            }
                            2 => {
                                let lo = v[0];
                                let hi = v[v.len() - 1];
                                match ch.below(4) {
                                    0 => lo,
                                    1 => hi,
                                    2 => lo.saturating_sub(1 + ch.below(3)),
                                    _ => hi.saturating_add(1 + ch.below(3)),
                                }
                            }
                            _ => ch.word() >> ch.below(64),
                        }
                    };
                    let op = match op {
                        EfPredUn if n == 0 || x < v[0] => EfPred,
                        EfSuccUn if n == 0 || x > v[v.len() - 1] => EfSucc,
                        o => o,
                    };
                    Query { a: x, ..q(op) }
                }
            }
        }
        (Kind::Bin | Kind::Fast, Model::Nums(v)) => {
            let n = v.len() as u64;
            if n == 0 {
                return Query { a: idx(ch, 0), ..q(ch.pick(&[Len, RmqData, IsEmpty])) };
            }
            match ch.weighted(&[12, 6, 2, 1, 1]) {
                0 => {
                    let (i, j) = interval(ch, n);
                    Query { a: i, b: j, ..q(RmqMin) }
                }
                1 => {
                    // range object: c selects the form; out-of-range ends are clamped
                    let (i, mut j) = interval(ch, n);
                    let c = ch.below(9);
                    if ch.chance(1, 4) {
                        j = ch.pick(&[n, n + 1, n + 1000, u64::MAX, u64::MAX - 1, 1 << 63]);
                    }
                    Query { a: i, b: j, c, ..q(RmqRange) }
                }
                2 => Query { a: idx(ch, n), ..q(RmqData) },
                3 => q(Len),
                _ => q(IsEmpty),
            }
        }
        (Kind::Wm, Model::Wm { v, k, .. }) => draw_wm(ch, v, *k),
        (Kind::Bp, Model::Bp(b)) => draw_bp(ch, b),
        _ => unreachable!(),
    }
}

pub fn bits_args(ch: &mut Ch, op: Op, n: u64) -> Query {
    use Op::*;
    match op {
        Get | IsSet => Query { a: idx(ch, n), ..q(op) },
        GetUn | IsSetUn => {
            if n == 0 {
                return q(Len);
            }
            Query { a: inside(ch, n), ..q(op) }
        }
        GetBits => {
            let l = match ch.weighted(&[6, 3, 1]) {
                0 => ch.range(1, 64),
                1 => ch.pick(&[64, 63, 1, 32, 0]),
                _ => ch.pick(&[65, 128, u64::MAX, 100]),
            };
            let a = match ch.weighted(&[4, 2]) {
                0 => idx(ch, n),
                _ => n.saturating_sub(l.min(64)).saturating_add(ch.below(3)).saturating_sub(1),
            };
            Query { a, b: l, ..q(op) }
        }
        GetBitsUn => {
            if n == 0 {
                return q(Len);
            }
            let l = ch.range(1, 64).min(n);
            let a = if ch.chance(1, 4) { n - l } else { ch.below(n - l + 1) };
            Query { a, b: l, ..q(op) }
        }
        Unpack => {
            let w = match ch.weighted(&[8, 2, 1]) {
                0 => ch.range(1, 64),
                1 => ch.pick(&[64, 1, 63]),
                _ => ch.pick(&[0, 65, u64::MAX]),
            };
            let m = if w == 0 || w > 64 { n } else { n / w };
            Query { a: idx(ch, m), b: w, ..q(op) }
        }
        UnpackUn => {
            let w = ch.range(1, 64);
            if n / w == 0 {
                return q(Len);
            }
            Query { a: inside(ch, n / w), b: w, ..q(op) }
        }
        _ => q(op),
    }
}

fn interval(ch: &mut Ch, n: u64) -> (u64, u64) {
    let i = inside(ch, n);
    let j = match ch.weighted(&[4, 3, 2, 2, 1]) {
        0 => inside(ch, n),
        1 => (i + ch.below(8)).min(n - 1),
        2 => (i + ch.range(60, 400)).min(n - 1),
        3 => i,
        _ => n - 1,
    };
    (i.min(j), i.max(j))
}

fn draw_wm(ch: &mut Ch, v: &[u128], k: u16) -> Query {
    use Op::*;
    let n = v.len() as u64;
    let mask: u128 = if k >= 128 { u128::MAX } else { (1u128 << k) - 1 };
    let wide = k > 64;
    let sy = |ch: &mut Ch| -> u128 {
        match ch.weighted(&[8, 3, 2, 1]) {
            0 if n > 0 => v[ch.usz(v.len())],
            1 if n > 0 => {
                let x = v[ch.usz(v.len())];
                if ch.chance(1, 2) { x.wrapping_add(1) & mask } else { x.wrapping_sub(1) & mask }
            }
            2 => ch.pick(&[0, mask]),
            _ => ((ch.word() as u128) << 64 | ch.word() as u128) & mask,
        }
    };
    let ops: [&[Op]; 8] = [
        &[WGet, WGetU, WGetUn, WGetUUn],
        &[WRankRange, WRankRangeU, WRankOff, WRankOffU, WRankRangeUn, WRankRangeUUn, WRankOffUn, WRankOffUUn],
        &[WRank, WRankU, WRankUn, WRankUUn],
        &[WSelOff, WSelOffU, WSel, WSelU, WSelOffUn, WSelOffUUn, WSelUn, WSelUUn],
        &[WQuant, WQuantU, WQuantUn, WQuantUUn, WSorted, WSortedU, WSortedUn, WSortedUUn],
        &[WMin, WMinU, WMinUn, WMinUUn, WMax, WMaxU, WMaxUn, WMaxUUn, WMed, WMedU, WMedUn, WMedUUn],
        &[WPred, WPredU, WSucc, WSuccU],
        &[Len, IsEmpty, WBits],
    ];
    let g = ch.weighted(&[4, 7, 4, 8, 6, 6, 8, 1]);
    let mut op = ch.pick(ops[g]);
    let un = matches!(
        op,
        WGetUn | WGetUUn | WRankRangeUn | WRankRangeUUn | WRankOffUn | WRankOffUUn | WRankUn | WRankUUn | WSelOffUn | WSelOffUUn
            | WSelUn | WSelUUn | WQuantUn | WQuantUUn | WSortedUn | WSortedUUn | WMinUn | WMinUUn | WMaxUn | WMaxUUn | WMedUn | WMedUUn
    );
    if un && (n == 0 || wide) {
        op = Len;
    }
    // symbol; sometimes of the wrong width for the checked bit-vector forms
    let w = sy(ch);
    let mut wl = u32::from(k);
    if matches!(op, WRankRange | WRankOff | WRank | WSelOff | WSel | WPred | WSucc) && ch.chance(1, 20) {
        wl = ch.pick(&[0, 1, u32::from(k) + 1, u32::from(k).saturating_sub(1), 128]).min(128);
    }
    let range = |ch: &mut Ch| -> (u64, u64) {
        if n == 0 {
            return (ch.below(2), ch.below(3));
        }
        match ch.weighted(&[10, 2, 1, 1]) {
            0 => {
                let (i, j) = interval(ch, n);
                (i, j + 1)
            }
            1 => {
                let i = inside(ch, n);
                (i, i) // empty but in range
            }
            2 => (idx(ch, n), idx(ch, n)), // reversed / out of range
            _ => (inside(ch, n), n + ch.range(1, 3)),
        }
    };
    let mut r = Query { w, wl, ..q(op) };
    match op {
        WGet | WGetU => r.a = idx(ch, n),
        WGetUn | WGetUUn | WSortedUn | WSortedUUn => r.a = inside(ch, n),
        WSorted | WSortedU => r.a = idx(ch, n),
        WRankRange | WRankRangeU | WRankOff | WRankOffU | WPred | WPredU | WSucc | WSuccU => {
            let (a, b) = range(ch);
            r.a = a;
            r.b = b;
        }
        WRankRangeUn | WRankRangeUUn | WRankOffUn | WRankOffUUn => {
            let (a, b) = interval(ch, n);
            r.a = a;
            r.b = b + ch.below(2);
        }
        WRank | WRankU => r.a = idx(ch, n + 1),
        WRankUn | WRankUUn => r.a = ch.below(n + 1),
        WSelOff | WSelOffU | WSel | WSelU | WSelOffUn | WSelOffUUn | WSelUn | WSelUUn => {
            let off = matches!(op, WSelOff | WSelOffU | WSelOffUn | WSelOffUUn);
            r.a = if !off {
                0
            } else if matches!(op, WSelOffUn | WSelOffUUn) {
                inside(ch, n)
            } else {
                idx(ch, n)
            };
            let c = v.iter().skip(r.a.min(n) as usize).filter(|x| **x == w).count() as u64;
            r.b = if matches!(op, WSelOffUn | WSelOffUUn | WSelUn | WSelUUn) {
                if c == 0 {
                    return q(Len);
                }
                ch.below(c)
            } else {
                idx(ch, c)
            };
        }
        WQuant | WQuantU => {
            let (a, b) = range(ch);
            r.a = a;
            r.b = b;
            r.c = idx(ch, b.saturating_sub(a));
        }
        WQuantUn | WQuantUUn => {
            let (a, b) = interval(ch, n);
            r.a = a;
            r.b = b + 1;
            r.c = ch.below(b + 1 - a);
        }
        WMin | WMinU | WMax | WMaxU | WMed | WMedU => {
            let (a, b) = range(ch);
            r.a = a;
            r.b = b;
        }
        WMinUn | WMinUUn | WMaxUn | WMaxUUn | WMedUn | WMedUUn => {
            let (a, b) = interval(ch, n);
            r.a = a;
            r.b = b + 1;
        }
        _ => {}
    }
    r
}

fn draw_bp(ch: &mut Ch, m: &BpModel) -> Query {
    use Op::*;
    let n = m.par.len() as u64;
    let maxd = m.exc.iter().copied().max().unwrap_or(0).max(1);
    let ops: [Op; 34] = [
        Fwd, Bwd, Close, Open, Enclose, Excess, Root, Parent, FirstChild, NextSib, PrevSib, LastChild, NodeIndex, NodeHandle, IsLeaf, Depth,
        Size, IsAnc, LevelAnc, LevelNext, LevelPrev, LevelLeft, LevelRight, Subtree, Dfs, DfsPost, SubIter, SubPost, Children, RevChildren, Len, IsEmpty, Fwd, Bwd,
    ];
    let w = [8, 8, 6, 6, 5, 3, 1, 6, 4, 5, 5, 5, 3, 3, 2, 3, 1, 5, 6, 6, 6, 4, 4, 5, 1, 1, 1, 1, 1, 1, 0, 1, 4, 4];
    let op = ops[ch.weighted(&w)];
    let node = |ch: &mut Ch| -> Option<u64> {
        if m.nodes.is_empty() {
            None
        } else {
            Some(u64::from(m.nodes[inside(ch, m.nodes.len() as u64) as usize]))
        }
    };
    match op {
        Fwd | Bwd => {
            let a = idx(ch, n);
            let rel = match ch.weighted(&[4, 4, 3, 1, 1]) {
                0 => ch.pick(&[-1i64, 1, 0, -2, 2]),
                1 => ch.range(0, 40) as i64 - 20,
                2 => ch.range(0, 2 * maxd as u64) as i64 - maxd,
                3 => ch.pick(&[1000, -1000, 1 << 40, -(1 << 40), i64::MAX, i64::MIN, i64::MAX - 5, i64::MIN + 3]),
                _ => {
                    // a target that is attained somewhere
                    if n == 0 {
                        1
                    } else {
                        let t = ch.below(n) as usize;
                        m.exc[t] - m.exc[a.min(n - 1) as usize]
                    }
                }
            };
            Query { a, b: rel as u64, ..q(op) }
        }
        Close => match node(ch) {
            Some(a) => Query { a, ..q(op) },
            None => Query { a: n + ch.below(3), ..q(op) },
        },
        Open => {
            let a = inside(ch, n.max(1));
            if n > 0 && !m.par[a as usize] {
                Query { a, ..q(op) }
            } else {
                Query { a: n + ch.below(3), ..q(op) }
            }
        }
        Enclose => Query { a: idx(ch, n), ..q(op) },
        Excess => {
            if n == 0 {
                return q(Size);
            }
            Query { a: inside(ch, n), ..q(op) }
        }
        NodeHandle => {
            if m.nodes.is_empty() {
                return q(Size);
            }
            Query { a: inside(ch, m.nodes.len() as u64), ..q(op) }
        }
        LevelLeft | LevelRight => Query { a: ch.below(maxd as u64 + 2), ..q(op) },
        IsAnc => match (node(ch), node(ch)) {
            (Some(a), Some(b)) => {
                // half of the time ask about a true ancestor
                let mut a = a;
                if ch.chance(1, 2) {
                    let mut x = b;
                    for _ in 0..ch.below(6) {
                        match m.parent[x as usize] {
                            Some(p) => x = u64::from(p),
                            None => break,
                        }
                    }
                    a = x;
                }
                Query { a, b, ..q(op) }
            }
            _ => q(Size),
        },
        LevelAnc => match node(ch) {
            Some(a) => {
                let d = m.exc[a as usize].max(1) as u64;
                let b = match ch.below(3) {
                    0 => ch.below(4),
                    1 => ch.below(d + 2),
                    _ => (d + ch.below(3)).saturating_sub(2),
                };
                Query { a, b, ..q(op) }
            }
            None => q(Size),
        },
        Root | Size | Len | IsEmpty | Dfs => q(op),
        DfsPost => {
            if m.balanced {
                q(op)
            } else {
                q(Dfs)
            }
        }
        SubIter | SubPost | Children | RevChildren => match node(ch) {
            Some(a) if m.balanced => Query { a, ..q(op) },
            _ => q(Size),
        },
        _ => match node(ch) {
            Some(a) => Query { a, ..q(op) },
            None => q(Size),
        },
    }
}

// ---------------------------------------------------------------- execution on the real structure

fn o(x: Option<usize>) -> Ans {
    Ans::O(x.map(|v| v as u64))
}

pub fn exec(obj: &Obj, qu: &Query) -> Ans {
    match guard(|| exec_raw(obj, qu)) {
        Ok(a) => a,
        Err(Stop::Panic(m)) => Ans::Panic(m),
        Err(Stop::Injected(s)) => Ans::Panic(format!("injected {s}")),
    }
}

pub fn exec_bitvec(v: &BitVec, qu: &Query) -> Ans {
    use Op::*;
    let (a, b) = (qu.a as usize, qu.b as usize);
    match qu.op {
            Len => Ans::U(v.len() as u64),
            IsEmpty => Ans::B(v.is_empty()),
            Get => Ans::O(v.get(a)),
            GetUn => Ans::U(v.get_unchecked(a)),
            IsSet => Ans::OB(v.is_bit_set(a)),
            IsSetUn => Ans::B(v.is_bit_set_unchecked(a)),
            GetBits => Ans::O(v.get_bits(a, b)),
            GetBitsUn => Ans::U(v.get_bits_unchecked(a, b)),
            Unpack => Ans::O(v.unpack_element(a, b)),
            UnpackUn => Ans::U(v.unpack_element_unchecked(a, b)),
            CountOnes => Ans::U(v.count_ones()),
            CountZeros => Ans::U(v.count_zeros()),
            LimbSum => {
                // limbs, with the unspecified tail of the last one masked off
                let n = v.len();
                let mut left = n;
                Ans::L(
                    v.iter_limbs()
                        .map(|w| {
                            let w2 = if left >= 64 { w } else { w & ((1u64 << left) - 1) };
                            left = left.saturating_sub(64);
                            w2
                        })
                        .take(n.div_ceil(64))
                        .collect(),
                )
            }
            _ => unreachable!(),
        }
}

pub fn exec_raw(obj: &Obj, qu: &Query) -> Ans {
    use Op::*;
    let (a, b, c) = (qu.a as usize, qu.b as usize, qu.c as usize);
    match obj {
        Obj::Bits(v) => exec_bitvec(v, qu),
        Obj::Rs(v) => match qu.op {
            Len => Ans::U(v.len() as u64),
            IsEmpty => Ans::B(v.is_empty()),
            Get => Ans::O(v.get(a)),
            GetUn => Ans::U(v.get_unchecked(a)),
            GetBits => Ans::O(v.get_bits(a, b)),
            GetBitsUn => Ans::U(v.get_bits_unchecked(a, b)),
            Rank0 => Ans::U(v.rank0(a) as u64),
            Rank1 => Ans::U(v.rank1(a) as u64),
            Select0 => Ans::U(v.select0(a) as u64),
            Select1 => Ans::U(v.select1(a) as u64),
            _ => unreachable!(),
        },
        Obj::Sparse(v) => match qu.op {
            Len => Ans::U(v.len()),
            IsEmpty => Ans::B(v.is_empty()),
            Get => Ans::O(v.get(qu.a)),
            GetUn => Ans::U(v.get_unchecked(qu.a)),
            IsSet => Ans::OB(v.is_set(qu.a)),
            IsSetUn => Ans::B(v.is_set_unchecked(qu.a)),
            Rank0 => Ans::U(v.rank0(qu.a)),
            Rank1 => Ans::U(v.rank1(qu.a)),
            Select1 => Ans::U(v.select1(a)),
            _ => unreachable!(),
        },
        Obj::Ef(v) => match qu.op {
            Len => Ans::U(v.len() as u64),
            IsEmpty => Ans::B(v.is_empty()),
            EfGet => Ans::O(v.get(a)),
            EfSelect => Ans::O(v.select(a)),
            EfGetUn => Ans::U(v.get_unchecked(a)),
            EfPred => Ans::O(v.predecessor(qu.a)),
            EfPredUn => Ans::U(v.predecessor_unchecked(qu.a)),
            EfSucc => Ans::O(v.successor(qu.a)),
            EfSuccUn => Ans::U(v.successor_unchecked(qu.a)),
            EfDelta => Ans::O(v.delta(a)),
            EfRank => Ans::U(v.rank(qu.a)),
            _ => unreachable!(),
        },
        Obj::Bin(v) => match qu.op {
            RmqMin => Ans::U(v.range_min(a, b) as u64),
            RmqRange => Ans::U(rmq_range!(v, a, b, c)),
            Len => Ans::U(v.len() as u64),
            IsEmpty => Ans::B(v.is_empty()),
            RmqData => Ans::O(v.get(a).copied()),
            _ => unreachable!(),
        },
        Obj::Fast(v) => match qu.op {
            RmqMin => Ans::U(v.range_min(a, b) as u64),
            RmqRange => Ans::U(rmq_range!(v, a, b, c)),
            Len => Ans::U(v.len() as u64),
            IsEmpty => Ans::B(v.is_empty()),
            RmqData => Ans::O(v.get(a).copied()),
            _ => unreachable!(),
        },
        Obj::Wm(v) => exec_wm(v, qu),
        Obj::Bp(t) => with_bp!(t, t => exec_bp(t, qu)),
    }
}


fn exec_wm(v: &WaveletMatrix, qu: &Query) -> Ans {
    use Op::*;
    let (a, b, c) = (qu.a as usize, qu.b as usize, qu.c as usize);
    let u = qu.w as u64;
    match qu.op {
        Len => Ans::U(v.len() as u64),
        IsEmpty => Ans::B(v.is_empty()),
        WBits => {
            #[allow(deprecated)]
            let same = u64::from(v.bit_len()) == v.bits_per_element() as u64;
            Ans::U(if same { v.bits_per_element() as u64 } else { u64::MAX })
        }
        WGet => Ans::W(v.get_value(a).map(w_of)),
        WGetUn => Ans::W(Some(w_of(v.get_value_unchecked(a)))),
        WGetU => Ans::O(v.get_u64(a)),
        WGetUUn => Ans::U(v.get_u64_unchecked(a)),
        WRankRange => o(v.rank_range(a..b, &sym(qu))),
        WRankRangeUn => Ans::U(v.rank_range_unchecked(a..b, &sym(qu)) as u64),
        WRankRangeU => o(v.rank_range_u64(a..b, u)),
        WRankRangeUUn => Ans::U(v.rank_range_u64_unchecked(a..b, u) as u64),
        WRankOff => o(v.rank_offset(a, b, &sym(qu))),
        WRankOffUn => Ans::U(v.rank_offset_unchecked(a, b, &sym(qu)) as u64),
        WRankOffU => o(v.rank_offset_u64(a, b, u)),
        WRankOffUUn => Ans::U(v.rank_offset_u64_unchecked(a, b, u) as u64),
        WRank => o(v.rank(a, &sym(qu))),
        WRankUn => Ans::U(v.rank_unchecked(a, &sym(qu)) as u64),
        WRankU => o(v.rank_u64(a, u)),
        WRankUUn => Ans::U(v.rank_u64_unchecked(a, u) as u64),
        WSelOff => o(v.select_offset(a, b, &sym(qu))),
        WSelOffUn => Ans::U(v.select_offset_unchecked(a, b, &sym(qu)) as u64),
        WSelOffU => o(v.select_offset_u64(a, b, u)),
        WSelOffUUn => Ans::U(v.select_offset_u64_unchecked(a, b, u) as u64),
        WSel => o(v.select(b, &sym(qu))),
        WSelUn => Ans::U(v.select_unchecked(b, &sym(qu)) as u64),
        WSelU => o(v.select_u64(b, u)),
        WSelUUn => Ans::U(v.select_u64_unchecked(b, u) as u64),
        WQuant => Ans::W(v.quantile(a..b, c).map(w_of)),
        WQuantUn => Ans::W(Some(w_of(v.quantile_unchecked(a..b, c)))),
        WQuantU => Ans::O(v.quantile_u64(a..b, c)),
        WQuantUUn => Ans::U(v.quantile_u64_unchecked(a..b, c)),
        WSorted => Ans::W(v.get_sorted(a).map(w_of)),
        WSortedUn => Ans::W(Some(w_of(v.get_sorted_unchecked(a)))),
        WSortedU => Ans::O(v.get_sorted_u64(a)),
        WSortedUUn => Ans::U(v.get_sorted_u64_unchecked(a)),
        WMin => Ans::W(v.range_min(a..b).map(w_of)),
        WMinUn => Ans::W(Some(w_of(v.range_min_unchecked(a..b)))),
        WMinU => Ans::O(v.range_min_u64(a..b)),
        WMinUUn => Ans::U(v.range_min_u64_unchecked(a..b)),
        WMax => Ans::W(v.range_max(a..b).map(w_of)),
        WMaxUn => Ans::W(Some(w_of(v.range_max_unchecked(a..b)))),
        WMaxU => Ans::O(v.range_max_u64(a..b)),
        WMaxUUn => Ans::U(v.range_max_u64_unchecked(a..b)),
        WMed => Ans::W(v.range_median(a..b).map(w_of)),
        WMedUn => Ans::W(Some(w_of(v.range_median_unchecked(a..b)))),
        WMedU => Ans::O(v.range_median_u64(a..b)),
        WMedUUn => Ans::U(v.range_median_u64_unchecked(a..b)),
        WPred => Ans::W(v.predecessor(a..b, &sym(qu)).map(w_of)),
        WPredU => Ans::O(v.predecessor_u64(a..b, u)),
        WSucc => Ans::W(v.successor(a..b, &sym(qu)).map(w_of)),
        WSuccU => Ans::O(v.successor_u64(a..b, u)),
        _ => unreachable!(),
    }
}

fn exec_bp<const N: usize>(t: &BpTree<N>, qu: &Query) -> Ans {
    use Op::*;
    let (a, b) = (qu.a as usize, qu.b as usize);
    let l = |it: &mut dyn Iterator<Item = usize>| Ans::L(it.map(|x| x as u64).collect());
    match qu.op {
        Fwd => o(t.fwd_search(a, qu.b as i64)),
        Bwd => o(t.bwd_search(a, qu.b as i64)),
        Close => o(t.close(a)),
        Open => o(t.open(a)),
        Enclose => o(t.enclose(a)),
        Excess => Ans::I(t.excess(a)),
        Root => o(t.root()),
        Parent => o(t.parent(a)),
        FirstChild => o(t.first_child(a)),
        NextSib => o(t.next_sibling(a)),
        PrevSib => o(t.previous_sibling(a)),
        LastChild => o(t.last_child(a)),
        NodeIndex => Ans::U(t.node_index(a) as u64),
        NodeHandle => Ans::U(t.node_handle(a) as u64),
        IsLeaf => Ans::B(t.is_leaf(a)),
        Depth => Ans::U(t.depth(a)),
        Size => Ans::U(t.size() as u64),
        IsEmpty => Ans::B(t.is_empty()),
        IsAnc => Ans::OB(t.is_ancestor(a, b)),
        LevelAnc => o(t.level_ancestor(a, qu.b)),
        LevelNext => o(t.level_next(a)),
        LevelPrev => o(t.level_prev(a)),
        LevelLeft => o(t.level_leftmost(qu.a)),
        LevelRight => o(t.level_rightmost(qu.a)),
        Subtree => o(t.subtree_size(a)),
        Dfs => {
            if qu.a & 1 == 0 {
                l(&mut t.dfs_iter())
            } else {
                l(&mut t.iter())
            }
        }
        DfsPost => l(&mut t.dfs_post_iter()),
        SubIter => l(&mut t.subtree_iter(a)),
        SubPost => l(&mut t.subtree_post_iter(a)),
        Children => l(&mut t.children(a)),
        RevChildren => l(&mut t.rev_children(a)),
        _ => unreachable!(),
    }
}

// ---------------------------------------------------------------- reference answers

pub fn expect(m: &Model, qu: &Query) -> Expect {
    use Op::*;
    let (a, b) = (qu.a, qu.b);
    let is = Expect::Is;
    match m {
        Model::Bits(v) => {
            let n = v.bits.len() as u64;
            is(match qu.op {
                Len => Ans::U(n),
                IsEmpty => Ans::B(n == 0),
                Get => Ans::O((a < n).then(|| u64::from(v.bits[a as usize]))),
                GetUn => Ans::U(u64::from(v.bits[a as usize])),
                IsSet => Ans::OB((a < n).then(|| v.bits[a as usize])),
                IsSetUn => Ans::B(v.bits[a as usize]),
                GetBits => {
                    if b == 0 {
                        // zero-width reads: unspecified whether "none" or zero
                        return Expect::Any;
                    }
                    let ok = b <= 64 && a.checked_add(b).is_some_and(|e| e <= n);
                    Ans::O(ok.then(|| v.get_bits(a, b)))
                }
                GetBitsUn => Ans::U(v.get_bits(a, b)),
                Unpack => {
                    if b == 0 {
                        return Expect::Any;
                    }
                    let ok = b <= 64
                        && a.checked_mul(b).and_then(|s| s.checked_add(b)).is_some_and(|e| e <= n);
                    Ans::O(ok.then(|| v.get_bits(a * b, b)))
                }
                UnpackUn => Ans::U(v.get_bits(a * b, b)),
                CountOnes => Ans::U(v.ones.len() as u64),
                CountZeros => Ans::U(v.zeros.len() as u64),
                LimbSum => Ans::L(words_of(&v.bits, 0)),
                Rank1 => Ans::U(BitsModel::rank(&v.ones, a)),
                Rank0 => Ans::U(BitsModel::rank(&v.zeros, a)),
                Select1 => Ans::U(BitsModel::select(&v.ones, a, n)),
                Select0 => Ans::U(BitsModel::select(&v.zeros, a, n)),
                _ => unreachable!(),
            })
        }
        Model::Pos { ones, len } => {
            let n = *len;
            let below = |x: u64| ones.partition_point(|y| *y < x) as u64;
            let set = |x: u64| ones.binary_search(&x).is_ok();
            is(match qu.op {
                Len => Ans::U(n),
                IsEmpty => Ans::B(n == 0),
                Get => Ans::O((a < n).then(|| u64::from(set(a)))),
                GetUn => Ans::U(u64::from(set(a))),
                IsSet => Ans::OB((a < n).then(|| set(a))),
                IsSetUn => Ans::B(set(a)),
                Rank1 => Ans::U(below(a)),
                Rank0 => Ans::U(a.min(n) - below(a.min(n))),
                Select1 => Ans::U(ones.get(a as usize).copied().unwrap_or(n)),
                _ => unreachable!(),
            })
        }
        Model::Mono(v) => {
            let n = v.len() as u64;
            let below = v.partition_point(|x| *x < a); // strictly smaller
            let upto = v.partition_point(|x| *x <= a);
            is(match qu.op {
                Len => Ans::U(n),
                IsEmpty => Ans::B(n == 0),
                EfGet | EfSelect => Ans::O((a < n).then(|| v[a as usize])),
                EfGetUn => Ans::U(v[a as usize]),
                EfPred => Ans::O(upto.checked_sub(1).map(|i| v[i])),
                EfPredUn => Ans::U(v[upto - 1]),
                EfSucc => Ans::O(v.get(below).copied()),
                EfSuccUn => Ans::U(v[below]),
                EfRank => Ans::U(below as u64),
                EfDelta => Ans::O(if a >= n {
                    None
                } else if a == 0 {
                    Some(v[0])
                } else {
                    Some(v[a as usize] - v[a as usize - 1])
                }),
                _ => unreachable!(),
            })
        }
        Model::Nums(v) => {
            let n = v.len() as u64;
            match qu.op {
                Len => is(Ans::U(n)),
                IsEmpty => is(Ans::B(n == 0)),
                RmqData => is(Ans::O((a < n).then(|| v[a as usize]))),
                RmqMin => Expect::MinPos(a, b),
                RmqRange => {
                    let last = n - 1;
                    let (lo, hi) = match qu.c {
                        0 | 1 | 6 => (a, b),
                        2 => (a, last),
                        3 | 4 => (0, b),
                        5 => (0, last),
                        7 if a > 0 => (a, b),
                        _ => (a, last),
                    };
                    Expect::MinPos(lo.min(last), hi.min(last))
                }
                _ => unreachable!(),
            }
        }
        Model::Wm { v, k, sorted } => expect_wm(v, *k, sorted, qu),
        Model::Bp(t) => expect_bp(t, qu),
    }
}

fn expect_wm(v: &[u128], k: u16, sorted: &[u128], qu: &Query) -> Expect {
    use Op::*;
    let n = v.len() as u64;
    let (a, b, c) = (qu.a, qu.b, qu.c);
    let wide = k > 64;
    let kl = u32::from(k);
    let right = qu.wl == kl;
    let in_range = a < n && b <= n && a <= b;
    let cnt = |a: u64, b: u64| v[a as usize..b as usize].iter().filter(|x| **x == qu.w).count() as u64;
    let wv = |x: Option<u128>| Ans::W(x.map(|x| (x, kl)));
    let uv = |x: Option<u128>| Ans::O(if wide { None } else { x.map(|x| x as u64) });
    let quant = |a: u64, b: u64, c: u64| -> Option<u128> {
        if !(a < n && b <= n && a <= b) || c >= b - a {
            return None;
        }
        let mut s = v[a as usize..b as usize].to_vec();
        Some(*s.select_nth_unstable(c as usize).1)
    };
    let sel = |off: u64, r: u64| -> Option<u64> {
        if off >= n {
            return None;
        }
        (off..n).filter(|i| v[*i as usize] == qu.w).nth(r.min(usize::MAX as u64) as usize)
    };
    let un = |x: Option<u128>| x.unwrap();
    Expect::Is(match qu.op {
        Len => Ans::U(n),
        IsEmpty => Ans::B(n == 0),
        WBits => Ans::U(u64::from(k)),
        WGet => wv((a < n).then(|| v[a as usize])),
        WGetUn => wv(Some(v[a as usize])),
        WGetU => uv((a < n).then(|| v[a as usize])),
        WGetUUn => Ans::U(v[a as usize] as u64),
        WRankRange | WRankOff => Ans::O((right && in_range).then(|| cnt(a, b))),
        WRankRangeU | WRankOffU => Ans::O((!wide && in_range).then(|| cnt(a, b))),
        WRankRangeUn | WRankRangeUUn | WRankOffUn | WRankOffUUn => Ans::U(cnt(a, b)),
        WRank => Ans::O((right && a <= n).then(|| cnt(0, a))),
        WRankU => Ans::O((!wide && a <= n).then(|| cnt(0, a))),
        WRankUn | WRankUUn => Ans::U(cnt(0, a)),
        WSelOff => Ans::O(if right { sel(a, b) } else { None }),
        WSelOffU => Ans::O(if wide { None } else { sel(a, b) }),
        WSel => Ans::O(if right { sel(0, b) } else { None }),
        WSelU => Ans::O(if wide { None } else { sel(0, b) }),
        WSelOffUn | WSelOffUUn => Ans::U(sel(a, b).unwrap()),
        WSelUn | WSelUUn => Ans::U(sel(0, b).unwrap()),
        WQuant => wv(quant(a, b, c)),
        WQuantUn => wv(Some(un(quant(a, b, c)))),
        WQuantU => uv(quant(a, b, c)),
        WQuantUUn => Ans::U(un(quant(a, b, c)) as u64),
        WSorted => wv((a < n).then(|| sorted[a as usize])),
        WSortedUn => wv(Some(sorted[a as usize])),
        WSortedU => uv((a < n).then(|| sorted[a as usize])),
        WSortedUUn => Ans::U(sorted[a as usize] as u64),
        WMin => wv(quant(a, b, 0)),
        WMinU => uv(quant(a, b, 0)),
        WMinUn => wv(quant(a, b, 0)),
        WMinUUn => Ans::U(un(quant(a, b, 0)) as u64),
        WMax | WMaxUn => wv(if b > a { quant(a, b, b - a - 1) } else { None }),
        WMaxU => uv(if b > a { quant(a, b, b - a - 1) } else { None }),
        WMaxUUn => Ans::U(un(quant(a, b, b - a - 1)) as u64),
        WMed | WMedUn => wv(if b > a { quant(a, b, (b - a - 1) / 2) } else { None }),
        WMedU => uv(if b > a { quant(a, b, (b - a - 1) / 2) } else { None }),
        WMedUUn => Ans::U(un(quant(a, b, (b - a - 1) / 2)) as u64),
        WPred | WPredU | WSucc | WSuccU => {
            let r = if in_range {
                let s = v[a as usize..b as usize].iter().copied();
                if matches!(qu.op, WPred | WPredU) {
                    s.filter(|x| *x <= qu.w).max()
                } else {
                    s.filter(|x| *x >= qu.w).min()
                }
            } else {
                None
            };
            match qu.op {
                WPred | WSucc => wv(if right { r } else { None }),
                _ => uv(r),
            }
        }
        _ => unreachable!(),
    })
}

fn expect_bp(t: &BpModel, qu: &Query) -> Expect {
    use Op::*;
    let n = t.par.len();
    let a = qu.a as usize;
    let oo = |x: Option<u32>| Ans::O(x.map(u64::from));
    let is = Expect::Is;
    // results on unbalanced expressions are unspecified, except for the raw searches
    let spec_always = matches!(qu.op, Fwd | Bwd | Excess | Size | NodeIndex | NodeHandle | Dfs | IsEmpty);
    if !t.balanced && !spec_always {
        return Expect::Any;
    }
    if a >= n && matches!(qu.op, Close | Open | Enclose) {
        return is(Ans::O(None));
    }
    let level = |x: usize| t.exc[x];
    is(match qu.op {
        Fwd => Ans::O(t.fwd(a, qu.b as i64)),
        Bwd => Ans::O(t.bwd(a, qu.b as i64)),
        Close => oo(t.close[a]),
        Open => oo(t.open[a]),
        Enclose => {
            let node = if t.par[a] { a } else { t.open[a].unwrap() as usize };
            oo(t.parent[node])
        }
        Excess => Ans::I(t.exc[a]),
        Root => Ans::O((n > 0).then_some(0)),
        Parent => oo(t.parent[a]),
        FirstChild => Ans::O((a + 1 < n && t.par[a + 1]).then(|| a as u64 + 1)),
        NextSib => {
            let c = t.close[a].unwrap() as usize;
            Ans::O((c + 1 < n && t.par[c + 1]).then(|| c as u64 + 1))
        }
        PrevSib => {
            if a > 0 && !t.par[a - 1] {
                oo(t.open[a - 1])
            } else {
                Ans::O(None)
            }
        }
        LastChild => {
            let c = t.close[a].unwrap() as usize;
            if c == a + 1 {
                Ans::O(None)
            } else {
                oo(t.open[c - 1])
            }
        }
        NodeIndex => Ans::U(t.nodes.partition_point(|x| (*x as usize) < a) as u64),
        NodeHandle => Ans::U(u64::from(t.nodes[a])),
        IsLeaf => Ans::B(t.close[a].unwrap() as usize == a + 1),
        Depth => Ans::U(t.exc[a] as u64 - 1),
        Size => Ans::U(t.nodes.len() as u64),
        IsEmpty => Ans::B(n == 0),
        IsAnc => {
            let b = qu.b as usize;
            Ans::OB(Some(a <= b && b < t.close[a].unwrap() as usize))
        }
        LevelAnc => {
            let mut x = Some(a as u32);
            let mut left = qu.b;
            while left > 0 {
                match x {
                    Some(v) => x = t.parent[v as usize],
                    None => break,
                }
                left -= 1;
            }
            oo(x)
        }
        LevelNext => oo(t.nodes.iter().copied().filter(|x| *x as usize > a).find(|x| level(*x as usize) == level(a))),
        LevelPrev => oo(t.nodes.iter().rev().copied().filter(|x| (*x as usize) < a).find(|x| level(*x as usize) == level(a))),
        LevelLeft => oo(t.nodes.iter().copied().find(|x| level(*x as usize) == qu.a as i64 + 1)),
        LevelRight => oo(t.nodes.iter().rev().copied().find(|x| level(*x as usize) == qu.a as i64 + 1)),
        Subtree => Ans::O(Some((t.close[a].unwrap() as u64 - a as u64 + 1) / 2)),
        Dfs => Ans::L(t.nodes.iter().map(|x| u64::from(*x)).collect()),
        DfsPost => Ans::L((0..n).filter(|i| !t.par[*i]).map(|i| u64::from(t.open[i].unwrap())).collect()),
        SubIter => {
            let c = t.close[a].unwrap() as usize;
            Ans::L((a..c).filter(|i| t.par[*i]).map(|i| i as u64).collect())
        }
        SubPost => {
            let c = t.close[a].unwrap() as usize;
            Ans::L((a..=c).filter(|i| !t.par[*i]).map(|i| u64::from(t.open[i].unwrap())).collect())
        }
        Children | RevChildren => {
            let mut v = vec![];
            let mut x = a + 1;
            while t.par[x] {
                v.push(x as u64);
                x = t.close[x].unwrap() as usize + 1;
            }
            if qu.op == RevChildren {
                v.reverse();
            }
            Ans::L(v)
        }
        _ => unreachable!(),
    })
}

/// judge an answer; `Some(reason)` if it is wrong
pub fn judge(m: &Model, qu: &Query, got: &Ans) -> Option<String> {
    match expect(m, qu) {
        Expect::Any => match got {
            Ans::Panic(p) => Some(format!("panicked: {p}")),
            _ => None,
        },
        Expect::Is(e) => (e != *got).then(|| format!("got {} want {}", short(got), short(&e))),
        Expect::MinPos(lo, hi) => {
            let Model::Nums(v) = m else { unreachable!() };
            let min = v[lo as usize..=hi as usize].iter().min().unwrap();
            match got {
                Ans::U(p) if *p >= lo && *p <= hi && v[*p as usize] == *min => None,
                g => Some(format!("got {} want a position in {lo}..={hi} holding {min}", short(g))),
            }
        }
    }
}

pub fn short(a: &Ans) -> String {
    let s = format!("{a:?}");
    if s.len() > 300 {
        format!("{}...({} chars)", &s[..300], s.len())
    } else {
        s
    }
}

pub fn class_of(kind: Kind, qu: &Query, got: &Ans) -> String {
    format!("{kind:?}.{:?}.{}", qu.op, if matches!(got, Ans::Panic(_)) { "panic" } else { "wrong" })
}
