//! P16: queries finish within a documented number of steps, also while other readers are stalled inside theirs.
//! Steps are machine instructions, counted by the scheduler's trap handler. Answers are not judged here.

use crate::ch::{Ch, Rng};
use crate::data::*;
use crate::objs::*;
use crate::props::shared_struct::{draw_scale, make_slot_of, Force};
use crate::sched;
use crate::sim::*;
use vers_vecs::*;

/// operations whose cost is proportional to what they return, or without a documented bound
fn linear(kind: Kind, op: Op) -> bool {
    use Op::*;
    matches!(op, CountOnes | CountZeros | LimbSum | RmqData | WBits | Dfs | DfsPost | SubIter | SubPost | Children | RevChildren)
        || kind == Kind::Ef && op == EfRank // steps over equal elements one by one; no bound is documented
}

fn size(m: &Model) -> u64 {
    match m {
        Model::Bits(b) => b.bits.len() as u64,
        Model::Mono(v) | Model::Nums(v) => v.len() as u64,
        Model::Pos { ones, .. } => ones.len() as u64,
        Model::Wm { v, .. } => v.len() as u64,
        Model::Bp(t) => t.par.len() as u64,
    }
}

/// Instructions an operation may take: several times what it takes in the most expensive build, growing with the
/// structure only as documented (constant, logarithmic, or per bit of a symbol).
fn limit(kind: Kind, op: Op, n: u64, k: u16) -> u64 {
    use Op::*;
    let log = u64::from(64 - n.leading_zeros());
    match (kind, op) {
        (_, Len | IsEmpty | Root | Size) => 1_500,
        (Kind::Bits, _) => 1_500,
        (Kind::Rs, Rank0 | Rank1) => 3_000,
        (Kind::Rs, Select0 | Select1) => 4_500 + 60 * log,
        (Kind::Rs, _) => 1_500,
        (Kind::Ef | Kind::Sparse | Kind::Wide, _) => 9_000 + 250 * log,
        (Kind::Bin, _) => 2_000,
        (Kind::Fast, _) => 10_000,
        (Kind::Wm, _) => 5_000 + u64::from(k) * 8_000,
        (Kind::Bp, _) => 8_000 + 100 * BP_BLOCKS[k as usize] as u64 + 1_500 * log,
    }
}

struct Subject {
    kind: Kind,
    obj: Box<Obj>,
    n: u64,
    k: u16,
    what: String,
    /// the values or bits it was built from, as far as drawing queries needs them
    vals: Vec<u64>,
    par: Vec<bool>,
    ones: u64,
}

/// structures far larger than a reference model could follow, in the shapes that are worst for each search
fn huge(ch: &mut Ch) -> Subject {
    let kind = ch.pick(&[Kind::Rs, Kind::Ef, Kind::Bp, Kind::Fast, Kind::Rs, Kind::Bin, Kind::Wm, Kind::Wide]);
    let shape = ch.below(6);
    let lg = |ch: &mut Ch, lo: u32, hi: u32| {
        let e = ch.range(u64::from(lo), u64::from(hi));
        (1u64 << e) + ch.below(1 << e)
    };
    let seed = ch.word();
    let mut r = Rng::new(seed);
    let mut s = Subject { kind, obj: Box::new(Obj::Bits(BitVec::new())), n: 0, k: 0, what: String::new(), vals: vec![], par: vec![], ones: 0 };
    match kind {
        Kind::Rs => {
            let words = lg(ch, 14, 19) as usize;
            let gap = 1usize << ch.range(3, 14);
            let mut w: Vec<u64> = match shape {
                0 => (0..words).map(|_| r.next()).collect(),
                1 => (0..words).map(|i| if i % gap == 0 { 1u64 << (r.next() & 63) } else { 0 }).collect(),
                2 => (0..words).map(|i| if i % gap == 0 { !(1u64 << (r.next() & 63)) } else { !0 }).collect(),
                3 => (0..words).map(|i| if i < words / 2 { 0 } else { !0 }).collect(),
                4 => (0..words).map(|i| if i + 3 > words { r.next() | 1 } else { 0 }).collect(),
                _ => (0..words).map(|i| if (i / gap) % 2 == 0 { 0 } else { r.next() }).collect(),
            };
            w[0] |= 1;
            s.n = words as u64 * 64;
            s.ones = w.iter().map(|x| u64::from(x.count_ones())).sum();
            *s.obj = Obj::Rs(RsVec::from_bit_vec(BitVec::from_vec(w)));
        }
        Kind::Ef | Kind::Wide => {
            let n = lg(ch, 12, 20) as usize;
            let mut x = 0u64;
            let wide = kind == Kind::Wide;
            s.vals = (0..n)
                .map(|i| {
                    let step = match shape {
                        // dense with very few far outliers: the documented worst case
                        0 => if i + 2 >= n { 1 << 58 } else { 1 },
                        1 => r.below(1 << 20),
                        2 => if i == n / 2 { 1 << 60 } else { r.below(3) },
                        3 => if i % 1000 == 0 { 1 << 40 } else { 1 },
                        4 => u64::from(i + 2 >= n) << 50,
                        _ => if i == 1 { 1 << 61 } else { r.below(2) },
                    };
                    x += if wide { step.max(1) } else { step };
                    x
                })
                .collect();
            s.n = n as u64;
            *s.obj = if wide { Obj::Sparse(SparseRSVec::new(&s.vals, u64::MAX)) } else { Obj::Ef(EliasFanoVec::from_slice(&s.vals)) };
        }
        Kind::Fast | Kind::Bin => {
            let n = if kind == Kind::Bin { lg(ch, 10, 15) } else { lg(ch, 12, 20) } as usize;
            let v: Vec<u64> = match shape {
                0 => (0..n as u64).collect(),
                1 => (0..n as u64).rev().collect(),
                2 => vec![7; n],
                _ => (0..n).map(|_| r.below(1 << 30)).collect(),
            };
            s.n = n as u64;
            *s.obj = if kind == Kind::Bin { Obj::Bin(BinaryRmq::from_vec(v)) } else { Obj::Fast(FastRmq::from_vec(v)) };
        }
        Kind::Wm => {
            let n = lg(ch, 12, 17) as usize;
            s.k = ch.range(1, 8) as u16;
            let m = (1u64 << s.k) - 1;
            let v: Vec<u64> = match shape {
                0 => vec![m; n],
                1 => (0..n as u64).map(|i| if i % 5000 == 0 { m } else { 0 }).collect(),
                _ => (0..n).map(|_| r.next() & m).collect(),
            };
            s.n = n as u64;
            *s.obj = Obj::Wm(WaveletMatrix::from_slice(&v, s.k));
            s.vals = v;
        }
        _ => {
            let d = DataSpec { pat: shape as u8, len: lg(ch, 13, 21) as usize, seed, p1: ch.below(256), p2: 0 };
            s.k = ch.below(BP_BLOCKS.len() as u64) as u16;
            s.par = gen_paren(&d);
            s.n = s.par.len() as u64;
            *s.obj = Obj::Bp(BpAny::build(s.k, bv_of(&s.par)));
        }
    }
    count("giant-structures");
    s.what = format!("{kind:?} of {} elements, shape {shape}, k {}", s.n, s.k);
    s
}

fn huge_query(ch: &mut Ch, s: &Subject) -> Query {
    use Op::*;
    let z = Query { op: Len, a: 0, b: 0, c: 0, w: 0, wl: 0 };
    match s.kind {
        Kind::Rs => match ch.below(4) {
            0 => Query { op: Select1, a: inside(ch, s.ones), ..z },
            1 => Query { op: Select0, a: inside(ch, (s.n - s.ones).max(1)), ..z },
            2 => Query { op: Rank1, a: inside(ch, s.n), ..z },
            _ => Query { op: Rank0, a: inside(ch, s.n), ..z },
        },
        Kind::Ef => {
            let i = inside(ch, s.n);
            let v = s.vals[i as usize].saturating_add(ch.below(3)).saturating_sub(1).clamp(s.vals[0], s.vals[s.vals.len() - 1]);
            match ch.below(4) {
                0 => Query { op: EfPred, a: v, ..z },
                1 => Query { op: EfSucc, a: v, ..z },
                2 => Query { op: EfGet, a: i, ..z },
                _ => Query { op: EfDelta, a: i, ..z },
            }
        }
        Kind::Wide => {
            let i = inside(ch, s.n);
            let v = s.vals[i as usize].saturating_add(ch.below(3)).saturating_sub(1);
            match ch.below(4) {
                0 => Query { op: Rank1, a: v, ..z },
                1 => Query { op: Rank0, a: v, ..z },
                2 => Query { op: Get, a: v, ..z },
                _ => Query { op: Select1, a: i, ..z },
            }
        }
        Kind::Fast | Kind::Bin => {
            let (a, b) = (inside(ch, s.n), inside(ch, s.n));
            Query { op: RmqMin, a: a.min(b), b: a.max(b), ..z }
        }
        Kind::Wm => {
            let (a, b) = (inside(ch, s.n), inside(ch, s.n));
            let (a, b) = (a.min(b), a.max(b) + 1);
            let w = u128::from(s.vals[ch.usz(s.vals.len())]);
            let op = ch.pick(&[WGetU, WRankRangeU, WSelOffU, WQuantU, WMinU, WMaxU, WMedU, WPredU, WSuccU, WSortedU, WGet, WSel, WRank]);
            let b = if op == WSelOffU { ch.below(20) } else { b };
            Query { op, a, b, c: ch.below((b - a.min(b)).max(1)), w, wl: u32::from(s.k) }
        }
        _ => {
            let mut i = ch.usz(s.par.len());
            while !s.par[i] {
                i = if i == 0 { 0 } else { i - 1 };
                if i == 0 {
                    break;
                }
            }
            let op = ch.pick(&[Fwd, Bwd, Close, Enclose, Excess, Parent, FirstChild, NextSib, PrevSib, LastChild, NodeIndex, NodeHandle, IsLeaf, Depth,
                LevelAnc, LevelNext, LevelPrev, LevelLeft, LevelRight, Subtree]);
            let a = match op {
                NodeHandle => ch.below(s.n / 2),
                LevelLeft | LevelRight => ch.pick(&[0, 1, 2, 5, 100, 5000]),
                _ => i as u64,
            };
            let b = match op {
                Fwd | Bwd => (ch.range(0, 40) as i64 - 20) as u64,
                LevelAnc => ch.pick(&[0, 1, 2, 50, 3000]),
                _ => 0,
            };
            Query { op, a, b, ..z }
        }
    }
}

pub fn run(s: &mut Sim) {
    let ch = &mut s.ch;
    phase("build");
    let big = ch.chance(1, 5);
    let (sub, model) = if big {
        let s = must("build", || "building".into(), || huge(ch));
        ev("build", s.n);
        (s, None)
    } else {
        let kinds = [Kind::Rs, Kind::Ef, Kind::Fast, Kind::Wm, Kind::Bp, Kind::Sparse, Kind::Bin, Kind::Wide, Kind::Bits];
        let kind = kinds[ch.weighted(&[5, 5, 3, 4, 5, 2, 2, 2, 1])];
        let sc = draw_scale(ch);
        let spec = draw_spec(ch, kind, sc);
        let slot = make_slot_of(spec);
        let n = size(&slot.model);
        (
            Subject { kind, obj: slot.obj, n, k: slot.spec.k, what: format!("{:?}", slot.spec), vals: vec![], par: vec![], ones: 0 },
            Some(slot.model),
        )
    };
    let (kind, n) = (sub.kind, sub.n);
    let nt = [1usize, 2, 3, 4][ch.weighted(&[3, 4, 3, 2])];
    let per = if nt == 1 { 40 } else { 8 };
    let mut scripts: Vec<Vec<(Query, u64, String)>> = vec![];
    for _ in 0..nt {
        let k = ch.range(1, per);
        let mut v = vec![];
        for _ in 0..k {
            let q = match &model {
                Some(m) => draw_query(ch, kind, m),
                None => huge_query(ch, &sub),
            };
            if linear(kind, q.op) {
                continue;
            }
            let l = limit(kind, q.op, n, sub.k);
            let d = format!("{kind:?}.{:?}.steps|{q:?} on {} ({n} elements) takes more than {l} machine instructions", q.op, sub.what);
            v.push((q, l, d));
        }
        scripts.push(v);
    }
    // all but one of the threads may stall for good in the middle of a query
    let mut stalls = vec![];
    for t in 0..nt {
        stalls.push(if t + 1 < nt && ch.chance(2, 3) { Some(if ch.chance(1, 3) { sched::Stall::Hot(ch.range(1, 8)) } else { sched::Stall::At(ch.range(1, 1500)) }) } else { None });
    }
    log(|| format!("{}: threads: {:?}, stalls {stalls:?}", sub.what, scripts.iter().map(|s| s.iter().map(|q| &q.0).collect::<Vec<_>>()).collect::<Vec<_>>()));
    phase(&format!("query.{kind:?}"));
    let cap = ch.range(20_000, if big { 250_000 } else { 100_000 });
    let mut used: Vec<Vec<u64>> = scripts.iter().map(|s| vec![0; s.len()]).collect();
    {
        let mut bodies: Vec<Box<dyn FnOnce() + Send + '_>> = vec![];
        for (script, out) in scripts.iter().zip(used.iter_mut()) {
            let f = Force((script, out, &*sub.obj));
            bodies.push(Box::new(move || {
                let (script, out, obj) = f.get();
                for (i, (q, l, d)) in script.iter().enumerate() {
                    let (_, n) = sched::bounded(*l, d, || exec(obj, q));
                    out[i] = n;
                    sched::point();
                }
            }));
        }
        sched::run_stalling(ch, cap, bodies, &stalls);
    }
    nontrivial();
    ev("bounded", nt as u64);
    count_n("bounded-queries", scripts.iter().map(|s| s.len() as u64).sum());
    if let Some(f) = std::env::var_os("VERSIM_STEPS") {
        use std::io::Write;
        let mut t = String::new();
        for (s, u) in scripts.iter().zip(&used) {
            for ((q, l, _), n2) in s.iter().zip(u) {
                t += &format!("{kind:?} {:?} {n} {} {n2} {l}\n", q.op, sub.k);
            }
        }
        let mut f = std::fs::OpenOptions::new().create(true).append(true).open(f).unwrap();
        f.write_all(t.as_bytes()).unwrap();
    }
}
