//! P04-P08: immutable structures shared between caller threads.

use crate::ch::Ch;
use crate::objs::*;
use crate::sched;
use crate::sim::*;

pub struct Slot {
    pub spec: Spec,
    pub obj: Box<Obj>,
    pub model: Model,
}

/// lets the simulation share a structure whatever auto traits it has; a missing Send/Sync is reported separately
pub struct Force<T>(pub T);
unsafe impl<T> Send for Force<T> {}
unsafe impl<T> Sync for Force<T> {}
impl<T> Force<T> {
    pub fn get(self) -> T {
        self.0
    }
}

pub fn kinds(prop: &str) -> &'static [Kind] {
    match prop {
        "P04" => &[Kind::Rs, Kind::Rs, Kind::Rs, Kind::Sparse, Kind::Wide],
        "P05" => &[Kind::Ef],
        "P06" => &[Kind::Fast, Kind::Bin],
        "P07" => &[Kind::Wm],
        "P08" => &[Kind::Bp],
        _ => unreachable!(),
    }
}

pub fn draw_scale(ch: &mut Ch) -> usize {
    match ch.weighted(&[6, 10, 10, 5, 1]) {
        0 => 100,
        1 => 2_000,
        2 => 20_000,
        3 => 140_000,
        _ => 700_000,
    }
}

pub fn make_slot(ch: &mut Ch, kind: Kind, scale: usize) -> Slot {
    let spec = draw_spec(ch, kind, scale);
    make_slot_of(spec)
}

pub fn make_slot_of(spec: Spec) -> Slot {
    log(|| format!("build {spec:?}"));
    phase(&format!("build.{:?}", spec.kind));
    ev("build", spec.data.len as u64);
    let obj = must(&format!("{:?}.build", spec.kind), || format!("constructing {spec:?}"), || build(&spec));
    let model = build_model(&spec);
    count(match spec.kind {
        Kind::Bits => "build.bitvec",
        Kind::Rs => "build.rsvec",
        Kind::Sparse => "build.sparse",
        Kind::Wide => "build.sparse-wide",
        Kind::Ef => "build.elias-fano",
        Kind::Bin => "build.binary-rmq",
        Kind::Fast => "build.fast-rmq",
        Kind::Wm => "build.wavelet",
        Kind::Bp => "build.bp-tree",
    });
    Slot { spec, obj: Box::new(obj), model }
}

pub fn check(spec: &Spec, obj: &Obj, model: &Model, q: &Query, how: &str) {
    let a = exec(obj, q);
    judge_or_fail(spec, model, q, &a, how);
}

pub fn judge_or_fail(spec: &Spec, model: &Model, q: &Query, a: &Ans, how: &str) {
    if let Some(why) = judge(model, q, a) {
        fail(&class_of(spec.kind, q, a), &format!("{how}: {:?} {q:?} on {spec:?}: {why}", spec.kind));
    }
}

/// contiguous windows of arguments; for small structures the whole domain
pub fn sweep(ch: &mut Ch, kind: Kind, m: &Model) -> Vec<Query> {
    use Op::*;
    let z = |op: Op, a: u64| Query { op, a, b: 0, c: 0, w: 0, wl: 0 };
    let mut v = vec![];
    let window = |ch: &mut Ch, n: u64, w: u64| -> (u64, u64) {
        if n <= w {
            (0, n + 2)
        } else {
            let g = ch.pick(&[1u64, 64, 512, 8192]);
            let s = (ch.below(n) / g * g).saturating_sub(w / 2 * u64::from(g > 1));
            (s, s + w)
        }
    };
    match m {
        Model::Bits(b) => {
            let n = b.bits.len() as u64;
            let (lo, hi) = window(ch, n, 300);
            for i in lo..hi {
                v.push(z(Get, i));
                if kind != Kind::Rs {
                    v.push(z(IsSet, i));
                }
                if kind == Kind::Bits {
                    v.push(Query { b: 13, ..z(GetBits, i) });
                    continue;
                }
                v.push(z(Rank1, i));
                v.push(z(Rank0, i));
            }
            if kind == Kind::Bits {
                return v;
            }
            let (lo, hi) = window(ch, b.ones.len() as u64, 300);
            v.extend((lo..hi).map(|i| z(Select1, i)));
            if kind == Kind::Rs {
                let (lo, hi) = window(ch, b.zeros.len() as u64, 300);
                v.extend((lo..hi).map(|i| z(Select0, i)));
            }
        }
        Model::Pos { ones, len } => {
            let (lo, hi) = window(ch, ones.len() as u64, 120);
            for i in lo..hi {
                v.push(z(Select1, i));
                if let Some(e) = ones.get(i as usize) {
                    for a in [*e, e.saturating_sub(1), e.saturating_add(1)] {
                        for op in [Rank1, Rank0, Get, IsSet] {
                            v.push(z(op, a));
                        }
                    }
                }
            }
            for a in [0, *len, len.saturating_sub(1), len.saturating_add(1), u64::MAX] {
                for op in [Rank1, Rank0, Get, IsSet] {
                    v.push(z(op, a));
                }
            }
        }
        Model::Mono(x) => {
            let n = x.len() as u64;
            let (lo, hi) = window(ch, n, 120);
            for i in lo..hi {
                v.push(z(EfGet, i));
                v.push(z(EfDelta, i));
                if i < n {
                    let e = x[i as usize];
                    for a in [e, e.saturating_sub(1), e.saturating_add(1)] {
                        v.push(z(EfPred, a));
                        v.push(z(EfSucc, a));
                        v.push(z(EfRank, a));
                    }
                }
            }
        }
        Model::Nums(x) => {
            let n = x.len() as u64;
            if n > 0 {
                if n <= 24 {
                    for i in 0..n {
                        for j in i..n {
                            v.push(Query { b: j, ..z(RmqMin, i) });
                        }
                    }
                } else {
                    let (lo, hi) = window(ch, n, 40);
                    let far = ch.below(n);
                    for i in lo..hi.min(n) {
                        v.push(Query { b: i.max(far), ..z(RmqMin, i.min(far)) });
                        v.push(Query { b: (i + 127).min(n - 1), ..z(RmqMin, i) });
                        v.push(Query { b: (i + 7).min(n - 1), ..z(RmqMin, i) });
                        v.push(Query { b: n - 1, ..z(RmqMin, i) });
                        v.push(Query { b: i, ..z(RmqMin, 0) });
                    }
                }
            }
        }
        Model::Wm { v: x, k, .. } => {
            let n = x.len() as u64;
            let wide = *k > 64;
            let (lo, hi) = window(ch, n, 40);
            let s = if n > 0 { x[ch.usz(x.len())] } else { 0 };
            for i in lo..hi {
                let y = Query { w: s, wl: u32::from(*k), ..z(WGet, i) };
                v.push(y.clone());
                v.push(Query { op: WRank, ..y.clone() });
                v.push(Query { op: WSorted, ..y.clone() });
                v.push(Query { op: WSel, b: i - lo, a: 0, ..y.clone() });
                v.push(Query { op: WQuant, a: lo.min(n), b: hi.min(n), c: i - lo, ..y.clone() });
                if !wide {
                    v.push(Query { op: WRankU, ..y.clone() });
                    v.push(Query { op: WSortedU, ..y.clone() });
                    v.push(Query { op: WSelU, b: i - lo, a: 0, ..y.clone() });
                    v.push(Query { op: WQuantU, a: lo.min(n), b: hi.min(n), c: i - lo, ..y.clone() });
                    if i < n {
                        v.push(Query { op: WPredU, a: lo.min(i), b: n, w: x[i as usize], ..y.clone() });
                        v.push(Query { op: WSuccU, a: lo.min(i), b: n, w: x[i as usize], ..y.clone() });
                    }
                }
                if i < n {
                    v.push(Query { op: WPred, a: 0, b: i + 1, w: s, ..y.clone() });
                    v.push(Query { op: WSucc, a: 0, b: i + 1, w: s, ..y });
                }
            }
        }
        Model::Bp(t) => {
            let n = t.par.len() as u64;
            let (lo, hi) = window(ch, n, 60);
            for i in lo..hi {
                for r in [-2i64, -1, 0, 1, 2] {
                    v.push(Query { b: r as u64, ..z(Fwd, i) });
                    v.push(Query { b: r as u64, ..z(Bwd, i) });
                }
                if i < n {
                    v.push(z(Excess, i));
                    if t.par[i as usize] {
                        for op in [Close, Enclose, Parent, FirstChild, NextSib, PrevSib, LastChild, NodeIndex, IsLeaf, Depth, LevelNext, LevelPrev, Subtree] {
                            v.push(z(op, i));
                        }
                        for k in 0..3 {
                            v.push(Query { b: k, ..z(LevelAnc, i) });
                        }
                    } else {
                        v.push(z(Open, i));
                    }
                }
                if i < t.nodes.len() as u64 {
                    v.push(z(NodeHandle, i));
                }
            }
        }
    }
    v
}

#[derive(Clone, Debug)]
enum Act {
    Ask(usize, Query),
    CloneAsk(usize, Query),
    BuildDrop(Spec),
}

fn concurrent(ch: &mut Ch, slots: &mut Vec<Slot>, kind_list: &[Kind], giant: bool) {
    phase("concurrent");
    let nt = ch.range(2, 4) as usize;
    let mut scripts: Vec<Vec<Act>> = vec![];
    // sometimes all threads ask about the same few things
    let mut pool: Vec<(usize, Query)> = vec![];
    for _ in 0..ch.range(1, 4) {
        let i = ch.usz(slots.len());
        pool.push((i, draw_query(ch, slots[i].spec.kind, &slots[i].model)));
    }
    for _ in 0..nt {
        let mut s = vec![];
        for _ in 0..ch.range(1, 5) {
            s.push(match ch.weighted(&[10, 6, if giant { 0 } else { 2 }, 1]) {
                0 => {
                    let i = ch.usz(slots.len());
                    Act::Ask(i, draw_query(ch, slots[i].spec.kind, &slots[i].model))
                }
                1 => {
                    let (i, q) = pool[ch.usz(pool.len())].clone();
                    Act::Ask(i, q)
                }
                2 => {
                    let i = ch.usz(slots.len());
                    Act::CloneAsk(i, draw_query(ch, slots[i].spec.kind, &slots[i].model))
                }
                _ => {
                    let kind = ch.pick(kind_list);
                    Act::BuildDrop(draw_spec(ch, kind, 100))
                }
            });
        }
        scripts.push(s);
    }
    log(|| format!("threads: {scripts:?}"));
    let cap = ch.range(600, 5000);
    let mut met: Vec<(Kind, Op)> = vec![];
    let mut answers: Vec<Vec<Option<Ans>>> = scripts.iter().map(|s| vec![None; s.len()]).collect();
    {
        let objs: Vec<&Obj> = slots.iter().map(|s| &*s.obj).collect();
        let mut bodies: Vec<Box<dyn FnOnce() + Send + '_>> = vec![];
        for (t, (script, ans)) in scripts.iter().zip(answers.iter_mut()).enumerate() {
            let f = Force((script, ans, &objs));
            bodies.push(Box::new(move || {
                let (script, ans, objs) = f.get();
                for (i, a) in script.iter().enumerate() {
                    sched::tag(t * 16 + i);
                    let r = match a {
                        Act::Ask(o, q) => sched::stepped(|| exec(objs[*o], q)),
                        Act::CloneAsk(o, q) => sched::stepped(|| {
                            let c = objs[*o].clone();
                            exec(&c, q)
                        }),
                        Act::BuildDrop(s) => {
                            let inp = make_input(s);
                            sched::stepped(|| match guard(|| construct(s, &inp)) {
                                Ok(o) => {
                                    drop(o);
                                    Ans::B(true)
                                }
                                Err(e) => Ans::Panic(format!("{e:?}")),
                            })
                        }
                    };
                    ans[i] = Some(r);
                    sched::point();
                }
            }));
        }
        let o = sched::run(ch, cap, bodies);
        if o.preemptions > 0 {
            nontrivial();
        }
        count("concurrent-phases");
        ev("concurrent", o.switches);
        for (t, s) in scripts.iter().enumerate() {
            for (i, a) in s.iter().enumerate() {
                if let (true, Act::Ask(j, q)) = (o.met >> (t * 16 + i) & 1 == 1, a) {
                    met.push((slots[*j].spec.kind, q.op));
                }
            }
        }
    }
    for (s, a) in scripts.iter().zip(&answers) {
        for (act, ans) in s.iter().zip(a) {
            match (act, ans) {
                (Act::Ask(i, q), Some(a)) => judge_or_fail(&slots[*i].spec, &slots[*i].model, q, a, "under the scheduler"),
                (Act::CloneAsk(i, q), Some(a)) => judge_or_fail(&slots[*i].spec, &slots[*i].model, q, a, "clone under the scheduler"),
                (Act::BuildDrop(sp), Some(Ans::Panic(p))) => fail(&format!("{:?}.build.panic", sp.kind), &format!("constructing {sp:?} panicked: {p}")),
                (_, None) => fail("sched.lost", "a simulated thread did not finish its script"),
                _ => {}
            }
        }
    }
    if !giant {
        pursue(ch, slots, &met);
    }
}

/// two or three threads ask about the same few things over and over, and stop at drawn instructions in the middle of it
fn duel(ch: &mut Ch, ks: &[Kind]) {
    let n = if ch.chance(1, 3) { 2 } else { 1 };
    let mut slots = vec![];
    for _ in 0..n {
        let kind = ch.pick(ks);
        let sc = ch.pick(&[2_000, 100, 20_000, 140_000]);
        slots.push(make_slot(ch, kind, sc));
    }
    let met = one_duel(ch, &slots, &[]);
    pursue(ch, &mut slots, &met);
}

/// Queries through which threads exchanged data: a query is a reader, so there is a cache, a scratch place or a lock
/// behind it. Contend for it, in structures like those and in the same ones, until the step budget of the run is used.
fn pursue(ch: &mut Ch, slots: &mut Vec<Slot>, met: &[(Kind, Op)]) {
    if met.is_empty() {
        return;
    }
    count("pursuits");
    log(|| format!("data passed between the threads in {met:?}"));
    let kind = met[0].0;
    let n = slots.len();
    for _ in 0..ch.range(10, 40) {
        if ch.chance(1, 3) {
            let sc = ch.pick(&[2_000, 100, 20_000, 140_000]);
            slots.truncate(n);
            slots.push(make_slot(ch, kind, sc));
        }
        one_duel(ch, slots, met);
    }
}

/// `wanted`: ask only such queries, if not empty
fn one_duel(ch: &mut Ch, slots: &[Slot], wanted: &[(Kind, Op)]) -> Vec<(Kind, Op)> {
    phase("duel");
    let mut pool: Vec<(usize, Query)> = vec![];
    for _ in 0..ch.range(2, 4) {
        let mut i = ch.usz(slots.len());
        if wanted.iter().all(|w| w.0 != slots[i].spec.kind) {
            i = slots.iter().position(|s| wanted.iter().any(|w| w.0 == s.spec.kind)).unwrap_or(i);
        }
        let kind = slots[i].spec.kind;
        let mut q = draw_query(ch, kind, &slots[i].model);
        let first = pool.first().map(|p| p.1.op);
        for _ in 0..if wanted.is_empty() { 40 } else { 150 } {
            let fits = match (wanted, first) {
                // mostly several arguments of one operation
                ([], Some(f)) => f == q.op,
                ([], None) => true,
                (w, _) => w.contains(&(kind, q.op)),
            };
            if fits || ch.chance(1, 60) {
                break;
            }
            q = draw_query(ch, kind, &slots[i].model);
        }
        pool.push((i, q));
    }
    let nt = if ch.chance(1, 6) { 3 } else { 2 };
    let scripts: Vec<Vec<usize>> = (0..nt).map(|_| (0..ch.range(4, 14)).map(|_| ch.usz(pool.len())).collect()).collect();
    log(|| format!("duel over {pool:?}: {scripts:?}"));
    let mut answers: Vec<Vec<Option<Ans>>> = scripts.iter().map(|s| vec![None; s.len()]).collect();
    let mut met = vec![];
    {
        let objs: Vec<&Obj> = slots.iter().map(|s| &*s.obj).collect();
        let mut bodies: Vec<Box<dyn FnOnce() + Send + '_>> = vec![];
        for (script, ans) in scripts.iter().zip(answers.iter_mut()) {
            let f = Force((script, ans, &objs, &pool));
            bodies.push(Box::new(move || {
                let (script, ans, objs, pool) = f.get();
                for (i, p) in script.iter().enumerate() {
                    let (o, q) = &pool[*p];
                    sched::tag(*p);
                    ans[i] = Some(sched::stepped(|| exec(objs[*o], q)));
                    sched::point();
                }
            }));
        }
        let o = sched::run_duel(ch, 15_000, bodies);
        if o.preemptions > 0 {
            nontrivial();
        }
        count("duels");
        ev("duel", o.switches);
        for (i, (j, q)) in pool.iter().enumerate() {
            if o.met >> i & 1 == 1 && !met.contains(&(slots[*j].spec.kind, q.op)) {
                met.push((slots[*j].spec.kind, q.op));
            }
        }
    }
    for (s, a) in scripts.iter().zip(&answers) {
        for (p, ans) in s.iter().zip(a) {
            let (i, q) = &pool[*p];
            match ans {
                Some(a) => judge_or_fail(&slots[*i].spec, &slots[*i].model, q, a, "in a duel"),
                None => fail("sched.lost", "a simulated thread did not finish its script"),
            }
        }
    }
    // whatever the threads left behind must not matter later
    for (i, q) in &pool {
        check(&slots[*i].spec, &slots[*i].obj, &slots[*i].model, q, "after a duel");
    }
    met
}

/// structures of the same size, one after the other in the same place, are asked the same thing
fn recycle(ch: &mut Ch, ks: &[Kind]) {
    phase("recycle");
    let kind = ch.pick(ks);
    let sc = ch.pick(&[200, 2_000, 20_000]);
    let first = draw_spec(ch, kind, sc);
    let n = ch.range(2, 5) as usize;
    let mut v = vec![];
    for i in 0..n {
        let mut spec = first.clone();
        if i > 0 {
            // the same length and route, other content
            let other = draw_spec(ch, kind, sc);
            if ch.chance(1, 2) {
                spec.data = crate::data::DataSpec { len: spec.data.len, ..other.data };
            } else {
                spec.data.seed = ch.word();
            }
        }
        let model = build_model(&spec);
        v.push((make_input(&spec), model, spec));
    }
    let mut q = draw_query(ch, kind, &v[0].1);
    for _ in 0..ch.range(1, 12) {
        for (inp, model, spec) in &v {
            if !fits(model, &q) {
                q = draw_query(ch, kind, model);
            }
            let o = must(&format!("{kind:?}.build"), || format!("constructing {spec:?}"), || construct(spec, inp));
            let before = exec(&o, &q);
            judge_or_fail(spec, model, &q, &before, "in a place used before");
            if ch.chance(1, 3) {
                let q2 = draw_query(ch, kind, model);
                check(spec, &o, model, &q2, "in a place used before");
                if ch.chance(1, 2) {
                    q = q2;
                }
            }
            drop(o);
        }
        let m = ch.usz(v.len());
        q = draw_query(ch, kind, &v[m].1);
    }
    log(|| format!("recycled {n} structures like {first:?}"));
    count("recycled-places");
    ev("recycle", n as u64);
    nontrivial();
}

/// is the query inside the domain of this structure (it was drawn for another of the same size)?
fn fits(m: &Model, q: &Query) -> bool {
    if format!("{:?}", q.op).ends_with("Un") {
        return false;
    }
    match m {
        Model::Bp(t) => {
            use Op::*;
            match q.op {
                Fwd | Bwd => true,
                Excess => (q.a as usize) < t.par.len(),
                NodeHandle => q.a < t.nodes.len() as u64,
                Close | Enclose | Parent | FirstChild | NextSib | PrevSib | LastChild | NodeIndex | IsLeaf | Depth | LevelNext | LevelPrev | Subtree | LevelAnc => {
                    t.par.get(q.a as usize) == Some(&true)
                }
                Open => t.par.get(q.a as usize) == Some(&false),
                _ => false,
            }
        }
        Model::Nums(x) => (q.a as usize) < x.len() && (q.b as usize) < x.len() && q.op == Op::RmqMin,
        _ => true,
    }
}

pub fn run(prop: &str, s: &mut Sim) {
    let ch = &mut s.ch;
    let ks = kinds(prop);
    for k in ks {
        if !shareable(*k) {
            fail(&format!("{k:?}.not-shareable"), &format!("{k:?} cannot be shared between threads (not Send + Sync)"));
        }
    }
    match prop {
        "P04" if ch.rare(1000) => return crate::colossal::p04(ch),
        "P05" if ch.rare(5000) => return crate::colossal::p05(ch),
        "P07" if ch.chance(1, 40) => return crate::widewm::run(ch),
        "P08" if ch.rare(20000) => return crate::colossal::p08(ch),
        _ => {}
    }
    if ch.chance(1, 25) {
        return recycle(ch, ks);
    }
    if ch.chance(1, 10) {
        return duel(ch, ks);
    }
    let giant = ch.chance(1, 60);
    let n = if giant { 0 } else { ch.range(1, 3) as usize };
    let mut slots: Vec<Slot> = vec![];
    if giant {
        let kind = ch.pick(ks);
        let spec = draw_giant(ch, kind, 1);
        slots.push(make_slot_of(spec));
    }
    for _ in 0..n {
        let kind = ch.pick(ks);
        let sc = draw_scale(ch);
        slots.push(make_slot(ch, kind, sc));
    }
    if ch.chance(1, 4) {
        concurrent(ch, &mut slots, ks, giant);
    }
    let rounds = ch.range(1, if giant { 4 } else { 10 });
    for _ in 0..rounds {
        let i = ch.usz(slots.len());
        let kind = slots[i].spec.kind;
        match ch.weighted(&[10, 6, 2, 2, 1]) {
            0 => {
                phase(&format!("query.{kind:?}"));
                let k = ch.range(1, if giant { 120 } else { 300 });
                for _ in 0..k {
                    let i = if slots.len() > 1 && ch.chance(1, 3) { ch.usz(slots.len()) } else { i };
                    let sl = &slots[i];
                    let q = draw_query(ch, sl.spec.kind, &sl.model);
                    log(|| format!("ask {i} {q:?}"));
                    check(&sl.spec, &sl.obj, &sl.model, &q, "sequential");
                }
                count_n("queries", k);
                ev("q", k);
                nontrivial();
            }
            1 => {
                phase(&format!("sweep.{kind:?}"));
                let sl = &slots[i];
                let qs = sweep(ch, kind, &sl.model);
                log(|| format!("sweep {i}: {} queries", qs.len()));
                for q in &qs {
                    check(&sl.spec, &sl.obj, &sl.model, q, "sweep");
                }
                count_n("queries", qs.len() as u64);
                ev("sweep", qs.len() as u64);
                nontrivial();
            }
            2 => {
                phase("clone");
                log(|| format!("clone {i}, drop the original"));
                let j = ch.usz(slots.len());
                let c = if j != i && ch.chance(1, 2) {
                    // copy over another structure, which may be of any size
                    let mut t = must(&format!("{kind:?}.clone"), || "clone".into(), || slots[j].obj.clone());
                    must(&format!("{kind:?}.clone_from"), || "clone_from".into(), || assign_from(&mut t, &slots[i].obj));
                    count("clone_from");
                    t
                } else {
                    must(&format!("{kind:?}.clone"), || "clone".into(), || slots[i].obj.clone())
                };
                let old = std::mem::replace(&mut slots[i].obj, c);
                let sl = &slots[i];
                for _ in 0..5 {
                    let q = draw_query(ch, kind, &sl.model);
                    check(&sl.spec, &old, &sl.model, &q, "original after clone");
                }
                drop(old);
                count("clone-then-drop-original");
            }
            3 => {
                log(|| format!("drop {i} and build another in its place"));
                let sc = draw_scale(ch);
                let kind = ch.pick(ks);
                let old = slots.remove(i);
                drop(old);
                slots.insert(i, make_slot(ch, kind, sc));
                count("drop-and-rebuild");
            }
            _ => {
                // move: objects change their addresses
                log(|| "move every structure to another address".into());
                slots.rotate_left(1);
                let moved: Vec<Slot> = slots.drain(..).map(|s| Slot { obj: Box::new(*s.obj), ..s }).collect();
                slots = moved;
                count("moves");
            }
        }
    }
}
