//! P13: nodes with different builds replicate a log of operations over an unreliable network.

use super::shared_struct::draw_scale;
use crate::ch::Ch;
use crate::node::{self, Edit, Req, Resp};
use crate::objs::*;
use crate::sim::*;
use std::collections::BTreeMap;
use std::rc::Rc;

const BUILDS: [&str; 4] = ["portable-release", "full-release", "portable-checked", "full-checked"];

struct Cell {
    kind: Kind,
    k: u16,
    model: Model,
    what: String,
}
/// the reference state after a log prefix
type World = BTreeMap<u32, Rc<Cell>>;

#[derive(Clone, Debug)]
enum Ask {
    Q(u32, Query),
    It(u32, u8, u64, u64),
    Eq(u32, u32),
}

/// (object, kind, parameter, json, bytes)
type Snap = Rc<Vec<(u32, Kind, u16, bool, Vec<u8>)>>;

#[derive(Clone)]
enum Body {
    /// apply log entry
    Apply(usize),
    /// answer if the replica is exactly at this log position
    Ask(usize, usize),
    /// the state at a log position, taken by some node
    State(usize, Snap, usize),
    /// please send your state to a peer
    Pull(usize),
}
#[derive(Clone)]
struct Msg {
    to: usize,
    body: Body,
}

struct Node {
    build: usize,
    id: u32,
    applied: usize,
    up: bool,
    /// durable: own snapshot at a log position
    disk: Option<(usize, Snap)>,
}

struct Net {
    nodes: Vec<Node>,
    wire: Vec<Msg>,
    log: Vec<Req>,
    worlds: Vec<World>,
    asks: Vec<(usize, Ask)>,
    /// answers by ask and node
    answers: Vec<Vec<Option<Resp>>>,
    next_id: u32,
}

fn bits_of(m: &Model) -> &[bool] {
    match m {
        Model::Bits(b) => &b.bits,
        Model::Bp(b) => &b.par,
        _ => &[],
    }
}

fn rpc(n: &Node, r: &Req) -> Resp {
    phase(&format!("node.{}", BUILDS[n.build]));
    node::call(n.build, n.id, r)
}

impl Net {
    fn world(&self) -> &World {
        self.worlds.last().unwrap()
    }

    /// a new operation of the client
    fn operate(&mut self, ch: &mut Ch) {
        let mut w = self.world().clone();
        let ids: Vec<u32> = w.keys().copied().collect();
        let vecs: Vec<u32> = w.iter().filter(|x| x.1.kind == Kind::Bits).map(|x| *x.0).collect();
        let req = match ch.weighted(&[5, if vecs.is_empty() { 0 } else { 8 }, if ids.is_empty() { 0 } else { 4 }, if ids.is_empty() { 0 } else { 1 }, if ids.len() > 2 { 2 } else { 0 }]) {
            0 => {
                let kind = ch.pick(&[Kind::Rs, Kind::Bits, Kind::Bp, Kind::Wm, Kind::Ef, Kind::Sparse, Kind::Fast, Kind::Bin, Kind::Wide]);
                let sc = draw_scale(ch).min(140_000);
                let spec = draw_any(ch, kind, sc, 150, 5);
                let c = Cell { kind, k: spec.k, model: build_model(&spec), what: format!("{spec:?}") };
                self.next_id += 1;
                w.insert(self.next_id, Rc::new(c));
                Req::Build(self.next_id, spec)
            }
            1 => {
                let i = ch.pick(&vecs);
                let old = w[&i].clone();
                let mut m = bits_of(&old.model).to_vec();
                let n = m.len();
                let e = match ch.usz(9) {
                    0 => {
                        let b = ch.chance(1, 2);
                        m.push(b);
                        Edit::Append(b)
                    }
                    1 => {
                        let x = ch.word();
                        let k = ch.range(1, 64);
                        m.extend((0..k).map(|j| (x >> j) & 1 == 1));
                        Edit::AppendBits(x, k as u32)
                    }
                    2 => {
                        let x = ch.word();
                        m.extend((0..64).map(|j| (x >> j) & 1 == 1));
                        Edit::AppendWord(x)
                    }
                    3 => {
                        let k = ch.pick(&[1usize, 3, 63, 64, 65, 200]).min(n);
                        m.truncate(n - k);
                        Edit::DropLast(k as u64)
                    }
                    4 if n > 0 => {
                        let p = inside(ch, n as u64);
                        let b = ch.chance(1, 2);
                        m[p as usize] = b;
                        Edit::Set(p, b)
                    }
                    5 if n > 0 => {
                        let p = inside(ch, n as u64);
                        m[p as usize] = !m[p as usize];
                        Edit::Flip(p)
                    }
                    6 => {
                        let j = ch.pick(&vecs);
                        let add = bits_of(&w[&j].model).to_vec();
                        if m.len() + add.len() > 300_000 {
                            return;
                        }
                        m.extend(add);
                        Edit::Extend(j)
                    }
                    7 if n > 0 => {
                        let p = inside(ch, n as u64) as usize;
                        let left = ch.chance(1, 2);
                        let r = m.split_off(p);
                        if !left {
                            m = r;
                        }
                        Edit::Split(p as u64, left)
                    }
                    _ => {
                        let same: Vec<u32> = vecs.iter().copied().filter(|j| bits_of(&w[j].model).len() == n).collect();
                        let j = ch.pick(&same);
                        let k = ch.usz(3) as u8;
                        let o = bits_of(&w[&j].model);
                        for (a, b) in m.iter_mut().zip(o) {
                            *a = match k {
                                0 => *a & *b,
                                1 => *a | *b,
                                _ => *a ^ *b,
                            };
                        }
                        Edit::Mask(j, k)
                    }
                };
                let what = format!("{} then {e:?}", old.what);
                w.insert(i, Rc::new(Cell { kind: Kind::Bits, k: 0, model: Model::Bits(BitsModel::new(m)), what }));
                Req::Edit(i, e)
            }
            2 => {
                let i = ch.pick(&ids);
                let old = w[&i].clone();
                let (to, k) = match old.kind {
                    Kind::Bits => (ch.pick(&[Kind::Rs, Kind::Sparse, Kind::Bp]), ch.below(BP_BLOCKS.len() as u64) as u16),
                    Kind::Rs | Kind::Bp => (Kind::Bits, 0),
                    _ => return,
                };
                let b = bits_of(&old.model).to_vec();
                if to == Kind::Bp && b.len() > 40_000 {
                    return;
                }
                let model = if to == Kind::Bp { Model::Bp(BpModel::new(b)) } else { Model::Bits(BitsModel::new(b)) };
                self.next_id += 1;
                w.insert(self.next_id, Rc::new(Cell { kind: to, k, model, what: format!("{} converted", old.what) }));
                Req::Convert(i, self.next_id, to, k)
            }
            3 => {
                let i = ch.pick(&ids);
                self.next_id += 1;
                let c = w[&i].clone();
                w.insert(self.next_id, c);
                Req::Clone(i, self.next_id)
            }
            _ => {
                let i = ch.pick(&ids);
                w.remove(&i);
                Req::Drop(i)
            }
        };
        log(|| format!("op {}: {req:?}", self.log.len()));
        ev("op", self.log.len() as u64);
        self.log.push(req);
        self.worlds.push(w);
        for n in 0..self.nodes.len() {
            let m = Msg { to: n, body: Body::Apply(self.log.len() - 1) };
            self.wire.push(m);
        }
    }

    fn ask(&mut self, ch: &mut Ch) {
        let w = self.world();
        if w.is_empty() {
            return;
        }
        let ids: Vec<u32> = w.keys().copied().collect();
        let k = ch.range(1, 12);
        let mut new = vec![];
        for _ in 0..k {
            let i = ch.pick(&ids);
            let c = &w[&i];
            let wide = c.k > 64;
            let ways = node::iter_ways(c.kind, wide);
            new.push(match ch.weighted(&[12, if ways > 0 { 3 } else { 0 }, 1]) {
                0 => Ask::Q(i, draw_query(ch, c.kind, &c.model)),
                1 => {
                    let way = ch.below(ways) as u8;
                    let n = elements(c, way).len() as u64;
                    let skip = if ch.chance(1, 2) { ch.below(n + 2) } else { 0 };
                    let back = if node::two_ended(c.kind, way) && ch.chance(1, 2) { ch.below(n + 2) } else { 0 };
                    Ask::It(i, way, skip, back)
                }
                _ => {
                    let same: Vec<u32> = ids.iter().copied().filter(|j| w[j].kind == c.kind).collect();
                    if !matches!(c.kind, Kind::Bits | Kind::Rs) {
                        continue;
                    }
                    Ask::Eq(i, ch.pick(&same))
                }
            });
        }
        for a in new {
            self.asks.push((self.log.len(), a));
            self.answers.push(vec![None; self.nodes.len()]);
            for n in 0..self.nodes.len() {
                let m = Msg { to: n, body: Body::Ask(self.log.len(), self.asks.len() - 1) };
                self.wire.push(m);
            }
        }
    }

    fn snapshot(&self, ch: &mut Ch, n: usize) -> Option<Snap> {
        let nd = &self.nodes[n];
        let w = &self.worlds[nd.applied];
        let mut v = vec![];
        for (i, c) in w {
            let json = model_len(&c.model) < 1500 && ch.chance(1, 3);
            match rpc(nd, &Req::Snapshot(*i, json)) {
                Resp::Bytes(b) => v.push((*i, c.kind, c.k, json, b)),
                r => fail("node.snapshot", &format!("{} could not snapshot {}: {r:?}", BUILDS[nd.build], c.what)),
            }
        }
        Some(Rc::new(v))
    }

    fn install(&mut self, n: usize, at: usize, s: &Snap, from: usize) {
        let nd = &self.nodes[n];
        rpc(nd, &Req::Reset);
        for (i, kind, k, json, b) in s.iter() {
            match rpc(nd, &Req::Restore(*i, *kind, *k, *json, b.clone())) {
                Resp::Done => {}
                r => fail(
                    "node.restore",
                    &format!("{} did not accept a snapshot by {} of {}: {r:?}", BUILDS[nd.build], BUILDS[from], self.worlds[at][i].what),
                ),
            }
        }
        count(if nd.build == from { "restores-same-build" } else { "restores-other-build" });
        self.nodes[n].applied = at;
    }

    fn apply(&mut self, n: usize, upto: usize) {
        while self.nodes[n].applied < upto {
            let at = self.nodes[n].applied;
            let r = rpc(&self.nodes[n], &self.log[at]);
            if r != Resp::Done {
                fail(
                    &format!("node.apply.{}", opname(&self.log[at])),
                    &format!("{} failed at {:?}: {r:?}", BUILDS[self.nodes[n].build], self.log[at]),
                );
            }
            self.nodes[n].applied += 1;
        }
    }

    fn deliver(&mut self, ch: &mut Ch, m: Msg) {
        let n = m.to;
        if !self.nodes[n].up {
            count("fault.lost-at-down-node");
            return;
        }
        match m.body {
            Body::Apply(i) => {
                // in order, each once; a gap waits for retransmission
                if self.nodes[n].applied == i {
                    self.apply(n, i + 1);
                }
            }
            Body::Ask(at, a) => {
                if self.nodes[n].applied != at {
                    return;
                }
                self.answer(n, at, a);
            }
            Body::State(at, s, from) => {
                if self.nodes[n].applied < at {
                    log(|| format!("node {n} installs the state at {at} made by {}", BUILDS[from]));
                    self.install(n, at, &s, from);
                }
            }
            Body::Pull(to) => {
                if let Some(s) = self.snapshot(ch, n) {
                    let m = Msg { to, body: Body::State(self.nodes[n].applied, s, self.nodes[n].build) };
                    self.wire.push(m);
                }
            }
        }
    }

    fn answer(&mut self, n: usize, at: usize, a: usize) {
        let nd = &self.nodes[n];
        let ask = self.asks[a].1.clone();
        let r = match &ask {
            Ask::Q(i, q) => rpc(nd, &Req::Query(*i, q.clone())),
            Ask::It(i, w, s, b) => rpc(nd, &Req::Iter(*i, *w, *s, *b)),
            Ask::Eq(i, j) => rpc(nd, &Req::Eq(*i, *j)),
        };
        count("node-answers");
        let who = BUILDS[nd.build];
        let w = &self.worlds[at];
        let mut free = false;
        match (&ask, &r) {
            (Ask::Q(i, q), Resp::Ans(x)) => {
                let c = &w[i];
                free = matches!(expect(&c.model, q), Expect::Any);
                if let Some(why) = judge(&c.model, q, x) {
                    fail(&class_of(c.kind, q, x), &format!("{who}: {q:?} on {}: {why}", c.what));
                }
            }
            (Ask::It(i, way, skip, back), x) => {
                let c = &w[i];
                let all = elements(c, *way);
                let (lo, hi) = ((*skip).min(all.len() as u64) as usize, all.len().saturating_sub(*back as usize));
                // the front is skipped first
                let want: Vec<u128> = if hi > lo { all[lo..hi.min(lo + 64)].to_vec() } else { vec![] };
                if *x != Resp::List(want) {
                    fail(&format!("node.iterate.{:?}", c.kind), &format!("{who}: iterator {way} skipping {skip}/{back} of {}: {x:?}", c.what));
                }
            }
            (Ask::Eq(i, j), x) => {
                let want = bits_of(&w[i].model) == bits_of(&w[j].model);
                if *x != Resp::Ans(Ans::B(want)) {
                    fail("node.equality", &format!("{who}: comparing {} and {}: {x:?}, want {want}", w[i].what, w[j].what));
                }
            }
            (x, y) => fail("node.answer", &format!("{who}: {x:?} gave {y:?}")),
        }
        // all replicas agree
        for (m, old) in self.answers[a].iter().enumerate() {
            if let Some(o) = old {
                nontrivial();
                if !free && *o != r {
                    fail(
                        "node.disagree",
                        &format!("{who} answers {r:?} where {} answers {o:?} to {ask:?}", BUILDS[self.nodes[m].build]),
                    );
                }
            }
        }
        self.answers[a][n] = Some(r);
    }
}

fn opname(r: &Req) -> String {
    format!("{r:?}").split('(').next().unwrap_or("op").to_string()
}

fn model_len(m: &Model) -> usize {
    match m {
        Model::Bits(b) => b.bits.len(),
        Model::Bp(b) => b.par.len(),
        Model::Mono(v) | Model::Nums(v) | Model::Pos { ones: v, .. } => v.len(),
        Model::Wm { v, .. } => v.len() * 16,
    }
}

/// what an iterator of a structure yields
fn elements(c: &Cell, way: u8) -> Vec<u128> {
    let f = |v: &[u32]| v.iter().map(|x| u128::from(*x)).collect::<Vec<u128>>();
    match (&c.model, c.kind) {
        (Model::Bits(b), Kind::Rs) => match way {
            0 => b.bits.iter().map(|x| u128::from(*x)).collect(),
            1 | 3 | 5 => f(&b.zeros),
            _ => f(&b.ones),
        },
        (Model::Bits(b), Kind::Sparse) => f(&b.ones),
        (Model::Bits(b), _) => b.bits.iter().map(|x| u128::from(*x)).collect(),
        (Model::Mono(v) | Model::Nums(v) | Model::Pos { ones: v, .. }, _) => v.iter().map(|x| u128::from(*x)).collect(),
        (Model::Wm { v, sorted, .. }, _) => if way & 1 == 0 { v.clone() } else { sorted.clone() },
        (Model::Bp(b), _) => f(&b.nodes),
    }
}

pub fn run(s: &mut Sim) {
    let ch = &mut s.ch;
    if node::libs().len() != 4 {
        inconclusive("the node builds are not loaded");
    }
    let n = ch.range(2, 5) as usize;
    let mut nodes = vec![];
    for i in 0..n {
        // the first nodes are of different builds
        let build = if i < 2 { [0, 1][i] } else { ch.usz(4) };
        nodes.push(Node { build, id: i as u32, applied: 0, up: true, disk: None });
    }
    let mut net = Net { nodes, wire: vec![], log: vec![], worlds: vec![World::new()], asks: vec![], answers: vec![], next_id: 0 };
    log(|| format!("nodes: {:?}", net.nodes.iter().map(|n| BUILDS[n.build]).collect::<Vec<_>>()));
    let (loss, dup) = (ch.pick(&[0u64, 30, 150]), ch.pick(&[0u64, 30, 150]));
    let rounds = ch.range(3, 16);
    for _ in 0..rounds {
        match ch.weighted(&[6, 6, 3, 3, 3]) {
            0 => net.operate(ch),
            1 => net.ask(ch),
            2 => {
                // crash or restart
                let i = ch.usz(n);
                if net.nodes[i].up {
                    log(|| format!("node {i} crashes"));
                    rpc(&net.nodes[i], &Req::Reset);
                    net.nodes[i].up = false;
                    net.nodes[i].applied = 0;
                    count("fault.crash");
                } else {
                    net.nodes[i].up = true;
                    log(|| format!("node {i} restarts"));
                    if let Some((at, s)) = net.nodes[i].disk.clone() {
                        let b = net.nodes[i].build;
                        net.install(i, at, &s, b);
                    }
                    count("restarts");
                }
                ev("crash", i as u64);
            }
            3 => {
                // durable snapshot
                let i = ch.usz(n);
                if net.nodes[i].up {
                    log(|| format!("node {i} saves its state at {}", net.nodes[i].applied));
                    if let Some(s) = net.snapshot(ch, i) {
                        net.nodes[i].disk = Some((net.nodes[i].applied, s));
                    }
                }
            }
            _ => {
                let (i, j) = (ch.usz(n), ch.usz(n));
                net.wire.push(Msg { to: i, body: Body::Pull(j) });
            }
        }
        // the network moves some messages, in any order
        let k = ch.usz(net.wire.len() + 1);
        for _ in 0..k {
            if net.wire.is_empty() {
                break;
            }
            // mostly near the front, sometimes anywhere
            let i = if ch.chance(1, 3) { ch.usz(net.wire.len()) } else { 0 };
            if i > 0 {
                count("fault.reordered");
            }
            let m = net.wire.remove(i);
            if ch.below(1000) < loss {
                count("fault.message-lost");
                continue;
            }
            if ch.below(1000) < dup {
                count("fault.message-duplicated");
                net.wire.push(m.clone());
            }
            ev("deliver", m.to as u64);
            net.deliver(ch, m);
        }
        // retransmission to nodes that lag
        for i in 0..n {
            if net.nodes[i].up && net.nodes[i].applied < net.log.len() && ch.chance(1, 2) {
                let m = Msg { to: i, body: Body::Apply(net.nodes[i].applied) };
                net.wire.push(m);
            }
        }
    }
    // faults stop: everybody comes back, catches up by log or by a peer's state, and answers the same
    log(|| "faults stop".into());
    net.wire.clear();
    for i in 0..n {
        if !net.nodes[i].up {
            net.nodes[i].up = true;
            if let Some((at, s)) = net.nodes[i].disk.clone() {
                let b = net.nodes[i].build;
                net.install(i, at, &s, b);
            }
        }
    }
    let best = (0..n).max_by_key(|i| net.nodes[*i].applied).unwrap_or(0);
    let end = net.log.len();
    net.apply(best, end);
    for i in 0..n {
        if net.nodes[i].applied < end {
            if ch.chance(1, 2) {
                if let Some(s) = net.snapshot(ch, best) {
                    let b = net.nodes[best].build;
                    net.install(i, end, &s, b);
                }
            } else {
                net.apply(i, end);
            }
        }
    }
    let from = net.asks.len();
    for _ in 0..3 {
        net.ask(ch);
    }
    net.wire.clear();
    for a in from..net.asks.len() {
        for i in 0..n {
            net.answer(i, end, a);
        }
    }
    ev("end", end as u64);
}
