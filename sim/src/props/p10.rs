//! P10: tree builders fed by an unreliable event stream.

use super::shared_struct::judge_or_fail;
use crate::alloc;
use crate::ch::Ch;
use crate::data::*;
use crate::objs::*;
use crate::sim::*;

struct Link {
    /// (delivery time, sequence, builder, event)
    wire: Vec<(u64, u64, usize, bool)>,
}

struct Node {
    b: Option<Box<dyn DynBuilder>>,
    /// events the builder acknowledged
    got: Vec<bool>,
    k: u16,
}

fn deliver(ch: &mut Ch, node: &mut Node, e: bool, oom: u64) {
    // an interrupted call is retried by the caller until it succeeds
    let mut tries = 0;
    loop {
        tries += 1;
        let fault = oom > 0 && tries < 4 && ch.below(1000) < oom;
        if fault {
            alloc::arm(1, false);
        }
        let b = node.b.as_mut().unwrap();
        let r = guard(|| if e { b.enter() } else { b.leave() });
        if alloc::disarm() {
            count("fault.alloc-failure");
            nontrivial();
        }
        match r {
            Ok(()) => {
                node.got.push(e);
                return;
            }
            Err(Stop::Injected(_)) => {
                log(|| format!("event {} interrupted by a failed allocation, retried", node.got.len()));
                count("retries");
            }
            Err(e) => fail("builder.event.panic", &format!("event {} panicked: {e:?}", node.got.len())),
        }
    }
}

fn finish(ch: &mut Ch, node: &mut Node, oom: bool) {
    let n = node.got.len();
    let excess: i64 = node.got.iter().map(|b| if *b { 1i64 } else { -1 }).sum();
    phase("build");
    let mut b = node.b.take().unwrap();
    let mut attempt = 0;
    let r = loop {
        let fault = oom && attempt < 3 && ch.chance(1, 2);
        if fault {
            alloc::arm(ch.range(1, 8), false);
        }
        let r = guard(|| b.build());
        if alloc::disarm() {
            count("fault.alloc-failure");
            nontrivial();
        }
        match r {
            Ok(r) => break r,
            Err(Stop::Injected(_)) => {
                // the builder is gone: feed the same stream to a new one
                log(|| "build interrupted by a failed allocation; the stream is fed again".into());
                attempt += 1;
                count("rebuilds");
                b = BpAny::builder(node.k, None);
                must("builder.event", || "replaying the stream".into(), || {
                    for e in &node.got {
                        if *e {
                            b.enter()
                        } else {
                            b.leave()
                        }
                    }
                });
            }
            Err(e) => fail("builder.build.panic", &format!("build of {n} events (block size {}) panicked: {e:?}", BP_BLOCKS[node.k as usize])),
        }
    };
    log(|| format!("build of {n} events with surplus {excess}"));
    ev("build", n as u64);
    match r {
        Err(x) => {
            if excess == 0 || x != excess {
                fail("builder.surplus.wrong", &format!("{n} events with surplus {excess}: build reported {x}"));
            }
            count("unbalanced-reported");
        }
        Ok(t) => {
            if excess != 0 {
                fail("builder.surplus.missed", &format!("{n} events with surplus {excess}: build accepted"));
            }
            count("trees-built");
            let model = Model::Bp(BpModel::new(node.got.clone()));
            let spec = Spec { kind: Kind::Bp, ctor: 9, data: DataSpec { pat: 99, len: n, seed: 0, p1: 0, p2: 0 }, k: node.k };
            let obj = Obj::Bp(t);
            for _ in 0..ch.range(5, 80) {
                let q = draw_query(ch, Kind::Bp, &model);
                let a = exec(&obj, &q);
                judge_or_fail(&spec, &model, &q, &a, "built tree");
            }
            for op in [Op::Dfs, Op::Size] {
                let q = Query { op, a: 0, b: 0, c: 0, w: 0, wl: 0 };
                let a = exec(&obj, &q);
                judge_or_fail(&spec, &model, &q, &a, "built tree");
            }
            let Obj::Bp(t) = obj else { unreachable!() };
            let bv = must("builder.parens", || "parenthesis vector".into(), || t.into_bv());
            let bits: Vec<bool> = must("builder.parens", || "reading".into(), || bv.iter().map(|b| b == 1).collect());
            if bits != node.got {
                fail("builder.stream.wrong", &format!("the tree's parentheses differ from the {n} received events"));
            }
        }
    }
}

pub fn run(s: &mut Sim) {
    let ch = &mut s.ch;
    if ch.rare(30000) {
        return crate::colossal::p10(ch);
    }
    // now and then one very long stream over a perfect link
    let giant = ch.chance(1, 150);
    let nb = if giant { 1 } else { ch.range(1, 3) as usize };
    let (loss, dup, reorder, crash) = if giant || ch.chance(1, 3) {
        (0, 0, 0, 0)
    } else {
        (ch.pick(&[0u64, 5, 50]), ch.pick(&[0u64, 5, 50]), ch.pick(&[0u64, 20, 200]), ch.pick(&[0u64, 2]))
    };
    let oom = if giant { 0 } else { ch.pick(&[0u64, 0, 60, 400]) };
    let mut nodes: Vec<Node> = vec![];
    let mut srcs: Vec<(Vec<bool>, usize)> = vec![];
    for _ in 0..nb {
        let k = ch.below(BP_BLOCKS.len() as u64) as u16;
        let m = ch.pick(&[60usize, 300, 2000, 8000]);
        let mut d = draw_paren(ch, m, true);
        if giant {
            d.len = ch.range(66_000, 200_000) as usize;
            d.p2 = u64::from(ch.chance(1, 2));
            count("giant-streams");
        }
        let ev = gen_paren(&d);
        let cap = if ch.chance(1, 2) { Some(ch.below(ev.len() as u64 + 100)) } else { None };
        log(|| format!("source: {d:?}, {} events, block size {}, capacity {cap:?}", ev.len(), BP_BLOCKS[k as usize]));
        let b = must("builder.new", || "new builder".into(), || BpAny::builder(k, cap));
        nodes.push(Node { b: Some(b), got: vec![], k });
        srcs.push((ev, 0));
    }
    log(|| format!("per-mille loss {loss} duplication {dup} delay {reorder} crash {crash} allocation failure {oom}"));
    let mut link = Link { wire: vec![] };
    let mut now = 0u64;
    let mut seq = 0u64;
    phase("stream");
    // fault-free links with one source are fed in batches
    let lossless = loss + dup + reorder + crash == 0;
    loop {
        now += 1;
        let open: Vec<usize> = (0..nb).filter(|i| srcs[*i].1 < srcs[*i].0.len()).collect();
        if open.is_empty() && link.wire.is_empty() {
            break;
        }
        if !open.is_empty() {
            let i = open[ch.usz(open.len())];
            let batch = match ch.weighted(&[2, 3, 2]) {
                0 => 1,
                1 => ch.range(1, 16),
                _ if giant => ch.range(1, 40_000),
                _ => ch.range(1, 400),
            } as usize;
            for _ in 0..batch {
                let (ev, at) = &mut srcs[i];
                if *at == ev.len() {
                    break;
                }
                let e = ev[*at];
                *at += 1;
                seq += 1;
                if lossless {
                    link.wire.push((now, seq, i, e));
                    continue;
                }
                let x = ch.below(1000);
                if x < loss {
                    count("fault.message-loss");
                    nontrivial();
                    continue;
                }
                let late = if ch.below(1000) < reorder {
                    count("fault.message-delay");
                    nontrivial();
                    1 + ch.below(6)
                } else {
                    0
                };
                link.wire.push((now + late, seq, i, e));
                if x >= 1000 - dup {
                    seq += 1;
                    count("fault.message-duplication");
                    nontrivial();
                    link.wire.push((now + ch.below(4), seq, i, e));
                }
            }
        }
        // deliver what is due, in time order
        let mut due: Vec<(u64, u64, usize, bool)> = vec![];
        link.wire.retain(|m| {
            if m.0 <= now {
                due.push(*m);
                false
            } else {
                true
            }
        });
        due.sort_unstable();
        for (_, _, i, e) in due {
            deliver(ch, &mut nodes[i], e, oom);
        }
        if crash > 0 && ch.below(1000) < crash {
            // the receiver crashes: the builder is lost, the source starts over
            let i = ch.usz(nb);
            log(|| format!("receiver {i} crashes after {} events", nodes[i].got.len()));
            count("fault.crash");
            nontrivial();
            nodes[i].b = Some(BpAny::builder(nodes[i].k, None));
            nodes[i].got.clear();
            srcs[i].1 = 0;
        }
    }
    count_n("events", seq);
    for node in &mut nodes {
        finish(ch, node, oom > 0);
    }
    if nb > 1 || !lossless {
        nontrivial();
    }
}
