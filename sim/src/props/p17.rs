//! P17: what structures report about their memory, against the simulated allocator, along histories.

use crate::alloc;
use crate::bvops::*;
use crate::ch::Ch;
use crate::objs::*;
use crate::props::shared_struct::{draw_scale, make_slot_of};
use crate::sim::*;

pub fn heap_size(o: &Obj) -> usize {
    match o {
        Obj::Bits(v) => v.heap_size(),
        Obj::Rs(v) => v.heap_size(),
        Obj::Sparse(v) => v.heap_size(),
        Obj::Ef(v) => v.heap_size(),
        Obj::Bin(v) => v.heap_size(),
        Obj::Fast(v) => v.heap_size(),
        Obj::Wm(v) => v.heap_size(),
        Obj::Bp(t) => with_bp!(t, t => t.heap_size()),
    }
}

fn name(o: &Obj) -> &'static str {
    match o {
        Obj::Bits(_) => "BitVec",
        Obj::Rs(_) => "RsVec",
        Obj::Sparse(_) => "SparseRSVec",
        Obj::Ef(_) => "EliasFanoVec",
        Obj::Bin(_) => "BinaryRmq",
        Obj::Fast(_) => "FastRmq",
        Obj::Wm(_) => "WaveletMatrix",
        Obj::Bp(_) => "BpTree",
    }
}

/// an exact copy must occupy exactly the reported size; an interrupted copy nothing
fn measure(ch: &mut Ch, o: &Obj, how: &str) -> usize {
    let nm = name(o);
    let h = must(&format!("{nm}.heap_size"), || "heap_size".into(), || heap_size(o));
    if ch.chance(1, 4) {
        let before = alloc::live();
        alloc::arm(ch.range(1, 4), ch.chance(1, 2));
        let r = guard(|| drop(o.clone()));
        let fired = alloc::disarm();
        drop(r);
        if fired {
            count("fault.alloc-failure");
        }
        if alloc::live() != before {
            fail(&format!("{nm}.clone.leak"), &format!("{how}: an interrupted copy of a {nm} kept {} bytes", alloc::live().0 - before.0));
        }
    }
    let before = alloc::live();
    let c = must(&format!("{nm}.clone"), || "clone".into(), || o.clone());
    let took = alloc::live().0 - before.0;
    let hc = heap_size(&c);
    drop(c);
    let after = alloc::live();
    count("measurements");
    ev("size", h as u64);
    if took != h as i64 {
        fail(&format!("{nm}.heap_size"), &format!("{how}: {nm} reports {h} bytes on the heap, an exact copy takes {took}"));
    }
    if hc != h {
        fail(&format!("{nm}.heap_size"), &format!("{how}: {nm} reports {h} bytes on the heap, its copy {hc}"));
    }
    if after != before {
        fail(&format!("{nm}.drop.leak"), &format!("{how}: dropping a copy of a {nm} left {} bytes", after.0 - before.0));
    }
    h
}

/// dropping gives back at least what was reported
fn release(o: Obj, h: usize, how: &str) {
    let nm = name(&o);
    let before = alloc::live().0;
    drop(o);
    let freed = before - alloc::live().0;
    if freed < h as i64 {
        fail(&format!("{nm}.heap_size"), &format!("{how}: {nm} reported {h} bytes on the heap but held only {freed}"));
    }
}

fn structures(ch: &mut Ch) {
    let kinds = [Kind::Rs, Kind::Ef, Kind::Fast, Kind::Wm, Kind::Bp, Kind::Sparse, Kind::Bin, Kind::Wide, Kind::Bits];
    let kind = kinds[ch.weighted(&[4, 4, 4, 4, 4, 3, 3, 3, 1])];
    let sc = draw_scale(ch).min(140_000);
    let spec = draw_any(ch, kind, sc, 80, 3);
    let slot = make_slot_of(spec);
    let what = format!("{:?}", slot.spec);
    let mut obj = *slot.obj;
    let mut h = measure(ch, &obj, &what);
    for _ in 0..ch.range(1, 6) {
        match ch.weighted(&[5, 2, 2]) {
            0 => {
                // queries keep nothing
                phase(&format!("query.{kind:?}"));
                let qs: Vec<Query> = (0..ch.range(1, 30)).map(|_| draw_query(ch, kind, &slot.model)).collect();
                log(|| format!("{} queries", qs.len()));
                for q in &qs {
                    let before = alloc::live();
                    drop(exec(&obj, q));
                    let after = alloc::live();
                    if after != before {
                        fail(&format!("{}.query.retains", name(&obj)), &format!("{q:?} on {what} left {} bytes allocated", after.0 - before.0));
                    }
                }
                count_n("queries", qs.len() as u64);
            }
            1 => {
                phase("restore");
                log(|| "continue as a restored copy".into());
                let Ok(b) = bincode::serialize(&obj) else { continue };
                let Ok(r) = bincode::deserialize::<Obj>(&b) else { continue };
                drop(b);
                let h2 = measure(ch, &r, "restored copy");
                if h2 != h {
                    fail(&format!("{}.heap_size", name(&obj)), &format!("{what}: reports {h} bytes, its restored copy {h2}"));
                }
                let old = std::mem::replace(&mut obj, r);
                release(old, h, &what);
            }
            _ => {
                phase("clone");
                log(|| "continue as a clone".into());
                let c = if ch.chance(1, 3) {
                    let sc = draw_scale(ch).min(5_000);
                    let mut t = *make_slot_of(draw_any(ch, kind, sc, 80, 3)).obj;
                    assign_from(&mut t, &obj);
                    t
                } else {
                    obj.clone()
                };
                let old = std::mem::replace(&mut obj, c);
                release(old, h, &what);
            }
        }
        h = measure(ch, &obj, &what);
    }
    nontrivial();
    release(obj, h, &what);
}

fn history(ch: &mut Ch) {
    let f = Faults { rate: ch.pick(&[0u64, 100, 300]) };
    let Some(mut rep) = fresh(ch, &f) else { return };
    let Some(other) = fresh(ch, &f) else { return };
    for _ in 0..ch.range(1, 40) {
        if rep.model.len() + other.model.len() > 400_000 {
            break;
        }
        edit(ch, &mut rep, &other, &f);
        count("edits");
        nontrivial();
        let bv = std::mem::take(&mut rep.bv);
        let o = Obj::Bits(bv);
        let n = rep.model.len();
        measure(ch, &o, &format!("bit vector of {n} bits after an edit"));
        let Obj::Bits(bv) = o else { unreachable!() };
        rep.bv = bv;
    }
    let n = rep.model.len();
    let o = Obj::Bits(std::mem::take(&mut rep.bv));
    let h = measure(ch, &o, "end of the history");
    release(o, h, &format!("bit vector of {n} bits"));
}

pub fn run(s: &mut Sim) {
    let ch = &mut s.ch;
    if ch.chance(1, 3) {
        history(ch);
    } else {
        structures(ch);
    }
}
