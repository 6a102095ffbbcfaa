//! P01: histories of edits on a few mutable bit vectors, with interruptions.

use crate::bvops::*;
use crate::sim::*;

pub fn run(s: &mut Sim) {
    let ch = &mut s.ch;
    if ch.rare(30000) {
        return crate::colossal::p01(ch);
    }
    crate::reent::draw(ch);
    let f = Faults { rate: ch.pick(&[0u64, 100, 250, 500]) };
    let slots = ch.range(1, 3) as usize;
    let mut reps: Vec<Rep> = vec![];
    while reps.len() < slots {
        match fresh(ch, &f) {
            Some(r) => {
                verify(&r, "construction");
                reps.push(r);
            }
            None => {
                if ch.chance(1, 4) {
                    reps.push(Rep { bv: Default::default(), model: vec![], clean: true });
                }
            }
        }
    }
    let edits = ch.range(1, 60);
    for _ in 0..edits {
        let i = ch.usz(reps.len());
        let j = ch.usz(reps.len());
        if ch.chance(1, 25) {
            if let Some(r) = fresh(ch, &f) {
                verify(&r, "construction");
                reps[i] = r;
            }
            continue;
        }
        let other = reps[j].clone();
        if reps[i].model.len() + other.model.len() > 400_000 {
            reps[i].bv.drop_last(380_000);
            let l = reps[i].model.len().saturating_sub(380_000);
            reps[i].model.truncate(l);
            reps[i].clean = false;
        }
        edit(ch, &mut reps[i], &other, &f);
        count("edits");
        nontrivial();
        // the other vectors are not affected; this one is exact
        let all = ch.chance(1, 8);
        for (k, r) in reps.iter().enumerate() {
            if k == i && r.model.len() < 4000 || all {
                verify(r, "an edit");
            }
        }
        if ch.chance(1, 3) {
            probe(ch, &reps[i], "an edit");
        }
    }
    for r in &reps {
        verify(r, "the history");
        probe(ch, r, "the history");
    }
}
