//! P14: allocation failures and unwinding callbacks inside every operation of every structure.

use super::shared_struct::{check, judge_or_fail, make_slot_of, Slot};
use crate::alloc;
use crate::bvops::*;
use crate::ch::Ch;
use crate::objs::*;
use crate::sim::*;
use vers_vecs::*;

pub enum Made {
    Obj(Obj),
    Bits(BitVec),
    Bytes(Vec<u8>),
    Ans(Query, Ans),
    Surplus(i64),
    Refused,
}

/// an operation that can be repeated, with a judge for its result
pub struct Case<'a> {
    pub name: String,
    pub run: Box<dyn Fn() -> Made + 'a>,
    /// what the result has to be
    pub judge: Box<dyn Fn(&mut Ch, Made) + 'a>,
}

pub fn judge_obj(ch: &mut Ch, spec: &Spec, model: &Model, obj: &Obj, how: &str) {
    for _ in 0..12 {
        let q = draw_query(ch, spec.kind, model);
        check(spec, obj, model, &q, how);
    }
}
fn judge_bits(bv: &BitVec, want: &[bool], how: &str) {
    verify(&Rep { bv: bv.clone(), model: want.to_vec(), clean: false }, how);
}
fn bits_model(m: &Model) -> &[bool] {
    match m {
        Model::Bits(b) => &b.bits,
        Model::Bp(b) => &b.par,
        _ => unreachable!(),
    }
}

fn case<'a>(ch: &mut Ch, slots: &'a [Slot], input: &'a (Spec, Input, Model), fuse: Option<u64>) -> Case<'a> {
    let i = ch.usz(slots.len());
    let sl = &slots[i];
    let (spec, inp, model) = input;
    let pick = ch.weighted(&[6, 4, 3, 3, 3, 2, 2]);
    let obj_judge = |spec: &'a Spec, model: &'a Model, what: &'static str| -> Box<dyn Fn(&mut Ch, Made) + 'a> {
        Box::new(move |ch, m| match m {
            Made::Obj(o) => judge_obj(ch, spec, model, &o, what),
            Made::Refused => fail(&format!("{what}.refused"), &format!("{what} of {spec:?} reported failure without a fault")),
            _ => unreachable!(),
        })
    };
    if fuse.is_some() {
        // callbacks that unwind
        let bits: Vec<bool> = match inp {
            Input::Bits(b) => b.clone(),
            Input::Nums(v) => v.iter().map(|x| x & 1 == 1).collect(),
            Input::Syms(v) => v.iter().map(|x| x & 1 == 1).collect(),
        };
        let nums: Vec<u64> = match inp {
            Input::Nums(v) => v.clone(),
            _ => bits.iter().map(|b| 7 + u64::from(*b)).collect(),
        };
        let w = ch.range(1, 70) as usize;
        let packed: Vec<bool> = nums.iter().flat_map(|e| bits_of(*e, w)).collect();
        let words: Vec<bool> = nums.iter().flat_map(|e| bits_of(*e, 64)).collect();
        let k = ch.usz(8);
        let nums2 = nums.clone();
        let bits2 = bits.clone();
        let run: Box<dyn Fn() -> Made> = match k {
            0 => Box::new(move || Made::Obj(Obj::Bin(Bomb { it: nums2.iter().copied(), fuse: take_fuse(), hint: 0 }.collect()))),
            1 => Box::new(move || Made::Obj(Obj::Fast(Bomb { it: nums2.iter().copied(), fuse: take_fuse(), hint: 0 }.collect()))),
            2 => Box::new(move || Made::Bits(BitVec::from_bool_iter(Bomb { it: bits2.iter().copied(), fuse: take_fuse(), hint: 0 }))),
            3 => Box::new(move || Made::Bits(BitVec::from_bits_iter(Bomb { it: bits2.iter().map(|b| u8::from(*b)), fuse: take_fuse(), hint: 0 }))),
            4 => Box::new(move || Made::Bits(BitVec::pack_from_iter_u64(Bomb { it: nums2.iter().copied(), fuse: take_fuse(), hint: 0 }, w))),
            5 => Box::new(move || Made::Bits(BitVec::from_limbs_iter(Bomb { it: nums2.iter().copied(), fuse: take_fuse(), hint: 0 }))),
            6 => Box::new(move || Made::Bits(Bomb { it: nums2.iter().copied(), fuse: take_fuse(), hint: 0 }.collect())),
            _ => Box::new(move || {
                // a reader that unwinds while a structure is being restored
                let b = bincode::serialize(&bits2).unwrap_or_default();
                let _ = b;
                Made::Bits(BitVec::from_bits_iter(Bomb { it: bits2.iter().copied(), fuse: take_fuse(), hint: 0 }))
            }),
        };
        let judge: Box<dyn Fn(&mut Ch, Made)> = match k {
            0 | 1 => Box::new(move |_ch, m| {
                let Made::Obj(o) = m else { unreachable!() };
                let n = nums.len();
                let got: Vec<u64> = match &o {
                    Obj::Bin(b) => b.to_vec(),
                    Obj::Fast(b) => b.to_vec(),
                    _ => unreachable!(),
                };
                if got != nums {
                    fail("collect.wrong", &format!("collecting {n} numbers gave other data"));
                }
                if n > 0 {
                    let p = match &o {
                        Obj::Bin(b) => b.range_min(0, n - 1),
                        Obj::Fast(b) => b.range_min(0, n - 1),
                        _ => unreachable!(),
                    };
                    if nums[p] != *nums.iter().min().unwrap() {
                        fail("collect.wrong", "wrong minimum after collecting");
                    }
                }
            }),
            4 => Box::new(move |_, m| if let Made::Bits(b) = m { judge_bits(&b, &packed, "packing from an iterator") }),
            5 | 6 => Box::new(move |_, m| if let Made::Bits(b) = m { judge_bits(&b, &words, "collecting limbs") }),
            _ => Box::new(move |_, m| if let Made::Bits(b) = m { judge_bits(&b, &bits, "collecting bits") }),
        };
        return Case { name: format!("collect.{k}"), run, judge };
    }
    match pick {
        0 => Case {
            name: format!("construct.{:?}.{}", spec.kind, spec.ctor),
            run: Box::new(move || Made::Obj(construct(spec, inp))),
            judge: obj_judge(spec, model, "construct"),
        },
        1 => Case {
            name: format!("clone.{:?}", sl.spec.kind),
            run: Box::new(move || Made::Obj((*sl.obj).clone())),
            judge: obj_judge(&sl.spec, &sl.model, "clone"),
        },
        2 => {
            let bytes = bincode::serialize(&*sl.obj).unwrap_or_default();
            Case {
                name: format!("restore.{:?}", sl.spec.kind),
                run: Box::new(move || bincode::deserialize::<Obj>(&bytes).map_or(Made::Refused, Made::Obj)),
                judge: obj_judge(&sl.spec, &sl.model, "restore"),
            }
        }
        3 => {
            let spec = &sl.spec;
            let model = &sl.model;
            Case {
                name: format!("snapshot.{:?}", spec.kind),
                run: Box::new(move || bincode::serialize(&*sl.obj).map_or(Made::Refused, Made::Bytes)),
                judge: Box::new(move |ch, m| match m {
                    Made::Bytes(b) => match bincode::deserialize::<Obj>(&b) {
                        Ok(o) => judge_obj(ch, spec, model, &o, "restored"),
                        Err(e) => fail("snapshot.unreadable", &format!("snapshot of {spec:?} cannot be restored: {e}")),
                    },
                    _ => fail("snapshot.refused", &format!("snapshot of {spec:?} reported failure without a fault")),
                }),
            }
        }
        4 => {
            // a query
            let q = draw_query(ch, sl.spec.kind, &sl.model);
            let spec = &sl.spec;
            let model = &sl.model;
            Case {
                name: format!("query.{:?}.{:?}", spec.kind, q.op),
                run: Box::new(move || Made::Ans(q.clone(), exec_raw(&sl.obj, &q))),
                judge: Box::new(move |_, m| {
                    if let Made::Ans(q, a) = m {
                        judge_or_fail(spec, model, &q, &a, "after an interruption");
                    }
                }),
            }
        }
        5 => {
            // conversions
            match &*sl.obj {
                Obj::Rs(v) => Case {
                    name: "convert.rs-bits".into(),
                    run: Box::new(move || Made::Bits(BitVec::from(v.clone()))),
                    judge: Box::new(move |_, m| if let Made::Bits(b) = m { judge_bits(&b, bits_model(&sl.model), "conversion") }),
                },
                Obj::Bp(t) => Case {
                    name: "convert.bp-bits".into(),
                    run: Box::new(move || Made::Bits(t.clone().into_bv())),
                    judge: Box::new(move |_, m| if let Made::Bits(b) = m { judge_bits(&b, bits_model(&sl.model), "conversion") }),
                },
                Obj::Bits(v) => {
                    let k = ch.usz(5);
                    let at = ch.usz(v.len() + 1);
                    Case {
                        name: format!("convert.bits.{k}"),
                        run: Box::new(move || match k {
                            0 => Made::Bits(v.mask_xor(v).map(|m| m.to_bit_vec()).unwrap_or_default()),
                            1 => Made::Bits(v.mask_custom(v, |a, b| a & b).map(|m| m.to_bit_vec()).unwrap_or_default()),
                            2 => match v.clone().split_at(at) {
                                Ok((mut l, r)) => {
                                    l.extend_bitvec(&r);
                                    Made::Bits(l)
                                }
                                Err(_) => Made::Refused,
                            },
                            3 => {
                                let mut b = BitVec::new();
                                b.extend([v, v]);
                                b.drop_last(v.len());
                                Made::Bits(b)
                            }
                            _ => Made::Obj(Obj::Sparse(SparseRSVec::from_bitvec(v))),
                        }),
                        judge: Box::new(move |_, m| {
                            let want = bits_model(&sl.model);
                            match m {
                                Made::Bits(b) if k == 0 => judge_bits(&b, &vec![false; want.len()], "self-xor"),
                                Made::Bits(b) => judge_bits(&b, want, "conversion"),
                                Made::Obj(Obj::Sparse(s)) => {
                                    let ones = want.iter().filter(|b| **b).count() as u64;
                                    if s.len() != want.len() as u64 || s.rank1(s.len()) != ones {
                                        fail("convert.wrong", "sparse vector differs from its source");
                                    }
                                }
                                _ => fail("convert.refused", "split inside the vector refused"),
                            }
                        }),
                    }
                }
                _ => Case {
                    name: format!("clone2.{:?}", sl.spec.kind),
                    run: Box::new(move || {
                        let a = (*sl.obj).clone();
                        let mut b = construct(spec, inp);
                        assign_from(&mut b, &a);
                        drop(a);
                        Made::Obj(b)
                    }),
                    judge: obj_judge(&sl.spec, &sl.model, "clone"),
                },
            }
        }
        _ => {
            // builder
            let ev: Vec<bool> = match inp {
                Input::Bits(b) => b.clone(),
                _ => vec![true, true, false, true, false, false],
            };
            let k = ch.below(BP_BLOCKS.len() as u64) as u16;
            let want: i64 = ev.iter().map(|b| if *b { 1i64 } else { -1 }).sum();
            let ev2 = ev.clone();
            Case {
                name: "tree-builder".into(),
                run: Box::new(move || match BpAny::via_builder(k, &ev, None) {
                    Ok(t) => Made::Bits(t.into_bv()),
                    Err(e) => Made::Surplus(e),
                }),
                judge: Box::new(move |_, m| match m {
                    Made::Bits(b) if want == 0 => judge_bits(&b, &ev2, "tree builder"),
                    Made::Surplus(e) if e == want => {}
                    _ => fail("builder.wrong", &format!("stream with surplus {want} was judged wrongly")),
                }),
            }
        }
    }
}

thread_local! {
    static ITFUSE: std::cell::Cell<u64> = const { std::cell::Cell::new(u64::MAX) };
}
fn take_fuse() -> Option<u64> {
    let v = ITFUSE.with(|f| f.replace(u64::MAX));
    (v != u64::MAX).then_some(v)
}

/// run once with a fault; true if it fired
fn strike(ch: &mut Ch, c: &Case, at: u64, callback: bool) -> bool {
    if callback {
        ITFUSE.with(|f| f.set(at));
    } else {
        alloc::arm(at, false);
    }
    let r = guard(|| (c.run)());
    let fired = if callback {
        ITFUSE.with(|f| f.set(u64::MAX));
        matches!(r, Err(Stop::Injected(_)))
    } else {
        alloc::disarm()
    };
    match r {
        Ok(m) => {
            if fired && matches!(m, Made::Refused) {
                // failure reported
            } else {
                (c.judge)(ch, m);
            }
        }
        Err(Stop::Injected(_)) => {}
        Err(Stop::Panic(p)) => {
            if !fired {
                fail(&format!("{}.panic", c.name), &format!("{} panicked without a fault: {p}", c.name));
            }
        }
    }
    fired
}

pub fn run(s: &mut Sim) {
    let ch = &mut s.ch;
    crate::reent::draw(ch);
    // bystanders
    let n = ch.range(1, 3) as usize;
    let mut slots: Vec<Slot> = vec![];
    for _ in 0..n {
        let k = ch.pick(&ALL_KINDS);
        let sc = ch.pick(&[60usize, 600, 3000, 20_000]);
        let spec = draw_spec(ch, k, sc);
        slots.push(make_slot_of(spec));
    }
    let rounds = ch.range(1, 4);
    for _ in 0..rounds {
        let k = ch.pick(&ALL_KINDS);
        let sc = ch.pick(&[60usize, 600, 3000, 20_000]);
        let spec = draw_spec(ch, k, sc);
        let input = (spec.clone(), make_input(&spec), build_model(&spec));
        let callback = ch.chance(1, 4);
        let c = case(ch, &slots, &input, callback.then_some(0));
        log(|| format!("operation {} ({spec:?})", c.name));
        phase(&format!("op.{}", c.name));
        // undisturbed, to learn how many allocations it makes
        let before = alloc::calls();
        let r = guard(|| (c.run)());
        let total = alloc::calls() - before;
        match r {
            Ok(m) => (c.judge)(ch, m),
            Err(e) => fail(&format!("{}.panic", c.name), &format!("{} panicked without a fault: {e:?}", c.name)),
        }
        let span = if callback { input.0.data.len as u64 + 1 } else { total };
        if span == 0 {
            count("operations-without-allocation");
            continue;
        }
        let points: Vec<u64> = if span <= 10 {
            (0..span).collect()
        } else {
            (0..ch.range(2, 8)).map(|_| ch.below(span)).collect()
        };
        for p in points {
            let at = if callback { p } else { p + 1 };
            let l0 = alloc::live();
            let fired = strike(ch, &c, at, callback);
            let l1 = alloc::live();
            log(|| format!("fault at {} {at} of {span}: fired {fired}, live bytes {:+}", if callback { "callback" } else { "allocation" }, l1.0 - l0.0));
            ev("strike", at);
            if fired {
                if !callback {
                    count("fault.alloc-failure");
                }
                nontrivial();
            }
            if l1 != l0 {
                // a lazily created cache would appear once; a leak grows every time
                let mut grow = true;
                let mut prev = l1;
                for _ in 0..3 {
                    strike(ch, &c, at, callback);
                    let l = alloc::live();
                    if l.0 <= prev.0 && l.1 <= prev.1 {
                        grow = false;
                    }
                    prev = l;
                }
                if grow {
                    fail(&format!("leak.{}", c.name), &format!("{} interrupted at {at} of {span}: {} bytes in {} blocks stay allocated", c.name, l1.0 - l0.0, l1.1 - l0.1));
                }
            }
            // bystanders
            let i = ch.usz(slots.len());
            for _ in 0..3 {
                let q = draw_query(ch, slots[i].spec.kind, &slots[i].model);
                check(&slots[i].spec, &slots[i].obj, &slots[i].model, &q, "bystander");
            }
        }
        // repeated without the fault
        let r = guard(|| (c.run)());
        match r {
            Ok(m) => (c.judge)(ch, m),
            Err(e) => fail(&format!("{}.retry.panic", c.name), &format!("repeating {} without a fault panicked: {e:?}", c.name)),
        }
        // the input is untouched
        let same = match (&input.1, make_input(&input.0)) {
            (Input::Bits(a), Input::Bits(b)) => *a == b,
            (Input::Nums(a), Input::Nums(b)) => *a == b,
            (Input::Syms(a), Input::Syms(b)) => *a == b,
            _ => false,
        };
        if !same {
            fail("input.changed", "a borrowed input changed");
        }
        count("operations");
    }
    // undisturbed lifetimes leave nothing behind
    let l0 = alloc::live();
    for sl in &slots {
        let o = must("clone", || "clone".into(), || (*sl.obj).clone());
        let q = draw_query(ch, sl.spec.kind, &sl.model);
        check(&sl.spec, &o, &sl.model, &q, "clone");
        drop(o);
    }
    let _ = l0;
}
