//! P02: lazily masked views against the eagerly combined vector.

use crate::alloc;
use crate::bvops::*;
use crate::ch::Ch;
use crate::data::*;
use crate::objs::*;
use crate::sim::*;
use vers_vecs::bit_vec::mask::MaskedBitVec;

fn resize(ch: &mut Ch, r: &mut Rep, n: usize) {
    let l = r.model.len();
    if l > n {
        must("bitvec.drop_last", || "drop_last".into(), || r.bv.drop_last(l - n));
        r.model.truncate(n);
    } else if l < n {
        let d = draw_bits_len(ch, n - l);
        let bits = gen_bits(&d);
        let route = ch.below(BV_ROUTES) as u8;
        must("bitvec.extend_bitvec", || "extend".into(), || r.bv.extend_bitvec(&build_bv(&bits, route)));
        r.model.extend_from_slice(&bits);
    }
    r.clean = false;
}

pub fn history(ch: &mut Ch, max_edits: u64) -> Rep {
    let f = Faults { rate: ch.pick(&[0u64, 200]) };
    let mut r = match fresh(ch, &f) {
        Some(r) => r,
        None => Rep { bv: Default::default(), model: vec![], clean: true },
    };
    let other = Rep { bv: build_bv(&[true, false, true], 3), model: vec![true, false, true], clean: false };
    for _ in 0..ch.below(max_edits + 1) {
        edit(ch, &mut r, &other, &f);
    }
    r
}

#[derive(Clone, Debug)]
enum Read {
    Q(Query),
    Materialise,
    CloneView(Query),
}

fn exec_view<F: Fn(u64, u64) -> u64>(v: &MaskedBitVec<'_, '_, F>, qu: &Query) -> Ans {
    use Op::*;
    let (a, b) = (qu.a as usize, qu.b as usize);
    match qu.op {
        Get => Ans::O(v.get(a)),
        GetUn => Ans::U(v.get_unchecked(a)),
        IsSet => Ans::OB(v.is_bit_set(a)),
        IsSetUn => Ans::B(v.is_bit_set_unchecked(a)),
        GetBits => Ans::O(v.get_bits(a, b)),
        GetBitsUn => Ans::U(v.get_bits_unchecked(a, b)),
        CountOnes => Ans::U(v.count_ones()),
        _ => Ans::U(v.count_zeros()),
    }
}

fn reads<F: Fn(u64, u64) -> u64 + Clone>(
    ch: &mut Ch,
    v: &MaskedBitVec<'_, '_, F>,
    model: &Model,
    name: &str,
    faulty: bool,
) -> Option<BitVec0> {
    let Model::Bits(m) = model else { unreachable!() };
    let n = m.bits.len() as u64;
    let mut last = None;
    let k = ch.range(1, 40);
    for _ in 0..k {
        use Op::*;
        let op = ch.pick(&[GetBits, Get, GetUn, IsSet, IsSetUn, GetBitsUn, CountOnes, CountZeros, GetBits]);
        let mut q = bits_args(ch, op, n);
        if q.op == Len {
            q.op = CountZeros;
        }
        let r = match ch.weighted(&[12, 2, 1]) {
            0 => Read::Q(q),
            1 => Read::Materialise,
            _ => Read::CloneView(q),
        };
        let fuse = if faulty && ch.chance(1, 4) { ch.below(n / 64 + 3) } else { u64::MAX };
        let af = faulty && fuse == u64::MAX && ch.chance(1, 6);
        log(|| format!("view {name} of {n} bits: {r:?}, closure unwinds after {fuse} words, allocation failure {af}"));
        phase("view-read");
        FUSE.with(|x| x.set(fuse));
        if af {
            alloc::arm(1 + ch.below(2), false);
        }
        let got = guard(|| match &r {
            Read::Q(q) => (Some(exec_view(v, q)), None),
            Read::CloneView(q) => (Some(exec_view(&v.clone(), q)), None),
            Read::Materialise => (None, Some(v.to_bit_vec())),
        });
        if alloc::disarm() {
            count("fault.alloc-failure");
        }
        FUSE.with(|x| x.set(u64::MAX));
        count("view-reads");
        ev("view-read", fuse);
        match got {
            Err(Stop::Injected(_)) => continue,
            Err(e) => fail(
                &format!("view.{}.panic", op_name(&r)),
                &format!("view {name} of {n} bits: {r:?} panicked: {e:?}"),
            ),
            Ok((Some(a), _)) => {
                let (Read::Q(q) | Read::CloneView(q)) = &r else { unreachable!() };
                if let Some(why) = judge(model, q, &a) {
                    fail(&format!("view.{}.wrong", op_name(&r)), &format!("view {name} of {n} bits: {q:?}: {why}"));
                }
            }
            Ok((_, Some(b))) => {
                let rep = Rep { bv: b, model: m.bits.clone(), clean: false };
                check_materialised(&rep, name);
                last = Some(rep.bv);
            }
            Ok(_) => {}
        }
    }
    nontrivial();
    last
}
type BitVec0 = vers_vecs::BitVec;

fn op_name(r: &Read) -> String {
    match r {
        Read::Q(q) => format!("{:?}", q.op),
        Read::CloneView(q) => format!("clone.{:?}", q.op),
        Read::Materialise => "to_bit_vec".into(),
    }
}

fn check_materialised(rep: &Rep, name: &str) {
    verify(rep, &format!("materialising view {name}"));
    let eager = build_bv(&rep.model, 0);
    if must("view.eq", || "==".into(), || rep.bv != eager) {
        fail("view.materialised.differs", &format!("materialised view {name} of {} bits does not equal the eager combination", rep.model.len()));
    }
}

pub fn run(s: &mut Sim) {
    let ch = &mut s.ch;
    if ch.rare(40000) {
        return crate::colossal::p02(ch);
    }
    crate::reent::draw(ch);
    let mut a = history(ch, 12);
    let mut b = history(ch, 12);
    for _ in 0..ch.range(1, 4) {
        let n = match ch.weighted(&[3, 3, 2]) {
            0 => a.model.len(),
            1 => b.model.len(),
            _ => small_len(ch),
        };
        let same = !ch.chance(1, 6);
        if same {
            resize(ch, &mut a, n);
            resize(ch, &mut b, n);
        }
        let n = a.model.len();
        let k = ch.usz(MASKS.len());
        let custom = k > 2 || ch.chance(1, 2);
        let name = MASKS[k].1;
        let faulty = custom && ch.chance(1, 2);
        if a.model.len() != b.model.len() {
            log(|| format!("view of {} and {} bits must be refused", a.model.len(), b.model.len()));
            let r = must("view.make", || "constructing a view".into(), || match (custom, k) {
                (true, _) => a.bv.mask_custom(&b.bv, MASKS[k].0).is_ok(),
                (_, 0) => a.bv.mask_and(&b.bv).is_ok(),
                (_, 1) => a.bv.mask_or(&b.bv).is_ok(),
                _ => a.bv.mask_xor(&b.bv).is_ok(),
            });
            if r {
                fail("view.length-accepted", &format!("view {name} of vectors of {} and {} bits accepted", a.model.len(), b.model.len()));
            }
            // in place as well
            let r = must("view.apply", || "in-place".into(), || match (custom, k) {
                (true, _) => a.bv.apply_mask_custom(&b.bv, MASKS[k].0).is_ok(),
                (_, 0) => a.bv.apply_mask_and(&b.bv).is_ok(),
                (_, 1) => a.bv.apply_mask_or(&b.bv).is_ok(),
                _ => a.bv.apply_mask_xor(&b.bv).is_ok(),
            });
            if r {
                fail("view.length-accepted", &format!("in-place {name} of vectors of {} and {} bits accepted", a.model.len(), b.model.len()));
            }
            count("refused-views");
        } else {
            let want: Vec<bool> = a.model.iter().zip(&b.model).map(|(x, y)| mask_bit(k, *x, *y)).collect();
            let model = Model::Bits(BitsModel::new(want.clone()));
            let self_mask = ch.chance(1, 10);
            macro_rules! refused { ($e:expr) => { match $e { Ok(v) => v, Err(_) => fail("view.refused", &format!("view {name} of two vectors of {n} bits refused")) } } }
            let mut got = None;
            if self_mask {
                // a vector masked with itself
                let want: Vec<bool> = a.model.iter().map(|x| mask_bit(k, *x, *x)).collect();
                let model = Model::Bits(BitsModel::new(want));
                let v = refused!(a.bv.mask_custom(&a.bv, MASKS[k].0));
                reads(ch, &v, &model, name, faulty);
            } else if custom {
                if ch.chance(1, 2) {
                    let v = refused!(a.bv.mask_custom(&b.bv, MASKS[k].0));
                    got = reads(ch, &v, &model, name, faulty);
                } else {
                    // a capturing closure
                    let f = MASKS[k].0;
                    let g = ch.word();
                    let v = refused!(a.bv.mask_custom(&b.bv, move |x, y| f(x, y) ^ g ^ g));
                    got = reads(ch, &v, &model, name, faulty);
                }
            } else {
                let v = refused!(match k {
                    0 => a.bv.mask_and(&b.bv),
                    1 => a.bv.mask_or(&b.bv),
                    _ => a.bv.mask_xor(&b.bv),
                });
                got = reads(ch, &v, &model, name, false);
            }
            verify(&a, "being viewed");
            verify(&b, "being used as a mask");
            // in place gives the same
            if ch.chance(1, 2) {
                let mut c = a.bv.clone();
                let r = must("view.apply", || "in-place mask".into(), || match (custom, k) {
                    (true, _) => c.apply_mask_custom(&b.bv, MASKS[k].0),
                    (_, 0) => c.apply_mask_and(&b.bv),
                    (_, 1) => c.apply_mask_or(&b.bv),
                    _ => c.apply_mask_xor(&b.bv),
                });
                if r.is_err() {
                    fail("view.apply.refused", "in-place mask of equal length refused");
                }
                let rep = Rep { bv: c, model: want.clone(), clean: false };
                check_materialised(&rep, name);
                verify(&b, "being applied in place");
                count("in-place");
                if ch.chance(1, 2) {
                    a = rep;
                }
            }
            if let Some(g) = got {
                if ch.chance(1, 2) {
                    b = Rep { bv: g, model: want, clean: false };
                }
            }
        }
        verify(&a, "views");
        verify(&b, "views");
        let f = Faults { rate: 0 };
        if ch.chance(1, 2) {
            let o = b.clone();
            edit(ch, &mut a, &o, &f);
        }
        if ch.chance(1, 2) {
            let o = a.clone();
            edit(ch, &mut b, &o, &f);
        }
        if a.model.len() > 30_000 {
            resize(ch, &mut a, 100);
        }
        if b.model.len() > 30_000 {
            resize(ch, &mut b, 100);
        }
    }
}
