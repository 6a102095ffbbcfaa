//! P11: snapshots on a simulated disk, with faulty streams, crashes and restores.

use super::p09;
use super::shared_struct::{check, draw_scale, make_slot_of, sweep, Slot};
use crate::bvops::{edit, fresh, verify, Faults, Rep};
use crate::ch::Ch;
use crate::data::DataSpec;
use crate::disk::*;
use crate::objs::*;
use crate::sim::*;

/// one file name and what the client knows about it
struct Store {
    name: String,
    /// versions written so far: the slots they hold, encoding, full length of the encoding (once written completely)
    versions: Vec<Version>,
    /// newest acknowledged version
    acked: Option<usize>,
    /// the current inode of the visible file, by version
    owner: std::collections::BTreeMap<usize, usize>,
}

struct Version {
    slots: Vec<usize>,
    fmt: Fmt,
    full: Option<u64>,
}

const BUDGET: u32 = 400;

fn eq_check(a: &Obj, b: &Obj, how: &str) {
    let same = match (a, b) {
        (Obj::Bits(a), Obj::Bits(b)) => must("snapshot.eq", || "comparing".into(), || a == b && b == a),
        (Obj::Rs(a), Obj::Rs(b)) => must("snapshot.eq", || "comparing".into(), || a == b && b == a && a.full_equals(b) && a.sparse_equals::<true>(b) && a.sparse_equals::<false>(b)),
        _ => true,
    };
    if !same {
        fail("snapshot.unequal", &format!("{how}: restored structure does not equal the original"));
    }
}

/// is the restored structure the same as the slot's?
fn judge(ch: &mut Ch, slots: &mut Vec<Slot>, i: usize, obj: Obj, how: &str) {
    let kind = slots[i].spec.kind;
    phase(&format!("restored.{kind:?}"));
    if let (Obj::Bp(a), Obj::Bp(b)) = (&*slots[i].obj, &obj) {
        if a.index() != b.index() {
            fail("snapshot.kind", "another block size was restored");
        }
    }
    eq_check(&slots[i].obj, &obj, how);
    let (spec, model) = (&slots[i].spec, &slots[i].model);
    let k = ch.range(5, 60);
    for _ in 0..k {
        let q = draw_query(ch, kind, model);
        check(spec, &obj, model, &q, how);
    }
    if ch.chance(1, 3) {
        for q in sweep(ch, kind, model) {
            check(spec, &obj, model, &q, how);
        }
    }
    count("restores-judged");
    count_n("queries", k);
    if !matches!(kind, Kind::Bin | Kind::Fast) && ch.chance(1, 3) && slots[i].spec.data.len < 50_000 {
        // iterate the restored structure in place of the original
        let old = std::mem::replace(&mut slots[i].obj, Box::new(obj));
        p09::drain(ch, &slots[i..=i]);
        // whichever stays alive serves from now on
        if ch.chance(1, 2) {
            slots[i].obj = old;
        }
        return;
    }
    if ch.chance(1, 4) {
        log(|| format!("structure {i} continues as its restored copy"));
        slots[i].obj = Box::new(obj);
        return;
    }
    if let Obj::Bits(b) = obj {
        // a restored vector can be edited further
        let Model::Bits(m) = &slots[i].model else { unreachable!() };
        let mut rep = Rep { bv: b, model: m.bits.clone(), clean: false };
        let other = rep.clone();
        for _ in 0..ch.range(1, 6) {
            edit(ch, &mut rep, &other, &Faults { rate: 0 });
        }
        verify(&rep, "edits of a restored vector");
    }
}

fn write(ch: &mut Ch, disk: &mut Disk, st: &mut Store, slots: &[Slot]) {
    let pick = ch.usz(slots.len());
    let mut ids = vec![pick];
    let fmt = if slots[pick].spec.data.len <= 3000 && ch.chance(1, 2) { Fmt::Json } else { Fmt::Bin };
    if fmt == Fmt::Bin && ch.chance(1, 4) {
        // several structures back to back in one stream
        ids.push(ch.usz(slots.len()));
    }
    st.versions.push(Version { slots: ids.clone(), fmt, full: None });
    let v = st.versions.len() - 1;
    log(|| format!("snapshot version {v} of {ids:?} as {fmt:?} to {}", st.name));
    ev("write", v as u64);
    phase("snapshot.write");
    // how long would it be? (only shapes the fault positions)
    let mut probe = vec![];
    for i in &ids {
        if let Err(e) = must("snapshot.write", || "serialising".into(), || save(&slots[*i].obj, fmt, &mut probe)) {
            fail("snapshot.write.refused", &format!("serialising {:?} failed without a fault: {e}", slots[*i].spec));
        }
    }
    let sloppy = ch.chance(1, 5); // renames before syncing
    for attempt in 0..3 {
        let tmp = format!("{}.tmp", st.name);
        let ino = disk.create(&tmp);
        st.owner.insert(ino, v);
        let f = if attempt == 2 { StreamFaults { short: 0, intr: 0, die_at: None } } else { draw_faults(ch, probe.len() as u64) };
        let mut data = vec![];
        let mut ok = Ok(());
        let mut died = false;
        for i in &ids {
            let mut w = FaultWriter { ch, out: &mut data, f, budget: BUDGET, died: false };
            ok = match guard(|| save(&slots[*i].obj, fmt, &mut w)) {
                Ok(r) => r,
                Err(e) => fail("snapshot.write.panic", &format!("serialising {:?} panicked: {e:?}", slots[*i].spec)),
            };
            died = w.died;
            if ok.is_err() {
                break;
            }
        }
        disk.inodes[ino].data = data;
        log(|| format!("  attempt {attempt}: wrote {} of {} bytes: {ok:?}", disk.inodes[ino].data.len(), probe.len()));
        match ok {
            Err(e) => {
                if !died {
                    fail("snapshot.write.refused", &format!("short and interrupted writes made serialising fail: {e}"));
                }
                // crash or retry; the broken file stays behind under its temporary name
                if ch.chance(1, 4) {
                    return;
                }
                continue;
            }
            Ok(()) => {
                if died {
                    fail("snapshot.write.error-lost", "a failed write was reported as success");
                }
            }
        }
        st.versions[v].full = Some(disk.inodes[ino].data.len() as u64);
        if ch.chance(1, 10) {
            return; // process stops here
        }
        if sloppy {
            disk.rename(&tmp, &st.name.clone());
            if ch.chance(1, 2) {
                return;
            }
            disk.sync_file(ino);
        } else {
            if ch.chance(1, 6) {
                count("fault.sync-error");
                continue;
            }
            disk.sync_file(ino);
            if ch.chance(1, 10) {
                return;
            }
            disk.rename(&tmp, &st.name.clone());
        }
        if ch.chance(1, 10) {
            return;
        }
        disk.sync_dir();
        st.acked = Some(v);
        log(|| format!("  version {v} acknowledged"));
        count("acknowledged");
        return;
    }
}

/// read what the name holds now, and judge it
fn read(ch: &mut Ch, disk: &Disk, st: &Store, slots: &mut Vec<Slot>, name: &str) {
    let Some(ino) = disk.dir.get(name).copied() else {
        if name == st.name && st.acked.is_some() {
            panic!("the simulated disk lost an acknowledged file");
        }
        return;
    };
    let v = st.owner[&ino];
    let (ids, fmt, full) = (st.versions[v].slots.clone(), st.versions[v].fmt, st.versions[v].full);
    if name == st.name {
        if let Some(a) = st.acked {
            assert!(v >= a, "the simulated disk went back in time");
        }
    }
    let data = &disk.inodes[ino].data;
    let whole = full == Some(data.len() as u64);
    log(|| format!("restore {name}: version {v}, {} bytes, whole {whole}", data.len()));
    ev("read", data.len() as u64);
    nontrivial();
    for attempt in 0..4 {
        let f = if attempt == 3 { StreamFaults { short: 0, intr: 0, die_at: None } } else { draw_faults(ch, data.len() as u64) };
        phase("snapshot.read");
        let mut got = vec![];
        let mut pos = 0;
        let mut died = false;
        for (j, i) in ids.iter().enumerate() {
            let (kind, k) = (slots[*i].spec.kind, slots[*i].spec.k);
            // each structure continues where the previous one ended
            let mut r = FaultReader { ch, data, pos, f, budget: BUDGET, died: false };
            let res = match guard(|| load(kind, k, fmt, &mut r)) {
                Ok(x) => x,
                Err(e) => fail("snapshot.read.panic", &format!("restoring {:?} panicked: {e:?}", slots[*i].spec)),
            };
            pos = r.pos;
            died |= r.died;
            match res {
                Ok(o) => got.push(o),
                Err(e) => {
                    if whole && !died {
                        fail("snapshot.read.refused", &format!("restoring structure {j} of a complete snapshot of {:?} failed: {e}", slots[*i].spec));
                    }
                    break;
                }
            }
        }
        if got.len() < ids.len() {
            if died {
                log(|| "  read error, retry".into());
                continue;
            }
            count("truncated-refused");
            return;
        }
        if !whole {
            fail("snapshot.truncated-accepted", &format!("a snapshot of {:?} cut to {} bytes was accepted ({fmt:?})", slots[ids[0]].spec, data.len()));
        }
        for (i, o) in ids.iter().zip(got) {
            let k = o_len(&o);
            judge(ch, slots, *i, o, "restored");
            ev("ok", k);
        }
        return;
    }
}

fn o_len(o: &Obj) -> u64 {
    match o {
        Obj::Bits(b) => b.len() as u64,
        Obj::Rs(b) => b.len() as u64,
        _ => 0,
    }
}

/// cut a complete snapshot anywhere: always refused
fn cut(ch: &mut Ch, slots: &[Slot]) {
    let i = ch.usz(slots.len());
    let sl = &slots[i];
    let fmt = if sl.spec.data.len <= 3000 && ch.chance(1, 2) { Fmt::Json } else { Fmt::Bin };
    let mut b = vec![];
    if save(&sl.obj, fmt, &mut b).is_err() {
        return;
    }
    phase("truncated");
    let k = ch.range(1, 6);
    for _ in 0..k {
        let n = match ch.weighted(&[3, 3, 2, 2]) {
            0 => ch.usz(b.len()),
            1 => b.len() - 1 - ch.usz(b.len().min(40)),
            2 => ch.usz(b.len().min(40)),
            _ => (ch.usz(b.len()) / 8 * 8).min(b.len() - 1),
        };
        count("fault.truncated");
        let mut r: &[u8] = &b[..n];
        match guard(|| load(sl.spec.kind, sl.spec.k, fmt, &mut r)) {
            Ok(Err(_)) => {}
            Ok(Ok(_)) => fail("snapshot.truncated-accepted", &format!("a snapshot of {:?} cut from {} to {n} bytes was accepted ({fmt:?})", sl.spec, b.len())),
            Err(e) => fail("snapshot.truncated-panic", &format!("restoring a snapshot of {:?} cut from {} to {n} bytes panicked: {e:?}", sl.spec, b.len())),
        }
    }
}

fn dirty_slot(ch: &mut Ch) -> Option<Slot> {
    // a vector with an editing history behind it
    let f = Faults { rate: 100 };
    let mut rep = fresh(ch, &f)?;
    let other = fresh(ch, &f)?;
    for _ in 0..ch.range(1, 8) {
        edit(ch, &mut rep, &other, &f);
    }
    let d = DataSpec { pat: 255, len: rep.model.len(), seed: 0, p1: 0, p2: 0 };
    let spec = Spec { kind: Kind::Bits, ctor: 255, data: d, k: 0 };
    if ch.chance(1, 2) {
        let bv = rep.bv;
        let model = Model::Bits(BitsModel::new(rep.model));
        let rs = must("Rs.build", || "building from an edited vector".into(), || vers_vecs::RsVec::from_bit_vec(bv));
        return Some(Slot { spec: Spec { kind: Kind::Rs, ..spec }, obj: Box::new(Obj::Rs(rs)), model });
    }
    Some(Slot { spec, obj: Box::new(Obj::Bits(rep.bv)), model: Model::Bits(BitsModel::new(rep.model)) })
}

pub fn run(s: &mut Sim) {
    let ch = &mut s.ch;
    if ch.rare(30000) {
        return crate::colossal::p11(ch);
    }
    let mut slots = vec![];
    let n = ch.range(1, 3);
    for _ in 0..n {
        if ch.chance(1, 6) {
            if let Some(sl) = dirty_slot(ch) {
                slots.push(sl);
                continue;
            }
        }
        let kind = ch.pick(&ALL_KINDS);
        let sc = draw_scale(ch).min(140_000);
        let spec = draw_any(ch, kind, sc, 300, 5);
        slots.push(make_slot_of(spec));
    }
    let mut disk = Disk::default();
    let mut stores: Vec<Store> = vec![];
    for i in 0..ch.range(1, 2) {
        stores.push(Store { name: format!("s{i}"), versions: vec![], acked: None, owner: Default::default() });
    }
    let rounds = ch.range(2, 10);
    for _ in 0..rounds {
        let i = ch.usz(stores.len());
        match ch.weighted(&[6, 4, 4, 2]) {
            0 => write(ch, &mut disk, &mut stores[i], &slots),
            1 => {
                log(|| "crash".into());
                disk.crash(ch);
                ev("crash", 0);
                for st in &stores {
                    read(ch, &disk, st, &mut slots, &st.name);
                }
            }
            2 => {
                let tmp = format!("{}.tmp", stores[i].name);
                let name = if ch.chance(1, 3) { tmp } else { stores[i].name.clone() };
                read(ch, &disk, &stores[i], &mut slots, &name);
            }
            _ => cut(ch, &slots),
        }
    }
    disk.crash(ch);
    for st in &stores {
        read(ch, &disk, st, &mut slots, &st.name);
    }
}
