//! A node: one build of the library behind a byte-string interface, loaded as a shared object.

use crate::disk::{load, save, Fmt};
use crate::objs::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::sync::Mutex;
use vers_vecs::*;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Edit {
    Append(bool),
    AppendBits(u64, u32),
    AppendWord(u64),
    DropLast(u64),
    Set(u64, bool),
    Flip(u64),
    /// extend by a copy of another vector
    Extend(u32),
    /// keep the left (true) or right part
    Split(u64, bool),
    /// mask with another vector of the same length: and, or, xor
    Mask(u32, u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Req {
    Build(u32, Spec),
    Edit(u32, Edit),
    /// rank/select vector, tree or sparse vector from a bit vector, or back
    Convert(u32, u32, Kind, u16),
    Clone(u32, u32),
    Drop(u32),
    Query(u32, Query),
    /// elements of iterator `way`, skipping `skip` from the front and `back` from the end, at most 64
    Iter(u32, u8, u64, u64),
    Eq(u32, u32),
    Snapshot(u32, bool),
    Restore(u32, Kind, u16, bool, Vec<u8>),
    Reset,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Resp {
    Done,
    Ans(Ans),
    List(Vec<u128>),
    Bytes(Vec<u8>),
    Err(String),
}

struct State {
    objs: BTreeMap<(u32, u32), Obj>,
}
static STATE: Mutex<State> = Mutex::new(State { objs: BTreeMap::new() });
static LAST: Mutex<String> = Mutex::new(String::new());

fn num(b: &BitVec) -> u128 {
    let mut x = 0u128;
    for i in 0..b.len().min(128) {
        x |= u128::from(b.get_unchecked(i)) << i;
    }
    x
}

fn list<I: DoubleEndedIterator>(mut it: I, skip: u64, back: u64, f: impl Fn(I::Item) -> u128) -> Vec<u128> {
    if skip > 0 && it.nth(skip as usize - 1).is_none() {
        return vec![];
    }
    if back > 0 && it.nth_back(back as usize - 1).is_none() {
        return vec![];
    }
    it.take(64).map(f).collect()
}
fn list1<I: Iterator>(it: I, skip: u64, f: impl Fn(I::Item) -> u128) -> Vec<u128> {
    it.skip(skip as usize).take(64).map(f).collect()
}

pub fn iter_ways(k: Kind, wide: bool) -> u64 {
    match k {
        Kind::Rs => 7,
        Kind::Wm if wide => 2,
        Kind::Wm => 4,
        Kind::Bin | Kind::Fast => 0,
        _ => 1,
    }
}
pub fn two_ended(k: Kind, way: u8) -> bool {
    match k {
        Kind::Rs => way < 5,
        Kind::Sparse | Kind::Wide | Kind::Bp => false,
        _ => true,
    }
}

#[allow(unreachable_patterns)]
fn iterate(o: &Obj, way: u8, skip: u64, back: u64) -> Vec<u128> {
    let u = |x: u64| u128::from(x);
    let z = |x: usize| x as u128;
    match o {
        Obj::Bits(v) => list(v.iter(), skip, back, u),
        Obj::Rs(v) => match way {
            0 => list(v.iter(), skip, back, u),
            1 => list(v.iter0(), skip, back, z),
            2 => list(v.iter1(), skip, back, z),
            3 => list(v.clone().into_iter0(), skip, back, z),
            4 => list(v.clone().into_iter1(), skip, back, z),
            #[cfg(all(
                feature = "full",
                target_arch = "x86_64",
                target_feature = "avx",
                target_feature = "avx2",
                target_feature = "avx512f",
                target_feature = "avx512bw"
            ))]
            5 => list1(v.bit_set_iter0(), skip, z),
            #[cfg(all(
                feature = "full",
                target_arch = "x86_64",
                target_feature = "avx",
                target_feature = "avx2",
                target_feature = "avx512f",
                target_feature = "avx512bw"
            ))]
            6 => list1(v.bit_set_iter1(), skip, z),
            // the portable builds have no vectorised iterator: the plain one has the same contract
            5 => list1(v.iter0(), skip, z),
            _ => list1(v.iter1(), skip, z),
        },
        Obj::Sparse(v) => list1(v.iter1(), skip, u),
        Obj::Ef(v) => list(v.iter(), skip, back, u),
        Obj::Wm(v) => match way {
            0 => list(v.iter(), skip, back, |b| num(&b)),
            1 => list(v.iter_sorted(), skip, back, |b| num(&b)),
            2 => v.iter_u64().map(|i| list(i, skip, back, u)).unwrap_or_default(),
            _ => v.iter_sorted_u64().map(|i| list(i, skip, back, u)).unwrap_or_default(),
        },
        Obj::Bp(t) => with_bp!(t, t => list1(t.iter(), skip, z)),
        _ => vec![],
    }
}

fn handle(node: u32, r: Req) -> Resp {
    let mut g = STATE.lock().unwrap_or_else(|e| e.into_inner());
    let st = &mut g.objs;
    let bits = |st: &BTreeMap<(u32, u32), Obj>, i: u32| match st.get(&(node, i)) {
        Some(Obj::Bits(b)) => Some(b.clone()),
        _ => None,
    };
    match r {
        Req::Build(i, s) => {
            let o = build(&s);
            st.insert((node, i), o);
            Resp::Done
        }
        Req::Edit(i, e) => {
            let other = match &e {
                Edit::Extend(j) | Edit::Mask(j, _) => bits(st, *j),
                _ => None,
            };
            let Some(Obj::Bits(v)) = st.get_mut(&(node, i)) else { return Resp::Err("no vector".into()) };
            match e {
                Edit::Append(b) => v.append(b),
                Edit::AppendBits(w, n) => v.append_bits(w, n as usize),
                Edit::AppendWord(w) => v.append_word(w),
                Edit::DropLast(n) => v.drop_last(n as usize),
                Edit::Set(p, b) => {
                    if v.set(p as usize, u64::from(b)).is_err() {
                        return Resp::Err("set".into());
                    }
                }
                Edit::Flip(p) => v.flip_bit(p as usize),
                Edit::Extend(_) => v.extend_bitvec(&other.unwrap()),
                Edit::Split(p, left) => match v.clone().split_at(p as usize) {
                    Ok((a, b)) => *v = if left { a } else { b },
                    Err(_) => return Resp::Err("split".into()),
                },
                Edit::Mask(_, k) => {
                    let o = other.unwrap();
                    let r = match k {
                        0 => v.apply_mask_and(&o),
                        1 => v.apply_mask_or(&o),
                        _ => v.apply_mask_xor(&o),
                    };
                    if r.is_err() {
                        return Resp::Err("mask".into());
                    }
                }
            }
            Resp::Done
        }
        Req::Convert(i, j, kind, k) => {
            let o = match (st.get(&(node, i)), kind) {
                (Some(Obj::Bits(b)), Kind::Rs) => Obj::Rs(b.clone().into()),
                (Some(Obj::Bits(b)), Kind::Sparse) => Obj::Sparse(SparseRSVec::from_bitvec(b)),
                (Some(Obj::Bits(b)), Kind::Bp) => Obj::Bp(BpAny::build(k, b.clone())),
                (Some(Obj::Rs(b)), Kind::Bits) => Obj::Bits(b.clone().into()),
                (Some(Obj::Bp(t)), Kind::Bits) => Obj::Bits(t.clone().into_bv()),
                _ => return Resp::Err("convert".into()),
            };
            st.insert((node, j), o);
            Resp::Done
        }
        Req::Clone(i, j) => match st.get(&(node, i)).cloned() {
            Some(o) => {
                st.insert((node, j), o);
                Resp::Done
            }
            None => Resp::Err("none".into()),
        },
        Req::Drop(i) => {
            st.remove(&(node, i));
            Resp::Done
        }
        Req::Query(i, q) => match st.get(&(node, i)) {
            Some(o) => Resp::Ans(exec_raw(o, &q)),
            None => Resp::Err("none".into()),
        },
        Req::Iter(i, w, s, b) => match st.get(&(node, i)) {
            Some(o) => Resp::List(iterate(o, w, s, b)),
            None => Resp::Err("none".into()),
        },
        Req::Eq(i, j) => match (st.get(&(node, i)), st.get(&(node, j))) {
            (Some(Obj::Bits(a)), Some(Obj::Bits(b))) => Resp::Ans(Ans::B(a == b)),
            (Some(Obj::Rs(a)), Some(Obj::Rs(b))) => Resp::Ans(Ans::B(a == b)),
            _ => Resp::Err("none".into()),
        },
        Req::Snapshot(i, json) => match st.get(&(node, i)) {
            Some(o) => {
                let mut b = vec![];
                match save(o, if json { Fmt::Json } else { Fmt::Bin }, &mut b) {
                    Ok(()) => Resp::Bytes(b),
                    Err(e) => Resp::Err(e),
                }
            }
            None => Resp::Err("none".into()),
        },
        Req::Restore(i, kind, k, json, b) => {
            let mut r: &[u8] = &b;
            match load(kind, k, if json { Fmt::Json } else { Fmt::Bin }, &mut r) {
                Ok(o) => {
                    st.insert((node, i), o);
                    Resp::Done
                }
                Err(e) => Resp::Err(e),
            }
        }
        Req::Reset => {
            st.retain(|k, _| k.0 != node);
            Resp::Done
        }
    }
}

/// # Safety
/// `req`/`len` describe readable bytes; the reply is released with `versim_node_free`
#[no_mangle]
pub unsafe extern "C" fn versim_node_call(node: u32, req: *const u8, len: usize, out: *mut *mut u8, out_len: *mut usize) {
    static HOOK: std::sync::Once = std::sync::Once::new();
    HOOK.call_once(|| {
        std::panic::set_hook(Box::new(|i| {
            if let Ok(mut l) = LAST.lock() {
                *l = i.to_string();
            }
        }));
    });
    let b = std::slice::from_raw_parts(req, len);
    let r = match bincode::deserialize::<Req>(b) {
        Ok(r) => std::panic::catch_unwind(|| handle(node, r)).unwrap_or_else(|_| {
            Resp::Ans(Ans::Panic(LAST.lock().map(|l| l.clone()).unwrap_or_default()))
        }),
        Err(e) => Resp::Err(format!("bad request: {e}")),
    };
    let v = bincode::serialize(&r).unwrap_or_default().into_boxed_slice();
    *out_len = v.len();
    *out = Box::into_raw(v) as *mut u8;
}

/// # Safety
/// only for replies of `versim_node_call`
#[no_mangle]
pub unsafe extern "C" fn versim_node_free(p: *mut u8, len: usize) {
    drop(Box::from_raw(std::ptr::slice_from_raw_parts_mut(p, len)));
}

// ---------------------------------------------------------------- the simulator's side

type CallFn = unsafe extern "C" fn(u32, *const u8, usize, *mut *mut u8, *mut usize);
type FreeFn = unsafe extern "C" fn(*mut u8, usize);

#[derive(Clone, Copy)]
pub struct Lib {
    call: CallFn,
    free: FreeFn,
}

static LIBS: std::sync::OnceLock<Vec<Lib>> = std::sync::OnceLock::new();

/// load every build once, before any run is forked
pub fn open_all(paths: &[String]) -> Result<(), String> {
    let mut v = vec![];
    for p in paths {
        unsafe {
            let c = std::ffi::CString::new(p.as_str()).map_err(|e| e.to_string())?;
            let h = libc::dlopen(c.as_ptr(), libc::RTLD_NOW | libc::RTLD_LOCAL);
            if h.is_null() {
                return Err(format!("cannot load {p}: {}", std::ffi::CStr::from_ptr(libc::dlerror()).to_string_lossy()));
            }
            let a = libc::dlsym(h, c"versim_node_call".as_ptr());
            let b = libc::dlsym(h, c"versim_node_free".as_ptr());
            if a.is_null() || b.is_null() {
                return Err(format!("{p} has no node interface"));
            }
            v.push(Lib { call: std::mem::transmute::<*mut libc::c_void, CallFn>(a), free: std::mem::transmute::<*mut libc::c_void, FreeFn>(b) });
        }
    }
    let _ = LIBS.set(v);
    Ok(())
}
pub fn libs() -> &'static [Lib] {
    LIBS.get().map(|v| &v[..]).unwrap_or(&[])
}

pub fn call(lib: usize, node: u32, r: &Req) -> Resp {
    let l = libs()[lib];
    let b = bincode::serialize(r).expect("request");
    unsafe {
        let mut p = std::ptr::null_mut();
        let mut n = 0;
        (l.call)(node, b.as_ptr(), b.len(), &mut p, &mut n);
        let r = bincode::deserialize(std::slice::from_raw_parts(p, n)).expect("reply");
        (l.free)(p, n);
        r
    }
}
