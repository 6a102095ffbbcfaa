//! A simulated disk: page cache versus durable image, rename, sync, crashes, and faulty byte streams.

use crate::ch::Ch;
use crate::objs::*;
use crate::sim::*;
use std::collections::BTreeMap;
use std::io::{self, ErrorKind, Read, Write};

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Fmt {
    Bin,
    Json,
}

/// serialise the structure itself (no wrapper of ours around it)
pub fn save(o: &Obj, f: Fmt, w: &mut dyn Write) -> Result<(), String> {
    fn s<T: serde::Serialize>(t: &T, f: Fmt, w: &mut dyn Write) -> Result<(), String> {
        match f {
            Fmt::Bin => bincode::serialize_into(w, t).map_err(|e| e.to_string()),
            Fmt::Json => serde_json::to_writer(w, t).map_err(|e| e.to_string()),
        }
    }
    match o {
        Obj::Bits(x) => s(x, f, w),
        Obj::Rs(x) => s(x, f, w),
        Obj::Sparse(x) => s(x, f, w),
        Obj::Ef(x) => s(x, f, w),
        Obj::Bin(x) => s(x, f, w),
        Obj::Fast(x) => s(x, f, w),
        Obj::Wm(x) => s(x, f, w),
        Obj::Bp(x) => with_bp!(x, t => s(t, f, w)),
    }
}

struct From_<'a>(Fmt, &'a mut dyn Read);
impl Decoder for From_<'_> {
    fn get<T: serde::de::DeserializeOwned>(&mut self) -> Result<T, String> {
        match self.0 {
            Fmt::Bin => bincode::deserialize_from(&mut self.1).map_err(|e| e.to_string()),
            Fmt::Json => serde_json::from_reader(&mut self.1).map_err(|e| e.to_string()),
        }
    }
}

pub fn load(kind: Kind, k: u16, f: Fmt, r: &mut dyn Read) -> Result<Obj, String> {
    fn d<T: serde::de::DeserializeOwned>(f: Fmt, r: &mut dyn Read) -> Result<T, String> {
        match f {
            Fmt::Bin => bincode::deserialize_from(r).map_err(|e| e.to_string()),
            Fmt::Json => serde_json::from_reader(r).map_err(|e| e.to_string()),
        }
    }
    Ok(match kind {
        Kind::Bits => Obj::Bits(d(f, r)?),
        Kind::Rs => Obj::Rs(d(f, r)?),
        Kind::Sparse | Kind::Wide => Obj::Sparse(d(f, r)?),
        Kind::Ef => Obj::Ef(d(f, r)?),
        Kind::Bin => Obj::Bin(d(f, r)?),
        Kind::Fast => Obj::Fast(d(f, r)?),
        Kind::Wm => Obj::Wm(d(f, r)?),
        Kind::Bp => Obj::Bp(BpAny::restored(k, &mut From_(f, r))?),
    })
}

#[derive(Clone, Default)]
pub struct Inode {
    pub data: Vec<u8>,
    /// how much of `data` a sync made durable
    pub synced: usize,
}

/// names -> inodes, as seen by running processes and as last synced
#[derive(Default)]
pub struct Disk {
    pub inodes: Vec<Inode>,
    pub dir: BTreeMap<String, usize>,
    pub dur_dir: BTreeMap<String, usize>,
    /// directory operations since the last directory sync, in order
    pub journal: Vec<(String, Option<usize>)>,
}

impl Disk {
    pub fn create(&mut self, name: &str) -> usize {
        self.inodes.push(Inode::default());
        let i = self.inodes.len() - 1;
        self.set(name, Some(i));
        i
    }
    fn set(&mut self, name: &str, i: Option<usize>) {
        match i {
            Some(i) => self.dir.insert(name.into(), i),
            None => self.dir.remove(name),
        };
        self.journal.push((name.into(), i));
    }
    pub fn rename(&mut self, a: &str, b: &str) {
        let i = self.dir.get(a).copied();
        self.set(b, i);
        self.set(a, None);
    }
    pub fn sync_file(&mut self, i: usize) {
        self.inodes[i].synced = self.inodes[i].data.len();
    }
    pub fn sync_dir(&mut self) {
        self.dur_dir = self.dir.clone();
        self.journal.clear();
    }
    /// power loss: a prefix of the pending directory operations and of every file's unsynced tail survives
    pub fn crash(&mut self, ch: &mut Ch) {
        let keep = ch.usz(self.journal.len() + 1);
        for (n, i) in self.journal.drain(..).take(keep) {
            match i {
                Some(i) => {
                    self.dur_dir.insert(n, i);
                }
                None => {
                    self.dur_dir.remove(&n);
                }
            }
        }
        self.dir = self.dur_dir.clone();
        let mut torn = 0;
        for i in self.dir.values() {
            let f = &mut self.inodes[*i];
            let tail = f.data.len() - f.synced;
            if tail > 0 {
                let k = match ch.weighted(&[3, 3, 3, 2]) {
                    0 => 0,
                    1 => tail,
                    2 => ch.usz(tail + 1),
                    // the last few bytes are missing
                    _ => tail - (1 + ch.usz(9)).min(tail),
                };
                if k < tail {
                    torn += 1;
                }
                let n = f.synced + k;
                f.data.truncate(n);
                f.synced = n;
            }
        }
        count("fault.crash");
        count_n("fault.torn-tail", torn);
    }
}

/// what a stream may do wrong
#[derive(Clone, Copy)]
pub struct StreamFaults {
    /// short transfers and interrupts, in 1000
    pub short: u64,
    pub intr: u64,
    /// the transfer fails for good at this byte
    pub die_at: Option<u64>,
}

pub fn draw_faults(ch: &mut Ch, len: u64) -> StreamFaults {
    let (short, intr) = match ch.weighted(&[4, 3, 3]) {
        0 => (0, 0),
        1 => (300, 100),
        _ => (ch.below(1000), ch.below(500)),
    };
    let die_at = if ch.chance(1, 4) {
        Some(match ch.weighted(&[3, 2, 2]) {
            0 => ch.below(len + 1),
            1 => ch.below(40),
            _ => len.saturating_sub(ch.below(20)),
        })
    } else {
        None
    };
    StreamFaults { short, intr, die_at }
}

pub struct FaultWriter<'a> {
    pub ch: &'a mut Ch,
    pub out: &'a mut Vec<u8>,
    pub f: StreamFaults,
    /// draws are rationed so that big snapshots stay cheap
    pub budget: u32,
    pub died: bool,
}
impl Write for FaultWriter<'_> {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if b.is_empty() {
            return Ok(0);
        }
        let mut n = b.len();
        if let Some(d) = self.f.die_at {
            let left = d.saturating_sub(self.out.len() as u64) as usize;
            if left == 0 {
                self.died = true;
                let full = d & 1 == 0;
                count(if full { "fault.disk-full" } else { "fault.write-error" });
                return Err(io::Error::from(if full { ErrorKind::StorageFull } else { ErrorKind::Other }));
            }
            n = n.min(left);
        }
        if self.budget > 0 && (self.f.short > 0 || self.f.intr > 0) {
            self.budget -= 1;
            if self.ch.below(1000) < self.f.intr {
                count("fault.write-interrupted");
                return Err(io::Error::from(ErrorKind::Interrupted));
            }
            if n > 1 && self.ch.below(1000) < self.f.short {
                n = 1 + self.ch.usz(n - 1);
                count("fault.short-write");
            }
        }
        self.out.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

pub struct FaultReader<'a> {
    pub ch: &'a mut Ch,
    pub data: &'a [u8],
    pub pos: usize,
    pub f: StreamFaults,
    pub budget: u32,
    pub died: bool,
}
impl Read for FaultReader<'_> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        let mut n = b.len().min(self.data.len() - self.pos);
        if let Some(d) = self.f.die_at {
            let left = (d as usize).saturating_sub(self.pos);
            if left == 0 {
                self.died = true;
                count("fault.read-error");
                return Err(io::Error::from(ErrorKind::Other));
            }
            n = n.min(left);
        }
        if n > 0 && self.budget > 0 && (self.f.short > 0 || self.f.intr > 0) {
            self.budget -= 1;
            if self.ch.below(1000) < self.f.intr {
                count("fault.read-interrupted");
                return Err(io::Error::from(ErrorKind::Interrupted));
            }
            if n > 1 && self.ch.below(1000) < self.f.short {
                n = 1 + self.ch.usz(n - 1);
                count("fault.short-read");
            }
        }
        b[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
