//! Which instructions touch memory that threads may share? Looks at the instruction a stopped thread is about to
//! execute: a store outside the thread's stack, or any access to a place that was stored to before in this run, is
//! *hot*. Pure queries have none; a cache, counter or lock that a change adds has a few, and the schedules worth trying
//! are those that stop right there. (Only a guide for the scheduler: forms it does not know are simply not hot.)

use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::SeqCst};

const N: usize = 64;
static WRITTEN: [AtomicUsize; N] = [const { AtomicUsize::new(0) }; N];
static WRITER: [AtomicUsize; N] = [const { AtomicUsize::new(0) }; N];
static NEXT: AtomicUsize = AtomicUsize::new(0);
/// tags of the operations that met in a cell: one stored to it, another thread accessed it
static MET: AtomicU64 = AtomicU64::new(0);

/// the operations (by tag) between which data passed in this run
pub fn met() -> u64 {
    MET.load(SeqCst)
}

pub fn reset() {
    NEXT.store(0, SeqCst);
    MET.store(0, SeqCst);
    for w in &WRITTEN {
        w.store(0, SeqCst);
    }
}

/// is the instruction at `rip` hot? `who` is the thread, `tag` (below 64) its operation
pub unsafe fn is_hot(g: &[i64; 23], rip: usize, who: usize, tag: usize) -> bool {
    let Some((addr, store)) = operand(g, rip) else { return false };
    let rsp = g[libc::REG_RSP as usize] as usize;
    if addr.wrapping_sub(rsp.wrapping_sub(4096)) < (1 << 20) {
        return false;
    }
    let cell = addr & !7;
    if crate::alloc::own_cell(cell) {
        return false;
    }
    match WRITTEN.iter().position(|w| w.load(SeqCst) == cell) {
        Some(i) => {
            let (w, t) = (WRITER[i].load(SeqCst) / 64, WRITER[i].load(SeqCst) % 64);
            if w != who {
                MET.fetch_or(1 << t | 1 << tag, SeqCst);
            }
            if store {
                WRITER[i].store(who * 64 + tag, SeqCst);
            }
            true
        }
        None if store => {
            let i = NEXT.load(SeqCst);
            NEXT.store((i + 1) % N, SeqCst);
            WRITTEN[i].store(cell, SeqCst);
            WRITER[i].store(who * 64 + tag, SeqCst);
            true
        }
        None => false,
    }
}

const REGS: [libc::c_int; 16] = [
    libc::REG_RAX, libc::REG_RCX, libc::REG_RDX, libc::REG_RBX, libc::REG_RSP, libc::REG_RBP, libc::REG_RSI, libc::REG_RDI,
    libc::REG_R8, libc::REG_R9, libc::REG_R10, libc::REG_R11, libc::REG_R12, libc::REG_R13, libc::REG_R14, libc::REG_R15,
];

/// memory operand of the instruction: address and whether it is written
unsafe fn operand(g: &[i64; 23], rip: usize) -> Option<(usize, bool)> {
    let b = |i: usize| *((rip + i) as *const u8);
    let mut i = 0;
    let (mut rex, mut seg) = (0u8, false);
    loop {
        match b(i) {
            0x66 | 0xF0 | 0xF2 | 0xF3 | 0x2E | 0x36 | 0x3E | 0x26 => i += 1,
            0x64 | 0x65 => {
                seg = true;
                i += 1;
            }
            0x67 => return None,
            _ => break,
        }
        if i > 6 {
            return None;
        }
    }
    if seg {
        // thread-local
        return None;
    }
    if b(i) & 0xF0 == 0x40 {
        rex = b(i);
        i += 1;
    }
    // map 0: one byte, 1: 0F, 2: 0F38, 3: 0F3A
    let (map, op, mut imm, vex);
    match b(i) {
        0xC5 => {
            rex = if b(i + 1) & 0x80 == 0 { 4 } else { 0 };
            (map, op, vex) = (1, b(i + 2), true);
            i += 3;
        }
        0xC4 => {
            let v = b(i + 1);
            rex = u8::from(v & 0x80 == 0) << 2 | u8::from(v & 0x40 == 0) << 1 | u8::from(v & 0x20 == 0);
            (map, op, vex) = (v & 31, b(i + 3), true);
            i += 4;
        }
        0x62 => return None,
        0x0F => match b(i + 1) {
            0x38 => {
                (map, op, vex) = (2, b(i + 2), false);
                i += 3;
            }
            0x3A => {
                (map, op, vex) = (3, b(i + 2), false);
                i += 3;
            }
            o => {
                (map, op, vex) = (1, o, false);
                i += 2;
            }
        },
        o => {
            (map, op, vex) = (0, o, false);
            i += 1;
        }
    }
    let modrm = b(i);
    let reg = modrm >> 3 & 7;
    imm = 0;
    let store = match map {
        0 => match op {
            0x00..=0x3B if op & 7 < 4 => op & 7 < 2 && op < 0x38,
            0x63 | 0x84 | 0x85 | 0x8A | 0x8B => false,
            0x69 => {
                imm = 4;
                false
            }
            0x6B => {
                imm = 1;
                false
            }
            0x80 | 0x83 => {
                imm = 1;
                reg != 7
            }
            0x81 => {
                imm = 4;
                reg != 7
            }
            0x86..=0x89 => true,
            0xC0 | 0xC1 | 0xC6 => {
                imm = 1;
                true
            }
            0xC7 => {
                imm = 4;
                true
            }
            0xD0..=0xD3 => true,
            0xF6 => {
                imm = usize::from(reg < 2);
                reg == 2 || reg == 3
            }
            0xF7 => {
                imm = if reg < 2 { 4 } else { 0 };
                reg == 2 || reg == 3
            }
            0xFE => true,
            0xFF => reg < 2,
            _ => return None,
        },
        1 => match op {
            0x05 | 0x0B | 0x31 | 0x77 | 0x80..=0x8F | 0xA0..=0xA2 | 0xA8..=0xAA | 0xC8..=0xCF | 0x18..=0x1F | 0x0D => return None,
            0x11 | 0x13 | 0x17 | 0x29 | 0x2B | 0x7F | 0xD6 | 0xE7 | 0xC3 => true,
            0x90..=0x9F | 0xB0 | 0xB1 | 0xC0 | 0xC1 | 0xAB | 0xB3 | 0xBB | 0xC7 => !vex || op == 0xC7,
            0xBA => {
                imm = 1;
                reg > 4
            }
            0x70..=0x73 | 0xC2 | 0xC4 | 0xC5 | 0xC6 => {
                imm = 1;
                false
            }
            _ => false,
        },
        2 => matches!(op, 0x2E | 0x2F | 0x8E | 0xF1) && (vex || op == 0xF1),
        3 => {
            imm = 1;
            matches!(op, 0x14..=0x17 | 0x19 | 0x39)
        }
        _ => return None,
    };
    let (mode, rm) = (modrm >> 6, modrm & 7);
    if mode == 3 {
        return None;
    }
    i += 1;
    let mut addr = 0usize;
    let mut disp32 = mode == 2;
    let mut relative = false;
    if rm == 4 {
        let sib = b(i);
        i += 1;
        let index = (sib >> 3 & 7) | (rex & 2) << 2;
        let base = (sib & 7) | (rex & 1) << 3;
        if index != 4 {
            addr = (g[REGS[index as usize] as usize] as usize).wrapping_shl(u32::from(sib >> 6));
        }
        if sib & 7 == 5 && mode == 0 {
            disp32 = true;
        } else {
            addr = addr.wrapping_add(g[REGS[base as usize] as usize] as usize);
        }
    } else if rm == 5 && mode == 0 {
        disp32 = true;
        relative = true;
    } else {
        addr = g[REGS[(rm | (rex & 1) << 3) as usize] as usize] as usize;
    }
    if disp32 {
        let d = i32::from_le_bytes([b(i), b(i + 1), b(i + 2), b(i + 3)]);
        addr = addr.wrapping_add(d as isize as usize);
        i += 4;
    } else if mode == 1 {
        addr = addr.wrapping_add(b(i) as i8 as isize as usize);
        i += 1;
    }
    if relative {
        // from the end of the instruction
        addr = addr.wrapping_add(rip + i + imm);
    }
    Some((addr, store))
}
