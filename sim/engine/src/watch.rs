//! Which instructions of the code under test touch state that callers share: writable statics,
//! or (for writes) blocks that existed before the operation began. Looked at one instruction at
//! a time while a thread is single-stepped, so that a plan can park a caller exactly there.
use crate::alloc;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::Relaxed};

extern "C" {
    static __data_start: u8;
    static _end: u8;
}

const NOISES: usize = 64;
static NOISE: [AtomicU64; NOISES] = [const { AtomicU64::new(0) }; NOISES];
static LEARN: AtomicBool = AtomicBool::new(false);

/// Instructions that `shared` sees from now on are to be ignored later.
pub fn learn(on: bool) {
    LEARN.store(on, Relaxed);
}

/// An instruction that touches a static: is it known and to be ignored?
fn noise(rip: u64) -> bool {
    for n in &NOISE {
        match n.load(Relaxed) {
            x if x == rip => return true,
            0 => {
                if LEARN.load(Relaxed) {
                    n.store(rip, Relaxed);
                }
                return false;
            }
            _ => {}
        }
    }
    false
}

pub struct Access {
    pub addr: u64,
    pub write: bool,
}

/// glibc's order of general registers in a signal context, by processor register number.
const REG: [usize; 16] = [13, 14, 12, 11, 15, 10, 9, 8, 0, 1, 2, 3, 4, 5, 6, 7];

/// The memory operand of the instruction about to run, if it has one.
unsafe fn operand(gregs: *const u64) -> Option<Access> {
    let reg = |n: usize| *gregs.add(REG[n]);
    let start = *gregs.add(16) as *const u8;
    let mut p = start;
    let (mut rex, mut opsize, mut rep3) = (0u8, false, false);
    loop {
        match *p {
            0x66 => opsize = true,
            0xF3 => rep3 = true,
            0xF2 | 0xF0 | 0x2E | 0x36 | 0x3E | 0x26 => {}
            // Thread-local
            0x64 | 0x65 => return None,
            _ => break,
        }
        p = p.add(1);
    }
    if *p & 0xF0 == 0x40 {
        rex = *p;
        p = p.add(1);
    }
    let mut map = 0;
    let mut op = *p;
    match op {
        0x0F => {
            p = p.add(1);
            op = *p;
            map = 1;
            if op == 0x38 || op == 0x3A {
                map = if op == 0x38 { 2 } else { 3 };
                p = p.add(1);
                op = *p;
            }
        }
        0xC5 => {
            rex = (!*p.add(1) >> 5) & 4;
            rep3 = *p.add(1) & 3 == 2;
            p = p.add(2);
            op = *p;
            map = 1;
        }
        0xC4 => {
            let b = *p.add(1);
            rex = (!b >> 5) & 7;
            map = b & 3;
            rep3 = *p.add(2) & 3 == 2;
            p = p.add(3);
            op = *p;
        }
        0x62 => return None,
        _ => {}
    }
    p = p.add(1);
    let has = match map {
        0 => matches!(op, 0x63 | 0x69 | 0x6B | 0x80..=0x8C | 0x8E | 0x8F | 0xC0 | 0xC1 | 0xC6 | 0xC7 | 0xD0..=0xD3 | 0xF6 | 0xF7 | 0xFE | 0xFF)
            || (op < 0x40 && op & 7 < 4),
        1 => !matches!(op, 0x05..=0x0B | 0x0D | 0x18..=0x1F | 0x30..=0x37 | 0x77 | 0x80..=0x8F | 0xA0..=0xA2 | 0xA8..=0xAA | 0xC8..=0xCF),
        _ => true,
    };
    if map == 0 && matches!(op, 0xA4 | 0xA5 | 0xAA | 0xAB) {
        return Some(Access { addr: reg(7), write: true });
    }
    if !has {
        return None;
    }
    let m = *p;
    p = p.add(1);
    let (md, r, rm) = (m >> 6, (m >> 3) & 7, m & 7);
    if md == 3 {
        return None;
    }
    let mut base = 0u64;
    let mut rip = false;
    let mut disp = match md {
        1 => 1,
        2 => 4,
        _ => 0,
    };
    if rm == 4 {
        let sib = *p;
        p = p.add(1);
        let (sc, ix, bs) = (sib >> 6, (sib >> 3 & 7) as usize | ((rex as usize & 2) << 2), (sib & 7) as usize | ((rex as usize & 1) << 3));
        if ix != 4 {
            base = reg(ix) << sc;
        }
        if bs & 7 == 5 && md == 0 {
            disp = 4;
        } else {
            base = base.wrapping_add(reg(bs));
        }
    } else if rm == 5 && md == 0 {
        rip = true;
        disp = 4;
    } else {
        base = reg(rm as usize | ((rex as usize & 1) << 3));
    }
    let d = match disp {
        1 => *p as i8 as i64,
        4 => (p as *const i32).read_unaligned() as i64,
        _ => 0,
    };
    p = p.add(disp);
    if rip {
        let imm = match (map, op) {
            (0, 0x80 | 0x83 | 0xC0 | 0xC1 | 0xC6 | 0x6B) => 1,
            (0, 0x81 | 0xC7 | 0x69) => if opsize { 2 } else { 4 },
            (0, 0xF6) if r < 2 => 1,
            (0, 0xF7) if r < 2 => if opsize { 2 } else { 4 },
            (1, 0xA4 | 0xAC | 0xBA | 0xC2 | 0xC4 | 0xC5 | 0xC6 | 0x70..=0x73) | (3, _) => 1,
            _ => 0,
        };
        base = p as u64 + imm;
    }
    let write = match map {
        0 => match op {
            0x80 | 0x81 | 0x83 => r != 7,
            0x86..=0x89 | 0x8F | 0xC0 | 0xC1 | 0xC6 | 0xC7 | 0xD0..=0xD3 => true,
            0xF6 | 0xF7 => r == 2 || r == 3,
            0xFE | 0xFF => r < 2,
            _ => op < 0x38 && op & 7 < 2,
        },
        1 => match op {
            0x7E => !rep3,
            0xBA => r > 4,
            0xC7 => r == 1,
            _ => matches!(op, 0x11 | 0x13 | 0x17 | 0x29 | 0x2B | 0x7F | 0xD6 | 0xE7 | 0x90..=0x9F | 0xA4 | 0xA5 | 0xAB..=0xAD | 0xB0 | 0xB1 | 0xB3 | 0xBB | 0xC0 | 0xC1 | 0xC3),
        },
        _ => false,
    };
    Some(Access { addr: base.wrapping_add(d as u64), write })
}

/// True if the instruction about to run touches state shared with other callers. `since` is the
/// serial number of the first block of the current operation.
pub unsafe fn shared(gregs: *const u64, since: u64) -> bool {
    let Some(a) = operand(gregs) else { return false };
    let (lo, hi) = (&raw const __data_start as u64, &raw const _end as u64);
    if (lo..hi).contains(&a.addr) {
        return !noise(*gregs.add(16));
    }
    let sp = *gregs.add(15);
    // The stack, and above it the thread's own variables.
    if a.addr > sp.wrapping_sub(1 << 16) && a.addr < sp + (2 << 20) {
        return false;
    }
    a.write && alloc::older_block(a.addr, since)
}
