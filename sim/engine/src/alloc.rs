//! The allocator seam. Every block carries a header and a trailing canary. Blocks requested by
//! the code under test are accounted, poisoned on allocation and on free, kept in quarantine
//! after free, checked for the exact layout they were allocated with, and may be refused by
//! a fault plan. Each of these calls is also a scheduling point.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering::Relaxed};

pub struct SimAlloc;

#[derive(Clone, Copy)]
pub struct Fault {
    /// Requests of at least this many bytes are candidates; 0 disables the plan.
    pub min_size: usize,
    /// Let this many candidates through first.
    pub skip: u32,
    /// Then refuse this many.
    pub refuse: u32,
}
pub const NO_FAULT: Fault = Fault { min_size: 0, skip: 0, refuse: 0 };

thread_local! {
    /// The current thread is executing code under test.
    pub static SUT: Cell<bool> = const { Cell::new(crate::SUT_DEFAULT) };
    /// The current thread is inside the allocator (or another part of the simulator).
    pub static INSIDE: Cell<u32> = const { Cell::new(0) };
    static FAULT: Cell<Fault> = const { Cell::new(NO_FAULT) };
    static FIRED: Cell<u32> = const { Cell::new(0) };
}

pub static LIVE_BYTES: AtomicI64 = AtomicI64::new(0);
pub static LIVE_BLOCKS: AtomicI64 = AtomicI64::new(0);
pub static PEAK: AtomicI64 = AtomicI64::new(0);
pub static ALLOCS: AtomicU64 = AtomicU64::new(0);
pub static LARGEST: AtomicU64 = AtomicU64::new(0);
/// First memory-discipline error seen, as a code (see `error_text`).
static ERROR: AtomicU64 = AtomicU64::new(0);
static ERROR_ARG: AtomicU64 = AtomicU64::new(0);
static SERIAL: AtomicU64 = AtomicU64::new(0);

const HDR: usize = 64;
const TAIL: usize = 16;
const LIVE_SUT: u64 = 0x51A1_115E_0001_A11E;
const LIVE_SIM: u64 = 0x51A1_115E_0002_A11E;
const FREED: u64 = 0x51A1_115E_0003_DEAD;
const CANARY: u64 = 0xC0DE_CAFE_F00D_5EED;

#[repr(C)]
struct Header {
    raw: *mut u8,
    raw_size: usize,
    size: usize,
    align: usize,
    serial: u64,
    raw_align: usize,
    guard: u64,
    magic: u64,
}

fn err(code: u64, arg: u64) {
    if ERROR.load(Relaxed) == 0 {
        ERROR_ARG.store(arg, Relaxed);
        ERROR.store(code, Relaxed);
    }
}

pub fn take_error() -> Option<String> {
    let c = ERROR.swap(0, Relaxed);
    let a = ERROR_ARG.load(Relaxed);
    match c {
        0 => None,
        1 => Some(format!("double free of a block of {a} bytes")),
        2 => Some("free of a pointer that was never allocated".to_string()),
        3 => Some(format!("block freed with a different size or alignment than it was allocated with ({a} bytes)")),
        4 => Some(format!("write past the end of a block of {a} bytes")),
        5 => Some(format!("write to a freed block of {a} bytes")),
        _ => Some(format!("write before the start of a block of {a} bytes")),
    }
}

pub fn set_fault(f: Fault) {
    FIRED.with(|x| x.set(0));
    FAULT.with(|x| x.set(f));
}
/// Removes the fault plan and says how many requests it refused.
pub fn clear_fault() -> u32 {
    FAULT.with(|x| x.set(NO_FAULT));
    FIRED.with(|x| x.replace(0))
}
pub fn fired() -> u32 {
    FIRED.with(|x| x.get())
}
pub fn reset_peak() -> i64 {
    let l = LIVE_BYTES.load(Relaxed);
    PEAK.store(l, Relaxed);
    LARGEST.store(0, Relaxed);
    l
}
pub fn peak() -> i64 {
    PEAK.load(Relaxed)
}

#[inline]
fn refused(size: usize) -> bool {
    let f = FAULT.with(|x| x.get());
    if f.min_size == 0 || size < f.min_size {
        return false;
    }
    if f.skip > 0 {
        FAULT.with(|x| x.set(Fault { skip: f.skip - 1, ..f }));
        return false;
    }
    if f.refuse > 0 {
        FAULT.with(|x| x.set(Fault { refuse: f.refuse - 1, ..f }));
        FIRED.with(|x| x.set(x.get() + 1));
        return true;
    }
    false
}

const QN: usize = 4096;
/// How many freed blocks are kept; with few, addresses are soon used again; with none, a freed
/// block is what the next request of its size gets.
pub static QUAR_KEEP: AtomicU64 = AtomicU64::new(QN as u64);
struct Quarantine {
    ring: [*mut u8; QN],
    head: usize,
    len: usize,
    bytes: usize,
}
static mut QUAR: Quarantine = Quarantine { ring: [std::ptr::null_mut(); QN], head: 0, len: 0, bytes: 0 };
static QLOCK: AtomicU64 = AtomicU64::new(0);

const CLASSES: usize = 256;
const PER_CLASS: usize = 64;
struct Again {
    ring: [[*mut u8; PER_CLASS]; CLASSES],
    len: [usize; CLASSES],
}
static mut AGAIN: Again = Again { ring: [[std::ptr::null_mut(); PER_CLASS]; CLASSES], len: [0; CLASSES] };
/// Blocks handed out again.
pub static REUSED: AtomicU64 = AtomicU64::new(0);

fn class(total: usize) -> Option<usize> {
    (QUAR_KEEP.load(Relaxed) == 0 && total / 16 < CLASSES).then_some(total / 16)
}
/// The block of this size freed last.
unsafe fn again(total: usize) -> *mut u8 {
    let Some(c) = class(total) else { return std::ptr::null_mut() };
    lock();
    let a = &mut *std::ptr::addr_of_mut!(AGAIN);
    let mut raw = std::ptr::null_mut();
    if a.len[c] > 0 {
        a.len[c] -= 1;
        let p = a.ring[c][a.len[c]];
        let h = p.sub(HDR) as *mut Header;
        check_poison(p, (*h).size);
        raw = (*h).raw;
        REUSED.fetch_add(1, Relaxed);
    }
    QLOCK.store(0, std::sync::atomic::Ordering::Release);
    raw
}
fn lock() {
    while QLOCK.compare_exchange(0, 1, std::sync::atomic::Ordering::Acquire, Relaxed).is_err() {
        std::hint::spin_loop();
    }
}

unsafe fn quarantine(p: *mut u8, size: usize) {
    lock();
    if let Some(c) = class((*(p.sub(HDR) as *mut Header)).raw_size) {
        let a = &mut *std::ptr::addr_of_mut!(AGAIN);
        if a.len[c] < PER_CLASS {
            a.ring[c][a.len[c]] = p;
            a.len[c] += 1;
            QLOCK.store(0, std::sync::atomic::Ordering::Release);
            return;
        }
    }
    let q = &mut *std::ptr::addr_of_mut!(QUAR);
    while q.len >= QN.min(QUAR_KEEP.load(Relaxed) as usize + 1) || (q.len > 0 && q.bytes + size > (64 << 20)) {
        evict(q);
    }
    q.ring[(q.head + q.len) % QN] = p;
    q.len += 1;
    q.bytes += size;
    QLOCK.store(0, std::sync::atomic::Ordering::Release);
}

unsafe fn check_poison(p: *mut u8, size: usize) {
    let n = size.min(2048);
    let s = std::slice::from_raw_parts(p, n);
    if s.iter().any(|b| *b != 0xDD) {
        err(5, size as u64);
    }
}

unsafe fn evict(q: &mut Quarantine) {
    let p = q.ring[q.head];
    q.head = (q.head + 1) % QN;
    q.len -= 1;
    let h = (p.sub(HDR)) as *mut Header;
    q.bytes -= (*h).size;
    check_poison(p, (*h).size);
    let (raw, n, a) = ((*h).raw, (*h).raw_size, (*h).raw_align);
    System.dealloc(raw, Layout::from_size_align_unchecked(n, a));
}

/// Verifies every quarantined block: nothing may have written to it since it was freed.
pub fn check_quarantine() {
    unsafe {
        let q = &*std::ptr::addr_of!(QUAR);
        for i in 0..q.len {
            let p = q.ring[(q.head + i) % QN];
            let h = (p.sub(HDR)) as *mut Header;
            check_poison(p, (*h).size);
        }
        let a = &*std::ptr::addr_of!(AGAIN);
        for c in 0..CLASSES {
            for p in &a.ring[c][..a.len[c]] {
                let h = (p.sub(HDR)) as *mut Header;
                check_poison(*p, (*h).size);
            }
        }
    }
}

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        let sut = SUT.with(|s| s.get()) && INSIDE.with(|i| i.get()) == 0;
        INSIDE.with(|i| i.set(i.get() + 1));
        let p = alloc_block(layout, sut);
        if sut {
            crate::seams::alloc_point();
        }
        INSIDE.with(|i| i.set(i.get() - 1));
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, layout: Layout) {
        let sut = SUT.with(|s| s.get()) && INSIDE.with(|i| i.get()) == 0;
        INSIDE.with(|i| i.set(i.get() + 1));
        free_block(p, layout);
        if sut {
            crate::seams::alloc_point();
        }
        INSIDE.with(|i| i.set(i.get() - 1));
    }
    unsafe fn alloc_zeroed(&self, layout: Layout) -> *mut u8 {
        let p = self.alloc(layout);
        if !p.is_null() {
            std::ptr::write_bytes(p, 0, layout.size());
        }
        p
    }
    unsafe fn realloc(&self, p: *mut u8, layout: Layout, new: usize) -> *mut u8 {
        // Always moves, so a stale pointer is a pointer to poison. Giving memory back never fails.
        let keep = (new <= layout.size()).then(|| FAULT.with(|x| x.replace(NO_FAULT)));
        let n = self.alloc(Layout::from_size_align_unchecked(new, layout.align()));
        if let Some(f) = keep {
            FAULT.with(|x| x.set(f));
        }
        if !n.is_null() {
            std::ptr::copy_nonoverlapping(p, n, layout.size().min(new));
            self.dealloc(p, layout);
        }
        n
    }
}

unsafe fn alloc_block(layout: Layout, sut: bool) -> *mut u8 {
    let size = layout.size();
    if sut {
        ALLOCS.fetch_add(1, Relaxed);
        LARGEST.fetch_max(size as u64, Relaxed);
        if refused(size) {
            return std::ptr::null_mut();
        }
    }
    let align = layout.align().max(64);
    let Some(total) = size.checked_add(HDR + TAIL + align + 15) else {
        return std::ptr::null_mut();
    };
    let total = total & !15;
    // The simulated machine has 2 GiB: larger requests are refused.
    if total > (2 << 30) {
        return std::ptr::null_mut();
    }
    let mut raw = if sut && align == 64 { again(total) } else { std::ptr::null_mut() };
    if raw.is_null() {
        raw = System.alloc(Layout::from_size_align_unchecked(total, 16));
    }
    if raw.is_null() {
        return raw;
    }
    let user = ((raw as usize + HDR + align - 1) & !(align - 1)) as *mut u8;
    let h = user.sub(HDR) as *mut Header;
    *h = Header {
        raw,
        raw_size: total,
        size,
        align: layout.align(),
        serial: SERIAL.fetch_add(1, Relaxed),
        raw_align: 16,
        guard: CANARY,
        magic: if sut { LIVE_SUT } else { LIVE_SIM },
    };
    if sut {
        LOWEST.fetch_min(user as u64, Relaxed);
        HIGHEST.fetch_max(user as u64 + size as u64, Relaxed);
        std::ptr::write_bytes(user, 0xA5, size.min(4096));
        let l = LIVE_BYTES.fetch_add(size as i64, Relaxed) + size as i64;
        LIVE_BLOCKS.fetch_add(1, Relaxed);
        PEAK.fetch_max(l, Relaxed);
    }
    (user.add(size) as *mut u64).write_unaligned(CANARY);
    (user.add(size + 8) as *mut u64).write_unaligned(CANARY);
    user
}

unsafe fn free_block(p: *mut u8, layout: Layout) {
    let h = p.sub(HDR) as *mut Header;
    let m = (*h).magic;
    if m == FREED {
        err(1, (*h).size as u64);
        return;
    }
    if m != LIVE_SUT && m != LIVE_SIM {
        err(2, 0);
        return;
    }
    let size = (*h).size;
    if size != layout.size() || (*h).align != layout.align() {
        err(3, size as u64);
    }
    if (*h).guard != CANARY {
        err(6, size as u64);
    }
    if (p.add(size) as *const u64).read_unaligned() != CANARY
        || (p.add(size + 8) as *const u64).read_unaligned() != CANARY
    {
        err(4, size as u64);
    }
    (*h).magic = FREED;
    if m == LIVE_SUT {
        LIVE_BYTES.fetch_sub(size as i64, Relaxed);
        LIVE_BLOCKS.fetch_sub(1, Relaxed);
        std::ptr::write_bytes(p, 0xDD, size.min(4096));
        quarantine(p, size);
    } else {
        let (raw, n, a) = ((*h).raw, (*h).raw_size, (*h).raw_align);
        System.dealloc(raw, Layout::from_size_align_unchecked(n, a));
    }
}

/// For the C API checks: the size of the live block, allocated by the code under test, that starts
/// at `p`.
pub fn block_size(p: *const u8) -> Option<usize> {
    if p.is_null() || (p as usize) % 64 != 0 {
        return None;
    }
    unsafe {
        let h = p.sub(HDR) as *const Header;
        ((*h).magic == LIVE_SUT).then(|| (*h).size)
    }
}

static LOWEST: AtomicU64 = AtomicU64::new(u64::MAX);
static HIGHEST: AtomicU64 = AtomicU64::new(0);

/// The serial number the next block will get.
pub fn next_serial() -> u64 {
    SERIAL.load(Relaxed)
}

/// True if the address lies in a live block of the code under test older than serial `since`.
pub fn older_block(addr: u64, since: u64) -> bool {
    if addr < LOWEST.load(Relaxed) || addr >= HIGHEST.load(Relaxed) {
        return false;
    }
    let mut p = addr & !63;
    for _ in 0..1024 {
        if p <= LOWEST.load(Relaxed) - HDR as u64 {
            return false;
        }
        unsafe {
            let h = (p - HDR as u64) as *const Header;
            if (*h).guard == CANARY {
                return (*h).magic == LIVE_SUT && (*h).serial < since && addr < p + (*h).size as u64;
            }
        }
        p -= 64;
    }
    false
}
