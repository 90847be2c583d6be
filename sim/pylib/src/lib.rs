//! The C API as the shared library the Python package loads, with the simulator's allocator in
//! it, process entropy behind a seam, and a few functions through which the driver controls them.
#[path = "../../engine/src/alloc.rs"]
#[allow(dead_code)]
mod alloc;
mod seams {
    pub fn alloc_point() {}
}
/// Every allocation of this library is the code under test's.
pub const SUT_DEFAULT: bool = true;

#[global_allocator]
static ALLOC: alloc::SimAlloc = alloc::SimAlloc;

use std::cell::Cell;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};

// Keeps the C API linked in.
#[used]
static KEEP: extern "C" fn() -> capi::GphrxGraph = capi::gphrx_new_directed;

static SEED: AtomicU64 = AtomicU64::new(0x5EED);
thread_local! { static ENTROPY: Cell<u64> = const { Cell::new(0) }; }

#[no_mangle]
pub unsafe extern "C" fn getrandom(b: *mut u8, n: usize, _flags: u32) -> isize {
    for i in 0..n {
        let s = ENTROPY.with(|e| {
            let v = e.get().wrapping_add(SEED.load(SeqCst)).wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ (e.get() >> 29);
            e.set(v);
            v
        });
        *b.add(i) = (s >> 24) as u8;
    }
    n as isize
}
#[no_mangle]
pub extern "C" fn sim_entropy(s: u64) {
    SEED.store(s | 1, SeqCst);
}
#[no_mangle]
pub extern "C" fn sim_thread_entropy(s: u64) {
    ENTROPY.with(|e| e.set(s));
}
#[no_mangle]
pub extern "C" fn sim_fault(min_size: usize, skip: u32, refuse: u32) {
    alloc::set_fault(alloc::Fault { min_size, skip, refuse });
}
#[no_mangle]
pub extern "C" fn sim_clear_fault() -> u32 {
    alloc::clear_fault()
}
#[no_mangle]
pub extern "C" fn sim_live() -> i64 {
    alloc::LIVE_BYTES.load(SeqCst)
}
#[no_mangle]
pub extern "C" fn sim_blocks() -> i64 {
    alloc::LIVE_BLOCKS.load(SeqCst)
}
/// Writes the first memory error since the last call, if any, as text; returns its length.
#[no_mangle]
pub unsafe extern "C" fn sim_error(out: *mut u8, n: usize) -> usize {
    alloc::check_quarantine();
    let Some(e) = alloc::take_error() else { return 0 };
    let k = e.len().min(n);
    std::ptr::copy_nonoverlapping(e.as_ptr(), out, k);
    k
}

#[no_mangle]
pub extern "C" fn sim_quarantine(n: u64) {
    alloc::QUAR_KEEP.store(n.min(4095), SeqCst);
}

extern "C" {
    fn atexit(f: extern "C" fn()) -> i32;
    fn write(fd: i32, b: *const u8, n: usize) -> isize;
}
static REPORT_FD: AtomicU64 = AtomicU64::new(u64::MAX);
extern "C" fn at_exit() {
    let fd = REPORT_FD.swap(u64::MAX, SeqCst);
    if fd != u64::MAX {
        let mut b = [0u8; 300];
        b[0] = b'E';
        let n = unsafe { sim_error(b.as_mut_ptr().add(1), 299) };
        unsafe { write(fd as i32, b.as_ptr(), n + 1) };
    }
}
/// Has the first memory error, if any, written to `fd` when the process exits, after the
/// interpreter is gone.
#[no_mangle]
pub extern "C" fn sim_report_at_exit(fd: i32) {
    REPORT_FD.store(fd as u64, SeqCst);
    unsafe { atexit(at_exit) };
}
