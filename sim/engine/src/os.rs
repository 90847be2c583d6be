//! Raw operating-system calls used by the simulator itself. None of these go through the seams
//! that the code under test sees (`syscall`, `clock_gettime`, `getrandom`).
#![allow(non_camel_case_types)]
use std::sync::atomic::AtomicU32;

extern "C" {
    pub fn fork() -> i32;
    pub fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
    pub fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    pub fn munmap(a: *mut u8, n: usize) -> i32;
    pub fn _exit(code: i32) -> !;
    pub fn kill(pid: i32, sig: i32) -> i32;
    pub fn getpid() -> i32;
    fn sigaction(sig: i32, act: *const [u64; 19], old: *mut [u64; 19]) -> i32;
    fn setitimer(which: i32, new: *const [i64; 4], old: *mut [i64; 4]) -> i32;
    fn setrlimit(which: i32, lim: *const [u64; 2]) -> i32;
    fn dup2(a: i32, b: i32) -> i32;
    fn open(path: *const i8, flags: i32, ...) -> i32;
    pub fn __errno_location() -> *mut i32;
}

/// A system call made directly, past the `syscall` symbol the simulator replaces.
#[inline(always)]
pub unsafe fn raw(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r;
    std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c,
        in("r10") d, in("r8") e, in("r9") f, out("rcx") _, out("r11") _);
    r
}

pub const SYS_FUTEX: i64 = 202;

#[inline(always)]
pub fn futex_wait(a: &AtomicU32, val: u32) {
    unsafe { raw(SYS_FUTEX, a as *const _ as i64, 128, val as i64, 0, 0, 0) };
}
#[inline(always)]
pub fn futex_wake(a: &AtomicU32) {
    unsafe { raw(SYS_FUTEX, a as *const _ as i64, 129, 1, 0, 0, 0) };
}

/// Real monotonic time in nanoseconds: for budgets and reports only, never for a decision inside
/// a simulated run.
pub fn real_ns() -> u64 {
    let mut t = [0i64; 2];
    unsafe { raw(228, 1, t.as_mut_ptr() as i64, 0, 0, 0, 0) };
    t[0] as u64 * 1_000_000_000 + t[1] as u64
}

pub fn shared_mem(n: usize) -> *mut u8 {
    unsafe {
        let p = mmap(std::ptr::null_mut(), n, 3, 0x21, -1, 0);
        assert!(p as isize != -1, "mmap failed");
        p
    }
}

pub unsafe fn on_signal(sig: i32, h: usize, flags: u64) {
    // glibc layout: handler, 128-byte mask, flags (int), restorer
    let mut a = [0u64; 19];
    a[0] = h as u64;
    a[17] = flags;
    sigaction(sig, &a, std::ptr::null_mut());
}

/// Ends this process with SIGPROF after `cpu_s` seconds of CPU time and SIGALRM after `wall_s`.
pub fn watchdog(cpu_s: i64, wall_s: i64) {
    unsafe {
        setitimer(2, &[0, 0, cpu_s, 0], std::ptr::null_mut());
        setitimer(0, &[0, 0, wall_s, 0], std::ptr::null_mut());
    }
}

pub fn no_core_dumps() {
    unsafe {
        setrlimit(4, &[0, 0]);
    }
}

/// Sends a forked run's standard error to /dev/null, or to the file named by GSIM_STDERR.
pub fn quiet_stderr() {
    if std::env::var_os("GSIM_STDERR").is_some() {
        return;
    }
    unsafe {
        let fd = open(c"/dev/null".as_ptr(), 1);
        if fd >= 0 {
            dup2(fd, 2);
        }
    }
}
