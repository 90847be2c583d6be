//! The seams through which the code under test meets the outside world: process entropy
//! (hash-map seeds), the clock, blocking, and the choice of who runs.
//!
//! Caller threads are real threads, but only one ever runs: each is parked on its own futex and
//! released by the coordinator. A running caller gives control back when its operation is done,
//! when it blocks on a futex of its own, or at a preemption point of the plan: after `y`
//! allocator events and then exactly `k` machine instructions of code under test, counted by
//! single-stepping the thread with the processor's trap flag. Instructions spent inside the
//! simulator's allocator are not counted.
use crate::alloc::{INSIDE, SUT};
use crate::os::*;
use std::cell::{Cell, UnsafeCell};
use std::sync::atomic::{AtomicU32, AtomicU64, Ordering::*};
use std::sync::Arc;

#[derive(Clone, Copy, Debug, PartialEq, Default)]
pub struct Pre {
    /// Allocator events to let pass.
    pub y: u32,
    /// Then instructions of code under test to let pass.
    pub k: u32,
    /// Plan steps to stay parked for.
    pub hold: u32,
}
pub const MAXPRE: usize = 4;
/// With this bit set, `k` counts not instructions but accesses to state that callers share.
pub const SHARED: u32 = 1 << 31;
/// Instructions to look through for them, per operation.
pub static LOOK: AtomicU32 = AtomicU32::new(60_000);
/// Such accesses seen while looking.
pub static SHARED_SEEN: AtomicU64 = AtomicU64::new(0);
pub static SHARED_PARKED: AtomicU64 = AtomicU64::new(0);

thread_local! {
    static ENTROPY: Cell<u64> = const { Cell::new(0x5EED) };
    static ENTROPY_USED: Cell<u64> = const { Cell::new(0) };
    static SELF: Cell<*const Client> = const { Cell::new(std::ptr::null()) };
    static PLAN: Cell<[(u32, u32); MAXPRE]> = const { Cell::new([(0, 0); MAXPRE]) };
    static PLAN_LEN: Cell<usize> = const { Cell::new(0) };
    static PLAN_POS: Cell<usize> = const { Cell::new(0) };
    static Y: Cell<u32> = const { Cell::new(0) };
    static K: Cell<u32> = const { Cell::new(0) };
    static WORK: Cell<u64> = const { Cell::new(0) };
    static LOOKED: Cell<u32> = const { Cell::new(0) };
    static SINCE: Cell<u64> = const { Cell::new(0) };
}

/// Limits the instructions code under test may execute on this thread until the limit is taken
/// away with 0; returns what was left. Exceeding it ends the run with a violation.
pub fn limit_work(n: u64) -> u64 {
    WORK.with(|w| w.replace(n))
}

/// Simulated time, in microseconds; advanced by the worlds.
pub static SIM_US: AtomicU64 = AtomicU64::new(0);
pub static STEPPED: AtomicU64 = AtomicU64::new(0);

pub fn set_entropy(seed: u64) {
    ENTROPY.with(|e| e.set(seed));
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(b: *mut u8, n: usize, _flags: u32) -> isize {
    for i in 0..n {
        let s = ENTROPY.with(|e| {
            let v = crate::rng::mix(e.get(), 0xE117);
            e.set(v);
            v
        });
        *b.add(i) = (s >> 24) as u8;
    }
    ENTROPY_USED.with(|e| e.set(e.get() + n as u64));
    n as isize
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(_clock: i32, t: *mut [i64; 2]) -> i32 {
    let us = SIM_US.load(Relaxed);
    (*t) = [1_700_000_000 + (us / 1_000_000) as i64, (us % 1_000_000) as i64 * 1000];
    0
}

/// Replaces libc's variadic `syscall`, which is how std waits on a futex.
#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    const WAIT: i64 = 0;
    const WAIT_BITSET: i64 = 9;
    if n == SYS_FUTEX && SUT.with(|s| s.get()) && matches!(b & 0x7f, WAIT | WAIT_BITSET) {
        let me = SELF.with(|s| s.get());
        if !me.is_null() {
            let word = &*(a as *const AtomicU32);
            if word.load(SeqCst) == c as u32 {
                // Waiting for another simulated caller: hand over, then report a wake-up.
                INSIDE.with(|i| i.set(i.get() + 1));
                (*me).yield_as(BLOCKED);
                INSIDE.with(|i| i.set(i.get() - 1));
                return 0;
            }
        }
    }
    if n == 318 {
        return getrandom(a as *mut u8, b as usize, 0) as i64;
    }
    let r = raw(n, a, b, c, d, e, f);
    if r < 0 {
        *__errno_location() = (-r) as i32;
        -1
    } else {
        r
    }
}

unsafe fn trap_on() {
    std::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq");
}
unsafe fn trap_off() {
    std::arch::asm!("pushfq", "and qword ptr [rsp], -257", "popfq");
}

extern "C" fn on_trap(_s: i32, _i: *mut u8, ctx: *mut u8) {
    if INSIDE.with(|i| i.get()) != 0 || !SUT.with(|s| s.get()) {
        return;
    }
    STEPPED.fetch_add(1, Relaxed);
    let w = WORK.with(|w| w.get());
    if w != 0 {
        if w == 1 {
            INSIDE.with(|i| i.set(i.get() + 1));
            crate::run::out_of_work();
        }
        WORK.with(|c| c.set(w - 1));
        return;
    }
    let k = K.with(|k| k.get());
    if k == 0 {
        unsafe { *(ctx.add(40 + 17 * 8) as *mut u64) &= !0x100 };
        return;
    }
    if k & SHARED != 0 {
        let left = LOOKED.with(|l| l.get());
        LOOKED.with(|l| l.set(left.saturating_sub(1)));
        if left == 0 {
            // Enough: the rest of the operation runs at full speed.
            K.with(|c| c.set(0));
            PLAN_LEN.with(|l| l.set(0));
            unsafe { *(ctx.add(40 + 17 * 8) as *mut u64) &= !0x100 };
            return;
        }
        if !unsafe { crate::watch::shared(ctx.add(40) as *const u64, SINCE.with(|s| s.get())) } {
            return;
        }
        SHARED_SEEN.fetch_add(1, Relaxed);
        if k & !SHARED > 1 {
            K.with(|c| c.set(k - 1));
            return;
        }
        SHARED_PARKED.fetch_add(1, Relaxed);
    } else if k > 1 {
        K.with(|c| c.set(k - 1));
        return;
    }
    unsafe {
        // Trap flag off in the interrupted context, unless the next preemption starts at once.
        let efl = ctx.add(40 + 17 * 8) as *mut u64;
        *efl &= !0x100;
        INSIDE.with(|i| i.set(i.get() + 1));
        let me = SELF.with(|s| s.get());
        if !me.is_null() {
            (*me).yield_as(PARKED);
        }
        INSIDE.with(|i| i.set(i.get() - 1));
        if next_pre() {
            *efl |= 0x100;
        }
    }
}

/// Arms the next preemption of the plan. True: start stepping now.
fn next_pre() -> bool {
    let p = PLAN_POS.with(|p| p.replace(p.get() + 1));
    if p >= PLAN_LEN.with(|l| l.get()) {
        K.with(|k| k.set(0));
        Y.with(|y| y.set(0));
        return false;
    }
    let (y, k) = PLAN.with(|x| x.get())[p];
    Y.with(|c| c.set(y));
    K.with(|c| c.set(k.max(1)));
    y == 0
}

/// Called by the allocator, on a thread running code under test.
pub fn alloc_point() {
    let y = Y.with(|y| y.get());
    if y == 0 {
        return;
    }
    Y.with(|c| c.set(y - 1));
    if y == 1 {
        unsafe { trap_on() };
    }
}

pub fn install_trap() {
    unsafe { on_signal(5, on_trap as *const () as usize, 0x4 | 0x4000_0000) };
}

/// Learns which instructions of the standard library touch statics of its own when a hash map is
/// made; those are no state of the code under test. To be called once, before anything is forked.
pub fn calibrate() {
    install_trap();
    let w: fn() = || {
        std::hint::black_box(std::collections::hash_map::RandomState::new());
    };
    crate::watch::learn(true);
    let _ = std::thread::spawn(move || {
        K.with(|k| k.set(SHARED | (SHARED - 1)));
        LOOKED.with(|l| l.set(u32::MAX));
        PLAN_LEN.with(|l| l.set(1));
        sut(w);
        PLAN_LEN.with(|l| l.set(0));
        K.with(|k| k.set(0));
    })
    .join();
    crate::watch::learn(false);
    SHARED_SEEN.store(0, Relaxed);
    STEPPED.store(0, Relaxed);
}

struct Leave;
impl Drop for Leave {
    fn drop(&mut self) {
        // In this order: a preemption that fires in here must not turn stepping on again.
        SUT.with(|s| s.set(false));
        unsafe { trap_off() };
    }
}

/// Runs code under test on this thread.
#[inline(never)]
pub fn sut<R>(f: impl FnOnce() -> R) -> R {
    let leave = Leave;
    SUT.with(|s| s.set(true));
    let armed = PLAN_LEN.with(|l| l.get()) != 0
        && Y.with(|y| y.get()) == 0
        && K.with(|k| k.get()) != 0;
    if armed || WORK.with(|w| w.get()) != 0 {
        unsafe { trap_on() };
    }
    let r = f();
    drop(leave);
    r
}

/// Runs simulator code in the middle of code under test (a callback).
pub fn inside<R>(f: impl FnOnce() -> R) -> R {
    INSIDE.with(|i| i.set(i.get() + 1));
    let r = f();
    INSIDE.with(|i| i.set(i.get() - 1));
    r
}

// ---- callers ----

pub type Job = Box<dyn FnOnce() -> Result<u64, Viol> + Send>;

#[derive(Debug, Clone)]
pub struct Viol {
    pub class: String,
    pub msg: String,
}
impl Viol {
    pub fn new(class: &str, msg: impl Into<String>) -> Viol {
        Viol { class: class.to_string(), msg: msg.into() }
    }
}

pub const IDLE: u32 = 0;
pub const RUN: u32 = 1;
pub const DONE: u32 = 2;
pub const PARKED: u32 = 3;
pub const BLOCKED: u32 = 4;
pub const QUIT: u32 = 5;

pub struct Client {
    pub state: AtomicU32,
    /// Blocks older than this are not of the operation's own making; 0 when it may write to them.
    pub since: AtomicU64,
    job: UnsafeCell<Option<(Job, Vec<Pre>)>>,
    out: UnsafeCell<Option<Result<u64, Viol>>>,
}
unsafe impl Sync for Client {}
unsafe impl Send for Client {}

impl Client {
    unsafe fn yield_as(&self, s: u32) {
        self.state.store(s, SeqCst);
        futex_wake(&self.state);
        while self.state.load(SeqCst) == s {
            futex_wait(&self.state, s);
        }
    }
    /// Coordinator: wait until the caller gives control back.
    fn wait(&self) -> u32 {
        loop {
            let s = self.state.load(SeqCst);
            if s != RUN {
                return s;
            }
            futex_wait(&self.state, RUN);
        }
    }
    pub fn start(&self, job: Job, pre: Vec<Pre>) -> u32 {
        unsafe { *self.job.get() = Some((job, pre)) };
        self.state.store(RUN, SeqCst);
        futex_wake(&self.state);
        self.wait()
    }
    pub fn resume(&self) -> u32 {
        self.state.store(RUN, SeqCst);
        futex_wake(&self.state);
        self.wait()
    }
    pub fn take(&self) -> Result<u64, Viol> {
        let r = unsafe { (*self.out.get()).take() };
        self.state.store(IDLE, SeqCst);
        r.expect("caller result")
    }
    /// Ends an idle caller thread (a process exit).
    pub fn quit(&self) {
        self.state.store(QUIT, SeqCst);
        futex_wake(&self.state);
    }
}

pub fn panic_text(e: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".to_string()
    }
}

thread_local! { static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) }; }

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        inside(|| {
            let at = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            let s = format!("{} at {}", i.payload_as_str().unwrap_or("panic"), at);
            LAST_PANIC.with(|p| *p.borrow_mut() = s.clone());
            if std::env::var_os("GSIM_STDERR").is_some() {
                eprintln!("panic: {s}");
            }
        })
    }));
}

/// Starts a caller thread whose process entropy is `entropy`.
pub fn spawn(entropy: u64) -> Arc<Client> {
    let c = Arc::new(Client {
        state: AtomicU32::new(IDLE),
        since: AtomicU64::new(0),
        job: UnsafeCell::new(None),
        out: UnsafeCell::new(None),
    });
    let me = c.clone();
    std::thread::Builder::new()
        .stack_size(256 << 10)
        .spawn(move || {
            set_entropy(entropy);
            SELF.with(|s| s.set(&*me as *const _));
            loop {
                while me.state.load(SeqCst) != RUN {
                    if me.state.load(SeqCst) == QUIT {
                        return;
                    }
                    let s = me.state.load(SeqCst);
                    if s != RUN && s != QUIT {
                        futex_wait(&me.state, s);
                    }
                }
                let (job, pre) = unsafe { (*me.job.get()).take().expect("job") };
                let mut a = [(0u32, 0u32); MAXPRE];
                for (i, p) in pre.iter().take(MAXPRE).enumerate() {
                    a[i] = (p.y, p.k);
                }
                PLAN.with(|x| x.set(a));
                PLAN_LEN.with(|x| x.set(pre.len().min(MAXPRE)));
                PLAN_POS.with(|x| x.set(0));
                LOOKED.with(|l| l.set(LOOK.load(Relaxed)));
                SINCE.with(|s| s.set(me.since.load(Relaxed)));
                next_pre();
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(job));
                crate::alloc::clear_fault();
                PLAN_LEN.with(|x| x.set(0));
                Y.with(|x| x.set(0));
                K.with(|x| x.set(0));
                let r = match r {
                    Ok(r) => r,
                    Err(e) => {
                        let t = panic_text(e);
                        let full = LAST_PANIC.with(|p| p.borrow().clone());
                        let full = if full.is_empty() { t } else { full };
                        // A panic of the simulator's own is not a finding.
                        let class = if full.contains(" at src/") { "harness" } else { "panic" };
                        Err(Viol::new(class, full))
                    }
                };
                unsafe { *me.out.get() = Some(r) };
                me.state.store(DONE, SeqCst);
                futex_wake(&me.state);
            }
        })
        .expect("spawn caller");
    c
}
