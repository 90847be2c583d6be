//! One simulated execution: the coordinator that releases callers one at a time, the shared
//! result page of the forked process it runs in, and the counters behind the evidence.
use crate::alloc;
use crate::rng::mix;
use crate::seams::*;
use std::sync::Arc;

macro_rules! counters { ($($n:ident),* $(,)?) => {
    #[allow(non_camel_case_types, dead_code, clippy::upper_case_acronyms)]
    #[derive(Clone, Copy)]
    pub enum Ctr { $($n),*, LAST }
    pub const CTR_NAMES: &[&str] = &[$(stringify!($n)),*];
} }
counters!(
    steps, ops_completed, steps_skipped, preempted_at_instruction, preempted_at_shared_access, shared_accesses_seen,
    futex_blocks, instructions_stepped, overlapped_ops, callers_started, sim_us, comparisons,
    graphs_made, objects_dropped, edges_added, edges_deleted, bulk_edges,
    f_alloc_refused, f_alloc_too_large, f_crash, f_crash_mid_op, f_crash_mid_write, f_crash_before_sync, f_crash_before_rename,
    f_torn_write, f_lost_sector, f_short_write, f_short_read, f_eio_write, f_eio_sync, f_enospc, f_bit_flip,
    f_truncate, f_extend, f_zero_sector, f_dup_record, f_drop_record, f_swap_record, f_header_edit, f_splice, f_flip_flag,
    f_msg_drop, f_msg_dup, f_msg_reorder, f_msg_delay, f_partition, f_heal, f_node_crash, f_node_stall, f_chunk_corrupt,
    f_null_handle, f_null_out, f_hostile_header, f_huge_id, f_hash_reseed, f_caller_exit, f_address_reused,
    saves_acked, saves_failed, loads_ok, loads_refused, loads_refused_ok, images_accepted_noncanonical,
    old_build_reads, old_build_writes, converged_checks, snapshots_installed,
    derivations, boundary_thresholds, level_boundary_blocks, huge_blocks, big_graphs, buffers_freed, handles_freed,
    solo_confirmations, schedule_violations_not_confirmed, retries_after_fault, renders
);

pub const NFP: usize = 512;
#[repr(C)]
pub struct Page {
    pub finished: u32,
    pub violated: u32,
    pub class: [u8; 96],
    pub msg: [u8; 4000],
    pub at_step: u64,
    pub digest: u64,
    pub nfp: u32,
    pub fp: [u64; NFP],
    pub ctr: [u64; 128],
    /// Steps (by number, up to 128) during which state shared by callers was touched.
    pub hot: [u64; 2],
    pub trace_len: u32,
    pub trace: [u8; 60_000],
}

pub fn put(dst: &mut [u8], s: &str) {
    let n = s.len().min(dst.len() - 1);
    dst[..n].copy_from_slice(&s.as_bytes()[..n]);
    dst[n] = 0;
}
pub fn get(src: &[u8]) -> String {
    let n = src.iter().position(|b| *b == 0).unwrap_or(src.len());
    String::from_utf8_lossy(&src[..n]).into_owned()
}

/// Where a run that must end at once leaves its verdict.
static PAGE: std::sync::atomic::AtomicPtr<Page> = std::sync::atomic::AtomicPtr::new(std::ptr::null_mut());
static ABOUT: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());

/// What to say if the work limit set next is exceeded.
pub fn about(s: &str) {
    *ABOUT.lock().unwrap() = s.to_string();
}
/// Ends the run: the code under test used up its work limit.
pub fn out_of_work() -> ! {
    unsafe {
        let page = &mut *PAGE.load(std::sync::atomic::Ordering::SeqCst);
        put(&mut page.class, "cost:work");
        put(&mut page.msg, &ABOUT.lock().unwrap());
        page.violated = 1;
        page.finished = 1;
        crate::os::_exit(0)
    }
}

struct Pending {
    client: usize,
    due: u64,
    touch: Vec<(usize, bool)>,
    holds: Vec<u32>,
    step: u64,
}

pub struct Run {
    pub page: &'static mut Page,
    pub clients: Vec<Arc<Client>>,
    ent: u64,
    born: u64,
    pending: Vec<Pending>,
    pub step: u64,
    /// Ignore preemption points (used to confirm that a violation needs the schedule).
    pub serial: bool,
    pub trace: bool,
}

impl Run {
    pub fn new(page: &'static mut Page, ent: u64, callers: usize) -> Run {
        PAGE.store(page, std::sync::atomic::Ordering::SeqCst);
        let mut r = Run { page, clients: vec![], ent, born: 0, pending: vec![], step: 0, serial: false, trace: false };
        for _ in 0..callers.max(1) {
            r.add_client();
        }
        r
    }
    pub fn add_client(&mut self) -> usize {
        self.born += 1;
        let e = mix(self.ent, self.born);
        self.clients.push(spawn(e));
        self.ctr(Ctr::callers_started, 1);
        self.clients.len() - 1
    }
    /// The caller's process dies and a new one, with fresh entropy, takes its place.
    pub fn restart_client(&mut self, c: usize) -> Result<(), Viol> {
        let c = c % self.clients.len();
        self.settle(c)?;
        self.clients[c].quit();
        self.born += 1;
        let e = mix(self.ent, self.born);
        self.clients[c] = spawn(e);
        self.ctr(Ctr::callers_started, 1);
        self.ctr(Ctr::f_hash_reseed, 1);
        Ok(())
    }
    /// Every caller's process dies where it stands, in the middle of an operation or not; new
    /// ones with fresh entropy take their places. What the dead ones were holding is lost.
    pub fn crash_all(&mut self) -> Result<(), Viol> {
        for c in 0..self.clients.len() {
            self.kill_client(c)?;
        }
        Ok(())
    }
    /// The same for one caller.
    pub fn kill_client(&mut self, c: usize) -> Result<(), Viol> {
        let n = self.pending.len();
        self.pending.retain(|p| p.client != c);
        if self.pending.len() < n {
            self.ctr(Ctr::f_crash_mid_op, 1);
        } else {
            self.clients[c].quit();
        }
        self.born += 1;
        let e = mix(self.ent, self.born);
        self.clients[c] = spawn(e);
        self.ctr(Ctr::callers_started, 1);
        self.ctr(Ctr::f_hash_reseed, 1);
        if let Some(e) = alloc::take_error() {
            return Err(Viol::new("memory", e));
        }
        Ok(())
    }
    pub fn ctr(&mut self, c: Ctr, n: u64) {
        self.page.ctr[c as usize] += n;
    }
    pub fn fp(&mut self, h: u64) {
        let n = self.page.nfp as usize;
        if n < NFP {
            self.page.fp[n] = h;
            self.page.nfp += 1;
        }
    }
    pub fn note(&mut self, h: u64) {
        self.page.digest = mix(self.page.digest, h);
    }
    pub fn say(&mut self, s: &str) {
        if self.trace {
            let at = self.page.trace_len as usize;
            let n = s.len().min(self.page.trace.len() - at - 1);
            self.page.trace[at..at + n].copy_from_slice(&s.as_bytes()[..n]);
            self.page.trace[at + n] = b'\n';
            self.page.trace_len = (at + n + if at + n + 1 < self.page.trace.len() { 1 } else { 0 }) as u32;
        }
    }
    /// Advances simulated time and resumes parked callers whose time has come.
    pub fn tick(&mut self) -> Result<(), Viol> {
        self.step += 1;
        self.ctr(Ctr::steps, 1);
        SIM_US.fetch_add(1000, std::sync::atomic::Ordering::Relaxed);
        self.page.ctr[Ctr::sim_us as usize] += 1000;
        self.page.at_step = self.step;
        while let Some(i) = self.pending.iter().position(|p| p.due <= self.step) {
            let p = self.pending.remove(i);
            self.go_on(p, false)?;
        }
        Ok(())
    }
    pub fn busy(&self, client: usize) -> bool {
        self.pending.iter().any(|p| p.client == client)
    }
    /// Runs the caller's unfinished operation, if any, to its end.
    pub fn settle(&mut self, client: usize) -> Result<(), Viol> {
        while let Some(i) = self.pending.iter().position(|p| p.client == client) {
            let p = self.pending.remove(i);
            self.go_on(p, true)?;
        }
        Ok(())
    }
    pub fn settle_objects(&mut self, touch: &[(usize, bool)]) -> Result<(), Viol> {
        while let Some(i) = self.pending.iter().position(|p| {
            p.touch.iter().any(|(o, w)| touch.iter().any(|(o2, w2)| o == o2 && (*w || *w2)))
        }) {
            let p = self.pending.remove(i);
            self.go_on(p, true)?;
        }
        Ok(())
    }
    pub fn drain(&mut self) -> Result<(), Viol> {
        while !self.pending.is_empty() {
            let p = self.pending.remove(0);
            self.go_on(p, true)?;
        }
        Ok(())
    }
    /// Starts an operation on a caller. Objects are `(index, exclusive)`; an unfinished operation
    /// that would alias is run to its end first, as Rust's borrow rules require.
    pub fn submit(&mut self, client: usize, touch: &[(usize, bool)], pre: &[Pre], job: Job) -> Result<(), Viol> {
        let client = client % self.clients.len();
        self.settle(client)?;
        self.settle_objects(touch)?;
        if !self.pending.is_empty() {
            self.ctr(Ctr::overlapped_ops, 1);
        }
        let pre: Vec<Pre> = if self.serial { vec![] } else { pre.to_vec() };
        let holds: Vec<u32> = pre.iter().map(|p| p.hold).collect();
        let reads = touch.iter().any(|t| !t.1);
        self.clients[client].since.store(if reads { alloc::next_serial() } else { 0 }, std::sync::atomic::Ordering::Relaxed);
        let s = self.clients[client].start(job, pre);
        let p = Pending { client, due: 0, touch: touch.to_vec(), holds, step: self.step };
        self.after(p, s, false)
    }
    fn go_on(&mut self, p: Pending, to_end: bool) -> Result<(), Viol> {
        let s = self.clients[p.client].resume();
        self.after(p, s, to_end)
    }
    fn after(&mut self, mut p: Pending, mut s: u32, to_end: bool) -> Result<(), Viol> {
        let mut spins = 0;
        loop {
            match s {
                DONE => {
                    self.ctr(Ctr::ops_completed, 1);
                    self.page.ctr[Ctr::instructions_stepped as usize] =
                        STEPPED.load(std::sync::atomic::Ordering::Relaxed);
                    let seen = SHARED_SEEN.load(std::sync::atomic::Ordering::Relaxed);
                    if seen > std::mem::replace(&mut self.page.ctr[Ctr::shared_accesses_seen as usize], seen) && p.step <= 128 && p.step > 0 {
                        self.page.hot[(p.step as usize - 1) / 64] |= 1 << ((p.step - 1) % 64);
                    }
                    self.page.ctr[Ctr::preempted_at_shared_access as usize] = SHARED_PARKED.load(std::sync::atomic::Ordering::Relaxed);
                    let r = self.clients[p.client].take();
                    if let Some(e) = alloc::take_error() {
                        return Err(Viol::new("memory", e));
                    }
                    let d = r?;
                    self.note(mix(d, p.step));
                    return Ok(());
                }
                PARKED => {
                    self.ctr(Ctr::preempted_at_instruction, 1);
                    let h = if p.holds.is_empty() { 1 } else { p.holds.remove(0) };
                    if !to_end {
                        p.due = self.step + h.max(1) as u64;
                        self.pending.push(p);
                        return Ok(());
                    }
                }
                BLOCKED => {
                    self.ctr(Ctr::futex_blocks, 1);
                    // Somebody else must be holding what this caller waits for.
                    if self.pending.is_empty() {
                        spins += 1;
                        if spins > 50 {
                            return Err(Viol::new("deadlock", "a caller waits for ever: every other caller is idle"));
                        }
                    } else {
                        let q = self.pending.remove(0);
                        self.go_on(q, true)?;
                    }
                }
                other => return Err(Viol::new("harness", format!("caller state {other}"))),
            }
            s = self.clients[p.client].resume();
        }
    }
}
