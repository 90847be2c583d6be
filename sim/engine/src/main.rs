//! gsim: deterministic simulation of graphrox with fault injection.
//!
//!   gsim check <property> [--tier quick|thorough] [--runs N] [--secs N] [--workers N]
//!   gsim replay <plan file>
//!   gsim digest <property> [--runs N] [--workers N]     (determinism self-test)
//!   gsim show <property> <run index>                     (print a plan)
mod alloc;
mod gen;
mod model;
mod num;
mod obs;
mod os;
mod plan;
mod props;
mod rng;
mod run;
mod seams;
mod shrink;
mod watch;
mod world_builder;
mod world_bytes;
mod world_c;
mod world_cost;
mod world_disk;
mod world_net;
mod world_obj;
mod world_text;

use os::*;
use plan::*;
use rng::*;
use run::*;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::*};

#[global_allocator]
static ALLOC: alloc::SimAlloc = alloc::SimAlloc;

/// Threads run simulator code unless they say otherwise (see `seams::sut`).
pub const SUT_DEFAULT: bool = false;

pub const EXIT_HARNESS: i32 = 2;

#[derive(Clone, Debug, PartialEq)]
pub struct Failure {
    pub class: String,
    pub msg: String,
    pub step: u64,
}

fn clear(page: &mut Page) {
    page.finished = 0;
    page.violated = 0;
    page.class[0] = 0;
    page.msg[0] = 0;
    page.at_step = 0;
    page.digest = 0;
    page.nfp = 0;
    page.ctr = [0; 128];
    page.hot = [0; 2];
    page.trace_len = 0;
}

pub fn new_page() -> &'static mut Page {
    unsafe { &mut *(shared_mem(std::mem::size_of::<Page>()) as *mut Page) }
}

/// One simulated execution, in a process of its own forked from this one. Everything it does is
/// a function of the plan and the code under test.
pub fn run_forked(plan: &Plan, page: &mut Page, trace: bool) -> Option<Failure> {
    clear(page);
    let (cpu, wall) = props::watchdog(&plan.prop);
    unsafe {
        let pid = fork();
        if pid < 0 {
            return Some(Failure { class: "harness".into(), msg: "fork failed".into(), step: 0 });
        }
        if pid == 0 {
            quiet_stderr();
            watchdog(cpu, wall);
            seams::install_panic_hook();
            seams::install_trap();
            let page: &'static mut Page = &mut *(page as *mut Page);
            let pp = page as *mut Page;
            let mut run = Run::new(page, plan.get("entropy"), plan.get("callers") as usize);
            run.serial = plan.get("serial") == 1;
            run.trace = trace;
            if plan.get("look") > 0 {
                seams::LOOK.store(plan.get("look") as u32, Relaxed);
            }
            if plan.get("reuse") == 1 {
                alloc::QUAR_KEEP.store(0, Relaxed);
            }
            let r = props::exec(plan, &mut run);
            let page = &mut *pp;
            page.ctr[Ctr::f_address_reused as usize] = alloc::REUSED.load(Relaxed);
            if let Err(v) = r {
                page.violated = 1;
                put(&mut page.class, &v.class);
                put(&mut page.msg, &v.msg);
            }
            page.finished = 1;
            _exit(0);
        }
        let mut st = 0;
        while waitpid(pid, &mut st, 0) != pid {}
        let step = page.at_step;
        if page.finished == 1 {
            return (page.violated == 1).then(|| Failure { class: get(&page.class), msg: get(&page.msg), step });
        }
        let (sig, code) = (st & 0x7f, st >> 8 & 0xff);
        let (class, msg) = match sig {
            27 => ("hang".to_string(), format!("no end after {cpu} s of processor time")),
            14 => ("hang".to_string(), format!("no end after {wall} s")),
            6 => ("abort".to_string(), "the process was aborted".to_string()),
            9 => ("harness".to_string(), "run killed from outside (memory?)".to_string()),
            0 if code == 101 => ("harness".to_string(), "the coordinator panicked".to_string()),
            0 => ("exit".to_string(), format!("the process exited with code {code} in the middle of a call")),
            s => (format!("signal{s}"), format!("the process died of signal {s}")),
        };
        Some(Failure { class, msg, step })
    }
}

/// A violation counts for its property only if the property's own rule says so (see DESIGN.md:
/// for C15, a plan that fails for one caller running alone is not a disturbance by others).
fn counts(plan: &Plan, page: &mut Page) -> Option<Failure> {
    let f = run_forked(plan, page, false)?;
    if f.class.starts_with("harness") {
        return Some(f);
    }
    if plan.prop == "C15" {
        for c in 0..plan.get("callers").max(1) {
            let mut p = plan.clone();
            p.set("only", c);
            p.set("serial", 1);
            if run_forked(&p, page, false).is_some() {
                return None;
            }
        }
    }
    Some(f)
}

#[repr(C)]
struct Control {
    next: AtomicU64,
    limit: AtomicU64,
    done: AtomicU64,
    viol: AtomicU64,
    harness: AtomicU64,
    discarded: AtomicU64,
    unconfirmed: AtomicU64,
    /// The class of the failure with the lowest index depends on real time.
    by_time: AtomicU64,
    digest: AtomicU64,
    distinct_runs: AtomicU64,
    distinct_states: AtomicU64,
    trivial: AtomicU64,
    largest: AtomicU64,
    slowest_us: AtomicU64,
    ctr: [AtomicU64; 128],
}

/// A shared set of fingerprints: lock-free, insert only.
struct FpSet {
    slots: &'static [AtomicU64],
    used: &'static AtomicU64,
}
impl FpSet {
    fn new(bits: u32, used: &'static AtomicU64) -> FpSet {
        let n = 1usize << bits;
        let p = shared_mem(n * 8) as *const AtomicU64;
        FpSet { slots: unsafe { std::slice::from_raw_parts(p, n) }, used }
    }
    fn insert(&self, h: u64) {
        let h = h | 1;
        let n = self.slots.len();
        if self.used.load(Relaxed) as usize > n / 10 * 8 {
            return;
        }
        let mut i = (h >> 7) as usize % n;
        loop {
            match self.slots[i].compare_exchange(0, h, Relaxed, Relaxed) {
                Ok(_) => {
                    self.used.fetch_add(1, Relaxed);
                    return;
                }
                Err(x) if x == h => return,
                Err(_) => i = (i + 1) % n,
            }
        }
    }
}

pub fn make_plan(prop: &str, seed: u64, idx: u64) -> Plan {
    let ph = prop.bytes().fold(seed, |a, b| mix(a, b as u64));
    let mut r = Rng::new(mix(ph, idx));
    let mut p = props::gen(prop, &mut r, seed, idx);
    // Some runs give freed memory to the next request of its size at once.
    if prop != "C12" && mix(ph ^ 0xADD2, idx) % 4 == 0 {
        p.set("reuse", 1);
    }
    if SHARES.load(Relaxed) && p.get("callers") > 1 && !p.steps.is_empty() {
        aim(&mut r, &mut p);
    }
    p
}

/// The code under test was seen to touch state that callers share; plans preempt it there.
static SHARES: AtomicBool = AtomicBool::new(false);
/// The kinds of steps during which it did.
static HOT: [AtomicU64; 64] = [const { AtomicU64::new(0) }; 64];

/// Steps with equal kinds make the same calls.
fn kind(s: &Step) -> u64 {
    let sub = match s.op.as_str() {
        "read" | "derive" | "cost" => s.a(1),
        "own" | "null" => s.a(0),
        _ => 0,
    };
    s.op.bytes().fold(mix(0x407, sub), |a, b| mix(a, b as u64)) | 1
}
fn is_hot(s: &Step) -> bool {
    let k = kind(s);
    HOT.iter().any(|h| h.load(Relaxed) == k)
}

/// Adds preemptions at shared state, and a second caller that does the same at the same time.
fn aim(r: &mut Rng, p: &mut Plan) {
    let hot: Vec<usize> = (0..p.steps.len()).filter(|i| is_hot(&p.steps[*i])).collect();
    if hot.is_empty() {
        return;
    }
    let callers = p.get("callers");
    let mut at: Vec<usize> = (0..r.range(1, 4) + hot.len() as u64 / 4).map(|_| r.pick(&hot)).collect();
    at.sort_unstable();
    at.dedup();
    let near = r.range(1, 5);
    for i in at.into_iter().rev() {
        let pre = |r: &mut Rng| {
            let mut v = vec![];
            for _ in 0..r.pick(&[1, 1, 2, 3]) {
                let k = seams::SHARED | if r.chance(75) { r.range(1, near) as u32 } else { r.log(80) as u32 };
                v.push(seams::Pre { y: 0, k, hold: r.range(1, 4) as u32 });
            }
            v
        };
        p.steps[i].pre = pre(r);
        let mut s = p.steps[i].clone();
        for n in 1..=r.pick(&[0, 1, 1, 1, 2]) {
            s.client += 1 + r.below(callers - 1);
            s.pre = if r.chance(70) { pre(r) } else { vec![] };
            if r.chance(50) && !s.args.is_empty() {
                s.args[0] = r.below(40);
            }
            p.steps.insert(i + n, s.clone());
        }
    }
}

/// Does the code under test touch shared state? Every operation of a sample of runs is looked
/// through, one instruction at a time.
fn probe(prop: &str, a: &Args, runs: u64) -> u64 {
    let c = unsafe { &*(shared_mem(std::mem::size_of::<Control>()) as *const Control) };
    let mut pids = vec![];
    for _ in 0..a.workers {
        let pid = unsafe { fork() };
        if pid == 0 {
            let page = new_page();
            loop {
                let i = c.next.fetch_add(1, SeqCst);
                if i >= runs {
                    break;
                }
                let mut p = make_plan(prop, a.seed, i);
                p.steps.truncate(60);
                let mut r = Rng::new(mix(a.seed, i));
                for s in &mut p.steps {
                    let y = if r.chance(60) { 0 } else { r.log(300) as u32 };
                    s.pre = vec![seams::Pre { y, k: u32::MAX, hold: 0 }];
                }
                p.set("look", 6000);
                run_forked(&p, page, false);
                c.done.fetch_add(page.ctr[Ctr::shared_accesses_seen as usize], SeqCst);
                for (i, s) in p.steps.iter().enumerate() {
                    if i < 128 && page.hot[i / 64] >> (i % 64) & 1 == 1 {
                        // A plan-independent slot, so that the set is the same at any number of workers.
                        let k = kind(s);
                        let n = k as usize >> 1 & 127;
                        for j in 0..128 {
                            let e = &c.ctr[(n + j) % 128];
                            match e.compare_exchange(0, k, SeqCst, SeqCst) {
                                Err(x) if x != k => continue,
                                _ => break,
                            }
                        }
                    }
                }
            }
            unsafe { _exit(0) };
        }
        pids.push(pid);
    }
    for p in pids {
        let mut st = 0;
        unsafe { while waitpid(p, &mut st, 0) != p {} }
    }
    let mut hot: Vec<u64> = c.ctr.iter().map(|k| k.load(SeqCst)).filter(|k| *k != 0).collect();
    hot.sort_unstable();
    for (h, k) in HOT.iter().zip(hot) {
        h.store(k, SeqCst);
    }
    c.done.load(SeqCst)
}

struct Args {
    tier: String,
    runs: Option<u64>,
    secs: Option<u64>,
    workers: u64,
    seed: u64,
}
fn args(a: &[String]) -> Args {
    let get = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1).cloned());
    let env = |k: &str| std::env::var(k).ok();
    let cores = std::thread::available_parallelism().map(|n| n.get() as u64).unwrap_or(4).clamp(2, 8);
    Args {
        tier: get("--tier").or(env("VERIF_TIER")).unwrap_or("quick".into()),
        runs: get("--runs").and_then(|x| x.parse().ok()),
        secs: get("--secs").and_then(|x| x.parse().ok()),
        workers: get("--workers").and_then(|x| x.parse().ok()).unwrap_or(cores),
        seed: env("VERIF_SEED").and_then(|x| x.parse().ok()).unwrap_or(1),
    }
}

fn sweep(prop: &str, a: &Args, runs: u64, secs: u64) -> (&'static Control, bool) {
    let c = unsafe { &*(shared_mem(std::mem::size_of::<Control>()) as *const Control) };
    c.limit.store(runs, SeqCst);
    c.viol.store(u64::MAX, SeqCst);
    let bits = if a.tier == "quick" { 22 } else { 25 };
    let states = FpSet::new(bits, &c.distinct_states);
    let digests = FpSet::new(bits - 2, &c.distinct_runs);
    let end = real_ns() + secs * 1_000_000_000;
    let mut pids = vec![];
    for _ in 0..a.workers {
        let pid = unsafe { fork() };
        if pid == 0 {
            let page = new_page();
            loop {
                let i = c.next.fetch_add(1, SeqCst);
                if i >= c.limit.load(SeqCst) || i > c.viol.load(SeqCst) || real_ns() > end {
                    break;
                }
                let plan = make_plan(prop, a.seed, i);
                let t = real_ns();
                let f = run_forked(&plan, page, false);
                let us = (real_ns() - t) / 1000;
                if us > 1_500_000 && std::env::var_os("GSIM_SLOW").is_some() {
                    eprintln!("slow: run {i}, {us} us");
                }
                c.slowest_us.fetch_max(us, Relaxed);
                for (k, v) in page.ctr.iter().enumerate() {
                    if *v != 0 {
                        c.ctr[k].fetch_add(*v, Relaxed);
                    }
                }
                for h in &page.fp[..page.nfp as usize] {
                    states.insert(*h);
                }
                // Order-independent, so that the number of workers does not matter.
                c.digest.fetch_add(mix(page.digest, i), Relaxed);
                if page.ctr[Ctr::ops_completed as usize] < 3 {
                    c.trivial.fetch_add(1, Relaxed);
                } else {
                    digests.insert(page.digest);
                }
                if let Some(f) = f {
                    if f.class.starts_with("harness") {
                        if c.harness.fetch_add(1, SeqCst) < 3 {
                            eprintln!("gsim: harness error in run {i}: {}", f.msg);
                        }
                    } else if !(0..3).any(|_| run_forked(&plan, page, false).is_some()) {
                        // Not a function of the plan: a disturbance from outside the simulation.
                        c.unconfirmed.fetch_add(1, SeqCst);
                        eprintln!("gsim: run {i} failed once and not again: {}: {}", f.class, f.msg);
                    } else if prop != "C15" || counts(&plan, page).is_some() {
                        let timed = f.class == "hang" || f.class == "cost:growth";
                        if c.viol.fetch_min(i, SeqCst) > i {
                            c.by_time.store(timed as u64, SeqCst);
                        }
                    } else {
                        c.discarded.fetch_add(1, SeqCst);
                    }
                }
                c.done.fetch_add(1, SeqCst);
            }
            unsafe { _exit(0) };
        }
        pids.push(pid);
    }
    let mut ok = true;
    for p in pids {
        let mut st = 0;
        unsafe { while waitpid(p, &mut st, 0) != p {} }
        ok &= st == 0;
    }
    (c, ok)
}

fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for ch in s.chars() {
        match ch {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            c if (c as u32) < 32 => o += " ",
            c => o.push(c),
        }
    }
    o + "\""
}

fn known(prop: &str, f: &Failure) -> Option<String> {
    let t = std::fs::read_to_string("/verif/known_findings.txt").ok()?;
    for l in t.lines() {
        // known: property=<id> class=<class> contains=<text of the message>
        let Some(r) = l.strip_prefix("known: ") else { continue };
        let (Some(p), Some(c)) = (r.strip_prefix("property="), r.find(" class=")) else { continue };
        let (Some(k), id) = (r.find(" contains="), p.split(' ').next().unwrap_or("")) else { continue };
        if id == prop && r[c + 7..k] == f.class && f.msg.contains(&r[k + 10..]) {
            return Some(r[k + 10..].to_string());
        }
    }
    None
}

fn check(prop: &str, a: &Args) -> i32 {
    let t0 = real_ns();
    let mut corpus_failed = false;
    let Some(spec) = props::spec(prop) else {
        eprintln!("gsim: no such property: {prop}");
        return EXIT_HARNESS;
    };
    let thorough = a.tier == "thorough";
    let runs = a.runs.unwrap_or(if thorough { u64::MAX / 2 } else { spec.quick_runs });
    let secs = a.secs.unwrap_or(if thorough { 900 } else { 300 });
    // Plans that once showed a defect, first.
    let mut corpus = 0;
    {
        let page = new_page();
        let mut files: Vec<_> = std::fs::read_dir("/verif/corpus")
            .map(|d| d.filter_map(|e| e.ok()).map(|e| e.path()).collect())
            .unwrap_or_default();
        files.sort();
        for f in files {
            let n = f.file_name().map(|n| n.to_string_lossy().into_owned()).unwrap_or_default();
            if !n.starts_with(&format!("{prop}-")) || !n.ends_with(".plan") {
                continue;
            }
            let Ok(p) = std::fs::read_to_string(&f).map_err(|e| e.to_string()).and_then(|t| Plan::parse(&t)) else {
                eprintln!("gsim: cannot read {}", f.display());
                return EXIT_HARNESS;
            };
            corpus += 1;
            if let Some(x) = counts(&p, page) {
                if x.class.starts_with("harness") {
                    eprintln!("gsim: {}: {}", f.display(), x.msg);
                    return EXIT_HARNESS;
                }
                if let Some(k) = known(prop, &x) {
                    println!("KNOWN-FINDING: property={prop} {k}");
                    continue;
                }
                println!("{}: {}", x.class, x.msg);
                println!("VIOLATION property={prop} replay={}", f.display());
                corpus_failed = true;
            }
        }
    }
    let shared = if corpus_failed { 0 } else { probe(prop, a, if thorough { 200 } else { 32 }) };
    SHARES.store(shared > 0, Relaxed);
    let (c, ok) = sweep(prop, a, if corpus_failed { 200.min(runs) } else { runs }, secs);
    let done = c.done.load(SeqCst);
    let wall_sweep = (real_ns() - t0) as f64 / 1e9;
    if !ok || (c.harness.load(SeqCst) > 0 && c.viol.load(SeqCst) == u64::MAX) {
        eprintln!("gsim: the harness failed ({} harness errors)", c.harness.load(SeqCst));
        return if corpus_failed { 1 } else { EXIT_HARNESS };
    }
    // The simulator's own determinism, on this build, every time.
    let page = new_page();
    let mut mismatch = 0;
    let v = c.viol.load(SeqCst);
    let again = if v != u64::MAX || corpus_failed { 0 } else if thorough { 200 } else { 25 };
    for i in 0..again.min(done) {
        let p = make_plan(prop, a.seed, i * 37 % done.max(1));
        run_forked(&p, page, false);
        let d = (page.digest, page.ctr);
        run_forked(&p, page, false);
        mismatch += (d != (page.digest, page.ctr)) as u64;
    }
    let mut violations = corpus_failed as u64;
    let mut rc = corpus_failed as i32;
    if v != u64::MAX {
        let plan = make_plan(prop, a.seed, v);
        let mut count = |p: &Plan| counts(p, page);
        let by_time = c.by_time.load(SeqCst) != 0;
        match shrink::shrink(&plan, by_time, &mut count) {
            Some((small, f)) => {
                let path = format!("/verif/replays/{prop}-{}-{v}.plan", a.seed);
                let _ = std::fs::create_dir_all("/verif/replays");
                run_forked(&small, page, true);
                let trace = String::from_utf8_lossy(&page.trace[..page.trace_len as usize]).into_owned();
                let mut t = small.text();
                t += &format!("# violation {} at step {}: {}\n", f.class, f.step, f.msg.replace('\n', " "));
                t += &format!("# found in run {v} of seed {}, {} of {} steps kept\n", a.seed, small.steps.len(), plan.steps.len());
                for l in trace.lines() {
                    t += &format!("# | {l}\n");
                }
                std::fs::write(&path, t).expect("write replay");
                if let Some(k) = known(prop, &f) {
                    println!("KNOWN-FINDING: property={prop} {k}");
                } else {
                    violations += 1;
                    rc = 1;
                    println!("{}: {}", f.class, f.msg);
                    println!("VIOLATION property={prop} replay={path}");
                }
            }
            None if by_time => {
                // The machine was slow for a while: no violation.
                c.unconfirmed.fetch_add(1, SeqCst);
                eprintln!("gsim: run {v} of {prop} exceeded a limit of real time and not again");
            }
            None => {
                eprintln!("gsim: run {v} of {prop} failed once and not again: the simulation is not deterministic here");
                return EXIT_HARNESS;
            }
        }
    }
    let wall = (real_ns() - t0) as f64 / 1e9;
    let mut faults = vec![];
    let mut work = vec![];
    for (i, n) in CTR_NAMES.iter().enumerate() {
        let x = c.ctr[i].load(SeqCst);
        if let Some(f) = n.strip_prefix("f_") {
            if x > 0 {
                faults.push(format!("{}: {x}", json_str(f)));
            }
        } else if x > 0 && *n != "sim_us" {
            work.push(format!("{}: {x}", json_str(n)));
        }
    }
    let sample = |i: u64| {
        let p = make_plan(prop, a.seed, i);
        let t: String = p.text().lines().take(24).collect::<Vec<_>>().join("\n");
        json_str(&t)
    };
    let samples: Vec<String> = [0, done / 2, done.saturating_sub(1)].iter().map(|i| sample(*i)).collect();
    let ev = format!(
        "{{\n \"property\": \"{prop}\",\n \"tier\": \"{}\",\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {done},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"samples\": [{}],\n  \"runs_and_seeds_per_hour\": {:.0},\n  \"slowest_run_ms\": {},\n  \"simulated_seconds\": {:.1},\n  \"distinct_states_reached\": {},\n  \"state_measure\": {},\n  \"faults_injected\": {{{}}},\n  \"work\": {{{}}},\n  \"shared_accesses_found_by_probe\": {shared},\n  \"trivial_runs\": {},\n  \"discarded_not_schedule_dependent\": {},\n  \"failures_not_reproduced\": {},\n  \"combined_digest\": \"{:016x}\",\n  \"regression_plans_replayed\": {corpus},\n  \"determinism_reruns\": {},\n  \"determinism_mismatches\": {mismatch},\n  \"workers\": {},\n  \"sweep_wall_s\": {wall_sweep:.2},\n  \"real_code\": {},\n  \"stubs\": {}\n }},\n \"assumptions\": {},\n \"wall_s\": {wall:.2},\n \"violations\": {violations}\n}}\n",
        if thorough { "thorough" } else { "quick" },
        a.seed,
        c.distinct_runs.load(SeqCst),
        json_str(spec.rule),
        samples.join(", "),
        done as f64 / wall_sweep * 3600.0,
        c.slowest_us.load(SeqCst) / 1000,
        c.ctr[Ctr::sim_us as usize].load(SeqCst) as f64 / 1e6,
        c.distinct_states.load(SeqCst),
        json_str(spec.measure),
        faults.join(", "),
        work.join(", "),
        c.trivial.load(SeqCst),
        c.discarded.load(SeqCst),
        c.unconfirmed.load(SeqCst),
        c.digest.load(SeqCst),
        again.min(done) * 2,
        a.workers,
        json_str(spec.real),
        json_str(spec.stubs),
        format!("[{}]", spec.assumptions.iter().map(|x| json_str(x)).collect::<Vec<_>>().join(", ")),
    );
    let _ = std::fs::create_dir_all("/verif/evidence");
    if std::fs::write(format!("/verif/evidence/{prop}.json"), ev).is_err() {
        eprintln!("gsim: cannot write the evidence file");
        return EXIT_HARNESS;
    }
    println!(
        "{prop} {}: {done} runs, {} distinct, {} states, {wall:.1} s, violations {violations}, rerun mismatches {mismatch}",
        a.tier,
        c.distinct_runs.load(SeqCst),
        c.distinct_states.load(SeqCst)
    );
    rc
}

fn main() {
    no_core_dumps();
    seams::calibrate();
    let av: Vec<String> = std::env::args().skip(1).collect();
    let a = args(&av);
    if av.iter().any(|x| x == "--aimed") && av.len() > 1 {
        let n = probe(&av[1], &a, if a.tier == "thorough" { 200 } else { 32 });
        SHARES.store(n > 0, Relaxed);
    }
    let rc = match av.first().map(|s| s.as_str()) {
        Some("check") if av.len() > 1 => check(&av[1], &a),
        Some("show") if av.len() > 2 => {
            print!("{}", make_plan(&av[1], a.seed, av[2].parse().unwrap_or(0)).text());
            0
        }
        Some("run") if av.len() > 2 => {
            let p = make_plan(&av[1], a.seed, av[2].parse().unwrap_or(0));
            let page = new_page();
            let f = run_forked(&p, page, true);
            println!("{f:?} digest {:016x}", page.digest);
            for (i, n) in CTR_NAMES.iter().enumerate() {
                if page.ctr[i] > 0 {
                    println!("  {n} {}", page.ctr[i]);
                }
            }
            0
        }
        Some("probe") if av.len() > 1 => {
            println!("{}", probe(&av[1], &a, a.runs.unwrap_or(48)));
            0
        }
        Some("digest") if av.len() > 1 => {
            let (c, ok) = sweep(&av[1], &a, a.runs.unwrap_or(500), 3600);
            println!("{:016x} {} runs ok={ok}", c.digest.load(SeqCst), c.done.load(SeqCst));
            0
        }
        Some("replay") if av.len() > 1 => {
            let t = std::fs::read_to_string(&av[1]).expect("read replay file");
            let p = Plan::parse(&t).expect("parse replay file");
            let page = new_page();
            let f = run_forked(&p, page, true);
            for l in String::from_utf8_lossy(&page.trace[..page.trace_len as usize]).lines() {
                println!("| {l}");
            }
            println!("digest {:016x}", page.digest);
            match f {
                Some(f) => {
                    println!("{} at step {}: {}", f.class, f.step, f.msg);
                    println!("VIOLATION property={} replay={}", p.prop, av[1]);
                    1
                }
                None => {
                    println!("no violation");
                    0
                }
            }
        }
        _ => {
            eprintln!("usage: gsim check|replay|digest|show|run ...");
            EXIT_HARNESS
        }
    };
    std::process::exit(rc);
}
