//! Which world decides which property, how many runs a quick check makes, and how the evidence
//! describes them.
use crate::obs::R;
use crate::plan::Plan;
use crate::rng::Rng;
use crate::run::Run;
use crate::{world_bytes, world_c, world_disk, world_net, world_obj};

pub struct Spec {
    pub quick_runs: u64,
    pub rule: &'static str,
    pub measure: &'static str,
    pub real: &'static str,
    pub stubs: &'static str,
    pub assumptions: &'static [&'static str],
}

const OBJ_MEASURE: &str = "distinct hashes of (model state of the object, operation, preempted or not) after each operation";
const OBJ_REAL: &str = "graphrox-rs, compiled from /repo (all of it: graph, compressed graph, builder, matrices, codecs), std's hash maps, real threads";
const OBJ_STUBS: &str = "scheduler (one caller runs at a time, preempted between instructions by plan), process entropy (hash seeds), clock, global allocator";

/// Processor and real seconds after which a run counts as hung. The slowest run on the unchanged
/// tree takes 5 s for C12 (single-stepping) and 5 s for the others.
pub fn watchdog(prop: &str) -> (i64, i64) {
    (if prop == "C12" { 16 } else { 20 }, 90)
}

pub fn spec(prop: &str) -> Option<Spec> {
    let s = |quick_runs, rule| Spec { quick_runs, rule, measure: OBJ_MEASURE, real: OBJ_REAL, stubs: OBJ_STUBS, assumptions: &["callers obey Rust's borrow rules: an operation that needs exclusive access waits for unfinished operations on the same object"] };
    let d = |quick_runs, rule| Spec {
        quick_runs,
        rule,
        measure: "distinct hashes of (model state of the object or image on disk, operation, fault) at each operation",
        real: OBJ_REAL,
        stubs: "disk and file system (sectors, write cache, directory journal), application that saves and loads, old build (reference codec), scheduler, process entropy, clock, allocator",
        assumptions: &["what fsync reported durable survives a crash; anything else may be lost, torn or zero-filled", "without a checksum in the format, a lost record whose zeros happen to make another well-formed image is judged by what the bytes say"],
    };
    let b = |quick_runs, rule| Spec {
        quick_runs,
        rule,
        measure: "distinct byte strings decoded, plus distinct kinds of malformation met per run",
        real: OBJ_REAL,
        stubs: "storage and transport that damage bytes, other build (reference codec), scheduler, process entropy, clock, allocator",
        assumptions: &["a graph image that repeats an edge record and is otherwise well-formed may be accepted or refused"],
    };
    let c = |quick_runs, rule| Spec {
        quick_runs,
        rule,
        measure: "distinct hashes of (model state of the handle, operation, preempted or not, buffers outstanding) at each operation",
        real: "graphrox-c and graphrox-rs, compiled from /repo, called through their C ABI; std's hash maps, real threads",
        stubs: "C callers, scheduler, process entropy, clock, global allocator (header, canary, poison, quarantine)",
        assumptions: &["callers obey the header: no handle is mutated or freed while another thread uses it, nothing is freed twice", "memory faults hit requests for byte images and strings; the library does not promise to survive refused bookkeeping allocations"],
    };
    Some(match prop {
        "C01" => s(24000, "One evaluation is one simulated run: 1-4 callers, each with its own hash seed, make 3-400 interleaved and preempted calls on several graphs; every query is compared with a set model. Non-trivial: at least 3 calls completed; distinct: different digest of all results."),
        "C02" => s(48000, "One evaluation is one simulated run: interleaved set/zero/increment histories on adjacency and numeric matrices of 12 entry types, compared read by read with a map model. Non-trivial: at least 3 calls completed; distinct: different digest of all results."),
        "C03" => s(8000, "One evaluation is one simulated run over a pool of graphs, matrices and compressed graphs that are derived from each other, mutated and dropped by several callers; every object must keep the observation recorded when it was last written. Non-trivial: at least 3 calls completed; distinct: different digest."),
        "C04" => d(40000, "One evaluation is one simulated run: processes edit graphs, save them to a simulated disk (temporary file and rename, in place, or overwriting) and load what they or another build saved, through short, torn and lost writes, I/O errors, full disk and crashes at disk events and in the middle of operations. Non-trivial: at least 3 calls completed; distinct: different digest of all results."),
        "C05" => d(40000, "One evaluation is one simulated run: as for C04, with compressed graphs made at levels 0-70 from edited graphs, loaded, decompressed and saved again. Non-trivial: at least 3 calls completed; distinct: different digest of all results."),
        "C06" => b(80000, "One evaluation is one simulated run: graph images written by this library or another build meet 1-150 faults (flips, truncation, zeroed sectors, repeated, lost, exchanged and mirrored records, edited headers, splices), sometimes with counts made consistent again, and are decoded by several preempted callers. Non-trivial: at least 3 calls completed; distinct: different digest of all results."),
        "C07" => b(80000, "One evaluation is one simulated run: as for C06 with compressed images, with faults that repeat blocks, move them, change single bits and break symmetry. Non-trivial: at least 3 calls completed; distinct: different digest of all results."),
        "C08" => Spec {
            quick_runs: 12000,
            rule: "One evaluation is one simulated run: 2-5 nodes with hash seeds of their own exchange 4-150 edits over a network that loses, repeats, delays and reorders messages and splits, with stalls, crashes, snapshots and overlapping replays; when faults stop, every query and derivation is compared between all nodes and with the model. Non-trivial: at least 3 calls completed; distinct: different digest.",
            measure: "distinct (replica state, node) pairs reached",
            real: OBJ_REAL,
            stubs: "network, replication protocol, snapshot transfer, scheduler, process entropy, clock, allocator",
            assumptions: &["nodes that use deletions apply edits in one agreed order; without deletions any order and any repetition"],
        },
        "C09" => s(24000, "One evaluation is one simulated run: interleaved histories, then pooling and approximation with block dimensions over the 64-bit range and thresholds at, just above and just below block averages, against per-block counts. Non-trivial: at least 3 calls completed; distinct: different digest."),
        "C10" => s(20000, "One evaluation is one simulated run: interleaved histories, then compression at levels at, above and below the population of actual blocks, against per-block masks. Non-trivial: at least 3 calls completed; distinct: different digest."),
        "C11" => s(12000, "One evaluation is one simulated run: histories, then saves and renderings during which the allocator refuses requests large enough to hold the output (or outputs too large to exist), then again without the fault. Non-trivial: at least 3 calls completed; distinct: different digest."),
        "C12" => s(10000, "One evaluation is one simulated run: histories, then operations with ids, block dimensions, vertex counts and header claims of every magnitude, memory metered at the allocator, instructions counted one by one on small inputs and compared between n/8 and n records, processor time compared between n/8 and n records on large ones and bounded by a watchdog. Non-trivial: at least 3 calls completed; distinct: different digest."),
        "C13" => c(30000, "One evaluation is one simulated run: 1-4 callers make 4-300 C API calls through the C ABI on pools of handles and returned buffers, preempted between instructions, freeing them in any order from any caller; contents against models, every block against the allocator's records, all memory released at the end. Non-trivial: at least 3 calls completed; distinct: different digest."),
        "C14" => c(30000, "One evaluation is one simulated run: C API calls that cannot succeed - damaged, absent or empty input bytes, null handles, lists and out-parameters, refused or impossible output allocations - between ordinary ones, each retried when the cause is gone, with every handle checked afterwards. Non-trivial: at least 3 calls completed; distinct: different digest."),
        "C15" => s(10000, "One evaluation is one simulated run: 1-4 callers read shared objects and mutate their own, preempted at chosen machine instructions inside the library; a failure counts when no caller fails running alone. Non-trivial: at least 3 calls completed; distinct: different digest."),
        "C18" => s(40000, "One evaluation is one simulated run: several builders filled by several callers in schedule order, finished and compared with the set of blocks, with twins built in other orders, and with compress(1) of graphs. Non-trivial: at least 3 calls completed; distinct: different digest."),
        "C19" => s(32000, "One evaluation is one simulated run: interleaved histories of matrices of 12 entry types and of graphs, rendered in between with 0 to 2^64-1 decimals, with and without refused memory, cell by cell against a model and against the text of equal contents with another history. Non-trivial: at least 3 calls completed; distinct: different digest."),
        _ => return None,
    })
}

pub fn gen(prop: &str, r: &mut Rng, seed: u64, idx: u64) -> Plan {
    match prop {
        "C04" | "C05" => world_disk::gen(prop, r, seed, idx),
        "C06" | "C07" => world_bytes::gen(prop, r, seed, idx),
        "C13" | "C14" => world_c::gen(prop, r, seed, idx),
        "C08" => world_net::gen(prop, r, seed, idx),
        _ => world_obj::gen(prop, r, seed, idx),
    }
}

pub fn exec(plan: &Plan, run: &mut Run) -> R<()> {
    match plan.prop.as_str() {
        "C04" | "C05" => world_disk::exec(plan, run),
        "C06" | "C07" => world_bytes::exec(plan, run),
        "C13" | "C14" => world_c::exec(plan, run),
        "C08" => world_net::exec(plan, run),
        _ => world_obj::exec(plan, run),
    }
}
