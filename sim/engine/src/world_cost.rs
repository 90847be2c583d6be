//! Cost (C12): the memory an operation takes is measured at the allocator and compared with the
//! number of records really present; its time is bounded by the run's CPU watchdog; and nothing
//! about it may panic, whatever the magnitudes involved.
use crate::alloc;
use crate::model::*;
use crate::obs::*;
use crate::rng::*;
use crate::seams::*;
use crate::world_obj::{same_approx, same_pool, MPool};
use graphrox::builder::CompressedGraphBuilder;
use graphrox::error::GraphRoxError;
use graphrox::matrix::{CsrAdjacencyMatrix, CsrSquareMatrix, MatrixRepresentation};
use graphrox::{CompressedGraph, Graph, GraphRepresentation};
use std::collections::BTreeMap;

/// Generous: a hash table of hash tables costs a few hundred bytes per record.
fn allowance(records: u64) -> i64 {
    (256 << 10) + 2048 * records as i64
}

/// Instructions, single-stepped: compressing a block looks up 64 cells in two hash tables.
fn work_allowance(records: u64) -> u64 {
    200_000 + 60_000 * records
}
thread_local! {
    /// Records the history so far may have left room for; above the bound, work is not counted.
    static HISTORY: std::cell::Cell<u64> = const { std::cell::Cell::new(u64::MAX) };
}
const STEP_UP_TO: u64 = 60;

fn metered<T>(what: &str, records: u64, f: impl FnOnce() -> T) -> R<T> {
    let l0 = alloc::reset_peak();
    let n = records.saturating_add(HISTORY.get());
    if n <= STEP_UP_TO {
        crate::run::about(&format!("{what} needs more than {} instructions for {n} records", work_allowance(n)));
        limit_work(work_allowance(n));
    }
    let r = sut(f);
    limit_work(0);
    let took = alloc::peak() - l0;
    ensure!(took <= allowance(records), "cost:memory", "{what} took {took} bytes of memory for {records} records");
    let one = alloc::LARGEST.load(std::sync::atomic::Ordering::Relaxed);
    ensure!(one as i64 <= allowance(records), "cost:memory", "{what} asked for {one} bytes at once for {records} records");
    Ok(r)
}

/// A deterministic stand-in for "some magnitude": `v` itself or something near it.
fn id_of(v: u64, k: u64) -> u64 {
    match k % 5 {
        0 => v,
        1 => v.wrapping_sub(1),
        2 => v / 8,
        3 => u64::MAX - 1 - (v % 9),
        _ => v.rotate_left((k % 63) as u32),
    }
    .min(u64::MAX - 1)
}

pub fn cost_op(g: &mut Graph, m: &MGraph, kind: u64, v: u64, rand: u64, id: u64, history: u64, every: bool) -> R<u64> {
    // Counting every instruction is slow: one operation in twenty-four.
    HISTORY.set(if every || mix(rand, v).is_multiple_of(24) { history } else { u64::MAX });
    let n = m.edges.len() as u64 + 1;
    match kind {
        0 => {
            // a vertex of any magnitude on a copy: the copy costs edges, the vertex nothing
            let mut c = metered("clone", n, || g.clone())?;
            let mut m = m.clone();
            let (a, b) = (id_of(v, rand), id);
            metered("add_edge", 4, || {
                c.add_edge(a, b);
                c.add_vertex(v, None);
            })?;
            m.add_edge(a, b);
            m.add_vertex(v, &[]);
            same_graph("cost", &c, &m)?;
            metered("delete_edge", 4, || c.delete_edge(a, b))?;
            m.del_edge(a, b);
            metered("queries", n, || {
                (c.does_edge_exist(v, a), c.get_vertex_in_edges(a), c.get_vertex_out_edges(v), c.get_vertex_in_degree(v), c.get_vertex_out_degree(b))
            })?;
            same_graph("cost", &c, &m)?;
            Ok(1)
        }
        1 => {
            let (b, dim) = m.pool_shape(v);
            let p = metered("find_avg_pool_matrix", n, || g.find_avg_pool_matrix(v))?;
            let counts = if m.vc == 0 { BTreeMap::new() } else { m.blocks(b) };
            same_pool("cost:pool", &p, &MPool { b, dim, counts })
        }
        2 => {
            let t = 0.0;
            let a = metered("approximate", n, || g.approximate(v, t))?;
            same_approx("cost:approx", &a, m, v, t)
        }
        3 => {
            let lv = 1;
            let z = metered("compress", n, || g.compress(lv))?;
            let w = m.compressed(lv);
            same_comp("cost:compressed", &z, &w, false)?;
            let d = metered("decompress", n, || z.decompress())?;
            same_graph("cost:decompressed", &d, &w.graph())?;
            Ok(3)
        }
        4 => {
            let by = metered("to_bytes", n, || g.to_bytes())?.map_err(|e| Viol::new("cost:to_bytes", format!("{e}")))?;
            let d = metered("decode", n, || Graph::try_from(by.as_slice()))?.map_err(|e| Viol::new("cost:decode", format!("{e}")))?;
            same_graph("cost:decoded", &d, m)?;
            Ok(4)
        }
        5 => {
            let z = metered("compress", n, || g.compress(1))?;
            let by = metered("to_bytes", n, || z.to_bytes())?.map_err(|e| Viol::new("cost:to_bytes", format!("{e}")))?;
            let d = metered("decode", n, || CompressedGraph::try_from(by.as_slice()))?.map_err(|e| Viol::new("cost:decode", format!("{e}")))?;
            same_comp("cost:decoded", &d, &m.compressed(1), false)?;
            Ok(5)
        }
        6 => {
            // a header that claims far more than there is
            let mut by = m.image(rand | 1);
            match rand % 5 {
                0 => by[16..24].copy_from_slice(&v.to_be_bytes()),
                1 => by[16..24].copy_from_slice(&(v & !15 | 1 << 60).to_be_bytes()),
                2 => by[8..16].copy_from_slice(&v.to_be_bytes()),
                3 => {
                    by.truncate(26 + (rand as usize / 7) % 40);
                    by[16..24].copy_from_slice(&v.to_be_bytes());
                    by[8..16].copy_from_slice(&u64::MAX.to_be_bytes());
                }
                _ => {
                    // the claim and the size only agree once multiplied in 64 bits
                    let k = (by.len() as u64 - 26) / 16;
                    by[16..24].copy_from_slice(&(k | 1 << 60).to_be_bytes());
                }
            }
            let records = by.len() as u64 / 16;
            match (metered("decode", records, || Graph::try_from(by.as_slice()))?, read_graph(&by)) {
                (Ok(d), Meaning::Exact(x) | Meaning::Either(x)) => same_graph("cost:decoded", &d, &x).map(|_| 6),
                (Ok(_), Meaning::Invalid(w)) => bad("cost:accepted", format!("image accepted although {w}")),
                (Err(GraphRoxError::InvalidFormat(_)), Meaning::Invalid(_) | Meaning::Either(_)) => Ok(66),
                (Err(e), _) => bad("cost:refused", format!("{e:?}")),
            }
        }
        7 => {
            let mut by = m.compressed(1).image(rand | 1);
            match rand % 5 {
                0 => by[16..24].copy_from_slice(&v.to_be_bytes()),
                1 => by[8..16].copy_from_slice(&v.to_be_bytes()),
                2 => {
                    by[32..40].copy_from_slice(&v.to_be_bytes());
                    by[8..16].copy_from_slice(&comp_dim(v).to_be_bytes());
                }
                3 => {
                    let k = (by.len() as u64 - 42) / 24;
                    by[16..24].copy_from_slice(&(k | 1 << 61).to_be_bytes());
                }
                _ => by[24..32].copy_from_slice(&v.to_be_bytes()),
            }
            let records = by.len() as u64 / 24 * 8;
            match (metered("decode", records, || CompressedGraph::try_from(by.as_slice()))?, read_comp(&by)) {
                (Ok(d), Meaning::Exact(x) | Meaning::Either(x)) => same_comp("cost:decoded", &d, &x, false).map(|_| 7),
                (Ok(_), Meaning::Invalid(w)) => bad("cost:accepted", format!("image accepted although {w}")),
                (Err(GraphRoxError::InvalidFormat(_)), Meaning::Invalid(_) | Meaning::Either(_)) => Ok(77),
                (Err(e), _) => bad("cost:refused", format!("{e:?}")),
            }
        }
        8 => {
            // matrices: entries anywhere cost what one entry costs
            let (c, r) = (id_of(v, rand), id_of(v, rand >> 8));
            let (d, n, e) = metered("matrix", 8, || {
                let mut a = CsrAdjacencyMatrix::new();
                a.set_entry(1, c, r);
                a.set_entry(0, v.min(u64::MAX - 1), 0);
                (a.dimension(), a.entry_count(), a.get_entry(c, r))
            })?;
            ensure!(n == u64::from((v.min(u64::MAX - 1), 0) != (c, r)) && e as u64 == n, "cost:matrix", "adjacency matrix: entry ({c}, {r}) reads {e}, count {n}");
            ensure!(d == c.max(r).max(v.min(u64::MAX - 1)) + 1, "cost:matrix", "adjacency matrix: dimension {d}");
            let (d, n, e, l) = metered("matrix", 8, || {
                let mut a = CsrSquareMatrix::<u64>::new();
                a.increment_entry(c, r);
                a.increment_entry(c, r);
                a.set_entry(7, r, r);
                (a.dimension(), a.entry_count(), a.get_entry(c, r), a.into_iter().count())
            })?;
            ensure!(d == c.max(r) + 1 && l as u64 == n, "cost:matrix", "numeric matrix: dimension {d}, {n} entries counted, {l} iterated");
            ensure!(e == if c == r { 7 } else { 2 }, "cost:matrix", "numeric matrix: entry reads {e}");
            Ok(8)
        }
        9 => {
            let dim = comp_dim(v);
            let (c, r) = (rand % dim, (rand >> 7) % dim);
            // only the block's first bit is sure to lie within the vertices
            if v == 0 || c as u128 * 8 >= v as u128 || r as u128 * 8 >= v as u128 {
                return Ok(90);
            }
            let z = metered("builder", 8, || {
                let mut b = CompressedGraphBuilder::new(false, v, (rand % 99) as u8);
                b.add_compressed_matrix_entry(1, c, r, None);
                unsafe { b.finish() }
            })?;
            let mut blocks = BTreeMap::new();
            blocks.insert((c, r), 1);
            let w = MComp { und: false, vc: v, level: ((rand % 99) as u8).clamp(1, 64), blocks };
            same_comp("cost:built", &z, &w, false)?;
            let g = metered("decompress", 8, || z.decompress())?;
            same_graph("cost:decompressed", &g, &w.graph())?;
            Ok(9)
        }
        _ => {
            // a few edges of extreme ids through every derivation
            let mut x = MGraph::new(rand & 1 == 1);
            for k in 0..1 + rand % 6 {
                x.add_edge(id_of(v, rand >> k), id_of(v, rand >> (2 * k + 9)));
            }
            let n = x.edges.len() as u64;
            let g = metered("edges", n, || {
                let mut g = if x.und { Graph::new_undirected() } else { Graph::new_directed() };
                for (a, b) in &x.edges {
                    g.add_edge(*a, *b);
                }
                g
            })?;
            same_graph("cost", &g, &x)?;
            for b in [2, 8, v, v / 2, 1 << 32, (1 << 32) + 1, u64::MAX, x.vc, x.vc - 1, x.vc / 2 + 1] {
                let p = metered("find_avg_pool_matrix", n, || g.find_avg_pool_matrix(b))?;
                let (bb, dim) = x.pool_shape(b);
                same_pool("cost:pool", &p, &MPool { b: bb, dim, counts: x.blocks(bb) })?;
                let a = metered("approximate", n, || g.approximate(b, 0.0))?;
                same_approx("cost:approx", &a, &x, b, 0.0)?;
            }
            let z = metered("compress", n, || g.compress(1))?;
            same_comp("cost:compressed", &z, &x.compressed(1), true)?;
            Ok(mix(10, n))
        }
    }
}

// ---- work that grows faster than the data: what n records cost against what 8 n cost

/// Processor time of this thread so far, in nanoseconds, from the real clock: the one thing here
/// that is not simulated. It decides nothing unless it is far out of proportion three times over.
fn cpu_ns() -> u64 {
    let mut ts = [0u64; 2];
    unsafe {
        std::arch::asm!("syscall", inlateout("rax") 228u64 => _, in("rdi") 3u64, in("rsi") ts.as_mut_ptr(), out("rcx") _, out("r11") _);
    }
    ts[0] * 1_000_000_000 + ts[1]
}

/// How `timed` measures: instructions counted one by one, or processor time.
enum Meter {
    Nothing,
    /// The instructions of one of the operations, and how many it is allowed.
    Steps(usize, u64),
    Time,
}
struct Costs {
    meter: Meter,
    took: Vec<(&'static str, u64)>,
}

fn timed<T>(what: &'static str, n: u64, out: &mut Costs, f: impl FnOnce() -> T) -> R<T> {
    HISTORY.set(u64::MAX);
    match &out.meter {
        Meter::Steps(which, limit) if *which == out.took.len() => {
            crate::run::about(&format!("{what} for {n} records takes more than {limit} instructions, far more than eight times what it takes for {}", n / 8));
            limit_work(*limit);
            let r = sut(f);
            out.took.push((what, limit - limit_work(0)));
            Ok(r)
        }
        Meter::Steps(..) | Meter::Nothing => {
            let r = metered(what, n, f)?;
            out.took.push((what, 0));
            Ok(r)
        }
        Meter::Time => {
            let t = cpu_ns();
            let r = metered(what, n, f)?;
            out.took.push((what, cpu_ns() - t));
            Ok(r)
        }
    }
}
const NO_LIMIT: u64 = 1 << 50;

fn scale_edges(shape: u64, n: u64, seed: u64) -> Vec<(u64, u64)> {
    let s = seed % 7 + 1;
    (0..n)
        .map(|i| match shape % 7 {
            0 => (s, i),
            1 => (i, s),
            2 => (i, i + s),
            3 => (i * 8, i * 8 * s % (n * 8)),
            4 => (mix(seed, i) >> 1, mix(seed ^ 1, i) >> 1),
            5 => (i % 251, i / 251),
            _ => (i, i),
        })
        .collect()
}

fn scale_once(shape: u64, n: u64, seed: u64, ops: u64, meter: Meter) -> R<Vec<(&'static str, u64)>> {
    let edges = scale_edges(shape, n, seed);
    let mut t = Costs { meter, took: vec![] };
    let und = seed & 1 == 1;
    let g = timed("adding edges", 2 * n, &mut t, || {
        let mut g = if und { Graph::new_undirected() } else { Graph::new_directed() };
        for (a, b) in &edges {
            g.add_edge(*a, *b);
        }
        g
    })?;
    let n = 2 * n;
    match ops % 6 {
        0 => {
            let by = timed("to_bytes", n, &mut t, || g.to_bytes())?.map_err(|e| Viol::new("cost:to_bytes", format!("{e}")))?;
            let d = timed("decoding", n, &mut t, || Graph::try_from(by.as_slice()))?.map_err(|e| Viol::new("cost:decode", format!("{e}")))?;
            ensure!(d.edge_count() == g.edge_count(), "cost:decoded", "{} edges of {} decoded", d.edge_count(), g.edge_count());
            timed("refusing an image", n, &mut t, || Graph::try_from(&by[..by.len() - 16]).is_ok())?;
            let mut last = by;
            let k = last.len();
            last[k - 16..].fill(0xff);
            ensure!(timed("refusing an image late", n, &mut t, || Graph::try_from(last.as_slice()).is_err())?, "cost:accepted", "an edge outside the graph was accepted");
        }
        1 => {
            let z = timed("compress", n, &mut t, || g.compress(1))?;
            let by = timed("to_bytes of a compressed graph", n, &mut t, || z.to_bytes())?.map_err(|e| Viol::new("cost:to_bytes", format!("{e}")))?;
            let d = timed("decoding a compressed graph", n, &mut t, || CompressedGraph::try_from(by.as_slice()))?.map_err(|e| Viol::new("cost:decode", format!("{e}")))?;
            let x = timed("decompress", n, &mut t, || d.decompress())?;
            ensure!(x.edge_count() == g.edge_count(), "cost:decompressed", "{} edges of {} decompressed", x.edge_count(), g.edge_count());
            timed("edges of a compressed graph", n, &mut t, || edges.iter().all(|(a, b)| z.does_edge_exist(*a, *b)))?;
        }
        2 => {
            for b in [2, 7 + seed % 90, 1 << 33] {
                timed("find_avg_pool_matrix", n, &mut t, || g.find_avg_pool_matrix(b))?;
                timed("approximate", n, &mut t, || g.approximate(b, 0.0))?;
            }
        }
        3 => {
            let mut m = timed("matrix entries", n, &mut t, || {
                let mut m = CsrAdjacencyMatrix::new();
                for (a, b) in &edges {
                    m.set_entry(1, *a, *b);
                    m.set_entry(1, *b, *a);
                }
                m
            })?;
            let c = timed("clone", n, &mut t, || m.clone())?;
            timed("directed_from", n, &mut t, || Graph::directed_from(c))?;
            let c = timed("clone", n, &mut t, || m.clone())?;
            ensure!(timed("undirected_from", n, &mut t, || Graph::undirected_from(c).is_ok())?, "cost:symmetric", "a symmetric matrix was refused");
            timed("zero_entry", n, &mut t, || edges.iter().for_each(|(a, b)| m.zero_entry(*a, *b)))?;
            timed("iterating", n, &mut t, || m.into_iter().count())?;
        }
        4 => {
            let mut m = timed("increment_entry", n, &mut t, || {
                let mut m = CsrSquareMatrix::<u32>::new();
                for (a, b) in &edges {
                    m.increment_entry(*a, *b);
                    m.increment_entry(*a, *b);
                }
                m
            })?;
            timed("iterating", n, &mut t, || m.into_iter().count())?;
            timed("get_entry", n, &mut t, || edges.iter().all(|(a, b)| m.get_entry(*a, *b) > 1))?;
            timed("set_entry", n, &mut t, || edges.iter().for_each(|(a, b)| m.set_entry(0, *a, *b)))?;
            timed("iterating", n, &mut t, || m.into_iter().count())?;
            timed("builder", n, &mut t, || {
                let mut b = CompressedGraphBuilder::new(und, u64::MAX, 1);
                for (x, y) in &edges {
                    b.add_compressed_matrix_entry(3, x / 8, y / 8, None);
                }
                unsafe { b.finish() }
            })?;
        }
        _ => {
            let mut c = timed("clone", n, &mut t, || g.clone())?;
            timed("iterating", n, &mut t, || g.into_iter().count())?;
            timed("does_edge_exist", n, &mut t, || edges.iter().all(|(a, b)| c.does_edge_exist(*a, *b)))?;
            let (a, b) = edges[edges.len() / 2];
            timed("edges of a vertex", n, &mut t, || (c.get_vertex_in_edges(b), c.get_vertex_out_edges(a), c.get_vertex_in_degree(b), c.get_vertex_out_degree(a)))?;
            timed("delete_edge", n, &mut t, || edges.iter().for_each(|(a, b)| c.delete_edge(*a, *b)))?;
            timed("iterating what is left", n, &mut t, || c.into_iter().count())?;
            timed("add_vertex", n, &mut t, || edges.iter().for_each(|(a, _)| c.add_vertex(*a, None)))?;
            let all: Vec<u64> = edges.iter().map(|e| e.1).collect();
            timed("add_vertex with edges", n, &mut t, || c.add_vertex(7, Some(&all)))?;
        }
    }
    Ok(t.took)
}

/// For eight times the records an operation may take fourteen times as long and 0.15 seconds.
pub fn scale_op(shape: u64, n: u64, seed: u64, ops: u64) -> R<u64> {
    let n = n.clamp(64, 1 << 17);
    let mut slow = None;
    for _ in 0..3 {
        let small = scale_once(shape, n / 8, seed, ops, Meter::Time)?;
        let large = scale_once(shape, n, seed, ops, Meter::Time)?;
        slow = small.iter().zip(&large).find(|(s, l)| l.1 > 14 * s.1 + 150_000_000).map(|(s, _)| s.0);
        if slow.is_none() {
            break;
        }
    }
    if let Some(what) = slow {
        return bad("cost:growth", format!("{what} takes far more than eight times as long for {n} records as for {}", n / 8));
    }
    Ok(mix(n, ops))
}

/// The same with fewer records, every instruction of one of the operations counted: exactly
/// repeatable. Linear work takes 8 times as much.
pub fn growth_op(shape: u64, n: u64, seed: u64, ops: u64, which: u64) -> R<u64> {
    let mut n = n.clamp(64, 1024);
    let count = scale_once(shape, n / 8, seed, ops, Meter::Nothing)?.len();
    let k = which as usize % count;
    let small = loop {
        let small = scale_once(shape, n / 8, seed, ops, Meter::Steps(k, NO_LIMIT))?[k];
        // Stepping is slow; too much of it would look like a hang.
        if small.1 < 60_000 || n < 128 {
            break small;
        }
        n /= 2;
    };
    // Sorting may cost next to nothing for a few records or ordered ones, and all of this otherwise.
    let limit = 13 * small.1 + 10_000 + 40 * n * (64 - n.leading_zeros() as u64);
    let large = scale_once(shape, n, seed, ops, Meter::Steps(k, limit))?[k];
    if std::env::var_os("GSIM_SLOW").is_some() {
        eprintln!("growth: shape {} n {n}: {} {} {} ({:.1})", shape % 7, small.0, small.1, large.1, large.1 as f64 / small.1 as f64);
    }
    Ok(mix(n, large.1))
}
