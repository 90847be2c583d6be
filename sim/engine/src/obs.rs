//! Observers: every query of the public API, compared with the model.
use crate::model::*;
use crate::seams::{sut, Viol};
use graphrox::{CompressedGraph, Graph, GraphRepresentation};
use std::collections::BTreeSet;

pub type R<T> = Result<T, Viol>;
pub fn bad<T>(class: &str, msg: String) -> R<T> {
    Err(Viol::new(class, msg))
}
macro_rules! ensure {
    ($c:expr, $class:expr, $($m:tt)*) => { if !($c) { return Err(crate::seams::Viol::new($class, format!($($m)*))); } };
}
pub(crate) use ensure;

pub fn sorted(mut v: Vec<u64>) -> Vec<u64> {
    v.sort_unstable();
    v
}

/// The edges a graph iterates, in its own order; the sized loop guards against runaway iterators.
pub fn edge_list(g: &Graph) -> Vec<(u64, u64)> {
    let mut v = Vec::with_capacity(64);
    sut(|| {
        for e in g {
            crate::seams::inside(|| v.push(e));
            if v.len() > 5_000_000 {
                break;
            }
        }
    });
    v
}

/// What a graph says it is, through iteration only.
pub fn observe(g: &Graph) -> R<MGraph> {
    let l = edge_list(g);
    let edges: BTreeSet<(u64, u64)> = l.iter().copied().collect();
    ensure!(edges.len() == l.len(), "iteration:repeats", "iteration yields an edge more than once ({} items, {} distinct)", l.len(), edges.len());
    let (und, vc) = sut(|| (g.is_undirected(), g.vertex_count()));
    Ok(MGraph { und, vc, edges })
}

pub fn diff(a: &BTreeSet<(u64, u64)>, b: &BTreeSet<(u64, u64)>) -> String {
    let extra: Vec<_> = a.difference(b).take(4).collect();
    let missing: Vec<_> = b.difference(a).take(4).collect();
    format!("unexpected {extra:?}, missing {missing:?} (have {}, want {})", a.len(), b.len())
}

pub fn same_graph(what: &str, g: &Graph, m: &MGraph) -> R<()> {
    let o = observe(g)?;
    ensure!(o.und == m.und, &format!("{what}:direction"), "undirected={} instead of {}", o.und, m.und);
    ensure!(o.vc == m.vc, &format!("{what}:vertex_count"), "vertex count {} instead of {}", o.vc, m.vc);
    ensure!(o.edges == m.edges, &format!("{what}:edges"), "{}", diff(&o.edges, &m.edges));
    let ec = sut(|| g.edge_count());
    ensure!(ec == m.edges.len() as u64, &format!("{what}:edge_count"), "edge count {} for {} edges", ec, m.edges.len());
    Ok(())
}

/// Point queries about one pair of ids.
pub fn point_queries(g: &Graph, m: &MGraph, a: u64, b: u64) -> R<()> {
    for (x, y) in [(a, b), (b, a)] {
        let e = sut(|| g.does_edge_exist(x, y));
        ensure!(e == m.edges.contains(&(x, y)), "query:does_edge_exist", "does_edge_exist({x}, {y}) = {e}");
    }
    for v in [a, b] {
        let (o, i, od, id) = sut(|| {
            (g.get_vertex_out_edges(v), g.get_vertex_in_edges(v), g.get_vertex_out_degree(v), g.get_vertex_in_degree(v))
        });
        let (o, i) = (sorted(o), sorted(i));
        let (mo, mi) = (m.out(v), sorted(m.ins(v)));
        ensure!(o == mo, "query:out_edges", "out edges of {v}: {o:?} instead of {mo:?}");
        ensure!(i == mi, "query:in_edges", "in edges of {v}: {i:?} instead of {mi:?}");
        ensure!(od == mo.len() as u64, "query:out_degree", "out degree of {v}: {od} instead of {}", mo.len());
        ensure!(id == mi.len() as u64, "query:in_degree", "in degree of {v}: {id} instead of {}", mi.len());
    }
    Ok(())
}

/// Parses "[ 0, 1 ]" rows into numbers, whatever the spacing.
pub fn parse_rows(s: &str) -> Option<Vec<Vec<String>>> {
    let mut out = vec![];
    for l in s.split('\n') {
        let l = l.trim();
        if l.is_empty() {
            continue;
        }
        let l = l.strip_prefix('[')?.strip_suffix(']')?;
        out.push(l.split(',').map(|t| t.trim().to_string()).collect());
    }
    Some(out)
}

pub fn matrix_text(what: &str, s: &str, m: &MGraph) -> R<()> {
    let class = format!("{what}:matrix_string");
    let mut r = 0u64;
    for l in s.split('\n').map(|l| l.trim()).filter(|l| !l.is_empty()) {
        let Some(l) = l.strip_prefix('[').and_then(|l| l.strip_suffix(']')) else {
            return bad(&class, format!("unparseable matrix string {:?}", &s[..s.len().min(200)]));
        };
        let mut c = 0u64;
        for t in l.split(',') {
            let t = t.trim();
            let want = if m.edges.contains(&(c, r)) { "1" } else { "0" };
            ensure!(t == want, &class, "entry at column {c}, row {r} is {t}");
            c += 1;
        }
        ensure!(c == m.vc, &class, "row {r} has {c} columns");
        r += 1;
    }
    ensure!(r == m.vc, &class, "{r} rows for {} vertices", m.vc);
    Ok(())
}

/// What else an iterator of `n` items promises: honest bounds, at any point, and the same items
/// however they are asked for.
pub fn iterator_claims<I: Iterator>(mk: impl Fn() -> I, n: usize) -> R<()>
where
    I::Item: PartialEq + std::fmt::Debug,
{
    let (hint, count) = sut(|| (mk().size_hint(), mk().count()));
    ensure!(hint.0 <= n && hint.1.is_none_or(|h| h >= n), "iteration:size_hint", "size_hint {hint:?} of an iterator over {n} items");
    ensure!(count == n, "iteration:count", "count() is {count} for {n} items");
    if n == 0 {
        return Ok(());
    }
    let k = n / 2;
    let (hint, rest, last, nth, skipped) = sut(|| {
        let (mut a, mut b) = (mk(), mk());
        for _ in 0..k {
            a.next();
        }
        let hint = a.size_hint();
        let nth = b.nth(k);
        (hint, a.count(), mk().last(), nth, b.count())
    });
    ensure!(hint.0 <= n - k && hint.1.is_none_or(|h| h >= n - k), "iteration:size_hint", "size_hint {hint:?} with {} items left", n - k);
    ensure!(rest == n - k, "iteration:count", "{rest} items after {k} of {n}");
    let (want_last, want_nth) = sut(|| {
        let mut want_last = None;
        let mut want_nth = None;
        for (i, x) in mk().enumerate() {
            if i == k {
                want_nth = Some(x);
            } else if i == n - 1 {
                want_last = Some(x);
            }
        }
        (want_last, want_nth)
    });
    // Not-a-number is not equal to itself.
    let eq = |a: &Option<I::Item>, b: &Option<I::Item>| a == b || format!("{a:?}") == format!("{b:?}");
    // fold, for_each and the rest of a half-used iterator go through the same items in the same order.
    let (mut it, mut same, mut folded) = sut(|| (mk(), true, 0usize));
    sut(|| {
        mk().fold((), |_, x| {
            folded += 1;
            let y = it.next();
            same &= crate::seams::inside(|| eq(&Some(x), &y));
        })
    });
    let (mut tail, mut it, mut seen) = sut(|| (mk(), mk(), 0usize));
    sut(|| {
        for _ in 0..k {
            tail.next();
            it.next();
        }
        tail.for_each(|x| {
            seen += 1;
            let y = it.next();
            same &= crate::seams::inside(|| eq(&Some(x), &y));
        })
    });
    ensure!(same && folded == n && seen == n - k, "iteration:fold", "fold sees {folded} of {n} items, for_each {seen} after {k}, same={same}");
    ensure!(n - 1 == k || eq(&last, &want_last), "iteration:last", "last() is {last:?} instead of {want_last:?}");
    ensure!(eq(&nth, &want_nth) && skipped == n - k - 1, "iteration:nth", "nth({k}) is {nth:?} instead of {want_nth:?}, with {skipped} items after it");
    Ok(())
}

/// Everything the API can say about a graph.
pub fn full_check(g: &Graph, m: &MGraph, probes: &[u64]) -> R<()> {
    same_graph("query", g, m)?;
    for (i, a) in probes.iter().enumerate() {
        point_queries(g, m, *a, probes[(i * 7 + 3) % probes.len()])?;
    }
    iterator_claims(|| g.into_iter(), m.edges.len())?;
    if m.vc <= 48 {
        let s = match sut(|| g.matrix_string()) {
            Ok(s) => s,
            Err(e) => return bad("query:matrix_string", format!("matrix_string failed: {e}")),
        };
        matrix_text("query", &s, m)?;
    }
    Ok(())
}

pub fn same_comp(what: &str, z: &CompressedGraph, m: &MComp, deep: bool) -> R<()> {
    let (und, vc, ec, lv) = sut(|| (z.is_undirected(), z.vertex_count(), z.edge_count(), z.compression_level()));
    ensure!(und == m.und, &format!("{what}:direction"), "undirected={und}");
    ensure!(vc == m.vc, &format!("{what}:vertex_count"), "vertex count {vc} instead of {}", m.vc);
    ensure!(lv == m.level, &format!("{what}:level"), "level {lv} instead of {}", m.level);
    ensure!(ec == m.edge_count(), &format!("{what}:edge_count"), "edge count {ec} instead of {}", m.edge_count());
    for ((c, r), v) in m.blocks.iter().take(400) {
        let e = sut(|| z.get_compressed_matrix_entry(*c, *r));
        ensure!(e == *v, &format!("{what}:block"), "block ({c}, {r}) is {e:#x} instead of {v:#x}");
    }
    // Blocks around the stored ones, and the mirror of each, must be what the model says too.
    for (c, r) in m.blocks.keys().take(60) {
        for (c, r) in [(*r, *c), (c.wrapping_add(1), *r), (*c, r.wrapping_add(1)), (c ^ 1, r ^ 1)] {
            let e = sut(|| z.get_compressed_matrix_entry(c, r));
            let v = m.blocks.get(&(c, r)).copied().unwrap_or(0);
            ensure!(e == v, &format!("{what}:block"), "block ({c}, {r}) is {e:#x} instead of {v:#x}");
        }
    }
    if deep {
        let g = sut(|| z.decompress());
        let o = observe(&g)?;
        let want = m.graph();
        ensure!(o.edges == want.edges, &format!("{what}:decompressed"), "decompression: {}", diff(&o.edges, &want.edges));
        ensure!(o.vc == m.vc && o.und == m.und, &format!("{what}:decompressed"), "decompression has {} vertices, undirected={}", o.vc, o.und);
        let dec = sut(|| g.edge_count());
        ensure!(dec == want.edges.len() as u64, &format!("{what}:decompressed"), "decompression counts {dec} edges of {}", want.edges.len());
        for (a, b) in want.edges.iter().take(40) {
            for (x, y) in [(*a, *b), (*b, *a), (a ^ 1, *b), (*a, b ^ 1), (a ^ 8, *b), (*a, b ^ 8)] {
                let e = sut(|| z.does_edge_exist(x, y));
                ensure!(e == m.has(x, y), &format!("{what}:does_edge_exist"), "does_edge_exist({x}, {y}) = {e}");
            }
        }
    }
    Ok(())
}

/// The average a block must show: edges over b squared, correctly rounded while b squared is
/// exact in a double.
pub fn average(count: u64, b: u64) -> f64 {
    count as f64 / (b as f64 * b as f64)
}
pub const EXACT_B: u64 = 1 << 26;

pub fn clamp(t: f64) -> f64 {
    if t > 1.0 {
        1.0
    } else if t < 1e-18 {
        1e-18
    } else {
        t
    }
}

/// Must a block with this count be an edge of the approximation? None: too close to call.
pub fn reaches(count: u64, b: u64, threshold: f64) -> Option<bool> {
    let a = average(count, b);
    let t = clamp(threshold);
    if b <= EXACT_B {
        return Some(a >= t);
    }
    if (a - t).abs() <= t * 1e-12 {
        return None;
    }
    Some(a > t)
}
