//! The C world (C13, C14): several callers use the C API through its C ABI, on a pool of handles
//! and of buffers it returned. Handles and buffers are freed by whichever caller, in any order, and
//! every allocation and free is watched by the allocator seam.
use crate::alloc;
use crate::gen::*;
use crate::model::*;
use crate::obs::*;
use crate::plan::*;
use crate::rng::*;
use crate::run::*;
use crate::seams::*;
use crate::world_disk::{check_image, M};
use crate::world_obj::{MPool, Mod};
use capi::*;
use std::collections::{BTreeMap, BTreeSet};
use std::ptr::{null, null_mut};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Mutex};

type Ptr = Arc<AtomicUsize>;

#[derive(Clone, Copy, PartialEq, Debug)]
enum HK {
    G,
    Z,
    P,
}
struct Hnd {
    kind: HK,
    ptr: Ptr,
    model: Arc<Mod>,
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum BK {
    Bytes,
    Text,
    Edges,
    Verts,
    Entries,
}
impl BK {
    fn size(self) -> usize {
        match self {
            BK::Bytes | BK::Text => 1,
            BK::Edges => 16,
            BK::Verts => 8,
            BK::Entries => 24,
        }
    }
}
struct Buf {
    kind: BK,
    ptr: Ptr,
    len: Ptr,
    copy: Arc<Mutex<Vec<u8>>>,
}

fn gh(p: usize) -> GphrxGraph {
    GphrxGraph { graph_ptr: p as *mut _ }
}
fn zh(p: usize) -> GphrxCompressedGraph {
    GphrxCompressedGraph { graph_ptr: p as *mut _ }
}
fn ph(p: usize) -> GphrxCsrSquareMatrix {
    GphrxCsrSquareMatrix { matrix_ptr: p as *mut _ }
}

fn free_handle(k: HK, p: usize) {
    sut(|| unsafe {
        match k {
            HK::G => free_gphrx_graph(gh(p)),
            HK::Z => free_gphrx_compressed_graph(zh(p)),
            HK::P => free_gphrx_matrix(ph(p)),
        }
    })
}
fn free_buffer(k: BK, p: usize, n: usize) {
    sut(|| unsafe {
        match k {
            BK::Bytes => free_gphrx_bytes_buffer(p as *mut u8, n),
            BK::Text => free_gphrx_string_buffer(p as *mut _),
            BK::Edges => free_gphrx_edge_list(p as *mut _, n),
            BK::Verts => free_gphrx_vertex_list(p as *mut _, n),
            BK::Entries => free_gphrx_matrix_entry_list(p as *mut _, n),
        }
    })
}

/// The elements a returned buffer is said to hold, as bytes.
fn raw<'a>(what: &str, k: BK, p: usize, n: usize) -> R<&'a [u8]> {
    let bytes = n.checked_mul(k.size()).ok_or_else(|| Viol::new("buffer:size", format!("{what}: {n} elements")))?;
    if bytes == 0 && k != BK::Text {
        return Ok(&[]);
    }
    ensure!(p != 0, "buffer:null", "{what}: null, although the call can succeed");
    let Some(have) = alloc::block_size(p as *const u8) else {
        return bad("buffer:dangling", format!("{what}: the pointer is not the start of a live block"));
    };
    ensure!(have >= bytes, "buffer:short", "{what}: {n} elements do not fit in the {have} bytes allocated");
    let all = unsafe { std::slice::from_raw_parts(p as *const u8, have) };
    if k == BK::Text {
        let Some(z) = all.iter().position(|b| *b == 0) else {
            return bad("buffer:unterminated", format!("{what}: no NUL in the {have} bytes allocated"));
        };
        return Ok(&all[..z]);
    }
    Ok(&all[..bytes])
}
fn edges_of(b: &[u8]) -> Vec<(u64, u64)> {
    let w = |x: &[u8]| u64::from_ne_bytes(x.try_into().unwrap());
    b.chunks(16).map(|c| (w(&c[..8]), w(&c[8..]))).collect()
}
fn verts_of(b: &[u8]) -> Vec<u64> {
    b.chunks(8).map(|c| u64::from_ne_bytes(c.try_into().unwrap())).collect()
}

fn is_edges(what: &str, b: &[u8], want: &BTreeSet<(u64, u64)>) -> R<()> {
    let l = edges_of(b);
    let s: BTreeSet<(u64, u64)> = l.iter().copied().collect();
    ensure!(s.len() == l.len(), "c:edge_list", "{what}: {} edges listed, {} distinct", l.len(), s.len());
    ensure!(s == *want, "c:edge_list", "{what}: {}", diff(&s, want));
    Ok(())
}
fn is_verts(what: &str, b: &[u8], want: Vec<u64>) -> R<()> {
    let (l, want) = (sorted(verts_of(b)), sorted(want));
    ensure!(l == want, "c:vertex_list", "{what}: {l:?} instead of {want:?}");
    Ok(())
}
fn is_entries(what: &str, b: &[u8], w: &MPool) -> R<()> {
    let mut seen = BTreeSet::new();
    for c in b.chunks(24) {
        let f = |i: usize| u64::from_ne_bytes(c[i..i + 8].try_into().unwrap());
        let (v, c, r) = (f64::from_bits(f(0)), f(8), f(16));
        ensure!(seen.insert((c, r)), "c:entry_list", "{what}: entry ({c}, {r}) listed twice");
        let a = w.counts.get(&(c, r)).map(|k| average(*k, w.b)).unwrap_or(0.0);
        ensure!(a != 0.0 && (v - a).abs() <= a * 1e-12, "c:entry_list", "{what}: entry ({c}, {r}) is {v} instead of {a}");
    }
    ensure!(seen.len() == w.counts.len(), "c:entry_list", "{what}: {} entries instead of {}", seen.len(), w.counts.len());
    Ok(())
}
fn cells(what: &str, b: &[u8], dim: u64, mut f: impl FnMut(u64, u64, &str) -> R<()>) -> R<()> {
    let Ok(s) = std::str::from_utf8(b) else { return bad("c:text", format!("{what}: not UTF-8")) };
    let mut r = 0;
    for l in s.split('\n').map(|l| l.trim()).filter(|l| !l.is_empty()) {
        let Some(l) = l.strip_prefix('[').and_then(|l| l.strip_suffix(']')) else {
            return bad("c:text", format!("{what}: row {:?}", &l[..l.len().min(60)]));
        };
        let mut c = 0;
        for t in l.split(',') {
            f(c, r, t.trim())?;
            c += 1;
        }
        ensure!(c == dim, "c:text", "{what}: row {r} has {c} of {dim} columns");
        r += 1;
    }
    ensure!(r == dim, "c:text", "{what}: {r} of {dim} rows");
    Ok(())
}
fn is_pool_text(what: &str, b: &[u8], w: &MPool, digits: Option<u64>) -> R<()> {
    cells(what, b, w.dim, |c, r, t| {
        let a = w.counts.get(&(c, r)).map(|k| average(*k, w.b)).unwrap_or(0.0);
        let Ok(v) = t.parse::<f64>() else { return bad("c:text", format!("{what}: entry {t:?}")) };
        let d = digits.unwrap_or(t.split_once('.').map_or(0, |x| x.1.len() as u64));
        let tol = 0.5 * 10f64.powi(-(d as i32)) + 1e-12;
        ensure!((v - a).abs() <= tol, "c:text", "{what}: entry ({c}, {r}) reads {t} instead of {a}");
        Ok(())
    })
}
fn is_comp_text(what: &str, b: &[u8], w: &MComp) -> R<()> {
    // The matrix of an empty graph may be empty or one block.
    let dim = comp_dim(w.vc);
    if w.vc == 0 {
        return Ok(());
    }
    cells(what, b, dim, |c, r, t| {
        let v = w.blocks.get(&(c, r)).copied().unwrap_or(0);
        ensure!(t.parse::<u64>().ok() == Some(v), "c:text", "{what}: block ({c}, {r}) reads {t} instead of {v}");
        Ok(())
    })
}
fn gm(m: &Mod) -> &MGraph {
    match m {
        Mod::G(g) => g,
        _ => panic!("harness: model"),
    }
}
fn zm(m: &Mod) -> &MComp {
    match m {
        Mod::Z(g) => g,
        _ => panic!("harness: model"),
    }
}
fn pm(m: &Mod) -> &MPool {
    match m {
        Mod::P(g) => g,
        _ => panic!("harness: model"),
    }
}

/// Where the next round of probes starts: what was asked last may be what is asked first next time.
static TURN: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
fn turned<const N: usize>(mut v: [(u64, u64); N]) -> [(u64, u64); N] {
    v.rotate_left(TURN.fetch_add(1, SeqCst) / 2 % N);
    v
}

fn query(k: HK, p: usize, m: &Mod, a: u64, b: u64) -> R<()> {
    macro_rules! is {
        ($got:expr, $want:expr, $what:expr) => {{
            let (g, w) = (sut(|| unsafe { $got }), $want);
            ensure!(g == w, "c:query", "{}({a}, {b}) = {g:?} instead of {w:?}", $what);
        }};
    }
    match k {
        HK::G => {
            let m = gm(m);
            is!(gphrx_is_undirected(gh(p)), m.und as i8, "is_undirected");
            is!(gphrx_vertex_count(gh(p)), m.vc, "vertex_count");
            is!(gphrx_edge_count(gh(p)), m.edges.len() as u64, "edge_count");
            for (a, b) in turned([(a, b), (b, a)]) {
                is!(gphrx_does_edge_exist(gh(p), a, b), m.edges.contains(&(a, b)) as i8, "does_edge_exist");
                is!(gphrx_get_vertex_out_degree(gh(p), a), m.out(a).len() as u64, "out_degree");
                is!(gphrx_get_vertex_in_degree(gh(p), a), m.ins(a).len() as u64, "in_degree");
            }
        }
        HK::Z => {
            let m = zm(m);
            is!(gphrx_compressed_graph_is_undirected(zh(p)), m.und as i8, "compressed is_undirected");
            is!(gphrx_compressed_graph_vertex_count(zh(p)), m.vc, "compressed vertex_count");
            is!(gphrx_compressed_graph_edge_count(zh(p)), m.edge_count(), "compressed edge_count");
            is!(gphrx_compressed_graph_compression_level(zh(p)), m.level, "compression_level");
            for (a, b) in turned([(a, b), (b, a)]) {
                is!(gphrx_compressed_graph_does_edge_exist(zh(p), a, b), m.has(a, b) as i8, "compressed does_edge_exist");
            }
            for (a, b) in turned([(a, b), (a / 8, b / 8), (b / 8, a / 8)]) {
                let want = m.blocks.get(&(a, b)).copied().unwrap_or(0);
                is!(gphrx_get_compressed_matrix_entry(zh(p), a, b), want, "compressed entry");
            }
        }
        HK::P => {
            let m = pm(m);
            is!(gphrx_matrix_dimension(ph(p)), m.dim, "matrix dimension");
            is!(gphrx_matrix_entry_count(ph(p)), m.counts.len() as u64, "matrix entry_count");
            for (c, r) in turned([(a, b), (b, a), (a / m.b.max(1), b / m.b.max(1))]) {
                let v = sut(|| unsafe { gphrx_matrix_get_entry(ph(p), c, r) });
                let w = m.counts.get(&(c, r)).map(|k| average(*k, m.b)).unwrap_or(0.0);
                ensure!((v - w).abs() <= w * 1e-12, "c:query", "matrix entry ({c}, {r}) = {v} instead of {w}");
            }
        }
    }
    Ok(())
}

/// Everything a handle can say.
fn full(k: HK, p: usize, m: &Mod) -> R<()> {
    query(k, p, m, 0, 1)?;
    let mut n = usize::MAX;
    match k {
        HK::G => {
            let l = sut(|| unsafe { gphrx_get_edge_list(gh(p), &mut n) }) as usize;
            is_edges("edge list", raw("edge list", BK::Edges, l, n)?, &gm(m).edges)?;
            free_buffer(BK::Edges, l, n);
            let probes: Vec<u64> = gm(m).edges.iter().flat_map(|e| [e.0, e.1]).take(6).collect();
            for (i, v) in probes.iter().enumerate() {
                query(k, p, m, *v, probes[(i + 3) % probes.len()])?;
            }
        }
        HK::Z => {
            let g = sut(|| unsafe { gphrx_decompress(zh(p)) }).graph_ptr as usize;
            ensure!(g != 0, "c:null", "decompress returned null");
            full(HK::G, g, &Mod::G(zm(m).graph()))?;
            free_handle(HK::G, g);
            for (c, r) in zm(m).blocks.keys().take(20) {
                query(k, p, m, *c, *r)?;
                query(k, p, m, c * 8 + r % 8, r * 8 + c % 8)?;
            }
        }
        HK::P => {
            let l = sut(|| unsafe { gphrx_matrix_get_entry_list(ph(p), &mut n) }) as usize;
            is_entries("entry list", raw("entry list", BK::Entries, l, n)?, pm(m))?;
            free_buffer(BK::Entries, l, n);
            for (c, r) in pm(m).counts.keys().take(20) {
                query(k, p, m, *c, *r)?;
            }
        }
    }
    Ok(())
}

/// Every entry point, with a null handle.
fn null_call(k: u64, a: u64, b: u64) -> R<()> {
    const G: u64 = 0x5EED;
    let mut n: usize = G as usize;
    let z = |p: *mut u8| p as usize as u64;
    let (g, c, m) = (gh(0), zh(0), ph(0));
    let np = &mut n as *mut usize;
    // (name, result, has a length)
    let (what, got, len): (&str, u64, bool) = sut(|| unsafe {
        match k % 48 {
            0 => ("duplicate", z(gphrx_duplicate(g).graph_ptr as *mut u8), false),
            1 => ("matrix_string", z(gphrx_matrix_string(g) as *mut u8), false),
            2 => ("to_bytes", z(gphrx_to_bytes(g, np)), true),
            3 => ("to_bytes", z(gphrx_to_bytes(g, null_mut())), false),
            4 => ("is_undirected", gphrx_is_undirected(g) as u64, false),
            5 => ("vertex_count", gphrx_vertex_count(g), false),
            6 => ("edge_count", gphrx_edge_count(g), false),
            7 => ("does_edge_exist", gphrx_does_edge_exist(g, a, b) as u64, false),
            8 => ("find_avg_pool_matrix", z(gphrx_find_avg_pool_matrix(g, a).matrix_ptr as *mut u8), false),
            9 => ("approximate", z(gphrx_approximate(g, a, 0.5).graph_ptr as *mut u8), false),
            10 => ("compress", z(gphrx_compress(g, b as u8).graph_ptr as *mut u8), false),
            11 => ("get_edge_list", z(gphrx_get_edge_list(g, np) as *mut u8), true),
            12 => ("get_edge_list", z(gphrx_get_edge_list(g, null_mut()) as *mut u8), false),
            13 => {
                gphrx_add_vertex(g, a, &b, 1);
                ("add_vertex", 0, false)
            }
            14 => {
                gphrx_add_edge(g, a, b);
                ("add_edge", 0, false)
            }
            15 => {
                gphrx_delete_edge(g, a, b);
                ("delete_edge", 0, false)
            }
            16 => ("get_vertex_in_edges_list", z(gphrx_get_vertex_in_edges_list(g, a, np) as *mut u8), true),
            17 => ("get_vertex_in_edges_list", z(gphrx_get_vertex_in_edges_list(g, a, null_mut()) as *mut u8), false),
            18 => ("get_vertex_out_edges_list", z(gphrx_get_vertex_out_edges_list(g, a, np) as *mut u8), true),
            19 => ("get_vertex_out_edges_list", z(gphrx_get_vertex_out_edges_list(g, a, null_mut()) as *mut u8), false),
            20 => ("get_vertex_in_degree", gphrx_get_vertex_in_degree(g, a), false),
            21 => ("get_vertex_out_degree", gphrx_get_vertex_out_degree(g, a), false),
            22 => ("compressed_graph_duplicate", z(gphrx_compressed_graph_duplicate(c).graph_ptr as *mut u8), false),
            23 => ("compression_level", gphrx_compressed_graph_compression_level(c) as u64, false),
            24 => ("compressed is_undirected", gphrx_compressed_graph_is_undirected(c) as u64, false),
            25 => ("compressed vertex_count", gphrx_compressed_graph_vertex_count(c), false),
            26 => ("compressed edge_count", gphrx_compressed_graph_edge_count(c), false),
            27 => ("compressed does_edge_exist", gphrx_compressed_graph_does_edge_exist(c, a, b) as u64, false),
            28 => ("get_compressed_matrix_entry", gphrx_get_compressed_matrix_entry(c, a, b), false),
            29 => ("compressed matrix_string", z(gphrx_compressed_graph_matrix_string(c) as *mut u8), false),
            30 => ("compressed to_bytes", z(gphrx_compressed_graph_to_bytes(c, np)), true),
            31 => ("compressed to_bytes", z(gphrx_compressed_graph_to_bytes(c, null_mut())), false),
            32 => ("decompress", z(gphrx_decompress(c).graph_ptr as *mut u8), false),
            33 => ("matrix_duplicate", z(gphrx_matrix_duplicate(m).matrix_ptr as *mut u8), false),
            34 => ("matrix_dimension", gphrx_matrix_dimension(m), false),
            35 => ("matrix_entry_count", gphrx_matrix_entry_count(m), false),
            36 => ("matrix_get_entry", gphrx_matrix_get_entry(m, a, b).to_bits(), false),
            37 => ("matrix_to_string", z(gphrx_matrix_to_string(m) as *mut u8), false),
            38 => ("matrix_to_string_with_precision", z(gphrx_matrix_to_string_with_precision(m, 3) as *mut u8), false),
            39 => ("matrix_get_entry_list", z(gphrx_matrix_get_entry_list(m, np) as *mut u8), true),
            40 => ("matrix_get_entry_list", z(gphrx_matrix_get_entry_list(m, null_mut()) as *mut u8), false),
            41 => {
                free_gphrx_string_buffer(null_mut());
                free_gphrx_bytes_buffer(null_mut(), b as usize % 3);
                ("free buffer", 0, false)
            }
            42 => {
                free_gphrx_graph(g);
                ("free graph", 0, false)
            }
            43 => {
                free_gphrx_compressed_graph(c);
                ("free compressed graph", 0, false)
            }
            44 => {
                free_gphrx_matrix(m);
                ("free matrix", 0, false)
            }
            45 => {
                free_gphrx_edge_list(null_mut(), b as usize % 3);
                ("free edge list", 0, false)
            }
            46 => {
                free_gphrx_vertex_list(null_mut(), b as usize % 3);
                ("free vertex list", 0, false)
            }
            _ => {
                free_gphrx_matrix_entry_list(null_mut(), b as usize % 3);
                ("free entry list", 0, false)
            }
        }
    });
    ensure!(got == 0, "c:null_handle", "{what} of a null handle gives {got:#x}");
    if len {
        ensure!(n == 0, "c:null_length", "{what} of a null handle reports length {n}");
    }
    Ok(())
}

pub struct World<'a> {
    run: &'a mut Run,
    h: Vec<Option<Hnd>>,
    b: Vec<Option<Buf>>,
}
const BUFS: usize = 1 << 20;

impl<'a> World<'a> {
    fn pick(&self, k: Option<HK>, i: u64) -> Option<usize> {
        let live: Vec<usize> = (0..self.h.len())
            .filter(|x| self.h[*x].as_ref().is_some_and(|h| k.is_none() || k == Some(h.kind)))
            .collect();
        (!live.is_empty()).then(|| live[(i % live.len() as u64) as usize])
    }
    fn hnd(&self, i: usize) -> &Hnd {
        self.h[i].as_ref().unwrap()
    }
    fn gmut(&mut self, i: usize) -> &mut MGraph {
        match Arc::make_mut(&mut self.h[i].as_mut().unwrap().model) {
            Mod::G(g) => g,
            _ => panic!("harness: model"),
        }
    }
    fn add(&mut self, kind: HK, model: Mod) -> (usize, Ptr) {
        let ptr = Ptr::default();
        self.h.push(Some(Hnd { kind, ptr: ptr.clone(), model: Arc::new(model) }));
        self.run.ctr(Ctr::graphs_made, 1);
        (self.h.len() - 1, ptr)
    }
    fn buf(&mut self, kind: BK) -> (usize, Ptr, Ptr, Arc<Mutex<Vec<u8>>>) {
        let b = Buf { kind, ptr: Ptr::default(), len: Ptr::default(), copy: Default::default() };
        let r = (BUFS + self.b.len(), b.ptr.clone(), b.len.clone(), b.copy.clone());
        self.b.push(Some(b));
        r
    }
    fn go(&mut self, st: &Step, touch: &[(usize, bool)], job: Job) -> R<()> {
        self.run.submit(st.client as usize, touch, &st.pre, job)
    }
    fn mark(&mut self, st: &Step, o: usize) {
        let h = match &*self.hnd(o).model {
            Mod::G(g) => g.hash(),
            Mod::Z(z) => z.hash(),
            Mod::P(p) => mix(p.dim, p.counts.len() as u64),
            _ => 0,
        };
        let oph = st.op.bytes().fold(9u64, |a, b| mix(a, b as u64));
        self.run.fp(mix(h, mix(oph, mix(st.pre.len() as u64, self.b.iter().flatten().count() as u64))));
    }
    fn live(&self) -> usize {
        self.h.iter().flatten().count()
    }

    fn step(&mut self, st: &Step) -> R<()> {
        match st.op.as_str() {
            "new" => {
                if self.live() > 10 {
                    return Ok(());
                }
                let und = st.a(0) % 2 == 1;
                let (o, p) = self.add(HK::G, Mod::G(MGraph::new(und)));
                self.go(st, &[(o, true)], Box::new(move || {
                    let h = sut(|| if und { gphrx_new_undirected() } else { gphrx_new_directed() });
                    ensure!(!h.graph_ptr.is_null(), "c:null", "a new graph is null");
                    p.store(h.graph_ptr as usize, SeqCst);
                    Ok(1)
                }))?;
            }
            "add" | "del" => {
                let Some(o) = self.pick(Some(HK::G), st.a(0)) else { return Ok(()) };
                let (a, b, add) = (st.a(1), st.a(2), st.op == "add");
                if add {
                    self.gmut(o).add_edge(a, b);
                    self.run.ctr(Ctr::edges_added, 1);
                } else {
                    self.gmut(o).del_edge(a, b);
                    self.run.ctr(Ctr::edges_deleted, 1);
                }
                let p = self.hnd(o).ptr.clone();
                self.go(st, &[(o, true)], Box::new(move || {
                    let h = gh(p.load(SeqCst));
                    sut(|| unsafe { if add { gphrx_add_edge(h, a, b) } else { gphrx_delete_edge(h, a, b) } });
                    Ok(2)
                }))?;
                self.mark(st, o);
            }
            "bulk" => {
                let Some(o) = self.pick(Some(HK::G), st.a(0)) else { return Ok(()) };
                let list = pattern(st.a(1), st.a(2), st.a(3), st.a(4));
                for (a, b) in &list {
                    self.gmut(o).add_edge(*a, *b);
                }
                self.run.ctr(Ctr::bulk_edges, list.len() as u64);
                let p = self.hnd(o).ptr.clone();
                self.go(st, &[(o, true)], Box::new(move || {
                    let h = gh(p.load(SeqCst));
                    sut(|| {
                        for (a, b) in &list {
                            unsafe { gphrx_add_edge(h, *a, *b) };
                        }
                    });
                    Ok(3)
                }))?;
                self.mark(st, o);
            }
            "vert" | "vlist" => {
                let Some(o) = self.pick(Some(HK::G), st.a(0)) else { return Ok(()) };
                let v = st.a(1);
                let long = st.op == "vlist";
                let to: Vec<u64> = if long { crate::gen::long_list(st.a(2), st.a(3), st.a(4)) } else { vec![] };
                let to: Vec<u64> = if long { to } else { st.args.get(3..).unwrap_or(&[]).iter().copied().filter(|x| *x != u64::MAX).collect() };
                // How the list is passed: as it is; null with length 0; null with a length.
                let mode = if long { 0 } else { st.a(2) % 8 };
                let p = self.hnd(o).ptr.clone();
                match mode {
                    6 => {
                        self.gmut(o).add_vertex(v, &[]);
                    }
                    7 => self.run.ctr(Ctr::f_null_handle, 1),
                    _ => self.gmut(o).add_vertex(v, &to),
                }
                self.go(st, &[(o, true)], Box::new(move || {
                    let h = gh(p.load(SeqCst));
                    sut(|| unsafe {
                        match mode {
                            6 => gphrx_add_vertex(h, v, null(), 0),
                            7 => gphrx_add_vertex(h, v, null(), to.len() + 1),
                            _ => gphrx_add_vertex(h, v, to.as_ptr(), to.len()),
                        }
                    });
                    Ok(4)
                }))?;
                self.mark(st, o);
            }
            "q" | "full" => {
                let Some(o) = self.pick(None, st.a(0)) else { return Ok(()) };
                let (k, p, m) = (self.hnd(o).kind, self.hnd(o).ptr.clone(), self.hnd(o).model.clone());
                let (a, b, all) = (st.a(1), st.a(2), st.op == "full");
                self.run.ctr(Ctr::comparisons, 1);
                self.go(st, &[(o, false)], Box::new(move || {
                    let p = p.load(SeqCst);
                    if all {
                        full(k, p, &m)?;
                    } else {
                        query(k, p, &m, a, b)?;
                    }
                    Ok(5)
                }))?;
                self.mark(st, o);
            }
            "dup" | "approx" | "comp" | "pool" | "decomp" => {
                if self.live() > 14 {
                    return Ok(());
                }
                let want = match st.op.as_str() {
                    "dup" => None,
                    "decomp" => Some(HK::Z),
                    _ => Some(HK::G),
                };
                let Some(s) = self.pick(want, st.a(0)) else { return Ok(()) };
                let (k, sp, sm) = (self.hnd(s).kind, self.hnd(s).ptr.clone(), self.hnd(s).model.clone());
                let (b, t) = (st.a(1), unf(st.a(2)));
                let lv = st.a(1) as u8;
                let (nk, nm) = match st.op.as_str() {
                    "dup" => (k, (*sm).clone()),
                    "decomp" => (HK::G, Mod::G(zm(&sm).graph())),
                    "comp" => (HK::Z, Mod::Z(gm(&sm).compressed(lv))),
                    "pool" => {
                        let (bb, dim) = gm(&sm).pool_shape(b);
                        let counts = if gm(&sm).vc == 0 { BTreeMap::new() } else { gm(&sm).blocks(bb) };
                        (HK::P, Mod::P(MPool { b: bb, dim, counts }))
                    }
                    _ => {
                        let m = gm(&sm);
                        if b <= 1 || m.vc <= 1 {
                            (HK::G, Mod::G(m.clone()))
                        } else {
                            let (bb, dim) = m.pool_shape(b);
                            let mut edges = BTreeSet::new();
                            for (e, n) in m.blocks(bb) {
                                match reaches(n, bb, t) {
                                    Some(true) => {
                                        edges.insert(e);
                                    }
                                    Some(false) => {}
                                    None => return Ok(()),
                                }
                            }
                            (HK::G, Mod::G(MGraph { und: m.und, vc: dim, edges }))
                        }
                    }
                };
                let (o, p) = self.add(nk, nm.clone());
                let op = st.op.clone();
                self.run.ctr(Ctr::derivations, 1);
                self.go(st, &[(s, false), (o, true)], Box::new(move || {
                    let s = sp.load(SeqCst);
                    let h = sut(|| unsafe {
                        match (op.as_str(), k) {
                            ("dup", HK::G) => gphrx_duplicate(gh(s)).graph_ptr as usize,
                            ("dup", HK::Z) => gphrx_compressed_graph_duplicate(zh(s)).graph_ptr as usize,
                            ("dup", HK::P) => gphrx_matrix_duplicate(ph(s)).matrix_ptr as usize,
                            ("decomp", _) => gphrx_decompress(zh(s)).graph_ptr as usize,
                            ("comp", _) => gphrx_compress(gh(s), lv).graph_ptr as usize,
                            ("pool", _) => gphrx_find_avg_pool_matrix(gh(s), b).matrix_ptr as usize,
                            _ => gphrx_approximate(gh(s), b, t).graph_ptr as usize,
                        }
                    });
                    ensure!(h != 0, "c:null", "{op} returned null");
                    ensure!(h != s, "c:shared", "{op} returned the handle it was given");
                    p.store(h, SeqCst);
                    query(nk, h, &nm, 0, 1)?;
                    Ok(6)
                }))?;
                self.mark(st, o);
            }
            "edges" | "ins" | "outs" | "bytes" | "text" => self.list(st)?,
            "look" => {
                let live: Vec<usize> = (0..self.b.len()).filter(|i| self.b[*i].is_some()).collect();
                if live.is_empty() {
                    return Ok(());
                }
                let i = live[(st.a(0) % live.len() as u64) as usize];
                let job = self.look(i);
                self.go(st, &[(BUFS + i, false)], job)?;
            }
            "bfree" => {
                let live: Vec<usize> = (0..self.b.len()).filter(|i| self.b[*i].is_some()).collect();
                if live.is_empty() {
                    return Ok(());
                }
                let i = live[(st.a(0) % live.len() as u64) as usize];
                self.free_buf(st, i)?;
            }
            "hfree" => {
                let Some(o) = self.pick(None, st.a(0)) else { return Ok(()) };
                self.free_hnd(st, o)?;
            }
            "load" => self.load(st)?,
            "exit" => {
                self.run.ctr(Ctr::f_caller_exit, 1);
                self.run.restart_client(st.client as usize)?;
            }
            "null" => {
                let (k, a, b) = (st.a(0), st.a(1), st.a(2));
                self.run.ctr(Ctr::f_null_handle, 1);
                self.go(st, &[], Box::new(move || null_call(k, a, b).map(|_| 7)))?;
                self.run.fp(mix(0x4E, k % 48));
            }
            "oom" => self.oom(st)?,
            x => return bad("harness", format!("unknown step {x}")),
        }
        Ok(())
    }

    fn look(&self, i: usize) -> Job {
        let b = self.b[i].as_ref().unwrap();
        let (k, p, n, c) = (b.kind, b.ptr.clone(), b.len.clone(), b.copy.clone());
        Box::new(move || {
            let r = raw("buffer", k, p.load(SeqCst), n.load(SeqCst))?;
            let c = c.lock().unwrap();
            ensure!(*r == **c, "buffer:changed", "a {k:?} buffer changed after it was returned");
            Ok(8)
        })
    }
    fn free_buf(&mut self, st: &Step, i: usize) -> R<()> {
        let b = self.b[i].as_ref().unwrap();
        let (k, p, n) = (b.kind, b.ptr.clone(), b.len.clone());
        let look = self.look(i);
        self.run.ctr(Ctr::buffers_freed, 1);
        self.go(st, &[(BUFS + i, true)], Box::new(move || {
            look()?;
            free_buffer(k, p.load(SeqCst), n.load(SeqCst));
            Ok(9)
        }))?;
        self.b[i] = None;
        Ok(())
    }
    fn free_hnd(&mut self, st: &Step, o: usize) -> R<()> {
        let (k, p) = (self.hnd(o).kind, self.hnd(o).ptr.clone());
        self.run.ctr(Ctr::handles_freed, 1);
        self.mark(st, o);
        self.go(st, &[(o, true)], Box::new(move || {
            free_handle(k, p.load(SeqCst));
            Ok(10)
        }))?;
        self.h[o] = None;
        Ok(())
    }

    /// A call that returns a buffer, with or without a place for its length.
    fn list(&mut self, st: &Step) -> R<()> {
        if self.b.iter().flatten().count() > 20 {
            return Ok(());
        }
        let op = st.op.clone();
        let kind = match op.as_str() {
            "ins" | "outs" => Some(HK::G),
            "edges" => None,
            _ => None,
        };
        let Some(o) = self.pick(kind, st.a(0)) else { return Ok(()) };
        let (k, p, m) = (self.hnd(o).kind, self.hnd(o).ptr.clone(), self.hnd(o).model.clone());
        let (v, nolen, digits) = (st.a(1), st.a(2) % 4 == 0, st.a(3));
        let bk = match (op.as_str(), k) {
            ("ins" | "outs", _) => BK::Verts,
            ("bytes", HK::P) | ("text", _) => BK::Text,
            ("bytes", _) => BK::Bytes,
            ("edges", HK::G) => BK::Edges,
            ("edges", HK::P) => BK::Entries,
            _ => return Ok(()),
        };
        if bk == BK::Text {
            let (d, w) = match &*m {
                Mod::G(g) => (g.vc, 3),
                Mod::Z(z) => (comp_dim(z.vc), 22),
                Mod::P(p) => (p.dim, 10),
                _ => (0, 0),
            };
            if d > 200 || d * d * w > 40_000 {
                return Ok(());
            }
        }
        if nolen {
            self.run.ctr(Ctr::f_null_out, 1);
        }
        self.run.ctr(Ctr::comparisons, 1);
        let (bi, bp, bl, bc) = self.buf(bk);
        self.go(st, &[(o, false), (bi, true)], Box::new(move || {
            let s = p.load(SeqCst);
            let mut n = 0xDEAD_BEEFusize;
            let np = if nolen { null_mut() } else { &mut n as *mut usize };
            let r = sut(|| unsafe {
                match (op.as_str(), k) {
                    ("ins", _) => gphrx_get_vertex_in_edges_list(gh(s), v, np) as usize,
                    ("outs", _) => gphrx_get_vertex_out_edges_list(gh(s), v, np) as usize,
                    ("edges", HK::G) => gphrx_get_edge_list(gh(s), np) as usize,
                    ("edges", _) => gphrx_matrix_get_entry_list(ph(s), np) as usize,
                    ("bytes", HK::G) => gphrx_to_bytes(gh(s), np) as usize,
                    ("bytes", HK::Z) => gphrx_compressed_graph_to_bytes(zh(s), np) as usize,
                    ("text", HK::G) => gphrx_matrix_string(gh(s)) as usize,
                    ("text", HK::Z) => gphrx_compressed_graph_matrix_string(zh(s)) as usize,
                    ("text", HK::P) => gphrx_matrix_to_string_with_precision(ph(s), (digits % 12) as usize) as usize,
                    _ => gphrx_matrix_to_string(ph(s)) as usize,
                }
            });
            let what = format!("{op} of {k:?}");
            let want = match (op.as_str(), &*m) {
                ("ins", Mod::G(g)) => g.ins(v).len(),
                ("outs", Mod::G(g)) => g.out(v).len(),
                ("edges", Mod::G(g)) => g.edges.len(),
                ("edges", Mod::P(p)) => p.counts.len(),
                ("bytes", Mod::G(g)) => 26 + 16 * g.edges.len(),
                ("bytes", Mod::Z(z)) => 42 + 24 * z.blocks.len(),
                _ => 0,
            };
            if nolen || bk == BK::Text {
                n = want;
            }
            ensure!(n == want, "c:length", "{what}: length {n} instead of {want}");
            let b = raw(&what, bk, r, n)?;
            match (op.as_str(), &*m) {
                ("ins", Mod::G(g)) => is_verts(&what, b, g.ins(v))?,
                ("outs", Mod::G(g)) => is_verts(&what, b, g.out(v))?,
                ("edges", Mod::G(g)) => is_edges(&what, b, &g.edges)?,
                ("edges", Mod::P(p)) => is_entries(&what, b, p)?,
                ("bytes", Mod::G(g)) => check_image(b, &M::G(g.clone()))?,
                ("bytes", Mod::Z(z)) => check_image(b, &M::Z(z.clone()))?,
                ("text", Mod::G(g)) => matrix_text("c", &String::from_utf8_lossy(b), g)?,
                ("text", Mod::Z(z)) => is_comp_text(&what, b, z)?,
                ("text", Mod::P(p)) => is_pool_text(&what, b, p, Some(digits % 12))?,
                (_, Mod::P(p)) => is_pool_text(&what, b, p, None)?,
                _ => return bad("harness", "list".into()),
            }
            *bc.lock().unwrap() = b.to_vec();
            bp.store(r, SeqCst);
            bl.store(n, SeqCst);
            Ok(mix(11, n as u64))
        }))?;
        self.mark(st, o);
        Ok(())
    }

    /// Bytes become a handle: what a handle of this kind says, or damaged bytes.
    fn load(&mut self, st: &Step) -> R<()> {
        if self.live() > 14 {
            return Ok(());
        }
        let Some(o) = self.pick(None, st.a(0)) else { return Ok(()) };
        let (img, comp) = match &*self.hnd(o).model {
            Mod::G(g) => (g.image(st.a(1)), false),
            Mod::Z(z) => (z.image(st.a(1)), true),
            _ => return Ok(()),
        };
        let mut b = img.clone();
        let (how, x, y) = (st.a(2), st.a(3), st.a(4));
        let n = b.len() as u64;
        let noerr = st.a(5) % 4 == 0;
        let mut null_in = None;
        match how {
            0 => {}
            1 => {
                b[(x % n) as usize] ^= 1 << (y % 8);
                self.run.ctr(Ctr::f_bit_flip, 1);
            }
            2 => {
                b.truncate((x % n) as usize);
                self.run.ctr(Ctr::f_truncate, 1);
            }
            3 => {
                b.extend(std::iter::repeat_n(y as u8, (x % 40) as usize + 1));
                self.run.ctr(Ctr::f_extend, 1);
            }
            4 => {
                // A whole field of the header replaced.
                let at = (x % if comp { 42 } else { 26 }) as usize;
                for i in at..(at + 8).min(b.len()) {
                    b[i] = (y >> (8 * (i - at))) as u8;
                }
                self.run.ctr(Ctr::f_header_edit, 1);
            }
            5 => null_in = Some((x % 3) as usize),
            6 => b.clear(),
            7 => {
                let rec = if comp { 24 } else { 16 };
                let hd = if comp { 42 } else { 26 };
                let recs = (b.len() - hd) / rec;
                if recs > 0 {
                    let i = hd + (x as usize % recs) * rec;
                    let r = b[i..i + rec].to_vec();
                    b.extend(r);
                    let c = be64(&b, 16) + 1;
                    b[16..24].copy_from_slice(&c.to_be_bytes());
                    self.run.ctr(Ctr::f_dup_record, 1);
                }
            }
            _ => {
                // Some run of bytes zeroed, as a lost sector.
                let at = (x % n) as usize;
                let e = (at + (y % 64) as usize + 1).min(b.len());
                b[at..e].fill(0);
                self.run.ctr(Ctr::f_zero_sector, 1);
            }
        }
        let as_comp = if how == 9 { !comp } else { comp };
        // 0 must be refused, 1 must be accepted, 2 may be either.
        let (must, model) = if null_in.is_some() {
            (0, Mod::None)
        } else if as_comp {
            match read_comp(&b) {
                Meaning::Exact(m) => (1, Mod::Z(m)),
                Meaning::Either(m) => (2, Mod::Z(m)),
                Meaning::Invalid(_) => (0, Mod::None),
            }
        } else {
            match read_graph(&b) {
                Meaning::Exact(m) => (1, Mod::G(m)),
                Meaning::Either(m) => (2, Mod::G(m)),
                Meaning::Invalid(_) => (0, Mod::None),
            }
        };
        if must != 1 || noerr {
            // Nothing else may be in the middle of an operation: memory is compared.
            self.run.drain()?;
        }
        if noerr {
            self.run.ctr(Ctr::f_null_out, 1);
        }
        if must == 0 {
            self.run.ctr(Ctr::loads_refused_ok, 1);
        } else {
            self.run.ctr(Ctr::loads_ok, 1);
        }
        let k = if as_comp { HK::Z } else { HK::G };
        let keep = must == 1;
        let slot = if keep { Some(self.add(k, model.clone())) } else { None };
        let touch: Vec<(usize, bool)> = slot.iter().map(|s| (s.0, true)).collect();
        let quiet = must != 1 && st.pre.is_empty();
        self.go(st, &touch, Box::new(move || {
            let live0 = alloc::LIVE_BYTES.load(SeqCst);
            let (bp, bn) = match null_in {
                Some(n) => (null(), n),
                None => (b.as_ptr(), b.len()),
            };
            // The input lives exactly as long as the call: a decoded object must not need it.
            let mut err = 0xE7u8;
            let ep = if noerr { null_mut() } else { &mut err as *mut u8 };
            let h = sut(|| unsafe {
                if as_comp {
                    gphrx_compressed_graph_from_bytes(bp, bn, ep).graph_ptr as usize
                } else {
                    gphrx_from_bytes(bp, bn, ep).graph_ptr as usize
                }
            });
            drop(b);
            if h == 0 {
                ensure!(must != 1, "c:refused", "from_bytes refused a well-formed image");
                ensure!(noerr || err == GPHRX_ERROR_INVALID_FORMAT, "c:error_code", "from_bytes returned null with error code {err}");
                let live1 = alloc::LIVE_BYTES.load(SeqCst);
                ensure!(!quiet || live1 == live0, "c:leak", "a refused image leaves {} bytes allocated", live1 - live0);
                return Ok(12);
            }
            ensure!(must != 0, "c:accepted", "from_bytes accepted bytes that are not an image");
            ensure!(noerr || err == 0, "c:error_code", "from_bytes succeeded with error code {err}");
            full(k, h, &model)?;
            match &slot {
                Some((_, p)) => p.store(h, SeqCst),
                None => free_handle(k, h),
            }
            Ok(13)
        }))?;
        self.run.fp(mix(mix(must, how), mix(noerr as u64, as_comp as u64)));
        Ok(())
    }

    /// No memory for a byte image or a string.
    fn oom(&mut self, st: &Step) -> R<()> {
        let Some(o) = self.pick(None, st.a(0)) else { return Ok(()) };
        let (k, p, m) = (self.hnd(o).kind, self.hnd(o).ptr.clone(), self.hnd(o).model.clone());
        let (text, skip, times, digits) = (st.a(1) % 2 == 1, st.a(2) % 3, st.a(3) % 3, st.a(4) % 8);
        // Some precisions are beyond what a formatter, or memory, can do.
        let wild = if k == HK::P { st.a(6) } else { 0 };
        let digits = match wild % 24 {
            1 => u64::MAX >> (wild / 24 % 4),
            2 => 1 << (30 + wild / 24 % 34),
            3 | 4 => 65_530 + wild / 24 % 12,
            5 => 1070 + wild / 24 % 12,
            _ => digits,
        };
        let size: u128 = match &*m {
            Mod::G(g) if text => 3 * (g.vc as u128 * g.vc as u128).min(1 << 120),
            Mod::Z(z) if text => 3 * (comp_dim(z.vc) as u128).pow(2),
            Mod::P(p) => (3 + if wild == 0 { 0 } else { digits as u128 }) * (p.dim as u128 * p.dim as u128).min(1 << 60),
            Mod::G(g) => 26 + 16 * g.edges.len() as u128,
            Mod::Z(z) => 42 + 24 * z.blocks.len() as u128,
            _ => return Ok(()),
        };
        let is_text = text || k == HK::P;
        let fits = size <= 1 << 20;
        if !fits && size <= 3 << 30 {
            return Ok(());
        }
        static SPENT: AtomicUsize = AtomicUsize::new(0);
        if fits && is_text && SPENT.fetch_add(size as usize, SeqCst) > 2 << 20 {
            return Ok(());
        }
        self.run.settle(st.client as usize % self.run.clients.len())?;
        self.run.drain()?;
        self.run.ctr(if fits { Ctr::f_alloc_refused } else { Ctr::f_alloc_too_large }, 1);
        let nolen = st.a(5) % 4 == 0;
        let st = &Step { pre: vec![], ..st.clone() };
        self.go(st, &[(o, false)], Box::new(move || {
            let s = p.load(SeqCst);
            let what = format!("{} of {k:?}", if is_text { "text" } else { "bytes" });
            let call = |n: &mut usize| {
                let np = if nolen { null_mut() } else { n as *mut usize };
                sut(|| unsafe {
                    match (k, is_text) {
                        (HK::G, false) => gphrx_to_bytes(gh(s), np) as usize,
                        (HK::Z, false) => gphrx_compressed_graph_to_bytes(zh(s), np) as usize,
                        (HK::G, true) => gphrx_matrix_string(gh(s)) as usize,
                        (HK::Z, true) => gphrx_compressed_graph_matrix_string(zh(s)) as usize,
                        _ if digits == 7 => gphrx_matrix_to_string(ph(s)) as usize,
                        _ => gphrx_matrix_to_string_with_precision(ph(s), digits as usize) as usize,
                    }
                })
            };
            let right = |r: usize, n: usize| -> R<()> {
                let bk = if is_text { BK::Text } else { BK::Bytes };
                let n = if is_text {
                    0
                } else if nolen {
                    size as usize
                } else {
                    n
                };
                ensure!(is_text || n as u128 == size, "c:length", "{what}: length {n} instead of {size}");
                let b = raw(&what, bk, r, n)?;
                match (&*m, is_text) {
                    (Mod::G(g), false) => check_image(b, &M::G(g.clone()))?,
                    (Mod::Z(z), false) => check_image(b, &M::Z(z.clone()))?,
                    (Mod::G(g), true) => matrix_text("c", &String::from_utf8_lossy(b), g)?,
                    (Mod::Z(z), true) => is_comp_text(&what, b, z)?,
                    (Mod::P(p), _) => is_pool_text(&what, b, p, if digits == 7 { None } else { Some(digits) })?,
                    _ => {}
                }
                free_buffer(bk, r, n);
                Ok(())
            };
            let live0 = alloc::reset_peak();
            if fits && size >= 1024 {
                alloc::set_fault(alloc::Fault { min_size: size as usize, skip: skip as u32, refuse: 1 + times as u32 });
            }
            let mut n = 0xDEAD_BEEFusize;
            let r = call(&mut n);
            let fired = alloc::clear_fault();
            if r == 0 {
                ensure!(!fits || fired > 0, "c:null", "{what}: null with memory available");
                ensure!(is_text || nolen || n == 0, "c:null_length", "{what}: null with length {n}");
                let live1 = alloc::LIVE_BYTES.load(SeqCst);
                ensure!(live1 == live0, "c:leak", "{what}: {} bytes stay allocated after the failure", live1 - live0);
                ensure!(alloc::peak() - live0 < 2 << 30, "c:grew", "{what} took {} bytes", alloc::peak() - live0);
            } else {
                ensure!(fits, "c:impossible", "{what} of {size} bytes succeeded");
                right(r, n)?;
            }
            query(k, s, &m, 0, 1)?;
            if fits && fired > 0 {
                let mut n = 0xDEAD_BEEFusize;
                let r = call(&mut n);
                ensure!(r != 0, "c:retry", "{what}: null again once memory is available");
                right(r, n)?;
            }
            Ok(mix(14, fired as u64))
        }))?;
        self.mark(st, o);
        Ok(())
    }

    /// Everything is checked once more, then freed in an order of the plan's choosing.
    fn finish(&mut self, order: u64) -> R<()> {
        self.run.drain()?;
        for o in 0..self.h.len() {
            if self.h[o].is_some() {
                let st = Step { client: o as u64, op: "last".into(), args: vec![], pre: vec![] };
                let (k, p, m) = (self.hnd(o).kind, self.hnd(o).ptr.clone(), self.hnd(o).model.clone());
                self.go(&st, &[(o, false)], Box::new(move || full(k, p.load(SeqCst), &m).map(|_| 15)))?;
            }
        }
        let mut all: Vec<usize> = (0..self.h.len()).filter(|i| self.h[*i].is_some()).collect();
        all.extend((0..self.b.len()).filter(|i| self.b[*i].is_some()).map(|i| BUFS + i));
        shuffle(&mut all, order | 1);
        for (i, x) in all.into_iter().enumerate() {
            let st = Step { client: mix(order, i as u64) >> 8, op: "last".into(), args: vec![], pre: vec![] };
            if x >= BUFS {
                self.free_buf(&st, x - BUFS)?;
            } else {
                self.free_hnd(&st, x)?;
            }
        }
        self.run.drain()?;
        Ok(())
    }
}

pub fn gen(prop: &str, r: &mut Rng, seed: u64, idx: u64) -> Plan {
    let mut p = Plan::new(prop, seed, idx);
    p.set("entropy", r.next() >> 1);
    let callers = r.weighted(&[30, 35, 20, 15]) as u64 + 1;
    p.set("callers", callers);
    p.set("order", r.next() >> 1);
    let ids = if r.chance(55) { small_pool(r) } else { id_pool(r) };
    let n = match r.weighted(&[25, 50, 20, 5]) {
        0 => r.range(4, 12),
        1 => r.range(12, 50),
        2 => r.range(50, 130),
        _ => r.range(130, 300),
    };
    let id = |r: &mut Rng| if r.chance(2) { r.pick(&[u64::MAX, u64::MAX - 1, 0]) } else { r.pick(&ids) };
    p.push(0, "new", vec![r.below(2)]);
    if r.chance(50) {
        p.push(r.below(callers), "new", vec![r.below(2)]);
    }
    let faults = prop == "C14";
    if !faults && idx % 400 == 311 {
        return wide(p, r, callers);
    }
    for _ in 0..n {
        let c = r.below(callers);
        let o = r.below(12);
        let w: &[u64] = if faults {
            &[2, 22, 5, 5, 7, 6, 3, 3, 3, 3, 5, 4, 3, 2, 2, 3, 1, 4, 4, 14, 1, 10, 16]
        } else {
            &[3, 26, 8, 6, 5, 10, 6, 6, 4, 4, 6, 5, 4, 7, 7, 7, 7, 10, 8, 5, 1, 0, 0]
        };
        match r.weighted(w) {
            0 => p.push(c, "new", vec![r.below(2)]),
            1 => {
                let (a, b) = (id(r), id(r));
                p.push(c, "add", vec![o, a, b])
            }
            2 => {
                let (a, b) = (id(r), id(r));
                p.push(c, "del", vec![o, a, b])
            }
            3 => {
                let mut v = vec![o, id(r), r.below(8)];
                for _ in 0..r.below(6) {
                    v.push(id(r));
                }
                if r.chance(5) {
                    v.truncate(2);
                    v.extend(list_args(r));
                    p.push(c, "vlist", v)
                } else {
                    p.push(c, "vert", v)
                }
            }
            4 => {
                let mut v = vec![o];
                let big = r.chance(3);
                let mut b = bulk_args(r, big);
                b[1] = b[1].min(6000);
                v.extend(b);
                p.push(c, "bulk", v)
            }
            5 => {
                let (a, b) = (id(r), id(r));
                p.push(c, "q", vec![o, a, b])
            }
            6 => p.push(c, "full", vec![o]),
            7 => p.push(c, "dup", vec![o]),
            8 => {
                let b = if r.chance(80) { r.range(0, 12) } else { r.log(u64::MAX) };
                let t = f(r.pick(&[0.0, 0.01, 0.1, 0.25, 0.5, 1.0, 2.0, -1.0, 1.0 / 3.0, 0.04]));
                p.push(c, "approx", vec![o, b, t])
            }
            9 => p.push(c, "decomp", vec![o]),
            10 => {
                let b = if r.chance(85) { r.range(0, 12) } else { r.log(u64::MAX) };
                p.push(c, "pool", vec![o, b])
            }
            11 => {
                let lv = r.pick(&[0, 1, 1, 1, 2, 3, 8, 64, 65, 200, 255]);
                p.push(c, "comp", vec![o, lv])
            }
            12 => p.push(c, "edges", vec![o, 0, r.below(4)]),
            13 => {
                let v = id(r);
                p.push(c, if r.chance(50) { "ins" } else { "outs" }, vec![o, v, r.below(4)])
            }
            14 => p.push(c, "bytes", vec![o, 0, r.below(4)]),
            15 => p.push(c, "text", vec![o, 0, 1, r.below(12)]),
            16 => p.push(c, "look", vec![r.below(24)]),
            17 => p.push(c, "bfree", vec![r.below(24)]),
            18 => p.push(c, "hfree", vec![o]),
            19 => {
                let how = if faults { r.weighted(&[6, 8, 8, 5, 10, 5, 2, 6, 6, 4]) as u64 } else { r.weighted(&[80, 3, 3, 0, 0, 0, 0, 0, 0, 0]) as u64 };
                let y = if r.chance(50) { r.below(260) } else { r.next() };
                p.push(c, "load", vec![o, r.below(1 << 20), how, r.below(1 << 20), y, r.below(8)])
            }
            20 => p.push(c, "exit", vec![]),
            21 => {
                let (a, b) = (id(r), id(r));
                p.push(c, "null", vec![r.below(48), a, b])
            }
            _ => p.push(c, "oom", vec![o, r.below(2), r.below(3), r.below(3), r.below(8), r.below(8), if r.chance(60) { 0 } else { r.next() >> 8 }]),
        };
    }
    sprinkle(r, &mut p, if faults { 30 } else { 60 }, 6);
    p
}

/// A few operations on graphs of tens of thousands of edges: lists, byte images and copies longer than any
/// counter of 16 bits or buffer of a fixed size would hold.
fn wide(mut p: Plan, r: &mut Rng, callers: u64) -> Plan {
    let kind = r.pick(&[1, 2, 3, 3, 4, 5, 7]);
    let n = r.pick(&[20_000, 32_769, 40_000, 65_535, 65_536, 65_537, 66_000, 66_000, 69_000, 70_000, 70_000]);
    let base = if r.chance(50) { 0 } else { r.log(1 << 20) };
    let hub = r.below(1 << 20);
    p.push(r.below(callers), "bulk", vec![0, kind, n, base, hub]);
    let c = r.below(callers);
    p.push(c, "add", vec![0, base + 3, base + 1]);
    for _ in 0..r.range(4, 10) {
        let c = r.below(callers);
        let (o, keep) = (r.below(3), r.below(4));
        match r.below(9) {
            0 | 1 | 2 => p.push(c, "edges", vec![o, 0, keep]),
            3 => p.push(c, "full", vec![o]),
            4 => p.push(c, "dup", vec![o]),
            5 => p.push(c, "bytes", vec![o, 0, keep]),
            6 => p.push(c, if r.chance(50) { "ins" } else { "outs" }, vec![o, base, keep]),
            7 => p.push(c, "comp", vec![o, r.pick(&[1, 1, 8, 64])]),
            _ => p.push(c, "look", vec![r.below(24)]),
        };
    }
    sprinkle(r, &mut p, 30, 3);
    p
}

pub fn exec(plan: &Plan, run: &mut Run) -> R<()> {
    let live0 = alloc::LIVE_BYTES.load(SeqCst);
    let mut w = World { run, h: vec![], b: vec![] };
    for st in &plan.steps {
        w.run.tick()?;
        w.step(st)?;
    }
    w.finish(plan.get("order"))?;
    alloc::check_quarantine();
    if let Some(e) = alloc::take_error() {
        return Err(Viol::new("memory", e));
    }
    let live1 = alloc::LIVE_BYTES.load(SeqCst);
    ensure!(live1 == live0, "c:leak", "{} bytes stay allocated after every handle and buffer was freed", live1 - live0);
    Ok(())
}
