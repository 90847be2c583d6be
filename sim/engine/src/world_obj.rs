//! The object world: several callers, each a thread of its own with its own hash seed, work on a
//! pool of graphs, matrices, compressed graphs and builders in one process. One caller runs at
//! a time; any operation may be interrupted between two instructions by others'.
use crate::alloc;
use crate::gen::*;
use crate::model::*;
use crate::num::{self, NumBox};
use crate::obs::*;
use crate::plan::*;
use crate::rng::*;
use crate::run::*;
use crate::seams::*;
use graphrox::builder::CompressedGraphBuilder;
use graphrox::matrix::{CsrAdjacencyMatrix, CsrSquareMatrix, MatrixRepresentation};
use graphrox::{CompressedGraph, Graph, GraphRepresentation};
use std::cell::UnsafeCell;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::{Arc, Mutex};

pub enum Obj {
    Empty,
    G(Graph),
    A(CsrAdjacencyMatrix),
    N(Box<dyn NumBox>),
    P(CsrSquareMatrix<f64>),
    Z(CompressedGraph),
    B(CompressedGraphBuilder),
}

#[derive(Clone)]
pub enum Mod {
    None,
    G(MGraph),
    /// A pooling matrix: block dimension used and the counts.
    P(MPool),
    Z(MComp),
    /// Adjacency matrix: like a directed graph.
    A(MGraph),
}
#[derive(Clone, PartialEq, Debug)]
pub struct MPool {
    pub b: u64,
    pub dim: u64,
    pub counts: BTreeMap<(u64, u64), u64>,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    G,
    A,
    N,
    P,
    Z,
    B,
}

pub struct Cell(UnsafeCell<Obj>);
unsafe impl Send for Cell {}
unsafe impl Sync for Cell {}
impl Cell {
    #[allow(clippy::mut_from_ref)]
    fn at(&self) -> &mut Obj {
        unsafe { &mut *self.0.get() }
    }
    fn g(&self) -> &mut Graph {
        match self.at() {
            Obj::G(g) => g,
            _ => panic!("harness: not a graph"),
        }
    }
    fn a(&self) -> &mut CsrAdjacencyMatrix {
        match self.at() {
            Obj::A(g) => g,
            _ => panic!("harness: not a matrix"),
        }
    }
    fn n(&self) -> &mut Box<dyn NumBox> {
        match self.at() {
            Obj::N(g) => g,
            _ => panic!("harness: not a numeric matrix"),
        }
    }
    fn p(&self) -> &mut CsrSquareMatrix<f64> {
        match self.at() {
            Obj::P(g) => g,
            _ => panic!("harness: not a pool matrix"),
        }
    }
    fn z(&self) -> &mut CompressedGraph {
        match self.at() {
            Obj::Z(g) => g,
            _ => panic!("harness: not a compressed graph"),
        }
    }
    fn b(&self) -> &mut CompressedGraphBuilder {
        match self.at() {
            Obj::B(g) => g,
            _ => panic!("harness: not a builder"),
        }
    }
}

struct Slot {
    kind: Kind,
    cell: Arc<Cell>,
    model: Arc<Mod>,
    /// Expected observation, for the isolation world.
    obs: Arc<std::sync::Mutex<Option<Obs>>>,
}

pub struct World<'a> {
    pub run: &'a mut Run,
    slots: Vec<Option<Slot>>,
    probes: Vec<u64>,
    /// Count the instructions of every operation, not of some.
    meter: bool,
}

fn mg(m: &Mod) -> &MGraph {
    match m {
        Mod::G(g) | Mod::A(g) => g,
        _ => panic!("harness: model"),
    }
}

impl<'a> World<'a> {
    pub fn new(run: &'a mut Run) -> World<'a> {
        World { run, slots: vec![], probes: vec![0, 1, u64::MAX, u64::MAX - 1], meter: false }
    }
    fn pick(&self, kind: Kind, i: u64) -> Option<usize> {
        let live: Vec<usize> =
            (0..self.slots.len()).filter(|k| self.slots[*k].as_ref().is_some_and(|s| s.kind == kind)).collect();
        if live.is_empty() {
            None
        } else {
            Some(live[(i % live.len() as u64) as usize])
        }
    }
    fn any(&self, i: u64) -> Option<usize> {
        let live: Vec<usize> = (0..self.slots.len()).filter(|k| self.slots[*k].is_some()).collect();
        if live.is_empty() {
            None
        } else {
            Some(live[(i % live.len() as u64) as usize])
        }
    }
    fn add(&mut self, kind: Kind, model: Mod) -> (usize, Arc<Cell>) {
        let cell = Arc::new(Cell(UnsafeCell::new(Obj::Empty)));
        self.slots.push(Some(Slot { kind, cell: cell.clone(), model: Arc::new(model), obs: Default::default() }));
        (self.slots.len() - 1, cell)
    }
    fn cell(&self, i: usize) -> Arc<Cell> {
        self.slots[i].as_ref().unwrap().cell.clone()
    }
    fn model(&self, i: usize) -> Arc<Mod> {
        self.slots[i].as_ref().unwrap().model.clone()
    }
    fn model_mut(&mut self, i: usize) -> &mut Mod {
        Arc::make_mut(&mut self.slots[i].as_mut().unwrap().model)
    }
    fn gm(&mut self, i: usize) -> &mut MGraph {
        match self.model_mut(i) {
            Mod::G(g) | Mod::A(g) => g,
            _ => panic!("harness: model"),
        }
    }
    fn probe(&mut self, ids: &[u64]) {
        for i in ids {
            if !self.probes.contains(i) {
                if self.probes.len() >= 14 {
                    self.probes.remove(4);
                }
                self.probes.push(*i);
            }
        }
    }
    fn go(&mut self, st: &Step, touch: &[(usize, bool)], job: Job) -> R<()> {
        self.run.submit(st.client as usize, touch, &st.pre, job)
    }
    /// The state the coordinator believes in, as a coverage fingerprint.
    fn mark(&mut self, st: &Step, o: usize) {
        let h = match &*self.model(o) {
            Mod::G(g) | Mod::A(g) => g.hash(),
            Mod::Z(z) => z.hash(),
            Mod::P(p) => mix(p.dim, p.counts.len() as u64),
            Mod::None => 0,
        };
        let oph = st.op.bytes().fold(7u64, |a, b| mix(a, b as u64));
        self.run.fp(mix(h, mix(oph, st.pre.len() as u64)));
    }

    fn edges(&mut self) -> usize {
        (0..self.slots.len())
            .filter(|o| self.slots[*o].is_some())
            .map(|o| match &*self.model(o) {
                Mod::G(g) | Mod::A(g) => g.edges.len(),
                _ => 0,
            })
            .sum()
    }

    /// Operations every world shares: making, mutating and dropping graphs. True if handled.
    fn base(&mut self, st: &Step) -> R<bool> {
        match st.op.as_str() {
            "gnew" => {
                let und = st.a(0) % 2 == 1;
                let (o, c) = self.add(Kind::G, Mod::G(MGraph::new(und)));
                self.run.ctr(Ctr::graphs_made, 1);
                self.go(st, &[(o, true)], Box::new(move || {
                    *c.at() = Obj::G(sut(|| if und { Graph::new_undirected() } else { Graph::new_directed() }));
                    Ok(1)
                }))?;
            }
            "gadd" | "gdel" => {
                let Some(o) = self.pick(Kind::G, st.a(0)) else { return Ok(true) };
                let (a, b, add) = (st.a(1), st.a(2), st.op == "gadd");
                self.probe(&[a, b]);
                let c = self.cell(o);
                let und = mg(&self.model(o)).und;
                if add {
                    self.gm(o).add_edge(a, b);
                    self.run.ctr(Ctr::edges_added, 1);
                } else {
                    self.gm(o).del_edge(a, b);
                    self.run.ctr(Ctr::edges_deleted, 1);
                }
                if a.max(b) > 1 << 40 {
                    self.run.ctr(Ctr::f_huge_id, 1);
                }
                let _ = und;
                self.go(st, &[(o, true)], Box::new(move || {
                    let g = c.g();
                    sut(|| if add { g.add_edge(a, b) } else { g.delete_edge(a, b) });
                    Ok(2)
                }))?;
                self.mark(st, o);
            }
            "gvert" | "glist" => {
                let Some(o) = self.pick(Kind::G, st.a(0)) else { return Ok(true) };
                let v = st.a(1);
                let none = st.op == "gvert" && st.a(2) % 3 == 0;
                // A list made only of the unrepresentable id is left out: what it should do to
                // the vertex count is not specified.
                let to: Vec<u64> = if st.op == "glist" {
                    crate::gen::long_list(st.a(2), st.a(3), st.a(4))
                } else {
                    st.args.get(3..).unwrap_or(&[]).iter().copied().filter(|x| *x != u64::MAX).collect()
                };
                let c = self.cell(o);
                self.gm(o).add_vertex(v, &to);
                self.probe(&[v]);
                self.go(st, &[(o, true)], Box::new(move || {
                    let g = c.g();
                    sut(|| g.add_vertex(v, if to.is_empty() && none { None } else { Some(&to) }));
                    Ok(3)
                }))?;
                self.mark(st, o);
            }
            "gbulk" | "gunbulk" => {
                let Some(o) = self.pick(Kind::G, st.a(0)) else { return Ok(true) };
                let list = pattern(st.a(1), st.a(2), st.a(3), st.a(4));
                let c = self.cell(o);
                let add = st.op == "gbulk";
                let m = self.gm(o);
                for (a, b) in &list {
                    if add {
                        m.add_edge(*a, *b);
                    } else {
                        m.del_edge(*a, *b);
                    }
                }
                self.run.ctr(Ctr::bulk_edges, list.len() as u64);
                if list.len() > 5000 {
                    self.run.ctr(Ctr::big_graphs, 1);
                }
                if let Some((a, b)) = list.first().copied() {
                    self.probe(&[a, b]);
                }
                self.go(st, &[(o, true)], Box::new(move || {
                    let g = c.g();
                    sut(|| {
                        for (a, b) in &list {
                            if add {
                                g.add_edge(*a, *b)
                            } else {
                                g.delete_edge(*a, *b)
                            }
                        }
                    });
                    Ok(4)
                }))?;
                self.mark(st, o);
            }
            "gchurn" => {
                // A long life: the same edges are made and removed again and again.
                let Some(o) = self.pick(Kind::G, st.a(0)) else { return Ok(true) };
                let list = pattern(st.a(1), st.a(2).max(1), st.a(3), st.a(4));
                let times = st.a(5).min(300_000 / list.len().max(1) as u64);
                let c = self.cell(o);
                let m = self.gm(o);
                let mut counts = vec![];
                for t in 0..times {
                    for (a, b) in &list {
                        if t % 2 == 0 {
                            m.add_edge(*a, *b);
                        } else {
                            m.del_edge(*a, *b);
                        }
                    }
                    counts.push((m.vc, m.edges.len() as u64));
                }
                self.run.ctr(Ctr::bulk_edges, list.len() as u64 * times);
                if let Some((a, b)) = list.first().copied() {
                    self.probe(&[a, b]);
                }
                self.go(st, &[(o, true)], Box::new(move || {
                    let g = c.g();
                    for (t, (vc, ec)) in counts.iter().enumerate() {
                        sut(|| {
                            for (a, b) in &list {
                                if t % 2 == 0 {
                                    g.add_edge(*a, *b)
                                } else {
                                    g.delete_edge(*a, *b)
                                }
                            }
                        });
                        let (v, e) = sut(|| (g.vertex_count(), g.edge_count()));
                        ensure!(v == *vc && e == *ec, "churn:counts", "after {} rounds of making and deleting {} edges the graph has {v} vertices and {e} edges instead of {vc} and {ec}", t + 1, list.len());
                    }
                    Ok(6)
                }))?;
                self.mark(st, o);
            }
            "drop" => {
                let Some(o) = self.any(st.a(0)) else { return Ok(true) };
                if self.slots.iter().filter(|s| s.is_some()).count() < 2 {
                    return Ok(true);
                }
                let c = self.cell(o);
                self.run.ctr(Ctr::objects_dropped, 1);
                self.go(st, &[(o, true)], Box::new(move || {
                    let x = std::mem::replace(c.at(), Obj::Empty);
                    sut(|| drop(x));
                    Ok(5)
                }))?;
                self.slots[o] = None;
            }
            "exit" => {
                self.run.ctr(Ctr::f_caller_exit, 1);
                self.run.restart_client(st.client as usize)?;
            }
            _ => return Ok(false),
        }
        Ok(true)
    }
}

// ---------------------------------------------------------------- generators

fn base_step(r: &mut Rng, p: &mut Plan, ids: &[u64], callers: u64, und_bias: u64, big: &mut bool) {
    let c = r.below(callers);
    let id = |r: &mut Rng| if r.chance(2) { r.pick(&[u64::MAX, u64::MAX - 1, 0]) } else { r.pick(ids) };
    match r.weighted(&[4, 46, 18, 8, 8, 2, 2, 1]) {
        0 => {
            p.push(c, "gnew", vec![r.chance(und_bias) as u64]);
        }
        1 => {
            let a = id(r);
            let b = if r.chance(12) { a } else { id(r) };
            p.push(c, "gadd", vec![r.below(4), a, b]);
        }
        2 => {
            let (a, b) = (id(r), id(r));
            p.push(c, "gdel", vec![r.below(4), a, b]);
        }
        3 => {
            let n = r.below(6);
            let mut v = vec![r.below(4), id(r), r.below(3)];
            for _ in 0..n {
                v.push(id(r));
            }
            if r.chance(6) {
                v.truncate(2);
                v.extend(list_args(r));
                p.push(c, "glist", v);
            } else {
                p.push(c, "gvert", v);
            }
        }
        4 => {
            let b = *big && r.chance(25);
            if b {
                *big = false;
            }
            let mut v = vec![r.below(4)];
            v.extend(bulk_args(r, b));
            p.push(c, "gbulk", v);
        }
        5 => {
            let mut v = vec![r.below(4)];
            v.extend(bulk_args(r, false));
            p.push(c, "gunbulk", v);
        }
        6 => {
            p.push(c, "drop", vec![r.below(8)]);
        }
        _ => {
            p.push(c, "exit", vec![]);
        }
    }
}

fn start_plan(prop: &str, r: &mut Rng, seed: u64, idx: u64) -> (Plan, Vec<u64>, u64) {
    let mut p = Plan::new(prop, seed, idx);
    p.set("entropy", r.next() >> 1);
    let callers = r.weighted(&[30, 35, 20, 15]) as u64 + 1;
    p.set("callers", callers);
    let ids = if r.chance(45) { small_pool(r) } else { id_pool(r) };
    (p, ids, callers)
}

fn nsteps(r: &mut Rng) -> u64 {
    match r.weighted(&[25, 50, 20, 5]) {
        0 => r.range(3, 10),
        1 => r.range(10, 40),
        2 => r.range(40, 120),
        _ => r.range(120, 400),
    }
}

/// A graph that is about to become a copy of another, with a past of its own.
fn used_graph(k: u64) -> Graph {
    sut(|| {
        let mut g = if k % 2 == 0 { Graph::new_directed() } else { Graph::new_undirected() };
        for i in 0..k / 2 % 40 {
            g.add_edge(i * i % 13, i % 9);
        }
        if k % 3 == 0 {
            g.delete_edge(1, 1);
            g.delete_edge(4, 2);
        }
        g
    })
}

/// How many columns the wide texts have: every number up to 520 comes up.
fn wide_span(idx: u64) -> u64 {
    let k = idx / 64;
    if k % 8 == 7 { 521 + k % 130 } else { 100 + (k * 37) % 421 }
}

/// Runs whose objects see far more edits than they hold entries.
fn long_life(prop: &str, idx: u64) -> bool {
    match prop {
        "C01" | "C02" => idx % 100 == 23,
        "C09" | "C10" => idx % 400 == 123,
        _ => false,
    }
}

pub fn gen(prop: &str, r: &mut Rng, seed: u64, idx: u64) -> Plan {
    let (mut p, mut ids, callers) = start_plan(prop, r, seed, idx);
    let n = nsteps(r);
    let mut big = r.chance(6);
    if prop == "C19" && idx % 64 == 29 {
        ids = (0..16).map(|_| r.below(wide_span(idx))).collect();
    }
    let und = r.pick(&[0, 50, 50, 100]);
    let id = |r: &mut Rng| if r.chance(2) { r.pick(&[u64::MAX, u64::MAX - 1]) } else { r.pick(&ids) };
    if prop == "C19" {
        p.push(0, "nnew", vec![r.below(12)]);
    }
    if !matches!(prop, "C02" | "C18") {
        p.push(0, "gnew", vec![r.chance(und) as u64]);
        if r.chance(60) {
            p.push(0, "gnew", vec![r.chance(und) as u64]);
        }
        if prop == "C15" {
            // Shared objects are set up first, by the first caller.
            for _ in 0..r.range(1, 14) {
                let mut b = false;
                base_step(r, &mut p, &ids, 1, und, &mut b);
            }
            if r.chance(50) {
                let mut v = vec![r.below(4)];
                v.extend(bulk_args(r, false));
                p.push(0, "gbulk", v);
            }
            p.push(0, "zmake", vec![r.below(4), r.below(20)]);
            p.push(0, "pmake", vec![r.below(4), r.range(1, 9)]);
            p.push(0, "shared", vec![]);
        }
    }
    if prop == "C12" && idx % 96 == 40 {
        // work against the number of records instead of magnitudes
        let k = idx / 96;
        // (random edges: as many vertices and blocks as there can be)
        let shape = if r.chance(40) { 4 } else { r.below(7) };
        p.push(0, "scale", vec![shape, r.range(50_000, 90_000), r.next() >> 1, k % 6]);
        p.push(0, "scale", vec![k % 7, r.range(20_000, 60_000), r.next() >> 1, r.below(6)]);
        return p;
    }
    if prop == "C12" && idx % 128 == 8 {
        let k = idx / 128;
        // Pooling and compression take more instructions per record.
        let n = if matches!(k % 6, 1 | 2) { 400 } else { 800 };
        p.push(0, "growth", vec![r.below(7), r.range(n, n + n / 5), r.next() >> 1, k % 6, k / 6]);
        return p;
    }
    if long_life(prop, idx) {
        // Something older than the churn, so that the churn has something to spoil.
        if prop == "C02" {
            p.push(0, "anew", vec![]);
            p.push(0, "nnew", vec![r.below(12)]);
        }
        for _ in 0..6 {
            let v = r.below(40);
            match prop {
                "C02" => {
                    p.push(0, "aset", vec![0, 1, v, r.below(40)]);
                    p.push(0, "nset", vec![0, r.below(128), v, r.below(40)]);
                }
                _ => {
                    p.push(0, "gadd", vec![0, v, r.below(40)]);
                }
            }
        }
        let mut few = r.pick(&[1, 1, 2, 7, 100, 1000]);
        let edits = r.pick(&[2_000, 20_000, 70_000, 140_000]);
        let mut times = edits / few + r.below(2);
        let (mut kind, s) = (r.below(9), r.below(1 << 16));
        if r.chance(40) {
            // tens of thousands of columns, all emptied again
            (few, times, kind) = (r.range(20_000, 70_000), r.pick(&[2, 2, 4]), r.pick(&[2, 4, 5, 7]));
        }
        if prop == "C02" {
            p.push(0, "nnew", vec![r.below(12)]);
            for o in 0..2 {
                p.push(0, "nmany", vec![o, r.below(40), r.below(40), r.pick(&[300, 70_000, 140_000])]);
                p.push(0, "nchurn", vec![o, kind, few, s, times]);
            }
            p.push(0, "achurn", vec![0, kind, few, s, times]);
            p.push(0, "afull", vec![0]);
        } else {
            p.push(0, "gchurn", vec![0, kind, few, r.below(40), s, times]);
        }
        if prop == "C01" {
            p.push(0, "gfull", vec![0]);
        }
    }
    for i in 0..n {
        let c = r.below(callers);
        let o = r.below(6);
        match prop {
            "C01" => match r.weighted(&[70, 18, 12]) {
                0 => base_step(r, &mut p, &ids, callers, und, &mut big),
                1 => {
                    let (a, b) = (id(r), id(r));
                    p.push(c, "gq", vec![o, a, b]);
                }
                _ => {
                    p.push(c, "gfull", vec![o]);
                }
            },
            "C02" => {
                let (x, y) = (id(r), id(r));
                match r.weighted(&[50, 240, 80, 50, 40, 50, 300, 140, 160, 80, 20, 2, 5]) {
                    0 => p.push(c, "anew", vec![]),
                    1 => p.push(c, "aset", vec![o, r.below(4), x, y]),
                    2 => p.push(c, "azero", vec![o, x, y]),
                    3 => p.push(c, "afull", vec![o]),
                    4 => p.push(c, "afrom", vec![o, r.below(3), r.next() >> 1]),
                    5 => p.push(c, "nnew", vec![r.below(12)]),
                    6 => p.push(c, "nset", vec![o, r.below(128), x, y]),
                    7 => p.push(c, "nzero", vec![o, x, y]),
                    8 => p.push(c, "ninc", vec![o, x, y]),
                    9 => p.push(c, "nfull", vec![o]),
                    11 => {
                        let (kind, n, s) = (r.pick(&[0, 0, 1, 3, 3, 4, 5, 6]), r.pick(&[300, 600, 1100, 1500, 2100, 3000, 5000, 9000]), r.below(1 << 16));
                        p.push(c, "abig", vec![o, kind, n, s, r.below(3), r.next() >> 8])
                    }
                    12 => {
                        let (kind, n, s) = (r.below(7), r.log(1500), r.below(1 << 16));
                        p.push(c, "nbulk", vec![o, kind, n, s])
                    }
                    _ => {
                        let und = r.below(2);
                        let s = r.below(1 << 16);
                        let n = r.log(200);
                        p.push(c, "abulk", vec![o, r.below(9), n, s, und])
                    }
                };
            }
            "C03" => match r.weighted(&[48, 34, 6, 3, 9]) {
                0 => base_step(r, &mut p, &ids, callers, und, &mut big),
                3 => {
                    let (n, s) = (r.below(30), r.below(1 << 16));
                    p.push(c, "imat", vec![o, n, s]);
                }
                4 => {
                    let (how, x, y, v) = (r.below(8), r.below(12), r.below(12), r.below(8));
                    p.push(c, "iset", vec![o, how, x, y, v]);
                }
                1 => {
                    let how = r.below(9);
                    p.push(c, "derive", vec![o, how, r.below(12), r.below(70)]);
                }
                _ => {
                    p.push(c, "iall", vec![]);
                }
            },
            "C09" => {
                if r.chance(65) {
                    base_step(r, &mut p, &ids, callers, und, &mut big)
                } else {
                    let b = match r.weighted(&[50, 20, 15, 15]) {
                        0 => r.range(0, 12),
                        1 => r.range(2, 70),
                        2 => r.log(u64::MAX),
                        _ => r.pick(&ids).saturating_add(r.below(4)).saturating_sub(1),
                    };
                    // The threshold is either a plain number, or "the average of n edges" with an
                    // offset in units in the last place.
                    let (mode, t) = match r.weighted(&[20, 12, 10, 10, 15, 33]) {
                        5 => (4 + r.weighted(&[50, 25, 25]) as u64, r.below(1 << 20)),
                        0 => (1, r.range(1, (b.min(300) * b.min(300)).max(1))),
                        1 => (2, r.range(1, (b.min(300) * b.min(300)).max(1))),
                        2 => (3, r.range(1, (b.min(300) * b.min(300)).max(1))),
                        3 => (0, f(r.pick(&[0.0, -0.0, 1.0, 1.5, -3.0, 1e-18, 1e-19, 5e-324, f64::INFINITY, f64::NEG_INFINITY, 1e-17]))),
                        _ => (0, f(r.below(1000) as f64 / 999.0)),
                    };
                    p.push(c, if r.chance(35) { "pool" } else { "approx" }, vec![o, b, mode, t]);
                }
            }
            "C10" => {
                if r.chance(60) {
                    base_step(r, &mut p, &ids, callers, und, &mut big)
                } else {
                    let lv = match r.below(6) {
                        0 => 1,
                        1 => r.below(256),
                        2 => r.pick(&[0, 1, 2, 31, 32, 33, 63, 64, 65, 128, 255]),
                        3 => 1000 + r.below(64), // a boundary: the popcount of some block, give or take one
                        _ => r.range(1, 64),
                    };
                    p.push(c, "compress", vec![o, lv, r.below(3)]);
                }
            }
            "C15" => {
                let o = r.below(40);
                match r.weighted(&[60, 27, 9, 4]) {
                    0 => {
                        let kind = r.below(12);
                        let (x, y) = (id(r), id(r));
                        p.push(c, "read", vec![o, kind, x, y, r.range(0, 10), r.below(70)]);
                    }
                    1 => {
                        // mutations of this caller's own graph
                        match r.below(4) {
                            0 => p.push(c, "own", vec![0, r.below(2), 0]),
                            1 => p.push(c, "own", vec![2, id(r), id(r)]),
                            _ => p.push(c, "own", vec![1, id(r), id(r)]),
                        };
                    }
                    2 => {
                        p.push(c, "own", vec![r.pick(&[3, 5, 6]), r.range(1, 6), r.below(70)]);
                    }
                    _ => {
                        p.push(c, "own", vec![4, 0, 0]);
                    }
                };
                let k = p.steps.len() - 1;
                if r.chance(40) {
                    p.steps[k].pre = preempts(r, 900);
                }
            }
            "C18" => {
                match r.weighted(&[10, 62, 14, 8, 6]) {
                    0 => p.push(c, "bnew", vec![r.chance(40) as u64, r.pick(&ids), r.below(130), r.below(1 << 30)]),
                    1 => p.push(c, "badd", vec![o, r.next(), r.next(), r.next(), r.below(4)]),
                    2 => p.push(c, "bfin", vec![o]),
                    3 => {
                        let mut v = vec![r.chance(und) as u64];
                        v.extend(bulk_args(r, false));
                        v.push(r.below(1 << 20));
                        p.push(c, "bgraph", v)
                    }
                    _ => p.push(c, "btwin", vec![o, r.below(1 << 20)]),
                };
            }
            "C19" => {
                let digits = match r.weighted(&[25, 50, 15, 5, 3, 2]) {
                    0 => 0,
                    1 => r.range(1, 6),
                    2 => r.range(7, 40),
                    3 => r.range(41, 1200),
                    4 => r.range(60_000, 70_000),
                    _ => r.pick(&[u64::MAX, u64::MAX - 1, 1 << 63, (1 << 62) + 5]),
                };
                // A few runs render matrices of hundreds of columns.
                let wide = idx % 64 == 29;
                let span = if wide { wide_span(idx) } else { 4 + idx % 9 };
                let digits = if wide { digits.min(4) } else { digits };
                let at = |r: &mut Rng| if wide && r.chance(20) { span - 1 - r.below(20) } else if !wide && r.chance(3) { r.pick(&ids) } else { r.below(span) };
                if wide && (i < 2 || r.chance(10)) {
                    // Entries all over a square of about the span
                    let (n, s) = ((span / 4) * (span / 4) + r.below(9), r.below(1 << 16) * 4 + 3);
                    if r.chance(50) {
                        p.push(c, "anew", vec![]);
                        p.push(c, "abulk", vec![o, 0, n, s, r.below(2)]);
                        p.push(c, "atext", vec![o, 0, 0, r.below(4)]);
                    } else {
                        p.push(c, "gbulk", vec![o, 0, n, 0, s]);
                        p.push(c, "gtext", vec![o, r.below(2) * 2, 0, r.below(4), r.below(70)]);
                    }
                }
                match r.weighted(&[7, 34, 6, 8, 5, 6, 22, 14, 8, 1, 5, 3, 4]) {
                    9 => p.push(c, "anew", vec![]),
                    10 => p.push(c, "aset", vec![o, r.below(4), at(r), at(r)]),
                    11 => p.push(c, "azero", vec![o, at(r), at(r)]),
                    12 => p.push(c, "atext", vec![o, 0, 0, r.below(4)]),
                    0 => p.push(c, "nnew", vec![r.below(12)]),
                    1 => p.push(c, "nwide", vec![o, r.below(1 << 16), at(r), at(r)]),
                    2 => p.push(c, "nset", vec![o, r.below(128), at(r), at(r)]),
                    3 => p.push(c, "nzero", vec![o, at(r), at(r)]),
                    4 => p.push(c, "ninc", vec![o, at(r), at(r)]),
                    5 => p.push(c, "nclear", vec![o, r.below(256), at(r)]),
                    6 => p.push(c, "ntext", vec![o, r.next() >> 8, digits, r.below(4)]),
                    7 => {
                        base_step(r, &mut p, &ids, callers, und, &mut big);
                        p.steps.last_mut().unwrap()
                    }
                    _ => p.push(c, "gtext", vec![o, r.below(3), digits, r.below(4), r.below(70)]),
                };
            }
            "C12" => {
                if r.chance(60) {
                    base_step(r, &mut p, &ids, callers, und, &mut big)
                } else {
                    let kind = r.below(11);
                    let v = match r.below(3) {
                        0 => r.log(u64::MAX),
                        1 => u64::MAX - r.log(1 << 33),
                        _ => (1u64 << r.range(20, 63)) + r.below(3) - 1,
                    };
                    p.push(c, "cost", vec![o, kind, v, r.next(), r.pick(&ids)]);
                }
            }
            "C11" => {
                if r.chance(55) {
                    base_step(r, &mut p, &ids, callers, und, &mut big)
                } else {
                    p.push(c, "oom", vec![o, r.below(5), r.below(4), r.below(4), r.below(70)]);
                }
            }
            _ => unreachable!(),
        };
    }
    if prop == "C01" {
        for i in 0..4 {
            p.push(0, "gfull", vec![i]);
        }
    }
    if prop == "C02" {
        for i in 0..3 {
            p.push(0, "nfull", vec![i]);
            p.push(0, "afull", vec![i]);
        }
    }
    if prop == "C18" {
        for i in 0..3 {
            p.push(0, "bfin", vec![i]);
        }
    }
    if prop == "C03" {
        p.push(0, "iall", vec![]);
    }
    if prop != "C15" && prop != "C11" && prop != "C12" {
        sprinkle(r, &mut p, 40, 6);
    }
    p
}

// ---------------------------------------------------------------- execution

pub fn exec(plan: &Plan, run: &mut Run) -> R<()> {
    match plan.prop.as_str() {
        "C15" => return exec_c15(plan, run),
        "C18" => return crate::world_builder::exec(plan, run),
        _ => {}
    }
    let mut w = World::new(run);
    w.meter = plan.get("meter") == 1;
    let mut effort = 0;
    for st in &plan.steps {
        // Large graphs get fewer steps, so that every run ends in bounded time.
        effort += w.edges();
        if effort > 3_000_000 {
            break;
        }
        w.run.tick()?;
        if plan.prop == "C03" {
            w.c03(st)?;
            continue;
        }
        if w.base(st)? {
            continue;
        }
        match plan.prop.as_str() {
            "C01" => w.c01(st)?,
            "C02" => w.c02(st)?,
            "C09" => w.c09(st)?,
            "C10" => w.c10(st)?,
            "C11" => w.c11(st)?,
            "C12" => w.c12(st)?,
            "C19" => w.c19(st)?,
            _ => return bad("harness", format!("unknown property {}", plan.prop)),
        }
    }
    w.run.drain()?;
    if matches!(plan.prop.as_str(), "C01" | "C03" | "C09" | "C10" | "C15") {
        w.audit(plan.prop == "C03")?;
    }
    w.finish()
}

/// The same question to every object in turn, then the next question: an answer remembered for one
/// object must not be given for another.
fn audit(all: &[(Arc<Cell>, Arc<Mod>)]) -> R<u64> {
    let mut ids: Vec<u64> = vec![0, 1];
    for (_, m) in all {
        match &**m {
            Mod::G(g) => ids.extend(g.edges.iter().step_by(g.edges.len() / 3 + 1).flat_map(|e| [e.0, e.1])),
            Mod::Z(z) => ids.extend(z.blocks.keys().step_by(z.blocks.len() / 2 + 1).flat_map(|k| [k.0 * 8, k.1 * 8 + 1])),
            _ => {}
        }
    }
    ids.sort_unstable();
    ids.dedup();
    let step = ids.len() / 8 + 1;
    let ids: Vec<u64> = ids.into_iter().step_by(step).collect();
    let n = ids.len();
    let gs: Vec<(&Graph, &MGraph)> = all
        .iter()
        .filter_map(|(c, m)| match (&*c.at(), &**m) {
            (Obj::G(g), Mod::G(m)) => Some((g, m)),
            _ => None,
        })
        .collect();
    let zs: Vec<(&CompressedGraph, &MComp)> = all
        .iter()
        .filter_map(|(c, m)| match (&*c.at(), &**m) {
            (Obj::Z(z), Mod::Z(m)) => Some((z, m)),
            _ => None,
        })
        .collect();
    macro_rules! each {
        ($name:expr, $l:expr, |$o:ident, $m:ident| $real:expr, $want:expr) => {
            for ($o, $m) in &$l {
                let (r, w) = (sut(|| $real), $want);
                ensure!(r == w, &format!("audit:{}", $name), "asked of one object after another, {} gives {r:?} instead of {w:?}", $name);
            }
        };
    }
    each!("vertex_count", gs, |g, m| g.vertex_count(), m.vc);
    each!("edge_count", gs, |g, m| g.edge_count(), m.edges.len() as u64);
    each!("is_undirected", gs, |g, m| g.is_undirected(), m.und);
    each!("edge_count", zs, |z, m| z.edge_count(), m.edge_count());
    each!("vertex_count", zs, |z, m| z.vertex_count(), m.vc);
    for (i, v) in ids.iter().copied().enumerate() {
        let u = ids[(i * 3 + 1) % n];
        each!("does_edge_exist", gs, |g, m| g.does_edge_exist(v, u), m.edges.contains(&(v, u)));
        each!("get_vertex_out_degree", gs, |g, m| g.get_vertex_out_degree(v), m.out(v).len() as u64);
        each!("get_vertex_in_degree", gs, |g, m| g.get_vertex_in_degree(v), m.ins(v).len() as u64);
        each!("get_vertex_out_edges", gs, |g, m| sorted(g.get_vertex_out_edges(v)), m.out(v));
        each!("get_vertex_in_edges", gs, |g, m| sorted(g.get_vertex_in_edges(v)), m.ins(v));
        each!("does_edge_exist", zs, |z, m| z.does_edge_exist(v, u), m.has(v, u));
        each!("get_compressed_matrix_entry", zs, |z, m| z.get_compressed_matrix_entry(v / 8, u / 8), m.blocks.get(&(v / 8, u / 8)).copied().unwrap_or(0));
    }
    let small: Vec<_> = gs.iter().filter(|(_, m)| m.edges.len() <= 200).collect();
    for b in [2, 3] {
        for (g, m) in &small {
            check_pool(g, m, b)?;
        }
    }
    for (g, m) in &small {
        check_approx(g, m, 2, 0.3)?;
    }
    for lv in [1, 3] {
        for (g, m) in &small {
            let z = sut(|| g.compress(lv));
            same_comp("audit:compress", &z, &m.compressed(lv), false)?;
            sut(|| drop(z));
        }
    }
    for (g, m) in &small {
        same_graph("audit", g, m)?;
    }
    for (z, m) in zs.iter().filter(|(_, m)| m.blocks.len() <= 100) {
        same_comp("audit", z, m, true)?;
    }
    for (g, m) in gs.iter().filter(|(_, m)| m.vc <= 12) {
        let s = sut(|| g.matrix_string()).map_err(|e| Viol::new("audit:matrix_string", format!("{e}")))?;
        matrix_text("audit", &s, m)?;
    }
    Ok(gs.len() as u64)
}

impl World<'_> {
    /// Compares every live object of a known value with it, all in one caller.
    fn audit(&mut self, seen: bool) -> R<()> {
        let mut all = vec![];
        let mut touch = vec![];
        for (i, s) in self.slots.iter().enumerate() {
            let Some(s) = s else { continue };
            let m = match &*s.obs.lock().unwrap() {
                Some(Obs::G(m, ..)) if seen => Arc::new(Mod::G(m.clone())),
                _ if seen => continue,
                _ => s.model.clone(),
            };
            let size = match &*m {
                Mod::G(g) => g.edges.len(),
                Mod::Z(z) => z.blocks.len(),
                _ => continue,
            };
            if size <= 3000 && all.len() < 14 {
                all.push((s.cell.clone(), m));
                touch.push((i, false));
            }
        }
        if all.len() < 2 {
            return Ok(());
        }
        self.run.ctr(Ctr::comparisons, 1);
        let c = all.len() % self.run.clients.len();
        self.run.submit(c, &touch, &[], Box::new(move || audit(&all)))?;
        self.run.drain()
    }

    /// Every remaining object is dropped under the allocator's eyes.
    fn finish(&mut self) -> R<()> {
        for s in self.slots.iter().flatten() {
            let c = s.cell.clone();
            self.run.submit(
                0,
                &[],
                &[],
                Box::new(move || {
                    let x = std::mem::replace(c.at(), Obj::Empty);
                    sut(|| drop(x));
                    Ok(0)
                }),
            )?;
        }
        alloc::check_quarantine();
        if let Some(e) = alloc::take_error() {
            return bad("memory", e);
        }
        Ok(())
    }

    fn c01(&mut self, st: &Step) -> R<()> {
        let Some(o) = self.pick(Kind::G, st.a(0)) else { return Ok(()) };
        let (c, m) = (self.cell(o), self.model(o));
        self.run.ctr(Ctr::comparisons, 1);
        match st.op.as_str() {
            "gq" => {
                let (a, b) = (st.a(1), st.a(2));
                self.go(st, &[(o, false)], Box::new(move || {
                    point_queries(c.g(), mg(&m), a, b)?;
                    let (vc, ec) = sut(|| (c.g().vertex_count(), c.g().edge_count()));
                    ensure!(vc == mg(&m).vc, "query:vertex_count", "vertex count {vc} instead of {}", mg(&m).vc);
                    ensure!(ec == mg(&m).edges.len() as u64, "query:edge_count", "edge count {ec} instead of {}", mg(&m).edges.len());
                    Ok(mix(vc, ec))
                }))
            }
            "gfull" => {
                let probes = self.probes.clone();
                self.go(st, &[(o, false)], Box::new(move || {
                    full_check(c.g(), mg(&m), &probes)?;
                    let l = edge_list(c.g());
                    Ok(l.iter().take(50).fold(1, |h, e| mix(h, mix(e.0, e.1))))
                }))
            }
            _ => Ok(()),
        }
    }

    fn c02(&mut self, st: &Step) -> R<()> {
        let op = st.op.as_str();
        match op {
            "anew" => {
                let (o, c) = self.add(Kind::A, Mod::A(MGraph::new(false)));
                self.go(st, &[(o, true)], Box::new(move || {
                    *c.at() = Obj::A(sut(CsrAdjacencyMatrix::new));
                    Ok(0)
                }))
            }
            "nnew" => {
                let (o, c) = self.add(Kind::N, Mod::None);
                let k = st.a(0);
                self.go(st, &[(o, true)], Box::new(move || {
                    *c.at() = Obj::N(num::make(k));
                    Ok(0)
                }))
            }
            "aset" | "azero" => {
                let Some(o) = self.pick(Kind::A, st.a(0)) else { return Ok(()) };
                let c = self.cell(o);
                let (set, v, x, y) = if op == "aset" { (true, (st.a(1) != 0) as u8 * (st.a(1) as u8 % 4).max(1), st.a(2), st.a(3)) } else { (false, 0, st.a(1), st.a(2)) };
                let m = self.gm(o);
                if set {
                    if v != 0 {
                        m.add_edge(x, y);
                    } else if x != u64::MAX && y != u64::MAX {
                        m.vc = m.vc.max(x.max(y) + 1);
                        m.del_edge(x, y);
                    }
                } else {
                    m.del_edge(x, y);
                }
                self.probe(&[x, y]);
                let m = self.model(o);
                self.go(st, &[(o, true)], Box::new(move || {
                    let a = c.a();
                    sut(|| if set { a.set_entry(v, x, y) } else { a.zero_entry(x, y) });
                    let (e, d, n) = sut(|| (a.get_entry(x, y), a.dimension(), a.entry_count()));
                    let m = mg(&m);
                    ensure!(e == m.edges.contains(&(x, y)) as u8, "matrix:get_entry", "adjacency matrix: entry ({x}, {y}) is {e} after {}", if set { format!("set_entry({v})") } else { "zero_entry".into() });
                    ensure!(d == m.vc, "matrix:dimension", "adjacency matrix: dimension {d} instead of {}", m.vc);
                    ensure!(n == m.edges.len() as u64, "matrix:entry_count", "adjacency matrix: entry count {n} with {} entries", m.edges.len());
                    Ok(n)
                }))?;
                self.mark(st, o);
                Ok(())
            }
            "abig" => {
                // A large matrix: symmetric, then not, then again.
                let mut l = pattern(st.a(1), st.a(2), 0, st.a(3));
                l.truncate(20_000);
                let back: Vec<_> = l.iter().map(|(a, b)| (*b, *a)).collect();
                l.extend(back);
                let (how, x) = (st.a(4), st.a(5));
                self.run.ctr(Ctr::derivations, 3);
                self.run.ctr(Ctr::big_graphs, 1);
                return self.go(st, &[], Box::new(move || {
                    let mut m = MGraph::new(false);
                    let mut a = sut(CsrAdjacencyMatrix::new);
                    for (c, r) in &l {
                        m.add_edge(*c, *r);
                    }
                    sut(|| l.iter().for_each(|(c, r)| a.set_entry(1, *c, *r)));
                    let off: Vec<(u64, u64)> = m.edges.iter().copied().filter(|e| e.0 != e.1).collect();
                    for round in 0..3u64 {
                        if round == 1 {
                            let e = match (how % 3, off.is_empty()) {
                                (0 | 1, false) => off[(x % off.len() as u64) as usize],
                                _ => (m.vc + 1, x % (m.vc + 1)),
                            };
                            if m.edges.contains(&e) {
                                sut(|| if how % 3 == 0 { a.set_entry(0, e.0, e.1) } else { a.zero_entry(e.0, e.1) });
                                m.del_edge(e.0, e.1);
                            } else {
                                sut(|| a.set_entry(1, e.0, e.1));
                                m.add_edge(e.0, e.1);
                            }
                        } else if round == 2 {
                            let missing: Vec<(u64, u64)> = m.edges.iter().map(|e| (e.1, e.0)).filter(|e| !m.edges.contains(e)).collect();
                            for e in missing {
                                sut(|| a.set_entry(1, e.0, e.1));
                                m.add_edge(e.0, e.1);
                            }
                        }
                        let (sym, copy) = (m.symmetric(), sut(|| a.clone()));
                        let g = sut(|| Graph::undirected_from(copy));
                        ensure!(g.is_ok() == sym, "from:large", "undirected_from of a matrix of {} entries (symmetric: {sym}) gives Ok: {}", m.edges.len(), g.is_ok());
                        if let Ok(g) = g {
                            m.und = true;
                            same_graph("from:large", &g, &m)?;
                            m.und = false;
                            sut(|| drop(g));
                        }
                    }
                    sut(|| drop(a));
                    Ok(m.hash())
                }));
            }
            "nmany" => {
                // One entry, counted up for a long time.
                let Some(o) = self.pick(Kind::N, st.a(0)) else { return Ok(()) };
                let (c, x, y, n) = (self.cell(o), st.a(1), st.a(2), st.a(3).min(200_000));
                self.run.ctr(Ctr::bulk_edges, n);
                return self.go(st, &[(o, true)], Box::new(move || {
                    for _ in 0..n {
                        c.n().inc(x, y)?;
                    }
                    c.n().full()?;
                    Ok(c.n().hash())
                }));
            }
            "nchurn" => {
                // Entries made and zeroed again and again.
                let Some(o) = self.pick(Kind::N, st.a(0)) else { return Ok(()) };
                let l = pattern(st.a(1), st.a(2).max(1), 0, st.a(3));
                let (c, s, times) = (self.cell(o), st.a(3), st.a(4).min(200_000 / l.len().max(1) as u64));
                self.run.ctr(Ctr::bulk_edges, times * l.len() as u64);
                return self.go(st, &[(o, true)], Box::new(move || {
                    for t in 0..times {
                        for (i, (x, y)) in l.iter().enumerate() {
                            match (t % 2, (t / 2) % 2) {
                                (0, 0) => c.n().set(mix(s, i as u64) >> 8, *x, *y)?,
                                (0, _) => c.n().inc(*x, *y)?,
                                (_, 0) => c.n().zero(*x, *y)?,
                                _ => c.n().set(0, *x, *y)?,
                            }
                        }
                    }
                    c.n().full()?;
                    Ok(c.n().hash())
                }));
            }
            "achurn" => {
                let Some(o) = self.pick(Kind::A, st.a(0)) else { return Ok(()) };
                let c = self.cell(o);
                let l = pattern(st.a(1), st.a(2).max(1), 0, st.a(3));
                let times = st.a(4).min(300_000 / l.len().max(1) as u64);
                let m = self.gm(o);
                let mut counts = vec![];
                for t in 0..times {
                    for (x, y) in &l {
                        if t % 2 == 0 {
                            m.add_edge(*x, *y);
                        } else {
                            m.del_edge(*x, *y);
                        }
                    }
                    counts.push((m.vc, m.edges.len() as u64));
                }
                self.run.ctr(Ctr::bulk_edges, times * l.len() as u64);
                self.go(st, &[(o, true)], Box::new(move || {
                    let a = c.a();
                    for (t, (dim, n)) in counts.iter().enumerate() {
                        sut(|| {
                            for (x, y) in &l {
                                match t % 4 {
                                    0 | 2 => a.set_entry(1, *x, *y),
                                    1 => a.zero_entry(*x, *y),
                                    _ => a.set_entry(0, *x, *y),
                                }
                            }
                        });
                        let (d, e) = sut(|| (a.dimension(), a.entry_count()));
                        ensure!(d == *dim && e == *n, "churn:counts", "adjacency matrix: after {} rounds of setting and zeroing {} entries it has dimension {d} and {e} entries instead of {dim} and {n}", t + 1, l.len());
                    }
                    Ok(0)
                }))?;
                self.mark(st, o);
                Ok(())
            }
            "nbulk" => {
                let Some(o) = self.pick(Kind::N, st.a(0)) else { return Ok(()) };
                let l = pattern(st.a(1), st.a(2), 0, st.a(3));
                let (c, s) = (self.cell(o), st.a(3));
                return self.go(st, &[(o, true)], Box::new(move || {
                    for (i, (x, y)) in l.iter().enumerate() {
                        let k = mix(s, i as u64);
                        match k % 8 {
                            0..=4 => c.n().set(k >> 8, *x, *y)?,
                            5 | 6 => c.n().inc(*x, *y)?,
                            _ => c.n().zero(*x, *y)?,
                        }
                    }
                    c.n().full()?;
                    Ok(c.n().hash())
                }));
            }
            "abulk" => {
                let Some(o) = self.pick(Kind::A, st.a(0)) else { return Ok(()) };
                let c = self.cell(o);
                let mut l = pattern(st.a(1), st.a(2), 0, st.a(3));
                if st.a(4) % 2 == 1 {
                    let back: Vec<_> = l.iter().map(|(a, b)| (*b, *a)).collect();
                    l.extend(back);
                }
                let m = self.gm(o);
                for (a, b) in &l {
                    m.add_edge(*a, *b);
                }
                self.go(st, &[(o, true)], Box::new(move || {
                    let a = c.a();
                    sut(|| l.iter().for_each(|(x, y)| a.set_entry(1, *x, *y)));
                    Ok(0)
                }))
            }
            "afull" => {
                let Some(o) = self.pick(Kind::A, st.a(0)) else { return Ok(()) };
                let (c, m) = (self.cell(o), self.model(o));
                let probes = self.probes.clone();
                self.run.ctr(Ctr::comparisons, 1);
                self.go(st, &[(o, false)], Box::new(move || {
                    let (a, m) = (c.a(), mg(&m));
                    let l: Vec<(u64, u64)> = sut(|| (&*a).into_iter().collect());
                    let s: BTreeSet<_> = l.iter().copied().collect();
                    ensure!(s.len() == l.len() && s == m.edges, "matrix:iteration", "adjacency matrix iterates: {}", diff(&s, &m.edges));
                    iterator_claims(|| (&*a).into_iter(), l.len())?;
                    for v in probes {
                        let (cv, rv, cn, rn) = sut(|| (a.get_sparse_col_vector(v), a.get_sparse_row_vector(v), a.col_nonzero_entry_count(v), a.row_nonzero_entry_count(v)));
                        let rows: Vec<u64> = m.edges.iter().filter(|e| e.1 == v).map(|e| e.0).collect();
                        ensure!(sorted(cv) == m.out(v) && cn == m.out(v).len() as u64, "matrix:column", "column {v} disagrees with its entries");
                        ensure!(sorted(rv) == rows && rn == rows.len() as u64, "matrix:row", "row {v} disagrees with its entries");
                    }
                    if m.vc <= 40 {
                        match sut(|| a.try_to_string()) {
                            Ok(s) => matrix_text("matrix", &s, m)?,
                            Err(e) => return bad("matrix:text", format!("try_to_string failed: {e}")),
                        }
                    }
                    Ok(l.len() as u64)
                }))
            }
            "afrom" => {
                let Some(o) = self.pick(Kind::A, st.a(0)) else { return Ok(()) };
                let (c, m) = (self.cell(o), self.model(o));
                let (how, rand) = (st.a(1) % 3, st.a(2));
                let probes = self.probes.clone();
                self.run.ctr(Ctr::derivations, 1);
                self.go(st, &[(o, false)], Box::new(move || {
                    let mut m = mg(&m).clone();
                    let a = sut(|| c.a().clone());
                    let sym = m.symmetric();
                    m.und = how != 0;
                    let g = match how {
                        0 => sut(|| Graph::directed_from(a)),
                        1 => match sut(|| Graph::undirected_from(a)) {
                            Ok(g) => {
                                ensure!(sym, "from:accepted", "undirected_from accepted an asymmetric matrix");
                                g
                            }
                            Err(_) => {
                                ensure!(!sym, "from:refused", "undirected_from refused a symmetric matrix");
                                return Ok(0);
                            }
                        },
                        _ => {
                            if !sym {
                                return Ok(0);
                            }
                            sut(|| unsafe { Graph::undirected_from_unchecked(a) })
                        }
                    };
                    same_graph("from", &g, &m)?;
                    // The graph goes on living: edits, then every query.
                    let mut g = g;
                    let near: Vec<u64> = m.edges.iter().take(12).flat_map(|e| [e.0, e.1]).chain(probes.iter().copied()).collect();
                    for i in 0..rand % 9 {
                        let x = mix(rand, i);
                        let (a, b) = (near[(x % near.len() as u64) as usize], near[((x >> 20) % near.len() as u64) as usize]);
                        match (x >> 40) % 5 {
                            0 | 1 => {
                                sut(|| g.delete_edge(a, b));
                                m.del_edge(a, b);
                            }
                            2 | 3 => {
                                sut(|| g.add_edge(a, b));
                                m.add_edge(a, b);
                            }
                            _ => {
                                sut(|| g.add_vertex(a, Some(&[b])));
                                m.add_vertex(a, &[b]);
                            }
                        }
                    }
                    full_check(&g, &m, &probes)?;
                    Ok(1)
                }))
            }
            "nset" | "nzero" | "ninc" => {
                let Some(o) = self.pick(Kind::N, st.a(0)) else { return Ok(()) };
                let c = self.cell(o);
                let op = op.to_string();
                let a = st.args.clone();
                self.go(st, &[(o, true)], Box::new(move || {
                    let n = c.n();
                    let g = |i: usize| a.get(i).copied().unwrap_or(0);
                    match op.as_str() {
                        "nset" => n.set(g(1), g(2), g(3))?,
                        "nzero" => n.zero(g(1), g(2))?,
                        _ => n.inc(g(1), g(2))?,
                    }
                    Ok(n.hash())
                }))?;
                // (the model lives beside the matrix)
                let oph = mix(st.a(1), mix(st.a(2), st.a(3)));
                self.run.fp(mix(oph, o as u64));
                Ok(())
            }
            "nfull" => {
                let Some(o) = self.pick(Kind::N, st.a(0)) else { return Ok(()) };
                let c = self.cell(o);
                self.run.ctr(Ctr::comparisons, 1);
                self.go(st, &[(o, false)], Box::new(move || {
                    c.n().full()?;
                    Ok(c.n().hash())
                }))
            }
            _ => Ok(()),
        }
    }

    fn c09(&mut self, st: &Step) -> R<()> {
        let Some(o) = self.pick(Kind::G, st.a(0)) else { return Ok(()) };
        let c = self.cell(o);
        let (b, mode, t, pool) = (st.a(1), st.a(2), st.a(3), st.op == "pool");
        self.run.ctr(Ctr::derivations, 1);
        if mode != 0 {
            self.run.ctr(Ctr::boundary_thresholds, 1);
        }
        if b > 1 << 32 {
            self.run.ctr(Ctr::huge_blocks, 1);
        }
        self.go(st, &[(o, false)], Box::new(move || {
            let g = c.g();
            let m = observe(g)?;
            if pool {
                check_pool(g, &m, b)
            } else {
                let (bb, _) = m.pool_shape(b);
                // Thresholds at, just above or just below the average of t edges.
                let t = match mode {
                    0 => unf(t),
                    k => {
                        let n = if k >= 4 {
                            // as many edges as some block has
                            let counts = if m.vc == 0 { Default::default() } else { m.blocks(bb) };
                            let i = t as usize % counts.len().max(1);
                            counts.values().nth(i).copied().unwrap_or(1)
                        } else {
                            t.min(bb.saturating_mul(bb)).max(1)
                        };
                        let a = average(n, bb);
                        match k {
                            1 | 4 => a,
                            2 | 5 => next(a, 1),
                            _ => next(a, -1),
                        }
                    }
                };
                let t = if t.is_nan() { 0.5 } else { t };
                check_approx(g, &m, b, t)
            }
        }))
    }

    fn c10(&mut self, st: &Step) -> R<()> {
        let Some(o) = self.pick(Kind::G, st.a(0)) else { return Ok(()) };
        let c = self.cell(o);
        let (lv, deep) = (st.a(1), st.a(2) != 0);
        self.run.ctr(Ctr::derivations, 1);
        if lv >= 1000 {
            self.run.ctr(Ctr::level_boundary_blocks, 1);
        }
        self.go(st, &[(o, false)], Box::new(move || {
            let g = c.g();
            let m = observe(g)?;
            let level = if lv >= 1000 {
                let all = m.compressed(1);
                let k = all.blocks.len().max(1) as u64;
                let pc = all.blocks.values().nth(((lv - 1000) % k) as usize).map(|v| v.count_ones()).unwrap_or(1);
                (pc as u64 + lv % 2).min(64) as u8
            } else {
                lv as u8
            };
            let z = sut(|| g.compress(level));
            let want = m.compressed(level);
            same_comp("compressed", &z, &want, deep)?;
            if level <= 1 && deep {
                let back = sut(|| z.decompress());
                same_graph("lossless", &back, &m)?;
            }
            Ok(want.hash())
        }))
    }

    fn c11(&mut self, st: &Step) -> R<()> {
        if st.op != "oom" {
            return Ok(());
        }
        let Some(o) = self.pick(Kind::G, st.a(0)) else { return Ok(()) };
        let c = self.cell(o);
        let (kind, skip, times, lv) = (st.a(1) % 5, st.a(2), st.a(3), st.a(4));
        self.run.ctr(Ctr::renders, 1);
        let (tx, rx) = std::sync::mpsc::channel();
        self.run.settle(st.client as usize % self.run.clients.len())?;
        self.run.drain()?;
        self.go(st, &[(o, true)], Box::new(move || {
            let g = c.g();
            let m = observe(g)?;
            let r = oom_op(g, &m, kind, skip, times, lv);
            let _ = tx.send(alloc::fired());
            if let Ok((fired, large, retried)) = &r {
                let _ = tx.send(*fired);
                let _ = tx.send(*large);
                let _ = tx.send(*retried);
            }
            r.map(|x| x.0 as u64)
        }))?;
        let v: Vec<u32> = rx.try_iter().collect();
        if v.len() == 4 {
            self.run.ctr(Ctr::f_alloc_refused, v[1] as u64);
            self.run.ctr(Ctr::f_alloc_too_large, v[2] as u64);
            self.run.ctr(Ctr::retries_after_fault, v[3] as u64);
        }
        self.mark(st, o);
        Ok(())
    }

    fn c19(&mut self, st: &Step) -> R<()> {
        let k = |i: usize| st.a(i);
        let out: Arc<Mutex<(u64, u64)>> = Arc::default();
        let res = out.clone();
        let (digits, oom) = (k(2), k(3) % 4 == 0);
        match st.op.as_str() {
            "nset" | "nzero" | "ninc" | "nnew" | "anew" | "aset" | "azero" | "abulk" => return self.c02(st),
            "nwide" | "nclear" => {
                let Some(o) = self.pick(Kind::N, k(0)) else { return Ok(()) };
                let (c, op, a, x, y) = (self.cell(o), st.op.clone(), k(1), k(2), k(3));
                return self.go(st, &[(o, true)], Box::new(move || {
                    if op == "nwide" {
                        c.n().set_wide(a, x, y)?;
                    } else {
                        c.n().clear_column(x, a)?;
                    }
                    Ok(c.n().hash())
                }));
            }
            "ntext" => {
                let Some(o) = self.pick(Kind::N, k(0)) else { return Ok(()) };
                let (c, twin) = (self.cell(o), k(1));
                let (fp, oph) = (self.run.step, mix(digits, o as u64));
                self.go(st, &[(o, false)], Box::new(move || {
                    *res.lock().unwrap() = crate::world_text::num_text(&**c.n(), digits, oom, twin)?;
                    Ok(c.n().hash())
                }))?;
                let _ = fp;
                self.run.fp(oph);
            }
            "atext" => {
                let Some(o) = self.pick(Kind::A, k(0)) else { return Ok(()) };
                let (c, m) = (self.cell(o), self.model(o));
                self.go(st, &[(o, false)], Box::new(move || {
                    *res.lock().unwrap() = crate::world_text::adj_text(c.a(), mg(&m), oom)?;
                    Ok(0)
                }))?;
                self.mark(st, o);
            }
            "gtext" => {
                let Some(o) = self.pick(Kind::G, k(0)) else { return Ok(()) };
                let (c, m, kind, arg) = (self.cell(o), self.model(o), k(1), k(4));
                self.go(st, &[(o, false)], Box::new(move || {
                    *res.lock().unwrap() = crate::world_text::graph_text(c.g(), mg(&m), kind, arg, digits, oom)?;
                    Ok(kind)
                }))?;
                self.mark(st, o);
            }
            _ => return Ok(()),
        }
        self.run.ctr(Ctr::renders, 1);
        let (fired, large) = *out.lock().unwrap();
        self.run.ctr(Ctr::f_alloc_refused, fired);
        self.run.ctr(Ctr::f_alloc_too_large, large);
        Ok(())
    }

    fn c12(&mut self, st: &Step) -> R<()> {
        if st.op == "scale" || st.op == "growth" {
            let by_time = st.op == "scale";
            self.run.drain()?;
            let a = [st.a(0), st.a(1), st.a(2), st.a(3), st.a(4)];
            self.run.ctr(Ctr::big_graphs, 1);
            self.go(st, &[], Box::new(move || {
                if by_time {
                    crate::world_cost::scale_op(a[0], a[1], a[2], a[3])
                } else {
                    crate::world_cost::growth_op(a[0], a[1], a[2], a[3], a[4])
                }
            }))?;
            self.run.fp(mix(mix(a[0] % 7, a[3] % 6), a[1]));
            return Ok(());
        }
        if st.op != "cost" {
            return Ok(());
        }
        let Some(o) = self.pick(Kind::G, st.a(0)) else { return Ok(()) };
        let c = self.cell(o);
        let m = self.model(o);
        let mut a = st.args.clone();
        a.resize(8, 0);
        self.run.drain()?;
        let history = self.run.page.ctr[Ctr::edges_added as usize] + self.run.page.ctr[Ctr::bulk_edges as usize] + 2 * self.run.step;
        let every = self.meter;
        self.run.ctr(if matches!(st.a(1) % 11, 6 | 7) { Ctr::f_hostile_header } else { Ctr::f_huge_id }, 1);
        self.go(st, &[(o, true)], Box::new(move || {
            crate::world_cost::cost_op(c.g(), mg(&m), a[1] % 11, a[2], a[3], a[4], history, every)
        }))?;
        self.mark(st, o);
        Ok(())
    }
}

pub fn next(x: f64, d: i64) -> f64 {
    f64::from_bits((x.to_bits() as i64 + d).max(1) as u64)
}

pub fn check_pool(g: &Graph, m: &MGraph, b: u64) -> R<u64> {
    let p = sut(|| g.find_avg_pool_matrix(b));
    let (bb, dim) = m.pool_shape(b);
    let want = if m.vc == 0 { BTreeMap::new() } else { m.blocks(bb) };
    same_pool("pool", &p, &MPool { b: bb, dim, counts: want })
}

pub fn same_pool(what: &str, p: &CsrSquareMatrix<f64>, w: &MPool) -> R<u64> {
    let (d, n) = sut(|| (p.dimension(), p.entry_count()));
    ensure!(d == w.dim, &format!("{what}:dimension"), "block dimension {}: pooled dimension {d} instead of {}", w.b, w.dim);
    ensure!(n == w.counts.len() as u64, &format!("{what}:entry_count"), "block dimension {}: {n} entries instead of {}", w.b, w.counts.len());
    let l: Vec<(f64, u64, u64)> = sut(|| p.into_iter().collect());
    let mut seen = BTreeSet::new();
    for (v, c, r) in &l {
        ensure!(seen.insert((*c, *r)), &format!("{what}:repeats"), "pooled entry ({c}, {r}) iterated twice");
        let Some(k) = w.counts.get(&(*c, *r)) else {
            return bad(&format!("{what}:entry"), format!("block dimension {}: empty block ({c}, {r}) has entry {v}", w.b));
        };
        let a = average(*k, w.b);
        ensure!((v - a).abs() <= a * 1e-12, &format!("{what}:entry"), "block dimension {}: block ({c}, {r}) has {k} edges and entry {v} instead of {a}", w.b);
        let e = sut(|| p.get_entry(*c, *r));
        ensure!(e == *v, &format!("{what}:get_entry"), "get_entry({c}, {r}) = {e}, iterated as {v}");
    }
    ensure!(seen.len() == w.counts.len(), &format!("{what}:entry"), "{} of {} blocks iterated", seen.len(), w.counts.len());
    for (c, r) in w.counts.keys().take(8) {
        for (c, r) in [(*r, *c), (c.wrapping_add(1), *r), (*c, r ^ 1)] {
            if !w.counts.contains_key(&(c, r)) {
                let e = sut(|| p.get_entry(c, r));
                ensure!(e == 0.0, &format!("{what}:get_entry"), "empty block ({c}, {r}) reads {e}");
            }
        }
    }
    Ok(mix(d, n))
}

pub fn check_approx(g: &Graph, m: &MGraph, b: u64, t: f64) -> R<u64> {
    let a = sut(|| g.approximate(b, t));
    same_approx("approx", &a, m, b, t)
}

pub fn same_approx(what: &str, a: &Graph, m: &MGraph, b: u64, t: f64) -> R<u64> {
    if b <= 1 || m.vc <= 1 {
        same_graph(&format!("{what}:copy"), a, m)?;
        return Ok(1);
    }
    let (bb, dim) = m.pool_shape(b);
    let o = observe(a)?;
    ensure!(o.und == m.und, &format!("{what}:direction"), "approximation of a graph with undirected={} has undirected={}", m.und, o.und);
    ensure!(o.vc == dim, &format!("{what}:vertex_count"), "block dimension {b}: {} vertices instead of {dim}", o.vc);
    let counts = m.blocks(bb);
    for ((c, r), k) in &counts {
        let have = o.edges.contains(&(*c, *r));
        if let Some(want) = reaches(*k, bb, t) {
            ensure!(have == want, &format!("{what}:threshold"), "block dimension {bb}, threshold {t:e}: block ({c}, {r}) with {k} edges is {} edge", if have { "an" } else { "no" });
        }
    }
    for e in &o.edges {
        ensure!(counts.contains_key(e), &format!("{what}:edges"), "empty block {e:?} became an edge");
    }
    let ec = sut(|| a.edge_count());
    ensure!(ec == o.edges.len() as u64, &format!("{what}:edge_count"), "edge count {ec} for {} edges", o.edges.len());
    Ok(mix(ec, dim))
}

/// A save or a rendering under memory pressure. Returns how many requests were refused, how many
/// outputs were simply too large, and how many retries succeeded.
fn oom_op(g: &Graph, m: &MGraph, kind: u64, skip: u64, times: u64, lv: u64) -> R<(u32, u32, u32)> {
    enum Out {
        Bytes(Result<Vec<u8>, graphrox::error::GraphRoxError>),
        Text(Result<String, graphrox::error::GraphRoxError>),
    }
    let z = if kind == 1 || kind == 3 { Some(sut(|| g.compress((lv % 65) as u8))) } else { None };
    let p = if kind == 4 { Some(sut(|| g.find_avg_pool_matrix(lv % 9 + 1))) } else { None };
    let mut want_z = None;
    if let Some(z) = &z {
        let gz = sut(|| z.decompress());
        let om = observe(&gz)?;
        let mut c = om.compressed(1);
        c.level = sut(|| z.compression_level());
        want_z = Some(c);
    }
    // The least the output can take.
    let (size, dim): (u128, u128) = match kind {
        0 => (26 + 16 * m.edges.len() as u128, 0),
        1 => (42 + 24 * want_z.as_ref().unwrap().blocks.len() as u128, 0),
        2 => ((m.vc as u128 * m.vc as u128).saturating_mul(3), m.vc as u128),
        3 => ((comp_dim(m.vc) as u128).pow(2).saturating_mul(3), comp_dim(m.vc) as u128),
        _ => {
            let d = sut(|| p.as_ref().unwrap().dimension()) as u128;
            ((d * d).saturating_mul(3), d)
        }
    };
    let digits = (lv % 7) as usize;
    let call = || match kind {
        0 => Out::Bytes(g.to_bytes()),
        1 => Out::Bytes(z.as_ref().unwrap().to_bytes()),
        2 => Out::Text(g.matrix_string()),
        3 => Out::Text(z.as_ref().unwrap().matrix_string()),
        _ => Out::Text(p.as_ref().unwrap().to_string_with_precision(digits)),
    };
    let name = ["graph image", "compressed image", "graph text", "compressed text", "pool text"][kind as usize];
    let fits = size <= 6 << 20;
    // Rendering is slow: a run may spend so many output bytes on it, and no more.
    static SPENT: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
    let spent = SPENT.load(std::sync::atomic::Ordering::SeqCst);
    if fits && kind >= 2 {
        if spent + size as u64 > 6 << 20 {
            return Ok((0, 0, 0));
        }
        SPENT.store(spent + size as u64, std::sync::atomic::Ordering::SeqCst);
    }
    if !fits && size <= 3 << 30 {
        // Neither clearly impossible nor cheap: not worth the time of a run.
        return Ok((0, 0, 0));
    }
    if !fits {
        let live0 = alloc::reset_peak();
        let r = sut(call);
        let e = match r {
            Out::Bytes(Err(e)) | Out::Text(Err(e)) => e,
            _ => return bad("oom:impossible", format!("{name} of {size} bytes succeeded")),
        };
        ensure!(matches!(e, graphrox::error::GraphRoxError::CapacityOverflow(_)), "oom:error_kind", "{name} of {size} bytes failed with {e:?}");
        let grew = alloc::peak() - live0;
        ensure!(grew < (2 << 30), "oom:grew", "{name} that cannot be built took {grew} bytes");
        drop(e);
        let live1 = alloc::LIVE_BYTES.load(std::sync::atomic::Ordering::Relaxed);
        ensure!(live1 <= live0, "oom:leak", "{name}: {} bytes stay allocated after the failure", live1 - live0);
        return Ok((0, 1, 0));
    }
    // A first call without faults, then the same under refusals, then again without.
    let good = sut(call);
    let want_bytes: Option<Vec<u8>>;
    match &good {
        Out::Bytes(Ok(b)) => {
            want_bytes = Some(b.clone());
            let ok = match kind {
                0 => matches!(read_graph(b), Meaning::Exact(x) if x == *m),
                _ => matches!(read_comp(b), Meaning::Exact(x) if Some(&x) == want_z.as_ref()),
            };
            ensure!(ok, "oom:baseline", "{name} without faults does not say what the object says");
        }
        Out::Text(Ok(s)) => {
            want_bytes = Some(s.clone().into_bytes());
            if kind == 2 {
                matrix_text("oom", s, m)?;
            }
        }
        Out::Bytes(Err(e)) | Out::Text(Err(e)) => {
            return bad("oom:baseline", format!("{name} of {size} bytes fails with memory available: {e}"));
        }
    }
    drop(good);
    // Below a kilobyte a refusal could hit bookkeeping that is not the output.
    if size < 1024 || (dim == 0 && kind >= 2) {
        return Ok((0, 0, 0));
    }
    let live0 = alloc::reset_peak();
    // Refuse requests big enough to hold the output (anything smaller is bookkeeping).
    alloc::set_fault(alloc::Fault { min_size: size as usize, skip: (skip % 2) as u32, refuse: 1 + (times % 3) as u32 });
    let r = sut(call);
    let fired = alloc::clear_fault();
    if fired > 0 {
        match r {
            Out::Bytes(Ok(b)) => {
                // It found another way; then the result must still be right.
                ensure!(same_image(&b, want_bytes.as_ref().unwrap(), kind), "oom:wrong", "{name} differs after a refused allocation");
            }
            Out::Text(Ok(s)) => ensure!(s.as_bytes() == want_bytes.as_ref().unwrap().as_slice(), "oom:wrong", "{name} differs after a refused allocation"),
            Out::Bytes(Err(e)) | Out::Text(Err(e)) => {
                ensure!(matches!(e, graphrox::error::GraphRoxError::CapacityOverflow(_)), "oom:error_kind", "{name}: refused allocation reported as {e:?}");
            }
        }
        let live1 = alloc::LIVE_BYTES.load(std::sync::atomic::Ordering::Relaxed);
        ensure!(live1 <= live0, "oom:leak", "{name}: {} bytes stay allocated after the failure", live1 - live0);
    }
    same_graph("oom:state", g, m)?;
    if let (Some(z), Some(w)) = (&z, &want_z) {
        same_comp("oom:state", z, w, false)?;
    }
    match sut(call) {
        Out::Bytes(Ok(b)) => ensure!(same_image(&b, want_bytes.as_ref().unwrap(), kind), "oom:retry", "{name} differs when retried"),
        Out::Text(Ok(s)) => ensure!(s.as_bytes() == want_bytes.as_ref().unwrap().as_slice(), "oom:retry", "{name} differs when retried"),
        Out::Bytes(Err(e)) | Out::Text(Err(e)) => return bad("oom:retry", format!("{name} fails when retried: {e}")),
    }
    Ok((fired, 0, (fired > 0) as u32))
}

fn same_image(a: &[u8], b: &[u8], kind: u64) -> bool {
    if kind == 0 {
        matches!((read_graph(a), read_graph(b)), (Meaning::Exact(x), Meaning::Exact(y)) if x == y)
    } else {
        matches!((read_comp(a), read_comp(b)), (Meaning::Exact(x), Meaning::Exact(y)) if x == y)
    }
}

// ---------------------------------------------------------------- isolation (C03)

/// What an object says it is: its content, and every other way of asking about it.
#[derive(Clone, PartialEq, Debug)]
pub enum Obs {
    G(MGraph, u64, Vec<Fact>),
    P(u64, u64, Vec<(u64, u64, u64)>, Vec<Fact>),
    Z(Vec<u8>, Vec<(u64, u64)>, Vec<Fact>),
    A(Vec<(u64, u64)>, u64, u64, Vec<Fact>),
}
/// A query and the hash of its answer.
pub type Fact = (&'static str, u64, u64, u64);

fn hl(l: &[u64]) -> u64 {
    l.iter().fold(l.len() as u64, |a, b| mix(a, *b))
}
fn ht(s: &str) -> u64 {
    s.bytes().fold(s.len() as u64, |a, b| mix(a, b as u64))
}
fn records(b: &[u8], head: usize, size: usize) -> Vec<u8> {
    let mut recs: Vec<&[u8]> = b.get(head..).unwrap_or(&[]).chunks(size).collect();
    recs.sort_unstable();
    let mut v = b[..head.min(b.len())].to_vec();
    recs.iter().for_each(|r| v.extend_from_slice(r));
    v
}
/// The ids asked about: fixed by the content, so that equal contents are asked the same.
fn ids_of(edges: &[(u64, u64)]) -> Vec<u64> {
    let mut v = vec![0];
    for (a, b) in edges.iter().step_by(edges.len() / 4 + 1).chain(edges.last()) {
        v.extend([*a, *b]);
    }
    v.sort_unstable();
    v.dedup();
    v
}
fn text<E: std::fmt::Display>(s: Result<String, E>) -> R<u64> {
    match s {
        Ok(s) => Ok(ht(&s)),
        Err(e) => bad("isolation:matrix_string", format!("matrix_string: {e}")),
    }
}
fn pool_facts(p: &CsrSquareMatrix<f64>) -> u64 {
    let mut l: Vec<(u64, u64, u64)> = sut(|| p.into_iter().collect::<Vec<_>>()).iter().map(|(v, c, r)| (*c, *r, v.to_bits())).collect();
    l.sort_unstable();
    l.iter().fold(sut(|| p.dimension()), |a, (c, r, v)| mix(mix(a, *c), mix(*r, *v)))
}

fn look(o: &mut Obj) -> R<Obs> {
    match o {
        Obj::G(g) => {
            let m = observe(g)?;
            let ec = sut(|| g.edge_count());
            let mut f: Vec<Fact> = vec![];
            let edges: Vec<(u64, u64)> = m.edges.iter().copied().collect();
            let ids = ids_of(&edges);
            for (i, v) in ids.iter().copied().enumerate() {
                let w = ids[(i * 5 + 1) % ids.len()];
                f.push(("out-degree", v, 0, sut(|| g.get_vertex_out_degree(v))));
                f.push(("in-degree", v, 0, sut(|| g.get_vertex_in_degree(v))));
                f.push(("out-edges", v, 0, hl(&sorted(sut(|| g.get_vertex_out_edges(v))))));
                f.push(("in-edges", v, 0, hl(&sorted(sut(|| g.get_vertex_in_edges(v))))));
                f.push(("does_edge_exist", v, w, sut(|| g.does_edge_exist(v, w)) as u64));
            }
            for (a, b) in edges.iter().step_by(edges.len() / 4 + 1) {
                f.push(("does_edge_exist", *a, *b, sut(|| g.does_edge_exist(*a, *b)) as u64));
            }
            if m.vc <= 24 {
                f.push(("matrix_string", 0, 0, text(sut(|| g.matrix_string()))?));
            }
            if edges.len() <= 200 {
                let p = sut(|| g.find_avg_pool_matrix(3));
                f.push(("find_avg_pool_matrix", 3, 0, pool_facts(&p)));
                sut(|| drop(p));
                let z = sut(|| g.compress(2));
                match sut(|| z.to_bytes()) {
                    Ok(b) => f.push(("compress", 2, 0, records(&b, 42, 24).iter().fold(1, |a, b| mix(a, *b as u64)))),
                    Err(e) => return bad("isolation:to_bytes", format!("to_bytes: {e}")),
                }
                sut(|| drop(z));
                match sut(|| g.to_bytes()) {
                    Ok(b) => f.push(("to_bytes", 0, 0, records(&b, 26, 16).iter().fold(1, |a, b| mix(a, *b as u64)))),
                    Err(e) => return bad("isolation:to_bytes", format!("to_bytes: {e}")),
                }
            }
            Ok(Obs::G(m, ec, f))
        }
        Obj::P(p) => {
            let mut l: Vec<(u64, u64, u64)> = sut(|| (&*p).into_iter().collect::<Vec<_>>()).iter().map(|(v, c, r)| (*c, *r, v.to_bits())).collect();
            l.sort_unstable();
            let (d, n) = sut(|| (p.dimension(), p.entry_count()));
            let mut f: Vec<Fact> = vec![];
            for (c, r, _) in l.iter().step_by(l.len() / 6 + 1) {
                for (c, r) in [(*c, *r), (*r, *c), (c ^ 1, *r)] {
                    f.push(("get_entry", c, r, sut(|| p.get_entry(c, r)).to_bits()));
                }
            }
            if d <= 16 {
                f.push(("to_string_with_precision", 3, 0, text(sut(|| p.to_string_with_precision(3)))?));
            }
            Ok(Obs::P(d, n, l, f))
        }
        Obj::A(a) => {
            let mut l = sut(|| (&*a).into_iter().collect::<Vec<_>>());
            l.sort_unstable();
            let (d, n) = sut(|| (a.dimension(), a.entry_count()));
            let mut f: Vec<Fact> = vec![];
            let ids = ids_of(&l);
            for (i, v) in ids.iter().copied().enumerate() {
                let w = ids[(i * 5 + 1) % ids.len()];
                f.push(("get_entry", v, w, sut(|| a.get_entry(v, w)) as u64));
                f.push(("col_nonzero_entry_count", v, 0, sut(|| a.col_nonzero_entry_count(v))));
                f.push(("row_nonzero_entry_count", v, 0, sut(|| a.row_nonzero_entry_count(v))));
                f.push(("get_sparse_col_vector", v, 0, hl(&sorted(sut(|| a.get_sparse_col_vector(v))))));
                f.push(("get_sparse_row_vector", v, 0, hl(&sorted(sut(|| a.get_sparse_row_vector(v))))));
            }
            if d <= 24 {
                f.push(("to_string", 0, 0, text(sut(|| a.try_to_string()))?));
            }
            Ok(Obs::A(l, d, n, f))
        }
        Obj::Z(z) => {
            let b = match sut(|| z.to_bytes()) {
                Ok(b) => b,
                Err(e) => return bad("isolation:to_bytes", format!("to_bytes: {e}")),
            };
            let v = records(&b, 42, 24);
            let g = sut(|| z.decompress());
            let l = sorted_edges(&g);
            sut(|| drop(g));
            let (und, vc, ec, lv) = sut(|| (z.is_undirected(), z.vertex_count(), z.edge_count(), z.compression_level()));
            let mut f: Vec<Fact> = vec![("counts", vc, ec, lv as u64 * 2 + und as u64)];
            for (a, b) in l.iter().step_by(l.len() / 6 + 1) {
                for (a, b) in [(*a, *b), (*b, *a), (a ^ 8, *b)] {
                    f.push(("does_edge_exist", a, b, sut(|| z.does_edge_exist(a, b)) as u64));
                    f.push(("get_compressed_matrix_entry", a / 8, b / 8, sut(|| z.get_compressed_matrix_entry(a / 8, b / 8))));
                }
            }
            if vc <= 128 {
                f.push(("matrix_string", 0, 0, text(sut(|| z.matrix_string()))?));
            }
            Ok(Obs::Z(v, l, f))
        }
        _ => bad("harness", "cannot look".into()),
    }
}
/// The first thing two observations disagree about.
fn told(a: &Obs, b: &Obs) -> String {
    let facts = |o: &Obs| match o {
        Obs::G(_, _, f) | Obs::P(_, _, _, f) | Obs::Z(_, _, f) | Obs::A(_, _, _, f) => f.clone(),
    };
    let (fa, fb) = (facts(a), facts(b));
    match fa.iter().zip(fb.iter()).find(|(x, y)| x != y) {
        Some((x, _)) => format!("; {}({}, {}) answers differently", x.0, x.1, x.2),
        None => String::new(),
    }
}
fn sorted_edges(g: &Graph) -> Vec<(u64, u64)> {
    let mut l = edge_list(g);
    l.sort_unstable();
    l
}
fn brief(o: &Obs) -> String {
    match o {
        Obs::G(g, ec, _) => format!("graph with {} vertices, {} edges (counts {ec})", g.vc, g.edges.len()),
        Obs::P(d, n, l, _) => format!("pooling matrix {d}x{d} with {} entries (counts {n})", l.len()),
        Obs::Z(b, l, _) => format!("compressed graph of {} image bytes and {} edges", b.len(), l.len()),
        Obs::A(l, d, n, _) => format!("adjacency matrix {d}x{d} with {} entries (counts {n})", l.len()),
    }
}

impl World<'_> {
    /// Model-free: after every operation, every object not written by it still says what it said.
    fn c03(&mut self, st: &Step) -> R<()> {
        let before = self.slots.len();
        match st.op.as_str() {
            "derive" => {
                let Some(o) = self.any(st.a(0)) else { return Ok(()) };
                if self.slots.iter().filter(|s| s.is_some()).count() > 9 {
                    return Ok(());
                }
                let kind = self.slots[o].as_ref().unwrap().kind;
                let (how, x, y) = (st.a(1), st.a(2), st.a(3));
                let nk = match (kind, how % 9) {
                    (Kind::G, 0 | 1) => Kind::G,
                    (Kind::G, 2 | 8) => Kind::G,
                    (Kind::G, 3) => Kind::P,
                    (Kind::G, 4 | 5) => Kind::Z,
                    (Kind::G, _) => Kind::G,
                    (Kind::Z, 0..=2) => Kind::Z,
                    (Kind::Z, 3..=5) => Kind::G,
                    (Kind::Z, _) => Kind::Z,
                    (Kind::A, 0..=4) => Kind::A,
                    (Kind::A, _) => Kind::G,
                    (k, _) => k,
                };
                let src = self.cell(o);
                let (n, dst) = self.add(nk, Mod::None);
                self.run.ctr(Ctr::derivations, 1);
                self.go(st, &[(o, false), (n, true)], Box::new(move || {
                    let new = match src.at() {
                        Obj::G(g) => match how % 9 {
                            0 | 1 => Obj::G(sut(|| g.clone())),
                            2 => Obj::G(sut(|| g.approximate(x % 6, y as f64 / 69.0))),
                            3 => Obj::P(sut(|| g.find_avg_pool_matrix(x))),
                            4 => Obj::Z(sut(|| g.compress(1))),
                            5 => Obj::Z(sut(|| g.compress(y as u8))),
                            6 => {
                                let b = sut(|| g.to_bytes()).map_err(|e| Viol::new("isolation:to_bytes", format!("{e}")))?;
                                let mut b2 = b.clone();
                                let g2 = sut(|| Graph::try_from(b2.as_slice())).map_err(|e| Viol::new("isolation:decode", format!("{e}")))?;
                                b2.fill(0xEE);
                                Obj::G(g2)
                            }
                            7 => {
                                let z = sut(|| g.compress(1));
                                let g2 = sut(|| z.decompress());
                                sut(|| drop(z));
                                Obj::G(g2)
                            }
                            _ => {
                                let mut g2 = used_graph(x + y);
                                sut(|| g2.clone_from(g));
                                Obj::G(g2)
                            }
                        },
                        Obj::Z(z) => match how % 9 {
                            0 | 1 => Obj::Z(sut(|| z.clone())),
                            2 => {
                                let g2 = used_graph(x + y);
                                let mut z2 = sut(|| g2.compress(1));
                                sut(|| z2.clone_from(z));
                                sut(|| drop(g2));
                                Obj::Z(z2)
                            }
                            3..=5 => Obj::G(sut(|| z.decompress())),
                            _ => {
                                let mut b = sut(|| z.to_bytes()).map_err(|e| Viol::new("isolation:to_bytes", format!("{e}")))?;
                                let z2 = sut(|| CompressedGraph::try_from(b.as_slice())).map_err(|e| Viol::new("isolation:decode", format!("{e}")))?;
                                b.fill(0xEE);
                                Obj::Z(z2)
                            }
                        },
                        Obj::P(p) if how % 9 <= 3 => {
                            let g2 = used_graph(x + y);
                            let mut p2 = sut(|| g2.find_avg_pool_matrix(2));
                            sut(|| p2.clone_from(p));
                            sut(|| drop(g2));
                            Obj::P(p2)
                        }
                        Obj::P(p) => Obj::P(sut(|| p.clone())),
                        Obj::A(a) if how % 9 <= 1 => {
                            let mut a2 = sut(CsrAdjacencyMatrix::new);
                            sut(|| (0..x % 20).for_each(|i| a2.set_entry(1, i * i % 11, i % 7)));
                            sut(|| a2.clone_from(a));
                            Obj::A(a2)
                        }
                        Obj::A(a) if how % 9 <= 4 => Obj::A(sut(|| a.clone())),
                        Obj::A(a) => Obj::G(sut(|| Graph::directed_from(a.clone()))),
                        _ => Obj::Empty,
                    };
                    *dst.at() = new;
                    let copied = matches!(
                        (src.at(), dst.at(), how % 9),
                        (Obj::G(_), Obj::G(_), 0 | 1 | 8) | (Obj::Z(_), Obj::Z(_), 0..=2) | (Obj::P(_), Obj::P(_), _) | (Obj::A(_), Obj::A(_), _)
                    );
                    if copied && x % 3 == 0 {
                        let (a, b) = (look(src.at())?, look(dst.at())?);
                        ensure!(a == b, "isolation:copy", "a copy of {} is {}", brief(&a), brief(&b) + &told(&a, &b));
                    }
                    Ok(0)
                }))?;
            }
            "iall" => {}
            "imat" => {
                // a matrix of its own
                let (n, s) = (st.a(1) % 30, st.a(2));
                let (o, c) = self.add(Kind::A, Mod::None);
                self.go(st, &[(o, true)], Box::new(move || {
                    let mut a = sut(CsrAdjacencyMatrix::new);
                    let mut r = Rng::new(s);
                    for _ in 0..n {
                        let (x, y) = (r.below(12), r.below(12));
                        sut(|| a.set_entry(1, x, y));
                    }
                    *c.at() = Obj::A(a);
                    Ok(0)
                }))?;
            }
            "iset" => {
                // writes to a matrix, whichever kind it is
                let kind = if st.a(1) % 2 == 0 { Kind::A } else { Kind::P };
                let Some(o) = self.pick(kind, st.a(0)) else { return Ok(()) };
                let (how, x, y, v) = (st.a(1) / 2 % 4, st.a(2), st.a(3), st.a(4));
                let c = self.cell(o);
                self.go(st, &[(o, true)], Box::new(move || {
                    match c.at() {
                        Obj::A(a) => sut(|| if how < 2 { a.set_entry(v as u8 % 2, x, y) } else { a.zero_entry(x, y) }),
                        Obj::P(p) => sut(|| match how {
                            0 => p.set_entry(v as f64 / 4.0, x, y),
                            1 => p.increment_entry(x, y),
                            _ => p.zero_entry(x, y),
                        }),
                        _ => {}
                    }
                    Ok(0)
                }))?;
                *self.slots[o].as_ref().unwrap().obs.lock().unwrap() = None;
            }
            _ => {
                // base operations address graphs; the models play no part here
                if let Some(o) = self.pick(Kind::G, st.a(0)) {
                    if matches!(*self.model(o), Mod::None) && matches!(st.op.as_str(), "gadd" | "gdel" | "gvert" | "glist" | "gbulk" | "gunbulk") {
                        *self.model_mut(o) = Mod::G(MGraph::new(false));
                    }
                }
                let target = if matches!(st.op.as_str(), "gadd" | "gdel" | "gvert" | "glist" | "gbulk" | "gunbulk") { self.pick(Kind::G, st.a(0)) } else { None };
                self.base(st)?;
                if let Some(t) = target {
                    *self.slots[t].as_ref().unwrap().obs.lock().unwrap() = None;
                }
            }
        }
        let _ = before;
        // Look at the objects: fresh ones are recorded, the others must not have changed.
        let mut all: Vec<usize> = (0..self.slots.len()).filter(|i| self.slots[*i].is_some()).collect();
        if all.len() > 4 && st.op != "iall" {
            let k = (self.run.step as usize * 7) % all.len();
            let fresh: Vec<usize> = all.iter().copied().filter(|i| self.slots[*i].as_ref().unwrap().obs.lock().unwrap().is_none()).collect();
            all.rotate_left(k);
            all.truncate(3);
            all.extend(fresh);
            all.sort_unstable();
            all.dedup();
        }
        for i in all {
            let s = self.slots[i].as_ref().unwrap();
            let (c, obs) = (s.cell.clone(), s.obs.clone());
            self.run.ctr(Ctr::comparisons, 1);
            let after = st.op.clone();
            let st2 = Step { client: st.client + 1, op: "look".into(), args: vec![], pre: vec![] };
            self.go(&st2, &[(i, false)], Box::new(move || {
                let now = look(c.at())?;
                let mut o = obs.lock().unwrap();
                let h = crate::rng::mix(1, brief(&now).bytes().fold(3, |a, b| mix(a, b as u64)));
                match &*o {
                    None => *o = Some(now),
                    Some(was) => ensure!(*was == now, "isolation:changed", "an object changed although the operation ({after}) was on another: {} became {}", brief(was), brief(&now) + &told(was, &now)),
                }
                Ok(h)
            }))?;
            if let Some(Some(o)) = self.slots.get(i).map(|s| s.as_ref().and_then(|s| s.obs.try_lock().ok().and_then(|o| o.clone()))) {
                let h = brief(&o).bytes().fold(3, |a, b| mix(a, b as u64));
                self.run.fp(mix(h, st.op.len() as u64));
            }
        }
        Ok(())
    }
}

// ---------------------------------------------------------------- concurrency (C15)

fn exec_c15(plan: &Plan, run: &mut Run) -> R<()> {
    let cut = plan.steps.iter().position(|s| s.op == "shared").unwrap_or(0);
    let only = plan.cfg.get("only").copied();
    let mut w = World::new(run);
    for st in &plan.steps[..cut] {
        w.run.tick()?;
        let st = Step { client: 0, pre: vec![], ..st.clone() };
        if w.base(&st)? {
            continue;
        }
        match st.op.as_str() {
            "zmake" => {
                let Some(o) = w.pick(Kind::G, st.a(0)) else { continue };
                let m = mg(&w.model(o)).compressed(st.a(1) as u8);
                let (src, lv) = (w.cell(o), st.a(1) as u8);
                let (n, dst) = w.add(Kind::Z, Mod::Z(m));
                w.go(&st, &[(o, false), (n, true)], Box::new(move || {
                    *dst.at() = Obj::Z(sut(|| src.g().compress(lv)));
                    Ok(0)
                }))?;
            }
            "pmake" => {
                let Some(o) = w.pick(Kind::G, st.a(0)) else { continue };
                let m = mg(&w.model(o)).clone();
                let (b, dim) = m.pool_shape(st.a(1));
                let counts = if m.vc == 0 { BTreeMap::new() } else { m.blocks(b) };
                let (src, bb) = (w.cell(o), st.a(1));
                let (n, dst) = w.add(Kind::P, Mod::P(MPool { b, dim, counts }));
                w.go(&st, &[(o, false), (n, true)], Box::new(move || {
                    *dst.at() = Obj::P(sut(|| src.g().find_avg_pool_matrix(bb)));
                    Ok(0)
                }))?;
            }
            _ => {}
        }
    }
    w.run.tick()?;
    w.run.drain()?;
    // Each caller's own objects, besides the shared ones (which nobody writes from here on).
    let shared: Vec<usize> = (0..w.slots.len()).filter(|i| w.slots[*i].is_some()).collect();
    let callers = w.run.clients.len();
    let mut own: Vec<Vec<usize>> = vec![vec![]; callers];
    for st in plan.steps.iter().skip(cut + 1) {
        w.run.tick()?;
        let me = st.client as usize % callers;
        if only.is_some_and(|o| o as usize != me) {
            continue;
        }
        match st.op.as_str() {
            "read" => {
                let pool: Vec<usize> = shared.iter().chain(own[me].iter()).copied().collect();
                if pool.is_empty() {
                    continue;
                }
                let o = pool[(st.a(0) % pool.len() as u64) as usize];
                let (c, m) = (w.cell(o), w.model(o));
                let mut a = st.args.clone();
                a.resize(8, 0);
                w.run.ctr(Ctr::comparisons, 1);
                w.go(st, &[(o, false)], Box::new(move || read_op(c.at(), &m, &a)))?;
                w.mark(st, o);
            }
            "own" => match st.a(0) {
                0 => {
                    if own[me].len() > 3 {
                        continue;
                    }
                    let und = st.a(1) % 2 == 1;
                    let (o, c) = w.add(Kind::G, Mod::G(MGraph::new(und)));
                    own[me].push(o);
                    w.go(st, &[(o, true)], Box::new(move || {
                        *c.at() = Obj::G(sut(|| if und { Graph::new_undirected() } else { Graph::new_directed() }));
                        Ok(0)
                    }))?;
                }
                k @ (1 | 2) => {
                    let gs: Vec<usize> = own[me].iter().copied().filter(|i| w.slots[*i].as_ref().unwrap().kind == Kind::G).collect();
                    if gs.is_empty() {
                        continue;
                    }
                    let o = gs[(st.a(1) % gs.len() as u64) as usize];
                    let (x, y) = (st.a(1), st.a(2));
                    let c = w.cell(o);
                    if k == 1 {
                        w.gm(o).add_edge(x, y);
                    } else {
                        w.gm(o).del_edge(x, y);
                    }
                    w.go(st, &[(o, true)], Box::new(move || {
                        let g = c.g();
                        sut(|| if k == 1 { g.add_edge(x, y) } else { g.delete_edge(x, y) });
                        Ok(0)
                    }))?;
                }
                5 => {
                    // A copy of its own
                    let gs: Vec<usize> = shared.iter().chain(own[me].iter()).copied().filter(|i| w.slots[*i].as_ref().is_some_and(|s| s.kind == Kind::G)).collect();
                    if gs.is_empty() || own[me].len() > 6 {
                        continue;
                    }
                    let o = gs[(st.a(1) % gs.len() as u64) as usize];
                    let m = mg(&w.model(o)).clone();
                    let src = w.cell(o);
                    let (n, dst) = w.add(Kind::G, Mod::G(m));
                    own[me].push(n);
                    w.go(st, &[(o, false), (n, true)], Box::new(move || {
                        *dst.at() = Obj::G(sut(|| src.g().clone()));
                        Ok(0)
                    }))?;
                }
                6 => {
                    let zs: Vec<usize> = shared.iter().chain(own[me].iter()).copied().filter(|i| w.slots[*i].as_ref().is_some_and(|s| s.kind == Kind::Z)).collect();
                    if zs.is_empty() || own[me].len() > 6 {
                        continue;
                    }
                    let o = zs[(st.a(1) % zs.len() as u64) as usize];
                    let m = match &*w.model(o) {
                        Mod::Z(z) => z.graph(),
                        _ => continue,
                    };
                    let src = w.cell(o);
                    let (n, dst) = w.add(Kind::G, Mod::G(m));
                    own[me].push(n);
                    w.go(st, &[(o, false), (n, true)], Box::new(move || {
                        *dst.at() = Obj::G(sut(|| src.z().decompress()));
                        Ok(0)
                    }))?;
                }
                3 => {
                    let gs: Vec<usize> = shared.iter().chain(own[me].iter()).copied().filter(|i| w.slots[*i].as_ref().is_some_and(|s| s.kind == Kind::G)).collect();
                    if gs.is_empty() || own[me].len() > 6 {
                        continue;
                    }
                    let o = gs[(st.a(1) % gs.len() as u64) as usize];
                    let m = mg(&w.model(o)).clone();
                    let lv = st.a(2) as u8;
                    let src = w.cell(o);
                    let (n, dst) = w.add(Kind::Z, Mod::Z(m.compressed(lv)));
                    own[me].push(n);
                    w.go(st, &[(o, false), (n, true)], Box::new(move || {
                        *dst.at() = Obj::Z(sut(|| src.g().compress(lv)));
                        Ok(0)
                    }))?;
                }
                _ => {
                    if let Some(o) = own[me].pop() {
                        let c = w.cell(o);
                        w.go(st, &[(o, true)], Box::new(move || {
                            let x = std::mem::replace(c.at(), Obj::Empty);
                            sut(|| drop(x));
                            Ok(0)
                        }))?;
                        w.slots[o] = None;
                    }
                }
            },
            _ => {}
        }
    }
    w.run.drain()?;
    if matches!(plan.prop.as_str(), "C01" | "C03" | "C09" | "C10" | "C15") {
        w.audit(plan.prop == "C03")?;
    }
    w.finish()
}

fn read_op(o: &mut Obj, m: &Mod, a: &[u64]) -> R<u64> {
    let (k, x, y, b, lv) = (a[1], a[2], a[3], a[4], a[5]);
    match (&*o, m) {
        (Obj::G(g), Mod::G(m)) => match k {
            0 | 1 => point_queries(g, m, x, y).map(|_| 1),
            2 => same_graph("read", g, m).map(|_| 2),
            3 | 4 => check_pool(g, m, b),
            5 => check_approx(g, m, b, lv as f64 / 69.0),
            6 | 7 => {
                let z = sut(|| g.compress(lv as u8));
                let w = m.compressed(lv as u8);
                same_comp("read", &z, &w, k == 6)?;
                Ok(w.hash())
            }
            8 => {
                let by = sut(|| g.to_bytes()).map_err(|e| Viol::new("read:to_bytes", format!("{e}")))?;
                match read_graph(&by) {
                    Meaning::Exact(d) if d == *m => Ok(8),
                    _ => bad("read:to_bytes", "image does not say what the graph says".into()),
                }
            }
            9 => {
                let c = sut(|| g.clone());
                same_graph("read:clone", &c, m)?;
                sut(|| drop(c));
                Ok(9)
            }
            10 => {
                if m.vc > 24 {
                    return same_graph("read", g, m).map(|_| 2);
                }
                let s = sut(|| g.matrix_string()).map_err(|e| Viol::new("read:matrix_string", format!("{e}")))?;
                matrix_text("read", &s, m)?;
                Ok(10)
            }
            _ => {
                let im = m.image(x | 1);
                let d = sut(|| Graph::try_from(im.as_slice())).map_err(|e| Viol::new("read:decode", format!("{e}")))?;
                same_graph("read:decode", &d, m)?;
                Ok(11)
            }
        },
        (Obj::Z(z), Mod::Z(m)) => match k {
            0..=2 => {
                let e = sut(|| z.does_edge_exist(x, y));
                ensure!(e == m.has(x, y), "read:does_edge_exist", "compressed does_edge_exist({x}, {y}) = {e}");
                Ok(1)
            }
            3..=5 => same_comp("read", z, m, false).map(|_| 3),
            6 | 7 => same_comp("read", z, m, true).map(|_| 6),
            8 => {
                let by = sut(|| z.to_bytes()).map_err(|e| Viol::new("read:to_bytes", format!("{e}")))?;
                match read_comp(&by) {
                    Meaning::Exact(d) if d == *m => Ok(8),
                    _ => bad("read:to_bytes", "image does not say what the compressed graph says".into()),
                }
            }
            9 => {
                let c = sut(|| z.clone());
                same_comp("read:clone", &c, m, false)?;
                Ok(9)
            }
            10 => {
                if comp_dim(m.vc) <= 12 {
                    let s = sut(|| z.matrix_string()).map_err(|e| Viol::new("read:matrix_string", format!("{e}")))?;
                    let again = sut(|| z.matrix_string()).map_err(|e| Viol::new("read:matrix_string", format!("{e}")))?;
                    ensure!(s == again, "read:matrix_string", "two renderings of one compressed graph differ");
                }
                Ok(10)
            }
            _ => {
                let im = m.image(x | 1);
                let d = sut(|| CompressedGraph::try_from(im.as_slice())).map_err(|e| Viol::new("read:decode", format!("{e}")))?;
                same_comp("read:decode", &d, m, false)?;
                Ok(11)
            }
        },
        (Obj::P(p), Mod::P(m)) => match k {
            0..=5 => same_pool("read", p, m),
            6..=8 => {
                let c = sut(|| p.clone());
                same_pool("read:clone", &c, m)
            }
            _ => {
                if m.dim <= 16 {
                    let s = sut(|| p.to_string_with_precision((lv % 5) as usize)).map_err(|e| Viol::new("read:text", format!("{e}")))?;
                    let again = sut(|| p.to_string_with_precision((lv % 5) as usize)).map_err(|e| Viol::new("read:text", format!("{e}")))?;
                    ensure!(s == again, "read:text", "two renderings of one matrix differ");
                }
                Ok(12)
            }
        },
        _ => bad("harness", "read of the wrong kind".into()),
    }
}

#[allow(dead_code)]
fn unused(c: &Cell) {
    let _ = (c.b(), c.p(), c.z());
}
