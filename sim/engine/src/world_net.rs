//! The replication world (C08): nodes, each a process of its own with its own hash seed, hold
//! replicas of one graph and exchange edits over a network that loses, repeats, reorders and
//! delays messages, splits and heals, while nodes stall, crash and come back from a snapshot.
//!
//! Two protocols (both stubs, simple on purpose). `log = 0`: edits only add and may be applied in
//! any order, any number of times. `log = 1`: edits have a position in one log; a node applies
//! them in order, and after a restart from a snapshot it may apply again some it already had.
use crate::alloc;
use crate::gen::*;
use crate::model::*;
use crate::obs::*;
use crate::plan::*;
use crate::rng::*;
use crate::run::*;
use crate::seams::*;
use crate::world_disk::{is_format_error, says, Obj, M};
use crate::world_obj::{check_approx, check_pool};
use graphrox::matrix::MatrixRepresentation;
use graphrox::{Graph, GraphRepresentation};
use std::cell::UnsafeCell;
use std::collections::BTreeSet;
use std::convert::TryFrom;
use std::sync::{Arc, Mutex};

struct Cell(UnsafeCell<Obj>);
unsafe impl Send for Cell {}
unsafe impl Sync for Cell {}
impl Cell {
    fn new(o: Obj) -> Arc<Cell> {
        Arc::new(Cell(UnsafeCell::new(o)))
    }
    #[allow(clippy::mut_from_ref)]
    fn at(&self) -> &mut Obj {
        unsafe { &mut *self.0.get() }
    }
    fn g(&self) -> &mut Graph {
        match self.at() {
            Obj::G(g) => g,
            _ => panic!("harness: node without a graph"),
        }
    }
}

#[derive(Clone, Debug)]
enum Edit {
    Edge(u64, u64),
    Del(u64, u64),
    Vertex(u64, Vec<u64>),
    Bulk(Arc<Vec<(u64, u64)>>),
}

fn apply(g: &mut Graph, e: &Edit) {
    match e {
        Edit::Edge(a, b) => g.add_edge(*a, *b),
        Edit::Del(a, b) => g.delete_edge(*a, *b),
        Edit::Vertex(v, to) => g.add_vertex(*v, Some(to)),
        Edit::Bulk(l) => l.iter().for_each(|(a, b)| g.add_edge(*a, *b)),
    }
}
fn apply_model(g: &mut MGraph, e: &Edit) {
    match e {
        Edit::Edge(a, b) => {
            g.add_edge(*a, *b);
        }
        Edit::Del(a, b) => {
            g.del_edge(*a, *b);
        }
        Edit::Vertex(v, to) => g.add_vertex(*v, to),
        Edit::Bulk(l) => l.iter().for_each(|(a, b)| {
            g.add_edge(*a, *b);
        }),
    }
}

struct Msg {
    to: usize,
    edit: usize,
    due: u64,
}

struct Node {
    cell: Arc<Cell>,
    model: MGraph,
    have: BTreeSet<usize>,
    /// log = 1: how far it has applied, and what waits.
    next: usize,
    waiting: BTreeSet<usize>,
    /// The last snapshot it took: image, what it covers.
    snap: Arc<Mutex<Option<Vec<u8>>>>,
    snap_have: BTreeSet<usize>,
    snap_next: usize,
    snap_model: MGraph,
    stalled_until: u64,
}

struct Net<'a> {
    run: &'a mut Run,
    nodes: Vec<Node>,
    edits: Vec<Edit>,
    flight: Vec<Msg>,
    side: Vec<u64>,
    log: bool,
    und: bool,
}

impl Net<'_> {
    fn obj(&self, n: usize) -> usize {
        n
    }
    fn deliver(&mut self, n: usize, edit: usize, pre: &[Pre]) -> R<()> {
        let mut todo = vec![];
        let node = &mut self.nodes[n];
        if self.log {
            if edit >= node.next {
                node.waiting.insert(edit);
            }
            while node.waiting.remove(&node.next) {
                todo.push(node.next);
                node.next += 1;
            }
        } else {
            todo.push(edit);
        }
        if todo.is_empty() {
            return Ok(());
        }
        self.apply_all(n, todo, pre)
    }
    fn apply_all(&mut self, n: usize, todo: Vec<usize>, pre: &[Pre]) -> R<()> {
        let list: Vec<Edit> = todo.iter().map(|i| self.edits[*i].clone()).collect();
        let node = &mut self.nodes[n];
        for (i, e) in todo.iter().zip(&list) {
            apply_model(&mut node.model, e);
            node.have.insert(*i);
        }
        let h = node.model.hash();
        self.run.fp(mix(h, n as u64));
        let c = node.cell.clone();
        let o = self.obj(n);
        self.run.submit(n, &[(o, true)], pre, Box::new(move || {
            let g = c.g();
            sut(|| list.iter().for_each(|e| apply(g, e)));
            Ok(1)
        }))
    }
    fn pump(&mut self) -> R<()> {
        let now = self.run.step;
        let mut i = 0;
        while i < self.flight.len() {
            let m = &self.flight[i];
            if m.due <= now && self.nodes[m.to].stalled_until <= now {
                let m = self.flight.remove(i);
                self.deliver(m.to, m.edit, &[])?;
            } else {
                i += 1;
            }
        }
        Ok(())
    }
    fn linked(&self, a: usize, b: usize) -> bool {
        a == b || self.side[a] == self.side[b]
    }
    fn check(&mut self, n: usize, what: &'static str, pre: &[Pre]) -> R<()> {
        let c = self.nodes[n].cell.clone();
        let m = self.nodes[n].model.clone();
        let o = self.obj(n);
        self.run.ctr(Ctr::comparisons, 1);
        self.run.submit(n, &[(o, false)], pre, Box::new(move || {
            says(what, c.at(), &M::G(m.clone()))?;
            Ok(m.hash())
        }))
    }
    /// A restart: memory is gone; the last snapshot, if any, and the log remain. `whole`: or a
    /// snapshot another node just took.
    fn restart(&mut self, n: usize, from: usize, back: usize, pre: &[Pre]) -> R<()> {
        self.run.ctr(Ctr::f_node_crash, 1);
        self.run.kill_client(n)?;
        let img = self.nodes[from].snap.lock().unwrap().clone();
        let (have, next, model) = match &img {
            Some(_) => {
                let f = &self.nodes[from];
                (f.snap_have.clone(), f.snap_next, f.snap_model.clone())
            }
            None => (BTreeSet::new(), 0, MGraph::new(self.und)),
        };
        let und = self.und;
        let cell = Cell::new(Obj::Empty);
        let c = cell.clone();
        let had: BTreeSet<usize> = self.nodes[n].have.clone();
        {
            let node = &mut self.nodes[n];
            node.cell = cell;
            node.model = model.clone();
            node.have = have.clone();
            node.next = next;
            node.waiting.clear();
            // What it takes from another node is now its own.
            if from != n && img.is_some() {
                node.snap = Arc::new(Mutex::new(img.clone()));
                node.snap_have = have.clone();
                node.snap_next = next;
                node.snap_model = model.clone();
            }
        }
        if img.is_some() {
            self.run.ctr(Ctr::snapshots_installed, 1);
        }
        let o = self.obj(n);
        self.run.submit(n, &[(o, true)], pre, Box::new(move || {
            *c.at() = match img {
                None => Obj::G(sut(|| if und { Graph::new_undirected() } else { Graph::new_directed() })),
                Some(b) => match sut(|| Graph::try_from(b.as_slice())) {
                    Ok(g) => Obj::G(g),
                    Err(e) => return bad("snapshot:refused", format!("a node's own snapshot of {} bytes was refused: {e}", b.len())),
                },
            };
            says("snapshot", c.at(), &M::G(model.clone()))?;
            Ok(model.hash())
        }))?;
        // The edits it had are in its log (or will be sent again); some of them, and some that
        // the snapshot already covers, are applied again.
        if self.log {
            let top = had.iter().max().map(|x| x + 1).unwrap_or(0).max(next);
            let start = next.saturating_sub(back);
            let todo: Vec<usize> = (start..top).collect();
            if start < next {
                self.run.ctr(Ctr::retries_after_fault, (next - start) as u64);
            }
            self.nodes[n].next = top;
            if !todo.is_empty() {
                self.apply_all(n, todo, &[])?;
            }
        } else {
            let todo: Vec<usize> = had.iter().copied().filter(|i| !have.contains(i) || i % 3 < back % 3).collect();
            if !todo.is_empty() {
                self.apply_all(n, todo, &[])?;
            }
        }
        Ok(())
    }
}

#[derive(PartialEq, Clone)]
struct Derived {
    pool: (u64, u64, Vec<(u64, u64, u64)>),
    pool_text: Option<String>,
    approx: MGraph,
    text: Option<String>,
    image: Vec<u8>,
    zimage: Vec<u8>,
    ztext: Option<String>,
    back: MGraph,
}

fn sorted_image(b: &[u8], h: usize, r: usize) -> Vec<u8> {
    let (a, t) = b.split_at(h.min(b.len()));
    let mut recs: Vec<&[u8]> = t.chunks(r).collect();
    recs.sort_unstable();
    let mut v = a.to_vec();
    recs.iter().for_each(|r| v.extend_from_slice(r));
    v
}

fn derive(g: &Graph, b: u64, t: f64, lv: u8) -> R<Derived> {
    let fail = |e: graphrox::error::GraphRoxError| Viol::new("derived:error", format!("{e}"));
    let p = sut(|| g.find_avg_pool_matrix(b));
    let mut l: Vec<(u64, u64, u64)> = sut(|| (&p).into_iter().collect::<Vec<_>>()).iter().map(|(v, c, r)| (*c, *r, v.to_bits())).collect();
    l.sort_unstable();
    let (d, n) = sut(|| (p.dimension(), p.entry_count()));
    let a = sut(|| g.approximate(b, t));
    let z = sut(|| g.compress(lv));
    let vc = sut(|| g.vertex_count());
    Ok(Derived {
        pool_text: if d <= 24 { Some(sut(|| p.to_string_with_precision(3)).map_err(fail)?) } else { None },
        pool: (d, n, l),
        approx: observe(&a)?,
        text: if vc <= 24 { Some(sut(|| g.matrix_string()).map_err(fail)?) } else { None },
        image: sorted_image(&sut(|| g.to_bytes()).map_err(fail)?, 26, 16),
        zimage: sorted_image(&sut(|| z.to_bytes()).map_err(fail)?, 42, 24),
        ztext: if vc <= 200 { Some(sut(|| z.matrix_string()).map_err(fail)?) } else { None },
        back: observe(&sut(|| z.decompress()))?,
    })
}

pub fn exec(plan: &Plan, run: &mut Run) -> R<()> {
    let count = run.clients.len();
    let und = plan.get("und") == 1;
    let log = plan.get("log") == 1;
    let nodes = (0..count)
        .map(|_| Node {
            cell: Cell::new(Obj::Empty),
            model: MGraph::new(und),
            have: BTreeSet::new(),
            next: 0,
            waiting: BTreeSet::new(),
            snap: Arc::new(Mutex::new(None)),
            snap_have: BTreeSet::new(),
            snap_next: 0,
            snap_model: MGraph::new(und),
            stalled_until: 0,
        })
        .collect();
    let mut net = Net { run, nodes, edits: vec![], flight: vec![], side: vec![0; count], log, und };
    for n in 0..count {
        let c = net.nodes[n].cell.clone();
        net.run.submit(n, &[(n, true)], &[], Box::new(move || {
            *c.at() = Obj::G(sut(|| if und { Graph::new_undirected() } else { Graph::new_directed() }));
            Ok(0)
        }))?;
    }
    for st in &plan.steps {
        net.run.tick()?;
        net.pump()?;
        let n = st.client as usize % count;
        match st.op.as_str() {
            "edge" | "del" | "vert" | "bulk" => {
                let e = match st.op.as_str() {
                    "edge" => Edit::Edge(st.a(1), st.a(2)),
                    "del" if log => Edit::Del(st.a(1), st.a(2)),
                    "del" => Edit::Edge(st.a(2), st.a(1)),
                    "vert" => Edit::Vertex(st.a(1), st.args.get(3..).unwrap_or(&[]).iter().copied().filter(|x| *x != u64::MAX).collect()),
                    _ => Edit::Bulk(Arc::new(pattern(st.a(1), st.a(2), st.a(3), st.a(4)))),
                };
                net.edits.push(e);
                let i = net.edits.len() - 1;
                // The fate of the message to each node, from one number.
                let mut r = Rng::new(st.a(0) ^ 0xFA7E);
                let lossy = st.a(0) % 4;
                for to in 0..count {
                    if to == n && !log {
                        continue;
                    }
                    if !net.linked(n, to) {
                        continue;
                    }
                    if to != n && r.below(4) < lossy.min(2) {
                        net.run.ctr(Ctr::f_msg_drop, 1);
                        continue;
                    }
                    let copies = 1 + (r.chance(20) as u64) + (r.chance(5) as u64);
                    for k in 0..copies {
                        let delay = if r.chance(50) { 0 } else { r.log(30) };
                        if k > 0 {
                            net.run.ctr(Ctr::f_msg_dup, 1);
                        }
                        if delay > 0 {
                            net.run.ctr(Ctr::f_msg_delay, 1);
                        }
                        let due = net.run.step + delay;
                        if net.flight.iter().any(|m| m.to == to && m.due > due) {
                            net.run.ctr(Ctr::f_msg_reorder, 1);
                        }
                        net.flight.push(Msg { to, edit: i, due });
                    }
                }
                net.deliver(n, i, &st.pre)?;
                net.run.ctr(Ctr::edges_added, 1);
            }
            "split" => {
                for k in 0..count {
                    net.side[k] = st.a(0) >> k & 1;
                }
                let side = net.side.clone();
                let before = net.flight.len();
                if st.a(1) % 2 == 0 {
                    // messages in flight across the cut are lost, those sent by the log head too
                    net.flight.retain(|m| side[m.to] == 0 || m.due % 2 == 0);
                }
                let lost = before - net.flight.len();
                net.run.ctr(Ctr::f_msg_drop, lost as u64);
                net.run.ctr(Ctr::f_partition, 1);
            }
            "heal" => {
                net.side.fill(0);
                net.run.ctr(Ctr::f_heal, 1);
            }
            "stall" => {
                net.nodes[n].stalled_until = net.run.step + st.a(0) % 40;
                net.run.ctr(Ctr::f_node_stall, 1);
            }
            "gossip" => {
                // One node sends another what it lacks, oldest or newest first.
                let to = st.a(0) as usize % count;
                if to == n || !net.linked(n, to) {
                    continue;
                }
                let mut miss: Vec<usize> = net.nodes[n].have.difference(&net.nodes[to].have).copied().collect();
                if st.a(1) % 3 == 0 {
                    miss = net.nodes[n].have.iter().copied().collect();
                    net.run.ctr(Ctr::f_msg_dup, 1);
                }
                shuffle(&mut miss, st.a(1));
                miss.truncate(1 + (st.a(2) % 20) as usize);
                for i in miss {
                    net.deliver(to, i, &[])?;
                }
            }
            "snap" => {
                let (c, s, m) = (net.nodes[n].cell.clone(), net.nodes[n].snap.clone(), net.nodes[n].model.clone());
                let node = &mut net.nodes[n];
                node.snap_have = node.have.clone();
                node.snap_next = node.next;
                node.snap_model = node.model.clone();
                let o = net.obj(n);
                net.run.submit(n, &[(o, false)], &st.pre, Box::new(move || {
                    let b = sut(|| c.g().to_bytes()).map_err(|e| Viol::new("snapshot:to_bytes", format!("{e}")))?;
                    ensure!(matches!(read_graph(&b), Meaning::Exact(x) if x == m), "snapshot:image", "a node's snapshot of {} bytes does not say what the node holds", b.len());
                    *s.lock().unwrap() = Some(b);
                    Ok(m.hash())
                }))?;
                net.run.settle(n)?;
            }
            "crash" => {
                let from = if st.a(0) % 3 == 0 { st.a(1) as usize % count } else { n };
                let from = if net.nodes[from].snap.lock().unwrap().is_some() { from } else { n };
                net.restart(n, from, (st.a(2) % 12) as usize, &st.pre)?;
            }
            "chunk" => {
                // A snapshot crosses the network in pieces and one is lost: the receiver must
                // notice, and the retry must work.
                let img = net.nodes[n].snap.lock().unwrap().clone();
                let Some(b) = img else { continue };
                let (piece, lost) = ((st.a(1) as usize % 64 + 1) * 8, st.a(2) as usize);
                let m = net.nodes[n].snap_model.clone();
                let to = st.a(0) as usize % count;
                net.run.ctr(Ctr::f_chunk_corrupt, 1);
                net.run.submit(to, &[], &st.pre, Box::new(move || {
                    let parts: Vec<&[u8]> = b.chunks(piece).collect();
                    let k = lost % parts.len();
                    let got: Vec<u8> = parts.iter().enumerate().filter(|(i, _)| *i != k).flat_map(|(_, p)| p.iter().copied()).collect();
                    match sut(|| Graph::try_from(got.as_slice())) {
                        Ok(_) => return bad("snapshot:accepted", format!("a snapshot that lost {piece} of its {} bytes was installed", b.len())),
                        Err(e) => ensure!(is_format_error(&e), "snapshot:error_kind", "{e:?}"),
                    }
                    match sut(|| Graph::try_from(b.as_slice())) {
                        Ok(g) => says("snapshot", &mut Obj::G(g), &M::G(m.clone()))?,
                        Err(e) => return bad("snapshot:refused", format!("the complete snapshot was refused: {e}")),
                    }
                    Ok(m.hash())
                }))?;
            }
            "look" => net.check(n, "replica", &st.pre)?,
            _ => {}
        }
    }
    // Faults stop. Within one exchange everybody has everything.
    net.run.drain()?;
    net.side.fill(0);
    let all = net.edits.len();
    let mut r = Rng::new(plan.get("entropy"));
    for n in 0..count {
        net.nodes[n].stalled_until = 0;
        let mut miss: Vec<usize> = (0..all).filter(|i| if log { *i >= net.nodes[n].next } else { !net.nodes[n].have.contains(i) }).collect();
        shuffle(&mut miss, r.next() | 1);
        for i in miss {
            net.deliver(n, i, &[])?;
        }
        if log && net.nodes[n].next != all {
            return bad("harness", format!("node {n} is at {} of {all}", net.nodes[n].next));
        }
    }
    let mut want = MGraph::new(und);
    net.edits.iter().for_each(|e| apply_model(&mut want, e));
    let mut seen: Option<Derived> = None;
    let mut derivs: Vec<(u64, f64, u8)> = vec![];
    for i in 0..2u64 {
        let b = if i == 0 { plan.get("b") } else { plan.get("b2") };
        derivs.push((b, plan.get("t") as f64 / 1000.0, (plan.get("lv") >> (8 * i)) as u8));
    }
    for (k, (b, t, lv)) in derivs.iter().enumerate() {
        for n in 0..count {
            if k == 0 {
                if net.nodes[n].model != want {
                    return bad("harness", "the model of a node did not converge".into());
                }
                net.check(n, "converged", &[])?;
            }
            net.run.ctr(Ctr::converged_checks, 1);
            net.run.ctr(Ctr::derivations, 4);
            let (c, w) = (net.nodes[n].cell.clone(), want.clone());
            let (b, t, lv) = (*b, *t, *lv);
            let (tx, rx) = std::sync::mpsc::channel();
            net.run.submit(n, &[], &[], Box::new(move || {
                let g = c.g();
                let d = derive(g, b, t, lv)?;
                check_pool(g, &w, b)?;
                check_approx(g, &w, b, t)?;
                let z = w.compressed(lv);
                ensure!(d.zimage == z.image(0).as_slice() || sorted_image(&z.image(0), 42, 24) == d.zimage, "derived:compressed", "compressing at level {lv} gives {} bytes, not what the graph says", d.zimage.len());
                let _ = tx.send(d);
                Ok(w.hash())
            }))?;
            net.run.drain()?;
            let Ok(d) = rx.try_recv() else { return bad("harness", "no derivation".into()) };
            match &seen {
                Some(s) if k == 0 || n > 0 => {
                    let what = if s.pool != d.pool {
                        "pooling matrices"
                    } else if s.approx != d.approx {
                        "approximations"
                    } else if s.text != d.text || s.pool_text != d.pool_text || s.ztext != d.ztext {
                        "renderings"
                    } else if s.image != d.image {
                        "images"
                    } else if s.zimage != d.zimage || s.back != d.back {
                        "compressed graphs"
                    } else {
                        ""
                    };
                    ensure!(what.is_empty(), "derived:diverged", "nodes 0 and {n} hold the same graph but derive different {what} (block dimension {b}, threshold {t}, level {lv})");
                }
                _ => seen = Some(d),
            }
        }
    }
    alloc::check_quarantine();
    if let Some(e) = alloc::take_error() {
        return bad("memory", e);
    }
    Ok(())
}

pub fn gen(prop: &str, r: &mut Rng, seed: u64, idx: u64) -> Plan {
    let mut p = Plan::new(prop, seed, idx);
    p.set("entropy", r.next() >> 1);
    let callers = r.range(2, 5);
    p.set("callers", callers);
    p.set("und", r.below(2));
    p.set("log", r.below(2));
    p.set("b", if r.chance(70) { r.range(1, 12) } else { r.log(u64::MAX) });
    p.set("b2", r.range(2, 40));
    let t = r.below(1001);
    p.set("t", r.pick(&[0, 1, 10, 15, 20, 62, 111, 125, 250, 333, 500, 900, 1000, t]));
    p.set("lv", r.range(1, 3) | r.below(65) << 8);
    let ids = if r.chance(60) { small_pool(r) } else { id_pool(r) };
    let n = match r.below(10) {
        0..=2 => r.range(4, 15),
        3..=7 => r.range(15, 50),
        _ => r.range(50, 150),
    };
    let lossy = r.below(4);
    let mut big = r.chance(4);
    for _ in 0..n {
        let c = r.below(callers);
        let fate = (r.next() >> 34) << 2 | if r.chance(70) { lossy } else { r.below(4) };
        match r.weighted(&[46, 16, 6, 5, 4, 4, 3, 10, 7, 7, 3, 5]) {
            0 => {
                let a = r.pick(&ids);
                let b = if r.chance(10) { a } else { r.pick(&ids) };
                p.push(c, "edge", vec![fate, a, b])
            }
            1 => {
                let (a, b) = (r.pick(&ids), r.pick(&ids));
                p.push(c, "del", vec![fate, a, b])
            }
            2 => {
                let mut v = vec![fate, r.pick(&ids), 0];
                for _ in 0..r.below(4) {
                    v.push(r.pick(&ids));
                }
                p.push(c, "vert", v)
            }
            3 => {
                let b = big && r.chance(30);
                let mut v = vec![fate];
                v.extend(bulk_args(r, b));
                if callers > 2 {
                    v[2] = v[2].min(10_001);
                }
                big = big && !b;
                p.push(c, "bulk", v)
            }
            4 => p.push(c, "split", vec![r.below(1 << callers), r.below(2)]),
            5 => p.push(c, "heal", vec![]),
            6 => p.push(c, "stall", vec![r.below(40)]),
            7 => p.push(c, "gossip", vec![r.below(callers), r.next() >> 40, r.below(20)]),
            8 => p.push(c, "snap", vec![]),
            9 => p.push(c, "crash", vec![r.below(6), r.below(callers), r.below(12)]),
            10 => p.push(c, "chunk", vec![r.below(callers), r.below(64), r.below(1000)]),
            _ => p.push(c, "look", vec![]),
        };
    }
    sprinkle(r, &mut p, 40, 6);
    for i in (0..p.steps.len()).rev() {
        if !p.steps[i].pre.is_empty() && r.chance(35) {
            // The node dies while the operation is parked.
            p.steps[i].pre.truncate(1);
            p.steps[i].pre[0].hold = 4;
            let s = Step { client: p.steps[i].client, op: "crash".into(), args: vec![r.below(6), r.below(callers), r.below(12)], pre: vec![] };
            p.steps.insert(i + 1, s);
        }
    }
    p
}
