//! The disk world (C04, C05): processes on one machine keep graphs in memory, save them to a
//! simulated disk and load what others saved. The machine crashes between any two disk events, or
//! while an encoder or decoder is between two instructions; only what the disk made durable
//! survives. An "old build" reads and writes the same files through the reference codec.
use crate::alloc;
use crate::gen::*;
use crate::model::*;
use crate::obs::*;
use crate::plan::*;
use crate::rng::*;
use crate::run::*;
use crate::seams::*;
use graphrox::error::GraphRoxError;
use graphrox::{CompressedGraph, Graph, GraphRepresentation};
use std::cell::UnsafeCell;
use std::collections::BTreeMap;
use std::convert::TryFrom;
use std::sync::{Arc, Mutex};

pub enum Obj {
    Empty,
    G(Graph),
    Z(CompressedGraph),
}
pub struct Cell(UnsafeCell<Obj>);
unsafe impl Send for Cell {}
unsafe impl Sync for Cell {}
impl Cell {
    fn new() -> Arc<Cell> {
        Arc::new(Cell(UnsafeCell::new(Obj::Empty)))
    }
    #[allow(clippy::mut_from_ref)]
    fn at(&self) -> &mut Obj {
        unsafe { &mut *self.0.get() }
    }
    fn g(&self) -> &mut Graph {
        match self.at() {
            Obj::G(g) => g,
            _ => panic!("harness: not a graph"),
        }
    }
    fn z(&self) -> &mut CompressedGraph {
        match self.at() {
            Obj::Z(g) => g,
            _ => panic!("harness: not a compressed graph"),
        }
    }
}

#[derive(Clone, PartialEq, Debug)]
pub enum M {
    G(MGraph),
    Z(MComp),
}
impl M {
    fn hash(&self) -> u64 {
        match self {
            M::G(g) => g.hash(),
            M::Z(z) => z.hash() ^ 1,
        }
    }
    fn image(&self, order: u64) -> Vec<u8> {
        match self {
            M::G(g) => g.image(order),
            M::Z(z) => z.image(order),
        }
    }
}

// ---------------------------------------------------------------- the disk

enum W {
    Write(usize, Vec<u8>),
    Trunc(usize),
}
#[derive(Default)]
struct Inode {
    durable: Vec<u8>,
    live: Vec<u8>,
    pending: Vec<W>,
}
enum D {
    Create(String, usize),
    Rename(String, String),
    Unlink(String),
}
#[derive(Default)]
struct Disk {
    inodes: Vec<Inode>,
    dir: BTreeMap<String, usize>,
    durable_dir: BTreeMap<String, usize>,
    pending_dir: Vec<D>,
    sector: usize,
    /// Set when the power goes; nothing more happens until the restart.
    dead: Option<u64>,
    /// Every complete image anybody tried to save, with its meaning.
    images: BTreeMap<Vec<u8>, M>,
    /// What each name must hold if nothing else succeeded: only names written atomically.
    acked: BTreeMap<String, Vec<u8>>,
    maybe: BTreeMap<String, Vec<Vec<u8>>>,
    temp: u64,
    count: BTreeMap<usize, u64>,
}

enum Err {
    Dead,
    Io,
}

#[derive(Clone, Copy)]
struct Faults {
    /// 0 none, 1 short writes, 2 EIO on write, 3 ENOSPC, 4 EIO on sync
    kind: u64,
    at: u64,
    /// Power fails before this disk event (if it is reached).
    crash_at: u64,
    crash_seed: u64,
}

fn put_at(v: &mut Vec<u8>, off: usize, data: &[u8]) {
    if v.len() < off + data.len() {
        v.resize(off + data.len(), 0);
    }
    v[off..off + data.len()].copy_from_slice(data);
}

impl Disk {
    fn tally(&mut self, c: Ctr) {
        *self.count.entry(c as usize).or_insert(0) += 1;
    }
    fn event(&mut self, ev: &mut u64, f: &Faults, stage: Ctr) -> Result<(), Err> {
        if self.dead.is_some() {
            return Err(Err::Dead);
        }
        *ev += 1;
        if *ev > f.crash_at {
            self.dead = Some(f.crash_seed);
            self.tally(stage);
            return Err(Err::Dead);
        }
        Ok(())
    }
    fn create(&mut self, name: &str) -> usize {
        self.inodes.push(Inode::default());
        let i = self.inodes.len() - 1;
        self.dir.insert(name.into(), i);
        self.pending_dir.push(D::Create(name.into(), i));
        i
    }
    fn write(&mut self, ino: usize, off: usize, data: &[u8]) {
        let n = &mut self.inodes[ino];
        put_at(&mut n.live, off, data);
        n.pending.push(W::Write(off, data.to_vec()));
    }
    fn sync(&mut self, ino: usize) {
        let n = &mut self.inodes[ino];
        n.durable = n.live.clone();
        n.pending.clear();
    }
    fn sync_dir(&mut self) {
        self.durable_dir = self.dir.clone();
        self.pending_dir.clear();
    }
    fn read(&self, name: &str) -> Option<&Vec<u8>> {
        self.dir.get(name).map(|i| &self.inodes[*i].live)
    }
    /// Writes `data` in pieces, the way an application would.
    fn write_all(&mut self, ino: usize, data: &[u8], chunk: usize, ev: &mut u64, f: &Faults) -> Result<(), Err> {
        let mut off = 0;
        let mut n = 0;
        while off < data.len() {
            self.event(ev, f, Ctr::f_crash_mid_write)?;
            n += 1;
            let mut k = chunk.min(data.len() - off);
            match f.kind {
                1 if n % 2 == 1 && k > 1 => {
                    k = 1 + (f.at as usize + n) % k;
                    self.tally(Ctr::f_short_write);
                }
                2 if n as u64 > f.at % 8 => {
                    self.tally(Ctr::f_eio_write);
                    return Err(Err::Io);
                }
                3 if off + k > (f.at % (data.len() as u64 + 1)) as usize => {
                    let fits = ((f.at % (data.len() as u64 + 1)) as usize).saturating_sub(off);
                    self.write(ino, off, &data[off..off + fits]);
                    self.tally(Ctr::f_enospc);
                    return Err(Err::Io);
                }
                _ => {}
            }
            self.write(ino, off, &data[off..off + k]);
            off += k;
        }
        Ok(())
    }
    fn save(&mut self, name: &str, data: &[u8], mode: u64, chunk: usize, f: &Faults) -> Result<(), Err> {
        let mut ev = 0;
        let ino;
        let tmp = format!("{name}.tmp{}", self.temp);
        self.temp += 1;
        self.event(&mut ev, f, Ctr::f_crash_mid_write)?;
        if mode == 0 {
            ino = self.create(&tmp);
            self.maybe.entry(name.into()).or_default().push(data.to_vec());
        } else {
            ino = match self.dir.get(name) {
                Some(i) => *i,
                None => self.create(name),
            };
            self.acked.remove(name);
            self.maybe.remove(name);
            if mode == 1 {
                let n = &mut self.inodes[ino];
                n.live.clear();
                n.pending.push(W::Trunc(0));
            }
        }
        let r = self.write_all(ino, data, chunk, &mut ev, f);
        if let Err(e) = r {
            if matches!(e, Err::Io) && mode == 0 {
                self.dir.remove(&tmp);
                self.pending_dir.push(D::Unlink(tmp));
            }
            return Err(e);
        }
        if mode == 2 {
            self.event(&mut ev, f, Ctr::f_crash_mid_write)?;
            let n = &mut self.inodes[ino];
            n.live.truncate(data.len());
            n.pending.push(W::Trunc(data.len()));
        }
        self.event(&mut ev, f, Ctr::f_crash_before_sync)?;
        if f.kind == 4 {
            self.tally(Ctr::f_eio_sync);
            return Err(Err::Io);
        }
        self.sync(ino);
        self.event(&mut ev, f, Ctr::f_crash_before_rename)?;
        if mode == 0 {
            self.dir.remove(&tmp);
            self.dir.insert(name.into(), ino);
            self.pending_dir.push(D::Rename(tmp, name.into()));
            self.event(&mut ev, f, Ctr::f_crash_before_rename)?;
        }
        self.sync_dir();
        if mode == 0 {
            self.acked.insert(name.into(), data.to_vec());
            self.maybe.remove(name);
        }
        Ok(())
    }
    /// Power is gone: decide what survives.
    fn crash(&mut self, seed: u64) -> R<()> {
        let mut r = Rng::new(seed ^ 0xC4A5);
        let sector = self.sector.max(1);
        let ops = std::mem::take(&mut self.pending_dir);
        let keep = r.below(ops.len() as u64 + 1) as usize;
        let mut dir = self.durable_dir.clone();
        for d in ops.into_iter().take(keep) {
            match d {
                D::Create(n, i) => {
                    dir.insert(n, i);
                }
                D::Rename(a, b) => {
                    if let Some(i) = dir.remove(&a) {
                        dir.insert(b, i);
                    }
                }
                D::Unlink(n) => {
                    dir.remove(&n);
                }
            }
        }
        let mut lost = 0;
        let mut torn = 0;
        let style = r.below(4);
        for n in self.inodes.iter_mut() {
            let mut v = n.durable.clone();
            for w in n.pending.drain(..) {
                match w {
                    W::Trunc(l) => {
                        if r.chance(70) {
                            v.resize(l, 0);
                        }
                    }
                    W::Write(off, data) => {
                        let mut i = 0;
                        while i < data.len() {
                            let end = (((off + i) / sector + 1) * sector - off).min(data.len());
                            let fate = match style {
                                0 => 0,
                                1 => 1,
                                _ => r.weighted(&[60, 25, 15]),
                            };
                            match fate {
                                0 => put_at(&mut v, off + i, &data[i..end]),
                                1 => lost += 1,
                                _ => {
                                    let k = r.below((end - i) as u64 + 1) as usize;
                                    put_at(&mut v, off + i, &data[i..i + k]);
                                    torn += 1;
                                }
                            }
                            i = end;
                        }
                        // The size may have reached the disk when the data did not.
                        if r.chance(30) && v.len() < off + data.len() {
                            v.resize(off + data.len(), 0);
                        }
                    }
                }
            }
            n.live = v.clone();
            n.durable = v;
        }
        *self.count.entry(Ctr::f_lost_sector as usize).or_insert(0) += lost;
        *self.count.entry(Ctr::f_torn_write as usize).or_insert(0) += torn;
        dir.retain(|n, _| !n.contains(".tmp"));
        self.dir = dir.clone();
        self.durable_dir = dir;
        self.dead = None;
        // The disk itself must have kept its promise.
        let names: Vec<String> = self.acked.keys().cloned().collect();
        for n in names {
            let have = self.read(&n).cloned();
            let ok = have.as_ref() == self.acked.get(&n)
                || self.maybe.get(&n).is_some_and(|l| l.iter().any(|x| Some(x) == have.as_ref()));
            if !ok {
                return bad("harness", format!("the simulated disk lost the acknowledged save of {n}"));
            }
            self.acked.insert(n, have.unwrap());
        }
        self.maybe.clear();
        Ok(())
    }
}

// ---------------------------------------------------------------- checks

fn encode(c: &Cell, m: &M) -> R<Vec<u8>> {
    let b = match m {
        M::G(_) => sut(|| c.g().to_bytes()),
        M::Z(_) => sut(|| c.z().to_bytes()),
    };
    let b = b.map_err(|e| Viol::new("save:to_bytes", format!("to_bytes failed: {e}")))?;
    check_image(&b, m)?;
    Ok(b)
}

/// The layout other builds rely on, and the meaning they would read.
pub fn check_image(b: &[u8], m: &M) -> R<()> {
    let want = match m {
        M::G(g) => 26 + 16 * g.edges.len(),
        M::Z(z) => 42 + 24 * z.blocks.len(),
    };
    ensure!(b.len() == want, "save:layout", "the image takes {} bytes instead of {want}", b.len());
    let r = match m {
        M::G(g) => match read_graph(b) {
            Meaning::Exact(x) if x == *g => Ok(()),
            Meaning::Exact(x) | Meaning::Either(x) => Err(format!("another build reads a different graph: {} vertices undirected={}, {}", x.vc, x.und, diff(&x.edges, &g.edges))),
            Meaning::Invalid(w) => Err(format!("another build refuses the image: {w}")),
        },
        M::Z(z) => match read_comp(b) {
            Meaning::Exact(x) if x == *z => Ok(()),
            Meaning::Exact(x) | Meaning::Either(x) => Err(format!("another build reads a different compressed graph: {} blocks, {} vertices, level {}, undirected={}", x.blocks.len(), x.vc, x.level, x.und)),
            Meaning::Invalid(w) => Err(format!("another build refuses the image: {w}")),
        },
    };
    r.or_else(|e| bad("save:image", e))
}

pub fn is_format_error(e: &GraphRoxError) -> bool {
    matches!(e, GraphRoxError::InvalidFormat(_))
}

fn meaning(b: &[u8], comp: bool) -> Meaning<M> {
    if comp {
        match read_comp(b) {
            Meaning::Exact(x) => Meaning::Exact(M::Z(x)),
            Meaning::Either(x) => Meaning::Either(M::Z(x)),
            Meaning::Invalid(w) => Meaning::Invalid(w),
        }
    } else {
        match read_graph(b) {
            Meaning::Exact(x) => Meaning::Exact(M::G(x)),
            Meaning::Either(x) => Meaning::Either(M::G(x)),
            Meaning::Invalid(w) => Meaning::Invalid(w),
        }
    }
}

/// Decodes and compares everything the result can say. Ok(None): refused.
pub fn decode(b: &[u8], comp: bool) -> R<Result<(Obj, M), String>> {
    if comp {
        match sut(|| CompressedGraph::try_from(b)) {
            Ok(z) => {
                let g = sut(|| z.decompress());
                let o = observe(&g)?;
                let lv = sut(|| z.compression_level());
                let mut m = o.compressed(1);
                m.level = lv;
                m.und = sut(|| z.is_undirected());
                m.vc = sut(|| z.vertex_count());
                Ok(Ok((Obj::Z(z), M::Z(m))))
            }
            Err(e) => {
                ensure!(is_format_error(&e), "load:error_kind", "refused with {e:?}");
                Ok(Err(format!("{e}")))
            }
        }
    } else {
        match sut(|| Graph::try_from(b)) {
            Ok(g) => {
                let m = observe(&g)?;
                Ok(Ok((Obj::G(g), M::G(m))))
            }
            Err(e) => {
                ensure!(is_format_error(&e), "load:error_kind", "refused with {e:?}");
                Ok(Err(format!("{e}")))
            }
        }
    }
}

pub fn says(what: &str, o: &mut Obj, m: &M) -> R<()> {
    match (o, m) {
        (Obj::G(g), M::G(m)) => {
            if m.edges.len() <= 400 {
                let mut probes: Vec<u64> = m.edges.iter().take(6).flat_map(|e| [e.0, e.1]).collect();
                probes.extend([0, m.vc, u64::MAX, m.vc.wrapping_sub(1)]);
                full_check(g, m, &probes).map_err(|v| Viol::new(&format!("{what}:{}", v.class), v.msg))
            } else {
                same_graph(what, g, m)
            }
        }
        (Obj::Z(z), M::Z(m)) => same_comp(what, z, m, true),
        _ => bad("harness", "kinds differ".into()),
    }
}

// ---------------------------------------------------------------- execution

struct Slot {
    cell: Arc<Cell>,
    model: M,
}

pub fn exec(plan: &Plan, run: &mut Run) -> R<()> {
    let comp = plan.prop == "C05";
    let disk = Arc::new(Mutex::new(Disk { sector: plan.get("sector") as usize, ..Default::default() }));
    let mut slots: Vec<Option<Slot>> = vec![];
    let names = plan.get("names").max(1);
    let mut base = 0usize; // objects of earlier boots have other indices
    fn pick(slots: &[Option<Slot>], i: u64, z: bool) -> Option<usize> {
        let live: Vec<usize> = (0..slots.len())
            .filter(|k| slots[*k].as_ref().is_some_and(|s| matches!(s.model, M::Z(_)) == z))
            .collect();
        (!live.is_empty()).then(|| live[(i % live.len() as u64) as usize])
    }
    for (at, st) in plan.steps.iter().enumerate() {
        run.tick()?;
        crash_if_dead(&disk, run, &mut slots, &mut base)?;
        let oph = st.op.bytes().fold(7u64, |a, b| mix(a, b as u64));
        match st.op.as_str() {
            "gnew" => {
                if slots.iter().flatten().count() > 8 {
                    continue;
                }
                let und = st.a(0) % 2 == 1;
                let c = Cell::new();
                slots.push(Some(Slot { cell: c.clone(), model: M::G(MGraph::new(und)) }));
                run.ctr(Ctr::graphs_made, 1);
                let o = slots.len() - 1;
                run.submit(st.client as usize, &[(base + o, true)], &st.pre, Box::new(move || {
                    *c.at() = Obj::G(sut(|| if und { Graph::new_undirected() } else { Graph::new_directed() }));
                    Ok(1)
                }))?;
            }
            "gadd" | "gdel" | "gbulk" | "gunbulk" | "gvert" => {
                let Some(o) = pick(&slots, st.a(0), false) else { continue };
                let s = slots[o].as_mut().unwrap();
                let M::G(m) = &mut s.model else { continue };
                let vert = (st.op == "gvert").then(|| st.a(1));
                let list: Vec<(u64, u64)> = match st.op.as_str() {
                    "gadd" | "gdel" => vec![(st.a(1), st.a(2))],
                    "gvert" => vec![],
                    _ => pattern(st.a(1), st.a(2), st.a(3), st.a(4)),
                };
                let add = matches!(st.op.as_str(), "gadd" | "gbulk");
                for (a, b) in &list {
                    if add {
                        m.add_edge(*a, *b);
                    } else {
                        m.del_edge(*a, *b);
                    }
                }
                if let Some(v) = vert {
                    m.add_vertex(v, &[]);
                }
                run.fp(mix(m.hash(), oph));
                run.ctr(if add { Ctr::edges_added } else { Ctr::edges_deleted }, list.len() as u64);
                if list.len() > 5000 {
                    run.ctr(Ctr::big_graphs, 1);
                }
                let c = s.cell.clone();
                run.submit(st.client as usize, &[(base + o, true)], &st.pre, Box::new(move || {
                    let g = c.g();
                    sut(|| {
                        if let Some(v) = vert {
                            g.add_vertex(v, None);
                        }
                        for (a, b) in &list {
                            if add {
                                g.add_edge(*a, *b)
                            } else {
                                g.delete_edge(*a, *b)
                            }
                        }
                    });
                    Ok(2)
                }))?;
            }
            "zmk" => {
                let Some(o) = pick(&slots, st.a(0), false) else { continue };
                if slots.iter().flatten().count() > 10 {
                    continue;
                }
                let s = slots[o].as_ref().unwrap();
                let M::G(m) = &s.model else { continue };
                let lv = st.a(1) as u8;
                let z = m.compressed(lv);
                let (src, c) = (s.cell.clone(), Cell::new());
                slots.push(Some(Slot { cell: c.clone(), model: M::Z(z) }));
                let n = slots.len() - 1;
                run.ctr(Ctr::derivations, 1);
                run.submit(st.client as usize, &[(base + o, false), (base + n, true)], &st.pre, Box::new(move || {
                    *c.at() = Obj::Z(sut(|| src.g().compress(lv)));
                    Ok(3)
                }))?;
            }
            "unz" => {
                let Some(o) = pick(&slots, st.a(0), true) else { continue };
                if slots.iter().flatten().count() > 10 {
                    continue;
                }
                let s = slots[o].as_ref().unwrap();
                let M::Z(m) = &s.model else { continue };
                let (src, c, m) = (s.cell.clone(), Cell::new(), m.graph());
                slots.push(Some(Slot { cell: c.clone(), model: M::G(m) }));
                let n = slots.len() - 1;
                run.ctr(Ctr::derivations, 1);
                run.submit(st.client as usize, &[(base + o, false), (base + n, true)], &st.pre, Box::new(move || {
                    *c.at() = Obj::G(sut(|| src.z().decompress()));
                    Ok(3)
                }))?;
            }
            "save" => {
                let Some(o) = pick(&slots, st.a(0), comp) else { continue };
                let s = slots[o].as_ref().unwrap();
                let (c, m, d) = (s.cell.clone(), s.model.clone(), disk.clone());
                let name = format!("f{}", st.a(1) % names);
                let (mode, chunk) = (st.a(2) % 3, st.a(3).max(1) as usize);
                let f = Faults { kind: st.a(4) % 5, at: st.a(5), crash_at: st.a(6), crash_seed: st.a(7) };
                run.fp(mix(m.hash(), mix(oph, mix(f.kind, f.crash_at))));
                run.submit(st.client as usize, &[(base + o, false)], &st.pre, Box::new(move || {
                    let b = encode(&c, &m)?;
                    let mut d = d.lock().unwrap();
                    d.images.insert(b.clone(), m.clone());
                    match d.save(&name, &b, mode, chunk, &f) {
                        Ok(()) => d.tally(Ctr::saves_acked),
                        Err(_) => d.tally(Ctr::saves_failed),
                    }
                    // The record order is this process's own; the length and meaning are not.
                    Ok(mix(b.len() as u64, m.hash()))
                }))?;
            }
            "oldsave" => {
                // Another build of the same format version saves its copy of some object.
                let Some(o) = pick(&slots, st.a(0), comp) else { continue };
                let m = slots[o].as_ref().unwrap().model.clone();
                old_write(&disk, run, &m, st.a(1) % names, st.a(2), st.a(3))?;
            }
            "oldnew" => {
                let m = made_up(comp, st.a(0), &st.args[1..]);
                run.fp(mix(m.hash(), oph));
                old_write(&disk, run, &m, st.a(7) % names, st.a(2) ^ 5, st.a(6))?;
            }
            "load" => {
                if slots.iter().flatten().count() > 12 {
                    let k = slots.iter().position(|s| s.is_some()).unwrap();
                    drop_slot(run, &mut slots, k, base, st)?;
                }
                let name = format!("f{}", st.a(0) % names);
                let d = disk.clone();
                let c = Cell::new();
                let c2 = c.clone();
                // The meaning is settled now; whether it is decoded now or later, preempted or not.
                let (bytes, known) = {
                    let d = d.lock().unwrap();
                    let Some(b) = d.read(&name) else { continue };
                    (b.clone(), d.images.get(b).cloned())
                };
                let short = st.a(1);
                if short % 3 == 1 {
                    run.ctr(Ctr::f_short_read, 1);
                }
                let want = match &known {
                    Some(m) => Meaning::Exact(m.clone()),
                    None => meaning(&bytes, comp),
                };
                let slot = match &want {
                    Meaning::Exact(m) => {
                        slots.push(Some(Slot { cell: c.clone(), model: m.clone() }));
                        slots.len() - 1 + base
                    }
                    _ => usize::MAX - at,
                };
                match &want {
                    Meaning::Exact(_) if known.is_some() => run.ctr(Ctr::loads_ok, 1),
                    Meaning::Exact(_) => run.ctr(Ctr::images_accepted_noncanonical, 1),
                    _ => run.ctr(Ctr::loads_refused, 1),
                }
                run.ctr(Ctr::comparisons, 1);
                run.fp(mix(bytes.len() as u64, mix(oph, bytes.iter().take(64).fold(0, |h, b| mix(h, *b as u64)))));
                let prefix = known.is_none() && {
                    let d = d.lock().unwrap();
                    d.images.range(bytes.clone()..).next().is_some_and(|(k, _)| k.starts_with(&bytes))
                };
                run.submit(st.client as usize, &[(slot, true)], &st.pre, Box::new(move || {
                    // Short reads: the application puts the pieces together.
                    let mut buf = Vec::new();
                    if short % 3 == 1 {
                        let k = 1 + short as usize % 97;
                        bytes.chunks(k).for_each(|c| buf.extend_from_slice(c));
                    } else {
                        buf = bytes;
                    }
                    let r = decode(&buf, comp)?;
                    match (want, r) {
                        (Meaning::Exact(m), Ok((mut o, _))) => {
                            says("restored", &mut o, &m)?;
                            let b = match &mut o {
                                Obj::G(g) => sut(|| g.to_bytes()),
                                Obj::Z(z) => sut(|| z.to_bytes()),
                                Obj::Empty => panic!("harness: empty"),
                            };
                            let b = b.map_err(|e| Viol::new("save:to_bytes", format!("to_bytes of a restored object: {e}")))?;
                            check_image(&b, &m)?;
                            *c2.at() = o;
                            Ok(m.hash())
                        }
                        (Meaning::Exact(m), Err(e)) => bad("load:refused", format!("an intact image of {} bytes was refused: {e} (meaning hash {:x})", buf.len(), m.hash())),
                        (Meaning::Invalid(w), Ok((_, got))) => bad("load:accepted", format!("a {} image ({w}) of {} bytes was restored as {}", if prefix { "partially written" } else { "damaged" }, buf.len(), brief(&got))),
                        (Meaning::Invalid(_), Err(_)) => Ok(4),
                        (Meaning::Either(m), Ok((mut o, _))) => {
                            says("restored", &mut o, &m)?;
                            Ok(5)
                        }
                        (Meaning::Either(_), Err(_)) => Ok(5),
                    }
                }))?;
            }
            "oldload" => {
                // Another build reads what is on the disk.
                let d = disk.lock().unwrap();
                if let Some(b) = d.read(&format!("f{}", st.a(0) % names)) {
                    if let Some(m) = d.images.get(b) {
                        check_image(b, m)?;
                        run.ctr(Ctr::old_build_reads, 1);
                    }
                }
            }
            "oldver" => {
                // A file of an older or newer format version.
                let Some(o) = pick(&slots, st.a(0), comp) else { continue };
                let mut b = slots[o].as_ref().unwrap().model.image(st.a(2));
                let v = match st.a(3) % 4 {
                    0 => 1 + !comp as u32,
                    1 => 0,
                    2 => 3,
                    _ => st.a(3) as u32 | 0x100,
                };
                b[4..8].copy_from_slice(&v.to_be_bytes());
                run.ctr(Ctr::f_header_edit, 1);
                let mut d = disk.lock().unwrap();
                let name = format!("f{}", st.a(1) % names);
                let ino = d.create(&name);
                d.write(ino, 0, &b);
                d.sync(ino);
                d.sync_dir();
                d.acked.remove(&name);
                d.maybe.remove(&name);
            }
            "rot" => {
                let mut d = disk.lock().unwrap();
                let name = format!("f{}", st.a(0) % names);
                let Some(i) = d.dir.get(&name).copied() else { continue };
                let n = d.inodes[i].live.len();
                if n == 0 {
                    continue;
                }
                let bit = st.a(1) as usize % (n * 8);
                let at = if st.a(2) % 2 == 0 { bit % (42 * 8).min(n * 8) } else { bit };
                d.inodes[i].live[at / 8] ^= 1 << (at % 8);
                let v = d.inodes[i].live.clone();
                d.inodes[i].durable = v;
                d.inodes[i].pending.clear();
                d.acked.remove(&name);
                d.maybe.remove(&name);
                run.ctr(Ctr::f_bit_flip, 1);
            }
            "drop" => {
                let live: Vec<usize> = (0..slots.len()).filter(|k| slots[*k].is_some()).collect();
                if live.len() < 2 {
                    continue;
                }
                let k = live[(st.a(0) % live.len() as u64) as usize];
                drop_slot(run, &mut slots, k, base, st)?;
            }
            "exit" => {
                run.ctr(Ctr::f_caller_exit, 1);
                run.restart_client(st.client as usize)?;
            }
            "crash" => {
                let mut d = disk.lock().unwrap();
                if d.dead.is_none() {
                    d.dead = Some(st.a(0));
                }
            }
            _ => {}
        }
        crash_if_dead(&disk, run, &mut slots, &mut base)?;
    }
    run.drain()?;
    crash_if_dead(&disk, run, &mut slots, &mut base)?;
    for (k, v) in &disk.lock().unwrap().count {
        run.page.ctr[*k] += *v;
    }
    alloc::check_quarantine();
    if let Some(e) = alloc::take_error() {
        return bad("memory", e);
    }
    Ok(())
}

fn brief(m: &M) -> String {
    match m {
        M::G(g) => format!("a graph with {} vertices and {} edges", g.vc, g.edges.len()),
        M::Z(z) => format!("a compressed graph with {} vertices and {} blocks", z.vc, z.blocks.len()),
    }
}

fn drop_slot(run: &mut Run, slots: &mut [Option<Slot>], k: usize, base: usize, st: &Step) -> R<()> {
    let s = slots[k].take().unwrap();
    run.ctr(Ctr::objects_dropped, 1);
    run.submit(st.client as usize, &[(base + k, true)], &[], Box::new(move || {
        let x = std::mem::replace(s.cell.at(), Obj::Empty);
        sut(|| drop(x));
        Ok(9)
    }))
}

fn old_write(disk: &Arc<Mutex<Disk>>, run: &mut Run, m: &M, name: u64, order: u64, chunk: u64) -> R<()> {
    let b = m.image(order | 1);
    let mut d = disk.lock().unwrap();
    d.images.insert(b.clone(), m.clone());
    let f = Faults { kind: 0, at: 0, crash_at: u64::MAX, crash_seed: 0 };
    if d.save(&format!("f{name}"), &b, 0, 1 + chunk as usize % 4096, &f).is_err() {
        return bad("harness", "old build could not save".into());
    }
    run.ctr(Ctr::old_build_writes, 1);
    Ok(())
}

/// An object that exists only in the other build's memory.
fn made_up(comp: bool, und: u64, a: &[u64]) -> M {
    let g = |i: usize| a.get(i).copied().unwrap_or(0);
    let mut m = MGraph::new(und % 2 == 1);
    for (x, y) in pattern(g(0), g(1).min(80_000), g(2), g(3)) {
        m.add_edge(x, y);
    }
    match g(4) % 5 {
        0 => m.vc = m.vc.saturating_add(g(4)),
        1 => m.vc = u64::MAX,
        2 => m.vc = m.vc.saturating_add(1),
        _ => {}
    }
    if comp {
        M::Z(m.compressed((g(5) % 66) as u8))
    } else {
        M::G(m)
    }
}

fn crash_if_dead(disk: &Arc<Mutex<Disk>>, run: &mut Run, slots: &mut Vec<Option<Slot>>, base: &mut usize) -> R<()> {
    let mut d = disk.lock().unwrap();
    let Some(seed) = d.dead else { return Ok(()) };
    run.ctr(Ctr::f_crash, 1);
    run.crash_all()?;
    d.crash(seed)?;
    *base += slots.len() + 1;
    slots.clear();
    Ok(())
}

// ---------------------------------------------------------------- generator

/// Few objects, but of tens of thousands of edges or thousands of blocks.
fn wide(mut p: Plan, r: &mut Rng, comp: bool, und: u64, callers: u64) -> Plan {
    for _ in 0..r.range(1, 3) {
        p.push(0, "gnew", vec![r.chance(und) as u64]);
        let o = r.below(3);
        for _ in 0..r.weighted(&[0, 75, 25]) {
            let mut v = vec![o];
            v.extend(wide_args(r));
            p.push(0, "gbulk", v);
        }
        if comp {
            p.push(0, "zmk", vec![o, if r.chance(85) { r.range(0, 3) } else { r.range(60, 65) }]);
        }
    }
    for _ in 0..r.range(2, 8) {
        let (c, o) = (r.below(callers), r.below(8));
        match r.weighted(&[40, 12, 22, 8, 6, 8]) {
            0 => {
                let crash = if r.chance(25) { r.log(40) - 1 } else { 1 << 40 };
                p.push(c, "save", vec![o, r.below(4), r.weighted(&[60, 20, 20]) as u64, 1 << 20, 0, r.next() >> 40, crash, r.next() >> 40])
            }
            1 => {
                let mut v = vec![r.chance(und) as u64];
                v.extend(wide_args(r));
                v.extend([r.below(1 << 30), r.below(4), r.below(4)]);
                p.push(c, "oldnew", v)
            }
            2 => p.push(c, "load", vec![r.below(4), r.below(200)]),
            3 => p.push(c, "unz", vec![o]),
            4 => p.push(c, "crash", vec![r.next() >> 40]),
            _ => p.push(c, "gadd", vec![o, r.below(60), r.below(60)]),
        };
    }
    for i in 0..4 {
        p.push(0, "load", vec![i, i]);
    }
    p
}

pub fn gen(prop: &str, r: &mut Rng, seed: u64, idx: u64) -> Plan {
    let comp = prop == "C05";
    let mut p = Plan::new(prop, seed, idx);
    p.set("entropy", r.next() >> 1);
    let callers = r.weighted(&[25, 40, 35]) as u64 + 1;
    p.set("callers", callers);
    let sector = r.pick(&[8u64, 16, 64, 512, 4096]);
    p.set("sector", sector);
    p.set("names", r.range(1, 4));
    let ids = if r.chance(50) { small_pool(r) } else { id_pool(r) };
    let id = |r: &mut Rng| if r.chance(2) { r.pick(&[u64::MAX, u64::MAX - 1]) } else { r.pick(&ids) };
    let n = match r.below(10) {
        0..=2 => r.range(4, 12),
        3..=7 => r.range(12, 50),
        _ => r.range(50, 160),
    };
    let und = r.pick(&[0, 50, 50, 100]);
    if idx % 160 == 77 {
        return wide(p, r, comp, und, callers);
    }
    let mut big = r.chance(5);
    p.push(0, "gnew", vec![r.chance(und) as u64]);
    for _ in 0..r.range(0, 6) {
        let (a, b) = (id(r), id(r));
        p.push(0, "gadd", vec![0, a, b]);
    }
    for _ in 0..n {
        let c = r.below(callers);
        let o = r.below(8);
        match r.weighted(&[6, 22, 8, 8, 3, if comp { 12 } else { 1 }, 2, 26, 24, 3, 5, 3, 2, 2, 5, 3, 1, 3]) {
            0 => p.push(c, "gnew", vec![r.chance(und) as u64]),
            1 => {
                let (a, b) = (id(r), id(r));
                p.push(c, "gadd", vec![o, a, b])
            }
            2 => {
                let (a, b) = (id(r), id(r));
                p.push(c, "gdel", vec![o, a, b])
            }
            3 => {
                let mut v = vec![o];
                let b = big && r.chance(30);
                v.extend(bulk_args(r, b));
                big = false;
                p.push(c, "gbulk", v)
            }
            4 => p.push(c, "gvert", vec![o, id(r)]),
            5 => p.push(c, "zmk", vec![o, if r.chance(60) { r.range(0, 3) } else { r.below(70) }]),
            6 => p.push(c, "unz", vec![o]),
            7 => {
                let chunk = r.pick(&[1u64, 7, 16, 24, 64, 512, 1 << 20]);
                let kind = r.weighted(&[55, 15, 10, 10, 10]) as u64;
                let crash = if r.chance(30) { r.log(40) - 1 } else { 1 << 40 };
                p.push(c, "save", vec![o, r.below(4), r.weighted(&[60, 20, 20]) as u64, chunk.max(16), kind, r.next() >> 40, crash, r.next() >> 40])
            }
            8 => p.push(c, "load", vec![r.below(4), r.below(200)]),
            9 => p.push(c, "oldsave", vec![o, r.below(4), r.next() >> 40, r.below(5000)]),
            10 => {
                let mut v = vec![r.chance(und) as u64];
                v.extend(bulk_args(r, false));
                v.extend([r.below(1 << 30), r.below(70), r.below(4)]);
                p.push(c, "oldnew", v)
            }
            11 => p.push(c, "oldload", vec![r.below(4)]),
            12 => p.push(c, "oldver", vec![o, r.below(4), r.below(99), r.below(1 << 20)]),
            13 => p.push(c, "rot", vec![r.below(4), r.next() >> 30, r.below(2)]),
            14 => p.push(c, "crash", vec![r.next() >> 40]),
            15 => p.push(c, "drop", vec![o]),
            16 => p.push(c, "exit", vec![]),
            _ => p.push(c, "load", vec![r.below(4), 0]),
        };
    }
    for i in 0..4 {
        p.push(0, "load", vec![i, i]);
    }
    if callers >= 2 && r.chance(45) && !p.steps.is_empty() {
        for _ in 0..r.range(1, 6) {
            let i = r.below(p.steps.len() as u64) as usize;
            if p.steps[i].op != "crash" {
                p.steps[i].pre = preempts(r, 1500);
                if r.chance(40) {
                    // Power fails while the operation is parked.
                    p.steps[i].pre.truncate(1);
                    p.steps[i].pre[0].hold = 4;
                    let s = Step { client: 0, op: "crash".into(), args: vec![r.next() >> 40], pre: vec![] };
                    p.steps.insert(i + 1, s);
                }
            }
        }
    }
    p
}
