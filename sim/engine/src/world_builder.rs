//! The builder world (C18): several callers build compressed graphs block by block at the same
//! time, in whatever order the schedule gives; only the set of blocks added may matter.
use crate::alloc;
use crate::gen::*;
use crate::model::*;
use crate::obs::*;
use crate::plan::*;
use crate::rng::*;
use crate::run::*;
use crate::seams::*;
use graphrox::builder::CompressedGraphBuilder;
use graphrox::{CompressedGraph, Graph, GraphRepresentation};
use std::cell::UnsafeCell;
use std::collections::BTreeMap;
use std::sync::Arc;

struct Cell(UnsafeCell<Option<CompressedGraphBuilder>>);
unsafe impl Send for Cell {}
unsafe impl Sync for Cell {}
impl Cell {
    #[allow(clippy::mut_from_ref)]
    fn at(&self) -> &mut Option<CompressedGraphBuilder> {
        unsafe { &mut *self.0.get() }
    }
}

struct Slot {
    cell: Arc<Cell>,
    model: MComp,
    todo: Vec<((u64, u64), u64)>,
    raw_level: u8,
}

fn transpose(v: u64) -> u64 {
    let mut t = 0;
    for i in 0..64 {
        if v >> i & 1 == 1 {
            t |= 1u64 << ((i % 8) * 8 + i / 8);
        }
    }
    t
}

/// A family of non-empty blocks inside a matrix for `vc` vertices, symmetric when asked.
fn blocks(und: bool, vc: u64, n: u64, seed: u64) -> BTreeMap<(u64, u64), u64> {
    let mut r = Rng::new(seed ^ 0xB10C);
    let dim = comp_dim(vc);
    let mut m = BTreeMap::new();
    if vc == 0 {
        return m;
    }
    for _ in 0..n {
        let side = r.pick(&[1u64, 3, 12, u64::MAX]).min(dim);
        let base = if r.chance(30) { dim - side } else { 0 };
        let (c, w) = (base + r.below(side), base + r.below(side));
        let mut v = match r.below(5) {
            0 => u64::MAX,
            1 => 1u64 << r.below(64),
            2 => 1 << 63,
            _ => r.next(),
        };
        for i in 0..64u64 {
            if c as u128 * 8 + (i % 8) as u128 >= vc as u128 || w as u128 * 8 + (i / 8) as u128 >= vc as u128 {
                v &= !(1 << i);
            }
        }
        if v == 0 {
            continue;
        }
        if und {
            let v = if c == w { v | transpose(v) } else { v };
            m.insert((c, w), v);
            m.insert((w, c), transpose(v));
        } else {
            m.insert((c, w), v);
        }
    }
    m
}

fn check_built(what: &str, z: &CompressedGraph, m: &MComp) -> R<u64> {
    same_comp(what, z, m, true)?;
    let b = sut(|| z.to_bytes()).map_err(|e| Viol::new(&format!("{what}:to_bytes"), format!("{e}")))?;
    match read_comp(&b) {
        Meaning::Exact(x) => ensure!(x == *m, &format!("{what}:image"), "the image of the built graph says something else"),
        Meaning::Invalid(why) => return bad(&format!("{what}:image"), format!("the image of the built graph is malformed: {why}")),
        Meaning::Either(_) => {}
    }
    Ok(m.hash())
}

fn add_mode(mode: u64, i: u64, v: u64) -> Option<u64> {
    match mode % 4 {
        0 => Some(v.count_ones() as u64),
        1 => None,
        k => (k + i).is_multiple_of(2).then_some(v.count_ones() as u64),
    }
}

fn build(m: &MComp, raw_level: u8, order: u64, mode: u64) -> CompressedGraph {
    let mut l: Vec<((u64, u64), u64)> = m.blocks.iter().map(|(k, v)| (*k, *v)).collect();
    shuffle(&mut l, order);
    sut(|| {
        let mut b = CompressedGraphBuilder::new(m.und, m.vc, raw_level);
        for (i, ((c, r), v)) in l.iter().enumerate() {
            b.add_compressed_matrix_entry(*v, *c, *r, add_mode(mode, i as u64, *v));
        }
        unsafe { b.finish() }
    })
}

pub fn exec(plan: &Plan, run: &mut Run) -> R<()> {
    let mut slots: Vec<Option<Slot>> = vec![];
    let pick = |slots: &Vec<Option<Slot>>, i: u64| -> Option<usize> {
        let live: Vec<usize> = (0..slots.len()).filter(|k| slots[*k].is_some()).collect();
        (!live.is_empty()).then(|| live[(i % live.len() as u64) as usize])
    };
    for st in &plan.steps {
        run.tick()?;
        let oph = st.op.bytes().fold(7u64, |a, b| mix(a, b as u64));
        match st.op.as_str() {
            "bnew" => {
                let und = st.a(0) % 2 == 1;
                let vc = match st.a(3) % 4 {
                    0 => st.a(1),
                    1 => (st.a(1) | 7).wrapping_add(1).max(8),
                    _ => st.a(1).saturating_add(1),
                };
                let level = st.a(2) as u8;
                let mut todo: Vec<_> = blocks(und, vc, st.a(3) % 24, st.a(3)).into_iter().collect();
                shuffle(&mut todo, st.a(3) | 1);
                let cell = Arc::new(Cell(UnsafeCell::new(None)));
                let model = MComp { und, vc, level: level.clamp(1, 64), blocks: BTreeMap::new() };
                slots.push(Some(Slot { cell: cell.clone(), model, todo, raw_level: level }));
                let o = slots.len() - 1;
                if vc > 1 << 40 {
                    run.ctr(Ctr::f_huge_id, 1);
                }
                run.submit(st.client as usize, &[(o, true)], &st.pre, Box::new(move || {
                    *cell.at() = Some(sut(|| CompressedGraphBuilder::new(und, vc, level)));
                    Ok(1)
                }))?;
            }
            "badd" => {
                let Some(o) = pick(&slots, st.a(0)) else { continue };
                let s = slots[o].as_mut().unwrap();
                if s.todo.is_empty() {
                    continue;
                }
                let n = s.todo.len() as u64;
                let mut batch = vec![s.todo.remove((st.a(1) % n) as usize)];
                if st.a(2) % 4 == 0 {
                    for _ in 0..st.a(2) % 5 {
                        if let Some(x) = s.todo.pop() {
                            batch.push(x);
                        }
                    }
                }
                for (k, v) in &batch {
                    s.model.blocks.insert(*k, *v);
                }
                run.page.ctr[Ctr::bulk_edges as usize] += batch.iter().map(|x| x.1.count_ones() as u64).sum::<u64>();
                let (cell, mode, salt) = (s.cell.clone(), st.a(4), st.a(3));
                run.fp(mix(s.model.hash(), oph));
                run.submit(st.client as usize, &[(o, true)], &st.pre, Box::new(move || {
                    let b = cell.at().as_mut().unwrap();
                    sut(|| {
                        for (i, ((c, r), v)) in batch.iter().enumerate() {
                            b.add_compressed_matrix_entry(*v, *c, *r, add_mode(mode, salt.wrapping_add(i as u64) % 8, *v));
                        }
                    });
                    Ok(2)
                }))?;
            }
            "bfin" => {
                let Some(o) = pick(&slots, st.a(0)) else { continue };
                let s = slots[o].take().unwrap();
                let mut m = s.model;
                // The blocks of an undirected graph are only complete together.
                let rest = if m.und { s.todo } else { vec![] };
                for (k, v) in &rest {
                    m.blocks.insert(*k, *v);
                }
                run.ctr(Ctr::comparisons, 1);
                run.fp(mix(m.hash(), oph));
                let cell = s.cell;
                run.submit(st.client as usize, &[(o, true)], &st.pre, Box::new(move || {
                    let mut b = cell.at().take().unwrap();
                    let z = sut(|| {
                        for ((c, r), v) in &rest {
                            b.add_compressed_matrix_entry(*v, *c, *r, None);
                        }
                        unsafe { b.finish() }
                    });
                    check_built("built", &z, &m)
                }))?;
            }
            "btwin" => {
                // The same blocks in another order, other modes, on another caller.
                let Some(o) = pick(&slots, st.a(0)) else { continue };
                let s = slots[o].as_ref().unwrap();
                let mut m = s.model.clone();
                for (k, v) in &s.todo {
                    m.blocks.insert(*k, *v);
                }
                let (lv, seed) = (s.raw_level, st.a(1));
                run.ctr(Ctr::comparisons, 1);
                run.submit(st.client as usize, &[], &st.pre, Box::new(move || {
                    let a = build(&m, lv, seed | 1, seed % 4);
                    check_built("twin", &a, &m)?;
                    let b = build(&m, lv, mix(seed, 5) | 1, (seed + 1) % 4);
                    check_built("twin", &b, &m)
                }))?;
            }
            "bgraph" => {
                let (und, list, order) = (st.a(0) % 2 == 1, pattern(st.a(1), st.a(2), st.a(3), st.a(4)), st.a(5));
                run.ctr(Ctr::derivations, 1);
                run.ctr(Ctr::comparisons, 1);
                run.submit(st.client as usize, &[], &st.pre, Box::new(move || {
                    let g = sut(|| {
                        let mut g = if und { Graph::new_undirected() } else { Graph::new_directed() };
                        for (a, b) in &list {
                            g.add_edge(*a, *b);
                        }
                        g
                    });
                    let m = observe(&g)?.compressed(1);
                    let made = build(&m, 1, order | 1, order % 4);
                    let z = sut(|| g.compress(1));
                    let (a, b) = (image(&made)?, image(&z)?);
                    ensure!(a == b, "builder:graph", "building the blocks of a graph and compressing it at level 1 give different images ({} and {} bytes)", a.len(), b.len());
                    let (x, y) = (sut(|| made.decompress()), sut(|| z.decompress()));
                    let (x, y) = (observe(&x)?, observe(&y)?);
                    ensure!(x == y, "builder:graph", "the built and the compressed graph decompress differently: {}", diff(&x.edges, &y.edges));
                    check_built("builder:graph", &made, &m)
                }))?;
            }
            _ => {}
        }
    }
    run.drain()?;
    for s in slots.iter_mut().flatten() {
        let c = s.cell.clone();
        run.submit(0, &[], &[], Box::new(move || {
            let b = c.at().take();
            sut(|| drop(b));
            Ok(0)
        }))?;
    }
    alloc::check_quarantine();
    if let Some(e) = alloc::take_error() {
        return bad("memory", e);
    }
    Ok(())
}

/// The image with its records in a fixed order.
fn image(z: &CompressedGraph) -> R<Vec<u8>> {
    let b = sut(|| z.to_bytes()).map_err(|e| Viol::new("builder:to_bytes", format!("{e}")))?;
    let (h, t) = b.split_at(42.min(b.len()));
    let mut recs: Vec<&[u8]> = t.chunks(24).collect();
    recs.sort_unstable();
    let mut v = h.to_vec();
    recs.iter().for_each(|r| v.extend_from_slice(r));
    Ok(v)
}
