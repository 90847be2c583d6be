//! The executable reference models: a graph is a flag, a vertex count and a set of pairs.
use crate::rng::mix;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct MGraph {
    pub und: bool,
    pub vc: u64,
    pub edges: BTreeSet<(u64, u64)>,
}

impl MGraph {
    pub fn new(und: bool) -> MGraph {
        MGraph { und, vc: 0, edges: BTreeSet::new() }
    }
    pub fn add_edge(&mut self, a: u64, b: u64) -> bool {
        if a == u64::MAX || b == u64::MAX {
            return false;
        }
        self.vc = self.vc.max(a.max(b) + 1);
        let n = self.edges.insert((a, b));
        if self.und {
            self.edges.insert((b, a));
        }
        n
    }
    pub fn del_edge(&mut self, a: u64, b: u64) -> bool {
        let n = self.edges.remove(&(a, b));
        if self.und {
            self.edges.remove(&(b, a));
        }
        n
    }
    pub fn add_vertex(&mut self, v: u64, to: &[u64]) {
        for t in to {
            self.add_edge(v, *t);
        }
        if to.is_empty() && v != u64::MAX {
            self.vc = self.vc.max(v + 1);
        }
    }
    pub fn out(&self, v: u64) -> Vec<u64> {
        self.edges.range((v, 0)..=(v, u64::MAX)).map(|e| e.1).collect()
    }
    pub fn ins(&self, v: u64) -> Vec<u64> {
        if self.und {
            return self.out(v);
        }
        self.edges.iter().filter(|e| e.1 == v).map(|e| e.0).collect()
    }
    pub fn symmetric(&self) -> bool {
        self.edges.iter().all(|(a, b)| self.edges.contains(&(*b, *a)))
    }
    pub fn hash(&self) -> u64 {
        let mut h = mix(self.vc, self.und as u64);
        for (a, b) in &self.edges {
            h = mix(h, mix(*a, *b));
        }
        h
    }
    /// Number of edges in each non-empty b-by-b block.
    pub fn blocks(&self, b: u64) -> BTreeMap<(u64, u64), u64> {
        let mut m = BTreeMap::new();
        for (c, r) in &self.edges {
            *m.entry((c / b, r / b)).or_insert(0) += 1;
        }
        m
    }
    /// The clamped block dimension and the number of blocks per row.
    pub fn pool_shape(&self, b: u64) -> (u64, u64) {
        if self.vc == 0 {
            return (1, 0);
        }
        let b = b.clamp(1, self.vc);
        (b, self.vc.div_ceil(b))
    }
    pub fn compressed(&self, level: u8) -> MComp {
        let level = level.clamp(1, 64);
        let mut blocks: BTreeMap<(u64, u64), u64> = BTreeMap::new();
        for (c, r) in &self.edges {
            *blocks.entry((c / 8, r / 8)).or_insert(0) |= 1u64 << ((r % 8) * 8 + c % 8);
        }
        blocks.retain(|_, v| v.count_ones() >= level as u32);
        MComp { und: self.und, vc: self.vc, level, blocks }
    }
    /// The version-1 image, written the way another build might: any record order.
    pub fn image(&self, order: u64) -> Vec<u8> {
        let mut v: Vec<(u64, u64)> = self.edges.iter().copied().collect();
        shuffle(&mut v, order);
        let mut b = Vec::with_capacity(26 + v.len() * 16);
        b.extend_from_slice(&0x7ae71ffdu32.to_be_bytes());
        b.extend_from_slice(&1u32.to_be_bytes());
        b.extend_from_slice(&self.vc.to_be_bytes());
        b.extend_from_slice(&(v.len() as u64).to_be_bytes());
        b.push(self.und as u8);
        b.push(0);
        for (x, y) in v {
            b.extend_from_slice(&x.to_be_bytes());
            b.extend_from_slice(&y.to_be_bytes());
        }
        b
    }
}

pub fn shuffle<T>(v: &mut [T], seed: u64) {
    if seed == 0 {
        return;
    }
    let mut s = seed;
    for i in (1..v.len()).rev() {
        s = mix(s, i as u64);
        v.swap(i, (s % (i as u64 + 1)) as usize);
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct MComp {
    pub und: bool,
    pub vc: u64,
    pub level: u8,
    pub blocks: BTreeMap<(u64, u64), u64>,
}

pub fn comp_dim(vc: u64) -> u64 {
    vc.div_ceil(8).max(1)
}

impl MComp {
    pub fn edge_count(&self) -> u64 {
        self.blocks.values().map(|v| v.count_ones() as u64).sum()
    }
    pub fn has(&self, a: u64, b: u64) -> bool {
        match self.blocks.get(&(a / 8, b / 8)) {
            Some(v) => v >> ((b % 8) * 8 + a % 8) & 1 == 1,
            None => false,
        }
    }
    pub fn graph(&self) -> MGraph {
        let mut edges = BTreeSet::new();
        for ((c, r), v) in &self.blocks {
            for i in 0..64u64 {
                if v >> i & 1 == 1 {
                    edges.insert((c * 8 + i % 8, r * 8 + i / 8));
                }
            }
        }
        MGraph { und: self.und, vc: self.vc, edges }
    }
    pub fn hash(&self) -> u64 {
        let mut h = mix(self.vc, mix(self.und as u64, self.level as u64));
        for ((a, b), v) in &self.blocks {
            h = mix(h, mix(mix(*a, *b), *v));
        }
        h
    }
    pub fn image(&self, order: u64) -> Vec<u8> {
        let mut v: Vec<((u64, u64), u64)> = self.blocks.iter().map(|(k, v)| (*k, *v)).collect();
        shuffle(&mut v, order);
        let mut b = Vec::with_capacity(42 + v.len() * 24);
        b.extend_from_slice(&0x71ff7aedu32.to_be_bytes());
        b.extend_from_slice(&2u32.to_be_bytes());
        b.extend_from_slice(&comp_dim(self.vc).to_be_bytes());
        b.extend_from_slice(&(v.len() as u64).to_be_bytes());
        b.extend_from_slice(&self.edge_count().to_be_bytes());
        b.extend_from_slice(&self.vc.to_be_bytes());
        b.push(self.und as u8);
        b.push(self.level);
        for ((c, r), e) in v {
            b.extend_from_slice(&e.to_be_bytes());
            b.extend_from_slice(&c.to_be_bytes());
            b.extend_from_slice(&r.to_be_bytes());
        }
        b
    }
}

/// What the format says about a byte string.
pub enum Meaning<T> {
    /// A well-formed image: must be accepted, and means this.
    Exact(T),
    /// Not an image: must be refused.
    Invalid(&'static str),
    /// Well-formed apart from repeated records: may be refused; if accepted it means this.
    Either(T),
}

fn be32(b: &[u8], i: usize) -> u32 {
    u32::from_be_bytes(b[i..i + 4].try_into().unwrap())
}
pub fn be64(b: &[u8], i: usize) -> u64 {
    u64::from_be_bytes(b[i..i + 8].try_into().unwrap())
}

/// The reference decoder for version-1 graph images ("another build").
pub fn read_graph(b: &[u8]) -> Meaning<MGraph> {
    use Meaning::*;
    if b.len() < 26 {
        return Invalid("shorter than the header");
    }
    if be32(b, 0) != 0x7ae71ffd {
        return Invalid("magic");
    }
    if be32(b, 4) != 1 {
        return Invalid("version");
    }
    let (vc, n) = (be64(b, 8), be64(b, 16));
    if b[24] > 1 {
        return Invalid("direction flag");
    }
    if b[25] != 0 {
        return Invalid("weighted flag");
    }
    if 26 + n as u128 * 16 != b.len() as u128 {
        return Invalid("length does not match the edge count");
    }
    let mut g = MGraph { und: b[24] == 1, vc, edges: BTreeSet::new() };
    let mut dup = false;
    for i in 0..n as usize {
        let (x, y) = (be64(b, 26 + i * 16), be64(b, 34 + i * 16));
        if x >= vc || y >= vc {
            return Invalid("endpoint outside the vertex count");
        }
        dup |= !g.edges.insert((x, y));
    }
    if g.und {
        let back: Vec<(u64, u64)> = g.edges.iter().map(|(x, y)| (*y, *x)).collect();
        g.edges.extend(back);
    }
    if g.edges.len() as u64 != n {
        return Invalid("edge count does not match the edges");
    }
    if dup {
        return Either(g);
    }
    Exact(g)
}

/// The reference decoder for version-2 compressed images.
pub fn read_comp(b: &[u8]) -> Meaning<MComp> {
    use Meaning::*;
    if b.len() < 42 {
        return Invalid("shorter than the header");
    }
    if be32(b, 0) != 0x71ff7aed {
        return Invalid("magic");
    }
    if be32(b, 4) != 2 {
        return Invalid("version");
    }
    let (dim, n, ec, vc) = (be64(b, 8), be64(b, 16), be64(b, 24), be64(b, 32));
    if b[40] > 1 {
        return Invalid("direction flag");
    }
    if !(1..=64).contains(&b[41]) {
        return Invalid("level");
    }
    if dim != comp_dim(vc) {
        return Invalid("dimension does not match the vertex count");
    }
    if 42 + n as u128 * 24 != b.len() as u128 {
        return Invalid("length does not match the entry count");
    }
    let mut g = MComp { und: b[40] == 1, vc, level: b[41], blocks: BTreeMap::new() };
    let mut dup = false;
    for i in 0..n as usize {
        let o = 42 + i * 24;
        let (e, c, r) = (be64(b, o), be64(b, o + 8), be64(b, o + 16));
        if e == 0 {
            return Invalid("zero block");
        }
        if c >= dim || r >= dim {
            return Invalid("block outside the matrix");
        }
        for k in 0..64u64 {
            if e >> k & 1 == 1 {
                let (x, y) = (c as u128 * 8 + (k % 8) as u128, r as u128 * 8 + (k / 8) as u128);
                if x >= vc as u128 || y >= vc as u128 {
                    return Invalid("bit outside the vertex count");
                }
            }
        }
        dup |= g.blocks.insert((c, r), e).is_some();
    }
    if dup {
        return Invalid("repeated block");
    }
    if g.edge_count() != ec {
        return Invalid("edge count");
    }
    if g.und {
        let m = g.graph();
        if !m.symmetric() {
            return Invalid("undirected image whose matrix is not symmetric");
        }
    }
    Exact(g)
}
