//! The bytes world (C06, C07): images in transit and at rest, written by this library or by
//! another build, are damaged by a sequence of faults — sometimes repaired just enough to get past
//! the first checks — and decoded by several processes. The reference decoder says what each byte
//! string means.
use crate::alloc;
use crate::gen::*;
use crate::model::*;
use crate::obs::*;
use crate::plan::*;
use crate::rng::*;
use crate::run::*;
use crate::seams::*;
use crate::world_disk::{decode, is_format_error, says, Obj, M};
use graphrox::{CompressedGraph, Graph, GraphRepresentation};
use std::collections::BTreeMap;
use std::convert::TryFrom;

struct Buf {
    b: Vec<u8>,
    /// What it was before anything happened to it.
    intact: Vec<u8>,
    model: M,
    hits: u64,
}

struct Shape {
    header: usize,
    rec: usize,
}

fn w64(b: &mut [u8], at: usize, v: u64) {
    if b.len() >= at + 8 {
        b[at..at + 8].copy_from_slice(&v.to_be_bytes());
    }
}
fn r64(b: &[u8], at: usize) -> u64 {
    if b.len() >= at + 8 {
        be64(b, at)
    } else {
        0
    }
}

/// A value near or far from the one a field has.
fn vary(old: u64, k: u64, v: u64) -> u64 {
    match k % 12 {
        0 => old.wrapping_add(1),
        1 => old.wrapping_sub(1),
        2 => 0,
        3 => u64::MAX,
        4 => old ^ (1 << (v % 64)),
        5 => old.wrapping_mul(2),
        6 => old / 2,
        7 => old.wrapping_add(v % 17),
        8 => v,
        9 => 1 << (v % 64),
        10 => old.swap_bytes(),
        _ => (1u64 << 60).wrapping_add(v % 16),
    }
}

fn meaning(b: &[u8], comp: bool) -> Meaning<M> {
    if comp {
        match read_comp(b) {
            Meaning::Exact(x) => Meaning::Exact(M::Z(x)),
            Meaning::Either(x) => Meaning::Either(M::Z(x)),
            Meaning::Invalid(w) => Meaning::Invalid(w),
        }
    } else {
        match read_graph(b) {
            Meaning::Exact(x) => Meaning::Exact(M::G(x)),
            Meaning::Either(x) => Meaning::Either(M::G(x)),
            Meaning::Invalid(w) => Meaning::Invalid(w),
        }
    }
}

/// Whatever was accepted must agree with itself.
fn coherent(o: &mut Obj) -> R<()> {
    match o {
        Obj::G(g) => {
            let m = observe(g)?;
            let ec = sut(|| g.edge_count());
            ensure!(ec == m.edges.len() as u64, "decoded:edge_count", "a decoded graph counts {ec} edges and has {}", m.edges.len());
            ensure!(m.edges.iter().all(|(a, b)| *a < m.vc && *b < m.vc), "decoded:bounds", "a decoded graph has edges outside its {} vertices", m.vc);
            ensure!(!m.und || m.symmetric(), "decoded:asymmetric", "a decoded undirected graph is not symmetric");
        }
        Obj::Z(z) => {
            let (ec, vc, und, lv) = sut(|| (z.edge_count(), z.vertex_count(), z.is_undirected(), z.compression_level()));
            let g = sut(|| z.decompress());
            let m = observe(&g)?;
            ensure!(ec == m.edges.len() as u64, "decoded:edge_count", "a decoded compressed graph counts {ec} edges and decompresses to {}", m.edges.len());
            ensure!(m.vc == vc && m.edges.iter().all(|(a, b)| *a < vc && *b < vc), "decoded:bounds", "a decoded compressed graph has edges outside its {vc} vertices");
            ensure!(!und || m.symmetric(), "decoded:asymmetric", "a decoded undirected compressed graph is not symmetric");
            ensure!((1..=64).contains(&lv), "decoded:level", "a decoded compressed graph has level {lv}");
        }
        Obj::Empty => {}
    }
    Ok(())
}

fn judge(b: &[u8], comp: bool) -> R<u64> {
    let want = meaning(b, comp);
    let got = if comp {
        sut(|| CompressedGraph::try_from(b)).map(Obj::Z)
    } else {
        sut(|| Graph::try_from(b)).map(Obj::G)
    };
    match got {
        Err(e) => {
            ensure!(is_format_error(&e), "decoded:error_kind", "{} bytes refused with {e:?}", b.len());
            if let Meaning::Exact(_) = want {
                return bad("decoded:refused", format!("a well-formed image of {} bytes was refused: {e}", b.len()));
            }
            Ok(1)
        }
        Ok(mut o) => {
            if let Meaning::Invalid(w) = want {
                return bad("decoded:accepted", format!("{} bytes that are not an image ({w}) were accepted", b.len()));
            }
            coherent(&mut o)?;
            let (Meaning::Exact(m) | Meaning::Either(m)) = want else { unreachable!() };
            says("decoded", &mut o, &m)?;
            sut(|| drop(o));
            Ok(2)
        }
    }
}

pub fn exec(plan: &Plan, run: &mut Run) -> R<()> {
    let comp = plan.prop == "C07";
    let sh = if comp { Shape { header: 42, rec: 24 } } else { Shape { header: 26, rec: 16 } };
    let mut bufs: Vec<Buf> = vec![];
    let mut intact: BTreeMap<u64, u64> = BTreeMap::new();
    for st in &plan.steps {
        run.tick()?;
        let oph = st.op.bytes().fold(7u64, |a, b| mix(a, b as u64));
        match st.op.as_str() {
            "img" | "simg" => {
                // An image, from another build or from this one.
                let mut m = MGraph::new(st.a(0) % 2 == 1);
                let list = pattern(st.a(1), st.a(2).min(70_000), st.a(3), st.a(4));
                for (a, b) in &list {
                    m.add_edge(*a, *b);
                }
                if st.a(5) % 4 == 0 {
                    m.vc = m.vc.saturating_add(st.a(5));
                }
                let lv = (st.a(6) % 66) as u8;
                let model = if comp { M::Z(m.compressed(lv)) } else { M::G(m.clone()) };
                let b = if st.op == "img" {
                    run.ctr(Ctr::old_build_writes, 1);
                    match &model {
                        M::G(g) => g.image(st.a(7)),
                        M::Z(z) => z.image(st.a(7)),
                    }
                } else {
                    let (tx, rx) = std::sync::mpsc::channel();
                    run.submit(st.client as usize, &[], &[], Box::new(move || {
                        let g = sut(|| {
                            let mut g = if m.und { Graph::new_undirected() } else { Graph::new_directed() };
                            for (a, b) in &list {
                                g.add_edge(*a, *b);
                            }
                            if m.vc > 0 {
                                g.add_vertex(m.vc - 1, None);
                            }
                            g
                        });
                        let b = if comp { sut(|| g.compress(lv).to_bytes()) } else { sut(|| g.to_bytes()) };
                        let b = b.map_err(|e| Viol::new("decoded:to_bytes", format!("{e}")))?;
                        // The record order is this process's own; the plan goes on from a fixed one.
                        let (h, t) = b.split_at(b.len().min(if comp { 42 } else { 26 }));
                        let mut recs: Vec<&[u8]> = t.chunks(if comp { 24 } else { 16 }).collect();
                        recs.sort_unstable();
                        let mut v = h.to_vec();
                        recs.iter().for_each(|r| v.extend_from_slice(r));
                        let _ = tx.send(v);
                        Ok(1)
                    }))?;
                    match rx.try_recv() {
                        Ok(b) => b,
                        Err(_) => continue,
                    }
                };
                run.ctr(Ctr::graphs_made, 1);
                if bufs.len() > 5 {
                    bufs.remove(0);
                }
                bufs.push(Buf { intact: b.clone(), b, model, hits: 0 });
            }
            "raw" => {
                // Bytes that were never an image, perhaps with a plausible start.
                let mut r = Rng::new(st.a(1));
                let mut b: Vec<u8> = (0..st.a(0) % 200).map(|_| r.next() as u8).collect();
                let h: &[u8] = if comp { &[0x71, 0xff, 0x7a, 0xed, 0, 0, 0, 2] } else { &[0x7a, 0xe7, 0x1f, 0xfd, 0, 0, 0, 1] };
                for (x, y) in b.iter_mut().zip(&h[..(st.a(2) as usize % 9)]) {
                    *x = *y;
                }
                let model = if comp { M::Z(MGraph::new(false).compressed(1)) } else { M::G(MGraph::new(false)) };
                let intact = match &model {
                    M::G(g) => g.image(0),
                    M::Z(z) => z.image(0),
                };
                if bufs.len() > 5 {
                    bufs.remove(0);
                }
                bufs.push(Buf { b, intact, model, hits: 1 });
            }
            "dec" | "retry" => {
                if bufs.is_empty() {
                    continue;
                }
                let k = (st.a(0) % bufs.len() as u64) as usize;
                let v = &bufs[k];
                let again = st.op == "retry";
                let b = if again { v.intact.clone() } else { v.b.clone() };
                let kind = match meaning(&b, comp) {
                    Meaning::Exact(_) if v.hits > 0 && !again => Ctr::images_accepted_noncanonical,
                    Meaning::Exact(_) => Ctr::loads_ok,
                    Meaning::Either(_) => Ctr::loads_refused_ok,
                    Meaning::Invalid(w) => {
                        *intact.entry(w.bytes().fold(0, |h, b| mix(h, b as u64))).or_insert(0) += 1;
                        Ctr::loads_refused
                    }
                };
                run.ctr(kind, 1);
                run.ctr(Ctr::comparisons, 1);
                if again {
                    run.ctr(Ctr::retries_after_fault, 1);
                }
                run.fp(b.iter().fold(b.len() as u64, |h, x| h.rotate_left(7).wrapping_mul(0x100000001b3) ^ *x as u64));
                let m = again.then(|| v.model.clone());
                run.submit(st.client as usize, &[], &st.pre, Box::new(move || {
                    if let Some(m) = m {
                        return match decode(&b, comp)? {
                            Ok((mut o, _)) => {
                                says("retried", &mut o, &m)?;
                                Ok(3)
                            }
                            Err(e) => bad("decoded:refused", format!("the intact copy of {} bytes was refused: {e}", b.len())),
                        };
                    }
                    judge(&b, comp)
                }))?;
            }
            op => {
                if bufs.is_empty() {
                    continue;
                }
                let k = (st.a(0) % bufs.len() as u64) as usize;
                let other = bufs[(st.a(4) % bufs.len() as u64) as usize].b.clone();
                let v = &mut bufs[k];
                let n = v.b.len();
                let recs = n.saturating_sub(sh.header) / sh.rec;
                let at = |i: u64| sh.header + (i % recs.max(1) as u64) as usize * sh.rec;
                v.hits += 1;
                let c = match op {
                    "back" => {
                        // The damage is undone.
                        v.b = v.intact.clone();
                        v.hits = 0;
                        continue;
                    }
                    "flip" if n > 0 => {
                        let bit = st.a(1) as usize % (n * 8);
                        let bit = if st.a(2) % 2 == 0 { bit % (sh.header.min(n) * 8) } else { bit };
                        v.b[bit / 8] ^= 1 << (bit % 8);
                        Ctr::f_bit_flip
                    }
                    "trunc" => {
                        let keep = match st.a(2) % 4 {
                            0 => st.a(1) as usize % (n + 1),
                            1 => n.saturating_sub(sh.rec * (1 + st.a(1) as usize % 3)),
                            2 => n.saturating_sub(1 + st.a(1) as usize % 8),
                            _ => st.a(1) as usize % (sh.header + 1),
                        };
                        v.b.truncate(keep);
                        Ctr::f_truncate
                    }
                    "ext" => {
                        let more = match st.a(2) % 3 {
                            0 => sh.rec,
                            1 => 1 + st.a(1) as usize % 7,
                            _ => 1 + st.a(1) as usize % 100,
                        };
                        let sector = [16, 64, 512, 4096][st.a(1) as usize % 4];
                        // Left-over space of the last sector, as some stores hand it back.
                        let more = if st.a(2) >= 44 { sector - n % sector } else { more };
                        let fill = if st.a(2) >= 44 || st.a(3) % 2 == 0 { 0 } else { st.a(1) as u8 };
                        v.b.resize(n + more, fill);
                        Ctr::f_extend
                    }
                    "zero" if n > 0 => {
                        let s = 1 << (st.a(2) % 8);
                        let off = st.a(1) as usize % n / s * s;
                        let e = (off + s).min(n);
                        v.b[off..e].fill(0);
                        Ctr::f_zero_sector
                    }
                    "dup" if recs > 0 => {
                        let i = at(st.a(1));
                        let mut r = v.b[i..i + sh.rec].to_vec();
                        if comp && st.a(2) % 3 == 1 {
                            // the same block again with other edges
                            let e = (be64(&r, 0) ^ (1 << (st.a(3) % 64))).max(1);
                            w64(&mut r, 0, e);
                        }
                        v.b.extend_from_slice(&r);
                        Ctr::f_dup_record
                    }
                    "drop" if recs > 0 => {
                        let i = at(st.a(1));
                        v.b.drain(i..i + sh.rec);
                        Ctr::f_drop_record
                    }
                    "swap" if recs > 0 => {
                        let (i, j) = (at(st.a(1)), at(st.a(2)));
                        for x in 0..sh.rec {
                            v.b.swap(i + x, j + x);
                        }
                        Ctr::f_swap_record
                    }
                    "flop" if recs > 0 => {
                        // A record's coordinates exchanged: the mirror image, or half of it.
                        let i = at(st.a(1)) + sh.rec - 16;
                        let (a, b) = (be64(&v.b, i), be64(&v.b, i + 8));
                        w64(&mut v.b, i, b);
                        w64(&mut v.b, i + 8, a);
                        Ctr::f_swap_record
                    }
                    "field" if recs > 0 => {
                        let f = st.a(2) as usize % (sh.rec / 8);
                        let i = at(st.a(1)) + f * 8;
                        let x = vary(be64(&v.b, i), st.a(3), st.a(5));
                        w64(&mut v.b, i, x);
                        Ctr::f_header_edit
                    }
                    "edge" if recs > 0 => {
                        // Coordinates just inside or outside the stated vertex count.
                        let vc = if comp { r64(&v.b, 32) } else { r64(&v.b, 8) };
                        let lim = if comp { comp_dim(vc) } else { vc };
                        let i = at(st.a(1)) + sh.rec - 16 + (st.a(2) % 2) as usize * 8;
                        w64(&mut v.b, i, lim.wrapping_add(st.a(3) % 3).wrapping_sub(1));
                        if comp && st.a(5) % 2 == 0 {
                            let e = 1u64 << (st.a(5) / 2 % 64);
                            let i = at(st.a(1));
                            w64(&mut v.b, i, e);
                        }
                        Ctr::f_header_edit
                    }
                    "bit" if recs > 0 && comp => {
                        let i = at(st.a(1));
                        let e = be64(&v.b, i) ^ (1 << (st.a(2) % 64));
                        w64(&mut v.b, i, e);
                        Ctr::f_bit_flip
                    }
                    "head" => {
                        let fields: &[usize] = if comp { &[8, 16, 24, 32] } else { &[8, 16] };
                        let i = fields[st.a(1) as usize % fields.len()];
                        let x = vary(r64(&v.b, i), st.a(2), st.a(3));
                        w64(&mut v.b, i, x);
                        Ctr::f_header_edit
                    }
                    "word" => {
                        let i = (st.a(1) % 2) as usize * 4;
                        if n >= i + 4 {
                            let x = vary(u32::from_be_bytes(v.b[i..i + 4].try_into().unwrap()) as u64, st.a(2), st.a(3)) as u32;
                            v.b[i..i + 4].copy_from_slice(&x.to_be_bytes());
                        }
                        Ctr::f_header_edit
                    }
                    "flag" => {
                        let i = sh.header - 2 + (st.a(1) % 2) as usize;
                        if n > i {
                            v.b[i] = match st.a(2) % 4 {
                                0 => v.b[i] ^ 1,
                                1 => st.a(3) as u8,
                                2 => v.b[i].wrapping_add(1),
                                _ => (st.a(3) % 67) as u8,
                            };
                        }
                        Ctr::f_flip_flag
                    }
                    "splice" => {
                        // The tail of another file.
                        let cut = if st.a(2) % 2 == 0 { sh.header } else { st.a(1) as usize % (n + 1) };
                        let o = (cut + sh.rec * (st.a(3) as usize % 3)).min(other.len());
                        v.b.truncate(cut.min(n));
                        v.b.extend_from_slice(&other[o..]);
                        Ctr::f_splice
                    }
                    "endian" => {
                        // Written the other way round: one number, the header, or all of it.
                        let head: &[(usize, usize)] =
                            if comp { &[(0, 4), (4, 4), (8, 8), (16, 8), (24, 8), (32, 8)] } else { &[(0, 4), (4, 4), (8, 8), (16, 8)] };
                        let mut turn = |o: usize, l: usize| {
                            if o + l <= n {
                                v.b[o..o + l].reverse()
                            }
                        };
                        match st.a(2) % 4 {
                            0 => {
                                let (o, l) = head[st.a(1) as usize % head.len()];
                                turn(o, l)
                            }
                            1 => turn(0, 4),
                            2 => head.iter().for_each(|(o, l)| turn(*o, *l)),
                            _ => {
                                head.iter().for_each(|(o, l)| turn(*o, *l));
                                (0..recs * sh.rec / 8).for_each(|i| turn(sh.header + i * 8, 8));
                            }
                        }
                        Ctr::f_header_edit
                    }
                    "kind" => {
                        // An image of the other kind, or this one labelled so.
                        if st.a(2) % 2 == 0 {
                            let mut m = MGraph::new(st.a(1) % 2 == 1);
                            (0..st.a(1) % 9).for_each(|i| {
                                m.add_edge(i * 3 % 17, i * i % 17);
                            });
                            v.b = if comp { m.image(st.a(1)) } else { m.compressed(1).image(st.a(1)) };
                        } else {
                            let (a, b) = if comp { (0x7ae71ffdu32, 1u32) } else { (0x71ff7aedu32, 2u32) };
                            if n >= 8 && st.a(3) % 3 != 1 {
                                v.b[..4].copy_from_slice(&a.to_be_bytes());
                            }
                            if n >= 8 && st.a(3) % 3 != 2 {
                                v.b[4..8].copy_from_slice(&b.to_be_bytes());
                            }
                        }
                        Ctr::f_splice
                    }
                    "front" => {
                        // Something before the image: a mark, blanks, a length, a header.
                        let mut f: Vec<u8> = match st.a(2) % 5 {
                            0 => vec![0xEF, 0xBB, 0xBF],
                            1 => vec![0; 1 + st.a(1) as usize % 16],
                            2 => (n as u64).to_be_bytes().to_vec(),
                            3 => v.b[..n.min(sh.header)].to_vec(),
                            _ => vec![b' '; 1 + st.a(1) as usize % 4],
                        };
                        f.extend_from_slice(&v.b);
                        v.b = f;
                        Ctr::f_extend
                    }
                    "cat" => {
                        // Two whole images in one file.
                        if n < 100_000 && other.len() < 100_000 {
                            v.b.extend_from_slice(&other);
                        }
                        Ctr::f_splice
                    }
                    "shift" if recs > 0 => {
                        // Damage that leaves sums as they were: a bit moved within or between blocks,
                        // or one more here and one less there.
                        let (i, j) = (at(st.a(1)), if st.a(2) % 2 == 0 { at(st.a(1)) } else { at(st.a(3)) });
                        let (a, b) = (be64(&v.b, i), be64(&v.b, j));
                        if comp {
                            let (x, y) = (1u64 << (st.a(3) % 64), 1u64 << (st.a(5) % 64));
                            let from = if a & x != 0 { x } else { a & a.wrapping_neg() };
                            let to = if b & y == 0 { y } else { !b & (!b).wrapping_neg() };
                            if i == j {
                                w64(&mut v.b, i, (a & !from) | to);
                            } else if a != from {
                                w64(&mut v.b, i, a & !from);
                                w64(&mut v.b, j, b | to);
                            }
                        } else {
                            let f = (st.a(5) % 2) as usize * 8;
                            let (a, b) = (be64(&v.b, i + f), be64(&v.b, j + 8 - f));
                            w64(&mut v.b, i + f, a.wrapping_add(1));
                            w64(&mut v.b, j + 8 - f, b.wrapping_sub(1));
                        }
                        Ctr::f_bit_flip
                    }
                    "merge" => {
                        // The records of another file as well.
                        if other.len() > sh.header && n >= sh.header && n < 100_000 {
                            v.b.extend_from_slice(&other[sh.header..]);
                        }
                        Ctr::f_splice
                    }
                    "fix" => {
                        // Make the counts agree with what is there, as far as one can.
                        let cnt = n.saturating_sub(sh.header) / sh.rec;
                        w64(&mut v.b, 16, cnt as u64);
                        if comp {
                            let ec: u64 = (0..cnt).map(|i| be64(&v.b, sh.header + i * sh.rec).count_ones() as u64).sum();
                            w64(&mut v.b, 24, ec);
                            let vc = r64(&v.b, 32);
                            w64(&mut v.b, 8, comp_dim(vc));
                        }
                        if st.a(1) % 3 == 0 && !comp {
                            let top = (0..cnt).map(|i| be64(&v.b, 26 + i * 16).max(be64(&v.b, 34 + i * 16))).max();
                            if let Some(t) = top {
                                if r64(&v.b, 8) <= t {
                                    w64(&mut v.b, 8, t.saturating_add(1));
                                }
                            }
                        }
                        Ctr::f_header_edit
                    }
                    _ => continue,
                };
                run.ctr(c, 1);
                let _ = oph;
            }
        }
    }
    run.drain()?;
    // The kinds of malformation met, as states of their own.
    for (k, _) in intact {
        run.fp(mix(k, 0xBAD));
    }
    alloc::check_quarantine();
    if let Some(e) = alloc::take_error() {
        return bad("memory", e);
    }
    Ok(())
}

fn damage(r: &mut Rng, p: &mut Plan, c: u64, o: u64, comp: bool) {
    let op = ["flip", "trunc", "ext", "zero", "dup", "drop", "swap", "flop", "field", "edge", "bit", "head", "word", "flag", "splice", "merge", "shift", "endian", "kind", "front", "cat"]
        [r.weighted(&[14, 10, 6, 6, 10, 8, 4, 8, 8, 8, if comp { 12 } else { 0 }, 10, 3, 10, 4, 3, 6, 3, 2, 2, 2])];
    let small = |r: &mut Rng| if r.chance(50) { r.below(30) } else { r.next() >> 20 };
    let v = vec![o, small(r), r.below(64), small(r), r.below(6), r.next() >> r.below(60)];
    p.push(c, op, v);
}

pub fn gen(prop: &str, r: &mut Rng, seed: u64, idx: u64) -> Plan {
    let comp = prop == "C07";
    let mut p = Plan::new(prop, seed, idx);
    p.set("entropy", r.next() >> 1);
    let callers = r.weighted(&[40, 35, 25]) as u64 + 1;
    p.set("callers", callers);
    let und = r.pick(&[0, 50, 60, 100]);
    let n = match r.below(10) {
        0..=3 => r.range(2, 8),
        4..=8 => r.range(8, 30),
        _ => r.range(30, 100),
    };
    let image = |r: &mut Rng, p: &mut Plan, c: u64| {
        let mut v = vec![r.chance(und) as u64];
        let mut b = bulk_args(r, false);
        if r.chance(50) {
            b[1] = r.range(0, 12);
        }
        v.extend(b);
        v.extend([r.below(60), if r.chance(70) { 1 } else { r.below(70) }, r.below(50)]);
        p.push(c, if r.chance(70) { "img" } else { "simg" }, v);
    };
    image(r, &mut p, 0);
    if idx % 128 == 11 {
        // A few rounds with an image of many records, damaged anywhere.
        let st = p.steps.last_mut().unwrap();
        let b = bulk_args(r, true);
        // Edges that fall into as many blocks as there are edges, or into few.
        st.args[1] = b[0];
        st.args[2] = b[1].min(if r.chance(20) { 70_000 } else { 12_000 });
        st.args[3] = b[2];
        st.args[6] = st.args[6].min(2);
        for _ in 0..r.range(2, 5) {
            let c = r.below(callers);
            for _ in 0..r.weighted(&[5, 80, 15]) {
                damage(r, &mut p, c, 0, comp);
            }
            if r.chance(60) {
                p.push(c, "fix", vec![0, r.below(6)]);
            }
            p.push(c, "dec", vec![0]);
            if r.chance(50) {
                // and from an undamaged one again
                p.push(c, "back", vec![0]);
            }
        }
        return p;
    }
    for _ in 0..n {
        let c = r.below(callers);
        let o = if r.chance(60) { 0 } else { r.below(6) };
        match r.weighted(&[12, 3, 85]) {
            0 => image(r, &mut p, c),
            1 => {
                p.push(c, "raw", vec![r.below(200), r.next() >> 30, r.below(9)]);
            }
            _ => {
                for _ in 0..r.weighted(&[5, 60, 20, 15]) {
                    damage(r, &mut p, c, o, comp);
                }
                if r.chance(50) {
                    p.push(c, "fix", vec![o, r.below(6)]);
                }
                p.push(c, "dec", vec![o]);
                if r.chance(15) {
                    p.push(c, "retry", vec![o]);
                }
            }
        };
    }
    sprinkle(r, &mut p, 35, 5);
    p
}
