//! Shared generators: identifiers, edge patterns, preemption points.
use crate::plan::*;
use crate::rng::*;
use crate::seams::Pre;

/// The pool of vertex ids one run plays with.
pub fn id_pool(r: &mut Rng) -> Vec<u64> {
    let style = r.weighted(&[30, 16, 14, 12, 10, 10, 8]);
    let n = r.range(2, 24);
    let mut v = vec![];
    match style {
        0 => {
            let top = r.range(1, 40);
            v = (0..=top).collect();
        }
        1 => {
            for _ in 0..n {
                let b = r.range(0, 9) * 8;
                v.push((b + r.below(4)).saturating_sub(r.below(3)));
            }
        }
        2 => {
            let p = r.range(3, 63);
            for _ in 0..n {
                let q = if r.chance(70) { p } else { r.range(0, 63) };
                v.push((1u64 << q).wrapping_add(r.below(5)).wrapping_sub(2).min(u64::MAX - 1));
            }
        }
        3 => {
            for _ in 0..n {
                v.push(u64::MAX - r.range(1, 20));
            }
            v.push(0);
            v.push(7);
        }
        4 => {
            for _ in 0..n {
                v.push(r.next().min(u64::MAX - 1));
            }
        }
        5 => {
            let base = r.log(1 << 20);
            for _ in 0..n {
                v.push(base + r.below(40));
            }
        }
        _ => {
            for _ in 0..n {
                v.push(r.log(u64::MAX - 1));
                v.push(r.below(20));
            }
        }
    }
    v
}

pub fn small_pool(r: &mut Rng) -> Vec<u64> {
    match r.below(4) {
        0 => (0..=r.range(0, 7)).collect(),
        1 => (0..=r.range(7, 40)).collect(),
        2 => (0..r.range(3, 12)).map(|_| r.below(70)).collect(),
        _ => (0..r.range(3, 16)).map(|_| (r.range(0, 6) * 8 + r.below(3)).saturating_sub(1)).collect(),
    }
}

/// Deterministic families of edges, named by a few numbers.
pub fn pattern(kind: u64, n: u64, base: u64, seed: u64) -> Vec<(u64, u64)> {
    let base = base.min(u64::MAX - (1 << 40));
    let n = n.min(200_000);
    let mut r = Rng::new(seed ^ 0xBEEF);
    let mut v = vec![];
    match kind % 10 {
        0 => {
            let w = (((n as f64).sqrt() as u64) * (1 + seed % 4)).max(2);
            for _ in 0..n {
                v.push((base + r.below(w), base + r.below(w)));
            }
        }
        1 => (0..n).for_each(|i| v.push((base, base + i))),
        2 => (0..n).for_each(|i| v.push((base + i, base))),
        3 => {
            let s = (n as f64).sqrt() as u64 + 1;
            for i in 0..s {
                for j in 0..s {
                    v.push((base + i, base + j));
                }
            }
        }
        4 => (0..n).for_each(|i| v.push((base + i, base + i))),
        5 => (0..n).for_each(|i| v.push((base + i, base + i + 1))),
        6 => {
            // 8x8 blocks filled to a popcount near a boundary
            let blocks = (n / 24).clamp(1, 400);
            for _ in 0..blocks {
                let (c, w) = (r.below(24), r.below(24));
                let fill = if r.chance(50) { r.pick(&[1, 2, 31, 32, 33, 62, 63, 64]) } else { r.range(1, 64) };
                let mut cells: Vec<u64> = (0..64).collect();
                crate::model::shuffle(&mut cells, r.next() | 1);
                for x in &cells[..fill as usize] {
                    v.push((base / 8 * 8 + c * 8 + x % 8, base / 8 * 8 + w * 8 + x / 8));
                }
            }
        }
        7 => {
            for _ in 0..n {
                v.push((r.next().min(u64::MAX - 1), r.next().min(u64::MAX - 1)));
            }
        }
        9 => {
            // many blocks, most of them sparse, some full or nearly so
            let blocks = (n / 8).clamp(1, 4200);
            let w = ((blocks as f64).sqrt() as u64 * (1 + seed % 3)).max(2);
            for _ in 0..blocks {
                let (c, d) = (r.below(w), r.below(w));
                let fill = if r.chance(20) { r.pick(&[62, 63, 63, 64]) } else { r.range(1, 5) };
                let skip = r.below(64);
                for x in (0..64u64).map(|x| (x + skip) % 64).take(fill as usize) {
                    v.push((base / 8 * 8 + c * 8 + x % 8, base / 8 * 8 + d * 8 + x / 8));
                }
            }
        }
        _ => {
            // one b-by-b block filled completely or short of a few
            let b = r.pick(&[2, 3, 5, 6, 7, 9, 10, 11, 12, 13, 14, 15, 20, 21, 28, 49]);
            let b = b.min((n as f64).sqrt() as u64 + 2);
            let (c, w) = (r.below(3), r.below(3));
            let skip = r.below(3);
            for x in skip..b * b {
                v.push((c * b + x % b, w * b + x / b));
            }
        }
    }
    v
}

pub fn bulk_args(r: &mut Rng, big: bool) -> Vec<u64> {
    let kind = r.weighted(&[30, 8, 8, 10, 6, 8, 18, 8, 12]) as u64;
    let n = if big {
        r.pick(&[
            255, 256, 257, 512, 1000, 1024, 1025, 2048, 4095, 4096, 4097, 5000, 8192, 10_000, 16_384, 16_385, 30_000, 32_768, 65_535, 65_536,
            65_537, 70_000,
        ])
    } else {
        r.log(300)
    };
    let base = match r.below(6) {
        0 => r.log(1 << 38),
        1 => r.below(64),
        2 => r.below(8) * 8,
        _ => 0,
    };
    vec![kind, n, base, r.below(1 << 20)]
}

/// A large family whose number of edges (kinds 1, 2, 4, 5) or of blocks (kinds 4, 5, 9) matters.
pub fn wide_args(r: &mut Rng) -> Vec<u64> {
    let mut v = bulk_args(r, true);
    v[0] = r.pick(&[1, 2, 4, 4, 5, 5, 9, 9, 9, 0]);
    v
}

/// Arguments of a long list of targets: length, span, seed.
pub fn list_args(r: &mut Rng) -> Vec<u64> {
    let n = r.pick(&[16, 17, 31, 32, 33, 40, 63, 64, 65, 80, 128, 129, 200, 256, 257, 300, 600]);
    vec![n, r.pick(&[n / 4 + 1, n / 2 + 1, n, n * 2, n * 20, 1 << 40]), r.below(1 << 20)]
}
/// The list itself: ids within the span, some of them more than once.
pub fn long_list(n: u64, span: u64, seed: u64) -> Vec<u64> {
    let mut r = Rng::new(seed ^ 0x115);
    let mut v: Vec<u64> = (0..n.min(5000)).map(|_| r.below(span.max(1))).collect();
    match seed % 4 {
        0 => v.sort_unstable(),
        1 => v.sort_unstable_by(|a, b| b.cmp(a)),
        _ => {}
    }
    v
}

/// Preemption points for one operation.
pub fn preempts(r: &mut Rng, max_k: u64) -> Vec<Pre> {
    let n = 1 + (r.chance(25) as usize) + (r.chance(10) as usize);
    (0..n)
        .map(|_| Pre {
            y: if r.chance(50) { 0 } else { r.log(40) as u32 },
            k: r.log(max_k) as u32,
            hold: r.log(6) as u32,
        })
        .collect()
}

/// Adds preemption points to some steps of a plan, for about `pct` percent of plans.
pub fn sprinkle(r: &mut Rng, p: &mut Plan, pct: u64, max: u64) {
    if p.get("callers") < 2 || !r.chance(pct) || p.steps.is_empty() {
        return;
    }
    let n = r.range(1, max);
    for _ in 0..n {
        let i = r.below(p.steps.len() as u64) as usize;
        p.steps[i].pre = preempts(r, 1200);
    }
}

pub fn f(x: f64) -> u64 {
    x.to_bits()
}
pub fn unf(x: u64) -> f64 {
    f64::from_bits(x)
}
