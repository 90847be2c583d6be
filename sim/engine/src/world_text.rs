//! Text (C19): matrices, graphs and compressed graphs are rendered at any point of their
//! histories, by several callers, with and without refused memory. The text must show exactly the
//! current contents, in aligned columns, whatever happened before.
use crate::alloc;
use crate::model::*;
use crate::num::NumBox;
use crate::obs::*;
use crate::seams::*;

use graphrox::error::GraphRoxError;
use graphrox::matrix::CsrAdjacencyMatrix;
use graphrox::{Graph, GraphRepresentation};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};

/// What an entry may read. Zero rounded from below may keep its sign.
pub struct Word {
    pub text: String,
    pub or: Option<String>,
}
impl Word {
    pub fn new(text: String) -> Word {
        let zero = text.bytes().all(|b| matches!(b, b'-' | b'0' | b'.'));
        let or = zero.then(|| text.strip_prefix('-').map(|t| t.to_string()).unwrap_or_else(|| format!("-{text}")));
        Word { text, or }
    }
}

/// A float with `d` decimals; what the formatter cannot do itself is zeros.
pub fn float_text(v: f64, narrow: bool, d: usize) -> Word {
    if !v.is_finite() {
        return Word { text: format!("{v}"), or: None };
    }
    let k = d.min(1100);
    let mut t = if narrow { format!("{:.k$}", v as f32) } else { format!("{v:.k$}") };
    t.extend(std::iter::repeat_n('0', d - k));
    Word::new(t)
}
pub fn int_text(v: String, d: usize) -> Word {
    let mut t = v;
    if d > 0 {
        t.push('.');
        t.extend(std::iter::repeat_n('0', d));
    }
    Word { text: t, or: None }
}

/// The text as a grid of cells, if it is laid out as documented.
fn grid(s: &str, dim: u64) -> R<Vec<Vec<&str>>> {
    if dim == 0 {
        ensure!(s.is_empty(), "text:layout", "an empty matrix renders as {:?}", clip(s));
        return Ok(vec![]);
    }
    let mut out = vec![];
    let mut width = None;
    for l in s.split("\r\n") {
        let Some(l) = l.strip_prefix("[ ").and_then(|l| l.strip_suffix(" ]")) else {
            return bad("text:layout", format!("row {} of the text is {:?}", out.len(), clip(l)));
        };
        let cells: Vec<&str> = l.split(", ").collect();
        ensure!(cells.len() as u64 == dim, "text:layout", "row {} has {} columns instead of {dim}: {:?}", out.len(), cells.len(), clip(l));
        for c in &cells {
            ensure!(*width.get_or_insert(c.len()) == c.len(), "text:aligned", "entries are {} and {} wide: {:?}", width.unwrap(), c.len(), clip(l));
        }
        out.push(cells);
    }
    ensure!(out.len() as u64 == dim, "text:layout", "{} rows instead of {dim}", out.len());
    Ok(out)
}
fn clip(s: &str) -> String {
    s.chars().take(120).collect()
}

/// The text shows `at(col, row)` everywhere, each entry padded to the width of the longest (a
/// zero counts even if there is none).
fn shows(s: &str, dim: u64, zero: Word, mut at: impl FnMut(u64, u64) -> Word) -> R<()> {
    let g = grid(s, dim)?;
    let (mut least, mut most) = (0, zero.text.len());
    for (r, row) in g.iter().enumerate() {
        for (c, cell) in row.iter().enumerate() {
            let w = at(c as u64, r as u64);
            let t = cell.trim_start_matches(' ');
            ensure!(t == w.text || Some(t) == w.or.as_deref(), "text:entry", "column {c}, row {r} reads {:?} instead of {:?}", clip(cell), clip(&w.text));
            let o = w.or.as_ref().map(|o| o.len()).unwrap_or(w.text.len());
            least = least.max(w.text.len().min(o));
            most = most.max(w.text.len().max(o));
        }
    }
    if let Some(c) = g.first().and_then(|r| r.first()) {
        ensure!((least..=most).contains(&c.len()), "text:width", "entries are {} wide, the longest needs {most}: {:?}", c.len(), clip(s));
    }
    Ok(())
}

/// Rendering is slow: a run may spend so many output bytes on it, and no more.
static SPENT: AtomicU64 = AtomicU64::new(0);
const BUDGET: u64 = 5 << 20;

pub enum Size {
    Skip,
    Fits,
    TooLarge,
}
fn size(dim: u64, digits: u64) -> Size {
    let entry = (digits as u128 + 3).min(1 << 66);
    let n = (dim as u128 * dim as u128).saturating_mul(entry);
    if n > 1 << 50 && dim > 0 {
        Size::TooLarge
    } else if n <= 1 << 21 && SPENT.fetch_add(n as u64, SeqCst) + n as u64 <= BUDGET {
        Size::Fits
    } else {
        Size::Skip
    }
}

/// Renders, with the large requests refused first if `oom`, and says how many were.
fn render(name: &str, dim: u64, digits: u64, oom: bool, f: impl Fn() -> Result<String, GraphRoxError>) -> R<(Option<String>, u64, u64)> {
    match size(dim, digits) {
        Size::Skip => Ok((None, 0, 0)),
        Size::TooLarge => {
            match sut(&f) {
                Err(GraphRoxError::CapacityOverflow(_)) => {}
                Err(e) => return bad("text:error", format!("{name}: an impossible text is refused with {e:?}")),
                Ok(s) => return bad("text:error", format!("{name}: a text of dimension {dim} and {digits} decimals has {} bytes", s.len())),
            }
            Ok((None, 0, 1))
        }
        Size::Fits => {
            let mut fired = 0;
            // Only a request as large as the text itself is certainly for the text.
            let least = dim as u128 * dim as u128 * (digits as u128 + if digits > 0 { 2 } else { 1 } + 2);
            if oom && least >= 2048 {
                alloc::set_fault(alloc::Fault { min_size: least as usize, skip: 0, refuse: 1 });
                let r = sut(&f);
                fired = alloc::clear_fault();
                match r {
                    Err(GraphRoxError::CapacityOverflow(_)) if fired > 0 => {}
                    Err(e) => return bad("text:error", format!("{name}: {e:?} after {fired} refused requests")),
                    Ok(_) => ensure!(fired == 0, "text:error", "{name}: succeeded although its memory was refused"),
                }
            }
            match sut(&f) {
                Ok(s) => Ok((Some(s), fired as u64, 0)),
                Err(e) => bad("text:error", format!("{name}: {e:?}")),
            }
        }
    }
}

/// A numeric matrix at some point of its history.
pub fn num_text(n: &dyn NumBox, digits: u64, oom: bool, twin: u64) -> R<(u64, u64)> {
    let dim = n.dim();
    let name = format!("{} matrix", n.name());
    let d = digits as usize;
    let (s, fired, large) = render(&name, dim, digits, oom, || n.render(d))?;
    let Some(s) = s else { return Ok((fired, large)) };
    let zero = n.zero_word(if dim > 0 { d } else { 0 });
    shows(&s, dim, zero, |c, r| n.word(c, r, d))?;
    if twin % 2 == 1 {
        let t = n.twin_text(d, twin)?;
        ensure!(s == t, "text:history", "{name}: equal contents reached by another history render as {:?}, not {:?}", clip(&t), clip(&s));
    }
    if d == n.default_digits() {
        let t = sut(|| n.display());
        ensure!(s == t, "text:display", "{name}: Display gives {:?}, not {:?}", clip(&t), clip(&s));
    }
    Ok((fired, large))
}

pub fn adj_text(a: &CsrAdjacencyMatrix, m: &MGraph, oom: bool) -> R<(u64, u64)> {
    let (s, x, y) = render("adjacency matrix", m.vc, 0, oom, || a.try_to_string())?;
    if let Some(s) = s {
        shows(&s, m.vc, int_text("0".into(), 0), |c, r| int_text((m.edges.contains(&(c, r)) as u8).to_string(), 0))?;
        let t = sut(|| a.to_string());
        ensure!(s == t, "text:display", "adjacency matrix: Display gives {:?}, not {:?}", clip(&t), clip(&s));
    }
    Ok((x, y))
}

/// A graph, what it compresses to, or what it pools to.
pub fn graph_text(g: &Graph, m: &MGraph, kind: u64, arg: u64, digits: u64, oom: bool) -> R<(u64, u64)> {
    let d = digits as usize;
    match kind % 3 {
        0 => {
            let (s, a, b) = render("graph", m.vc, 0, oom, || g.matrix_string())?;
            if let Some(s) = s {
                shows(&s, m.vc, int_text("0".into(), 0), |c, r| Word { text: if m.edges.contains(&(c, r)) { "1" } else { "0" }.into(), or: None })?;
            }
            Ok((a, b))
        }
        1 => {
            let lv = (arg % 65) as u8;
            let w = m.compressed(lv);
            if m.vc == 0 {
                return Ok((0, 0));
            }
            let z = sut(|| g.compress(lv));
            let dim = comp_dim(m.vc);
            let (s, a, b) = render("compressed graph", dim, 0, oom, || z.matrix_string())?;
            if let Some(s) = s {
                shows(&s, dim, int_text("0".into(), 0), |c, r| int_text(w.blocks.get(&(c, r)).copied().unwrap_or(0).to_string(), 0))?;
            }
            Ok((a, b))
        }
        _ => {
            let (b, dim) = m.pool_shape(arg);
            let p = sut(|| g.find_avg_pool_matrix(arg));
            let (s, x, y) = render("pooled matrix", dim, digits, oom, || p.to_string_with_precision(d))?;
            if let Some(s) = s {
                let counts = if m.vc == 0 { Default::default() } else { m.blocks(b) };
                // The entries themselves are C09's matter; here the text is of the entries.
                shows(&s, dim, float_text(0.0, false, if dim > 0 { d } else { 0 }), |c, r| {
                    let v = sut(|| graphrox::matrix::MatrixRepresentation::get_entry(&p, c, r));
                    float_text(v, false, d)
                })?;
                for ((c, r), k) in counts.iter().take(4) {
                    let v = sut(|| graphrox::matrix::MatrixRepresentation::get_entry(&p, *c, *r));
                    let a = average(*k, b);
                    ensure!((v - a).abs() <= a * 1e-12, "text:pool", "pooled entry ({c}, {r}) is {v} instead of {a}");
                }
            }
            Ok((x, y))
        }
    }
}
