//! Numeric matrices of every entry type, each next to its model.
use crate::obs::*;
use crate::seams::{sut, Viol};
use crate::world_text::*;
use graphrox::error::GraphRoxError;
use graphrox::matrix::{CsrSquareMatrix, MatrixRepresentation};
use std::collections::BTreeMap;

pub trait NumBox: Send {
    fn set(&mut self, code: u64, c: u64, r: u64) -> R<()>;
    fn zero(&mut self, c: u64, r: u64) -> R<()>;
    fn inc(&mut self, c: u64, r: u64) -> R<()>;
    fn check(&self, c: u64, r: u64) -> R<()>;
    fn full(&self) -> R<()>;
    fn hash(&self) -> u64;
    fn name(&self) -> &'static str;
    fn set_wide(&mut self, code: u64, c: u64, r: u64) -> R<()>;
    /// Zeroes everything in a column, by writing zeros or by removing.
    fn clear_column(&mut self, c: u64, how: u64) -> R<()>;
    fn dim(&self) -> u64;
    fn default_digits(&self) -> usize;
    fn render(&self, digits: usize) -> Result<String, GraphRoxError>;
    fn display(&self) -> String;
    /// What the model says the text of an entry is.
    fn word(&self, c: u64, r: u64, digits: usize) -> Word;
    fn zero_word(&self, digits: usize) -> Word;
    /// The text of a matrix with the same contents and another history.
    fn twin_text(&self, digits: usize, seed: u64) -> R<String>;
}

pub trait Val: Copy + PartialEq + std::fmt::Debug + Send + 'static {
    const NAME: &'static str;
    fn of(code: u64) -> Self;
    fn plus_one(self) -> Option<Self>;
    fn is_zero(self) -> bool;
    fn none() -> Self;
    /// The same number; not-a-number is the same as itself here.
    #[allow(clippy::eq_op)]
    fn same(self, o: Self) -> bool {
        self == o || (self != self && o != o)
    }
    fn low(self) -> u64;
    /// Numbers whose text is awkward.
    fn wide(code: u64) -> Self;
    fn text(self, digits: usize) -> Word;
    const DIGITS: usize;
}
macro_rules! int { ($($t:ident),*) => { $(impl Val for $t {
    const NAME: &'static str = stringify!($t);
    fn of(code: u64) -> Self {
        match code % 16 {
            0 | 1 => 0,
            2 => $t::MAX,
            3 => $t::MIN,
            4 => (0 as $t).wrapping_sub(1),
            5 => (0 as $t).wrapping_sub(2),
            6 => $t::MAX - 1,
            k => (k - 6) as $t,
        }
    }
    fn plus_one(self) -> Option<Self> { self.checked_add(1) }
    fn is_zero(self) -> bool { self == 0 }
    fn none() -> Self { 0 }
    fn low(self) -> u64 { self as u64 }
    fn wide(code: u64) -> Self {
        let p = (10 as $t).checked_pow((code / 16 % 40) as u32).unwrap_or($t::MAX);
        match code % 16 {
            0 => p,
            1 => p - 1,
            2 => (0 as $t).wrapping_sub(p),
            3 => (1 as $t).wrapping_sub(p),
            4 => $t::MAX,
            5 => $t::MIN,
            6 | 7 => (0 as $t).wrapping_sub((code / 16 % 12) as $t),
            _ => (code / 16 % 13) as $t,
        }
    }
    fn text(self, digits: usize) -> Word { int_text(self.to_string(), digits) }
    const DIGITS: usize = 0;
})* } }
int!(u8, u16, u32, u64, u128, i8, i16, i32, i64, i128, usize, isize);
macro_rules! flt { ($($t:ident),*) => { $(impl Val for $t {
    const NAME: &'static str = stringify!($t);
    fn of(code: u64) -> Self {
        if code / 16 % 8 == 7 {
            return [$t::NAN, $t::INFINITY, $t::NEG_INFINITY, $t::MAX, $t::MIN, $t::from_bits(1), -$t::NAN, $t::EPSILON][(code % 8) as usize];
        }
        match code % 16 {
            0 => 0.0,
            1 => -0.0,
            2 => -1.0,
            3 => 0.5,
            4 => 1e-9,
            5 => -2.0,
            6 => 1e12,
            7 => -0.25,
            8 => $t::MIN_POSITIVE,
            k => (k - 8) as $t,
        }
    }
    fn plus_one(self) -> Option<Self> { Some(self + 1.0) }
    fn is_zero(self) -> bool { self == 0.0 }
    fn none() -> Self { 0.0 }
    fn low(self) -> u64 { (self as f64).to_bits() }
    fn wide(code: u64) -> Self {
        let p = (10.0 as $t).powi((code / 16 % 45) as i32 - 6);
        match code % 16 {
            0 => p,
            1 => -p,
            2 => p - 0.005,
            3 => 0.5 - p,
            4 => 9.995,
            5 => -0.04,
            6 => -0.5,
            7 => 99.5,
            8 => 1.0 / 3.0,
            9 => [$t::MAX, $t::MIN, $t::INFINITY, $t::NEG_INFINITY, $t::MIN_POSITIVE, $t::NAN, -9.96, 0.05][(code / 16 % 8) as usize],
            10 => -999.9,
            11 => -99.95,
            _ => (code / 16 % 64) as $t / 8.0 - 2.0,
        }
    }
    fn text(self, digits: usize) -> Word { float_text(self as f64, std::mem::size_of::<$t>() == 4, digits) }
    const DIGITS: usize = 2;
})* } }
flt!(f32, f64);

struct NumCell<T: Val> {
    m: Box<dyn Mat<T>>,
    model: BTreeMap<(u64, u64), T>,
    dim: u64,
}

/// The part of CsrSquareMatrix<T> that is used, so that `Numeric` need not be named.
trait Mat<T>: Send {
    fn set(&mut self, v: T, c: u64, r: u64);
    fn zero(&mut self, c: u64, r: u64);
    fn inc(&mut self, c: u64, r: u64);
    fn get(&self, c: u64, r: u64) -> T;
    fn dim(&self) -> u64;
    fn count(&self) -> u64;
    fn list(&self) -> Vec<(T, u64, u64)>;
    fn claims(&self, n: usize) -> R<()>;
    fn text(&self, digits: usize) -> Result<String, GraphRoxError>;
    fn display(&self) -> String;
    fn fresh(&self) -> Box<dyn Mat<T>>;
}
macro_rules! mats { ($($t:ident),*) => { $(impl Mat<$t> for CsrSquareMatrix<$t> {
    fn set(&mut self, v: $t, c: u64, r: u64) { self.set_entry(v, c, r) }
    fn zero(&mut self, c: u64, r: u64) { self.zero_entry(c, r) }
    fn inc(&mut self, c: u64, r: u64) { self.increment_entry(c, r) }
    fn get(&self, c: u64, r: u64) -> $t { self.get_entry(c, r) }
    fn dim(&self) -> u64 { self.dimension() }
    fn count(&self) -> u64 { self.entry_count() }
    fn list(&self) -> Vec<($t, u64, u64)> { self.into_iter().collect() }
    fn claims(&self, n: usize) -> R<()> { iterator_claims(|| self.into_iter(), n) }
    fn text(&self, digits: usize) -> Result<String, GraphRoxError> { self.to_string_with_precision(digits) }
    fn display(&self) -> String { self.to_string() }
    fn fresh(&self) -> Box<dyn Mat<$t>> { Box::new(CsrSquareMatrix::<$t>::new()) }
})*
pub fn make(kind: u64) -> Box<dyn NumBox> {
    let kinds: &[fn() -> Box<dyn NumBox>] = &[$(|| Box::new(NumCell::<$t> { m: Box::new(sut(CsrSquareMatrix::<$t>::new)), model: BTreeMap::new(), dim: 0 })),*];
    kinds[(kind % kinds.len() as u64) as usize]()
}
} }
mats!(f64, u64, i64, u8, i8, f32, u16, i16, u32, i32, u128, i128);

impl<T: Val> NumCell<T> {
    fn write(&mut self, v: T, c: u64, r: u64) -> R<()> {
        sut(|| self.m.set(v, c, r));
        if c != u64::MAX && r != u64::MAX {
            self.dim = self.dim.max(c.max(r) + 1);
            if v.is_zero() {
                self.model.remove(&(c, r));
            } else {
                self.model.insert((c, r), v);
            }
        }
        self.check(c, r)
    }
}

impl<T: Val> NumBox for NumCell<T> {
    fn set(&mut self, code: u64, c: u64, r: u64) -> R<()> {
        self.write(T::of(code), c, r)
    }
    fn set_wide(&mut self, code: u64, c: u64, r: u64) -> R<()> {
        self.write(T::wide(code), c, r)
    }
    fn clear_column(&mut self, c: u64, how: u64) -> R<()> {
        let rows: Vec<u64> = self.model.keys().filter(|k| k.0 == c).map(|k| k.1).collect();
        for (i, r) in rows.into_iter().enumerate() {
            if how >> (i % 8) & 1 == 0 {
                self.zero(c, r)?;
            } else {
                self.write(T::none(), c, r)?;
            }
        }
        Ok(())
    }
    fn dim(&self) -> u64 {
        self.dim
    }
    fn default_digits(&self) -> usize {
        T::DIGITS
    }
    fn render(&self, digits: usize) -> Result<String, GraphRoxError> {
        self.m.text(digits)
    }
    fn display(&self) -> String {
        self.m.display()
    }
    fn word(&self, c: u64, r: u64, digits: usize) -> Word {
        self.model.get(&(c, r)).copied().unwrap_or(T::none()).text(digits)
    }
    fn zero_word(&self, digits: usize) -> Word {
        T::none().text(digits)
    }
    fn twin_text(&self, digits: usize, seed: u64) -> R<String> {
        let mut l: Vec<((u64, u64), T)> = self.model.iter().map(|(k, v)| (*k, *v)).collect();
        crate::model::shuffle(&mut l, seed);
        let (dim, waste) = (self.dim, seed >> 3);
        let r = sut(|| {
            let mut t = self.m.fresh();
            // Entries that come and go must leave no mark.
            if dim > 0 {
                let (c, r) = (waste % dim, waste / 7 % dim);
                t.set(T::wide(seed >> 9), c, r);
                t.zero(c, r);
            }
            for ((c, r), v) in l {
                t.set(v, c, r);
            }
            if dim > 0 && t.dim() < dim {
                t.set(T::none(), dim - 1, 0);
            }
            t.text(digits)
        });
        r.map_err(|e| Viol::new("text:error", format!("{} matrix: {e:?}", T::NAME)))
    }
    fn zero(&mut self, c: u64, r: u64) -> R<()> {
        sut(|| self.m.zero(c, r));
        self.model.remove(&(c, r));
        self.check(c, r)
    }
    fn inc(&mut self, c: u64, r: u64) -> R<()> {
        if c == u64::MAX || r == u64::MAX {
            sut(|| self.m.inc(c, r));
            return self.check(c, r);
        }
        let old = self.model.get(&(c, r)).copied().unwrap_or(T::none());
        let Some(v) = old.plus_one() else { return Ok(()) };
        sut(|| self.m.inc(c, r));
        self.dim = self.dim.max(c.max(r) + 1);
        if v.is_zero() {
            self.model.remove(&(c, r));
        } else {
            self.model.insert((c, r), v);
        }
        self.check(c, r)
    }
    fn check(&self, c: u64, r: u64) -> R<()> {
        let want = self.model.get(&(c, r)).copied().unwrap_or(T::none());
        let (v, d, n) = sut(|| (self.m.get(c, r), self.m.dim(), self.m.count()));
        ensure!(v.same(want), "matrix:get_entry", "{} matrix: entry ({c}, {r}) is {v:?} instead of {want:?}", T::NAME);
        ensure!(d == self.dim, "matrix:dimension", "{} matrix: dimension {d} instead of {}", T::NAME, self.dim);
        ensure!(n == self.model.len() as u64, "matrix:entry_count", "{} matrix: entry count {n} with {} non-zero entries", T::NAME, self.model.len());
        Ok(())
    }
    fn full(&self) -> R<()> {
        let l = sut(|| self.m.list());
        let mut seen = BTreeMap::new();
        for (v, c, r) in &l {
            ensure!(seen.insert((*c, *r), *v).is_none(), "matrix:iteration", "{} matrix: ({c}, {r}) iterated twice", T::NAME);
        }
        let equal = seen.len() == self.model.len() && seen.iter().zip(&self.model).all(|(a, b)| a.0 == b.0 && a.1.same(*b.1));
        ensure!(equal, "matrix:iteration", "{} matrix: iterates {seen:?} instead of {:?}", T::NAME, self.model);
        self.m.claims(l.len())?;
        for (c, r) in self.model.keys().take(30) {
            self.check(*c, *r)?;
            self.check(*r, *c)?;
        }
        Ok(())
    }
    fn hash(&self) -> u64 {
        let mut h = self.dim;
        for ((c, r), v) in &self.model {
            h = crate::rng::mix(h, crate::rng::mix(*c, crate::rng::mix(*r, v.low())));
        }
        h
    }
    fn name(&self) -> &'static str {
        T::NAME
    }
}
