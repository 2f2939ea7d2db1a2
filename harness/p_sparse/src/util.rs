pub use num_complex::Complex64;
use num_traits::{Num, NumCast};
use russell_lab::{NumMatrix, NumVector};
pub use russell_sparse::{NumCooMatrix, NumCscMatrix, NumCsrMatrix, Sym};
use serde::Serialize;
use serde::de::DeserializeOwned;
use std::fmt::Debug;
use std::ops::{AddAssign, MulAssign};
pub use vp_engine::*;

pub const EPS: f64 = f64::EPSILON;
pub const TINY: f64 = 1e-290;

/// scalar of a sparse matrix (real or complex)
pub trait Sc: AddAssign + MulAssign + Num + NumCast + Copy + DeserializeOwned + Serialize + Debug + Default + 'static {
    fn make(re: f64, im: f64) -> Self;
    fn mag(self) -> f64;
    fn parts(self) -> (f64, f64);
    const COMPLEX: bool;
}
impl Sc for f64 {
    fn make(re: f64, _: f64) -> Self {
        re
    }
    fn mag(self) -> f64 {
        self.abs()
    }
    fn parts(self) -> (f64, f64) {
        (self, 0.0)
    }
    const COMPLEX: bool = false;
}
impl Sc for Complex64 {
    fn make(re: f64, im: f64) -> Self {
        Complex64::new(re, im)
    }
    fn mag(self) -> f64 {
        f64::hypot(self.re, self.im)
    }
    fn parts(self) -> (f64, f64) {
        (self.re, self.im)
    }
    const COMPLEX: bool = true;
}

pub fn value(g: &mut G) -> f64 {
    match g.draw(6) {
        0 | 1 => g.int(-9, 9) as f64,
        2 => g.flog(-30.0, 30.0),
        3 => g.entry(),
        _ => g.uni(-10.0, 10.0),
    }
}

pub fn scalar<T: Sc>(g: &mut G) -> T {
    let a = value(g);
    let b = if T::COMPLEX { value(g) } else { 0.0 };
    T::make(a, b)
}

pub fn coefficient<T: Sc>(g: &mut G) -> T {
    match g.draw(5) {
        0 => T::make(1.0, 0.0),
        1 => T::make(-1.0, 0.0),
        2 => T::make(0.0, 0.0),
        _ => scalar(g),
    }
}

pub fn vector<T: Sc>(g: &mut G, n: usize) -> Vec<T> {
    (0..n).map(|_| scalar(g)).collect()
}

pub fn nv<T: Sc>(x: &[T]) -> NumVector<T> {
    NumVector::from(&x.to_vec())
}

pub const SYMS: [Sym; 4] = [Sym::No, Sym::YesFull, Sym::YesLower, Sym::YesUpper];

pub fn sym(g: &mut G) -> Sym {
    *g.pick(&SYMS)
}

/// sequence of triplets and what it means
#[derive(Clone, Debug)]
pub struct Trip<T: Sc> {
    pub m: usize,
    pub n: usize,
    pub sym: Sym,
    pub e: Vec<(usize, usize, T)>,
}

impl<T: Sc> Trip<T> {
    /// dense values and, for each entry, the sum of magnitudes of the terms
    pub fn dense(&self) -> (Vec<Vec<T>>, Vec<Vec<f64>>) {
        let mut a = vec![vec![T::zero(); self.n]; self.m];
        let mut s = vec![vec![0.0; self.n]; self.m];
        for &(i, j, x) in &self.e {
            a[i][j] += x;
            s[i][j] += x.mag();
            if self.sym.triangular() && i != j {
                a[j][i] += x;
                s[j][i] += x.mag();
            }
        }
        (a, s)
    }
    pub fn coo(&self, extra: usize) -> Result<NumCooMatrix<T>, Stop> {
        let mut c = must("new", "new", NumCooMatrix::new(self.m, self.n, (self.e.len() + extra).max(1), self.sym))?;
        for &(i, j, x) in &self.e {
            must("put", "put", c.put(i, j, x))?;
        }
        Ok(c)
    }
    pub fn show(&self, g: &mut G, name: &str) {
        g.show(name, &format!("{}x{} {:?} {:?}", self.m, self.n, self.sym, self.e));
    }
}

/// `sym` decides the dimensions (square) and which positions are generated; YesFull gets mirrored triplets
pub fn triplets<T: Sc>(g: &mut G, sy: Sym, max_dim: usize) -> Trip<T> {
    // rarely, many more rows or columns than entries in most of them
    let large = max_dim >= 5 && g.chance(1, 60);
    if large {
        g.class("dimensions up to 60");
    }
    let m = if large { g.us(1, 60) } else { g.us(1, max_dim) };
    let n = if sy != Sym::No {
        m
    } else if large {
        g.us(1, 60)
    } else {
        g.us(1, max_dim)
    };
    triplets_mn(g, sy, m, n)
}

pub fn triplets_mn<T: Sc>(g: &mut G, sy: Sym, m: usize, n: usize) -> Trip<T> {
    let k = match g.draw(4) {
        0 => g.us(1, 4),
        1 => g.us(1, (m * n).min(200)),
        2 => g.us(1, (2 * m * n).min(300)),
        _ => g.us(1, 3 * usize::max(m, n)),
    };
    let mut e = Vec::new();
    let dup = g.draw(4);
    for _ in 0..k {
        let (i, j) = if dup > 0 && !e.is_empty() && g.draw(4) < dup {
            // repeat an earlier position
            let q: &(usize, usize, T) = &e[g.us(0, e.len() - 1)];
            (q.0, q.1)
        } else {
            let i = g.us(0, m - 1);
            let j = g.us(0, n - 1);
            match sy {
                Sym::YesLower => (i.max(j), i.min(j)),
                Sym::YesUpper => (i.min(j), i.max(j)),
                _ => (i, j),
            }
        };
        let x = scalar::<T>(g);
        e.push((i, j, x));
        if sy == Sym::YesFull && i != j {
            e.push((j, i, x));
        }
    }
    Trip { m, n, sym: sy, e }
}

pub fn scnear<T: Sc>(key: &'static str, what: &str, a: T, b: T, tol: f64) -> R {
    let d = (a - b).mag();
    ensure!(d <= tol || (a == b), key, "{what}: got {a:?}, expected {b:?} (|diff| = {d:e} > tol = {tol:e})");
    Ok(())
}

/// compares with the model up to rounding of the summation
pub fn same_dense<T: Sc>(key: &'static str, what: &str, a: &NumMatrix<T>, t: &Trip<T>) -> R {
    let (d, s) = t.dense();
    ensure!(a.dims() == (t.m, t.n), key, "{what}: dimensions {:?}", a.dims());
    let k = t.e.len() as f64 + 2.0;
    for i in 0..t.m {
        for j in 0..t.n {
            scnear(key, &format!("{what}[{i},{j}]"), a.get(i, j), d[i][j], k * EPS * s[i][j] + TINY)?;
        }
    }
    Ok(())
}

/// compares two dense matrices exactly
pub fn equal_dense<T: Sc>(key: &'static str, what: &str, a: &NumMatrix<T>, b: &NumMatrix<T>) -> R {
    ensure!(a.dims() == b.dims(), key, "{what}: dimensions {:?} and {:?}", a.dims(), b.dims());
    for i in 0..a.nrow() {
        for j in 0..a.ncol() {
            ensure!(a.get(i, j) == b.get(i, j), key, "{what}[{i},{j}]: {:?} and {:?}", a.get(i, j), b.get(i, j));
        }
    }
    Ok(())
}
