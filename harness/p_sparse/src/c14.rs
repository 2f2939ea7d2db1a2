use crate::util::*;
use russell_lab::{ComplexVector, NumVector, Vector};
use russell_sparse::{ComplexLinSolver, Genie, LinSolParams, LinSolver, Ordering, Scaling, StatsLinSol};

/// real and complex solvers behind one interface
trait Dir: Sc {
    type L;
    fn solver() -> Result<Self::L, &'static str>;
    fn factorize(s: &mut Self::L, a: &NumCooMatrix<Self>, p: Option<LinSolParams>) -> Result<(), &'static str>;
    fn solve(s: &mut Self::L, x: &mut Vec<Self>, b: &[Self]) -> Result<(), &'static str>;
    fn compute(a: &NumCooMatrix<Self>, x: &mut Vec<Self>, b: &[Self], p: Option<LinSolParams>) -> Result<Self::L, &'static str>;
    fn stats(s: &Self::L) -> StatsLinSol;
    fn unavailable() -> bool;
}

macro_rules! dir {
    ($t:ty, $l:ident, $v:ident) => {
        impl Dir for $t {
            type L = $l<'static>;
            fn solver() -> Result<Self::L, &'static str> {
                $l::new(Genie::Umfpack)
            }
            fn factorize(s: &mut Self::L, a: &NumCooMatrix<Self>, p: Option<LinSolParams>) -> Result<(), &'static str> {
                s.actual.factorize(a, p)
            }
            fn solve(s: &mut Self::L, x: &mut Vec<Self>, b: &[Self]) -> Result<(), &'static str> {
                let mut xx: $v = NumVector::from(x);
                let bb: $v = NumVector::from(&b.to_vec());
                let r = s.actual.solve(&mut xx, &bb, false);
                *x = xx.as_data().to_vec();
                r
            }
            fn compute(a: &NumCooMatrix<Self>, x: &mut Vec<Self>, b: &[Self], p: Option<LinSolParams>) -> Result<Self::L, &'static str> {
                let mut xx: $v = NumVector::from(x);
                let bb: $v = NumVector::from(&b.to_vec());
                let r = $l::compute(Genie::Umfpack, &mut xx, a, &bb, p);
                *x = xx.as_data().to_vec();
                r
            }
            fn stats(s: &Self::L) -> StatsLinSol {
                let mut st = StatsLinSol::new();
                s.actual.update_stats(&mut st);
                st
            }
            fn unavailable() -> bool {
                $l::new(Genie::Mumps).is_err() && $l::new(Genie::Cudss).is_err()
            }
        }
    };
}
dir!(f64, LinSolver, Vector);
dir!(Complex64, ComplexLinSolver, ComplexVector);

fn params(g: &mut G) -> Option<LinSolParams> {
    if g.chance(1, 4) {
        return None;
    }
    let mut p = LinSolParams::new();
    p.ordering = *g.pick(&[
        Ordering::Auto,
        Ordering::Amd,
        Ordering::Amf,
        Ordering::Best,
        Ordering::BtfColamd,
        Ordering::Cholmod,
        Ordering::Colamd,
        Ordering::Metis,
        Ordering::No,
        Ordering::Pord,
        Ordering::Qamd,
        Ordering::Scotch,
    ]);
    p.scaling = *g.pick(&[
        Scaling::Auto,
        Scaling::Column,
        Scaling::Diagonal,
        Scaling::Max,
        Scaling::No,
        Scaling::RowCol,
        Scaling::RowColIter,
        Scaling::RowColRig,
        Scaling::Sum,
    ]);
    p.compute_determinant = g.chance(1, 3);
    p.positive_definite = g.chance(1, 5);
    p.compute_condition_numbers = g.chance(1, 5);
    p.compute_error_estimates = g.chance(1, 5);
    p.umfpack_enforce_unsymmetric_strategy = g.chance(1, 4);
    Some(p)
}

fn moderate<T: Sc>(g: &mut G) -> T {
    let a = if g.bool() { g.uni(-3.0, 3.0) } else { g.int(-4, 4) as f64 };
    let b = if T::COMPLEX { g.uni(-3.0, 3.0) } else { 0.0 };
    T::make(a, b)
}

/// positions of a non-singular pattern: a permutation plus fill-in
fn positions(g: &mut G, n: usize, symmetric: bool) -> (Vec<usize>, Vec<(usize, usize)>) {
    let perm = if symmetric { (0..n).collect() } else { g.perm(n) };
    let mut pos = Vec::new();
    let fill = *g.pick(&[0usize, 1, 2, 4]);
    match g.draw(4) {
        0 if n <= 12 => {
            for i in 0..n {
                for j in 0..n {
                    if perm[i] != j {
                        pos.push((i, j));
                    }
                }
            }
        }
        1 => {
            for i in 1..n {
                pos.push((i, perm[i - 1]));
                pos.push((i - 1, perm[i]));
            }
        }
        _ => {
            for _ in 0..fill * n {
                let (i, j) = (g.us(0, n - 1), g.us(0, n - 1));
                if perm[i] != j {
                    pos.push((i, j));
                }
            }
        }
    }
    if symmetric {
        let mut q: Vec<(usize, usize)> = pos.iter().filter(|p| p.0 > p.1).cloned().collect();
        q.sort();
        q.dedup();
        pos = q.iter().map(|p| (p.1, p.0)).collect();
        pos.extend(q);
    } else {
        pos.sort();
        pos.dedup();
    }
    (perm, pos)
}

/// values that make the matrix dominant along the permutation (hence non-singular)
fn dominant<T: Sc>(g: &mut G, n: usize, perm: &[usize], pos: &[(usize, usize)], symmetric: bool) -> Vec<(usize, usize, T)> {
    let scaled = !symmetric && g.chance(1, 4);
    let rs: Vec<f64> = (0..n).map(|_| if scaled { g.plog(-5.0, 5.0) } else { 1.0 }).collect();
    let mut sum = vec![0.0; n];
    let mut e = Vec::new();
    let margin = g.uni(0.05, 2.0);
    if symmetric {
        let half = pos.len() / 2;
        for k in 0..half {
            let v = moderate::<T>(g);
            let (i, j) = pos[k];
            e.push((i, j, v));
            e.push((j, i, v));
            sum[i] += v.mag();
            sum[j] += v.mag();
        }
    } else {
        for &(i, j) in pos {
            let v = moderate::<T>(g) * T::make(rs[i], 0.0);
            e.push((i, j, v));
            sum[i] += v.mag();
        }
    }
    for i in 0..n {
        let m = sum[i] + margin * rs[i];
        let th = g.uni(0.0, 6.28);
        let d = if T::COMPLEX { T::make(m * th.cos(), m * th.sin()) } else { T::make(if g.bool() { m } else { -m }, 0.0) };
        e.push((i, perm[i], d));
    }
    e
}

/// splits entries into duplicates and shuffles
fn scramble<T: Sc>(g: &mut G, e: Vec<(usize, usize, T)>) -> Vec<(usize, usize, T)> {
    let mut out = Vec::new();
    let dup = g.chance(1, 3);
    for q in e {
        if dup && g.chance(1, 3) {
            let h = T::make(0.5, 0.0) * q.2;
            out.push((q.0, q.1, h));
            out.push((q.0, q.1, q.2 - h));
        } else {
            out.push(q);
        }
    }
    let p = g.perm(out.len());
    p.iter().map(|&k| out[k]).collect()
}

fn system<T: Sc>(g: &mut G) -> (Trip<T>, Vec<usize>, Vec<(usize, usize)>) {
    let n = match g.draw(8) {
        0 | 1 | 2 => g.us(1, 4),
        3 | 4 | 5 => g.us(1, 12),
        6 => g.us(1, 40),
        _ => g.rare(1, 120, 500),
    };
    let symmetric = g.chance(1, 3);
    let (perm, pos) = positions(g, n, symmetric);
    let e = dominant::<T>(g, n, &perm, &pos, symmetric);
    let e = scramble(g, e);
    (Trip { m: n, n, sym: if symmetric { Sym::YesFull } else { Sym::No }, e }, perm, pos)
}

/// residual of a solution at rounding level, row by row
fn residual<T: Sc>(key: &'static str, t: &Trip<T>, x: &[T], b: &[T]) -> R {
    let mut r: Vec<T> = b.to_vec();
    let mut s: Vec<f64> = b.iter().map(|z| z.mag()).collect();
    let xm = x.iter().fold(0.0, |m, z| f64::max(m, z.mag()));
    for &(i, j, v) in &t.e {
        let p = v * x[j];
        r[i] = r[i] - p;
        s[i] += v.mag() * xm;
    }
    let tol = 100.0 * (t.n as f64 + 5.0) * EPS;
    for i in 0..t.m {
        ensure!(x[i].mag().is_finite(), key, "x[{i}] = {:?}", x[i]);
        ensure!(r[i].mag() <= tol * s[i], key, "residual[{i}] = {:e} > {:e}; x = {:?}", r[i].mag(), tol * s[i], x);
    }
    Ok(())
}

fn solve_t<T: Dir>(g: &mut G) -> R {
    let (t, perm, pos) = system::<T>(g);
    let p = params(g);
    t.show(g, "t");
    g.show("params", &p.map(|p| (p.ordering, p.scaling, p.compute_determinant, p.umfpack_enforce_unsymmetric_strategy)));
    let coo = t.coo(0)?;
    let mut s = must("new", "new", T::solver())?;
    let mut x: Vec<T> = vector(g, t.n);
    let x_stale = x.clone();
    let b: Vec<T> = (0..t.n).map(|_| moderate(g)).collect();
    must_err("order", "solve before factorize", T::solve(&mut s, &mut x, &b))?;
    must("factorize", "factorize", T::factorize(&mut s, &coo, p))?;
    // several right-hand sides
    let nrhs = g.us(1, 3);
    for k in 0..nrhs {
        let b: Vec<T> = if k == 0 { b.clone() } else { (0..t.n).map(|_| moderate(g)).collect() };
        must("solve", "solve", T::solve(&mut s, &mut x, &b))?;
        residual("residual", &t, &x, &b)?;
        let mut x2 = x_stale.clone();
        must("solve", "solve again", T::solve(&mut s, &mut x2, &b))?;
        ensure!(x == x2, "repeat", "the same system solved again gives another solution: {:?} {:?}", x, x2);
        let mut f = must("new", "new", T::solver())?;
        must("factorize", "fresh", T::factorize(&mut f, &coo, p))?;
        let mut x3 = vec![T::zero(); t.n];
        must("solve", "fresh", T::solve(&mut f, &mut x3, &b))?;
        ensure!(x == x3, "fresh", "a fresh solver gives another solution: {:?} {:?}", x, x3);
        let mut x4 = vec![T::zero(); t.n];
        must("compute", "compute", T::compute(&coo, &mut x4, &b, p))?;
        ensure!(x == x4, "compute", "the single-use solver gives another solution: {:?} {:?}", x, x4);
    }
    // wrong vectors
    let mut w = vec![T::zero(); t.n + 1];
    must_err("dims", "x", T::solve(&mut s, &mut w, &b))?;
    must_err("dims", "rhs", T::solve(&mut s, &mut x, &w))?;
    // new values on the same structure
    let e = dominant::<T>(g, t.n, &perm, &pos, t.sym != Sym::No);
    let mut t2 = t.clone();
    let mut by: std::collections::HashMap<(usize, usize), T> = e.iter().map(|q| ((q.0, q.1), q.2)).collect();
    for q in &mut t2.e {
        // the first of the duplicates takes the value
        q.2 = by.insert((q.0, q.1), T::zero()).unwrap_or(T::zero());
    }
    t2.show(g, "t2");
    must("refactorize", "new values", T::factorize(&mut s, &t2.coo(0)?, None))?;
    must("solve", "after new values", T::solve(&mut s, &mut x, &b))?;
    residual("refactorize", &t2, &x, &b)?;
    if let Some(q) = p {
        let st = T::stats(&s);
        let r = st.output.umfpack_rcond_estimate;
        ensure!(r > 0.0 && r <= 1.0 + 1e-10, "rcond", "rcond estimate {r}");
        let _ = q;
    }
    g.class(if T::COMPLEX { "complex" } else { "real" });
    if t.n > 1 {
        g.hit();
    }
    Ok(())
}

fn solve(g: &mut G) -> R {
    if g.bool() { solve_t::<f64>(g) } else { solve_t::<Complex64>(g) }
}

/// histories of legal and illegal calls
fn history_t<T: Dir>(g: &mut G) -> R {
    let n = g.us(1, 6);
    let symmetric = g.chance(1, 4);
    let sy = if symmetric { Sym::YesFull } else { Sym::No };
    let (perm, pos) = positions(g, n, symmetric);
    let mut s = must("new", "new", T::solver())?;
    let mut structure: Option<usize> = None; // number of triplets of the accepted structure
    let mut current: Option<Trip<T>> = None; // factorized matrix
    let mut must_fail = false; // the last factorization was refused after the values had been taken
    let first = {
        let e = dominant::<T>(g, n, &perm, &pos, symmetric);
        Trip { m: n, n, sym: sy, e: scramble(g, e) }
    };
    let steps = g.us(2, 9);
    let (mut solves, mut refused) = (0, 0);
    for _ in 0..steps {
        let op = g.draw(10);
        match op {
            0 | 1 | 2 | 3 => {
                let b: Vec<T> = (0..n).map(|_| moderate(g)).collect();
                let mut x: Vec<T> = vector(g, n);
                g.show("solve", &b);
                let r = T::solve(&mut s, &mut x, &b);
                match &current {
                    Some(t) if !must_fail => {
                        must("solve", "solve", r)?;
                        residual("history", t, &x, &b)?;
                        solves += 1;
                    }
                    _ => {
                        must_err("stale", "solve without a valid factorization", r)?;
                        refused += 1;
                    }
                }
            }
            4 | 5 => {
                // (re)factorize with new values on the same structure
                let mut t = first.clone();
                let e = dominant::<T>(g, n, &perm, &pos, symmetric);
                let mut by: std::collections::HashMap<(usize, usize), T> = e.iter().map(|q| ((q.0, q.1), q.2)).collect();
                for q in &mut t.e {
                    q.2 = by.insert((q.0, q.1), T::zero()).unwrap_or(T::zero());
                }
                t.show(g, "factorize");
                let p = if structure.is_none() { params(g) } else { None };
                must("factorize", "same structure", T::factorize(&mut s, &t.coo(0)?, p))?;
                structure = Some(t.e.len());
                current = Some(t);
                must_fail = false;
            }
            6 => {
                // singular values on the same structure: a row of zeros or (dense) two equal rows
                let mut t = first.clone();
                let r = g.us(0, n - 1);
                for q in &mut t.e {
                    if q.0 == r || symmetric && q.1 == r {
                        q.2 = T::zero();
                    }
                }
                let p = if structure.is_none() { params(g) } else { None };
                t.show(g, "singular");
                g.show("params", &p.map(|p| (p.ordering, p.scaling, p.compute_determinant)));
                must_err("singular", "a matrix with a row of zeros was accepted", T::factorize(&mut s, &t.coo(0)?, p))?;
                structure = Some(t.e.len());
                current = None;
                must_fail = true;
                refused += 1;
            }
            7 => {
                // another structure
                let mut t = first.clone();
                let what = g.draw(4);
                match what {
                    0 => t.e.push((0, 0, T::one())),
                    1 => {
                        t.m += 1;
                        t.n += 1;
                        t.e.push((n, n, T::one()));
                    }
                    2 => t.sym = if symmetric { Sym::No } else { Sym::YesFull },
                    _ => t.n += 1,
                }
                if what == 3 && t.sym != Sym::No {
                    continue;
                }
                if structure.is_none() && what != 3 {
                    continue;
                }
                t.show(g, "structure");
                must_err("structure", "another structure was accepted", T::factorize(&mut s, &t.coo(0)?, None))?;
                refused += 1;
            }
            8 => {
                if structure.is_some() {
                    must_err("parameters", "parameters given again", T::factorize(&mut s, &first.coo(0)?, Some(LinSolParams::new())))?;
                    refused += 1;
                } else {
                    // unsupported storage or empty matrix at first
                    let sy = *g.pick(&[Sym::YesLower, Sym::YesUpper]);
                    let mut c = must("new", "new", NumCooMatrix::<T>::new(n, n, n, sy))?;
                    for i in 0..n {
                        must("put", "put", c.put(i, i, T::one()))?;
                    }
                    must_err("storage", "triangular storage", T::factorize(&mut s, &c, None))?;
                    let c = must("new", "new", NumCooMatrix::<T>::new(n, n, n, Sym::No))?;
                    must_err("empty", "empty matrix", T::factorize(&mut s, &c, None))?;
                    refused += 1;
                }
            }
            _ => {
                // wrong vectors
                let mut x = vec![T::zero(); n];
                let b = vec![T::one(); n + 1];
                must_err("dims", "rhs", T::solve(&mut s, &mut x, &b))?;
                let mut x = vec![T::zero(); n + 1];
                let b = vec![T::one(); n];
                must_err("dims", "x", T::solve(&mut s, &mut x, &b))?;
            }
        }
    }
    if solves > 0 {
        g.class("solved");
    }
    if refused > 0 {
        g.class("refused");
    }
    if solves > 0 && refused > 0 {
        g.hit();
    }
    ensure!(T::unavailable(), "unavailable", "a solver that is not compiled in was created");
    Ok(())
}

fn history(g: &mut G) -> R {
    if g.bool() { history_t::<f64>(g) } else { history_t::<Complex64>(g) }
}

/// the sparsity pattern changes although the counts do not
fn pattern_t<T: Dir>(g: &mut G) -> R {
    let n = g.us(2, 7);
    let (perm, pos) = positions(g, n, false);
    let e = dominant::<T>(g, n, &perm, &pos, false);
    let t = Trip { m: n, n, sym: Sym::No, e };
    let perm2 = g.perm(n);
    let mut pos2 = Vec::new();
    let mut used: std::collections::HashSet<(usize, usize)> = (0..n).map(|i| (i, perm2[i])).collect();
    let mut tries = 0;
    while pos2.len() < pos.len() {
        let (i, j) = (g.us(0, n - 1), g.us(0, n - 1));
        tries += 1;
        if used.insert((i, j)) || tries > 2000 {
            pos2.push((i, j));
        }
    }
    let e2 = dominant::<T>(g, n, &perm2, &pos2, false);
    let mut t2 = Trip { m: n, n, sym: Sym::No, e: e2 };
    if tries > 2000 {
        discard!();
    }
    if g.bool() {
        // the same matrix with rows exchanged: the counts per column stay the same
        t2.e = t.e.iter().map(|q| (perm2[q.0], q.1, q.2)).collect();
        g.class("rows exchanged");
    }
    t.show(g, "t");
    t2.show(g, "t2");
    let mut s = must("new", "new", T::solver())?;
    let p = params(g);
    must("factorize", "first", T::factorize(&mut s, &t.coo(0)?, p))?;
    let b: Vec<T> = (0..n).map(|_| moderate(g)).collect();
    let mut x = vec![T::zero(); n];
    match T::factorize(&mut s, &t2.coo(0)?, None) {
        Ok(()) => {
            if T::solve(&mut s, &mut x, &b).is_ok() {
                residual("other_pattern", &t2, &x, &b)?;
                g.class("accepted");
            } else {
                g.class("refused by solve");
            }
        }
        Err(_) => {
            g.class("refused");
            // no stale solution
            if T::solve(&mut s, &mut x, &b).is_ok() {
                let r1 = residual("stale", &t, &x, &b);
                if r1.is_err() {
                    residual("stale", &t2, &x, &b)?;
                }
            }
        }
    }
    // back to the first pattern
    if T::factorize(&mut s, &t.coo(0)?, None).is_ok() {
        must("solve", "back", T::solve(&mut s, &mut x, &b))?;
        residual("back", &t, &x, &b)?;
    }
    g.hit();
    Ok(())
}

fn pattern(g: &mut G) -> R {
    if g.bool() { pattern_t::<f64>(g) } else { pattern_t::<Complex64>(g) }
}

type Z = (i128, i128);
fn zmul(a: Z, b: Z) -> Z {
    (a.0 * b.0 - a.1 * b.1, a.0 * b.1 + a.1 * b.0)
}
fn zdiv(a: Z, b: Z) -> Z {
    let d = b.0 * b.0 + b.1 * b.1;
    let n = zmul(a, (b.0, -b.1));
    (n.0 / d, n.1 / d)
}
/// exact determinant over the Gaussian integers (fraction-free elimination)
fn bareiss(mut a: Vec<Vec<Z>>) -> Z {
    let n = a.len();
    let mut prev = (1, 0);
    let mut sign = 1;
    for k in 0..n.saturating_sub(1) {
        if a[k][k] == (0, 0) {
            match (k + 1..n).find(|&r| a[r][k] != (0, 0)) {
                Some(r) => {
                    a.swap(k, r);
                    sign = -sign;
                }
                None => return (0, 0),
            }
        }
        for i in k + 1..n {
            for j in k + 1..n {
                let p = zmul(a[i][j], a[k][k]);
                let q = zmul(a[i][k], a[k][j]);
                a[i][j] = zdiv((p.0 - q.0, p.1 - q.1), prev);
            }
        }
        prev = a[k][k];
    }
    let d = a[n - 1][n - 1];
    (sign * d.0, sign * d.1)
}

fn determinant_t<T: Dir>(g: &mut G) -> R {
    let n = g.us(1, 7);
    let sparse = g.us(0, 3);
    let rounds = g.us(1, 3);
    let mut s = must("new", "new", T::solver())?;
    let mut par = params(g).unwrap_or(LinSolParams::new());
    par.compute_determinant = true;
    // one structure for all rounds
    let keep: Vec<Vec<bool>> = (0..n).map(|i| (0..n).map(|j| i == j || g.us(0, 3) >= sparse).collect()).collect();
    let scale = *g.pick(&[1.0, 1.0, 1e-3, 1e5]);
    let mut done = 0;
    for round in 0..rounds {
        let mut z = vec![vec![(0i128, 0i128); n]; n];
        let mut e = Vec::new();
        for i in 0..n {
            for j in 0..n {
                if keep[i][j] {
                    let re = g.int(-5, 5);
                    let im = if T::COMPLEX { g.int(-4, 4) } else { 0 };
                    z[i][j] = (re as i128, im as i128);
                    e.push((i, j, T::make(re as f64 * scale, im as f64 * scale)));
                }
            }
        }
        let det = bareiss(z.clone());
        let t = Trip { m: n, n, sym: Sym::No, e };
        t.show(g, "t");
        let r = T::factorize(&mut s, &t.coo(0)?, if round == 0 { Some(par) } else { None });
        let had: f64 = (0..n).map(|i| (z[i].iter().map(|q| (q.0 * q.0 + q.1 * q.1) as f64).sum::<f64>()).sqrt()).product();
        if det == (0, 0) {
            // rounding may hide the singularity of a matrix with dependent rows; a row or column of zeros may not
            let zero_row = (0..n).any(|i| z[i].iter().all(|q| *q == (0, 0)));
            let zero_col = (0..n).any(|j| (0..n).all(|i| z[i][j] == (0, 0)));
            if zero_row || zero_col {
                must_err("singular", "a matrix with a zero row or column was accepted", r)?;
                g.class("singular");
                let mut x = vec![T::zero(); n];
                let b = vec![T::one(); n];
                must_err("singular", "solve with a singular matrix", T::solve(&mut s, &mut x, &b))?;
            } else if r.is_ok() {
                let st = T::stats(&s);
                let d = T::make(st.determinant.mantissa_real, st.determinant.mantissa_imag).mag() * f64::powf(10.0, st.determinant.exponent);
                let sc = f64::powi(scale, n as i32);
                near("determinant", "determinant of a singular matrix", d, 0.0, 1e3 * (n * n) as f64 * EPS * had * sc)?;
            }
            continue;
        }
        must("factorize", "non-singular integer matrix", r)?;
        let st = T::stats(&s);
        ensure!(st.determinant.base == 10.0, "determinant", "base {}", st.determinant.base);
        ensure!(st.main.solver == "UMFPACK", "stats", "solver {}", st.main.solver);
        let sc = f64::powi(scale, n as i32);
        let f = f64::powf(10.0, st.determinant.exponent) / sc;
        let tol = 1e3 * (n * n) as f64 * EPS * had;
        near("determinant", "real part", st.determinant.mantissa_real * f, det.0 as f64, tol)?;
        near("determinant", "imaginary part", st.determinant.mantissa_imag * f, det.1 as f64, tol)?;
        done += 1;
    }
    if done > 0 {
        g.hit();
    }
    if done > 1 {
        g.class("refactorized");
    }
    Ok(())
}

fn determinant(g: &mut G) -> R {
    if g.bool() { determinant_t::<f64>(g) } else { determinant_t::<Complex64>(g) }
}

pub fn property() -> Property {
    Property {
        id: "C14",
        assumptions: &[
            "UMFPACK only (the other back-ends are not installed)",
            "matrices dominant along a permutation (hence well conditioned up to row scaling), up to 120 x 120",
            "singular matrices are recognized when a row or column vanishes (rounding may hide other singularities)",
        ],
        laws: vec![
            Law { name: "solve", quick: 75_000, rule: "residuals, repeatability and refactorization were checked on a system with more than one unknown", f: solve },
            Law { name: "history", quick: 300_000, rule: "the history had a correct solve and a refused call", f: history },
            Law { name: "pattern", quick: 90_000, rule: "a change of pattern was checked", f: pattern },
            Law { name: "determinant", quick: 240_000, rule: "a nonzero determinant was compared with the exact one", f: determinant },
        ],
    }
}
