use crate::util::*;
use russell_lab::*;

type CM = Vec<Vec<Complex64>>;

fn randc(g: &mut G, cplx: bool) -> Complex64 {
    let re = g.uni(-1.0, 1.0);
    let im = if cplx { g.uni(-1.0, 1.0) } else { 0.0 };
    c(re, im)
}

/// generates a square matrix that is safely non-singular (checked by the caller with `lu`)
pub fn gen_square(g: &mut G, n: usize, cplx: bool) -> CM {
    let mut a = vec![vec![c(0.0, 0.0); n]; n];
    let kind = g.us(0, 7);
    g.class(["uniform", "integers", "dominant", "permuted triangular", "graded", "rotations", "zero diagonal", "nearly singular"][kind]);
    match kind {
        1 => {
            for i in 0..n {
                for j in 0..n {
                    a[i][j] = c(g.int(-4, 4) as f64, if cplx { g.int(-4, 4) as f64 } else { 0.0 });
                }
            }
        }
        2 => {
            for i in 0..n {
                for j in 0..n {
                    a[i][j] = randc(g, cplx);
                }
                a[i][i] += c(n as f64 * if g.bool() { 1.0 } else { -1.0 }, 0.0);
            }
        }
        3 => {
            let p = g.perm(n);
            for i in 0..n {
                for j in i..n {
                    a[p[i]][j] = if i == j { c(if g.bool() { 2.0 } else { -1.5 }, 0.0) } else { randc(g, cplx) };
                }
            }
        }
        4 => {
            for i in 0..n {
                let s = 10f64.powi(-(g.us(0, 5) as i32));
                for j in 0..n {
                    a[i][j] = randc(g, cplx) * s;
                }
            }
            for j in 0..n {
                let s = 10f64.powi(g.int(-3, 3) as i32);
                for i in 0..n {
                    a[i][j] *= s;
                }
            }
        }
        5 => {
            for i in 0..n {
                a[i][i] = c(g.uni(0.5, 2.0), 0.0);
            }
            for _ in 0..2 * n {
                if n < 2 {
                    break;
                }
                let p = g.us(0, n - 2);
                let q = g.us(p + 1, n - 1);
                let t = g.uni(-3.0, 3.0);
                let (s, k) = t.sin_cos();
                for j in 0..n {
                    let (x, y) = (a[p][j], a[q][j]);
                    a[p][j] = x * k - y * s;
                    a[q][j] = x * s + y * k;
                }
            }
        }
        6 => {
            for i in 0..n {
                for j in 0..n {
                    if i != j || n == 1 {
                        a[i][j] = randc(g, cplx);
                    }
                }
            }
        }
        7 => {
            for i in 0..n {
                for j in 0..n {
                    a[i][j] = randc(g, cplx);
                }
            }
            if n > 1 {
                let d = g.plog(-7.0, -2.0);
                for j in 0..n {
                    a[n - 1][j] = a[0][j] + randc(g, cplx) * d;
                }
            }
        }
        _ => {
            for i in 0..n {
                for j in 0..n {
                    a[i][j] = randc(g, cplx) * 10.0;
                }
            }
        }
    }
    a
}

/// independent LU with full pivoting: returns (determinant, smallest |pivot| / largest |entry|)
pub fn lu(a: &CM) -> (Complex64, f64) {
    let n = a.len();
    let mut a = a.clone();
    let mut det = c(1.0, 0.0);
    let amax = a.iter().flatten().fold(0.0f64, |m, z| m.max(cabs(*z)));
    let mut pmin = f64::INFINITY;
    for k in 0..n {
        let (mut p, mut q, mut best) = (k, k, -1.0);
        for i in k..n {
            for j in k..n {
                if cabs(a[i][j]) > best {
                    best = cabs(a[i][j]);
                    p = i;
                    q = j;
                }
            }
        }
        pmin = pmin.min(best);
        if best == 0.0 {
            return (c(0.0, 0.0), 0.0);
        }
        if p != k {
            a.swap(p, k);
            det = -det;
        }
        if q != k {
            for r in 0..n {
                a[r].swap(q, k);
            }
            det = -det;
        }
        det *= a[k][k];
        for i in k + 1..n {
            let f = a[i][k] / a[k][k];
            for j in k..n {
                let s = f * a[k][j];
                a[i][j] -= s;
            }
        }
    }
    (det, if amax > 0.0 { pmin / amax } else { 1.0 })
}

pub fn to_mat(a: &CM) -> Matrix {
    let n = a.len();
    let mut m = Matrix::new(n, n);
    for i in 0..n {
        for j in 0..n {
            m.set(i, j, a[i][j].re);
        }
    }
    m
}

pub fn to_cmat(a: &CM) -> ComplexMatrix {
    let n = a.len();
    let mut m = ComplexMatrix::new(n, n);
    for i in 0..n {
        for j in 0..n {
            m.set(i, j, a[i][j]);
        }
    }
    m
}

fn inf_norm(a: &CM) -> f64 {
    a.iter().fold(0.0f64, |m, r| m.max(r.iter().map(|z| cabs(*z)).sum()))
}

fn size(g: &mut G) -> usize {
    match g.draw(120) {
        0 => g.us(30, 80),
        1..=30 => g.us(1, 4),
        31..=90 => g.us(1, 10),
        _ => g.us(1, 30),
    }
}

fn solves(g: &mut G) -> R {
    let n = size(g);
    let cplx = g.bool();
    let a = gen_square(g, n, cplx);
    let (_, q) = lu(&a);
    if q < 1e-10 {
        discard!();
    }
    let mut a = a;
    let mut b: Vec<Complex64> = (0..n).map(|_| randc(g, cplx) * 5.0).collect();
    if g.chance(1, 3) {
        // exact factors (powers of two)
        let (s, t) = (2f64.powi(g.int(-200, 200) as i32), 2f64.powi(g.int(-200, 200) as i32));
        a.iter_mut().for_each(|r| r.iter_mut().for_each(|z| *z *= s));
        b.iter_mut().for_each(|z| *z *= t);
    }
    g.show("complex", &cplx);
    g.show("a", &a);
    g.show("b", &b);
    if n > 1 {
        g.hit();
    }
    let x: Vec<Complex64> = if cplx {
        let mut x = ComplexVector::from(&b);
        let mut m = to_cmat(&a);
        must("complex_solve_lin_sys", "solve", complex_solve_lin_sys(&mut x, &mut m))?;
        x.as_data().clone()
    } else {
        let mut x = Vector::new(n);
        for i in 0..n {
            x[i] = b[i].re;
        }
        let mut m = to_mat(&a);
        must("solve_lin_sys", "solve", solve_lin_sys(&mut x, &mut m))?;
        (0..n).map(|i| c(x[i], 0.0)).collect()
    };
    let xn = x.iter().fold(0.0f64, |m, z| m.max(cabs(*z)));
    let tol = 60.0 * n as f64 * EPS * inf_norm(&a) * xn + TINY;
    for i in 0..n {
        let mut r = -b[i];
        for j in 0..n {
            r += a[i][j] * x[j];
        }
        ensure!(cabs(r) <= tol, if cplx { "complex_solve_lin_sys" } else { "solve_lin_sys" }, "residual of equation {} is {:e} > {:e}", i, cabs(r), tol);
    }
    // dimensions
    must_err("solve_lin_sys:dims", "rectangular", solve_lin_sys(&mut Vector::new(n), &mut Matrix::new(n, n + 1)))?;
    must_err("solve_lin_sys:dims", "wrong rhs", solve_lin_sys(&mut Vector::new(n + 1), &mut to_mat(&a)))?;
    must_err("complex_solve_lin_sys:dims", "rectangular", complex_solve_lin_sys(&mut ComplexVector::new(n), &mut ComplexMatrix::new(n + 1, n)))?;
    must_err("complex_solve_lin_sys:dims", "wrong rhs", complex_solve_lin_sys(&mut ComplexVector::new(n + 1), &mut to_cmat(&a)))?;
    Ok(())
}

fn check_inverse(key: &str, a: &CM, x: &CM, det: Option<Complex64>, extra: f64) -> R {
    let n = a.len();
    let (an, xn) = (inf_norm(a), inf_norm(x));
    let (dref, _) = lu(a);
    // closed-form inverses are accurate relative to the cofactor products: |A|^n / |det|
    let analytic = if n <= 3 { an.powi(n as i32) / cabs(dref) } else { 0.0 };
    let tol = 60.0 * n as f64 * EPS * (an * xn + analytic) * extra;
    if tol > 1e-3 {
        discard!();
    }
    for i in 0..n {
        for j in 0..n {
            let mut r = c(if i == j { -1.0 } else { 0.0 }, 0.0);
            for k in 0..n {
                r += a[i][k] * x[k][j];
            }
            ensure!(cabs(r) <= tol, key, "(A A⁻¹ - I)[{},{}] = {:e} > {:e}", i, j, cabs(r), tol);
        }
    }
    if let Some(d) = det {
        let t = tol * cabs(dref);
        ensure!(cabs(d - dref) <= t + TINY, format!("{}:det", key).as_str(), "determinant {:?}, expected {:?} (tol {:e})", d, dref, t);
    }
    Ok(())
}

fn inverses(g: &mut G) -> R {
    let n = size(g);
    let cplx = g.bool();
    let a = gen_square(g, n, cplx);
    let (d, q) = lu(&a);
    let mut a = a;
    if n <= 3 && g.chance(1, 4) {
        // small determinants that are still above the documented limit
        let f = (g.plog(-14.6, -9.0) / cabs(d)).powf(1.0 / n as f64);
        if f.is_finite() {
            g.class("small determinant");
            a.iter_mut().for_each(|r| r.iter_mut().for_each(|z| *z *= f));
        }
    }
    let (d, _) = lu(&a);
    if q < 1e-10 || (n <= 3 && cabs(d) < 2e-15) {
        discard!();
    }
    g.show("complex", &cplx);
    g.show("a", &a);
    if n > 1 {
        g.hit();
    }
    let mut x = vec![vec![c(0.0, 0.0); n]; n];
    if cplx {
        let m = to_cmat(&a);
        let mut ai = ComplexMatrix::filled(n, n, c(9.0, 9.0));
        let det = must("complex_mat_inverse", "inverse", complex_mat_inverse(&mut ai, &m))?;
        ensure!(m.as_data() == to_cmat(&a).as_data(), "complex_mat_inverse:input", "input modified");
        for i in 0..n {
            for j in 0..n {
                x[i][j] = ai.get(i, j);
            }
        }
        check_inverse("complex_mat_inverse", &a, &x, Some(det), 1.0)?;
    } else {
        let m = to_mat(&a);
        let mut ai = Matrix::filled(n, n, 9.0);
        let det = must("mat_inverse", "inverse", mat_inverse(&mut ai, &m))?;
        ensure!(m.as_data() == to_mat(&a).as_data(), "mat_inverse:input", "input modified");
        for i in 0..n {
            for j in 0..n {
                x[i][j] = c(ai.get(i, j), 0.0);
            }
        }
        check_inverse("mat_inverse", &a, &x, Some(c(det, 0.0)), 1.0)?;
        // pseudo-inverse of an invertible matrix equals the inverse
        let mut pi = Matrix::filled(n, n, 9.0);
        must("mat_pseudo_inverse", "pseudo-inverse", mat_pseudo_inverse(&mut pi, &mut to_mat(&a)))?;
        for i in 0..n {
            for j in 0..n {
                x[i][j] = c(pi.get(i, j), 0.0);
            }
        }
        let (an, xn) = (inf_norm(&a), inf_norm(&x));
        if an * xn < 1e8 {
            check_inverse("mat_pseudo_inverse", &a, &x, None, 10.0)?;
        }
    }
    must_err("mat_inverse:dims", "rectangular", mat_inverse(&mut Matrix::new(n, n), &Matrix::new(n, n + 1)))?;
    must_err("mat_inverse:dims", "wrong size", mat_inverse(&mut Matrix::new(n + 1, n), &Matrix::identity(n)))?;
    must_err("complex_mat_inverse:dims", "wrong size", complex_mat_inverse(&mut ComplexMatrix::new(n, n + 1), &ComplexMatrix::new(n, n)))?;
    Ok(())
}

fn singular(g: &mut G) -> R {
    // exactly singular inputs: zero row, zero column, or (sizes 2,3) repeated small-integer rows
    let n = g.rare(1, 12, 60);
    let cplx = g.bool();
    let mut a = gen_square(g, n, cplx);
    let kind = g.us(0, 2);
    let k = g.us(0, n - 1);
    let mut tiny = true;
    match kind {
        0 => {
            for j in 0..n {
                a[k][j] = c(0.0, 0.0);
            }
        }
        1 => {
            for i in 0..n {
                a[i][k] = c(0.0, 0.0);
            }
        }
        _ => {
            if n != 2 && n != 3 {
                discard!();
            }
            for i in 0..n {
                for j in 0..n {
                    a[i][j] = c(g.int(-5, 5) as f64, if cplx { g.int(-5, 5) as f64 } else { 0.0 });
                }
            }
            let l = (k + 1) % n;
            let f = g.int(-3, 3) as f64;
            for j in 0..n {
                a[l][j] = a[k][j] * f;
            }
            // elimination may leave a tiny non-zero pivot; only the closed-form inverse is exact
            tiny = false;
        }
    }
    g.show("a", &a);
    g.class(["zero row", "zero column", "proportional rows"][kind]);
    g.hit();
    if cplx {
        let r = complex_mat_inverse(&mut ComplexMatrix::new(n, n), &to_cmat(&a));
        must_err("complex_mat_inverse:singular", "singular matrix", r)?;
        if tiny {
            must_err("complex_solve_lin_sys:singular", "singular matrix", complex_solve_lin_sys(&mut ComplexVector::new(n), &mut to_cmat(&a)))?;
        }
    } else {
        must_err("mat_inverse:singular", "singular matrix", mat_inverse(&mut Matrix::new(n, n), &to_mat(&a)))?;
        if tiny {
            let mut b = Vector::new(n);
            b.fill(1.0);
            must_err("solve_lin_sys:singular", "singular matrix", solve_lin_sys(&mut b, &mut to_mat(&a)))?;
        }
        macro_rules! small {
            ($($nn:literal),*) => { match n { $( $nn => {
                let mut s = [[0.0; $nn]; $nn];
                for i in 0..n { for j in 0..n { s[i][j] = a[i][j].re; } }
                let mut ai = [[0.0; $nn]; $nn];
                must_err("small_mat_inv:singular", "singular matrix", small_mat_inv(&mut ai, &s, n))?;
                if tiny {
                    let mut t = s;
                    must_err("num_recipes_gaussj_inv:singular", "singular matrix", num_recipes_gaussj_inv(&mut t))?;
                    let mut t = s;
                    must_err("small_solve_lin_sys:singular", "singular matrix", small_solve_lin_sys(&mut [1.0; $nn], &mut t))?;
                }
            } )* _ => () } };
        }
        small!(1, 2, 3, 4, 5, 6, 7, 8);
    }
    Ok(())
}

fn pseudo(g: &mut G) -> R {
    // Moore-Penrose conditions for full-rank rectangular matrices, optionally padded with zero rows/columns
    let (m, n) = (g.us(1, 9), g.us(1, 9));
    let mut a = Matrix::new(m, n);
    let zr = if g.chance(1, 4) && m > 1 { Some(g.us(0, m - 1)) } else { None };
    let zc = if g.chance(1, 4) && n > 1 { Some(g.us(0, n - 1)) } else { None };
    for i in 0..m {
        for j in 0..n {
            let x = g.uni(-1.0, 1.0);
            if Some(i) != zr && Some(j) != zc {
                a.set(i, j, x);
            }
        }
    }
    for i in 0..m.min(n) {
        if Some(i) != zr && Some(i) != zc {
            a.set(i, i, a.get(i, i) + 3.0);
        }
    }
    g.show("a", &mat_to_vec(&a));
    if m != n {
        g.hit();
    }
    g.class(if zr.is_some() || zc.is_some() { "with zero row/column" } else if m == n { "square" } else { "rectangular" });
    // scaling by a power of two must only scale the pseudo-inverse
    let sc = if g.bool() { 1.0 } else { 2f64.powi(g.int(-300, 300) as i32) };
    g.show("scale", &sc);
    let mut p = Matrix::filled(n, m, 9.0);
    let mut w = a.clone();
    w.as_mut_data().iter_mut().for_each(|x| *x *= sc);
    must("mat_pseudo_inverse", "pseudo-inverse", mat_pseudo_inverse(&mut p, &mut w))?;
    p.as_mut_data().iter_mut().for_each(|x| *x *= sc);
    let pn = p.as_data().iter().fold(0.0f64, |s, x| s.max(x.abs()));
    let tol = 1e-12 * (1.0 + pn) * (1.0 + pn);
    if pn > 50.0 {
        discard!();
    }
    let mul = |x: &Vec<Vec<f64>>, y: &Vec<Vec<f64>>| -> Vec<Vec<f64>> {
        x.iter().map(|r| (0..y[0].len()).map(|j| (0..y.len()).map(|k| r[k] * y[k][j]).sum()).collect()).collect()
    };
    let (av, pv) = (mat_to_vec(&a), mat_to_vec(&p));
    let ap = mul(&av, &pv);
    let pa = mul(&pv, &av);
    let apa = mul(&ap, &av);
    let pap = mul(&pa, &pv);
    for i in 0..m {
        for j in 0..n {
            near("mat_pseudo_inverse:apa", &format!("(A P A - A)[{},{}]", i, j), apa[i][j], av[i][j], tol)?;
            near("mat_pseudo_inverse:pap", &format!("(P A P - P)[{},{}]", j, i), pap[j][i], pv[j][i], tol)?;
        }
    }
    for i in 0..m {
        for j in 0..m {
            near("mat_pseudo_inverse:sym", "A P symmetric", ap[i][j], ap[j][i], tol)?;
        }
    }
    for i in 0..n {
        for j in 0..n {
            near("mat_pseudo_inverse:sym", "P A symmetric", pa[i][j], pa[j][i], tol)?;
        }
    }
    must_err("mat_pseudo_inverse:dims", "wrong size", mat_pseudo_inverse(&mut Matrix::new(n + 1, m), &mut a.clone()))?;
    must_err("mat_pseudo_inverse:dims", "wrong size", mat_pseudo_inverse(&mut Matrix::new(n, m + 1), &mut a.clone()))?;
    Ok(())
}

fn cholesky(g: &mut G) -> R {
    let n = g.rare(1, 16, 90);
    let cplx = g.bool();
    let upper = g.bool();
    let mut b = vec![vec![c(0.0, 0.0); n]; n];
    for i in 0..n {
        for j in 0..n {
            b[i][j] = randc(g, cplx);
        }
    }
    let mut a = vec![vec![c(0.0, 0.0); n]; n];
    for i in 0..n {
        for j in 0..n {
            for k in 0..n {
                a[i][j] += b[i][k] * b[j][k].conj();
            }
        }
        a[i][i] = c(a[i][i].re + 0.05, 0.0);
    }
    let s = if g.chance(1, 4) { 2f64.powi(g.int(-200, 200) as i32) } else { g.plog(-3.0, 3.0) };
    for i in 0..n {
        for j in 0..n {
            a[i][j] *= s;
        }
    }
    let bad = g.chance(1, 4);
    let k = g.us(0, n - 1);
    if bad {
        a[k][k] = c(*g.pick(&[0.0, -1.0, -1e-3]), 0.0);
    }
    // the other triangle must be ignored and preserved
    let noise = c(4321.5, if cplx { -7.0 } else { 0.0 });
    for i in 0..n {
        for j in 0..n {
            if (upper && i > j) || (!upper && i < j) {
                a[i][j] = noise;
            }
        }
    }
    g.show("complex,upper", &(cplx, upper));
    g.show("a", &a);
    g.class(if bad { "not positive-definite" } else { "positive-definite" });
    if n > 1 {
        g.hit();
    }
    let mut l = vec![vec![c(0.0, 0.0); n]; n];
    let key = if cplx { "complex_mat_cholesky" } else { "mat_cholesky" };
    if cplx {
        let mut m = to_cmat(&a);
        let r = complex_mat_cholesky(&mut m, upper);
        if bad {
            return must_err(key, "not positive definite", r).map(|_| ());
        }
        must(key, "cholesky", r)?;
        for i in 0..n {
            for j in 0..n {
                l[i][j] = m.get(i, j);
            }
        }
    } else {
        let mut m = to_mat(&a);
        let r = mat_cholesky(&mut m, upper);
        if bad {
            return must_err(key, "not positive definite", r).map(|_| ());
        }
        must(key, "cholesky", r)?;
        for i in 0..n {
            for j in 0..n {
                l[i][j] = c(m.get(i, j), 0.0);
            }
        }
    }
    for i in 0..n {
        for j in 0..n {
            let outside = (upper && i > j) || (!upper && i < j);
            if outside {
                ensure!(l[i][j] == noise, format!("{}:outside", key).as_str(), "entry [{},{}] of the other triangle was modified", i, j);
                continue;
            }
            let mut t = c(0.0, 0.0);
            let mut w = 0.0;
            for k in 0..=i.min(j) {
                // lower: L Lᴴ; upper: Uᴴ U
                let p = if upper { l[k][i].conj() * l[k][j] } else { l[i][k] * l[j][k].conj() };
                t += p;
                w += cabs(p);
            }
            ensure!(cabs(t - a[i][j]) <= EPS * (8.0 * n as f64 + 16.0) * (w + cabs(a[i][j])), key, "reconstruction [{},{}]: {:?} != {:?}", i, j, t, a[i][j]);
        }
        ensure!(l[i][i].re > 0.0, key, "diagonal {} not positive", i);
    }
    must_err("mat_cholesky:dims", "rectangular", mat_cholesky(&mut Matrix::new(n, n + 1), upper))?;
    must_err("complex_mat_cholesky:dims", "rectangular", complex_mat_cholesky(&mut ComplexMatrix::new(n, n + 1), upper))?;
    Ok(())
}

fn small_n<const N: usize, const M: usize>(g: &mut G) -> R {
    let n = g.us(1, N);
    let a = gen_square(g, n, false);
    let (d, q) = lu(&a);
    if q < 1e-7 || (n <= 3 && cabs(d) < 1e-12) {
        discard!();
    }
    g.show("N,n", &(N, n));
    g.show("a", &a);
    if n > 1 {
        g.hit();
    }
    let mut s = [[0.0; N]; N];
    for i in 0..N {
        for j in 0..N {
            s[i][j] = if i < n && j < n { a[i][j].re } else { 1000.0 + (i * N + j) as f64 };
        }
    }
    let mut ai = [[0.0; N]; N];
    for i in 0..N {
        for j in 0..N {
            ai[i][j] = -((i * N + j) as f64) - 0.5;
        }
    }
    let det = must("small_mat_inv", "inverse", small_mat_inv(&mut ai, &s, n))?;
    let mut x = vec![vec![c(0.0, 0.0); n]; n];
    for i in 0..N {
        for j in 0..N {
            if i < n && j < n {
                x[i][j] = c(ai[i][j], 0.0);
            } else {
                ensure!(ai[i][j] == -((i * N + j) as f64) - 0.5, "small_mat_inv:outside", "entry [{}][{}] outside the active block was modified: {}", i, j, ai[i][j]);
            }
        }
    }
    let kappa = inf_norm(&a) * inf_norm(&x);
    if kappa > 1e7 {
        discard!();
    }
    check_inverse("small_mat_inv", &a, &x, Some(c(det, 0.0)), 1.0 + kappa * 0.1)?;
    if n == N {
        let mut b = [[0.0; M]; N];
        for i in 0..N {
            for j in 0..M {
                b[i][j] = g.uni(-5.0, 5.0);
            }
        }
        g.show("b", &b);
        let (mut t, mut y) = (s, b);
        must("num_recipes_gaussj_sol", "solve", num_recipes_gaussj_sol(&mut t, &mut y))?;
        let mut t2 = s;
        must("num_recipes_gaussj_inv", "inverse", num_recipes_gaussj_inv(&mut t2))?;
        let mut v = [0.0; N];
        for i in 0..N {
            v[i] = if M > 0 { b[i][0] } else { 1.0 };
        }
        let v0 = v;
        let mut t3 = s;
        must("small_solve_lin_sys", "solve", small_solve_lin_sys(&mut v, &mut t3))?;
        for (name, tt) in [("num_recipes_gaussj_sol:inverse", &t), ("num_recipes_gaussj_inv", &t2), ("small_solve_lin_sys:inverse", &t3)] {
            for i in 0..n {
                for j in 0..n {
                    x[i][j] = c(tt[i][j], 0.0);
                }
            }
            check_inverse(name, &a, &x, None, 1.0 + kappa * 0.1)?;
        }
        let an = inf_norm(&a);
        for l in 0..M + 1 {
            let sol: Vec<f64> = (0..N).map(|i| if l < M { y[i][l] } else { v[i] }).collect();
            let rhs: Vec<f64> = (0..N).map(|i| if l < M { b[i][l] } else { v0[i] }).collect();
            let xn = sol.iter().fold(0.0f64, |m, z| m.max(z.abs()));
            let tol = 60.0 * n as f64 * EPS * (1.0 + 0.1 * kappa) * (an * xn + 5.0);
            for i in 0..N {
                let r: f64 = (0..N).map(|j| s[i][j] * sol[j]).sum::<f64>() - rhs[i];
                ensure!(r.abs() <= tol, if l < M { "num_recipes_gaussj_sol" } else { "small_solve_lin_sys" }, "residual {} of rhs {} is {:e} > {:e}", i, l, r, tol);
            }
        }
    }
    Ok(())
}

fn small(g: &mut G) -> R {
    match g.us(0, 6) {
        0 => small_n::<1, 1>(g),
        1 => small_n::<2, 3>(g),
        2 => small_n::<3, 1>(g),
        3 => small_n::<4, 2>(g),
        4 => small_n::<5, 0>(g),
        5 => small_n::<6, 2>(g),
        _ => small_n::<9, 3>(g),
    }
}

pub fn property() -> Property {
    Property {
        id: "C03",
        assumptions: &["tolerances are a modest constant times size * machine epsilon * (norm of matrix * norm of result); matrices with relative pivots below 1e-10 are discarded", "closed-form inverses (sizes 1..3) require |det| > 1e-12 (documented absolute tolerance 1e-15)"],
        laws: vec![
            Law { name: "solves", quick: 240000, rule: "eight matrix families, sizes 1..30, real and complex; non-trivial: size > 1", f: solves },
            Law { name: "inverses", quick: 160000, rule: "as above for inverse, determinant, pseudo-inverse; non-trivial: size > 1", f: inverses },
            Law { name: "singular", quick: 120000, rule: "matrices with an exactly zero row/column or proportional integer rows must give an error; all non-trivial", f: singular },
            Law { name: "pseudo", quick: 120000, rule: "Moore-Penrose conditions on rectangular matrices; non-trivial: not square", f: pseudo },
            Law { name: "cholesky", quick: 160000, rule: "positive-definite and spoiled matrices, both triangles; non-trivial: size > 1", f: cholesky },
            Law { name: "small", quick: 160000, rule: "fixed-capacity inverse/solve with n <= N; non-trivial: n > 1", f: small },
        ],
    }
}
