use crate::c03::{to_cmat, to_mat};
use crate::util::*;
use russell_lab::*;

type CM = Vec<Vec<Complex64>>;
const ZERO: Complex64 = Complex64::new(0.0, 0.0);

fn randc(g: &mut G, cplx: bool) -> Complex64 {
    let re = g.uni(-1.0, 1.0);
    let im = if cplx { g.uni(-1.0, 1.0) } else { 0.0 };
    c(re, im)
}

/// the size of a matrix: mostly small, sometimes large enough for the blocked algorithms
fn size(g: &mut G, hi: usize, large: usize) -> usize {
    if g.chance(1, 60) { g.us(hi, large) } else { g.us(1, hi) }
}

/// multiplies the matrix by an exact factor (power of two)
fn rescale(g: &mut G, a: &mut CM, k: i64) -> f64 {
    if !g.chance(1, 3) {
        return 1.0;
    }
    let s = 2f64.powi(g.int(-k, k) as i32);
    a.iter_mut().for_each(|r| r.iter_mut().for_each(|z| *z *= s));
    s
}

fn gen_general(g: &mut G, n: usize, cplx: bool) -> CM {
    let mut a = vec![vec![ZERO; n]; n];
    let kind = g.us(0, 8);
    g.class(["uniform", "integers", "symmetric", "rotation blocks", "jordan (defective)", "diagonal", "zero", "companion", "permutation"][kind]);
    match kind {
        1 => {
            for i in 0..n {
                for j in 0..n {
                    a[i][j] = c(g.int(-4, 4) as f64, if cplx { g.int(-4, 4) as f64 } else { 0.0 });
                }
            }
        }
        2 => {
            for i in 0..n {
                for j in 0..=i {
                    let x = randc(g, cplx) * 3.0;
                    a[i][j] = x;
                    a[j][i] = x;
                }
            }
        }
        3 => {
            let mut i = 0;
            while i < n {
                let (p, q) = (g.uni(-2.0, 2.0), g.uni(-2.0, 2.0));
                a[i][i] = c(p, 0.0);
                if i + 1 < n {
                    a[i + 1][i + 1] = c(p, 0.0);
                    a[i][i + 1] = c(q, 0.0);
                    a[i + 1][i] = c(-q, 0.0);
                    for k in i + 2..n {
                        a[i][k] = randc(g, cplx);
                        a[i + 1][k] = randc(g, cplx);
                    }
                }
                i += 2;
            }
        }
        4 => {
            let x = g.int(-3, 3) as f64;
            for i in 0..n {
                a[i][i] = c(x, 0.0);
                if i + 1 < n {
                    a[i][i + 1] = c(1.0, 0.0);
                }
            }
        }
        5 => {
            for i in 0..n {
                a[i][i] = c(g.int(-2, 2) as f64, if cplx { g.int(-2, 2) as f64 } else { 0.0 });
            }
        }
        6 => (),
        7 => {
            for i in 0..n {
                if i + 1 < n {
                    a[i + 1][i] = c(1.0, 0.0);
                }
                a[i][n - 1] = randc(g, cplx) * 2.0;
            }
        }
        8 => {
            let p = g.perm(n);
            for i in 0..n {
                a[i][p[i]] = c(1.0, 0.0);
            }
        }
        _ => {
            for i in 0..n {
                for j in 0..n {
                    a[i][j] = randc(g, cplx) * 5.0;
                }
            }
        }
    }
    a
}

fn fro(a: &CM) -> f64 {
    a.iter().flatten().map(|z| z.norm_sqr()).sum::<f64>().sqrt()
}

/// checks β A v = α B v (right) or β uᴴ A = α uᴴ B (left) column by column
fn eigen_eq(key: &str, a: &CM, b: Option<&CM>, al: &[Complex64], be: &[Complex64], v: &CM, left: bool) -> R {
    let n = a.len();
    let an = fro(a);
    let bn = b.map(|m| fro(m)).unwrap_or(1.0);
    for k in 0..n {
        let vn = (0..n).map(|i| v[i][k].norm_sqr()).sum::<f64>().sqrt();
        ensure!(vn > 0.5 && vn < 2.0 * (n as f64).sqrt() + 1.0, key, "eigenvector {} has norm {} (not normalized)", k, vn);
        if b.is_none() {
            near(key, &format!("norm of eigenvector {}", k), vn, 1.0, 1e-13 * n as f64)?;
        }
        let tol = 100.0 * n as f64 * EPS * (cabs(be[k]) * an + cabs(al[k]) * bn) * vn + 1e-290;
        for i in 0..n {
            let mut r = ZERO;
            for j in 0..n {
                if left {
                    let w = v[j][k].conj();
                    r += be[k] * w * a[j][i];
                    let bji = b.map(|m| m[j][i]).unwrap_or(if i == j { c(1.0, 0.0) } else { ZERO });
                    r -= al[k] * w * bji;
                } else {
                    let w = v[j][k];
                    r += be[k] * a[i][j] * w;
                    let bij = b.map(|m| m[i][j]).unwrap_or(if i == j { c(1.0, 0.0) } else { ZERO });
                    r -= al[k] * bij * w;
                }
            }
            ensure!(cabs(r) <= tol, key, "eigen-equation {} of pair {} ({}): residual {:e} > {:e} (alpha={:?} beta={:?})", i, k, if left { "left" } else { "right" }, cabs(r), tol, al[k], be[k]);
        }
    }
    Ok(())
}

fn power_sums(key: &str, a: &CM, l: &[Complex64]) -> R {
    let n = a.len();
    let an = fro(a);
    let tr: Complex64 = (0..n).map(|i| a[i][i]).sum();
    let mut tr2 = ZERO;
    for i in 0..n {
        for j in 0..n {
            tr2 += a[i][j] * a[j][i];
        }
    }
    let s1: Complex64 = l.iter().sum();
    let s2: Complex64 = l.iter().map(|z| z * z).sum();
    let t = 100.0 * (n * n) as f64 * EPS;
    ensure!(cabs(s1 - tr) <= t * an + 1e-290, key, "sum of eigenvalues {:?} != trace {:?}", s1, tr);
    ensure!(cabs(s2 - tr2) <= t * an * an + 1e-290, key, "sum of squared eigenvalues {:?} != trace of square {:?}", s2, tr2);
    Ok(())
}

fn cm(re: &Matrix, im: &Matrix) -> CM {
    (0..re.nrow()).map(|i| (0..re.ncol()).map(|j| c(re.get(i, j), im.get(i, j))).collect()).collect()
}

fn cmv(a: &ComplexMatrix) -> CM {
    (0..a.nrow()).map(|i| (0..a.ncol()).map(|j| a.get(i, j)).collect()).collect()
}

fn general(g: &mut G) -> R {
    let n = size(g, 10, 45);
    let mut a = gen_general(g, n, false);
    rescale(g, &mut a, 200);
    g.show("a", &a);
    if n > 1 {
        g.hit();
    }
    let one = vec![c(1.0, 0.0); n];
    let z = || Matrix::filled(n, n, 55.0);
    let zv = || Vector::filled(n, 55.0);
    let (mut lr, mut li, mut vr, mut vi) = (zv(), zv(), z(), z());
    must("mat_eigen", "mat_eigen", mat_eigen(&mut lr, &mut li, &mut vr, &mut vi, &mut to_mat(&a)))?;
    let l: Vec<Complex64> = (0..n).map(|i| c(lr[i], li[i])).collect();
    eigen_eq("mat_eigen", &a, None, &l, &one, &cm(&vr, &vi), false)?;
    power_sums("mat_eigen", &a, &l)?;
    let (mut lr, mut li, mut ur, mut ui, mut vr, mut vi) = (zv(), zv(), z(), z(), z(), z());
    must("mat_eigen_lr", "mat_eigen_lr", mat_eigen_lr(&mut lr, &mut li, &mut ur, &mut ui, &mut vr, &mut vi, &mut to_mat(&a)))?;
    let l: Vec<Complex64> = (0..n).map(|i| c(lr[i], li[i])).collect();
    eigen_eq("mat_eigen_lr", &a, None, &l, &one, &cm(&vr, &vi), false)?;
    eigen_eq("mat_eigen_lr:left", &a, None, &l, &one, &cm(&ur, &ui), true)?;
    power_sums("mat_eigen_lr", &a, &l)?;
    let (mut lr, mut li) = (zv(), zv());
    must("mat_eigenvalues", "mat_eigenvalues", mat_eigenvalues(&mut lr, &mut li, &mut to_mat(&a)))?;
    let l: Vec<Complex64> = (0..n).map(|i| c(lr[i], li[i])).collect();
    power_sums("mat_eigenvalues", &a, &l)?;
    let mut bad = Matrix::new(n, n + 1);
    must_err("mat_eigen:dims", "rectangular", mat_eigen(&mut lr, &mut li, &mut vr, &mut vi, &mut bad))?;
    must_err("mat_eigenvalues:dims", "rectangular", mat_eigenvalues(&mut lr, &mut li, &mut bad))?;
    must_err("mat_eigen:dims", "wrong vector", mat_eigen(&mut Vector::new(n + 1), &mut li, &mut vr, &mut vi, &mut to_mat(&a)))?;
    must_err("mat_eigen:dims", "wrong matrix", mat_eigen(&mut lr, &mut li, &mut vr, &mut Matrix::new(n, n + 1), &mut to_mat(&a)))?;
    must_err("mat_eigenvalues:dims", "wrong vector", mat_eigenvalues(&mut lr, &mut Vector::new(n + 1), &mut to_mat(&a)))?;
    Ok(())
}

fn complex_general(g: &mut G) -> R {
    let n = size(g, 9, 40);
    let mut a = gen_general(g, n, true);
    rescale(g, &mut a, 200);
    g.show("a", &a);
    if n > 1 {
        g.hit();
    }
    let one = vec![c(1.0, 0.0); n];
    let (mut l, mut v) = (ComplexVector::new(n), ComplexMatrix::new(n, n));
    must("complex_mat_eigen", "complex_mat_eigen", complex_mat_eigen(&mut l, &mut v, &mut to_cmat(&a)))?;
    eigen_eq("complex_mat_eigen", &a, None, l.as_data(), &one, &cmv(&v), false)?;
    power_sums("complex_mat_eigen", &a, l.as_data())?;
    let mut u = ComplexMatrix::new(n, n);
    must("complex_mat_eigen_lr", "complex_mat_eigen_lr", complex_mat_eigen_lr(&mut l, &mut u, &mut v, &mut to_cmat(&a)))?;
    eigen_eq("complex_mat_eigen_lr", &a, None, l.as_data(), &one, &cmv(&v), false)?;
    eigen_eq("complex_mat_eigen_lr:left", &a, None, l.as_data(), &one, &cmv(&u), true)?;
    must_err("complex_mat_eigen:dims", "rectangular", complex_mat_eigen(&mut l, &mut v, &mut ComplexMatrix::new(n + 1, n)))?;
    must_err("complex_mat_eigen:dims", "wrong vector", complex_mat_eigen(&mut ComplexVector::new(n + 1), &mut v, &mut to_cmat(&a)))?;
    Ok(())
}

fn unpack(al: &[Complex64], v: &Matrix) -> CM {
    let n = v.nrow();
    let mut w = vec![vec![ZERO; n]; n];
    let mut k = 0;
    while k < n {
        if al[k].im != 0.0 && k + 1 < n {
            for i in 0..n {
                w[i][k] = c(v.get(i, k), v.get(i, k + 1));
                w[i][k + 1] = c(v.get(i, k), -v.get(i, k + 1));
            }
            k += 2;
        } else {
            for i in 0..n {
                w[i][k] = c(v.get(i, k), 0.0);
            }
            k += 1;
        }
    }
    w
}

fn generalized(g: &mut G) -> R {
    let n = size(g, 8, 30);
    let cplx = g.bool();
    let mut a = gen_general(g, n, cplx);
    // the vectors of large defective pairs with different magnitudes underflow
    let rescaled = n <= 8;
    if rescaled {
        rescale(g, &mut a, 30);
    }
    let mut b = vec![vec![ZERO; n]; n];
    let bkind = g.us(0, 3);
    for i in 0..n {
        for j in 0..n {
            b[i][j] = match bkind {
                0 => randc(g, cplx),
                1 => {
                    if i == j {
                        c(1.0, 0.0)
                    } else {
                        ZERO
                    }
                }
                2 => c(g.int(-3, 3) as f64, 0.0),
                _ => randc(g, cplx) + c(if i == j { 4.0 } else { 0.0 }, 0.0),
            };
        }
    }
    if g.chance(1, 6) {
        let k = g.us(0, n - 1);
        for j in 0..n {
            b[k][j] = ZERO;
        }
    }
    if rescaled {
        rescale(g, &mut b, 30);
    }
    g.show("a", &a);
    g.show("b", &b);
    if n > 1 {
        g.hit();
    }
    if cplx {
        let (mut al, mut be) = (ComplexVector::new(n), ComplexVector::new(n));
        let (mut u, mut v) = (ComplexMatrix::new(n, n), ComplexMatrix::new(n, n));
        must("complex_mat_gen_eigen", "gen_eigen", complex_mat_gen_eigen(&mut al, &mut be, &mut v, &mut to_cmat(&a), &mut to_cmat(&b)))?;
        eigen_eq("complex_mat_gen_eigen", &a, Some(&b), al.as_data(), be.as_data(), &cmv(&v), false)?;
        must("complex_mat_gen_eigen_lr", "gen_eigen", complex_mat_gen_eigen_lr(&mut al, &mut be, &mut u, &mut v, &mut to_cmat(&a), &mut to_cmat(&b)))?;
        eigen_eq("complex_mat_gen_eigen_lr", &a, Some(&b), al.as_data(), be.as_data(), &cmv(&v), false)?;
        eigen_eq("complex_mat_gen_eigen_lr:left", &a, Some(&b), al.as_data(), be.as_data(), &cmv(&u), true)?;
        must_err("complex_mat_gen_eigen:dims", "wrong b", complex_mat_gen_eigen(&mut al, &mut be, &mut v, &mut to_cmat(&a), &mut ComplexMatrix::new(n, n + 1)))?;
    } else {
        let (mut ar, mut ai, mut be) = (Vector::new(n), Vector::new(n), Vector::new(n));
        let (mut u, mut v) = (Matrix::new(n, n), Matrix::new(n, n));
        must("mat_gen_eigen", "gen_eigen", mat_gen_eigen(&mut ar, &mut ai, &mut be, &mut v, &mut to_mat(&a), &mut to_mat(&b)))?;
        let al: Vec<Complex64> = (0..n).map(|i| c(ar[i], ai[i])).collect();
        let bev: Vec<Complex64> = (0..n).map(|i| c(be[i], 0.0)).collect();
        eigen_eq("mat_gen_eigen", &a, Some(&b), &al, &bev, &unpack(&al, &v), false)?;
        must("mat_gen_eigen_lr", "gen_eigen", mat_gen_eigen_lr(&mut ar, &mut ai, &mut be, &mut u, &mut v, &mut to_mat(&a), &mut to_mat(&b)))?;
        let al: Vec<Complex64> = (0..n).map(|i| c(ar[i], ai[i])).collect();
        let bev: Vec<Complex64> = (0..n).map(|i| c(be[i], 0.0)).collect();
        eigen_eq("mat_gen_eigen_lr", &a, Some(&b), &al, &bev, &unpack(&al, &v), false)?;
        eigen_eq("mat_gen_eigen_lr:left", &a, Some(&b), &al, &bev, &unpack(&al, &u), true)?;
        must_err("mat_gen_eigen:dims", "wrong b", mat_gen_eigen(&mut ar, &mut ai, &mut be, &mut v, &mut to_mat(&a), &mut Matrix::new(n, n + 1)))?;
        must_err("mat_gen_eigen:dims", "wrong vector", mat_gen_eigen(&mut ar, &mut ai, &mut Vector::new(n + 1), &mut v, &mut to_mat(&a), &mut to_mat(&b)))?;
    }
    Ok(())
}

fn gen_sym(g: &mut G, n: usize, cplx: bool) -> CM {
    let mut a = vec![vec![ZERO; n]; n];
    let kind = g.us(0, 5);
    g.class(["sym uniform", "sym integers", "sym diagonal", "sym rank one", "sym constant", "sym zero"][kind]);
    let u: Vec<Complex64> = (0..n).map(|_| randc(g, cplx)).collect();
    for i in 0..n {
        for j in 0..=i {
            let x = match kind {
                0 => randc(g, cplx) * 5.0,
                1 => c(g.int(-3, 3) as f64, if cplx && i != j { g.int(-3, 3) as f64 } else { 0.0 }),
                2 => {
                    if i == j {
                        c(g.int(-3, 3) as f64, 0.0)
                    } else {
                        ZERO
                    }
                }
                3 => u[i] * u[j].conj() * 4.0,
                4 => c(2.0, 0.0),
                _ => ZERO,
            };
            a[i][j] = x;
            a[j][i] = x.conj();
        }
        a[i][i] = c(a[i][i].re, 0.0);
    }
    a
}

fn orthonormal(key: &str, v: &CM) -> R {
    let n = v.len();
    for p in 0..n {
        for q in 0..n {
            let s: Complex64 = (0..n).map(|i| v[i][p].conj() * v[i][q]).sum();
            let e = if p == q { 1.0 } else { 0.0 };
            ensure!(cabs(s - c(e, 0.0)) <= 40.0 * n as f64 * EPS, key, "columns {} and {} not orthonormal: {:?}", p, q, s);
        }
    }
    Ok(())
}

fn reconstruct(key: &str, a: &CM, l: &[f64], v: &CM, slack: f64) -> R {
    let n = a.len();
    let tol = 60.0 * n as f64 * EPS * fro(a) + slack;
    for i in 0..n {
        for j in 0..n {
            let s: Complex64 = (0..n).map(|k| v[i][k] * v[j][k].conj() * l[k]).sum();
            ensure!(cabs(s - a[i][j]) <= tol, key, "V L Vᴴ [{},{}] = {:?}, expected {:?}", i, j, s, a[i][j]);
        }
    }
    Ok(())
}

fn symmetric(g: &mut G) -> R {
    let n = size(g, 12, 50);
    let cplx = g.bool();
    let upper = g.bool();
    let mut a = gen_sym(g, n, cplx);
    let scale = rescale(g, &mut a, 200);
    g.show("complex,upper", &(cplx, upper));
    g.show("a", &a);
    if n > 1 {
        g.hit();
    }
    // spoil the other triangle
    let noise = *g.pick(&[777.0, f64::NAN]);
    let mut sp = a.clone();
    for i in 0..n {
        for j in 0..n {
            if (upper && i > j) || (!upper && i < j) {
                sp[i][j] = c(noise, if cplx { noise } else { 0.0 });
            }
        }
    }
    if cplx {
        let mut l = Vector::new(n);
        let mut m = to_cmat(&sp);
        must("complex_mat_eigen_herm", "eigen_herm", complex_mat_eigen_herm(&mut l, &mut m, upper))?;
        let v = cmv(&m);
        for k in 1..n {
            ensure!(l[k] >= l[k - 1], "complex_mat_eigen_herm:order", "eigenvalues not ascending: {:?}", l.as_data());
        }
        orthonormal("complex_mat_eigen_herm", &v)?;
        reconstruct("complex_mat_eigen_herm", &a, l.as_data(), &v, 1e-290)?;
        must_err("complex_mat_eigen_herm:dims", "rectangular", complex_mat_eigen_herm(&mut l, &mut ComplexMatrix::new(n, n + 1), upper))?;
        must_err("complex_mat_eigen_herm:dims", "vector", complex_mat_eigen_herm(&mut Vector::new(n + 1), &mut to_cmat(&a), upper))?;
    } else {
        let mut l = Vector::new(n);
        let mut m = to_mat(&sp);
        must("mat_eigen_sym", "eigen_sym", mat_eigen_sym(&mut l, &mut m, upper))?;
        let zero = Matrix::new(n, n);
        let v = cm(&m, &zero);
        for k in 1..n {
            ensure!(l[k] >= l[k - 1], "mat_eigen_sym:order", "eigenvalues not ascending: {:?}", l.as_data());
        }
        orthonormal("mat_eigen_sym", &v)?;
        reconstruct("mat_eigen_sym", &a, l.as_data(), &v, 1e-290)?;
        must_err("mat_eigen_sym:dims", "rectangular", mat_eigen_sym(&mut l, &mut Matrix::new(n, n + 1), upper))?;
        must_err("mat_eigen_sym:dims", "vector", mat_eigen_sym(&mut Vector::new(n + 1), &mut to_mat(&a), upper))?;
        if scale != 1.0 {
            // the tolerance of the Jacobi rotations is absolute
            return Ok(());
        }
        // Jacobi
        let (mut lj, mut vj) = (Vector::filled(n, 55.0), Matrix::filled(n, n, 55.0));
        must("mat_eigen_sym_jacobi", "jacobi", mat_eigen_sym_jacobi(&mut lj, &mut vj, &mut to_mat(&a)))?;
        let w = cm(&vj, &zero);
        orthonormal("mat_eigen_sym_jacobi", &w)?;
        reconstruct("mat_eigen_sym_jacobi", &a, lj.as_data(), &w, 1e-14)?;
        let mut s = lj.as_data().clone();
        s.sort_by(|x, y| x.partial_cmp(y).unwrap());
        let tol = 60.0 * n as f64 * EPS * fro(&a) + 1e-14;
        for k in 0..n {
            near("mat_eigen_sym_jacobi", &format!("eigenvalue {}", k), s[k], l[k], tol)?;
        }
        // the general routine finds the same (real) spectrum
        let (mut lr, mut li) = (Vector::new(n), Vector::new(n));
        must("mat_eigenvalues", "mat_eigenvalues", mat_eigenvalues(&mut lr, &mut li, &mut to_mat(&a)))?;
        let mut s = lr.as_data().clone();
        s.sort_by(|x, y| x.partial_cmp(y).unwrap());
        for k in 0..n {
            near("mat_eigenvalues:spectrum", &format!("eigenvalue {}", k), s[k], l[k], 10.0 * tol)?;
            near("mat_eigenvalues:imag", &format!("imag {}", k), li[k], 0.0, 10.0 * tol)?;
        }
        must_err("mat_eigen_sym_jacobi:dims", "rectangular", mat_eigen_sym_jacobi(&mut lj, &mut vj, &mut Matrix::new(n, n + 1)))?;
        must_err("mat_eigen_sym_jacobi:dims", "vector", mat_eigen_sym_jacobi(&mut Vector::new(n + 1), &mut vj, &mut to_mat(&a)))?;
    }
    Ok(())
}

fn svd(g: &mut G) -> R {
    let (m, n) = (size(g, 10, 50), size(g, 10, 50));
    let cplx = g.bool();
    let kind = g.us(0, 4);
    let mut a = vec![vec![ZERO; n]; m];
    let (u0, v0): (Vec<Complex64>, Vec<Complex64>) = ((0..m).map(|_| randc(g, cplx)).collect(), (0..n).map(|_| randc(g, cplx)).collect());
    for i in 0..m {
        for j in 0..n {
            a[i][j] = match kind {
                0 => randc(g, cplx) * 5.0,
                1 => c(g.int(-3, 3) as f64, if cplx { g.int(-3, 3) as f64 } else { 0.0 }),
                2 => u0[i] * v0[j],
                3 => {
                    if i == j {
                        c(g.int(-3, 3) as f64, 0.0)
                    } else {
                        ZERO
                    }
                }
                _ => randc(g, cplx) * 10f64.powi(-(i as i32)),
            };
        }
    }
    rescale(g, &mut a, 200);
    g.class(["svd uniform", "svd integers", "svd rank one", "svd diagonal", "svd graded"][kind]);
    g.show("a", &a);
    if m != n {
        g.hit();
    }
    let k = m.min(n);
    let mut s = Vector::filled(k, -5.0);
    let (u, vt): (CM, CM);
    let key = if cplx { "complex_mat_svd" } else { "mat_svd" };
    if cplx {
        let mut w = ComplexMatrix::new(m, n);
        for i in 0..m {
            for j in 0..n {
                w.set(i, j, a[i][j]);
            }
        }
        let (mut uu, mut vv) = (ComplexMatrix::new(m, m), ComplexMatrix::new(n, n));
        must(key, "svd", complex_mat_svd(&mut s, &mut uu, &mut vv, &mut w))?;
        u = cmv(&uu);
        vt = cmv(&vv);
        must_err("complex_mat_svd:dims", "dims", complex_mat_svd(&mut Vector::new(k + 1), &mut uu, &mut vv, &mut w))?;
        must_err("complex_mat_svd:dims", "dims", complex_mat_svd(&mut s.clone(), &mut ComplexMatrix::new(m, m + 1), &mut vv, &mut w))?;
        must_err("complex_mat_svd:dims", "dims", complex_mat_svd(&mut s.clone(), &mut uu, &mut ComplexMatrix::new(n + 1, n), &mut w))?;
    } else {
        let mut w = Matrix::new(m, n);
        for i in 0..m {
            for j in 0..n {
                w.set(i, j, a[i][j].re);
            }
        }
        let (mut uu, mut vv) = (Matrix::new(m, m), Matrix::new(n, n));
        must(key, "svd", mat_svd(&mut s, &mut uu, &mut vv, &mut w))?;
        u = cm(&uu, &Matrix::new(m, m));
        vt = cm(&vv, &Matrix::new(n, n));
        must_err("mat_svd:dims", "dims", mat_svd(&mut Vector::new(k + 1), &mut uu, &mut vv, &mut w))?;
        must_err("mat_svd:dims", "dims", mat_svd(&mut s.clone(), &mut Matrix::new(m, m + 1), &mut vv, &mut w))?;
        must_err("mat_svd:dims", "dims", mat_svd(&mut s.clone(), &mut uu, &mut Matrix::new(n + 1, n), &mut w))?;
    }
    for i in 0..k {
        ensure!(s[i] >= 0.0 && (i == 0 || s[i] <= s[i - 1]), format!("{}:order", key).as_str(), "singular values not descending/non-negative: {:?}", s.as_data());
    }
    orthonormal(key, &u)?;
    orthonormal(key, &vt)?;
    let tol = 60.0 * (m + n) as f64 * EPS * fro(&a) + 1e-290;
    for i in 0..m {
        for j in 0..n {
            let t: Complex64 = (0..k).map(|l| u[i][l] * vt[l][j] * s[l]).sum();
            ensure!(cabs(t - a[i][j]) <= tol, key, "U S V [{},{}] = {:?}, expected {:?}", i, j, t, a[i][j]);
        }
    }
    Ok(())
}

pub fn property() -> Property {
    Property {
        id: "C04",
        assumptions: &["residual tolerances: 100 * n * eps * norm; Jacobi rotations on matrices with entries of order 1..10 (its tolerance is absolute)"],
        laws: vec![
            Law { name: "general", quick: 150000, rule: "nine real matrix families up to 10x10; non-trivial: size > 1", f: general },
            Law { name: "complex_general", quick: 100000, rule: "nine complex matrix families up to 9x9; non-trivial: size > 1", f: complex_general },
            Law { name: "generalized", quick: 100000, rule: "pairs (A,B), B possibly singular, real and complex; non-trivial: size > 1", f: generalized },
            Law { name: "symmetric", quick: 150000, rule: "symmetric/Hermitian, other triangle spoiled; non-trivial: size > 1", f: symmetric },
            Law { name: "svd", quick: 150000, rule: "rectangular real/complex; non-trivial: not square", f: svd },
        ],
    }
}
