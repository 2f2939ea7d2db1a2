use crate::util::*;
use russell_lab::{Complex64 as C64, ComplexVector, Vector};
use russell_sparse::{ComplexCooMatrix, CooMatrix, VerifyLinSys, numerical_jacobian};

/// y := alpha a x and the sum of magnitudes of the terms
fn product<T: Sc>(t: &Trip<T>, alpha: T, x: &[T], transposed: bool) -> (Vec<T>, Vec<f64>) {
    let rows = if transposed { t.n } else { t.m };
    let mut y = vec![T::zero(); rows];
    let mut s = vec![0.0; rows];
    let mut one = |i: usize, j: usize, v: T| {
        let p = alpha * v * x[j];
        y[i] += p;
        s[i] += alpha.mag() * v.mag() * x[j].mag();
    };
    for &(i, j, v) in &t.e {
        if transposed { one(j, i, v) } else { one(i, j, v) }
        if t.sym.triangular() && i != j {
            if transposed { one(i, j, v) } else { one(j, i, v) }
        }
    }
    (y, s)
}

fn products_t<T: Sc>(g: &mut G) -> R {
    let sy = sym(g);
    let md = *g.pick(&[3usize, 6, 6, 15, 40]);
    let t = triplets::<T>(g, sy, md);
    t.show(g, "t");
    let coo = t.coo(0)?;
    let csc = must("csc", "from_coo", NumCscMatrix::from_coo(&coo))?;
    let csr = must("csr", "from_coo", NumCsrMatrix::from_coo(&coo))?;
    let alpha = coefficient::<T>(g);
    let x = vector::<T>(g, t.n);
    let xt = vector::<T>(g, t.m);
    g.show("alpha", &alpha);
    g.show("x", &x);
    g.show("xt", &xt);
    let (y, s) = product(&t, alpha, &x, false);
    let k = 4.0 * (t.e.len() as f64 * 2.0 + 4.0) * EPS;
    let fill = scalar::<T>(g);
    // exact dimensions
    let mut v = nv(&vec![fill; t.m]);
    let u = nv(&x);
    must("mat_vec_mul", "coo", coo.mat_vec_mul(&mut v, alpha, &u))?;
    for i in 0..t.m {
        scnear("coo_mat_vec_mul", &format!("v[{i}]"), v[i], y[i], k * s[i] + TINY)?;
    }
    v.fill(fill);
    must("mat_vec_mul", "csc", csc.mat_vec_mul(&mut v, alpha, &u))?;
    for i in 0..t.m {
        scnear("csc_mat_vec_mul", &format!("v[{i}]"), v[i], y[i], k * s[i] + TINY)?;
    }
    v.fill(fill);
    must("mat_vec_mul", "csr", csr.mat_vec_mul(&mut v, alpha, &u))?;
    for i in 0..t.m {
        scnear("csr_mat_vec_mul", &format!("v[{i}]"), v[i], y[i], k * s[i] + TINY)?;
    }
    // larger vectors are accepted by the triplet form
    let (em, en) = (g.us(0, 2), g.us(0, 2));
    let v0 = vector::<T>(g, t.m + em);
    let mut v = nv(&v0);
    let mut xx = x.clone();
    for _ in 0..en {
        xx.push(scalar(g));
    }
    must("update", "coo", coo.mat_vec_mul_update(&mut v, alpha, &nv(&xx)))?;
    for i in 0..t.m + em {
        let (e, tol) = if i < t.m { (v0[i] + y[i], k * (s[i] + v0[i].mag())) } else { (v0[i], 0.0) };
        scnear("coo_mat_vec_mul_update", &format!("v[{i}]"), v[i], e, tol + TINY)?;
    }
    // transposed
    let (yt, st) = product(&t, alpha, &xt, true);
    let mut v = nv(&vec![fill; t.n]);
    must("mat_t_vec_mul", "coo", coo.mat_t_vec_mul(&mut v, alpha, &nv(&xt)))?;
    for i in 0..t.n {
        scnear("coo_mat_t_vec_mul", &format!("v[{i}]"), v[i], yt[i], k * st[i] + TINY)?;
    }
    // incompatible dimensions
    let short_u = t.n - 1;
    let short_v = t.m - 1;
    let (mut vs, us) = (nv(&vec![fill; short_v]), nv(&vec![fill; short_u]));
    let mut v = nv(&vec![fill; t.m]);
    must_err("dims", "coo u", coo.mat_vec_mul(&mut v, alpha, &us))?;
    must_err("dims", "coo v", coo.mat_vec_mul(&mut vs, alpha, &u))?;
    must_err("dims", "coo update u", coo.mat_vec_mul_update(&mut v, alpha, &us))?;
    must_err("dims", "coo update v", coo.mat_vec_mul_update(&mut vs, alpha, &u))?;
    must_err("dims", "csc u", csc.mat_vec_mul(&mut v, alpha, &us))?;
    must_err("dims", "csc v", csc.mat_vec_mul(&mut vs, alpha, &u))?;
    must_err("dims", "csr u", csr.mat_vec_mul(&mut v, alpha, &us))?;
    must_err("dims", "csr v", csr.mat_vec_mul(&mut vs, alpha, &u))?;
    let mut vt = nv(&vec![fill; t.n]);
    must_err("dims", "coo transposed u", coo.mat_t_vec_mul(&mut vt, alpha, &vs))?;
    let mut vts = nv(&vec![fill; short_u]);
    must_err("dims", "coo transposed v", coo.mat_t_vec_mul(&mut vts, alpha, &nv(&xt)))?;
    ensure!(v.as_data().iter().all(|z| *z == fill), "dims", "a refused product changed its result");
    let long = nv(&vec![fill; t.n + 1]);
    must_err("dims", "csc long u", csc.mat_vec_mul(&mut v, alpha, &long))?;
    must_err("dims", "csr long u", csr.mat_vec_mul(&mut v, alpha, &long))?;
    if T::COMPLEX {
        g.class("complex");
    }
    if sy.triangular() {
        g.class("triangular");
    }
    g.hit();
    Ok(())
}

fn products(g: &mut G) -> R {
    if g.bool() { products_t::<f64>(g) } else { products_t::<Complex64>(g) }
}

/// assignment, addition and bordered insertion
fn combine_t<T: Sc>(g: &mut G) -> R {
    let sy = sym(g);
    let md = *g.pick(&[3usize, 5, 8]);
    let a = triplets::<T>(g, sy, md);
    let alpha = coefficient::<T>(g);
    a.show(g, "a");
    g.show("alpha", &alpha);
    match g.draw(4) {
        0 => {
            // assign
            let b = triplets_mn::<T>(g, sy, a.m, a.n);
            b.show(g, "b");
            let room = g.us(0, 2);
            let cap = usize::max(a.e.len(), b.e.len()) + room;
            let mut c = a.coo(cap - a.e.len())?;
            must("assign", "assign", c.assign(alpha, &b.coo(0)?))?;
            let e = Trip { e: b.e.iter().map(|q| (q.0, q.1, alpha * q.2)).collect(), ..b.clone() };
            ensure!(c.get_nnz() == b.e.len(), "assign", "nnz {}", c.get_nnz());
            same_dense("assign", "assign", &c.as_dense(), &e)?;
            // not enough room
            if b.e.len() > 1 {
                let mut s = must("new", "new", NumCooMatrix::<T>::new(a.m, a.n, b.e.len() - 1, sy))?;
                must_err("assign", "no room", s.assign(alpha, &b.coo(0)?))?;
            }
            // dimensions and storage
            let w = triplets_mn::<T>(g, Sym::No, a.m + 1, a.n);
            must_err("assign", "nrow", c.assign(alpha, &w.coo(0)?))?;
            let w = triplets_mn::<T>(g, Sym::No, a.m, a.n + 1);
            must_err("assign", "ncol", c.assign(alpha, &w.coo(0)?))?;
            if a.m == a.n {
                let other = *g.pick(&SYMS);
                if other != sy {
                    let w = triplets_mn::<T>(g, other, a.m, a.n);
                    must_err("assign", "storage", c.assign(alpha, &w.coo(0)?))?;
                }
            }
            same_dense("assign", "after refused calls", &c.as_dense(), &e)?;
            g.class("assign");
        }
        1 | 2 => {
            // several additions of smaller matrices
            let mut e = a.clone();
            let times = g.us(1, 3);
            let mut parts = Vec::new();
            for _ in 0..times {
                let m = g.us(1, a.m);
                let n = if sy == Sym::No { g.us(1, a.n) } else { m };
                parts.push((coefficient::<T>(g), triplets_mn::<T>(g, sy, m, n)));
            }
            let need: usize = parts.iter().map(|p| p.1.e.len()).sum();
            let mut c = a.coo(need)?;
            for (al, p) in &parts {
                p.show(g, "part");
                must("add", "add", c.add(*al, &p.coo(0)?))?;
                e.e.extend(p.e.iter().map(|q| (q.0, q.1, *al * q.2)));
            }
            ensure!(c.get_nnz() == e.e.len(), "add", "nnz {}", c.get_nnz());
            same_dense("add", "add", &c.as_dense(), &e)?;
            must_err("add", "no room", c.add(alpha, &parts[0].1.coo(0)?))?;
            let mut c = a.coo(100)?;
            let w = triplets_mn::<T>(g, Sym::No, a.m + 1, 1);
            must_err("add", "nrow", c.add(alpha, &w.coo(0)?))?;
            let w = triplets_mn::<T>(g, Sym::No, 1, a.n + 1);
            must_err("add", "ncol", c.add(alpha, &w.coo(0)?))?;
            if sy != Sym::No {
                let w = triplets_mn::<T>(g, Sym::No, 1, 1);
                must_err("add", "storage", c.add(alpha, &w.coo(0)?))?;
            }
            same_dense("add", "after refused calls", &c.as_dense(), &a)?;
            g.class("add");
        }
        _ => {
            // border
            let total = usize::min(a.m, a.n);
            let bm = g.us(1, 3);
            let bn = g.us(1, 4);
            let b = triplets_mn::<T>(g, Sym::No, bm, bn);
            b.show(g, "b");
            let mut c = a.coo(2 * b.e.len())?;
            let r = c.put_lagrange_block(&b.coo(0)?);
            if bm + bn > total {
                must_err("lagrange", "too large", r)?;
                same_dense("lagrange", "after a refused call", &c.as_dense(), &a)?;
                g.class("border too large");
            } else {
                must("lagrange", "put_lagrange_block", r)?;
                let mut e = Trip { sym: Sym::No, ..a.clone() };
                if sy.triangular() {
                    for &(i, j, x) in &a.e {
                        if i != j {
                            e.e.push((j, i, x));
                        }
                    }
                }
                for &(i, j, x) in &b.e {
                    e.e.push((bn + i, j, x));
                    e.e.push((j, bn + i, x));
                }
                same_dense("lagrange", "bordered", &c.as_dense(), &e)?;
                g.class("border");
            }
            let w = triplets_mn::<T>(g, Sym::YesFull, 1, 1);
            must_err("lagrange", "symmetric block", c.put_lagrange_block(&w.coo(0)?))?;
        }
    }
    g.hit();
    Ok(())
}

fn combine(g: &mut G) -> R {
    if g.bool() { combine_t::<f64>(g) } else { combine_t::<Complex64>(g) }
}

/// real matrices into complex ones
fn real_into_complex(g: &mut G) -> R {
    let sy = sym(g);
    let md = *g.pick(&[3usize, 5, 8]);
    let a = triplets::<Complex64>(g, sy, md);
    let (al, be) = (coefficient::<f64>(g), coefficient::<f64>(g));
    a.show(g, "a");
    g.show("coefficients", &(al, be));
    let adding = g.bool();
    let (m, n) = if adding {
        let m = g.us(1, a.m);
        (m, if sy == Sym::No { g.us(1, a.n) } else { m })
    } else {
        (a.m, a.n)
    };
    let b = triplets_mn::<f64>(g, sy, m, n);
    b.show(g, "b");
    let bc = b.coo(0)?;
    let mut c: ComplexCooMatrix = a.coo(b.e.len())?;
    let scaled: Vec<(usize, usize, C64)> = b.e.iter().map(|q| (q.0, q.1, C64::new(al * q.2, be * q.2))).collect();
    let mut e = a.clone();
    if adding {
        must("add_real", "add_real", c.add_real(al, be, &bc))?;
        e.e.extend(scaled);
        must_err("add_real", "no room", c.add_real(al, be, &bc))?;
        let mut c2: ComplexCooMatrix = a.coo(50)?;
        let w = triplets_mn::<f64>(g, Sym::No, a.m + 1, 1);
        must_err("add_real", "nrow", c2.add_real(al, be, &w.coo(0)?))?;
        let w = triplets_mn::<f64>(g, Sym::No, 1, a.n + 1);
        must_err("add_real", "ncol", c2.add_real(al, be, &w.coo(0)?))?;
        if sy != Sym::No {
            let w = triplets_mn::<f64>(g, Sym::No, 1, 1);
            must_err("add_real", "storage", c2.add_real(al, be, &w.coo(0)?))?;
        }
        same_dense("add_real", "after refused calls", &c2.as_dense(), &a)?;
        g.class("add");
    } else {
        must("assign_real", "assign_real", c.assign_real(al, be, &bc))?;
        e.e = scaled;
        let w = triplets_mn::<f64>(g, Sym::No, a.m + 1, a.n);
        must_err("assign_real", "nrow", c.assign_real(al, be, &w.coo(0)?))?;
        let w = triplets_mn::<f64>(g, Sym::No, a.m, a.n + 1);
        must_err("assign_real", "ncol", c.assign_real(al, be, &w.coo(0)?))?;
        if sy != Sym::No {
            let w = triplets_mn::<f64>(g, Sym::No, a.m, a.n);
            must_err("assign_real", "storage", c.assign_real(al, be, &w.coo(0)?))?;
        }
        g.class("assign");
    }
    if !adding {
        ensure!(c.get_nnz() == e.e.len(), "real_into_complex", "nnz {}", c.get_nnz());
        same_dense("real_into_complex", "result", &c.as_dense(), &e)?;
    } else {
        // a refused addition may leave some of its entries; compare the accepted one on a fresh copy
        let mut c: ComplexCooMatrix = a.coo(b.e.len())?;
        must("add_real", "add_real", c.add_real(al, be, &bc))?;
        same_dense("real_into_complex", "result", &c.as_dense(), &e)?;
    }
    g.hit();
    Ok(())
}

/// residual report
fn verify(g: &mut G) -> R {
    let sy = sym(g);
    let complex = g.bool();
    let md = *g.pick(&[3usize, 6, 12]);
    if complex {
        let t = triplets::<Complex64>(g, sy, md);
        t.show(g, "t");
        let coo = t.coo(0)?;
        let x = vector::<Complex64>(g, t.n);
        let b = vector::<Complex64>(g, t.m);
        let (y, s) = product(&t, Complex64::new(1.0, 0.0), &x, false);
        let v = must("verify", "from_complex", VerifyLinSys::from_complex(&coo, &ComplexVector::from(&x), &ComplexVector::from(&b)))?;
        let ma = t.e.iter().fold(0.0, |m, q| f64::max(m, q.2.mag()));
        report(&v, ma, y.iter().map(|z| z.mag()).collect(), (0..t.m).map(|i| (y[i] - b[i]).mag()).collect(), &s, &b.iter().map(|z| z.mag()).collect::<Vec<_>>(), t.e.len())?;
        must_err("verify", "x", VerifyLinSys::from_complex(&coo, &ComplexVector::new(t.n + 1), &ComplexVector::from(&b)))?;
        must_err("verify", "rhs", VerifyLinSys::from_complex(&coo, &ComplexVector::from(&x), &ComplexVector::new(t.m + 1)))?;
        g.class("complex");
    } else {
        let t = triplets::<f64>(g, sy, md);
        t.show(g, "t");
        let coo = t.coo(0)?;
        let x = vector::<f64>(g, t.n);
        let b = vector::<f64>(g, t.m);
        let (y, s) = product(&t, 1.0, &x, false);
        let v = must("verify", "from", VerifyLinSys::from(&coo, &Vector::from(&x), &Vector::from(&b)))?;
        let ma = t.e.iter().fold(0.0, |m, q| f64::max(m, q.2.mag()));
        report(&v, ma, y.iter().map(|z| z.mag()).collect(), (0..t.m).map(|i| (y[i] - b[i]).mag()).collect(), &s, &b.iter().map(|z| z.mag()).collect::<Vec<_>>(), t.e.len())?;
        must_err("verify", "x", VerifyLinSys::from(&coo, &Vector::new(t.n + 1), &Vector::from(&b)))?;
        must_err("verify", "rhs", VerifyLinSys::from(&coo, &Vector::from(&x), &Vector::new(t.m + 1)))?;
        let empty = must("new", "new", CooMatrix::new(t.m, t.n, 1, Sym::No))?;
        must_err("verify", "empty matrix", VerifyLinSys::from(&empty, &Vector::from(&x), &Vector::from(&b)))?;
        // the larger of two reports
        let mut o = v.clone();
        o.relative_error = match g.draw(3) {
            0 => v.relative_error * 2.0,
            1 => v.relative_error * 0.5,
            _ => v.relative_error,
        };
        let w = v.max_relative_error(&o);
        ensure!(w.relative_error == f64::max(v.relative_error, o.relative_error), "verify_max", "{} {} -> {}", v.relative_error, o.relative_error, w.relative_error);
    }
    g.hit();
    Ok(())
}

fn report(v: &VerifyLinSys, ma: f64, ax: Vec<f64>, diff: Vec<f64>, s: &[f64], b: &[f64], k: usize) -> R {
    let tol = 8.0 * (2.0 * k as f64 + 4.0) * EPS;
    let max = |x: &[f64]| x.iter().fold(0.0, |m, &z| f64::max(m, z));
    near("verify", "max_abs_a", v.max_abs_a, ma, 4.0 * EPS * ma)?;
    near("verify", "max_abs_ax", v.max_abs_ax, max(&ax), tol * max(s) + TINY)?;
    let td = tol * (max(s) + max(b)) + TINY;
    near("verify", "max_abs_diff", v.max_abs_diff, max(&diff), td)?;
    near("verify", "relative_error", v.relative_error, max(&diff) / (ma + 1.0), (td + 8.0 * EPS * max(&diff)) / (ma + 1.0))?;
    Ok(())
}

/// numerical Jacobian of quadratic functions
fn jacobian(g: &mut G) -> R {
    let n = g.us(1, 6);
    let sy = sym(g);
    let room = g.us(0, 2);
    let alpha = *g.pick(&[1.0, -1.0, 2.5, 0.5]);
    let x0 = g.uni(-1.0, 1.0);
    let need = if sy.triangular() { (n + n * n) / 2 } else { n * n };
    let mut aa = vec![vec![0.0; n]; n];
    let mut bb = vec![vec![0.0; n]; n];
    for i in 0..n {
        for j in 0..=i {
            aa[i][j] = g.uni(-5.0, 5.0);
            aa[j][i] = aa[i][j];
            if sy == Sym::No {
                aa[j][i] = g.uni(-5.0, 5.0);
                bb[i][j] = g.uni(-2.0, 2.0);
            }
        }
        bb[i][i] = g.uni(-2.0, 2.0);
    }
    let y0: Vec<f64> = (0..n).map(|_| if g.chance(1, 5) { 0.0 } else { g.flog(-3.0, 3.0) }).collect();
    let fail_at = if g.chance(1, 4) { Some(g.us(0, n)) } else { None };
    g.show("problem", &(n, sy, alpha, x0, &aa, &bb, &y0, fail_at));
    let mut jj = must("new", "new", CooMatrix::new(n + room, n + room, need + room, sy))?;
    // stale entries must be discarded
    must("put", "put", jj.put(0, 0, 123.0))?;
    let mut y = Vector::from(&y0);
    let mut w1 = Vector::new(n + room);
    let mut w2 = Vector::new(n + room);
    let mut calls = 0usize;
    let res = numerical_jacobian(&mut jj, n, alpha, x0, &mut y, &mut w1, &mut w2, &mut calls, |f, x, y, c| {
        if Some(*c) == fail_at {
            return Err("stop");
        }
        *c += 1;
        for i in 0..n {
            f[i] = x;
            for j in 0..n {
                f[i] += aa[i][j] * y[j] + bb[i][j] * y[j] * y[j];
            }
        }
        Ok(())
    });
    ensure!(y.as_data() == &y0, "jacobian_y", "y changed: {:?} -> {:?}", y0, y.as_data());
    if fail_at.is_some() {
        ensure!(res == Err("stop"), "jacobian_fault", "{:?}", res);
        g.class("fault");
        g.hit();
        return Ok(());
    }
    must("jacobian", "numerical_jacobian", res)?;
    ensure!(calls == n + 1, "jacobian_calls", "{calls} calls");
    let d = jj.as_dense();
    let mut fm = 1.0f64;
    for i in 0..n {
        let mut s = x0.abs();
        for j in 0..n {
            s += (aa[i][j] * y0[j]).abs() + (bb[i][j] * y0[j] * y0[j]).abs();
        }
        fm = fm.max(s);
    }
    for i in 0..n + room {
        for j in 0..n + room {
            if i >= n || j >= n {
                ensure!(d.get(i, j) == 0.0, "jacobian", "entry ({i},{j}) outside the block: {}", d.get(i, j));
                continue;
            }
            let delta = (EPS * f64::max(1e-5, y0[j].abs())).sqrt();
            let e = alpha * (aa[i][j] + 2.0 * bb[i][j] * y0[j]);
            let mut tol = alpha.abs() * (1.01 * bb[i][j].abs() * delta + 40.0 * EPS * (fm + y0[j].abs() * e.abs()) / delta);
            if sy.triangular() {
                let delta = (EPS * f64::max(1e-5, y0[i].abs())).sqrt();
                tol += alpha.abs() * (1.01 * bb[j][i].abs() * delta + 40.0 * EPS * (fm + y0[i].abs() * e.abs()) / delta);
            }
            near("jacobian", &format!("J[{i},{j}]"), d.get(i, j), e, tol)?;
        }
    }
    // refused
    let mut f = |_: &mut Vector, _: f64, _: &Vector, _: &mut usize| Ok(());
    let mut small = must("new", "new", CooMatrix::new(n, n, need, sy))?;
    must_err("jacobian_dims", "ndim", numerical_jacobian(&mut small, n + 1, alpha, x0, &mut y, &mut w1, &mut w2, &mut calls, &mut f))?;
    if need > 1 {
        let mut tight = must("new", "new", CooMatrix::new(n, n, need - 1, sy))?;
        must_err("jacobian_dims", "room", numerical_jacobian(&mut tight, n, alpha, x0, &mut y, &mut w1, &mut w2, &mut calls, &mut f))?;
    }
    let mut short = Vector::new(n - 1);
    must_err("jacobian_dims", "y", numerical_jacobian(&mut small, n, alpha, x0, &mut short, &mut w1, &mut w2, &mut calls, &mut f))?;
    must_err("jacobian_dims", "w1", numerical_jacobian(&mut small, n, alpha, x0, &mut y, &mut short, &mut w2, &mut calls, &mut f))?;
    must_err("jacobian_dims", "w2", numerical_jacobian(&mut small, n, alpha, x0, &mut y, &mut w1, &mut short, &mut calls, &mut f))?;
    g.hit();
    Ok(())
}

pub fn property() -> Property {
    Property {
        id: "C13",
        assumptions: &["finite values with magnitudes up to 1e30", "tolerance 4(2k+4) eps times the sum of magnitudes of the k terms"],
        laws: vec![
            Law { name: "products", quick: 400_000, rule: "all products were compared with the triplet model", f: products },
            Law { name: "combine", quick: 600_000, rule: "an assignment, addition or bordered insertion was compared with the triplet model", f: combine },
            Law { name: "real_into_complex", quick: 300_000, rule: "the complex result was compared with the triplet model", f: real_into_complex },
            Law { name: "verify", quick: 400_000, rule: "all reported quantities were compared", f: verify },
            Law { name: "jacobian", quick: 600_000, rule: "all entries were compared with the analytical Jacobian, or an injected fault was observed", f: jacobian },
        ],
    }
}
