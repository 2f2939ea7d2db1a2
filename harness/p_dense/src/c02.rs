use crate::util::*;
use russell_lab::*;

fn dims3(g: &mut G, hi: usize) -> (usize, usize, usize) {
    match g.draw(5) {
        0 => (g.us(0, 4), g.us(0, 4), g.us(0, 4)),
        1 => {
            let n = g.us(1, hi);
            (n, n, n)
        }
        2 => (g.us(1, 4), g.us(1, hi), g.us(1, 4)),
        _ => (g.us(1, hi), g.us(1, hi), g.us(1, hi)),
    }
}

fn label(g: &mut G, m: usize, n: usize, k: usize) {
    g.show("m,n,k", &(m, n, k));
    g.class(if m * n * k == 0 {
        "some dimension is zero"
    } else if m == n && n == k {
        "square"
    } else {
        "rectangular"
    });
    if m * n * k > 0 {
        g.hit();
    }
}

fn real_products(g: &mut G) -> R {
    let (m, n, k) = dims3(g, 12);
    label(g, m, n, k);
    let a = rmat(g, m, k);
    let b = rmat(g, k, n);
    let c0 = rmat(g, m, n);
    let (al, be) = (scal(g), scal(g));
    g.show("a", &mat_to_vec(&a));
    g.show("b", &mat_to_vec(&b));
    g.show("c", &mat_to_vec(&c0));
    g.show("alpha,beta", &(al, be));
    let mut at = Matrix::new(k, m);
    for i in 0..m {
        for l in 0..k {
            at.set(l, i, a.get(i, l));
        }
    }
    let (a_, b_) = (a.clone(), b.clone());
    let mut c1 = c0.clone();
    must("mat_mat_mul", "mat_mat_mul", mat_mat_mul(&mut c1, al, &a, &b, be))?;
    let mut c2 = c0.clone();
    must("mat_t_mat_mul", "mat_t_mat_mul", mat_t_mat_mul(&mut c2, al, &at, &b, be))?;
    ensure!(a.as_data() == a_.as_data() && b.as_data() == b_.as_data(), "mat_mat_mul:inputs", "inputs modified");
    for i in 0..m {
        for j in 0..n {
            let mut s = 0.0;
            let mut t = 0.0;
            for l in 0..k {
                s += a.get(i, l) * b.get(l, j);
                t += (a.get(i, l) * b.get(l, j)).abs();
            }
            let tol = EPS * (2.0 * k as f64 + 6.0) * ((al.abs() * t) + (be * c0.get(i, j)).abs()) + TINY;
            let r = al * s + be * c0.get(i, j);
            near("mat_mat_mul", &format!("c[{},{}]", i, j), c1.get(i, j), r, tol)?;
            near("mat_t_mat_mul", &format!("c[{},{}]", i, j), c2.get(i, j), r, tol)?;
        }
    }
    // incompatible
    let mut c3 = c0.clone();
    let bad = match g.us(0, 2) {
        0 => mat_mat_mul(&mut c3, al, &Matrix::new(m, k + 1), &b, be),
        1 => mat_mat_mul(&mut c3, al, &Matrix::new(m + 1, k), &b, be),
        _ => mat_mat_mul(&mut c3, al, &a, &Matrix::new(k, n + 1), be),
    };
    must_err("mat_mat_mul:dims", "incompatible shapes", bad)?;
    let bad = match g.us(0, 2) {
        0 => mat_t_mat_mul(&mut c3, al, &Matrix::new(k + 1, m), &b, be),
        1 => mat_t_mat_mul(&mut c3, al, &Matrix::new(k, m + 1), &b, be),
        _ => mat_t_mat_mul(&mut c3, al, &at, &Matrix::new(k, n + 1), be),
    };
    must_err("mat_t_mat_mul:dims", "incompatible shapes", bad)?;
    ensure!(c3.as_data() == c0.as_data(), "mat_mat_mul:dims", "destination modified although an error was returned");
    Ok(())
}

fn complex_products(g: &mut G) -> R {
    let (m, n, k) = dims3(g, 9);
    label(g, m, n, k);
    let a = cmat(g, m, k);
    let b = cmat(g, k, n);
    let c0 = cmat(g, m, n);
    let (al, be) = (cscal(g), cscal(g));
    g.show("a", &a.as_data());
    g.show("b", &b.as_data());
    g.show("alpha,beta", &(al, be));
    let mut at = ComplexMatrix::new(k, m);
    for i in 0..m {
        for l in 0..k {
            at.set(l, i, a.get(i, l));
        }
    }
    let mut c1 = c0.clone();
    must("complex_mat_mat_mul", "complex_mat_mat_mul", complex_mat_mat_mul(&mut c1, al, &a, &b, be))?;
    let mut c2 = c0.clone();
    must("complex_mat_t_mat_mul", "complex_mat_t_mat_mul", complex_mat_t_mat_mul(&mut c2, al, &at, &b, be))?;
    for i in 0..m {
        for j in 0..n {
            let mut s = c(0.0, 0.0);
            let mut t = 0.0;
            for l in 0..k {
                s += a.get(i, l) * b.get(l, j);
                t += cabs(a.get(i, l)) * cabs(b.get(l, j));
            }
            let tol = EPS * (4.0 * k as f64 + 16.0) * (cabs(al) * t + cabs(be) * cabs(c0.get(i, j))) + TINY;
            let r = al * s + be * c0.get(i, j);
            cnear("complex_mat_mat_mul", &format!("c[{},{}]", i, j), c1.get(i, j), r, tol)?;
            cnear("complex_mat_t_mat_mul", &format!("c[{},{}]", i, j), c2.get(i, j), r, tol)?;
        }
    }
    let mut c3 = c0.clone();
    must_err("complex_mat_mat_mul:dims", "incompatible", complex_mat_mat_mul(&mut c3, al, &ComplexMatrix::new(m, k + 1), &b, be))?;
    must_err("complex_mat_t_mat_mul:dims", "incompatible", complex_mat_t_mat_mul(&mut c3, al, &ComplexMatrix::new(k + 1, m), &b, be))?;
    must_err("complex_mat_mat_mul:dims", "incompatible", complex_mat_mat_mul(&mut c3, al, &ComplexMatrix::new(m + 1, k), &b, be))?;
    must_err("complex_mat_t_mat_mul:dims", "incompatible", complex_mat_t_mat_mul(&mut c3, al, &ComplexMatrix::new(k, m + 1), &b, be))?;
    must_err("complex_mat_mat_mul:dims", "incompatible", complex_mat_mat_mul(&mut c3, al, &a, &ComplexMatrix::new(k, n + 1), be))?;
    must_err("complex_mat_t_mat_mul:dims", "incompatible", complex_mat_t_mat_mul(&mut c3, al, &at, &ComplexMatrix::new(k, n + 1), be))?;
    ensure!(c3.as_data() == c0.as_data(), "complex_mat_mat_mul:dims", "destination modified although an error was returned");
    Ok(())
}

fn mat_vec(g: &mut G) -> R {
    let (m, n) = shape(g, 24);
    label(g, m, n, 1);
    let a = rmat(g, m, n);
    let u = mvec(g, n);
    let w = mvec(g, m);
    let (al, be) = (scal(g), scal(g));
    g.show("a", &mat_to_vec(&a));
    g.show("u", &u);
    g.show("w", &w);
    g.show("alpha,beta", &(al, be));
    let junk = if g.bool() { f64::NAN } else { 1e3 };
    let (uu, ww) = (Vector::from(&u), Vector::from(&w));
    let mut v = Vector::from(&vec![junk; m]);
    must("mat_vec_mul", "mat_vec_mul", mat_vec_mul(&mut v, al, &a, &uu))?;
    let mut v2 = ww.clone();
    must("mat_vec_mul_update", "mat_vec_mul_update", mat_vec_mul_update(&mut v2, al, &a, &uu, be))?;
    for i in 0..m {
        let s: f64 = (0..n).map(|j| a.get(i, j) * u[j]).sum();
        let t: f64 = (0..n).map(|j| (a.get(i, j) * u[j]).abs()).sum();
        let tol = EPS * (2.0 * n as f64 + 6.0);
        near("mat_vec_mul", &format!("v[{}]", i), v[i], al * s, tol * al.abs() * t + TINY)?;
        near("mat_vec_mul_update", &format!("v[{}]", i), v2[i], al * s + be * w[i], tol * (al.abs() * t + (be * w[i]).abs()) + TINY)?;
    }
    let mut v = Vector::from(&vec![junk; n]);
    must("vec_mat_mul", "vec_mat_mul", vec_mat_mul(&mut v, al, &ww, &a))?;
    for j in 0..n {
        let s: f64 = (0..m).map(|i| a.get(i, j) * w[i]).sum();
        let t: f64 = (0..m).map(|i| (a.get(i, j) * w[i]).abs()).sum();
        near("vec_mat_mul", &format!("v[{}]", j), v[j], al * s, EPS * (2.0 * m as f64 + 6.0) * al.abs() * t + TINY)?;
    }
    let mut bad = Vector::new(m + 1);
    must_err("mat_vec_mul:dims", "dims", mat_vec_mul(&mut bad, al, &a, &uu))?;
    must_err("mat_vec_mul_update:dims", "dims", mat_vec_mul_update(&mut bad, al, &a, &uu, be))?;
    must_err("mat_vec_mul:dims", "dims", mat_vec_mul(&mut ww.clone(), al, &a, &Vector::new(n + 1)))?;
    must_err("mat_vec_mul_update:dims", "dims", mat_vec_mul_update(&mut ww.clone(), al, &a, &Vector::new(n + 1), be))?;
    must_err("vec_mat_mul:dims", "dims", vec_mat_mul(&mut Vector::new(n + 1), al, &ww, &a))?;
    must_err("vec_mat_mul:dims", "dims", vec_mat_mul(&mut Vector::new(n), al, &Vector::new(m + 1), &a))?;
    // outer products
    if m * n > 0 {
        let mut o = Matrix::filled(m, n, junk);
        must("vec_outer", "vec_outer", vec_outer(&mut o, al, &ww, &uu))?;
        let mut o2 = a.clone();
        must("vec_outer_update", "vec_outer_update", vec_outer_update(&mut o2, al, &ww, &uu))?;
        for i in 0..m {
            for j in 0..n {
                let p = al * w[i] * u[j];
                near("vec_outer", &format!("a[{},{}]", i, j), o.get(i, j), p, 4.0 * EPS * p.abs() + TINY)?;
                near("vec_outer_update", &format!("a[{},{}]", i, j), o2.get(i, j), p + a.get(i, j), 4.0 * EPS * (p.abs() + a.get(i, j).abs()) + TINY)?;
            }
        }
    }
    must_err("vec_outer:dims", "dims", vec_outer(&mut Matrix::new(m + 1, n), al, &ww, &uu))?;
    must_err("vec_outer:dims", "dims", vec_outer(&mut Matrix::new(m, n + 1), al, &ww, &uu))?;
    must_err("vec_outer_update:dims", "dims", vec_outer_update(&mut Matrix::new(m + 1, n), al, &ww, &uu))?;
    Ok(())
}

fn complex_mat_vec(g: &mut G) -> R {
    let (m, n) = shape(g, 16);
    label(g, m, n, 1);
    let a = cmat(g, m, n);
    let u = cvec(g, n);
    let w = cvec(g, m);
    let al = cscal(g);
    g.show("a", &a.as_data());
    g.show("u", &u);
    g.show("w", &w);
    g.show("alpha", &al);
    let junk = if g.bool() { c(f64::NAN, 1.0) } else { c(1e3, 1e3) };
    let mut v = ComplexVector::from(&vec![junk; m]);
    must("complex_mat_vec_mul", "complex_mat_vec_mul", complex_mat_vec_mul(&mut v, al, &a, &ComplexVector::from(&u)))?;
    for i in 0..m {
        let mut s = c(0.0, 0.0);
        let mut t = 0.0;
        for j in 0..n {
            s += a.get(i, j) * u[j];
            t += cabs(a.get(i, j)) * cabs(u[j]);
        }
        cnear("complex_mat_vec_mul", &format!("v[{}]", i), v[i], al * s, EPS * (4.0 * n as f64 + 16.0) * cabs(al) * t + TINY)?;
    }
    let mut v = ComplexVector::from(&vec![junk; n]);
    must("complex_vec_mat_mul", "complex_vec_mat_mul", complex_vec_mat_mul(&mut v, al, &ComplexVector::from(&w), &a))?;
    for j in 0..n {
        let mut s = c(0.0, 0.0);
        let mut t = 0.0;
        for i in 0..m {
            s += a.get(i, j) * w[i];
            t += cabs(a.get(i, j)) * cabs(w[i]);
        }
        cnear("complex_vec_mat_mul", &format!("v[{}]", j), v[j], al * s, EPS * (4.0 * m as f64 + 16.0) * cabs(al) * t + TINY)?;
    }
    must_err("complex_mat_vec_mul:dims", "dims", complex_mat_vec_mul(&mut ComplexVector::new(m + 1), al, &a, &ComplexVector::from(&u)))?;
    must_err("complex_mat_vec_mul:dims", "dims", complex_mat_vec_mul(&mut ComplexVector::new(m), al, &a, &ComplexVector::new(n + 1)))?;
    must_err("complex_vec_mat_mul:dims", "dims", complex_vec_mat_mul(&mut ComplexVector::new(n + 1), al, &ComplexVector::from(&w), &a))?;
    must_err("complex_vec_mat_mul:dims", "dims", complex_vec_mat_mul(&mut ComplexVector::new(n), al, &ComplexVector::new(m + 1), &a))?;
    Ok(())
}

fn rank_k(g: &mut G) -> R {
    let n = g.rare(1, 10, 60);
    let k = g.rare(1, 10, 60);
    let (upper, second) = (g.bool(), g.bool());
    let (al, be) = (scal(g), scal(g));
    g.show("n,k", &(n, k));
    g.show("upper,second_case", &(upper, second));
    g.show("alpha,beta", &(al, be));
    g.hit();
    let (p, q) = if second { (k, n) } else { (n, k) };
    let a = rmat(g, p, q);
    let mut c0 = rmat(g, n, n);
    for i in 0..n {
        for j in 0..i {
            let x = c0.get(i, j);
            c0.set(j, i, x);
        }
    }
    g.show("a", &mat_to_vec(&a));
    g.show("c", &mat_to_vec(&c0));
    let el = |i: usize, l: usize| if second { a.get(l, i) } else { a.get(i, l) };
    let mut c1 = c0.clone();
    must("mat_sym_rank_op", "mat_sym_rank_op", mat_sym_rank_op(&mut c1, &a, al, be, upper, second))?;
    for i in 0..n {
        for j in 0..n {
            let active = if upper { j >= i } else { j <= i };
            if active {
                let s: f64 = (0..k).map(|l| el(i, l) * el(j, l)).sum();
                let t: f64 = (0..k).map(|l| (el(i, l) * el(j, l)).abs()).sum();
                let tol = EPS * (2.0 * k as f64 + 6.0) * (al.abs() * t + (be * c0.get(i, j)).abs()) + TINY;
                near("mat_sym_rank_op", &format!("c[{},{}]", i, j), c1.get(i, j), al * s + be * c0.get(i, j), tol)?;
            } else {
                near("mat_sym_rank_op:outside", &format!("c[{},{}]", i, j), c1.get(i, j), c0.get(i, j), 0.0)?;
            }
        }
    }
    must_err("mat_sym_rank_op:dims", "non-square", mat_sym_rank_op(&mut Matrix::new(n, n + 1), &a, al, be, upper, second))?;
    must_err("mat_sym_rank_op:dims", "incompatible", mat_sym_rank_op(&mut Matrix::new(n + 1, n + 1), &a, al, be, upper, second))?;
    // complex: symmetric and hermitian
    let a = cmat(g, p, q);
    let (cal, cbe) = (cscal(g), cscal(g));
    let el = |i: usize, l: usize| if second { a.get(l, i) } else { a.get(i, l) };
    let mut s0 = cmat(g, n, n);
    let mut h0 = s0.clone();
    for i in 0..n {
        for j in 0..i {
            let x = s0.get(i, j);
            s0.set(j, i, x);
            h0.set(j, i, x.conj());
        }
        h0.set(i, i, c(h0.get(i, i).re, 0.0));
    }
    g.show("complex a", &a.as_data());
    g.show("complex alpha,beta", &(cal, cbe));
    let mut s1 = s0.clone();
    must("complex_mat_sym_rank_op", "complex_mat_sym_rank_op", complex_mat_sym_rank_op(&mut s1, &a, cal, cbe, upper, second))?;
    let mut h1 = h0.clone();
    must("complex_mat_herm_rank_op", "complex_mat_herm_rank_op", complex_mat_herm_rank_op(&mut h1, &a, al, be, upper, second))?;
    for i in 0..n {
        for j in 0..n {
            let active = if upper { j >= i } else { j <= i };
            if active {
                let mut s = c(0.0, 0.0);
                let mut h = c(0.0, 0.0);
                let mut t = 0.0;
                for l in 0..k {
                    let (x, y) = (el(i, l), el(j, l));
                    s += x * y;
                    // first case: a aᴴ; second case: aᴴ a
                    h += if second { x.conj() * y } else { x * y.conj() };
                    t += cabs(x) * cabs(y);
                }
                let f = EPS * (4.0 * k as f64 + 16.0);
                cnear("complex_mat_sym_rank_op", &format!("c[{},{}]", i, j), s1.get(i, j), cal * s + cbe * s0.get(i, j), f * (cabs(cal) * t + cabs(cbe) * cabs(s0.get(i, j))) + TINY)?;
                cnear("complex_mat_herm_rank_op", &format!("c[{},{}]", i, j), h1.get(i, j), h * al + h0.get(i, j) * be, f * (al.abs() * t + be.abs() * cabs(h0.get(i, j))) + TINY)?;
            } else {
                cnear("complex_mat_sym_rank_op:outside", &format!("c[{},{}]", i, j), s1.get(i, j), s0.get(i, j), 0.0)?;
                cnear("complex_mat_herm_rank_op:outside", &format!("c[{},{}]", i, j), h1.get(i, j), h0.get(i, j), 0.0)?;
            }
        }
    }
    must_err("complex_mat_sym_rank_op:dims", "incompatible", complex_mat_sym_rank_op(&mut ComplexMatrix::new(n + 1, n + 1), &a, cal, cbe, upper, second))?;
    must_err("complex_mat_herm_rank_op:dims", "incompatible", complex_mat_herm_rank_op(&mut ComplexMatrix::new(n + 1, n + 1), &a, al, be, upper, second))?;
    must_err("complex_mat_sym_rank_op:dims", "non-square", complex_mat_sym_rank_op(&mut ComplexMatrix::new(n, n + 1), &a, cal, cbe, upper, second))?;
    must_err("complex_mat_herm_rank_op:dims", "non-square", complex_mat_herm_rank_op(&mut ComplexMatrix::new(n, n + 1), &a, al, be, upper, second))?;
    Ok(())
}

fn band(g: &mut G) -> R {
    let (m, n) = (g.rare(1, 12, 50), g.rare(1, 12, 50));
    let (ml, mu) = (g.us(0, m - 1), g.us(0, n - 1));
    let a = rmat(g, m, n);
    g.show("m,n,ml,mu", &(m, n, ml, mu));
    if ml > 0 || mu > 0 {
        g.hit();
    }
    let noise = 777.25;
    let mut b = Matrix::filled(ml + mu + 1, n, noise);
    must("mat_convert_to_blas_band", "convert", mat_convert_to_blas_band(&mut b, &a, ml, mu))?;
    // BLAS band storage: AB(mu + i - j, j) = A(i, j) for j-mu <= i <= j+ml
    let mut expect = Matrix::filled(ml + mu + 1, n, noise);
    for i in 0..m {
        for j in 0..n {
            if i as i64 >= j as i64 - mu as i64 && i <= j + ml {
                expect.set(mu + i - j, j, a.get(i, j));
            }
        }
    }
    ensure!(b.as_data() == expect.as_data(), "mat_convert_to_blas_band", "band = {:?}, expected {:?}", b.as_data(), expect.as_data());
    must_err("band:dims", "wrong band size", mat_convert_to_blas_band(&mut Matrix::new(ml + mu, n), &a, ml, mu))?;
    must_err("band:dims", "wrong band size", mat_convert_to_blas_band(&mut Matrix::new(ml + mu + 1, n + 1), &a, ml, mu))?;
    Ok(())
}

fn small_n<const N: usize>(g: &mut G) -> R {
    let n = g.us(0, N);
    let mut a = [[0.0; N]; N];
    let mut b = [[0.0; N]; N];
    let mut c0 = [[0.0; N]; N];
    for i in 0..N {
        for j in 0..N {
            a[i][j] = g.f(-9.0, 9.0);
            b[i][j] = g.f(-9.0, 9.0);
            c0[i][j] = g.f(-9.0, 9.0);
        }
    }
    let (al, be) = (scal(g), scal(g));
    g.show("N,n", &(N, n));
    g.show("a", &a);
    g.show("b", &b);
    g.show("c", &c0);
    g.show("alpha,beta", &(al, be));
    if n > 0 {
        g.hit();
    }
    let mut c1 = c0;
    small_mat_mat_mul(&mut c1, al, &a, &b, be, n);
    for i in 0..N {
        for j in 0..N {
            if i < n && j < n {
                let s: f64 = (0..n).map(|l| a[i][l] * b[l][j]).sum();
                let t: f64 = (0..n).map(|l| (a[i][l] * b[l][j]).abs()).sum();
                near("small_mat_mat_mul", &format!("c[{}][{}]", i, j), c1[i][j], al * s + be * c0[i][j], EPS * (2.0 * n as f64 + 6.0) * (al.abs() * t + (be * c0[i][j]).abs()))?;
            } else {
                near("small_mat_mat_mul:outside", &format!("c[{}][{}]", i, j), c1[i][j], c0[i][j], 0.0)?;
            }
        }
    }
    Ok(())
}

fn small(g: &mut G) -> R {
    match g.us(0, 4) {
        0 => small_n::<1>(g),
        1 => small_n::<2>(g),
        2 => small_n::<3>(g),
        3 => small_n::<5>(g),
        _ => small_n::<8>(g),
    }
}

pub fn property() -> Property {
    Property {
        id: "C02",
        assumptions: &["references are index loops in f64 with tolerance proportional to the sum of absolute terms"],
        laws: vec![
            Law { name: "real_products", quick: 300000, rule: "shapes up to 12 incl. zero dimensions, random coefficients; non-trivial: no zero dimension", f: real_products },
            Law { name: "complex_products", quick: 150000, rule: "shapes up to 9; non-trivial: no zero dimension", f: complex_products },
            Law { name: "mat_vec", quick: 300000, rule: "shapes up to 24 incl. zero dimensions, NaN-filled destinations; non-trivial: no zero dimension", f: mat_vec },
            Law { name: "complex_mat_vec", quick: 150000, rule: "shapes up to 16; non-trivial: no zero dimension", f: complex_mat_vec },
            Law { name: "rank_k", quick: 200000, rule: "sizes 1..10, both cases and triangles; all non-trivial", f: rank_k },
            Law { name: "band", quick: 100000, rule: "shapes 1..12 with any bandwidths; non-trivial: not diagonal only", f: band },
            Law { name: "small", quick: 100000, rule: "capacities 1,2,3,5,8 with n<=N; non-trivial: n>0", f: small },
        ],
    }
}
