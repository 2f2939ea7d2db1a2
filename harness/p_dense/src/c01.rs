use crate::util::*;
use russell_lab::*;

const NOISE: f64 = 1234.5678;

fn elementwise(g: &mut G) -> R {
    let n = length(g);
    let u = rvec(g, n);
    let v = rvec(g, n);
    let (al, be) = (scal(g), scal(g));
    g.show("n", &n);
    g.show("alpha", &al);
    g.show("beta", &be);
    g.show("u", &u);
    g.show("v", &v);
    if n > 0 {
        g.hit();
    }
    g.class(match n {
        0 => "empty",
        1..=8 => "unrolled (1..8)",
        9..=16 => "9..16",
        17..=70 => "17..70",
        _ => ">70",
    });
    let (uu, vv) = (Vector::from(&u), Vector::from(&v));
    let mut w = Vector::from(&vec![NOISE; n]);
    must("vec_add", "vec_add", vec_add(&mut w, al, &uu, be, &vv))?;
    for i in 0..n {
        let (a, b) = (al * u[i], be * v[i]);
        near("vec_add", &format!("vec_add w[{}]", i), w[i], a + b, 2.0 * EPS * (a.abs() + b.abs()) + TINY)?;
    }
    w.fill(NOISE);
    must("vec_plus", "vec_plus", vec_plus(&mut w, &uu, &vv))?;
    for i in 0..n {
        near("vec_plus", &format!("vec_plus w[{}]", i), w[i], u[i] + v[i], 0.0)?;
    }
    w.fill(NOISE);
    must("vec_minus", "vec_minus", vec_minus(&mut w, &uu, &vv))?;
    for i in 0..n {
        near("vec_minus", &format!("vec_minus w[{}]", i), w[i], u[i] - v[i], 0.0)?;
    }
    w.fill(NOISE);
    must("vec_copy", "vec_copy", vec_copy(&mut w, &uu))?;
    for i in 0..n {
        ensure!(w[i].to_bits() == u[i].to_bits(), "vec_copy", "vec_copy w[{}] = {:?}, expected {:?}", i, w[i], u[i]);
    }
    w.fill(NOISE);
    must("vec_copy_scaled", "vec_copy_scaled", vec_copy_scaled(&mut w, al, &uu))?;
    for i in 0..n {
        near("vec_copy_scaled", &format!("w[{}]", i), w[i], al * u[i], EPS * (al * u[i]).abs())?;
    }
    let mut w = Vector::from(&v);
    must("vec_update", "vec_update", vec_update(&mut w, al, &uu))?;
    for i in 0..n {
        let a = al * u[i];
        near("vec_update", &format!("vec_update w[{}]", i), w[i], v[i] + a, 2.0 * EPS * (a.abs() + v[i].abs()) + TINY)?;
    }
    let mut w = Vector::from(&u);
    vec_scale(&mut w, be);
    for i in 0..n {
        near("vec_scale", &format!("vec_scale w[{}]", i), w[i], be * u[i], EPS * (be * u[i]).abs())?;
    }
    Ok(())
}

fn mismatch(g: &mut G) -> R {
    let n = length(g);
    let which = g.us(0, 2);
    let mut dims = [n, n, n];
    let mut other = length(g);
    if other == n {
        other = n + 1;
    }
    dims[which] = other;
    g.show("dims (w,u,v)", &dims);
    g.hit();
    let u = Vector::from(&vec![1.5; dims[1]]);
    let v = Vector::from(&vec![2.5; dims[2]]);
    let w0 = Vector::from(&vec![NOISE; dims[0]]);
    let unchanged = |w: &Vector, what: &str| -> R {
        ensure!(w.as_data() == w0.as_data(), what, "{}: destination modified although an error was returned", what);
        Ok(())
    };
    let mut w = w0.clone();
    must_err("vec_add:dims", "vec_add with mismatched dims", vec_add(&mut w, 2.0, &u, 3.0, &v))?;
    unchanged(&w, "vec_add")?;
    must_err("vec_plus:dims", "vec_plus with mismatched dims", vec_plus(&mut w, &u, &v))?;
    unchanged(&w, "vec_plus")?;
    must_err("vec_minus:dims", "vec_minus with mismatched dims", vec_minus(&mut w, &u, &v))?;
    unchanged(&w, "vec_minus")?;
    let s = Vector::from(&vec![1.0; other]);
    let mut d = Vector::from(&vec![NOISE; n]);
    let d0 = d.clone();
    must_err("vec_copy:dims", "vec_copy", vec_copy(&mut d, &s))?;
    must_err("vec_copy_scaled:dims", "vec_copy_scaled", vec_copy_scaled(&mut d, 2.0, &s))?;
    must_err("vec_update:dims", "vec_update", vec_update(&mut d, 2.0, &s))?;
    must_err("vec_max_abs_diff:dims", "vec_max_abs_diff", vec_max_abs_diff(&d, &s))?;
    ensure!(d.as_data() == d0.as_data(), "copy/update", "destination modified although an error was returned");
    // complex
    let cz = |k: usize| ComplexVector::from(&vec![c(1.0, 2.0); k]);
    let (cu, cv, mut cw) = (cz(dims[1]), cz(dims[2]), cz(dims[0]));
    let cw0 = cw.clone();
    must_err("complex_vec_add:dims", "complex_vec_add", complex_vec_add(&mut cw, c(2.0, 0.0), &cu, c(3.0, 0.0), &cv))?;
    must_err("complex_vec_plus:dims", "complex_vec_plus", complex_vec_plus(&mut cw, &cu, &cv))?;
    must_err("complex_vec_minus:dims", "complex_vec_minus", complex_vec_minus(&mut cw, &cu, &cv))?;
    ensure!(cw.as_data() == cw0.as_data(), "complex", "destination modified although an error was returned");
    let mut cd = cz(n);
    must_err("complex_vec_copy:dims", "complex_vec_copy", complex_vec_copy(&mut cd, &cz(other)))?;
    must_err("complex_vec_update:dims", "complex_vec_update", complex_vec_update(&mut cd, c(2.0, 0.0), &cz(other)))?;
    must_err("complex_vec_zip:dims", "complex_vec_zip", complex_vec_zip(&mut cw, &u, &v))?;
    let (mut ur, mut vr) = (u.clone(), v.clone());
    must_err("complex_vec_unzip:dims", "complex_vec_unzip", complex_vec_unzip(&mut ur, &mut vr, &cw))?;
    // documented panics
    let a = Vector::new(n);
    let b = Vector::new(other);
    for (name, r) in [
        ("vec_max_scaled", catch(|| vec_max_scaled(&a, &b, 1.0))),
        ("vec_rms_scaled", catch(|| vec_rms_scaled(&a, &b, 1.0, 1.0))),
        ("vec_rms_scaled_diff", catch(|| vec_rms_scaled_diff(&a, &b, 1.0, 1.0))),
        ("vec_norm_diff", catch(|| vec_norm_diff(&a, &b, Norm::Max))),
        ("vec_max_scaled_diff", catch(|| vec_max_scaled_diff(&a, &b, &a))),
        ("vec_max_scaled_diff", catch(|| vec_max_scaled_diff(&a, &a, &b))),
    ] {
        ensure!(r.is_err(), name, "{}: mismatched dims must panic as documented but returned {:?}", name, r);
    }
    Ok(())
}

fn norm_ref(v: &[f64], kind: Norm) -> f64 {
    match kind {
        Norm::Euc | Norm::Fro => {
            let m = v.iter().fold(0.0f64, |a, x| a.max(x.abs()));
            if m == 0.0 {
                return 0.0;
            }
            let s: f64 = v.iter().map(|x| (x / m) * (x / m)).sum();
            m * s.sqrt()
        }
        Norm::Inf | Norm::Max => v.iter().fold(0.0f64, |a, x| a.max(x.abs())),
        Norm::One => v.iter().map(|x| x.abs()).sum(),
    }
}

const NORMS: [Norm; 5] = [Norm::Euc, Norm::Fro, Norm::Inf, Norm::Max, Norm::One];

/// an exact factor (power of two) whose square may overflow or underflow
fn scale(g: &mut G) -> f64 {
    2f64.powi(g.int(-900, 900) as i32)
}

fn reductions(g: &mut G) -> R {
    let n = length(g);
    let m = if g.chance(1, 4) { length(g) } else { n };
    let u = mvec(g, n);
    let v = mvec(g, m);
    g.show("u", &u);
    g.show("v", &v);
    if n > 0 {
        g.hit();
    }
    let (uu, vv) = (Vector::from(&u), Vector::from(&v));
    let k = n.min(m);
    let s: f64 = (0..k).map(|i| u[i] * v[i]).sum();
    let sa: f64 = (0..k).map(|i| (u[i] * v[i]).abs()).sum();
    near("vec_inner", "vec_inner", vec_inner(&uu, &vv), s, EPS * (k as f64 + 2.0) * sa + TINY)?;
    let sc = scale(g);
    let us = Vector::from(&u.iter().map(|x| x * sc).collect::<Vec<_>>());
    for kind in NORMS {
        let r = norm_ref(&u, kind) * sc;
        near("vec_norm:scale", &format!("vec_norm({:?}) of {:e} u", kind, sc), vec_norm(&us, kind), r, EPS * (n as f64 + 8.0) * r)?;
    }
    for kind in NORMS {
        let r = norm_ref(&u, kind);
        near("vec_norm", &format!("vec_norm({:?})", kind), vec_norm(&uu, kind), r, EPS * (n as f64 + 8.0) * r)?;
    }
    if n > 0 {
        let start = g.us(0, n - 1);
        let stop = g.us(start + 1, n);
        g.show("chunk", &(start, stop));
        for kind in NORMS {
            let r = norm_ref(&u[start..stop], kind);
            near("vec_norm_chunk", &format!("vec_norm_chunk({:?},{},{})", kind, start, stop), vec_norm_chunk(&uu, kind, start, stop), r, EPS * (n as f64 + 8.0) * r)?;
        }
        ensure!(catch(|| vec_norm_chunk(&uu, Norm::One, 0, n + 1)).is_err(), "vec_norm_chunk:range", "vec_norm_chunk must panic if stop > dim");
        ensure!(catch(|| vec_norm_chunk(&uu, Norm::One, start, start)).is_err(), "vec_norm_chunk:range", "vec_norm_chunk must panic if start >= stop");
    }
    if n == m {
        let d: Vec<f64> = (0..n).map(|i| u[i] - v[i]).collect();
        for kind in NORMS {
            let r = norm_ref(&d, kind);
            near("vec_norm_diff", &format!("vec_norm_diff({:?})", kind), vec_norm_diff(&uu, &vv, kind), r, EPS * (n as f64 + 8.0) * r)?;
        }
        let (i, mx) = must("vec_max_abs_diff", "vec_max_abs_diff", vec_max_abs_diff(&uu, &vv))?;
        let r = norm_ref(&d, Norm::Max);
        near("vec_max_abs_diff", "vec_max_abs_diff", mx, r, 0.0)?;
        if n > 0 {
            ensure!(i < n && d[i].abs() == r, "vec_max_abs_diff:index", "vec_max_abs_diff index {} does not attain the maximum", i);
        }
        let one = g.f(0.5, 3.0);
        let r = (0..n).fold(0.0f64, |a, i| a.max(u[i].abs() / (one + v[i].abs())));
        near("vec_max_scaled", "vec_max_scaled", vec_max_scaled(&uu, &vv, one), r, 4.0 * EPS * r)?;
        let sc = mvec(g, n);
        let r = (0..n).fold(0.0f64, |a, i| a.max(d[i].abs() / (1.0 + sc[i].abs())));
        near("vec_max_scaled_diff", "vec_max_scaled_diff", vec_max_scaled_diff(&uu, &vv, &Vector::from(&sc)), r, 4.0 * EPS * r)?;
        let (at, rt) = (g.plog(-8.0, 2.0), g.plog(-8.0, 2.0));
        g.show("abs,rel", &(at, rt));
        let ms = |t: Vec<f64>| -> f64 {
            if t.is_empty() { 0.0 } else { norm_ref(&t, Norm::Euc) / (t.len() as f64).sqrt() }
        };
        let r = ms((0..n).map(|i| u[i] / (at + rt * v[i].abs())).collect());
        near("vec_rms_scaled", "vec_rms_scaled", vec_rms_scaled(&uu, &vv, at, rt), r, EPS * (n as f64 + 16.0) * r)?;
        let r = ms((0..n).map(|i| d[i] / (at + rt * u[i].abs().max(v[i].abs()))).collect());
        near("vec_rms_scaled_diff", "vec_rms_scaled_diff", vec_rms_scaled_diff(&uu, &vv, at, rt), r, EPS * (n as f64 + 16.0) * r)?;
    }
    // finiteness
    let mut w = u.clone();
    ensure!(vec_all_finite(&Vector::from(&w), false).is_ok(), "vec_all_finite", "finite vector reported as not finite");
    if n > 0 {
        let i = g.us(0, n - 1);
        w[i] = *g.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY]);
        ensure!(vec_all_finite(&Vector::from(&w), false).is_err(), "vec_all_finite", "non-finite entry {} not reported", i);
    }
    Ok(())
}

fn complex_vectors(g: &mut G) -> R {
    let n = length(g);
    let u = cvec(g, n);
    let v = cvec(g, n);
    let (al, be) = (cscal(g), cscal(g));
    g.show("u", &u);
    g.show("v", &v);
    g.show("alpha,beta", &(al, be));
    if n > 0 {
        g.hit();
    }
    let (uu, vv) = (ComplexVector::from(&u), ComplexVector::from(&v));
    let mut w = ComplexVector::from(&vec![c(NOISE, NOISE); n]);
    must("complex_vec_add", "complex_vec_add", complex_vec_add(&mut w, al, &uu, be, &vv))?;
    for i in 0..n {
        let t = 8.0 * EPS * (cabs(al) * cabs(u[i]) + cabs(be) * cabs(v[i])) + TINY;
        cnear("complex_vec_add", &format!("w[{}]", i), w[i], al * u[i] + be * v[i], t)?;
    }
    must("complex_vec_plus", "complex_vec_plus", complex_vec_plus(&mut w, &uu, &vv))?;
    for i in 0..n {
        cnear("complex_vec_plus", &format!("w[{}]", i), w[i], u[i] + v[i], 0.0)?;
    }
    must("complex_vec_minus", "complex_vec_minus", complex_vec_minus(&mut w, &uu, &vv))?;
    for i in 0..n {
        cnear("complex_vec_minus", &format!("w[{}]", i), w[i], u[i] - v[i], 0.0)?;
    }
    must("complex_vec_copy", "complex_vec_copy", complex_vec_copy(&mut w, &uu))?;
    ensure!(w.as_data() == &u, "complex_vec_copy", "copy differs");
    let mut w = vv.clone();
    must("complex_vec_update", "complex_vec_update", complex_vec_update(&mut w, al, &uu))?;
    for i in 0..n {
        let t = 8.0 * EPS * (cabs(al) * cabs(u[i]) + cabs(v[i])) + TINY;
        cnear("complex_vec_update", &format!("w[{}]", i), w[i], al * u[i] + v[i], t)?;
    }
    let mut w = uu.clone();
    complex_vec_scale(&mut w, al);
    for i in 0..n {
        cnear("complex_vec_scale", &format!("w[{}]", i), w[i], al * u[i], 8.0 * EPS * cabs(al) * cabs(u[i]) + TINY)?;
    }
    let mods: Vec<f64> = u.iter().map(|z| cabs(*z)).collect();
    let sc = scale(g);
    let us = ComplexVector::from(&u.iter().map(|x| x * sc).collect::<Vec<_>>());
    for kind in NORMS {
        let r = norm_ref(&mods, kind) * sc;
        near("complex_vec_norm:scale", &format!("complex_vec_norm({:?}) of {:e} u", kind, sc), complex_vec_norm(&us, kind), r, EPS * (n as f64 + 8.0) * r)?;
    }
    for kind in NORMS {
        let r = norm_ref(&mods, kind);
        near("complex_vec_norm", &format!("complex_vec_norm({:?})", kind), complex_vec_norm(&uu, kind), r, EPS * (n as f64 + 8.0) * r)?;
    }
    let (mut re, mut im) = (Vector::new(n), Vector::new(n));
    must("complex_vec_unzip", "complex_vec_unzip", complex_vec_unzip(&mut re, &mut im, &uu))?;
    for i in 0..n {
        ensure!(re[i] == u[i].re && im[i] == u[i].im, "complex_vec_unzip", "unzip differs at {}", i);
    }
    let mut z = ComplexVector::new(n);
    must("complex_vec_zip", "complex_vec_zip", complex_vec_zip(&mut z, &re, &im))?;
    ensure!(z.as_data() == uu.as_data(), "complex_vec_zip", "zip(unzip(u)) != u");
    Ok(())
}

fn mat_norm_ref(a: &Vec<Vec<f64>>, kind: Norm) -> f64 {
    let flat: Vec<f64> = a.iter().flatten().cloned().collect();
    let n = a.first().map(|r| r.len()).unwrap_or(0);
    match kind {
        Norm::Euc | Norm::Fro => norm_ref(&flat, Norm::Euc),
        Norm::Max => norm_ref(&flat, Norm::Max),
        Norm::One => (0..n).fold(0.0f64, |m, j| m.max(a.iter().map(|r| r[j].abs()).sum())),
        Norm::Inf => a.iter().fold(0.0f64, |m, r| m.max(r.iter().map(|x| x.abs()).sum())),
    }
}

fn matrices(g: &mut G) -> R {
    let (m, n) = shape(g, 14);
    let a = rmat(g, m, n);
    let b = rmat(g, m, n);
    let (al, be) = (scal(g), scal(g));
    g.show("a", &mat_to_vec(&a));
    g.show("b", &mat_to_vec(&b));
    g.show("alpha,beta", &(al, be));
    if m * n > 0 {
        g.hit();
    }
    if m * n == 0 {
        g.class("empty");
    }
    let mut w = Matrix::filled(m, n, NOISE);
    must("mat_add", "mat_add", mat_add(&mut w, al, &a, be, &b))?;
    for i in 0..m {
        for j in 0..n {
            let (x, y) = (al * a.get(i, j), be * b.get(i, j));
            near("mat_add", &format!("c[{},{}]", i, j), w.get(i, j), x + y, 2.0 * EPS * (x.abs() + y.abs()) + TINY)?;
        }
    }
    w.fill(NOISE);
    must("mat_plus", "mat_plus", mat_plus(&mut w, &a, &b))?;
    let mut w2 = Matrix::filled(m, n, NOISE);
    must("mat_minus", "mat_minus", mat_minus(&mut w2, &a, &b))?;
    let mut w3 = Matrix::filled(m, n, NOISE);
    must("mat_copy", "mat_copy", mat_copy(&mut w3, &a))?;
    let mut w4 = b.clone();
    must("mat_update", "mat_update", mat_update(&mut w4, al, &a))?;
    let mut w5 = a.clone();
    mat_scale(&mut w5, be);
    let mut mx = 0.0f64;
    for i in 0..m {
        for j in 0..n {
            let (x, y) = (a.get(i, j), b.get(i, j));
            near("mat_plus", &format!("c[{},{}]", i, j), w.get(i, j), x + y, 0.0)?;
            near("mat_minus", &format!("c[{},{}]", i, j), w2.get(i, j), x - y, 0.0)?;
            near("mat_copy", &format!("c[{},{}]", i, j), w3.get(i, j), x, 0.0)?;
            near("mat_update", &format!("c[{},{}]", i, j), w4.get(i, j), y + al * x, 2.0 * EPS * (y.abs() + (al * x).abs()) + TINY)?;
            near("mat_scale", &format!("c[{},{}]", i, j), w5.get(i, j), be * x, EPS * (be * x).abs())?;
            mx = mx.max((x - y).abs());
        }
    }
    let (i, j, d) = must("mat_max_abs_diff", "mat_max_abs_diff", mat_max_abs_diff(&a, &b))?;
    near("mat_max_abs_diff", "mat_max_abs_diff", d, mx, 0.0)?;
    if m * n > 0 {
        ensure!((a.get(i, j) - b.get(i, j)).abs() == mx, "mat_max_abs_diff:index", "index ({},{}) does not attain the maximum", i, j);
    }
    let av = mat_to_vec(&a);
    let sc = scale(g);
    let mut asc = Matrix::new(m, n);
    for i in 0..m {
        for j in 0..n {
            asc.set(i, j, a.get(i, j) * sc);
        }
    }
    for kind in NORMS {
        let r = if m * n == 0 { 0.0 } else { mat_norm_ref(&av, kind) * sc };
        near("mat_norm:scale", &format!("mat_norm({:?}) of {:e} a", kind, sc), mat_norm(&asc, kind), r, EPS * ((m * n) as f64 + 8.0) * r)?;
    }
    for kind in NORMS {
        let r = if m * n == 0 { 0.0 } else { mat_norm_ref(&av, kind) };
        near("mat_norm", &format!("mat_norm({:?})", kind), mat_norm(&a, kind), r, EPS * ((m * n) as f64 + 8.0) * r)?;
    }
    let mut rs = Vector::filled(n, NOISE);
    must("mat_sum_rows", "mat_sum_rows", mat_sum_rows(&mut rs, &a))?;
    for j in 0..n {
        let s: f64 = (0..m).map(|i| a.get(i, j)).sum();
        let t: f64 = (0..m).map(|i| a.get(i, j).abs()).sum();
        near("mat_sum_rows", &format!("[{}]", j), rs[j], s, EPS * (m as f64 + 1.0) * t)?;
    }
    let mut cs = Vector::filled(m, NOISE);
    must("mat_sum_cols", "mat_sum_cols", mat_sum_cols(&mut cs, &a))?;
    for i in 0..m {
        let s: f64 = (0..n).map(|j| a.get(i, j)).sum();
        let t: f64 = (0..n).map(|j| a.get(i, j).abs()).sum();
        near("mat_sum_cols", &format!("[{}]", i), cs[i], s, EPS * (n as f64 + 1.0) * t)?;
    }
    must_err("mat_sum_rows:dims", "mat_sum_rows dims", mat_sum_rows(&mut Vector::new(n + 1), &a))?;
    must_err("mat_sum_cols:dims", "mat_sum_cols dims", mat_sum_cols(&mut Vector::new(m + 1), &a))?;
    // mismatch
    let (p, q) = if g.bool() { (m + 1, n) } else { (m, n + 1) };
    let bad = Matrix::new(p, q);
    let mut w = Matrix::filled(m, n, NOISE);
    let w0 = w.clone();
    let mut cbad = bad.clone();
    must_err("mat_add:dims", "mat_add dims", mat_add(&mut w, 1.0, &bad, 1.0, &b))?;
    must_err("mat_add:dims", "mat_add dims", mat_add(&mut w, 1.0, &a, 1.0, &bad))?;
    must_err("mat_add:dims", "mat_add dims", mat_add(&mut cbad, 1.0, &a, 1.0, &b))?;
    must_err("mat_plus:dims", "mat_plus dims", mat_plus(&mut w, &bad, &b))?;
    must_err("mat_plus:dims", "mat_plus dims", mat_plus(&mut w, &a, &bad))?;
    must_err("mat_plus:dims", "mat_plus dims", mat_plus(&mut cbad, &a, &b))?;
    must_err("mat_minus:dims", "mat_minus dims", mat_minus(&mut w, &bad, &b))?;
    must_err("mat_minus:dims", "mat_minus dims", mat_minus(&mut w, &a, &bad))?;
    must_err("mat_minus:dims", "mat_minus dims", mat_minus(&mut cbad, &a, &b))?;
    must_err("mat_copy:dims", "mat_copy dims", mat_copy(&mut w, &bad))?;
    must_err("mat_update:dims", "mat_update dims", mat_update(&mut w, 1.0, &bad))?;
    must_err("mat_max_abs_diff:dims", "mat_max_abs_diff dims", mat_max_abs_diff(&a, &bad))?;
    ensure!(w.as_data() == w0.as_data(), "mat:dims", "destination modified although an error was returned");
    Ok(())
}

fn complex_matrices(g: &mut G) -> R {
    let (m, n) = shape(g, 12);
    let a = cmat(g, m, n);
    let b = cmat(g, m, n);
    let (al, be) = (cscal(g), cscal(g));
    g.show("a", &a.as_data());
    g.show("b", &b.as_data());
    g.show("alpha,beta", &(al, be));
    if m * n > 0 {
        g.hit();
    }
    let noise = c(NOISE, -NOISE);
    let mut w = ComplexMatrix::filled(m, n, noise);
    must("complex_mat_add", "complex_mat_add", complex_mat_add(&mut w, al, &a, be, &b))?;
    let mut w1 = ComplexMatrix::filled(m, n, noise);
    must("complex_mat_plus", "complex_mat_plus", complex_mat_plus(&mut w1, &a, &b))?;
    let mut w2 = ComplexMatrix::filled(m, n, noise);
    must("complex_mat_minus", "complex_mat_minus", complex_mat_minus(&mut w2, &a, &b))?;
    let mut w3 = ComplexMatrix::filled(m, n, noise);
    must("complex_mat_copy", "complex_mat_copy", complex_mat_copy(&mut w3, &a))?;
    let mut w4 = b.clone();
    must("complex_mat_update", "complex_mat_update", complex_mat_update(&mut w4, al, &a))?;
    let mut w5 = a.clone();
    complex_mat_scale(&mut w5, be);
    let (mut re, mut im) = (Matrix::new(m, n), Matrix::new(m, n));
    must("complex_mat_unzip", "complex_mat_unzip", complex_mat_unzip(&mut re, &mut im, &a))?;
    let mut z = ComplexMatrix::filled(m, n, noise);
    must("complex_mat_zip", "complex_mat_zip", complex_mat_zip(&mut z, &re, &im))?;
    let mut mods = vec![vec![0.0; n]; m];
    for i in 0..m {
        for j in 0..n {
            let (x, y) = (a.get(i, j), b.get(i, j));
            let at = format!("[{},{}]", i, j);
            let t = 8.0 * EPS * (cabs(al) * cabs(x) + cabs(be) * cabs(y)) + TINY;
            cnear("complex_mat_add", &at, w.get(i, j), al * x + be * y, t)?;
            cnear("complex_mat_plus", &at, w1.get(i, j), x + y, 0.0)?;
            cnear("complex_mat_minus", &at, w2.get(i, j), x - y, 0.0)?;
            cnear("complex_mat_copy", &at, w3.get(i, j), x, 0.0)?;
            cnear("complex_mat_update", &at, w4.get(i, j), y + al * x, 8.0 * EPS * (cabs(al) * cabs(x) + cabs(y)) + TINY)?;
            cnear("complex_mat_scale", &at, w5.get(i, j), be * x, 8.0 * EPS * cabs(be) * cabs(x) + TINY)?;
            ensure!(re.get(i, j) == x.re && im.get(i, j) == x.im, "complex_mat_unzip", "unzip {}", at);
            ensure!(z.get(i, j) == x, "complex_mat_zip", "zip {}", at);
            mods[i][j] = cabs(x);
        }
    }
    let sc = scale(g);
    let mut asc = ComplexMatrix::new(m, n);
    for i in 0..m {
        for j in 0..n {
            asc.set(i, j, a.get(i, j) * sc);
        }
    }
    for kind in NORMS {
        let r = if m * n == 0 { 0.0 } else { mat_norm_ref(&mods, kind) * sc };
        near("complex_mat_norm:scale", &format!("complex_mat_norm({:?}) of {:e} a", kind, sc), complex_mat_norm(&asc, kind), r, EPS * ((m * n) as f64 + 8.0) * r)?;
    }
    for kind in NORMS {
        let r = if m * n == 0 { 0.0 } else { mat_norm_ref(&mods, kind) };
        near("complex_mat_norm", &format!("complex_mat_norm({:?})", kind), complex_mat_norm(&a, kind), r, EPS * ((m * n) as f64 + 8.0) * r)?;
    }
    let bad = if g.bool() { ComplexMatrix::new(m + 1, n) } else { ComplexMatrix::new(m, n + 1) };
    let badr = Matrix::new(bad.nrow(), bad.ncol());
    let mut w = ComplexMatrix::filled(m, n, noise);
    let w0 = w.clone();
    let one = c(1.0, 0.0);
    must_err("complex_mat_add:dims", "dims", complex_mat_add(&mut w, one, &bad, one, &b))?;
    must_err("complex_mat_add:dims", "dims", complex_mat_add(&mut w, one, &a, one, &bad))?;
    must_err("complex_mat_plus:dims", "dims", complex_mat_plus(&mut w, &a, &bad))?;
    must_err("complex_mat_minus:dims", "dims", complex_mat_minus(&mut w, &a, &bad))?;
    must_err("complex_mat_copy:dims", "dims", complex_mat_copy(&mut w, &bad))?;
    must_err("complex_mat_update:dims", "dims", complex_mat_update(&mut w, one, &bad))?;
    must_err("complex_mat_zip:dims", "dims", complex_mat_zip(&mut w, &re, &badr))?;
    must_err("complex_mat_zip:dims", "dims", complex_mat_zip(&mut w, &badr, &im))?;
    let mut badm = badr.clone();
    must_err("complex_mat_unzip:dims", "dims", complex_mat_unzip(&mut re, &mut badm, &a))?;
    must_err("complex_mat_unzip:dims", "dims", complex_mat_unzip(&mut badm, &mut re, &a))?;
    ensure!(w.as_data() == w0.as_data(), "complex_mat:dims", "destination modified although an error was returned");
    Ok(())
}

fn small_n<const N: usize>(g: &mut G) -> R {
    let n = g.us(0, N);
    let mut u = [0.0; N];
    let mut v = [0.0; N];
    let mut a = [[0.0; N]; N];
    let mut b = [[0.0; N]; N];
    for i in 0..N {
        u[i] = g.uni(-9.0, 9.0);
        v[i] = g.uni(-9.0, 9.0);
        for j in 0..N {
            a[i][j] = g.uni(-9.0, 9.0);
            b[i][j] = g.uni(-9.0, 9.0);
        }
    }
    let (al, be) = (scal(g), scal(g));
    g.show("N,n", &(N, n));
    g.show("alpha,beta", &(al, be));
    if n > 0 {
        g.hit();
    }
    let mut w = [NOISE; N];
    small_vec_add(&mut w, al, &u, be, &v, n);
    let mut x = v;
    small_vec_update(&mut x, al, &u, n);
    let mut cc = [[NOISE; N]; N];
    small_mat_add(&mut cc, al, &a, be, &b, n);
    let mut d = b;
    small_mat_update(&mut d, al, &a, n);
    for i in 0..N {
        let t = |p: f64, q: f64| 2.0 * EPS * (p.abs() + q.abs());
        if i < n {
            near("small_vec_add", &format!("w[{}]", i), w[i], al * u[i] + be * v[i], t(al * u[i], be * v[i]))?;
            near("small_vec_update", &format!("v[{}]", i), x[i], al * u[i] + v[i], t(al * u[i], v[i]))?;
        } else {
            near("small_vec_add:outside", &format!("w[{}]", i), w[i], NOISE, 0.0)?;
            near("small_vec_update:outside", &format!("v[{}]", i), x[i], v[i], 0.0)?;
        }
        for j in 0..N {
            if i < n && j < n {
                near("small_mat_add", &format!("c[{}][{}]", i, j), cc[i][j], al * a[i][j] + be * b[i][j], t(al * a[i][j], be * b[i][j]))?;
                near("small_mat_update", &format!("b[{}][{}]", i, j), d[i][j], al * a[i][j] + b[i][j], t(al * a[i][j], b[i][j]))?;
            } else {
                near("small_mat_add:outside", &format!("c[{}][{}]", i, j), cc[i][j], NOISE, 0.0)?;
                near("small_mat_update:outside", &format!("b[{}][{}]", i, j), d[i][j], b[i][j], 0.0)?;
            }
        }
    }
    ensure!(catch(|| { let mut w = [0.0; N]; small_vec_add(&mut w, 1.0, &u, 1.0, &v, N + 1); }).is_err(), "small:range", "n > N must panic");
    Ok(())
}

fn small(g: &mut G) -> R {
    match g.us(0, 5) {
        0 => small_n::<1>(g),
        1 => small_n::<2>(g),
        2 => small_n::<3>(g),
        3 => small_n::<4>(g),
        4 => small_n::<6>(g),
        _ => small_n::<9>(g),
    }
}

fn comparisons(g: &mut G) -> R {
    // the comparison helpers accept exactly the pairs within tolerance
    let n = g.rare(1, 12, 80);
    let u = g.vec_f(n, -5.0, 5.0);
    let mut v = u.clone();
    let tol = g.plog(-10.0, 0.0);
    let k = g.us(0, n - 1);
    let case = g.us(0, 4);
    let expect_ok = match case {
        0 => true,
        1 => {
            v[k] += 0.5 * tol * if g.bool() { 1.0 } else { -1.0 };
            true
        }
        2 => {
            v[k] += 3.0 * tol * if g.bool() { 1.0 } else { -1.0 };
            false
        }
        3 => {
            v[k] = *g.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY]);
            false
        }
        _ => {
            v.push(1.0);
            false
        }
    };
    g.show("u", &u);
    g.show("v", &v);
    g.show("tol", &tol);
    if !expect_ok {
        g.hit();
    }
    let report = |name: &str, r: Result<(), (String, String)>| -> R {
        ensure!(r.is_ok() == expect_ok, name, "{}: expected {} but got {:?}", name, if expect_ok { "acceptance" } else { "a panic" }, r);
        Ok(())
    };
    let (uu, vv) = (Vector::from(&u), Vector::from(&v));
    report("vec_approx_eq", catch(|| vec_approx_eq(&uu, &vv, tol)))?;
    report("vec_approx_eq", catch(|| vec_approx_eq(&vv, &uu, tol)))?;
    report("array_approx_eq", catch(|| array_approx_eq(&u, &v, tol)))?;
    let imag = g.bool();
    let cu: Vec<Complex64> = u.iter().map(|x| if imag { c(0.5, *x) } else { c(*x, 0.5) }).collect();
    let cv: Vec<Complex64> = v.iter().map(|x| if imag { c(0.5, *x) } else { c(*x, 0.5) }).collect();
    let (cuu, cvv) = (ComplexVector::from(&cu), ComplexVector::from(&cv));
    report("complex_vec_approx_eq", catch(|| complex_vec_approx_eq(&cuu, &cvv, tol)))?;
    report("complex_array_approx_eq", catch(|| complex_array_approx_eq(&cu, &cv, tol)))?;
    if v.len() == n {
        report("approx_eq", catch(|| approx_eq(u[k], v[k], tol)))?;
        report("complex_approx_eq", catch(|| complex_approx_eq(cu[k], cv[k], tol)))?;
        // matrices with the same content
        let p = g.us(1, n);
        let q = n.div_ceil(p);
        let (mut a, mut b) = (Matrix::new(p, q), Matrix::new(p, q));
        let (mut ca, mut cb) = (ComplexMatrix::new(p, q), ComplexMatrix::new(p, q));
        for i in 0..n {
            a.set(i % p, i / p, u[i]);
            b.set(i % p, i / p, v[i]);
            ca.set(i % p, i / p, cu[i]);
            cb.set(i % p, i / p, cv[i]);
        }
        report("mat_approx_eq", catch(|| mat_approx_eq(&a, &b, tol)))?;
        report("mat_approx_eq", catch(|| mat_approx_eq(&b, &a, tol)))?;
        report("complex_mat_approx_eq", catch(|| complex_mat_approx_eq(&ca, &cb, tol)))?;
        let wide = Matrix::new(p, q + 1);
        ensure!(catch(|| mat_approx_eq(&a, &wide, 1e9)).is_err(), "mat_approx_eq:dims", "different dims accepted");
        let tall = Matrix::new(p + 1, q);
        ensure!(catch(|| mat_approx_eq(&a, &tall, 1e9)).is_err(), "mat_approx_eq:dims", "different dims accepted");
    }
    Ok(())
}

pub fn property() -> Property {
    Property {
        id: "C01",
        assumptions: &["references are direct element loops in f64; tolerances are a few ulps of the terms involved", "magnitudes limited to 1e150 (products and sums do not overflow)"],
        laws: vec![
            Law { name: "elementwise", quick: 240000, rule: "random length (0..400, small lengths frequent), values, multipliers; non-trivial: length > 0", f: elementwise },
            Law { name: "mismatch", quick: 80000, rule: "one of three operands has another length; all cases non-trivial", f: mismatch },
            Law { name: "reductions", quick: 200000, rule: "inner products, norms, scaled errors; non-trivial: length > 0", f: reductions },
            Law { name: "complex_vectors", quick: 120000, rule: "complex vectors; non-trivial: length > 0", f: complex_vectors },
            Law { name: "matrices", quick: 120000, rule: "real matrices of any shape up to 14; non-trivial: not empty", f: matrices },
            Law { name: "complex_matrices", quick: 60000, rule: "complex matrices of any shape up to 12; non-trivial: not empty", f: complex_matrices },
            Law { name: "small", quick: 80000, rule: "fixed-capacity arrays N in {1,2,3,4,6,9} with any n<=N; non-trivial: n > 0", f: small },
            Law { name: "comparisons", quick: 80000, rule: "pairs within/outside tolerance, with NaN/Inf or other length; non-trivial: must be rejected", f: comparisons },
        ],
    }
}
