use russell_lab::*;
use std::collections::HashMap;
use std::io::Write;
use vp_engine::*;

const EPS: f64 = f64::EPSILON;

fn bits(v: &[f64]) -> Vec<u64> {
    v.iter().map(|x| x.to_bits()).collect()
}

fn equal(key: &str, what: &str, a: &[f64], b: &[f64]) -> R {
    let canon = |v: &[f64]| bits(&v.iter().map(|x| if x.is_nan() { f64::NAN } else { *x }).collect::<Vec<_>>());
    ensure!(canon(a) == canon(b), key, "{}: got {:?}, expected {:?}", what, a, b);
    Ok(())
}

/// values with ties, signed zeros, NaN and infinities
fn value(g: &mut G) -> f64 {
    match g.draw(8) {
        0 => *g.pick(&[0.0, -0.0, 1.0, -1.0, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, f64::MIN_POSITIVE, f64::MAX]),
        1 => g.any_f64(),
        2 | 3 | 4 => g.int(-3, 3) as f64,
        _ => g.uni(-10.0, 10.0),
    }
}

fn finite(g: &mut G) -> f64 {
    match g.draw(4) {
        0 => g.int(-100, 100) as f64,
        1 => if g.chance(1, 4) { g.flog(-300.0, 300.0) } else { g.flog(-9.0, 9.0) },
        2 => g.entry(),
        _ => g.uni(-10.0, 10.0),
    }
}

// ---------------------------------------------------------------------------------------------- vectors

fn vectors(g: &mut G) -> R {
    let n = if g.chance(1, 4) { g.us(0, 2) } else { g.rare(0, 40, 400) };
    let data: Vec<f64> = (0..n).map(|_| value(g)).collect();
    g.show("data", &data);
    if n > 1 {
        g.hit();
    }
    let v = Vector::from(&data);
    equal("from", "from a Vec", v.as_data(), &data)?;
    equal("from", "from a slice", Vector::from(&data.as_slice()).as_data(), &data)?;
    equal("from", "from a vector", Vector::from(&v).as_data(), &data)?;
    if n >= 3 {
        let arr = [data[0], data[1], data[2]];
        equal("from", "from an array", Vector::from(&arr).as_data(), &arr)?;
    }
    ensure!(v.dim() == n, "dim", "{} instead of {}", v.dim(), n);
    equal("new", "new", Vector::new(n).as_data(), &vec![0.0; n])?;
    let x = value(g);
    equal("filled", "filled", Vector::filled(n, x).as_data(), &vec![x; n])?;
    equal("initialized", "initialized", Vector::initialized(n, |i| data[i]).as_data(), &data)?;
    for i in 0..n {
        ensure!(v.get(i).to_bits() == data[i].to_bits() && v[i].to_bits() == data[i].to_bits(), "get", "element {}", i);
    }
    equal("iter", "iterator", &(&v).into_iter().cloned().collect::<Vec<_>>(), &data)?;
    equal("iter", "consuming iterator", &v.clone().into_iter().collect::<Vec<_>>(), &data)?;
    // writing
    let mut w = Vector::new(n);
    for i in 0..n {
        if g.bool() {
            w.set(i, data[i]);
        } else {
            w[i] = data[i];
        }
    }
    equal("set", "set", w.as_data(), &data)?;
    let mut w = Vector::new(n);
    w.set_vector(&data);
    equal("set_vector", "set_vector", w.as_data(), &data)?;
    for (i, e) in (&mut w).into_iter().enumerate() {
        *e = i as f64;
    }
    equal("iter", "mutable iterator", w.as_data(), &(0..n).map(|i| i as f64).collect::<Vec<_>>())?;
    w.as_mut_data().copy_from_slice(&data);
    equal("as_mut_data", "as_mut_data", w.as_data(), &data)?;
    w.fill(x);
    equal("fill", "fill", w.as_data(), &vec![x; n])?;
    // split and join
    let k = g.us(0, n);
    let (mut a, mut b) = (vec![0.0; k], vec![0.0; n - k]);
    v.split2(&mut a, &mut b);
    equal("split2", "first part", &a, &data[..k])?;
    equal("split2", "second part", &b, &data[k..])?;
    w.join2(&a, &b);
    equal("join2", "joined", w.as_data(), &data)?;
    // maps
    let mut w = v.clone();
    w.map(|x| 2.0 * x + 1.0);
    equal("map", "map", w.as_data(), &data.iter().map(|x| 2.0 * x + 1.0).collect::<Vec<_>>())?;
    equal("map", "get_mapped", v.get_mapped(|x| 2.0 * x + 1.0).as_data(), w.as_data())?;
    let mut w = v.clone();
    w.map_with_index(|i, x| x + i as f64);
    equal("map", "map_with_index", w.as_data(), &data.iter().enumerate().map(|(i, x)| x + i as f64).collect::<Vec<_>>())?;
    equal("map", "clone is independent", v.as_data(), &data)?;
    let mut w = v.clone();
    w.scale(x);
    equal("scale", "scale", w.as_data(), &data.iter().map(|e| e * x).collect::<Vec<_>>())?;
    // differences and sums
    let d: Vec<f64> = (1..n).map(|i| data[i] - data[i - 1]).collect();
    equal("differences", "differences", v.get_differences().as_data(), &d)?;
    let mut s = 0.0;
    let c: Vec<f64> = data.iter().map(|e| { s += e; s }).collect();
    equal("cumulative", "cumulative sum", v.get_cumulative_sum(None).as_data(), &c)?;
    let mut s = x;
    let mut c = vec![x];
    c.extend(data.iter().map(|e| { s += e; s }));
    equal("cumulative", "cumulative sum with start", v.get_cumulative_sum(Some(x)).as_data(), &c)?;
    // panics that are documented
    ensure!(catch(|| v.get(n)).is_err(), "panic", "reading past the end did not panic");
    let mut w = v.clone();
    ensure!(catch(|| w.set(n, 0.0)).is_err(), "panic", "writing past the end did not panic");
    ensure!(catch(|| w.set_vector(&vec![0.0; n + 1])).is_err(), "panic", "set_vector with wrong size did not panic");
    ensure!(catch(|| w.join2(&vec![0.0; n], &[0.0])).is_err(), "panic", "join2 with wrong size did not panic");
    ensure!(catch(|| v.split2(&mut vec![0.0; n], &mut [0.0])).is_err(), "panic", "split2 with wrong size did not panic");
    // serialization (finite numbers)
    let data: Vec<f64> = (0..n).map(|_| finite(g)).collect();
    let v = Vector::from(&data);
    let json = serde_json::to_string(&v).map_err(|_| Stop::Discard)?;
    let w: Vector = must("serde", "deserialize", serde_json::from_str(&json).map_err(|_| "cannot deserialize"))?;
    ensure!(w.dim() == n, "serde", "dimension {}", w.dim());
    for i in 0..n {
        same_rel("serde", &format!("element {}", i), w[i], data[i], 2.0 * EPS, 1e-320)?;
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------- matrices

fn matrices(g: &mut G) -> R {
    let m = g.rare(0, 7, 50);
    let n = g.rare(0, 7, 50);
    let rows: Vec<Vec<f64>> = (0..m).map(|_| (0..n).map(|_| value(g)).collect()).collect();
    g.show("rows", &rows);
    g.show("dims", &(m, n));
    if m > 1 && n > 1 && m != n {
        g.hit();
    }
    let col_major: Vec<f64> = (0..n).flat_map(|j| (0..m).map(move |i| (i, j))).map(|(i, j)| rows[i][j]).collect();
    // empty lists of rows are documented to panic
    let a = if m == 0 { Matrix::new(m, n) } else { Matrix::from(&rows) };
    let dims = if m == 0 || n == 0 { a.dims() } else { (m, n) };
    ensure!(a.dims() == dims && (a.nrow(), a.ncol()) == dims && a.as_data().len() == m * n, "dims", "{:?} instead of {:?}", a.dims(), (m, n));
    equal("from", "from nested Vec", a.as_data(), &col_major)?;
    let slices: Vec<&[f64]> = rows.iter().map(|r| r.as_slice()).collect();
    if m > 0 {
        equal("from", "from slices", Matrix::from(&slices.as_slice()).as_data(), &col_major)?;
    }
    equal("from", "from a matrix", Matrix::from(&a).as_data(), &col_major)?;
    if m >= 2 && n >= 3 {
        let arr = [[rows[0][0], rows[0][1], rows[0][2]], [rows[1][0], rows[1][1], rows[1][2]]];
        let b = Matrix::from(&arr);
        ensure!(b.dims() == (2, 3), "from", "from nested arrays: {:?}", b.dims());
        equal("from", "from nested arrays", b.as_data(), &[arr[0][0], arr[1][0], arr[0][1], arr[1][1], arr[0][2], arr[1][2]])?;
    }
    let x = value(g);
    let mut b = Matrix::initialized(m, n, |i, j| rows[i][j]);
    ensure!(b.dims() == (m, n), "initialized", "{:?}", b.dims());
    equal("initialized", "initialized", b.as_data(), &col_major)?;
    let f = Matrix::filled(m, n, x);
    ensure!(f.dims() == (m, n), "filled", "{:?}", f.dims());
    equal("filled", "filled", f.as_data(), &vec![x; m * n])?;
    equal("new", "new", Matrix::new(m, n).as_data(), &vec![0.0; m * n])?;
    for i in 0..m {
        for j in 0..n {
            ensure!(a.get(i, j).to_bits() == rows[i][j].to_bits() && a[(i, j)].to_bits() == rows[i][j].to_bits(), "get", "({},{})", i, j);
        }
        equal("extract", "row", &b.extract_row(i), &rows[i])?;
    }
    for j in 0..n {
        equal("extract", "column", &b.extract_column(j), &(0..m).map(|i| rows[i][j]).collect::<Vec<_>>())?;
    }
    let t = b.transposed();
    ensure!(t.dims() == (n, m), "transposed", "{:?}", t.dims());
    equal("transposed", "transposed", t.as_data(), &rows.iter().flatten().cloned().collect::<Vec<_>>())?;
    // writing
    let mut c = Matrix::new(m, n);
    for i in 0..m {
        for j in 0..n {
            if g.bool() {
                c.set(i, j, rows[i][j]);
            } else {
                c[(i, j)] = rows[i][j];
            }
        }
    }
    equal("set", "set", c.as_data(), &col_major)?;
    if m > 0 && n > 0 {
        let (i, j) = (g.us(0, m - 1), g.us(0, n - 1));
        let mut want = col_major.clone();
        c.add(i, j, x);
        want[i + j * m] += x;
        equal("add", "add", c.as_data(), &want)?;
        c.mul(i, j, x);
        want[i + j * m] *= x;
        equal("mul", "mul", c.as_data(), &want)?;
        c.as_mut_data()[0] = 4.0;
        want[0] = 4.0;
        equal("as_mut_data", "as_mut_data", c.as_data(), &want)?;
    }
    b.fill(x);
    equal("fill", "fill", b.as_data(), &vec![x; m * n])?;
    // square shapes
    let id = Matrix::identity(m);
    let dg = Matrix::diagonal(&rows.iter().map(|r| if n > 0 { r[0] } else { 1.0 }).collect::<Vec<_>>());
    ensure!(id.dims() == (m, m) && dg.dims() == (m, m), "square", "identity {:?} diagonal {:?}", id.dims(), dg.dims());
    for i in 0..m {
        for j in 0..m {
            let d = if n > 0 { rows[i][0] } else { 1.0 };
            ensure!(id.get(i, j) == if i == j { 1.0 } else { 0.0 }, "identity", "({},{}) = {}", i, j, id.get(i, j));
            ensure!(dg.get(i, j).to_bits() == if i == j { d } else { 0.0 }.to_bits(), "diagonal", "({},{}) = {}", i, j, dg.get(i, j));
        }
    }
    if m == n && m > 0 {
        let (lo, up) = (Matrix::from_lower(&rows), Matrix::from_upper(&rows));
        let (lo, up) = (must("triangle", "from_lower", lo)?, must("triangle", "from_upper", up)?);
        for i in 0..m {
            for j in 0..m {
                let (l, u) = (if j <= i { rows[i][j] } else { 0.0 }, if j >= i { rows[i][j] } else { 0.0 });
                ensure!(lo.get(i, j).to_bits() == l.to_bits(), "triangle", "lower ({},{})", i, j);
                ensure!(up.get(i, j).to_bits() == u.to_bits(), "triangle", "upper ({},{})", i, j);
            }
        }
    } else if m > 0 && n > 0 {
        must_err("triangle", "from_lower of a rectangular matrix", Matrix::from_lower(&rows))?;
        must_err("triangle", "from_upper of a rectangular matrix", Matrix::from_upper(&rows))?;
    }
    // band storage
    if m > 0 && n > 0 {
        let (ml, mu) = (g.us(0, m - 1), g.us(0, n - 1));
        let mut band = Matrix::filled(ml + mu + 1, n, -7.5);
        must("band", "mat_convert_to_blas_band", mat_convert_to_blas_band(&mut band, &a, ml, mu))?;
        let mut want = Matrix::filled(ml + mu + 1, n, -7.5);
        for i in 0..m {
            for j in 0..n {
                if j <= i + mu && i <= j + ml {
                    want.set(mu + i - j, j, rows[i][j]);
                }
            }
        }
        equal("band", "band storage", band.as_data(), want.as_data())?;
        let mut bad = Matrix::new(ml + mu + 2, n);
        must_err("band", "wrong size", mat_convert_to_blas_band(&mut bad, &a, ml, mu))?;
    }
    // indices out of range
    let big = Matrix::new(m, n);
    ensure!(catch(|| big.get(m, n)).is_err(), "panic", "reading past the end did not panic");
    // serialization
    let fin: Vec<Vec<f64>> = (0..m).map(|_| (0..n).map(|_| finite(g)).collect()).collect();
    let v = if m == 0 { Matrix::new(m, n) } else { Matrix::from(&fin) };
    let json = serde_json::to_string(&v).map_err(|_| Stop::Discard)?;
    let w: Matrix = must("serde", "deserialize", serde_json::from_str(&json).map_err(|_| "cannot deserialize"))?;
    ensure!(w.dims() == v.dims(), "serde", "dimensions {:?}", w.dims());
    for k in 0..m * n {
        same_rel("serde", &format!("element {}", k), w.as_data()[k], v.as_data()[k], 2.0 * EPS, 1e-320)?;
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------- sequences

fn sequences(g: &mut G) -> R {
    let n = if g.chance(1, 3) { g.us(0, 4) } else { g.us(0, 300) };
    let (a, b) = match g.draw(4) {
        0 => (g.int(-10, 10) as f64, g.int(-10, 10) as f64),
        1 => (g.flog(-5.0, 5.0), g.flog(-5.0, 5.0)),
        2 => {
            let a = g.uni(-10.0, 10.0);
            (a, a)
        }
        _ => (g.uni(-10.0, 10.0), g.uni(-10.0, 10.0)),
    };
    g.show("a,b,n", &(a, b, n));
    if n > 2 && a != b {
        g.hit();
    }
    let v = must("linspace", "linspace", Vector::linspace(a, b, n))?;
    let w = must("linspace", "mapped_linspace", Vector::mapped_linspace(a, b, n, |x| 3.0 * x))?;
    ensure!(v.dim() == n && w.dim() == n, "linspace", "{} and {} numbers", v.dim(), w.dim());
    if n > 0 {
        ensure!(v[0] == a && w[0] == 3.0 * a, "linspace", "starts at {}", v[0]);
    }
    if n > 1 {
        ensure!(v[n - 1] == b && w[n - 1] == 3.0 * b, "linspace", "ends at {:?} instead of {:?}", v[n - 1], b);
    }
    for i in 0..n {
        if n > 1 {
            let want = a + (b - a) * (i as f64 / (n - 1) as f64);
            near("linspace", &format!("element {}", i), v[i], want, 4.0 * EPS * (a.abs() + b.abs()))?;
        }
        ensure!(w[i] == 3.0 * v[i], "linspace", "mapped element {} = {}, plain {}", i, w[i], v[i]);
        if i > 0 {
            let d = v[i] - v[i - 1];
            ensure!(if b >= a { d >= 0.0 } else { d <= 0.0 }, "linspace", "not monotone at {}", i);
        }
    }
    // integers: truncated steps
    let (ia, ib) = (g.int(-50, 50) as i32, g.int(-50, 50) as i32);
    let k = g.us(0, 12);
    let v = must("linspace", "integer linspace", NumVector::<i32>::linspace(ia, ib, k))?;
    let want: Vec<i32> = match k {
        0 => vec![],
        1 => vec![ia],
        2 => vec![ia, ib],
        _ => (0..k as i32).map(|i| ia + i * ((ib - ia) / (k as i32 - 1))).collect(),
    };
    ensure!(v.as_data() == &want, "linspace", "integers {:?} instead of {:?} from {} to {}", v.as_data(), want, ia, ib);
    // grids
    let (nx, ny) = (g.rare(0, 6, 30), g.rare(0, 6, 30));
    let (c, d) = (g.uni(-3.0, 3.0), g.uni(-3.0, 3.0));
    let (x, y) = generate2d(a, b, c, d, nx, ny);
    let (x3, y3, z3) = generate3d(a, b, c, d, nx, ny, |x, y| x * 2.0 - y);
    ensure!(x.dims() == (ny, nx) && y.dims() == (ny, nx) && z3.dims() == (ny, nx), "generate", "sizes");
    equal("generate", "x", x.as_data(), x3.as_data())?;
    equal("generate", "y", y.as_data(), y3.as_data())?;
    for i in 0..ny {
        for j in 0..nx {
            let wx = if nx == 1 { a } else { a + (b - a) * j as f64 / (nx - 1) as f64 };
            let wy = if ny == 1 { c } else { c + (d - c) * i as f64 / (ny - 1) as f64 };
            near("generate", "x", x.get(i, j), wx, 4.0 * EPS * (a.abs() + b.abs()))?;
            near("generate", "y", y.get(i, j), wy, 4.0 * EPS * (c.abs() + d.abs()))?;
            ensure!(z3.get(i, j) == x.get(i, j) * 2.0 - y.get(i, j), "generate", "z ({},{})", i, j);
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------- sorting and searching

fn less(a: f64, b: f64) -> bool {
    a < b || (!a.is_nan() && b.is_nan())
}

fn sorting(g: &mut G) -> R {
    let n = g.rare(0, 30, 300);
    let few = g.bool();
    let mut col = |g: &mut G| -> Vec<f64> { (0..n).map(|_| if few { *g.pick(&[0.0, 1.0, -0.0, 2.0, f64::NAN]) } else { value(g) }).collect() };
    let (x, y, z) = (col(g), col(g), col(g));
    g.show("x", &x);
    g.show("y", &y);
    g.show("z", &z);
    if n > 2 {
        g.hit();
    }
    // a stable ordering permutation is unique
    let stable = |keys: &[&Vec<f64>]| -> Vec<usize> {
        let mut p: Vec<usize> = Vec::new();
        for i in 0..n {
            // insertion after all that are not greater
            let mut at = p.len();
            while at > 0 {
                let j = p[at - 1];
                let mut smaller = false;
                for k in keys {
                    if less(k[i], k[j]) {
                        smaller = true;
                        break;
                    }
                    if less(k[j], k[i]) {
                        break;
                    }
                }
                if !smaller {
                    break;
                }
                at -= 1;
            }
            p.insert(at, i);
        }
        p
    };
    let p = argsort_f64(&x);
    ensure!(p == stable(&[&x]), "argsort", "argsort: {:?} instead of {:?}", p, stable(&[&x]));
    let p = argsort2_f64(&y, &x);
    ensure!(p == stable(&[&y, &x]), "argsort", "argsort2: {:?} instead of {:?}", p, stable(&[&y, &x]));
    let p = argsort3_f64(&z, &y, &x);
    ensure!(p == stable(&[&z, &y, &x]), "argsort", "argsort3: {:?} instead of {:?}", p, stable(&[&z, &y, &x]));
    let mut longer = x.clone();
    longer.push(0.0);
    ensure!(catch(|| argsort2_f64(&longer, &x)).is_err() && catch(|| argsort3_f64(&x, &longer, &x)).is_err() && catch(|| argsort3_f64(&x, &x, &longer)).is_err(), "argsort", "different lengths accepted");
    // tuples
    let t: Vec<i64> = (0..4).map(|_| g.int(-3, 3)).collect();
    g.show("tuple", &t);
    let mut want = t[..2].to_vec();
    want.sort();
    let mut s = (t[0], t[1]);
    sort2(&mut s);
    ensure!(vec![s.0, s.1] == want, "sort2", "{:?} gives {:?}", &t[..2], s);
    let mut want = t[..3].to_vec();
    want.sort();
    let mut s = (t[0], t[1], t[2]);
    sort3(&mut s);
    ensure!(vec![s.0, s.1, s.2] == want, "sort3", "{:?} gives {:?}", &t[..3], s);
    let mut want = t.clone();
    want.sort();
    let mut s = (t[0], t[1], t[2], t[3]);
    sort4(&mut s);
    ensure!(vec![s.0, s.1, s.2, s.3] == want, "sort4", "{:?} gives {:?}", t, s);
    Ok(())
}

fn searching(g: &mut G) -> R {
    let n = g.rare(0, 20, 200);
    let hi = *g.pick(&[1, 2, 3, 20]);
    let x: Vec<i32> = (0..n).map(|_| g.int(-hi, hi) as i32).collect();
    g.show("x", &x);
    if n > 3 {
        g.hit();
    }
    let none = usize::MAX;
    let imin = (0..n).find(|&i| x.iter().all(|v| *v >= x[i])).unwrap_or(none);
    let imax = (0..n).find(|&i| x.iter().all(|v| *v <= x[i])).unwrap_or(none);
    let xf: Vec<f64> = x.iter().map(|&v| v as f64 * 0.5).collect();
    ensure!(find_min_max(&x) == (imin, imax) && find_min_max(&xf) == (imin, imax), "find_min_max", "{:?} instead of {:?}", find_min_max(&x), (imin, imax));
    // runs of equal values: a run is a peak when both neighbours exist and are smaller; its last point counts
    let (mut valleys, mut peaks) = (Vec::new(), Vec::new());
    let mut s = 0;
    while s < n {
        let mut e = s;
        while e + 1 < n && x[e + 1] == x[s] {
            e += 1;
        }
        if s > 0 && e + 1 < n {
            if x[s - 1] < x[s] && x[e + 1] < x[s] {
                peaks.push(e);
            }
            if x[s - 1] > x[s] && x[e + 1] > x[s] {
                valleys.push(e);
            }
        }
        s = e + 1;
    }
    let want = (valleys, peaks, imin, imax);
    let got = find_valleys_and_peaks(&x);
    ensure!(got == want, "valleys_and_peaks", "{:?} instead of {:?}", got, want);
    ensure!(find_valleys_and_peaks(&xf) == want, "valleys_and_peaks", "real numbers: {:?} instead of {:?}", find_valleys_and_peaks(&xf), want);
    if n > 0 {
        let i = find_index_abs_max(&xf);
        let m = xf.iter().fold(0.0f64, |m, v| m.max(v.abs()));
        ensure!(xf[i as usize].abs() == m && xf[..i as usize].iter().all(|v| v.abs() < m), "find_index_abs_max", "index {}", i);
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------- formats

/// value of a duration text such as 2h3m4.5s or 1.5ms, in nanoseconds
fn duration(text: &str) -> Option<f64> {
    let mut total = 0.0;
    let mut last = f64::INFINITY;
    let mut rest = text;
    while !rest.is_empty() {
        let k = rest.find(|c: char| !(c.is_ascii_digit() || c == '.'))?;
        let num: f64 = rest[..k].parse().ok()?;
        rest = &rest[k..];
        let units = [("ns", 1.0), ("µs", 1e3), ("ms", 1e6), ("s", 1e9), ("m", 6e10), ("h", 3.6e12)];
        let (u, f) = units.iter().find(|(u, _)| rest.starts_with(u))?;
        // minutes and smaller units stay below the next unit (up to rounding)
        let below = match *u {
            "h" => true,
            "m" => num < 60.0,
            "s" => num <= 60.0,
            _ => num <= 1000.0,
        };
        if !below || *f >= last {
            return None;
        }
        last = *f;
        total += num * f;
        rest = &rest[u.len()..];
    }
    Some(total)
}

/// measured times lie between those seen from outside
fn stopwatch(g: &mut G) -> R {
    use std::time::Instant;
    let mut before = Instant::now();
    let mut sw = Stopwatch::new();
    let mut after = Instant::now();
    ensure!(format!("{}", sw) == "0ns", "stopwatch:new", "{}", sw);
    let actions: Vec<u64> = (0..g.us(1, 6)).map(|_| g.draw(3)).collect();
    g.show("actions", &actions);
    g.hit();
    for a in actions {
        let spin = g.us(0, 200);
        for k in 0..spin {
            std::hint::black_box(k);
        }
        let p = Instant::now();
        let v = match a {
            0 => {
                sw.reset();
                0
            }
            1 => sw.stop(),
            _ => sw.stop_and_reset(),
        };
        let q = Instant::now();
        if a > 0 {
            let (lo, hi) = (p.duration_since(after).as_nanos(), q.duration_since(before).as_nanos());
            ensure!(lo <= v && v <= hi, "stopwatch:time", "{} ns, seen from outside {} to {} ns", v, lo, hi);
        }
        if a != 1 {
            (before, after) = (p, q);
        }
        let want = if a == 1 { format_nanoseconds(v) } else { "0ns".to_string() };
        ensure!(format!("{}", sw) == want, "stopwatch:text", "{} instead of {}", sw, want);
    }
    Ok(())
}

fn formats(g: &mut G) -> R {
    // durations
    let ns: u128 = match g.draw(4) {
        0 => g.us(0, 2000) as u128,
        1 => {
            let unit = *g.pick(&[1u128, 1000, 1_000_000, 1_000_000_000, 60_000_000_000, 3_600_000_000_000]);
            unit * g.us(0, 100) as u128
        }
        2 => g.plog(0.0, 17.0) as u128,
        _ => g.us(0, 8_000_000_000_000) as u128,
    };
    let digits = g.us(0, 9);
    g.show("ns,digits", &(ns, digits));
    g.hit();
    let text = format_nanoseconds(ns);
    match duration(&text) {
        Some(v) => same_rel("duration", &text, v, ns as f64, 1e-12, 0.0)?,
        None => return fail("duration", format!("{} ns is written {:?}", ns, text)),
    }
    let text = format_nanoseconds_with_digits(ns, digits);
    match duration(&text) {
        Some(v) => {
            // the last unit is rounded
            let unit = if text.ends_with("ns") { 1.0 } else if text.ends_with("µs") { 1e3 } else if text.ends_with("ms") { 1e6 } else { 1e9 };
            near("duration", &text, v, ns as f64, 0.5001 * unit * 10f64.powi(-(digits as i32)) + 1e-12 * ns as f64)?;
        }
        None => return fail("duration", format!("{} ns is written {:?}", ns, text)),
    }
    // numbers
    let x = if g.chance(1, 10) { *g.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 0.0, -0.0]) } else { finite(g) };
    let (w, p) = (g.us(0, 30), g.us(0, 17));
    g.show("x,width,precision", &(x, w, p));
    let t = format_scientific(x, w, p);
    ensure!(t.chars().count() >= w, "scientific", "{:?} is narrower than {}", t, w);
    ensure!(t.trim_start().len() == t.len() || t.chars().count() == w, "scientific", "{:?} is padded beyond {}", t, w);
    match t.trim().parse::<f64>() {
        Ok(v) if x.is_nan() => ensure!(v.is_nan(), "scientific", "NaN is written {:?}", t),
        Ok(v) => same_rel("scientific", &t, v, x, 0.5001 * 10f64.powi(-(p as i32)) + 2.0 * EPS, 0.0)?,
        Err(_) => return fail("scientific", format!("{:e} is written {:?}", x, t)),
    }
    if x.is_finite() {
        let body = t.trim();
        let e = body.find('E');
        ensure!(e.is_some() && body.len() - e.unwrap() >= 4 && (body.len() - e.unwrap() == 4 || body.as_bytes()[e.unwrap() + 2] != b'0') && ['+', '-'].contains(&body.chars().nth(e.unwrap() + 1).unwrap()), "scientific", "exponent of {:?}", t);
        let mant = &body[..e.unwrap()];
        let dec = mant.find('.').map(|k| mant.len() - k - 1).unwrap_or(0);
        ensure!(dec == p, "scientific", "{} decimals in {:?}", dec, t);
        let ff = format_fortran(x);
        ensure!(ff == format_scientific(x, 23, 15), "fortran", "{:?}", ff);
    }
    let mut buf = String::from("a");
    write_formatted_number(&mut buf, x, w, Some(p), None);
    ensure!(buf == format!("a{:>w$.p$}", x, w = w, p = p), "write_formatted_number", "{:?}", buf);
    let mut buf = String::from("a");
    write_formatted_number(&mut buf, x, w, None, None);
    ensure!(buf == format!("a{:>w$}", x, w = w), "write_formatted_number", "{:?}", buf);
    let mut buf = String::from("a");
    write_formatted_number(&mut buf, x, w, None, Some(p));
    ensure!(buf == format!("a{}", t), "write_formatted_number", "{:?}", buf);
    Ok(())
}

/// numbers of a text in order of appearance
fn numbers(text: &str) -> Vec<f64> {
    text.split(|c: char| !(c.is_ascii_alphanumeric() || c == '.' || c == '+' || c == '-')).filter_map(|s| s.parse::<f64>().ok()).collect()
}

fn displays(g: &mut G) -> R {
    let (m, n) = (g.rare(0, 5, 20), g.rare(0, 5, 20));
    let rows: Vec<Vec<f64>> = (0..m).map(|_| (0..n).map(|_| if g.chance(1, 12) { value(g) } else { finite(g) }).collect()).collect();
    g.show("rows", &rows);
    if m > 0 && n > 0 {
        g.hit();
    }
    let a = if m == 0 { Matrix::new(m, n) } else { Matrix::from(&rows) };
    let flat: Vec<f64> = rows.iter().flatten().cloned().collect();
    let same = |x: f64, y: f64| x == y || (x.is_nan() && y.is_nan());
    let text = format!("{}", a);
    if m == 0 || n == 0 {
        ensure!(text == "[]", "display", "{:?}", text);
    } else {
        let got = numbers(&text);
        ensure!(got.len() == flat.len() && (0..flat.len()).all(|i| same(got[i], flat[i])), "display", "{:?} does not show {:?}", text, flat);
        let widths: Vec<usize> = text.lines().map(|l| l.chars().count()).collect();
        ensure!(widths.len() == m + 2 && widths.iter().all(|w| *w == widths[0]), "display", "ragged frame {:?}", text);
        let p = g.us(0, 8);
        let text = format!("{:.1$}", a, p);
        let shown: Vec<String> = text.lines().skip(1).take(m).flat_map(|l| l.trim_matches(|c| c == '│' || c == ' ').split_whitespace().map(|s| s.to_string()).collect::<Vec<_>>()).collect();
        let want: Vec<String> = flat.iter().map(|v| format!("{:.1$}", v, p)).collect();
        ensure!(shown == want, "display", "{:?} shows {:?}", text, want);
        let np = numbers(&mat_to_numpy("m", &a));
        ensure!(np.len() == flat.len() && (0..flat.len()).all(|i| same(np[i], flat[i])), "numpy", "{:?}", mat_to_numpy("m", &a));
        let mm = numbers(&mat_to_mathematica("m", &a));
        ensure!(mm.len() == flat.len() && (0..flat.len()).all(|i| same(mm[i], flat[i])), "mathematica", "{:?}", mat_to_mathematica("m", &a));
        let st = mat_to_static_array("M", &a);
        let body = st.splitn(2, "= [\n").nth(1).unwrap_or("");
        let sa = numbers(body);
        ensure!(sa.len() == flat.len() && st.contains(&format!("const M: [[f64; {}]; {}]", n, m)), "static_array", "{:?}", st);
        for i in 0..flat.len() {
            if flat[i].abs() < 1e308 {
                same_rel("static_array", &format!("number {}", i), sa[i], flat[i], 1e-15, 0.0)?;
            }
        }
    }
    // vectors
    let v = Vector::from(&flat);
    let text = format!("{}", v);
    if flat.is_empty() {
        ensure!(text == "[]" && vec_fmt_scientific(&v, 3) == "[]", "display", "{:?}", text);
    } else {
        let got = numbers(&text);
        ensure!(got.len() == flat.len() && (0..flat.len()).all(|i| same(got[i], flat[i])), "display", "{:?} does not show {:?}", text, flat);
        let p = g.us(0, 12);
        let text = vec_fmt_scientific(&v, p);
        let got = numbers(&text);
        ensure!(got.len() == flat.len(), "vec_fmt_scientific", "{:?} does not show {:?}", text, flat);
        for i in 0..flat.len() {
            ensure!(same(got[i], flat[i]) || flat[i].abs() > 1e308 || (got[i] - flat[i]).abs() <= flat[i].abs() * (0.5001 * 10f64.powi(-(p as i32)) + 2.0 * EPS), "vec_fmt_scientific", "{} for {}", got[i], flat[i]);
        }
        let st = vec_to_static_array("V", &v);
        let sa = numbers(st.splitn(2, "= [\n").nth(1).unwrap_or(""));
        ensure!(sa.len() == flat.len() && st.contains(&format!("const V: [f64; {}]", flat.len())), "static_array", "{:?}", st);
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------- text tables

fn write_file(g: &G, name: &str, bytes: &[u8]) -> Result<std::path::PathBuf, Stop> {
    let path = g.scratch.join(name);
    std::fs::File::create(&path).and_then(|mut f| f.write_all(bytes)).map_err(|_| Stop::Discard)?;
    Ok(path)
}

/// rows of tokens by the documented rules: '#' starts a comment line or ends a row, blank lines are skipped
fn tokens(text: &str) -> Vec<Vec<String>> {
    let mut rows = Vec::new();
    for line in text.split('\n') {
        let row: Vec<String> = line.split_whitespace().map(|s| s.to_string()).take_while(|s| !s.starts_with('#')).collect();
        if !row.is_empty() {
            rows.push(row);
        }
    }
    rows
}

fn table_text(g: &mut G, rows: &[Vec<String>]) -> String {
    let mut s = String::new();
    let blank = |g: &mut G, s: &mut String| {
        let k = g.us(1, 3);
        for _ in 0..k {
            s.push(*g.pick(&[' ', ' ', '\t']));
        }
    };
    for row in rows {
        while g.chance(1, 6) {
            s.push_str(*g.pick(&["# comment 1 2 3\n", "\n", "   \n", "  #x\n", "#\n", "\t\n"]));
        }
        if g.chance(1, 4) {
            blank(g, &mut s);
        }
        for (j, t) in row.iter().enumerate() {
            if j > 0 {
                blank(g, &mut s);
            }
            s.push_str(t);
        }
        if g.chance(1, 6) {
            s.push_str(*g.pick(&["  ", " # tail 7", " #tail", "\t#"]));
        }
        s.push_str(*g.pick(&["\n", "\n", "\r\n"]));
    }
    if g.bool() {
        while s.ends_with(|c| c == '\n' || c == '\r') {
            s.pop();
        }
    }
    s
}

fn mutate(g: &mut G, text: &str) -> Vec<u8> {
    let mut b = text.as_bytes().to_vec();
    let k = g.us(1, 4);
    for _ in 0..k {
        let at = g.us(0, b.len());
        match g.draw(6) {
            0 if at < b.len() => {
                b.remove(at);
            }
            1 => b.insert(at, *g.pick(b"# \n\t0-+e.xN,;\r\xff\x80\x00")),
            2 if at < b.len() => b[at] = g.us(0, 255) as u8,
            3 => b.truncate(at),
            4 => {
                let extra = *g.pick(&["#", " nan ", " 1e999 ", " inf ", "1 2 3\n", "-", "\u{a0}", " 0x10 ", "\n\n"]);
                for (i, c) in extra.bytes().enumerate() {
                    b.insert(at + i, c);
                }
            }
            _ => {}
        }
    }
    b
}

fn tables(g: &mut G) -> R {
    let (m, n) = (g.rare(0, 6, 80), g.us(1, 5));
    let names = ["sr", "ea", "er", "col", "x", "y1", "time"];
    let p = g.perm(7);
    let labels: Vec<&str> = (0..n).map(|j| names[p[j]]).collect();
    let data: Vec<Vec<f64>> = (0..m).map(|_| (0..n).map(|_| finite(g)).collect()).collect();
    let style = g.draw(3);
    let tok = |v: f64| match style {
        0 => format!("{:?}", v),
        1 => format!("{:e}", v),
        _ => format!("{:.17E}", v),
    };
    let mut rows: Vec<Vec<String>> = vec![labels.iter().map(|s| s.to_string()).collect()];
    rows.extend(data.iter().map(|r| r.iter().map(|&v| tok(v)).collect::<Vec<_>>()));
    // structural defects
    let defect = if g.chance(1, 3) { g.us(1, 4) } else { 0 };
    let mut expect_error = false;
    if defect > 0 && m > 0 {
        let i = g.us(1, m);
        match defect {
            1 => {
                rows[i].push("1".to_string());
                expect_error = true;
            }
            2 if n > 1 => {
                rows[i].pop();
                expect_error = true;
            }
            3 => {
                let j = g.us(0, n - 1);
                rows[i][j] = g.pick(&["abc", "1.2.3", "1,2", "--1", "1e", "0x1", "_"]).to_string();
                expect_error = true;
            }
            4 => {
                rows[0].push(labels[0].to_string());
                expect_error = true;
            }
            _ => {}
        }
    }
    let text = table_text(g, &rows);
    g.show("text", &text);
    if m > 0 && n > 1 {
        g.hit();
    }
    let path = write_file(g, "table.txt", text.as_bytes())?;
    let with = read_data(&path, &labels);
    let free: Result<HashMap<String, Vec<f64>>, StrError> = read_table(&path, None);
    if expect_error {
        g.class("defective table");
        must_err("table", "defective table with labels", with)?;
        must_err("table", "defective table", free)?;
        return Ok(());
    }
    g.class("good table");
    for t in [must("table", "read_data", with)?, must("table", "read_table", free)?] {
        if m == 0 {
            ensure!(t.values().all(|c| c.is_empty()), "table", "data from an empty table: {:?}", t);
            continue;
        }
        ensure!(t.len() == n, "table", "{} columns instead of {}", t.len(), n);
        for j in 0..n {
            let want: Vec<f64> = data.iter().map(|r| r[j]).collect();
            match t.get(labels[j]) {
                Some(c) => equal("table", labels[j], c, &want)?,
                None => return fail("table", format!("column {} is missing", labels[j])),
            }
        }
    }
    // wrong labels
    let mut wrong = labels.clone();
    if g.bool() {
        let j = g.us(0, n - 1);
        // labels which are longer, shorter or written in another way
        let l = wrong[j].to_string();
        let other = [String::from("none"), format!("{}x", l), l[..l.len() - 1].to_string(), format!("x{}", l), l[1..].to_string(), l.to_uppercase(), l.to_lowercase()][g.draw(7) as usize].clone();
        if other != l {
            wrong[j] = &other;
            must_err("table", "wrong label", read_data(&path, &wrong))?;
        }
    } else {
        wrong.pop();
        must_err("table", "missing label", read_data(&path, &wrong))?;
    }
    let missing = g.scratch.join("does-not-exist.txt");
    must_err("table", "missing file", read_data(&missing, &labels))
}

fn matrix_files(g: &mut G) -> R {
    let (m, n) = (g.rare(0, 6, 80), g.rare(1, 6, 30));
    let data: Vec<Vec<f64>> = (0..m).map(|_| (0..n).map(|_| finite(g)).collect()).collect();
    let mut rows: Vec<Vec<String>> = data.iter().map(|r| r.iter().map(|&v| format!("{:?}", v)).collect::<Vec<_>>()).collect();
    let bad = g.chance(1, 3) && m > 0;
    if bad {
        let i = g.us(0, m - 1);
        match g.draw(2) {
            0 if m > 1 => rows[i].push("1".to_string()),
            _ => {
                let j = g.us(0, n - 1);
                rows[i][j] = g.pick(&["abc", "1.2.3", "1,2", "--1", "1e", "0x1"]).to_string();
            }
        }
    }
    let text = table_text(g, &rows);
    g.show("text", &text);
    if m > 1 && n > 1 {
        g.hit();
    }
    let path = write_file(g, "matrix.txt", text.as_bytes())?;
    let r = Matrix::from_text_file(&path);
    if bad {
        return must_err("from_text_file", "defective file", r);
    }
    let a = must("from_text_file", "from_text_file", r)?;
    ensure!(a.dims() == if m == 0 { (0, 0) } else { (m, n) }, "from_text_file", "{:?} instead of {:?}", a.dims(), (m, n));
    for i in 0..m {
        equal("from_text_file", "row", &a.extract_row(i), &data[i])?;
    }
    // coordinates file for plotting
    let tol = if g.bool() { 0.0 } else { g.plog(-3.0, 1.0) };
    let path = g.scratch.join("matrix.smat");
    must("vismatrix", "mat_write_vismatrix", mat_write_vismatrix(&path, &a, tol))?;
    let text = std::fs::read_to_string(&path).map_err(|_| Stop::Discard)?;
    let rows = tokens(&text);
    let mut want = vec![];
    for i in 0..a.nrow() {
        for j in 0..a.ncol() {
            if a.get(i, j).abs() > tol {
                want.push((i, j, a.get(i, j)));
            }
        }
    }
    ensure!(rows.len() == want.len() + 1 && rows[0] == vec![a.nrow().to_string(), a.ncol().to_string(), want.len().to_string()], "vismatrix", "{:?}", text);
    for (r, w) in rows[1..].iter().zip(&want) {
        ensure!(r.len() == 3 && r[0] == w.0.to_string() && r[1] == w.1.to_string() && r[2].parse::<f64>() == Ok(w.2), "vismatrix", "{:?} for {:?}", r, w);
    }
    must_err("vismatrix", "negative tolerance", mat_write_vismatrix(&path, &a, -1e-3))
}

/// arbitrary bytes: the reading functions follow the documented rules or report an error
fn fuzz_files(g: &mut G) -> R {
    let (m, n) = (g.us(1, 4), g.us(1, 4));
    let rows: Vec<Vec<String>> = (0..m).map(|i| (0..n).map(|j| if i == 0 { format!("c{}", j) } else { format!("{:?}", g.int(-99, 99) as f64 / 4.0) }).collect()).collect();
    let header = g.bool();
    let text = table_text(g, if header { &rows } else { &rows[1..] });
    let bytes = mutate(g, &text);
    g.show("bytes", &String::from_utf8_lossy(&bytes));
    g.hit();
    let path = write_file(g, "fuzz.txt", &bytes)?;
    let text = String::from_utf8(bytes).ok();
    let got = read_table::<f64, _>(&path, None);
    let mat = Matrix::from_text_file(&path);
    // expected
    let (mut want, mut wmat) = (None, None);
    if let Some(t) = &text {
        let rows = tokens(t);
        if rows.is_empty() {
            want = Some((vec![], vec![]));
            wmat = Some(vec![]);
        } else {
            let head = &rows[0];
            let dup = (0..head.len()).any(|i| head[..i].contains(&head[i]));
            let vals = |rows: &[Vec<String>]| -> Option<Vec<Vec<f64>>> { rows.iter().map(|r| r.iter().map(|s| s.parse::<f64>().ok()).collect()).collect() };
            if !dup && rows.iter().all(|r| r.len() == head.len()) {
                want = vals(&rows[1..]).map(|v| (head.clone(), v));
            }
            if rows.iter().all(|r| r.len() == head.len()) {
                wmat = vals(&rows);
            }
        }
    }
    g.class(if want.is_some() || wmat.is_some() { "readable" } else { "unreadable" });
    match (got, want) {
        (Ok(t), Some((head, v))) => {
            for j in 0..head.len() {
                let w: Vec<f64> = v.iter().map(|r| r[j]).collect();
                let c = t.get(&head[j]).cloned().unwrap_or_default();
                ensure!(c.len() == w.len() && (0..w.len()).all(|i| c[i] == w[i] || (c[i].is_nan() && w[i].is_nan())), "fuzz", "column {}: {:?} instead of {:?}", head[j], c, w);
            }
        }
        (Err(_), None) => {}
        (Ok(t), None) => return fail("fuzz", format!("an unreadable table was accepted: {:?}", t)),
        (Err(e), Some(_)) => return fail("fuzz", format!("a readable table was rejected: {}", e)),
    }
    match (mat, wmat) {
        (Ok(a), Some(v)) => {
            ensure!(a.nrow() == v.len(), "fuzz", "{} rows instead of {}", a.nrow(), v.len());
            for (i, r) in v.iter().enumerate() {
                let c = a.extract_row(i);
                ensure!(c.len() == r.len() && (0..r.len()).all(|j| c[j] == r[j] || (c[j].is_nan() && r[j].is_nan())), "fuzz", "row {}: {:?} instead of {:?}", i, c, r);
            }
        }
        (Err(_), None) => {}
        (Ok(a), None) => return fail("fuzz", format!("an unreadable matrix was accepted: {}", a)),
        (Err(e), Some(_)) => return fail("fuzz", format!("a readable matrix was rejected: {}", e)),
    }
    Ok(())
}

pub fn property() -> Property {
    Property {
        id: "C11",
        assumptions: &[
            "serialization is exercised through JSON with finite numbers and compared within two units in the last place (the JSON reader's accuracy)",
            "text files are written in a scratch directory; '#' starts a comment only at the beginning of a word",
        ],
        laws: vec![
            Law { name: "vectors", quick: 150000, rule: "0..40 values incl. NaN, infinities, signed zeros; non-trivial: more than one value", f: vectors },
            Law { name: "matrices", quick: 150000, rule: "0..7 by 0..7; non-trivial: rectangular with both sizes > 1", f: matrices },
            Law { name: "sequences", quick: 100000, rule: "limits and counts; non-trivial: at least three points and different limits", f: sequences },
            Law { name: "sorting", quick: 300000, rule: "0..30 keys with ties and NaN; non-trivial: more than two keys", f: sorting },
            Law { name: "searching", quick: 500000, rule: "sequences with plateaus; non-trivial: more than three values", f: searching },
            Law { name: "formats", quick: 300000, rule: "durations and numbers of all magnitudes; all cases non-trivial", f: formats },
            Law { name: "displays", quick: 100000, rule: "0..5 by 0..5 values; non-trivial: not empty", f: displays },
            Law { name: "tables", quick: 60000, rule: "well-formed and defective tables; non-trivial: data with more than one column", f: tables },
            Law { name: "matrix_files", quick: 3000, rule: "well-formed and defective matrix files; non-trivial: more than one row and column", f: matrix_files },
            Law { name: "stopwatch", quick: 20000, rule: "sequences of stops and resets; all cases non-trivial", f: stopwatch },
            Law { name: "fuzz_files", quick: 100000, rule: "byte mutations of tables, any encoding; all cases non-trivial", f: fuzz_files },
        ],
    }
}
