use russell_lab::*;
use vp_engine::*;

const EPS: f64 = f64::EPSILON;

/// values of T_k, T'_k, T''_k (k = 0..n) at z by recurrence
fn cheb(n: usize, z: f64) -> Vec<[f64; 3]> {
    let mut t = vec![[1.0, 0.0, 0.0]];
    if n > 0 {
        t.push([z, 1.0, 0.0]);
    }
    for k in 1..n {
        let (a, b) = (t[k], t[k - 1]);
        t.push([2.0 * z * a[0] - b[0], 2.0 * a[0] + 2.0 * z * a[1] - b[1], 4.0 * a[1] + 2.0 * z * a[2] - b[2]]);
    }
    t
}

fn series(c: &[f64], z: f64) -> [f64; 3] {
    let t = cheb(c.len() - 1, z);
    let mut s = [0.0; 3];
    for k in 0..c.len() {
        for d in 0..3 {
            s[d] += c[k] * t[k][d];
        }
    }
    s
}

fn coefficients(g: &mut G, n: usize) -> Vec<f64> {
    let mut c: Vec<f64> = (0..=n).map(|_| if g.chance(1, 4) { 0.0 } else { g.uni(-2.0, 2.0) }).collect();
    let s = *g.pick(&[1.0, 1.0, 1.0, 1e-6, 1e8]);
    for x in c.iter_mut() {
        *x *= s;
    }
    c
}

struct Lag {
    interp: InterpLagrange,
    grid: InterpGrid,
    nn: usize,
    par: InterpParams,
}

fn lagrange(g: &mut G) -> Result<Lag, Stop> {
    let grid = *g.pick(&[InterpGrid::ChebyshevGaussLobatto, InterpGrid::ChebyshevGauss, InterpGrid::Uniform]);
    let hi = if grid == InterpGrid::Uniform { 14 } else { 40 };
    let nn = if g.chance(1, 3) { g.us(1, 4) } else { g.us(1, hi) };
    let mut par = InterpParams::new();
    par.grid_type = grid;
    par.no_eta_normalization = g.bool();
    if g.chance(1, 4) {
        par.eta_cutoff = g.us(0, 20);
    }
    par.lebesgue_estimate_nstation = g.us(2, 40);
    par.error_estimate_nstation = g.us(2, 40);
    g.show("degree", &nn);
    g.show("params", &par);
    let interp = must("new", "InterpLagrange::new", InterpLagrange::new(nn, Some(par)))?;
    Ok(Lag { interp, grid, nn, par })
}

/// cardinal polynomials at x, by their definition
fn cardinal(xx: &[f64], x: f64) -> Vec<f64> {
    (0..xx.len())
        .map(|j| (0..xx.len()).filter(|&k| k != j).map(|k| (x - xx[k]) / (xx[j] - xx[k])).product())
        .collect()
}

fn station(g: &mut G, xx: &[f64]) -> f64 {
    let n = xx.len();
    match g.draw(6) {
        0 => *g.pick(&[-1.0, 1.0, 0.0]),
        1 => xx[g.us(0, n - 1)],
        2 => {
            let x = xx[g.us(0, n - 1)];
            let d = g.flog(-17.0, -2.0);
            (x + d).clamp(-1.0, 1.0)
        }
        _ => g.uni(-1.0, 1.0),
    }
}

fn lagrange_values(g: &mut G) -> R {
    let l = lagrange(g)?;
    let xx = l.interp.get_points().as_data().clone();
    let nn = l.nn;
    ensure!(xx.len() == nn + 1, "points", "{} points", xx.len());
    ensure!(l.interp.get_degree() == nn && l.interp.get_grid_type() == l.grid && l.interp.get_xrange() == (-1.0, 1.0), "getters", "degree, grid type or range wrong");
    for i in 0..=nn {
        let want = match l.grid {
            InterpGrid::Uniform => -1.0 + 2.0 * i as f64 / nn as f64,
            InterpGrid::ChebyshevGauss => -f64::cos((2 * i + 1) as f64 * std::f64::consts::PI / (2 * nn + 2) as f64),
            InterpGrid::ChebyshevGaussLobatto => -f64::cos(i as f64 * std::f64::consts::PI / nn as f64),
        };
        near("points", &format!("point {}", i), xx[i], want, 1e-15)?;
    }
    let c = coefficients(g, nn);
    let x = station(g, &xx);
    g.show("x", &x);
    g.show("coefficients", &c);
    if nn > 1 && c[nn] != 0.0 {
        g.hit();
    }
    let u: Vec<f64> = xx.iter().map(|&x| series(&c, x)[0]).collect();
    let uu = Vector::from(&u);
    let csum: f64 = c.iter().map(|v| v.abs()).sum();
    let want = series(&c, x);
    let near_node = xx.iter().position(|&p| (p - x).abs() < 10.0 * EPS);
    g.class(if xx.contains(&x) { "at a node" } else if near_node.is_some() { "within 1e-15 of a node" } else { "between nodes" });
    // magnitudes for the tolerances
    let card = cardinal(&xx, x);
    let leb: f64 = card.iter().map(|v| v.abs()).sum();
    let e = EPS * (8.0 * nn as f64 + 32.0);
    let nf = (nn + 1) as f64;
    let shift = 10.0 * EPS * csum; // nodes closer than this are identified with x
    let t0 = e * leb * csum + shift * nf.powi(2);
    // values
    let v = must("eval", "eval", l.interp.eval(x, &uu))?;
    near("eval", "interpolated value", v, want[0], t0)?;
    for j in 0..=nn {
        let p = must("psi", "psi", l.interp.psi(j, x))?;
        near("psi", &format!("psi {}", j), p, card[j], e * (leb + card[j].abs()) + 10.0 * EPS * leb * nf.powi(2) * if l.grid == InterpGrid::Uniform { 4f64.powf(nf / 2.0) } else { 1.0 })?;
    }
    // derivatives
    let d1 = must("eval_deriv1", "eval_deriv1", l.interp.eval_deriv1(x, &uu))?;
    let d2 = must("eval_deriv2", "eval_deriv2", l.interp.eval_deriv2(x, &uu))?;
    let (t1, t2);
    if let Some(k) = near_node {
        let lam = |j: usize| -> f64 { (0..=nn).filter(|&m| m != j).map(|m| 1.0 / (xx[j] - xx[m])).product() };
        let lk = lam(k);
        let row: Vec<f64> = (0..=nn).map(|j| if j == k { 0.0 } else { (lam(j) / lk / (xx[k] - xx[j])).abs() }).collect();
        let rsum: f64 = row.iter().sum();
        t1 = e * rsum * csum * 2.0 + shift * nf.powi(4);
        t2 = 4.0 * e * (0..=nn).map(|j| if j == k { 0.0 } else { row[j] * (rsum + 1.0 / (xx[k] - xx[j]).abs()) }).sum::<f64>() * csum + shift * nf.powi(6);
    } else {
        let r1: f64 = (0..=nn).map(|j| card[j].abs() / (x - xx[j]).abs()).sum();
        let r2: f64 = (0..=nn).map(|j| card[j].abs() / (x - xx[j]).powi(2)).sum();
        t1 = (e * (leb + 1.0) * csum + t0) * r1;
        t2 = 2.0 * (r1 * (t1 + e * want[1].abs()) + r2 * (t0 + 2.0 * e * csum * leb));
    }
    near("eval_deriv1", "first derivative", d1, want[1], t1 + e * csum * nf.powi(2))?;
    near("eval_deriv2", "second derivative", d2, want[2], t2 + e * csum * nf.powi(4))?;
    // wrong arguments
    let y = 1.0 + g.plog(-12.0, 2.0);
    let y = if g.bool() { y } else { -y };
    let mut bad = u.clone();
    if g.bool() {
        bad.pop();
    } else {
        bad.push(0.0);
    }
    let bad = Vector::from(&bad);
    must_err("range", "eval outside the range", l.interp.eval(y, &uu))?;
    must_err("range", "eval_deriv1 outside the range", l.interp.eval_deriv1(y, &uu))?;
    must_err("range", "eval_deriv2 outside the range", l.interp.eval_deriv2(y, &uu))?;
    must_err("range", "psi outside the range", l.interp.psi(0, y))?;
    must_err("range", "psi with a wrong index", l.interp.psi(nn + 1, x))?;
    must_err("range", "eval with wrong data", l.interp.eval(x, &bad))?;
    must_err("range", "eval_deriv1 with wrong data", l.interp.eval_deriv1(x, &bad))?;
    must_err("range", "eval_deriv2 with wrong data", l.interp.eval_deriv2(x, &bad))
}

fn lagrange_matrices(g: &mut G) -> R {
    let mut l = lagrange(g)?;
    let xx = l.interp.get_points().as_data().clone();
    let nn = l.nn;
    let nf = (nn + 1) as f64;
    if nn > 1 {
        g.hit();
    }
    must_err("get_dd", "D1 before it is computed", l.interp.get_dd1())?;
    must_err("get_dd", "D2 before it is computed", l.interp.get_dd2())?;
    if g.bool() {
        l.interp.calc_dd1_matrix();
        must("get_dd", "get_dd1", l.interp.get_dd1())?;
        must_err("get_dd", "D2 before it is computed", l.interp.get_dd2())?;
    }
    l.interp.calc_dd2_matrix();
    if g.bool() {
        l.interp.calc_dd1_matrix();
        l.interp.calc_dd2_matrix();
    }
    let c = coefficients(g, nn);
    let csum: f64 = c.iter().map(|v| v.abs()).sum();
    g.show("coefficients", &c);
    let d1 = must("get_dd", "get_dd1", l.interp.get_dd1())?;
    let d2 = must("get_dd", "get_dd2", l.interp.get_dd2())?;
    ensure!(d1.dims() == (nn + 1, nn + 1) && d2.dims() == (nn + 1, nn + 1), "get_dd", "wrong size");
    let u: Vec<f64> = xx.iter().map(|&x| series(&c, x)[0]).collect();
    let e = EPS * (8.0 * nf + 32.0);
    // definition of the weights (up to a common factor)
    let lam = l.interp.get_lambda();
    let w: Vec<f64> = (0..=nn).map(|j| (0..=nn).filter(|&m| m != j).map(|m| 1.0 / (xx[j] - xx[m])).product()).collect();
    let ratio = w[0] / lam[0];
    for j in 0..=nn {
        near("lambda", &format!("weight {}", j), lam[j] * ratio, w[j], 4.0 * e * w[j].abs())?;
    }
    if l.par.no_eta_normalization {
        near("lambda", "weight scale", ratio, 1.0, 4.0 * e)?;
    }
    for k in 0..=nn {
        let want = series(&c, xx[k]);
        let mut s1 = 0.0;
        let mut s2 = 0.0;
        let mut row = 0.0;
        for j in 0..=nn {
            s1 += d1.get(k, j) * u[j];
            s2 += d2.get(k, j) * u[j];
            if j != k {
                let v = w[j] / w[k] / (xx[k] - xx[j]);
                near("dd1", &format!("D1[{},{}]", k, j), d1.get(k, j), v, 4.0 * e * v.abs())?;
                row += v.abs();
            }
        }
        let row2: f64 = (0..=nn).map(|j| if j == k { 0.0 } else { d1.get(k, j).abs() * (row + 1.0 / (xx[k] - xx[j]).abs()) }).sum();
        near("dd1", &format!("(D1 u)[{}]", k), s1, want[1], 4.0 * e * row * csum + e * csum * nf.powi(2))?;
        near("dd2", &format!("(D2 u)[{}]", k), s2, want[2], 8.0 * e * row2 * csum + e * csum * nf.powi(4))?;
    }
    Ok(())
}

fn estimates(g: &mut G) -> R {
    let l = lagrange(g)?;
    let xx = l.interp.get_points().as_data().clone();
    let (a, b) = (g.uni(-3.0, 3.0), g.uni(0.5, 4.0));
    g.show("a,b", &(a, b));
    g.hit();
    let f = |x: f64| (a * x).exp() * (b * x).sin();
    let f1 = |x: f64| (a * x).exp() * (a * (b * x).sin() + b * (b * x).cos());
    let f2 = |x: f64| (a * x).exp() * ((a * a - b * b) * (b * x).sin() + 2.0 * a * b * (b * x).cos());
    let u = Vector::from(&xx.iter().map(|&x| f(x)).collect::<Vec<_>>());
    let n = l.par.error_estimate_nstation;
    let mut worst = [0.0f64; 3];
    let excl = g.bool();
    for p in 0..n {
        let x = if p == n - 1 { 1.0 } else { -1.0 + p as f64 * (2.0 / (n - 1) as f64) };
        worst[0] = worst[0].max((l.interp.eval(x, &u).unwrap() - f(x)).abs());
        if !(excl && (p == 0 || p == n - 1)) {
            worst[1] = worst[1].max((l.interp.eval_deriv1(x, &u).unwrap() - f1(x)).abs());
            worst[2] = worst[2].max((l.interp.eval_deriv2(x, &u).unwrap() - f2(x)).abs());
        }
    }
    let mut calls = 0;
    let e0 = must("estimate_max_error", "estimate_max_error", l.interp.estimate_max_error(&mut calls, |x, c: &mut usize| {
        *c += 1;
        Ok(f(x))
    }))?;
    near("estimate_max_error", "error estimate", e0, worst[0], 1e-9 * (1.0 + worst[0]))?;
    let (ef, eg, eh) = must("estimate_max_error_all", "estimate_max_error_all", l.interp.estimate_max_error_all(excl, &mut 0, |x, _: &mut usize| Ok(f(x)), |x, _| Ok(f1(x)), |x, _| Ok(f2(x))))?;
    near("estimate_max_error_all", "error of f", ef, worst[0], 1e-9 * (1.0 + worst[0]))?;
    near("estimate_max_error_all", "error of f'", eg, worst[1], 1e-6 * (1.0 + worst[1]))?;
    near("estimate_max_error_all", "error of f''", eh, worst[2], 1e-4 * (1.0 + worst[2]))?;
    // Lebesgue constant
    let n = l.par.lebesgue_estimate_nstation;
    let mut leb = 0.0f64;
    for p in 0..n {
        let x = -1.0 + 2.0 * p as f64 / (n - 1) as f64;
        leb = leb.max(cardinal(&xx, x).iter().map(|v| v.abs()).sum());
    }
    near("lebesgue", "Lebesgue constant", l.interp.estimate_lebesgue_constant(), leb, 1e-9 * leb)?;
    // invalid parameters
    let mut par = l.par;
    if g.bool() {
        par.error_estimate_nstation = g.us(0, 1);
    } else {
        par.lebesgue_estimate_nstation = g.us(0, 1);
    }
    must_err("new", "wrong number of stations", InterpLagrange::new(3, Some(par)))?;
    must_err("new", "degree zero", InterpLagrange::new(0, None))?;
    must_err("new", "degree 2049", InterpLagrange::new(2049, None))
}

fn interval(g: &mut G) -> (f64, f64) {
    let a = match g.draw(3) {
        0 => g.int(-5, 5) as f64,
        1 => g.flog(-2.0, 3.0),
        _ => g.uni(-3.0, 3.0),
    };
    let w = match g.draw(3) {
        0 => g.int(1, 6) as f64,
        1 => g.plog(-2.0, 3.0),
        _ => g.uni(0.2, 5.0),
    };
    (a, a + w)
}

fn to_z(xa: f64, xb: f64, x: f64) -> f64 {
    ((x - xa) - (xb - x)) / (xb - xa)
}

fn chebyshev_values(g: &mut G) -> R {
    let (xa, xb) = interval(g);
    let nn = if g.chance(1, 4) { g.us(0, 3) } else { g.us(0, 50) };
    let spare = g.us(0, 5);
    let c = coefficients(g, nn);
    g.show("range", &(xa, xb));
    g.show("coefficients", &c);
    if nn > 1 && c[nn] != 0.0 {
        g.hit();
    }
    let csum: f64 = c.iter().map(|v| v.abs()).sum();
    let nf = (nn + 1) as f64;
    let cond = 1.0 + (xa.abs() + xb.abs()) / (xb - xa);
    let tol = EPS * csum * (8.0 * nf * nf * cond + 64.0);
    let f = |x: f64| series(&c, to_z(xa, xb, x).clamp(-1.0, 1.0))[0];
    let mut interp = must("new", "InterpChebyshev::new", InterpChebyshev::new(nn + spare, xa, xb))?;
    // any history of previous data must not matter
    match g.draw(5) {
        0 => {
            let m = g.us(0, nn + spare);
            must("history", "set_function", interp.set_function(m, &mut 0, |x, _: &mut usize| Ok(1.0 + x)))?;
        }
        1 => {
            let r = interp.set_function(nn.max(1), &mut 0, |_, _: &mut usize| Err("stop"));
            must_err("history", "failing function", r)?;
            ensure!(!interp.is_ready(), "ready", "ready after a failure");
        }
        _ => {
            ensure!(!interp.is_ready(), "ready", "ready before the data is set");
            must_err("ready", "eval before the data is set", interp.eval(xa))?;
            must_err("ready", "eval_using_trig before the data is set", interp.eval_using_trig(xa))?;
            must_err("ready", "get_xy_data before the data is set", interp.get_xy_data())?;
        }
    }
    let points: Vec<f64> = (0..=nn).map(|j| if nn == 0 { 0.0 } else { -f64::cos(j as f64 * std::f64::consts::PI / nn as f64) }).map(|z| (xb + xa + (xb - xa) * z) / 2.0).collect();
    let data: Vec<f64> = points.iter().map(|&x| f(x)).collect();
    if g.bool() {
        g.class("set_function");
        let mut calls = 0;
        must("set_function", "set_function", interp.set_function(nn, &mut calls, |x, n: &mut usize| {
            *n += 1;
            Ok(f(x))
        }))?;
        ensure!(calls == nn + 1, "set_function", "{} evaluations for degree {}", calls, nn);
    } else {
        g.class("set_data");
        must("set_data", "set_data", interp.set_data(&data))?;
    }
    ensure!(interp.is_ready() && interp.get_degree() == nn && interp.get_range() == (xa, xb, xb - xa), "getters", "ready, degree or range wrong");
    if nn > 0 {
        for k in 0..=nn {
            near("coefficients", &format!("a[{}]", k), interp.get_coefficients()[k], c[k], tol)?;
        }
    }
    for _ in 0..3 {
        let x = match g.draw(4) {
            0 => *g.pick(&[xa, xb]),
            1 => points[g.us(0, nn)],
            _ => g.uni(xa, xb),
        };
        let v = must("eval", "eval", interp.eval(x))?;
        near("eval", &format!("value at {:e}", x), v, f(x), tol)?;
        let v = must("eval_using_trig", "eval_using_trig", interp.eval_using_trig(x))?;
        near("eval_using_trig", &format!("value at {:e}", x), v, f(x), tol)?;
    }
    let (x, y) = must("get_xy_data", "get_xy_data", interp.get_xy_data())?;
    ensure!(x.dim() == nn + 1 && y.dim() == nn + 1, "get_xy_data", "wrong sizes");
    for i in 0..=nn {
        near("get_xy_data", &format!("x[{}]", i), x[i], points[i], 4.0 * EPS * (xa.abs() + xb.abs() + (xb - xa)))?;
        near("get_xy_data", &format!("y[{}]", i), y[i], data[i], tol)?;
    }
    let n = g.us(2, 30);
    let shift = g.uni(-1.0, 1.0);
    let err = must("estimate_max_error", "estimate_max_error", interp.estimate_max_error(n, &mut 0, |x, _: &mut usize| Ok(f(x) + shift)))?;
    near("estimate_max_error", "max error", err, shift.abs(), tol + 4.0 * EPS * (shift.abs() + csum))?;
    // rejected input
    must_err("new", "empty range", InterpChebyshev::new(4, xa, xa))?;
    must_err("new", "reversed range", InterpChebyshev::new(4, xb, xa))?;
    must_err("set_data", "no data", interp.set_data(&[]))?;
    must_err("set_data", "too much data", interp.set_data(&vec![0.0; nn + spare + 4]))?;
    must_err("set_function", "degree too high", interp.set_function(nn + spare + 3, &mut 0, |_, _: &mut usize| Ok(0.0)))?;
    // the rejected calls change nothing
    let v = must("eval", "eval after rejected calls", interp.eval(xa))?;
    near("eval", "value after rejected calls", v, f(xa), tol)
}

fn gen_data(g: &mut G) -> R {
    let (xa, xb) = interval(g);
    let np = g.us(2, 30);
    let mut x = vec![xa];
    let cuts: Vec<f64> = (0..np - 2).map(|_| g.unit()).collect();
    let mut cuts: Vec<f64> = cuts.into_iter().map(|t| xa + t * (xb - xa)).filter(|&t| t > xa && t < xb).collect();
    cuts.sort_by(|a, b| a.partial_cmp(b).unwrap());
    cuts.dedup();
    x.extend(cuts);
    x.push(xb);
    let np = x.len();
    let y = g.vec_f(np, -3.0, 3.0);
    g.show("x", &x);
    g.show("y", &y);
    if np > 3 {
        g.hit();
    }
    let mut interp = must("new", "InterpChebyshev::new", InterpChebyshev::new(np - 1, xa, xb))?;
    must("set_gen_data", "set_gen_data", interp.set_gen_data(&x, &y))?;
    ensure!(interp.get_degree() == np - 1, "set_gen_data", "degree {}", interp.get_degree());
    let (xc, yc) = must("get_xy_data", "get_xy_data", interp.get_xy_data())?;
    for i in 0..np {
        let t = xc[i];
        // piecewise linear interpolation; slopes bound the effect of round-off in t
        let k = (1..np).find(|&k| t <= x[k]).unwrap_or(np - 1);
        let slope = (y[k] - y[k - 1]) / (x[k] - x[k - 1]);
        let want = y[k - 1] + slope * (t - x[k - 1]);
        let mut smax = slope.abs();
        if k > 1 {
            smax = smax.max(((y[k - 1] - y[k - 2]) / (x[k - 1] - x[k - 2])).abs());
        }
        if k + 1 < np {
            smax = smax.max(((y[k + 1] - y[k]) / (x[k + 1] - x[k])).abs());
        }
        let span = xa.abs() + xb.abs() + (xb - xa);
        near("set_gen_data", &format!("value at grid point {}", i), yc[i], want, 8.0 * EPS * (3.0 + smax * span))?;
    }
    must_err("set_gen_data", "different lengths", interp.set_gen_data(&x, &y[..np - 1]))?;
    must_err("set_gen_data", "no data", interp.set_gen_data(&[], &[]))?;
    let mut bad = x.clone();
    let at = if g.bool() { 0 } else { np - 1 };
    bad[at] += if at == 0 { 1e-3 * (xb - xa).min(1.0) * if np > 2 { 0.0 } else { 1.0 } - 1e-6 } else { 1e-3 };
    must_err("set_gen_data", "points not at the limits", interp.set_gen_data(&bad, &y))
}

/// the documented stopping rule: the first degree N whose interpolants of degrees N+1 and N+2 have trailing
/// coefficients below the tolerance (computed here independently)
fn adaptive(g: &mut G) -> R {
    let (xa, xb) = interval(g);
    let kind = g.draw(4);
    let tol = g.plog(-13.0, -2.0);
    let nn_max = g.us(1, 60);
    let (a, b) = (g.uni(-4.0, 4.0), g.uni(0.2, 6.0));
    let deg = g.us(0, 12);
    let c = coefficients(g, deg);
    g.show("range", &(xa, xb));
    g.show("tol,nn_max,kind,a,b", &(tol, nn_max, kind, a, b));
    let f = |x: f64| -> f64 {
        let z = to_z(xa, xb, x);
        match kind {
            0 => (a * z).exp(),
            1 => 1.0 / (z - 1.0 - b),
            2 => (b * z + a).sin(),
            _ => series(&c, z.clamp(-1.0, 1.0))[0],
        }
    };
    let scale = if kind == 3 { c.iter().map(|v| v.abs()).sum::<f64>() } else if kind == 0 { a.abs().exp() } else { 1.0 + 1.0 / b };
    // trailing coefficient of the interpolant of degree n
    let trail = |n: usize| -> f64 {
        let mut s = 0.0;
        for k in 0..=n {
            let z = f64::cos(std::f64::consts::PI * k as f64 / n as f64);
            let q = if k == 0 || k == n { 2.0 } else { 1.0 };
            let sg = if k % 2 == 0 { 1.0 } else { -1.0 };
            s += f((xb + xa + (xb - xa) * z) / 2.0) * sg / q;
        }
        s / n as f64
    };
    let t: Vec<f64> = (1..=nn_max + 2).map(trail).collect();
    // values too close to the tolerance to decide
    let noise = 64.0 * EPS * scale * (1.0 + (xa.abs() + xb.abs()) / (xb - xa));
    let (mut expect, mut unclear) = (None, false);
    for n in 2..=nn_max + 2 {
        let m = t[n - 2].abs().max(t[n - 1].abs());
        if (m - tol).abs() < noise {
            unclear = true;
            break;
        }
        if m < tol {
            expect = Some(n - 2);
            break;
        }
    }
    if unclear {
        discard!();
    }
    g.hit();
    let mut interp = must("new", "InterpChebyshev::new", InterpChebyshev::new(nn_max, xa, xb))?;
    let r = interp.adapt_function(tol, &mut 0, |x, _: &mut usize| Ok(f(x)));
    match expect {
        None => {
            g.class("not converged");
            must_err("adapt_function", "adapt_function without convergence", r)?;
            ensure!(!interp.is_ready(), "adapt_function", "ready although the adaption failed");
        }
        Some(n) => {
            g.class("converged");
            must("adapt_function", "adapt_function", r)?;
            ensure!(interp.get_degree() == n, "adapt_function", "degree {} instead of {}", interp.get_degree(), n);
            // exact interpolation at the grid points, and accuracy for geometrically decaying coefficients
            let (x, y) = must("get_xy_data", "get_xy_data", interp.get_xy_data())?;
            for i in 0..x.dim() {
                near("adapt_function", &format!("datum {}", i), y[i], f(x[i]), noise * 4.0)?;
            }
            let monotone = kind == 0 || kind == 1;
            if monotone && n > 0 {
                for _ in 0..3 {
                    let x = g.uni(xa, xb);
                    let v = must("eval", "eval", interp.eval(x))?;
                    // remaining coefficients decay: bounded by a geometric sum
                    let rho = if kind == 1 { let q = 1.0 + b; q + (q * q - 1.0).sqrt() } else { 1.5 };
                    let bound = 4.0 * tol * rho * rho / (rho - 1.0) + 20.0 * noise * (n as f64 + 1.0);
                    let bound = if kind == 0 { bound * 10.0 } else { bound };
                    near("adapt_function", &format!("value at {:e}", x), v, f(x), bound)?;
                }
            }
            // the same from data
            if n > 0 {
                let mut other = must("new", "InterpChebyshev::new", InterpChebyshev::new(nn_max, xa, xb))?;
                let fine: Vec<f64> = {
                    let m = nn_max;
                    (0..=m).map(|j| -f64::cos(j as f64 * std::f64::consts::PI / m as f64)).map(|z| f((xb + xa + (xb - xa) * z) / 2.0)).collect()
                };
                if kind != 2 && nn_max >= n + 2 && tol > 1e3 * noise {
                    if other.adapt_data(tol, &fine).is_ok() && kind == 3 && nn_max >= deg {
                        ensure!(other.get_degree() == n, "adapt_data", "degree {} instead of {}", other.get_degree(), n);
                    }
                }
            }
        }
    }
    must_err("adapt_data", "no data", interp.adapt_data(tol, &[]))?;
    must_err("adapt_data", "too much data", interp.adapt_data(tol, &vec![0.0; nn_max + 4]))
}

pub fn property() -> Property {
    Property {
        id: "C07",
        assumptions: &[
            "polynomials are built as random Chebyshev series evaluated by recurrence; tolerances are round-off bounds of the documented barycentric and Clenshaw formulas (Lebesgue sums, distances to nodes)",
            "degrees up to 40 (Chebyshev grids), 14 (uniform grid), 50 (Chebyshev series)",
            "adaptive construction is compared with its documented stopping rule; cases within round-off of the tolerance are discarded",
        ],
        laws: vec![
            Law { name: "lagrange_values", quick: 150000, rule: "random degree, grid, weights option, polynomial and station (nodes, ends, near nodes); non-trivial: degree > 1 and full degree polynomial", f: lagrange_values },
            Law { name: "lagrange_matrices", quick: 60000, rule: "differentiation matrices and weights; non-trivial: degree > 1", f: lagrange_matrices },
            Law { name: "estimates", quick: 30000, rule: "error estimates and Lebesgue constant against direct maxima; all cases non-trivial", f: estimates },
            Law { name: "chebyshev_values", quick: 200000, rule: "random series, range, previous history; non-trivial: degree > 1 and full degree series", f: chebyshev_values },
            Law { name: "gen_data", quick: 150000, rule: "random ordered data sets; non-trivial: more than 3 points", f: gen_data },
            Law { name: "adaptive", quick: 100000, rule: "exponential, rational, sine and polynomial functions, random tolerance and maximum degree; all cases non-trivial", f: adaptive },
        ],
    }
}
