use russell_lab::*;
use vp_engine::*;

const EPS: f64 = f64::EPSILON;

fn poly(c: &[f64], x: f64) -> f64 {
    c.iter().rev().fold(0.0, |s, &a| s * x + a)
}

// ---------------------------------------------------------------------------------------------- quadrature

fn gauss_exact(g: &mut G) -> R {
    let n_gauss = *g.pick(&[6usize, 8, 10, 12, 14]);
    let deg = g.us(0, 2 * n_gauss - 1);
    // polynomial in the normalized coordinate, as a Chebyshev sum
    let c: Vec<f64> = (0..=deg).map(|_| g.uni(-1.0, 1.0)).collect();
    let a = g.uni(-3.0, 3.0);
    let w = g.uni(0.5, 4.0);
    let b = if g.bool() { a + w } else { a - w };
    g.show("n_gauss,a,b", &(n_gauss, a, b));
    g.show("chebyshev coefficients", &c);
    if deg > n_gauss {
        g.hit();
    }
    let f = |x: f64| -> f64 {
        let z = ((x - a) - (b - x)) / (b - a);
        let (mut t0, mut t1) = (1.0, z);
        let mut s = c[0];
        for k in 1..=deg {
            s += c[k] * t1;
            let t2 = 2.0 * z * t1 - t0;
            t0 = t1;
            t1 = t2;
        }
        s
    };
    // the integral of T_k over [-1,1] is 2/(1-k^2) for even k
    let exact: f64 = (0..=deg).step_by(2).map(|k| c[k] * 2.0 / (1.0 - (k * k) as f64)).sum::<f64>() * (b - a) / 2.0;
    let mut q = Quadrature::new();
    q.n_gauss = n_gauss;
    q.tolerance = 1e-6;
    q.set_enable_stats(true);
    let mut calls = 0;
    let v = must("integrate", "integrate", q.integrate(a, b, &mut calls, |x, n: &mut usize| {
        *n += 1;
        Ok(f(x))
    }))?;
    let csum: f64 = c.iter().map(|v| v.abs()).sum();
    near("integrate", "integral of a polynomial within the rule's degree", v, exact, 200.0 * EPS * csum * w * (1.0 + deg as f64))?;
    let st = q.get_stats().unwrap();
    ensure!(st.get_n_function() == calls, "stats", "{} evaluations counted, {} made", st.get_n_function(), calls);
    ensure!(calls == n_gauss * (1 + 2 * st.get_n_iterations()), "stats", "{} iterations, {} calls", st.get_n_iterations(), calls);
    Ok(())
}

fn quadrature(g: &mut G) -> R {
    let kind = g.draw(6);
    let n_gauss = *g.pick(&[6usize, 8, 10, 12, 14]);
    let tol = g.plog(-13.5, -6.0);
    let a0 = g.uni(-3.0, 3.0);
    let w = g.plog(-1.0, 1.0);
    let (a, b) = if g.bool() { (a0, a0 + w) } else { (a0 + w, a0) };
    let (k, m, s) = (g.uni(-3.0, 3.0) / w, g.uni(0.1, 8.0) / w, g.uni(0.2, 3.0));
    let ctr = a0 + w * g.uni(-0.2, 1.2);
    let h = w * g.uni(0.1, 1.0);
    g.show("n_gauss,tol", &(n_gauss, tol));
    g.show("a,b", &(a, b));
    g.show("kind,k,m,s,ctr,h", &(kind, k, m, s, ctr, h));
    let f = |x: f64| -> f64 {
        match kind {
            0 => (k * (x - a0)).exp() * (m * (x - ctr)).sin() * s,
            1 => s * h / ((x - ctr) * (x - ctr) + h * h),
            2 => s * (-(x - ctr) * (x - ctr) / (h * h)).exp() * (x - ctr) / h,
            3 => s * (x - a0 + h).ln(),
            4 => s * (x - a0).sqrt(),
            _ => s * (1.0 + ((x - ctr) / h).tanh()),
        }
    };
    let anti = |x: f64| -> f64 {
        match kind {
            0 => {
                let (e, ph) = ((k * (x - a0)).exp(), m * (x - ctr));
                s * e * (k * ph.sin() - m * ph.cos()) / (k * k + m * m)
            }
            1 => s * ((x - ctr) / h).atan(),
            2 => -0.5 * s * h * (-(x - ctr) * (x - ctr) / (h * h)).exp(),
            3 => s * ((x - a0 + h) * (x - a0 + h).ln() - (x - a0)),
            4 => s * (x - a0).powf(1.5) / 1.5,
            _ => {
                let t = ((x - ctr) / h).abs();
                // ln cosh t
                s * (x + h * (t + (-2.0 * t).exp().ln_1p() - std::f64::consts::LN_2))
            }
        }
    };
    let exact = anti(b) - anti(a);
    let fmax = (0..=64).map(|i| f(a0 + w * i as f64 / 64.0).abs()).fold(0.0, f64::max);
    let area = (0..64).map(|i| f(a0 + w * (i as f64 + 0.5) / 64.0).abs()).sum::<f64>() * w / 64.0;
    let mut q = Quadrature::new();
    q.n_gauss = n_gauss;
    q.tolerance = tol;
    if g.chance(1, 4) {
        q.n_iteration_max = g.us(2, 40);
    }
    let stats = g.bool();
    q.set_enable_stats(stats);
    if g.chance(1, 4) {
        // an earlier integral must not matter
        let _ = q.integrate(0.0, 1.0, &mut 0, |x, _: &mut usize| Ok((x - 0.3).abs()));
    }
    let mut calls = 0;
    let mut inside = true;
    let r = q.integrate(a, b, &mut calls, |x, n: &mut usize| {
        *n += 1;
        inside = inside && x > a0 && x < a0 + w;
        Ok(f(x))
    });
    ensure!(inside, "range", "the function was evaluated outside the range");
    if stats {
        let st = must("stats", "get_stats", q.get_stats())?;
        ensure!(st.get_n_function() == calls, "stats", "{} evaluations counted, {} made", st.get_n_function(), calls);
        ensure!(calls == n_gauss * (1 + 2 * st.get_n_iterations()), "stats", "{} iterations, {} calls", st.get_n_iterations(), calls);
        ensure!(st.get_n_iterations() <= q.n_iteration_max, "stats", "{} iterations", st.get_n_iterations());
    } else {
        must_err("stats", "get_stats while disabled", q.get_stats())?;
    }
    match r {
        Ok(v) => {
            g.class("converged");
            g.hit();
            // the square root is singular at one end: the estimate is less sharp there
            let factor = if kind == 4 { 1000.0 } else { 100.0 };
            near("integrate", "integral", v, exact, factor * tol * area + 1e3 * EPS * (fmax * w + anti(a).abs() + anti(b).abs()))?;
        }
        Err(e) => {
            g.class("error");
            ensure!(e.contains("converge") || e.contains("tolerance"), "integrate", "unexpected error {}", e);
            // smooth integrands and moderate tolerances always work with the default settings
            ensure!(q.n_iteration_max < 300 || tol < 1e-12 || kind == 4, "integrate", "failed on a smooth function: {}", e);
        }
    }
    // reversing the bounds flips the sign, splitting adds up
    if let Ok(v) = r {
        let v2 = q.integrate(b, a, &mut 0, |x, _: &mut usize| Ok(f(x)));
        if let Ok(v2) = v2 {
            near("integrate", "reversed bounds", v2, -v, 200.0 * tol * area + 1e3 * EPS * fmax * w * if kind == 4 { 1e3 } else { 1.0 })?;
        }
    }
    // rejected input
    must_err("rejected", "equal bounds", q.integrate(a, a, &mut 0, |x, _: &mut usize| Ok(x)))?;
    let mut bad = Quadrature::new();
    match g.draw(3) {
        0 => bad.n_iteration_max = g.us(0, 1),
        1 => bad.tolerance = g.uni(-1.0, 9.9) * EPS,
        _ => bad.n_gauss = *g.pick(&[0, 1, 5, 7, 9, 11, 13, 15, 16, 20]),
    }
    must_err("rejected", "wrong parameters", bad.integrate(a, b, &mut 0, |x, _: &mut usize| Ok(x)))
}

/// close bounds: an answer of the right size or an error
fn quadrature_close(g: &mut G) -> R {
    let a = g.flog(-3.0, 6.0);
    let d = g.flog(-18.0, -1.0);
    let b = a + d * a.abs().max(1.0);
    g.show("a,b", &(a, b));
    g.hit();
    let mut q = Quadrature::new();
    let h = b - a;
    let r = q.integrate(a, b, &mut 0, |x, _: &mut usize| Ok(1.0 + 0.5 * ((x - a) / h).powi(2)));
    let exact = h * (1.0 + 0.5 / 3.0);
    match r {
        Ok(v) => near("close", "integral over a short range", v, exact, (1e-9 + 1e-14 * (a / h).abs()) * h.abs()),
        Err(e) => {
            ensure!(e.contains("bounds") || e.contains("tolerance") || e.contains("converge"), "close", "unexpected error {}", e);
            ensure!(h.abs() < 1e-5 * a.abs().max(1.0), "close", "bounds {} and {} rejected: {}", a, b, e);
            Ok(())
        }
    }
}

// ---------------------------------------------------------------------------------------------- roots

fn brent_root(g: &mut G) -> R {
    let kind = g.draw(9);
    let r = match g.draw(3) {
        0 => g.int(-4, 4) as f64,
        1 => g.flog(-6.0, 4.0),
        _ => g.uni(-3.0, 3.0),
    };
    let left = g.plog(-3.0, 1.5);
    let right = g.plog(-3.0, 1.5);
    let (lo, hi) = (r - left, r + right);
    if !(lo < r && r < hi) || hi - lo < 1e-12 {
        discard!();
    }
    let (xa, xb) = if g.bool() { (lo, hi) } else { (hi, lo) };
    let s = g.flog(-6.0, 6.0);
    let k = g.uni(0.1, 3.0);
    let p = g.us(1, 4) as f64 * 2.0 - 1.0;
    let qr = g.uni(lo, hi);
    g.show("kind,s,k,p", &(kind, s, k, p));
    g.show("xa,xb,root", &(xa, xb, r));
    let f = |x: f64| -> f64 {
        let d = x - r;
        s * match kind {
            0 => d,
            1 => d * (1.0 + k * (x - qr) * (x - qr)),
            2 => (k * d).exp_m1(),
            3 => (10.0 * k * d).atan(),
            4 => d * d.abs().powf(p - 1.0),
            5 => d.signum() * (0.1 + d.abs()) * if d == 0.0 { 0.0 } else { 1.0 },
            6 => d * (0.05 + (3.0 * k * x).sin().powi(2)),
            7 => d.cbrt(),
            _ => (k * d).sinh(),
        }
    };
    let mut solver = RootFinder::new();
    solver.brent_tolerance = if g.bool() { 1e-13 } else { g.plog(-15.0, -2.0) };
    if g.chance(1, 5) {
        solver.brent_max_iterations = g.us(0, 12);
    }
    let stats = g.bool();
    solver.set_enable_stats(stats);
    g.show("tolerance,max_iterations", &(solver.brent_tolerance, solver.brent_max_iterations));
    // an earlier search with the same object must not matter
    if g.chance(1, 3) {
        let m = g.uni(0.1, 0.9);
        let _ = solver.brent(0.0, 1.0, &mut 0, |x, _: &mut usize| Ok(x - m));
    }
    let mut calls = 0;
    let mut inside = true;
    if f(lo) * f(hi) == 0.0 || f(lo).is_infinite() || f(hi).is_infinite() || (f(lo) > 0.0) == (f(hi) > 0.0) {
        discard!();
    }
    let res = solver.brent(xa, xb, &mut calls, |x, n: &mut usize| {
        *n += 1;
        inside = inside && x >= lo && x <= hi;
        Ok(f(x))
    });
    ensure!(inside, "range", "the function was evaluated outside the bracket");
    if stats {
        let st = must("stats", "get_stats", solver.get_stats())?;
        ensure!(st.get_n_function() == calls, "stats", "{} evaluations counted, {} made", st.get_n_function(), calls);
    } else {
        must_err("stats", "get_stats while disabled", solver.get_stats())?;
    }
    match res {
        Ok(x) => {
            g.hit();
            g.class("converged");
            ensure!(x >= lo && x <= hi, "brent", "root {} outside the bracket", x);
            near("brent", "root", x, r, solver.brent_tolerance + 8.0 * EPS * r.abs() + 1e-300)?;
        }
        Err(e) => {
            g.class("not converged");
            ensure!(e.contains("converge"), "brent", "unexpected error {}", e);
            ensure!(calls == 2 + solver.brent_max_iterations, "brent", "gave up after {} calls", calls);
            let easy = matches!(kind, 0 | 2 | 3 | 8);
            ensure!(!(easy && solver.brent_max_iterations == 100), "brent", "failed on an easy function");
        }
    }
    // no sign change, equal ends, NaN
    let (u, v) = if g.bool() { (r + 0.1, r + 0.1 + right) } else { (r - 0.1, r - 0.1 - left) };
    must_err("bracket", "no sign change", solver.brent(u, v, &mut 0, |x, _: &mut usize| Ok((x - r) * s)))?;
    must_err("bracket", "no sign change", solver.brent(v, u, &mut 0, |x, _: &mut usize| Ok((x - r) * s)))?;
    must_err("bracket", "equal ends", solver.brent(u, u, &mut 0, |x, _: &mut usize| Ok(x - u)))?;
    must_err("bracket", "not-a-number", solver.brent(lo, hi, &mut 0, |x, _: &mut usize| Ok(if x == lo { f64::NAN } else { 1.0 })))
}

fn chebyshev_roots(g: &mut G) -> R {
    let nreal = g.us(0, 5);
    let npair = g.us(0, 2);
    let nout = g.us(0, 1);
    let deg = nreal + 2 * npair + nout;
    if deg == 0 {
        discard!();
    }
    // roots at distinct cells of the normalized range
    let cells = g.perm(9);
    let mut z: Vec<f64> = (0..nreal).map(|i| -1.0 + (2.0 * cells[i] as f64 + 0.5 + g.unit()) / 9.0).collect();
    if deg <= 2 && nreal > 0 && g.bool() {
        z[0] = *g.pick(&[-1.0, 1.0]);
    }
    z.sort_by(|a, b| a.partial_cmp(b).unwrap());
    for i in 1..z.len() {
        if z[i] - z[i - 1] < 0.05 {
            discard!();
        }
    }
    let pairs: Vec<(f64, f64)> = (0..npair).map(|_| (g.uni(-1.0, 1.0), g.uni(0.4, 1.5))).collect();
    let sg = *g.pick(&[-1.0, 1.0]);
    let out: Vec<f64> = (0..nout).map(|_| sg * g.uni(1.2, 3.0)).collect();
    let xa = g.uni(-3.0, 3.0);
    let dx = g.uni(0.5, 6.0);
    let xb = xa + dx;
    let s = g.flog(-1.0, 1.0);
    g.show("range", &(xa, xb));
    g.show("real roots, pairs, outside (normalized)", &(&z, &pairs, &out));
    let f = |x: f64| -> f64 {
        let t = ((x - xa) - (xb - x)) / dx;
        let mut v = s;
        for r in z.iter().chain(out.iter()) {
            v *= t - r;
        }
        for (a, b) in &pairs {
            v *= (t - a) * (t - a) + b * b;
        }
        v
    };
    if deg > 1 && nreal > 0 {
        g.hit();
    }
    let mut interp = must("interp", "InterpChebyshev::new", InterpChebyshev::new(deg, xa, xb))?;
    let solver = RootFinder::new();
    must_err("roots", "interpolant without data", solver.chebyshev(&interp))?;
    must("interp", "set_function", interp.set_function(deg, &mut 0, |x, _: &mut usize| Ok(f(x))))?;
    let mut roots = must("roots", "chebyshev", solver.chebyshev(&interp))?;
    ensure!(roots.len() == nreal, "roots", "{} roots instead of {}: {:?}", roots.len(), nreal, roots);
    let want: Vec<f64> = z.iter().map(|t| (xb + xa + dx * t) / 2.0).collect();
    for i in 0..nreal {
        ensure!(roots[i] >= xa && roots[i] <= xb, "roots", "root {} outside the range", roots[i]);
        near("roots", &format!("root {}", i), roots[i], want[i], 1e-7 * dx)?;
    }
    if nreal > 0 {
        // polishing from slightly wrong values
        for i in 0..nreal {
            let d = g.uni(-1e-4, 1e-4) * dx;
            roots[i] = (want[i] + d).clamp(xa, xb);
        }
        match solver.refine(&mut roots, xa, xb, &mut 0, |x, _: &mut usize| Ok(f(x))) {
            Ok(()) => {
                for i in 0..nreal {
                    let h = 1e-6 * dx;
                    let slope = ((f(want[i] + h) - f(want[i] - h)) / (2.0 * h)).abs();
                    near("refine", &format!("polished root {}", i), roots[i], want[i], 4e-13 / slope + 1e-11 * (1.0 + dx + xa.abs()))?;
                }
            }
            Err(e) => {
                g.class("refine did not converge");
                ensure!(e.contains("converge"), "refine", "unexpected error {}", e);
            }
        }
    }
    must_err("refine", "no roots", solver.refine(&mut [], xa, xb, &mut 0, |x, _: &mut usize| Ok(x)))?;
    // the trailing coefficient must not vanish
    must("interp", "new", InterpChebyshev::new(deg + 2, xa, xb)).and_then(|mut i| {
        must("interp", "set_function", i.set_function(deg + 2, &mut 0, |_, _: &mut usize| Ok(1.0)))?;
        must_err("roots", "vanishing trailing coefficient", solver.chebyshev(&i))
    })
}

fn cubic(g: &mut G) -> R {
    let kind = g.draw(4);
    let mut known: Option<Vec<f64>> = None;
    let lead = if g.bool() { *g.pick(&[1.0, 2.0, -1.0, 0.5]) } else { g.flog(-3.0, 3.0) };
    let (b, c, d) = match kind {
        0 => {
            g.class("integer roots");
            let mut r: Vec<f64> = (0..3).map(|_| g.int(-6, 6) as f64).collect();
            if g.chance(1, 3) {
                r[1] = r[0];
            }
            if g.chance(1, 3) {
                r[2] = r[0];
            }
            r.sort_by(|a, b| a.partial_cmp(b).unwrap());
            let co = (-(r[0] + r[1] + r[2]), r[0] * r[1] + r[0] * r[2] + r[1] * r[2], -r[0] * r[1] * r[2]);
            known = Some(r);
            co
        }
        1 => {
            g.class("separated roots");
            let r0 = g.uni(-5.0, 5.0);
            let r1 = r0 + g.uni(0.5, 3.0);
            let r2 = r1 + g.uni(0.5, 3.0);
            known = Some(vec![r0, r1, r2]);
            (-(r0 + r1 + r2), r0 * r1 + r0 * r2 + r1 * r2, -r0 * r1 * r2)
        }
        2 => {
            g.class("one real root");
            let r0 = g.uni(-5.0, 5.0);
            let (u, v) = (g.uni(-3.0, 3.0), g.uni(0.3, 3.0));
            known = Some(vec![r0]);
            let q = u * u + v * v;
            (-(r0 + 2.0 * u), q + 2.0 * u * r0, -r0 * q)
        }
        _ => {
            g.class("random coefficients");
            (g.flog(-3.0, 3.0), g.flog(-3.0, 3.0), g.flog(-3.0, 3.0))
        }
    };
    // roots of any size; powers of two keep the integer roots exact
    let mag = if g.bool() { 1.0 } else { 2f64.powi(g.int(-24, 24) as i32) };
    if let Some(k) = known.as_mut() {
        k.iter_mut().for_each(|x| *x *= mag);
    }
    let (b, c, d) = (b * lead * mag, c * lead * mag * mag, d * lead * mag * mag * mag);
    g.show("a,b,c,d", &(lead, b, c, d));
    g.show("known roots", &known);
    g.hit();
    let x = must("cubic", "solve_cubic", solve_cubic(lead, b, c, d))?;
    ensure!(x.len() == 1 || x.len() == 3, "cubic", "{} roots", x.len());
    for i in 1..x.len() {
        ensure!(x[i] >= x[i - 1], "cubic", "not sorted: {:?}", x);
    }
    // size of the coefficients as root scale
    let (p, q, r) = (b / lead, c / lead, d / lead);
    let s = p.abs().max(q.abs().sqrt()).max(r.abs().cbrt());
    for &v in &x {
        let res = v * v * v + p * v * v + q * v + r;
        ensure!(res.abs() <= 1e-13 * s.powi(3), "cubic", "residual {:e} at root {}", res, v);
    }
    if let Some(k) = known {
        if kind == 0 || x.len() == k.len() {
            ensure!(x.len() == k.len(), "cubic", "{} roots {:?} instead of {:?}", x.len(), x, k);
            for i in 0..k.len() {
                near("cubic", &format!("root {}", i), x[i], k[i], 1e-4 * s.max(1e-300) * if kind == 0 { 1.0 } else { 1e-4 })?;
            }
        } else {
            return fail("cubic", format!("{} roots {:?} instead of {:?}", x.len(), x, k));
        }
    }
    let tiny = g.uni(-0.99, 0.99) * 1e-12;
    must_err("cubic", "vanishing leading coefficient", solve_cubic(tiny, b, c, d))
}

// ---------------------------------------------------------------------------------------------- minimum

fn unimodal(kind: u64, m: f64, k: f64, c: f64, x: f64) -> f64 {
    let d = x - m;
    c + match kind {
        0 => k * d * d,
        1 => k * ((d).cosh() - 1.0),
        2 => k * d * d * (1.0 + d * d),
        3 => k * (d * d).ln_1p(),
        4 => k * (d.exp() - d - 1.0),
        _ => k * (2.0 * d).sin().powi(2) * 0.1 + k * d * d,
    }
}

fn brent_min(g: &mut G) -> R {
    let kind = g.draw(5);
    let m = if g.chance(1, 4) { g.int(-3, 3) as f64 } else { g.uni(-3.0, 3.0) };
    let left = g.plog(-2.0, 0.7);
    let right = g.plog(-2.0, 0.7);
    let (lo, hi) = (m - left, m + right);
    let (xa, xb) = if g.bool() { (lo, hi) } else { (hi, lo) };
    let k = g.plog(-2.0, 2.0);
    let c = if g.bool() { 0.0 } else { g.uni(-3.0, 3.0) };
    let mut solver = MinSolver::new();
    solver.tolerance = if g.bool() { 1e-10 } else { g.plog(-14.0, -2.0) };
    if g.chance(1, 5) {
        solver.n_iteration_max = g.us(2, 15);
    }
    let stats = g.bool();
    solver.set_enable_stats(stats);
    // an earlier search with the same object must not matter
    if g.chance(1, 3) {
        let _ = solver.brent(-1.0, 2.0, &mut 0, |x, _: &mut usize| Ok(x * x));
    }
    g.show("kind,m,k,c", &(kind, m, k, c));
    g.show("xa,xb,tolerance,n_iteration_max", &(xa, xb, solver.tolerance, solver.n_iteration_max));
    let mut calls = 0;
    let mut inside = true;
    let mut best = f64::MAX;
    let r = solver.brent(xa, xb, &mut calls, |x, n: &mut usize| {
        *n += 1;
        inside = inside && x >= lo && x <= hi;
        let v = unimodal(kind, m, k, c, x);
        best = best.min(v);
        Ok(v)
    });
    ensure!(inside, "range", "the function was evaluated outside the range");
    if stats {
        let st = must("stats", "get_stats", solver.get_stats())?;
        ensure!(st.get_n_function() == calls, "stats", "{} evaluations counted, {} made", st.get_n_function(), calls);
    }
    match r {
        Ok(x) => {
            g.hit();
            g.class("converged");
            let h = if kind == 4 || kind == 1 { 0.5 * k } else { k };
            let noise = 16.0 * (EPS * (c.abs() + if kind == 4 || kind == 1 { k } else { k * EPS }) / h).sqrt();
            near("brent_min", "minimizer", x, m, 4.0 * (EPS.sqrt() * (x.abs() + m.abs()) + solver.tolerance) + noise + 1e-12)?;
            ensure!(unimodal(kind, m, k, c, x) == best, "brent_min", "not the best value seen");
        }
        Err(e) => {
            g.class("not converged");
            ensure!(e.contains("converge"), "brent_min", "unexpected error {}", e);
            ensure!(calls == 1 + solver.n_iteration_max, "brent_min", "gave up after {} calls", calls);
            ensure!(solver.n_iteration_max < 100, "brent_min", "failed with the default number of iterations");
        }
    }
    must_err("rejected", "equal ends", solver.brent(xa, xa, &mut 0, |x, _: &mut usize| Ok(x)))?;
    let mut bad = MinSolver::new();
    if g.bool() {
        bad.n_iteration_max = g.us(0, 1);
    } else {
        bad.tolerance = g.uni(-1.0, 9.9) * EPS;
    }
    must_err("rejected", "wrong parameters", bad.brent(xa, xb, &mut 0, |x, _: &mut usize| Ok(x * x)))
}

fn bracketing(g: &mut G) -> R {
    let kind = g.draw(6);
    let m = g.uni(-20.0, 20.0);
    let guess = g.uni(-20.0, 20.0);
    let k = g.plog(-2.0, 2.0);
    let c = g.uni(-3.0, 3.0);
    let mut solver = MinBracketing::new();
    if g.bool() {
        solver.initial_step = g.plog(-3.0, 0.0);
        solver.expansion_factor = g.uni(1.2, 3.0);
    }
    if g.chance(1, 4) {
        solver.n_iteration_max = g.us(2, 10);
    }
    let stats = g.bool();
    solver.set_enable_stats(stats);
    // an earlier search with the same object must not matter
    if g.chance(1, 3) {
        let _ = solver.basic(0.3, &mut 0, |x, _: &mut usize| Ok(x * x));
    }
    g.show("kind,m,guess,k,c", &(kind, m, guess, k, c));
    g.show("step,factor,n_iteration_max", &(solver.initial_step, solver.expansion_factor, solver.n_iteration_max));
    let f = |x: f64| unimodal(kind, m, k, c, x);
    let mut calls = 0;
    let r = solver.basic(guess, &mut calls, |x, n: &mut usize| {
        *n += 1;
        Ok(f(x))
    });
    if stats {
        let st = must("stats", "get_stats", solver.get_stats())?;
        ensure!(st.get_n_function() == calls, "stats", "{} evaluations counted, {} made", st.get_n_function(), calls);
    }
    match r {
        Ok(b) => {
            g.hit();
            g.class("bracketed");
            ensure!(b.a < b.xo && b.xo < b.b, "bracketing", "points are not ordered: {:?}", b);
            ensure!(b.fa == f(b.a) && b.fb == f(b.b) && b.fxo == f(b.xo), "bracketing", "values do not belong to the points: {:?}", b);
            ensure!(b.fxo <= b.fa && b.fxo <= b.fb && (b.fxo < b.fa || b.fxo < b.fb), "bracketing", "no minimum inside: {:?}", b);
            if kind < 5 {
                ensure!(b.a <= m && m <= b.b, "bracketing", "the minimizer {} is not inside {:?}", m, b);
            }
        }
        Err(e) => {
            g.class("not bracketed");
            ensure!(e.contains("converge"), "bracketing", "unexpected error {}", e);
            ensure!(calls == 2 + solver.n_iteration_max, "bracketing", "gave up after {} calls", calls);
            ensure!(solver.n_iteration_max < 100, "bracketing", "failed with the default number of iterations");
        }
    }
    let mut bad = MinBracketing::new();
    bad.n_iteration_max = g.us(0, 1);
    must_err("rejected", "wrong parameters", bad.basic(guess, &mut 0, |x, _: &mut usize| Ok(x * x)))?;
    must_err("bracketing", "monotone function", solver.basic(guess, &mut 0, |x, _: &mut usize| Ok(-x)))
}

fn search(g: &mut G) -> R {
    let mut s = LineSearcher::new();
    if g.bool() {
        s.c1 = g.uni(0.01, 0.99);
        s.rho = g.uni(0.05, 0.95);
        s.min_alpha = g.plog(-6.0, -0.1);
        s.max_iterations = g.us(1, 30);
    }
    let x = g.uni(-3.0, 3.0);
    let p = g.flog(-2.0, 3.0);
    let m = g.uni(-3.0, 3.0);
    let k = g.plog(-1.0, 1.0);
    let slope = if g.chance(1, 5) { g.uni(-1.0, 1.0) } else { 2.0 * k * (x - m) * p };
    g.show("searcher", &s);
    g.show("x,p,m,k,slope", &(x, p, m, k, slope));
    let f = |x: f64| k * (x - m) * (x - m);
    let fx = f(x);
    let mut calls = 0;
    let r = s.search(x, p, fx, slope, &mut calls, |t, n: &mut usize| {
        *n += 1;
        Ok(f(t))
    });
    if slope >= 0.0 {
        g.class("not a descent direction");
        return must_err("search", "ascent direction", r);
    }
    g.hit();
    // the definition: first of the backtracked steps that satisfies the sufficient decrease
    let mut alpha = 1.0;
    let mut want = Err(());
    let mut evals = 0;
    for i in 0..s.max_iterations {
        evals += 1;
        if f(x + alpha * p) <= fx + s.c1 * alpha * slope {
            want = Ok((alpha, i + 1));
            break;
        }
        alpha *= s.rho;
        if alpha < s.min_alpha {
            break;
        }
    }
    ensure!(calls == evals, "search", "{} evaluations instead of {}", calls, evals);
    match (r, want) {
        (Ok(a), Ok(b)) => {
            g.class("accepted");
            near("search", "step size", a.0, b.0, 8.0 * EPS * b.0)?;
            ensure!(a.1 == b.1 && a.1 == calls, "search", "evaluations {} instead of {}", a.1, b.1);
        }
        (Err(_), Err(_)) => g.class("no acceptable step"),
        (a, b) => return fail("search", format!("result {:?} instead of {:?}", a, b)),
    }
    let d = LineSearcher::new();
    let r0 = d.search(x, p, fx, slope, &mut 0, |t, _: &mut usize| Ok(f(t)));
    let r1 = line_search(x, p, fx, slope, &mut 0, |t, _: &mut usize| Ok(f(t)));
    let r2 = line_search_with_stats(x, p, fx, slope, &mut 0, |t, _: &mut usize| Ok(f(t)));
    ensure!(r0 == r2 && r0.map(|v| v.0) == r1, "search", "the functions disagree: {:?} {:?} {:?}", r0, r1, r2);
    let mut bad = LineSearcher::new();
    match g.draw(5) {
        0 => bad.c1 = *g.pick(&[0.0, -0.1, 1.0, 2.0]),
        1 => bad.rho = *g.pick(&[0.0, -0.1, 1.0, 2.0]),
        2 => bad.min_alpha = *g.pick(&[0.0, -0.1]),
        3 => bad.min_alpha = *g.pick(&[1.0, 2.0]),
        _ => bad.max_iterations = 0,
    }
    must_err("rejected", "wrong parameters", bad.search(x, p, fx, slope, &mut 0, |t, _: &mut usize| Ok(f(t))))
}

// ---------------------------------------------------------------------------------------------- systems

struct Sys {
    n: usize,
    a: Vec<f64>,
    b: Vec<f64>,
    beta: f64,
    kind: u64,
}

impl Sys {
    fn make(g: &mut G, n: usize) -> Sys {
        let mut a = vec![0.0; n * n];
        for i in 0..n {
            for j in 0..n {
                a[i * n + j] = if i == j { n as f64 + g.uni(1.0, 4.0) } else { g.uni(-1.0, 1.0) };
            }
        }
        let b = g.vec_f(n, -4.0, 4.0);
        let kind = g.draw(4);
        let beta = g.uni(0.0, 1.0);
        g.show("n,kind,beta", &(n, kind, beta));
        g.show("A", &a);
        g.show("b", &b);
        Sys { n, a, b, beta, kind }
    }
    fn f(&self, r: &mut Vector, x: &Vector) {
        for i in 0..self.n {
            let mut s = -self.b[i];
            for j in 0..self.n {
                s += self.a[i * self.n + j] * x[j];
            }
            let nx = x[(i + 1) % self.n];
            s += self.beta
                * match self.kind {
                    0 => nx.sin(),
                    1 => x[i].powi(3) * 0.3,
                    2 => (x[i] * nx).cos(),
                    _ => 2.0 * x[i].abs().sqrt(),
                };
            r[i] = s;
        }
    }
    fn j(&self, jj: &mut Matrix, x: &Vector) {
        for i in 0..self.n {
            for j in 0..self.n {
                jj.set(i, j, self.a[i * self.n + j]);
            }
            let k = (i + 1) % self.n;
            let nx = x[k];
            match self.kind {
                0 => jj.add(i, k, self.beta * nx.cos()),
                1 => jj.add(i, i, self.beta * 0.9 * x[i] * x[i]),
                2 => {
                    let s = -self.beta * (x[i] * nx).sin();
                    jj.add(i, i, s * nx);
                    jj.add(i, k, s * x[i]);
                }
                _ => jj.add(i, i, self.beta * x[i].signum() / x[i].abs().max(1e-12).sqrt()),
            }
        }
    }
}

fn newton(g: &mut G) -> R {
    let n = g.us(1, 5);
    let sys = Sys::make(g, n);
    let mut x = Vector::from(&g.vec_f(n, -2.0, 2.0));
    let mut solver = must("new", "NewtonSolver::new", NewtonSolver::new(n))?;
    let tol = if g.bool() { 1e-10 } else { g.plog(-12.5, -1.0) };
    let max_it = if g.chance(1, 3) { g.us(1, 4) } else { 30 };
    let ls = g.bool();
    let alpha = if g.chance(1, 4) { g.uni(0.1, 1.0) } else { 1.0 };
    solver.set_tolerance(tol).set_max_iterations(max_it).set_use_line_search(ls).set_initial_alpha(alpha).set_enable_stats(true);
    if g.chance(1, 4) {
        solver.set_divergent_tol(g.uni(1.0, 3.0));
    }
    g.show("tol,max_it,line_search,alpha,x", &(tol, max_it, ls, alpha, x.as_data()));
    // a first solve with other data must not matter
    if g.chance(1, 4) {
        let mut y = Vector::filled(n, 0.5);
        let _ = solver.solve(&mut y, &mut 0, |r, x, _: &mut usize| Ok(for i in 0..r.dim() { r[i] = x[i] * x[i] - 2.0 }), |j, x, _| {
            j.fill(0.0);
            Ok(for i in 0..x.dim() { j.set(i, i, 2.0 * x[i]) })
        });
    }
    let mut calls = (0, 0);
    let r = solver.solve(
        &mut x,
        &mut calls,
        |r, x, c: &mut (usize, usize)| {
            c.0 += 1;
            sys.f(r, x);
            Ok(())
        },
        |j, x, c| {
            c.1 += 1;
            sys.j(j, x);
            Ok(())
        },
    );
    let st = must("stats", "get_stats", solver.get_stats())?;
    ensure!((st.get_n_function(), st.get_n_jacobian()) == calls, "stats", "counted {} and {}, made {:?}", st.get_n_function(), st.get_n_jacobian(), calls);
    ensure!(st.get_n_iterations() <= max_it, "stats", "{} iterations", st.get_n_iterations());
    let mut res = Vector::new(n);
    match r {
        Ok(()) => {
            g.hit();
            g.class("converged");
            sys.f(&mut res, &x);
            for i in 0..n {
                ensure!(res[i].abs() < tol, "newton", "residual {} = {:e} with tolerance {:e}", i, res[i], tol);
            }
        }
        Err(e) => {
            g.class("not converged");
            ensure!(max_it < 30 || sys.kind >= 2 || solver_is_odd(alpha, ls) || e.contains("diverge"), "newton", "failed on an easy system: {}", e);
        }
    }
    // rejected input
    let mut wrong = Vector::new(n + 1);
    let nop = |_: &mut Vector, _: &Vector, _: &mut usize| Ok(());
    let noj = |_: &mut Matrix, _: &Vector, _: &mut usize| Ok(());
    must_err("rejected", "wrong dimension", solver.solve(&mut wrong, &mut 0, nop, noj))?;
    must_err("rejected", "dimension zero", NewtonSolver::new(0))?;
    match g.draw(4) {
        0 => solver.set_max_iterations(0),
        1 => solver.set_tolerance(9.0 * EPS),
        2 => solver.set_divergent_tol(0.99),
        _ => solver.set_initial_alpha(*g.pick(&[0.0, -1.0])),
    };
    must_err("rejected", "wrong parameters", solver.solve(&mut x, &mut 0, nop, noj))
}

fn solver_is_odd(alpha: f64, ls: bool) -> bool {
    ls && alpha < 0.9
}

/// a solver must never report success with residuals that are not numbers, or on singular Jacobians
fn newton_bad(g: &mut G) -> R {
    let n = g.us(1, 4);
    let bad = g.us(0, n - 1);
    let from = g.us(1, 4);
    let kind = g.draw(3);
    let start = g.vec_f(n, -2.0, 2.0);
    g.show("n,bad,from,kind,start", &(n, bad, from, kind, &start));
    g.hit();
    let mut x = Vector::from(&start);
    let mut solver = must("new", "NewtonSolver::new", NewtonSolver::new(n))?;
    solver.set_use_line_search(g.bool());
    let mut calls = 0;
    let r = solver.solve(
        &mut x,
        &mut calls,
        |r, x, c: &mut usize| {
            *c += 1;
            for i in 0..n {
                r[i] = x[i] - 1.0;
            }
            if kind == 0 && *c >= from {
                r[bad] = f64::NAN;
            }
            if kind == 2 {
                r[bad] = 1.0 + x[bad] * x[bad];
            }
            Ok(())
        },
        |j, x, _| {
            j.fill(0.0);
            for i in 0..n {
                j.set(i, i, 1.0);
            }
            if kind == 1 {
                j.set(bad, bad, 0.0);
            }
            if kind == 2 {
                j.set(bad, bad, 2.0 * x[bad]);
            }
            Ok(())
        },
    );
    let solved = start.iter().all(|&v| v == 1.0);
    if kind == 0 && from > 2 {
        // finished before the fault
        return Ok(());
    }
    if solved && (kind == 1 || (kind == 0 && from > 1)) {
        return Ok(());
    }
    must_err("newton", "system without solution", r)
}

fn jacobian(g: &mut G) -> R {
    let n = g.us(1, 5);
    let mut sys = Sys::make(g, n);
    if sys.kind == 3 {
        sys.kind = 1;
    }
    let y = Vector::from(&g.vec_f(n, -2.0, 2.0));
    let x = g.uni(-2.0, 2.0);
    let alpha = g.uni(-3.0, 3.0);
    g.show("x,y,alpha", &(x, y.as_data(), alpha));
    if n > 1 {
        g.hit();
    }
    let jj = must("num_jacobian", "num_jacobian", num_jacobian(n, x, &y, alpha, &mut 0, |f, x, y, _: &mut usize| {
        sys.f(f, y);
        for i in 0..n {
            f[i] *= x;
        }
        Ok(())
    }))?;
    let mut want = Matrix::new(n, n);
    sys.j(&mut want, &y);
    for i in 0..n {
        for j in 0..n {
            near("num_jacobian", &format!("J[{},{}]", i, j), jj.get(i, j), alpha * x * want.get(i, j), 1e-8 * (1.0 + alpha.abs() * x.abs() * 20.0))?;
        }
    }
    Ok(())
}

fn derivatives(g: &mut G) -> R {
    let c = g.vec_f(7, -1.0, 1.0);
    let (s, w) = (g.uni(-1.0, 1.0), g.uni(0.1, 2.0));
    let x = g.uni(-2.0, 2.0);
    let x0 = x + g.uni(-1.0, 1.0);
    g.show("polynomial", &c);
    g.show("s,w,x,x0", &(s, w, x, x0));
    g.hit();
    let f = |x: f64| poly(&c, x - x0) + s * (w * x).sin();
    let d1: Vec<f64> = (1..7).map(|k| c[k] * k as f64).collect();
    let d2: Vec<f64> = (1..6).map(|k| d1[k] * k as f64).collect();
    let w1 = poly(&d1, x - x0) + s * w * (w * x).cos();
    let w2 = poly(&d2, x - x0) - s * w * w * (w * x).sin();
    let m = 8.0;
    let fun = |x: f64, _: &mut usize| Ok(f(x));
    near("deriv1", "central first derivative", must("deriv1", "central5", deriv1_central5(x, &mut 0, fun))?, w1, 2e-9 * m)?;
    near("deriv1", "forward first derivative", must("deriv1", "forward7", deriv1_forward7(x, &mut 0, fun))?, w1, 1e-10 * m)?;
    near("deriv1", "backward first derivative", must("deriv1", "backward7", deriv1_backward7(x, &mut 0, fun))?, w1, 1e-10 * m)?;
    near("deriv2", "central second derivative", must("deriv2", "central9", deriv2_central9(x, &mut 0, fun))?, w2, 2e-8 * m)?;
    near("deriv2", "forward second derivative", must("deriv2", "forward8", deriv2_forward8(x, &mut 0, fun))?, w2, 4e-7 * m)?;
    near("deriv2", "backward second derivative", must("deriv2", "backward8", deriv2_backward8(x, &mut 0, fun))?, w2, 4e-7 * m)
}

/// assertions on derivatives: silent within the tolerance, a panic otherwise
fn judges(g: &mut G) -> R {
    let c = g.vec_f(7, -1.0, 1.0);
    let x = g.uni(-2.0, 2.0);
    let x0 = x + g.uni(-1.0, 1.0);
    let d1: Vec<f64> = (1..7).map(|k| c[k] * k as f64).collect();
    let d2: Vec<f64> = (1..6).map(|k| d1[k] * k as f64).collect();
    let tol = g.plog(-5.0, 1.0);
    let bad = g.draw(6);
    let factor = *g.pick(&[0.0, 0.3, -0.6, 1.5, -1.5, 30.0]);
    let off = match bad {
        0 => f64::NAN,
        1 => *g.pick(&[f64::INFINITY, f64::NEG_INFINITY]),
        _ => factor * tol,
    };
    // the function fails or returns something else than a number at one of its calls
    let broken = if bad == 2 { Some((g.us(0, 3), g.bool())) } else { None };
    let n = g.us(1, 4);
    let at = g.us(0, n - 1);
    g.show("polynomial", &c);
    g.show("x,x0,tol,offset,broken,n,at", &(x, x0, tol, off, broken, n, at));
    if off.abs() < tol && bad != 2 {
        g.class("within");
    } else {
        g.class("refused");
    }
    g.hit();
    let fine = bad != 2 && off.abs() <= tol;
    let f = |x: f64, k: &mut usize| -> Result<f64, StrError> {
        *k += 1;
        match broken {
            Some((b, e)) if *k == b + 1 => {
                if e {
                    Err("stop")
                } else {
                    Ok(f64::NAN)
                }
            }
            _ => Ok(poly(&c, x - x0)),
        }
    };
    let judge = |name: &'static str, r: Result<(), (String, String)>| -> R {
        ensure!(r.is_ok() == fine, "judge", "{}: {} although the value is {} (difference {} with tolerance {})", name, if r.is_ok() { "accepted" } else { "refused" }, if fine { "right" } else { "wrong" }, off, tol);
        Ok(())
    };
    let (w1, w2) = (poly(&d1, x - x0) + off, poly(&d2, x - x0) + off);
    judge("deriv1_approx_eq", catch(|| deriv1_approx_eq(w1, x, &mut 0, tol, f)))?;
    judge("deriv1_approx_eq_fw", catch(|| deriv1_approx_eq_fw(w1, x, &mut 0, tol, f)))?;
    judge("deriv1_approx_eq_bw", catch(|| deriv1_approx_eq_bw(w1, x, &mut 0, tol, f)))?;
    judge("deriv2_approx_eq", catch(|| deriv2_approx_eq(w2, x, &mut 0, tol, f)))?;
    judge("deriv2_approx_eq_fw", catch(|| deriv2_approx_eq_fw(w2, x, &mut 0, tol, f)))?;
    judge("deriv2_approx_eq_bw", catch(|| deriv2_approx_eq_bw(w2, x, &mut 0, tol, f)))?;
    // a vector with one component under question
    let fv = |v: &mut Vector, x: f64, k: &mut usize| -> Result<(), StrError> {
        for i in 0..v.dim() {
            v[i] = (i + 2) as f64 * poly(&c, x - x0);
        }
        v[at] = f(x, k)?;
        Ok(())
    };
    let v1 = Vector::from(&(0..n).map(|i| if i == at { w1 } else { (i + 2) as f64 * poly(&d1, x - x0) }).collect::<Vec<_>>());
    let v2 = Vector::from(&(0..n).map(|i| if i == at { w2 } else { (i + 2) as f64 * poly(&d2, x - x0) }).collect::<Vec<_>>());
    if !matches!(broken, Some((_, false))) || at == 0 {
        judge("vec_deriv1_approx_eq", catch(|| vec_deriv1_approx_eq(&v1, x, &mut 0, tol, fv)))?;
        judge("vec_deriv2_approx_eq", catch(|| vec_deriv2_approx_eq(&v2, x, &mut 0, tol, fv)))?;
    }
    // equality including the sign of zero and not-a-number
    let pool = [0.0, -0.0, f64::NAN, -f64::NAN, 1.0, -1.0, f64::INFINITY, f64::NEG_INFINITY, f64::MIN_POSITIVE, x];
    let (a, b) = (*g.pick(&pool), *g.pick(&pool));
    let same = (a.is_nan() && b.is_nan()) || (a == b && a.is_sign_negative() == b.is_sign_negative());
    ensure!(catch(|| assert_alike(a, b)).is_ok() == same, "alike", "assert_alike({}, {})", a, b);
    Ok(())
}

fn fitting(g: &mut G) -> R {
    let n = g.us(0, 12);
    let zero = g.bool();
    if g.chance(1, 4) {
        g.class("integers");
        let x: Vec<i32> = (0..n).map(|_| g.int(-20, 20) as i32).collect();
        let y: Vec<i32> = (0..n).map(|_| g.int(-20, 20) as i32).collect();
        g.show("x,y,zero", &(&x, &y, zero));
        let a = must("fitting", "linear_fitting", linear_fitting(&x, &y, zero))?;
        let xf: Vec<f64> = x.iter().map(|&v| v as f64).collect();
        let yf: Vec<f64> = y.iter().map(|&v| v as f64).collect();
        let b = must("fitting", "linear_fitting", linear_fitting(&xf, &yf, zero))?;
        ensure!(a == b, "fitting", "integers give {:?}, real numbers {:?}", a, b);
        return Ok(());
    }
    let off = if g.chance(1, 4) { g.uni(-50.0, 50.0) } else { 0.0 };
    let x: Vec<f64> = (0..n).map(|_| off + if g.chance(1, 4) { g.int(-3, 3) as f64 } else { g.uni(-3.0, 3.0) }).collect();
    let y: Vec<f64> = (0..n).map(|_| g.uni(-3.0, 3.0)).collect();
    g.show("x,y,zero", &(&x, &y, zero));
    let (c, m) = must("fitting", "linear_fitting", linear_fitting(&x, &y, zero))?;
    let nf = n as f64;
    let (cx, cy) = if zero || n == 0 { (0.0, 0.0) } else { (x.iter().sum::<f64>() / nf, y.iter().sum::<f64>() / nf) };
    let sxx: f64 = x.iter().map(|v| (v - cx) * (v - cx)).sum();
    let sxy: f64 = (0..n).map(|i| (x[i] - cx) * (y[i] - cy)).sum();
    let xx: f64 = x.iter().map(|v| v * v).sum();
    if sxx <= 1e-10 * xx.max(1e-300) {
        g.class("degenerate");
        if x.iter().all(|&v| v == 0.0) {
            ensure!(c == 0.0 && m == f64::INFINITY, "fitting", "({}, {}) without spread in x", c, m);
        }
        return Ok(());
    }
    g.hit();
    let cond = xx / sxx;
    let sl = sxy / sxx;
    let ymax = 3.0;
    let tol = 64.0 * EPS * nf * cond * (ymax * (nf / sxx).sqrt() + sl.abs());
    near("fitting", "slope", m, sl, tol)?;
    let want = if zero { 0.0 } else { cy - sl * cx };
    near("fitting", "intercept", c, want, if zero { 0.0 } else { tol * (1.0 + (xx / nf).sqrt()) + 64.0 * EPS * nf * cond * ymax })?;
    must_err("fitting", "different lengths", linear_fitting(&x, &y[..n - 1], zero))
}

pub fn property() -> Property {
    Property {
        id: "C09",
        assumptions: &[
            "integrands with features not narrower than a tenth of the range; accuracy within a hundred times the requested tolerance relative to the integral of |f|",
            "root and minimum finders: functions with one sign change / one minimum in the bracket whose position is known",
            "numerical derivatives: polynomials of degree 6 plus a slow sine, errors bounded by round-off over the step size",
        ],
        laws: vec![
            Law { name: "gauss_exact", quick: 600000, rule: "random polynomials up to the degree of exactness of every rule; non-trivial: degree above the number of points", f: gauss_exact },
            Law { name: "quadrature", quick: 800000, rule: "six families of integrands, tolerances, rules, bounds; non-trivial: converged", f: quadrature },
            Law { name: "quadrature_close", quick: 240000, rule: "bounds from far to next to each other; all cases non-trivial", f: quadrature_close },
            Law { name: "brent_root", quick: 600000, rule: "nine families of functions, brackets, tolerances; non-trivial: converged", f: brent_root },
            Law { name: "chebyshev_roots", quick: 240000, rule: "polynomials with chosen real, complex and outside roots; non-trivial: degree > 1 with real roots", f: chebyshev_roots },
            Law { name: "cubic", quick: 1200000, rule: "integer roots with repetitions, separated roots, one real root, random coefficients; all cases non-trivial", f: cubic },
            Law { name: "brent_min", quick: 600000, rule: "five families, brackets, tolerances; non-trivial: converged", f: brent_min },
            Law { name: "bracketing", quick: 600000, rule: "random guess, step, expansion; non-trivial: bracketed", f: bracketing },
            Law { name: "search", quick: 600000, rule: "parameters, directions and step sizes; non-trivial: descent direction", f: search },
            Law { name: "newton", quick: 400000, rule: "diagonally dominant systems of 1..5 equations, options; non-trivial: converged", f: newton },
            Law { name: "newton_bad", quick: 120000, rule: "systems with NaN residuals, singular Jacobian, no root; all cases non-trivial", f: newton_bad },
            Law { name: "jacobian", quick: 120000, rule: "systems of 1..5 equations; non-trivial: more than one equation", f: jacobian },
            Law { name: "derivatives", quick: 240000, rule: "degree-6 polynomials plus sine; all cases non-trivial", f: derivatives },
            Law { name: "judges", quick: 120000, rule: "polynomials, right, wrong and broken derivatives; all cases non-trivial", f: judges },
            Law { name: "fitting", quick: 400000, rule: "0..12 points, real and integer, with and without intercept; non-trivial: abscissae with spread", f: fitting },
        ],
    }
}
