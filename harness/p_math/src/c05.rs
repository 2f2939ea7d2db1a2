use crate::vpref::*;
use russell_lab::math::*;
use vp_engine::*;

const EPS: f64 = f64::EPSILON;

/// compares with a reference value; `rel` in units of epsilon, relative to max(|reference|, scale)
fn cmp(key: &str, what: String, got: f64, want: f64, rel: f64, scale: f64) -> R {
    if want.is_nan() {
        discard!();
    }
    if want.is_infinite() {
        ensure!(got == want, key, "{} = {:e}, reference {:e}", what, got, want);
        return Ok(());
    }
    if want.abs() > 1e307 && got.is_infinite() && got.signum() == want.signum() {
        return Ok(()); // next to overflow
    }
    let tol = rel * EPS * want.abs().max(scale) + 1e-300;
    ensure!((got - want).abs() <= tol, key, "{} = {:e}, reference {:e}, difference {:e} > {:e}", what, got, want, (got - want).abs(), tol);
    Ok(())
}

/// x and its neighbours
fn around(g: &mut G, x: f64) -> f64 {
    match g.draw(5) {
        0 => x,
        1 => f64::from_bits(x.to_bits() + 1),
        2 => f64::from_bits(x.to_bits() - 1),
        3 => x * (1.0 + g.uni(-1e-9, 1e-9)),
        _ => x * (1.0 + g.uni(-1e-3, 1e-3)),
    }
}

fn sgn(g: &mut G, x: f64) -> f64 {
    if g.bool() { -x } else { x }
}

fn erf_family(g: &mut G) -> R {
    let which = g.us(0, 3);
    let name = ["erf", "erfc", "erf_inv", "erfc_inv"][which];
    let x = if which < 2 {
        let a = match g.draw(7) {
            0 => {
                let b = *g.pick(&[0.84375, 1.25, 1.0 / 0.35, 6.0, 28.0, 3.7252902984619140625e-9, 2.848094538889218e-306, 0.25, 1.3877787807814456755e-17]);
                around(g, b)
            }
            1 => g.plog(-320.0, -3.0),
            2 => g.uni(0.0, 1.0),
            3 => g.uni(0.8, 1.3),
            4 => g.uni(1.0, 7.0),
            5 => g.uni(5.0, 30.0),
            _ => g.plog(-3.0, 3.0),
        };
        sgn(g, a)
    } else if which == 2 {
        let a = match g.draw(5) {
            0 => {
                let b = *g.pick(&[0.85, 0.5, 1.0 - 2.0 * f64::exp(-25.0)]);
                around(g, b)
            }
            1 => g.plog(-300.0, 0.0),
            2 => 1.0 - g.plog(-16.0, 0.0),
            _ => g.uni(0.0, 1.0),
        };
        sgn(g, a)
    } else {
        match g.draw(5) {
            0 => {
                let b = *g.pick(&[0.15, 1.85, 1.0, 2.0 * f64::exp(-25.0)]);
                around(g, b)
            }
            1 => g.plog(-300.0, 0.0),
            2 => 2.0 - g.plog(-16.0, 0.0),
            _ => g.uni(0.0, 2.0),
        }
    };
    if (which == 2 && x.abs() >= 1.0) || (which == 3 && !(x > 0.0 && x < 2.0)) {
        discard!();
    }
    g.show("function", &name);
    g.show("x", &x);
    g.class(name);
    if x != 0.0 {
        g.hit();
    }
    let got = match which {
        0 => erf(x),
        1 => erfc(x),
        2 => erf_inv(x),
        _ => erfc_inv(x),
    };
    // near 1 the inverse complementary function is limited by the rounding of 1 - x (exact) only
    cmp(name, format!("{}({:e})", name, x), got, reference(which as i32, x, 0.0, 0.0), 20.0, 0.0)
}

fn gamma_family(g: &mut G) -> R {
    let x = match g.draw(9) {
        0 => g.int(1, 180) as f64,
        1 => g.uni(0.0, 3.0),
        2 => g.uni(2.0, 35.0),
        3 => g.uni(30.0, 175.0),
        4 => -g.uni(0.0, 10.0),
        5 => -g.uni(5.0, 180.0),
        6 => {
            let a = g.plog(-307.0, -1.0);
            sgn(g, a)
        }
        7 => {
            let b = *g.pick(&[1.0, 2.0, 3.0, 8.0, 33.0, 143.01608, 171.61447887182297, 0.7316321449683622, 0.2316321449683622, 0.9, 1.2316321449683622, 1.7316321449683622, 1e-9, 1.461632144968362]);
            let y = around(g, b);
            sgn(g, y)
        }
        _ => {
            let k = g.int(0, 60) as f64;
            -(k + g.plog(-8.0, -0.3))
        }
    };
    if x <= 0.0 && x == x.floor() {
        discard!();
    }
    g.show("x", &x);
    g.class(if x < 0.0 { "negative" } else { "positive" });
    g.hit();
    // conditioning near the poles: the argument itself is exact, only the reduction rounds
    let dist = if x < 0.0 { (x - x.round()).abs() } else { 1.0 };
    let amp = 1.0 + 1e-2 / dist * EPS;
    let want = reference(4, x, 0.0, 0.0);
    let got = gamma(x);
    // above 143 the power is split, so that the relative error stays small
    cmp("gamma", format!("gamma({:e})", x), got, want, 30.0 * amp, 0.0)?;
    let (lg, s) = ln_gamma(x);
    let wl = reference(5, x, 0.0, 0.0);
    // zeros of ln|gamma| at negative x: absolute accuracy of the largest term
    let scale = if x < 0.0 { 1.0 + reference(5, -x, 0.0, 0.0).abs() } else { 0.0 };
    cmp("ln_gamma", format!("ln_gamma({:e})", x), lg, wl, 20.0, scale)?;
    let ws = reference(6, x, 0.0, 0.0) as i32;
    ensure!(s == ws, "ln_gamma sign", "sign of gamma({:e}) = {}, expected {}", x, s, ws);
    Ok(())
}

fn ln_gamma_large(g: &mut G) -> R {
    let x = match g.draw(3) {
        0 => g.plog(-307.0, 305.0),
        1 => -g.plog(0.0, 12.0),
        _ => g.plog(0.0, 20.0),
    };
    if x < 0.0 && x == x.floor() {
        discard!();
    }
    g.show("x", &x);
    g.hit();
    let (lg, s) = ln_gamma(x);
    let scale = if x < 0.0 { 1.0 + reference(5, -x, 0.0, 0.0).abs() } else { 0.0 };
    cmp("ln_gamma", format!("ln_gamma({:e})", x), lg, reference(5, x, 0.0, 0.0), 20.0, scale)?;
    let even = if x < 0.0 { x.floor() % 2.0 == 0.0 } else { true };
    ensure!(s == if even { 1 } else { -1 }, "ln_gamma sign", "sign of gamma({:e}) = {}", x, s);
    Ok(())
}

fn beta_family(g: &mut G) -> R {
    let arg = |g: &mut G| match g.draw(7) {
        0 => g.int(1, 40) as f64,
        1 => g.plog(-5.0, 2.0),
        2 => g.uni(0.0, 90.0),
        3 => g.plog(-200.0, 0.0),
        4 => g.plog(0.0, 8.0),
        5 => g.uni(100.0, 300.0),
        _ => g.uni(0.0, 5.0),
    };
    let a = arg(g);
    let b = match g.draw(6) {
        0 => a * g.plog(6.0, 9.0),
        1 => a,
        _ => arg(g),
    };
    if !(a > 0.0) || !(b > 0.0) || b > 1e12 {
        discard!();
    }
    let (a, b) = if g.bool() { (b, a) } else { (a, b) };
    g.show("a", &a);
    g.show("b", &b);
    g.hit();
    let lnw = reference(14, a, b, 0.0);
    let (la, lb, lc) = (reference(5, a, 0.0, 0.0).abs(), reference(5, b, 0.0, 0.0).abs(), reference(5, a + b, 0.0, 0.0).abs());
    let asym = a.max(b) > 1e6 * a.min(b) && a.max(b) > 1e6;
    let small = a + b <= 171.624376956302725;
    g.class(if asym { "asymptotic" } else if small { "gamma ratio" } else { "log-gamma" });
    // the log-gamma identity loses the digits of the large logarithms
    let cond = if asym {
        8.0 + a.min(b) * a.max(b).ln() + reference(5, a.min(b), 0.0, 0.0).abs()
    } else if small {
        // rounding of a + b, amplified by the derivative of ln gamma
        8.0 + (a + b) * (1.0 + (a + b).max(1.0).ln())
    } else {
        8.0 + la + lb + lc
    };
    cmp("ln_beta", format!("ln_beta({:e}, {:e})", a, b), ln_beta(a, b), lnw, 8.0 * cond, 1.0)?;
    let bw = reference(15, a, b, 0.0);
    if bw.is_finite() && bw > 1e-290 && bw < 1e290 {
        cmp("beta", format!("beta({:e}, {:e})", a, b), beta(a, b), bw, 16.0 * cond, 0.0)?;
    }
    let (u, v) = (beta(a, b), beta(b, a));
    ensure!((u - v).abs() <= 32.0 * cond * EPS * u.abs() || u == v, "beta symmetry", "beta({:e}, {:e}) = {:e} but swapped {:e}", a, b, u, v);
    Ok(())
}

/// negative non-integer arguments through the reflection B(a, b) = gamma(a) gamma(b) / gamma(a + b)
fn beta_negative(g: &mut G) -> R {
    let a = -g.uni(0.0, 60.0);
    let b = if g.bool() { g.uni(0.0, 60.0) } else { -g.uni(0.0, 60.0) };
    let c = a + b;
    let dist = |x: f64| if x > 0.0 { 1.0 } else { (x - x.round()).abs() };
    let d = dist(a).min(dist(b)).min(dist(c));
    if d < 1e-3 {
        discard!();
    }
    let (a, b) = if g.bool() { (b, a) } else { (a, b) };
    g.show("a", &a);
    g.show("b", &b);
    g.hit();
    g.class(if a < 0.0 && b < 0.0 { "both negative" } else { "one negative" });
    let lnw = reference(14, a, b, 0.0);
    let sw = reference(6, a, 0.0, 0.0) * reference(6, b, 0.0, 0.0) * reference(6, c, 0.0, 0.0);
    let cond = 8.0 + (a.abs() + b.abs()) * (5.0 + 1.0 / d);
    cmp("ln_beta", format!("ln_beta({:e}, {:e})", a, b), ln_beta(a, b), lnw, 8.0 * cond, 1.0)?;
    cmp("beta", format!("beta({:e}, {:e})", a, b), beta(a, b), sw * lnw.exp(), 16.0 * cond + 4.0 * lnw.abs(), 0.0)
}

fn bessel_argument(g: &mut G) -> f64 {
    match g.draw(8) {
        0 => {
            // branch limits and zeros
            let b = *g.pick(&[
                2.0, 5.0, 8.0, 4.5454, 2.8570, 1.0, 15.0, 1.1754943508222875e-38, 7.450580596923828e-9, 1.862645149230957e-9, 3.7252902984619140625e-9, 2.404825557695773, 3.8317059702075125, 5.520078110286311,
                8.653727912911013, 0.8935769662791675, 2.197141326031017,
            ]);
            around(g, b)
        }
        1 => g.plog(-300.0, -5.0),
        2 => g.plog(-6.0, 0.0),
        3 => g.uni(0.0, 3.0),
        4 => g.uni(1.0, 20.0),
        5 => g.uni(10.0, 200.0),
        6 => g.plog(1.0, 5.0),
        _ => g.plog(-1.0, 2.0),
    }
}

fn bessel_01(g: &mut G) -> R {
    let x = if g.chance(1, 10) { g.plog(5.0, 300.0) } else { bessel_argument(g) };
    let neg = g.chance(1, 4);
    g.show("x", &x);
    g.show("negative", &neg);
    g.hit();
    g.class(if x < 2.0 { "x < 2" } else if x < 30.0 { "2 <= x < 30" } else { "x >= 30" });
    // beyond the first zeros the functions have the absolute accuracy of their amplitude
    let amp = if x > 0.5 { 0.8 / x.max(0.5).sqrt() } else { 0.0 };
    let (sx, so) = if neg { (-x, -1.0) } else { (x, 1.0) };
    let e = |f: &str| format!("{}({:e})", f, sx);
    cmp("j0", e("J0"), bessel_j0(sx), reference(7, 0.0, x, 0.0), 20.0, amp)?;
    cmp("j1", e("J1"), bessel_j1(sx), so * reference(7, 1.0, x, 0.0), 20.0, amp)?;
    if !neg {
        cmp("y0", e("Y0"), bessel_y0(x), reference(8, 0.0, x, 0.0), 20.0, amp.max(if x < 2.0 { 0.3 } else { 0.0 }))?;
        cmp("y1", e("Y1"), bessel_y1(x), reference(8, 1.0, x, 0.0), 20.0, amp)?;
    }
    if x < 720.0 {
        cmp("i0", e("I0"), bessel_i0(sx), reference(9, 0.0, x, 0.0), 30.0, 0.0)?;
        cmp("i1", e("I1"), bessel_i1(sx), so * reference(9, 1.0, x, 0.0), 30.0, 0.0)?;
        if !neg {
            cmp("k0", e("K0"), bessel_k0(x), reference(10, 0.0, x, 0.0), 40.0, 1e-290)?;
            cmp("k1", e("K1"), bessel_k1(x), reference(10, 1.0, x, 0.0), 40.0, 1e-290)?;
        }
    }
    Ok(())
}

fn bessel_n(g: &mut G) -> R {
    let n = if g.chance(1, 8) { g.int(0, 200) } else { g.int(0, 30) } as i32;
    let x = match g.draw(6) {
        0 => {
            let b = (n as f64).max(0.5);
            around(g, b)
        }
        _ => bessel_argument(g),
    };
    if x > 3000.0 {
        discard!();
    }
    g.show("n", &n);
    g.show("x", &x);
    if n >= 2 {
        g.hit();
    }
    g.class(if x < 1e-8 { "tiny" } else if x < n as f64 { "x < n" } else { "x >= n" });
    let neg = g.chance(1, 4);
    let negn = g.chance(1, 4);
    let fneg = if n % 2 != 0 { -1.0 } else { 1.0 };
    let amp = if x > n as f64 { 0.8 / x.max(0.5).sqrt() } else { 0.0 };
    let rel = 40.0 + 4.0 * (n as f64);
    let k = n as f64;
    let (sx, s1) = if neg { (-x, fneg) } else { (x, 1.0) };
    let (sn, s2) = if negn { (-n, fneg) } else { (n, 1.0) };
    let wj = reference(7, k, x, 0.0);
    cmp("jn", format!("Jn({}, {:e})", sn, sx), bessel_jn(sn, sx), s1 * s2 * wj, rel, amp.max(1e-290))?;
    let wy = reference(8, k, x, 0.0);
    if wy.is_finite() && wy.abs() < 1e300 {
        cmp("yn", format!("Yn({}, {:e})", sn, x), bessel_yn(sn, x), s2 * wy, rel, amp.max(if x < 2.0 { 0.3 } else { 0.0 }))?;
    }
    if x < 690.0 {
        cmp("in", format!("In({}, {:e})", n, sx), bessel_in(n as usize, sx), s1 * reference(9, k, x, 0.0), rel, 1e-290)?;
        let wk = reference(10, k, x, 0.0);
        if wk.is_finite() && wk < 1e300 {
            cmp("kn", format!("Kn({}, {:e})", n, x), bessel_kn(n, x), wk, rel, 1e-290)?;
        }
    }
    Ok(())
}

/// far from the origin the orders are linked by the three-term recurrence and the Wronskian
fn bessel_far(g: &mut G) -> R {
    let x = if g.chance(1, 4) { around(g, 8.148143905337944e90) } else { g.plog(3.0, 300.0) };
    let n = g.int(1, 40) as i32;
    g.show("n, x", &(n, x));
    g.hit();
    let amp = (2.0 / (PI * x)).sqrt();
    let tol = (60.0 + 8.0 * n as f64) * EPS * amp;
    let k = 2.0 * n as f64 / x;
    let (j0, j1, j2) = (bessel_jn(n - 1, x), bessel_jn(n, x), bessel_jn(n + 1, x));
    let (y0, y1, y2) = (bessel_yn(n - 1, x), bessel_yn(n, x), bessel_yn(n + 1, x));
    near("far j", &format!("recurrence of J at {} and {:e}", n, x), j0 + j2, k * j1, tol)?;
    near("far y", &format!("recurrence of Y at {} and {:e}", n, x), y0 + y2, k * y1, tol)?;
    near("far w", &format!("Wronskian at {} and {:e}", n, x), j2 / amp * (y1 / amp) - j1 / amp * (y2 / amp), 1.0, 4.0 * tol / amp)?;
    near("far parity", "J of negative argument", bessel_jn(n, -x), if n % 2 == 0 { j1 } else { -j1 }, 0.0)
}

fn elliptic(g: &mut G) -> R {
    let phi = match g.draw(6) {
        0 => PI / 2.0,
        1 => g.plog(-12.0, 0.0),
        2 => g.uni(1.4, PI / 2.0),
        _ => g.uni(0.0, PI / 2.0),
    };
    let s = phi.sin();
    let mss = match g.draw(6) {
        0 => 0.0,
        1 => g.plog(-20.0, 0.0),
        2 => 1.0 - g.plog(-13.0, 0.0),
        _ => g.unit(),
    };
    let m = if g.chance(1, 3) { mss } else { mss / (s * s) };
    let q = 1.0 - m * s * s;
    if !(phi > 0.0) || q < 1e-13 || !m.is_finite() {
        discard!();
    }
    g.show("phi", &phi);
    g.show("m", &m);
    g.hit();
    g.class(if m == 0.0 { "m = 0" } else if m > 1.0 { "m > 1" } else { "0 < m <= 1" });
    let carlson = m > 1.0 || phi < 0.01 || q < 1e-4;
    let (wf, we) = if carlson {
        (reference(21, phi, m, 0.0), reference(22, phi, m, 0.0))
    } else {
        (reference(11, phi, m, 0.0), reference(12, phi, m, 0.0))
    };
    let cond = 1.0 + 1.0 / q;
    let f = must("elliptic_f", "elliptic_f", elliptic_f(phi, m))?;
    cmp("elliptic_f", format!("F({:e}, {:e})", phi, m), f, wf, 20.0 + 2.0 * cond, 0.0)?;
    let e = must("elliptic_e", "elliptic_e", elliptic_e(phi, m))?;
    cmp("elliptic_e", format!("E({:e}, {:e})", phi, m), e, we, 40.0, f.abs())?;
    // third kind
    let n = match g.draw(6) {
        0 => 0.0,
        1 => -g.plog(-5.0, 6.0),
        2 => g.uni(0.0, 1.0),
        3 => g.uni(0.0, 1.0) / (s * s),
        4 => g.uni(1.0, 4.0) / (s * s),
        _ => -g.uni(0.0, 5.0),
    };
    let nss = n * s * s;
    let p = 1.0 - nss;
    if p.abs() < 1e-4 || !n.is_finite() {
        discard!();
    }
    g.show("n", &n);
    let wp = if n <= 0.0 || p > 0.0 {
        if carlson || n < 0.0 || n > 1.0 { reference(23, phi, m, n) } else { reference(13, phi, m, n) }
    } else {
        if m > 1.0 || m / n > 1.0 || phi < 0.01 || phi > 1.57 {
            return Ok(());
        }
        reference(24, phi, m, n)
    };
    let pi = must("elliptic_pi", "elliptic_pi", elliptic_pi(n, phi, m))?;
    let condp = cond + nss.abs() / p.abs();
    let pv = if p < 0.0 { 10.0 } else { 1.0 };
    cmp("elliptic_pi", format!("Pi({:e}, {:e}, {:e})", n, phi, m), pi, wp, pv * (60.0 + 8.0 * condp), f.abs() * (1.0 + 1.0 / p.abs()))
}

fn elliptic_domain(g: &mut G) -> R {
    let k = g.us(0, 4);
    let good = g.uni(0.0, PI / 2.0);
    g.show("case", &k);
    g.show("phi", &good);
    g.hit();
    let n = g.uni(-2.0, 0.9);
    let (phi, m) = match k {
        0 => (-g.plog(-10.0, 2.0), g.unit()),
        1 => (good, -g.plog(-10.0, 2.0)),
        2 => (PI / 2.0 + g.plog(-6.0, 2.0), g.unit()),
        3 => {
            if good < 0.01 {
                discard!();
            }
            (good, (1.0 + g.plog(-6.0, 2.0)) / good.sin().powi(2))
        }
        _ => {
            let m = g.unit();
            ensure!(elliptic_f(0.0, m) == Ok(0.0), "elliptic zero", "F(0, {}) must be 0", m);
            ensure!(elliptic_e(0.0, m) == Ok(0.0), "elliptic zero", "E(0, {}) must be 0", m);
            ensure!(elliptic_pi(n, 0.0, m) == Ok(0.0), "elliptic zero", "Pi(n, 0, {}) must be 0", m);
            ensure!(elliptic_f(good, 0.0) == Ok(good), "elliptic m zero", "F({}, 0) must be phi", good);
            ensure!(elliptic_e(good, 0.0) == Ok(good), "elliptic m zero", "E({}, 0) must be phi", good);
            ensure!(elliptic_f(PI / 2.0, 1.0) == Ok(f64::INFINITY), "elliptic inf", "F(pi/2, 1) must be Inf");
            ensure!(elliptic_pi(n, PI / 2.0, 1.0) == Ok(f64::INFINITY), "elliptic inf", "Pi(n, pi/2, 1) must be Inf");
            ensure!(elliptic_pi(1.0, PI / 2.0, 0.5 * m) == Ok(f64::INFINITY), "elliptic inf", "Pi(1, pi/2, m) must be Inf");
            near("elliptic E(pi/2,1)", "E(pi/2,1)", must("elliptic_e", "E", elliptic_e(PI / 2.0, 1.0))?, 1.0, 20.0 * EPS)?;
            return Ok(());
        }
    };
    g.show("phi,m", &(phi, m));
    must_err("elliptic domain", "elliptic_f", elliptic_f(phi, m))?;
    must_err("elliptic domain", "elliptic_e", elliptic_e(phi, m))?;
    must_err("elliptic domain", "elliptic_pi", elliptic_pi(n, phi, m))
}

fn special(g: &mut G) -> R {
    let inf = f64::INFINITY;
    let nan = f64::NAN;
    let n = g.int(1, 60) as i32;
    let m = -(g.int(1, 1000) as f64);
    let odd = n % 2 != 0;
    let neg = -g.plog(-300.0, 300.0);
    let out = 1.0 + g.plog(-15.0, 10.0);
    let table: Vec<(&str, f64, f64)> = vec![
        ("erf(+Inf)", erf(inf), 1.0),
        ("erf(-Inf)", erf(-inf), -1.0),
        ("erf(NaN)", erf(nan), nan),
        ("erf(0)", erf(0.0), 0.0),
        ("erfc(+Inf)", erfc(inf), 0.0),
        ("erfc(-Inf)", erfc(-inf), 2.0),
        ("erfc(NaN)", erfc(nan), nan),
        ("erfc(0)", erfc(0.0), 1.0),
        ("erf_inv(1)", erf_inv(1.0), inf),
        ("erf_inv(-1)", erf_inv(-1.0), -inf),
        ("erf_inv(0)", erf_inv(0.0), 0.0),
        ("erf_inv(outside)", erf_inv(out), nan),
        ("erf_inv(-outside)", erf_inv(-out), nan),
        ("erf_inv(NaN)", erf_inv(nan), nan),
        ("erfc_inv(0)", erfc_inv(0.0), inf),
        ("erfc_inv(2)", erfc_inv(2.0), -inf),
        ("erfc_inv(1)", erfc_inv(1.0), 0.0),
        ("erfc_inv(outside)", erfc_inv(1.0 + out), nan),
        ("erfc_inv(negative)", erfc_inv(-(out - 1.0).max(1e-10)), nan),
        ("erfc_inv(NaN)", erfc_inv(nan), nan),
        ("gamma(+Inf)", gamma(inf), inf),
        ("gamma(+0)", gamma(0.0), inf),
        ("gamma(-0)", gamma(-0.0), -inf),
        ("gamma(-Inf)", gamma(-inf), nan),
        ("gamma(NaN)", gamma(nan), nan),
        ("gamma(negative integer)", gamma(m), nan),
        ("ln_gamma(+Inf)", ln_gamma(inf).0, inf),
        ("ln_gamma(-Inf)", ln_gamma(-inf).0, -inf),
        ("ln_gamma(0)", ln_gamma(0.0).0, inf),
        ("ln_gamma(negative integer)", ln_gamma(m).0, inf),
        ("ln_gamma(NaN)", ln_gamma(nan).0, nan),
        ("ln_gamma(1)", ln_gamma(1.0).0, 0.0),
        ("ln_gamma(2)", ln_gamma(2.0).0, 0.0),
        ("beta(NaN, x)", beta(nan, out), nan),
        ("beta(x, NaN)", beta(out, nan), nan),
        ("ln_beta(NaN, x)", ln_beta(nan, out), nan),
        ("beta(1, 1)", beta(1.0, 1.0), 1.0),
        ("beta(-1, 1)", beta(-1.0, 1.0), -1.0),
        ("J0(0)", bessel_j0(0.0), 1.0),
        ("J0(Inf)", bessel_j0(inf), 0.0),
        ("J0(-Inf)", bessel_j0(-inf), 0.0),
        ("J0(NaN)", bessel_j0(nan), nan),
        ("J1(0)", bessel_j1(0.0), 0.0),
        ("J1(Inf)", bessel_j1(inf), 0.0),
        ("J1(-Inf)", bessel_j1(-inf), 0.0),
        ("J1(NaN)", bessel_j1(nan), nan),
        ("Jn(0)", bessel_jn(n, 0.0), 0.0),
        ("Jn(Inf)", bessel_jn(n, inf), 0.0),
        ("Jn(-Inf)", bessel_jn(n, -inf), 0.0),
        ("Jn(NaN)", bessel_jn(n, nan), nan),
        ("Y0(0)", bessel_y0(0.0), -inf),
        ("Y0(<0)", bessel_y0(neg), nan),
        ("Y0(Inf)", bessel_y0(inf), 0.0),
        ("Y0(NaN)", bessel_y0(nan), nan),
        ("Y1(0)", bessel_y1(0.0), -inf),
        ("Y1(<0)", bessel_y1(neg), nan),
        ("Y1(Inf)", bessel_y1(inf), 0.0),
        ("Y1(NaN)", bessel_y1(nan), nan),
        ("Yn(0)", bessel_yn(n, 0.0), -inf),
        ("Y-n(0)", bessel_yn(-n, 0.0), if odd { inf } else { -inf }),
        ("Yn(<0)", bessel_yn(n, neg), nan),
        ("Yn(Inf)", bessel_yn(n, inf), 0.0),
        ("Yn(NaN)", bessel_yn(n, nan), nan),
        ("I0(0)", bessel_i0(0.0), 1.0),
        ("I0(NaN)", bessel_i0(nan), nan),
        ("I1(0)", bessel_i1(0.0), 0.0),
        ("I1(NaN)", bessel_i1(nan), nan),
        ("In(0)", bessel_in(n as usize, 0.0), 0.0),
        ("In(NaN)", bessel_in(n as usize, nan), nan),
        ("K0(0)", bessel_k0(0.0), inf),
        ("K0(<0)", bessel_k0(neg), nan),
        ("K0(NaN)", bessel_k0(nan), nan),
        ("K1(0)", bessel_k1(0.0), inf),
        ("K1(<0)", bessel_k1(neg), nan),
        ("K1(NaN)", bessel_k1(nan), nan),
        ("Kn(0)", bessel_kn(n, 0.0), inf),
        ("Kn(<0)", bessel_kn(n, neg), nan),
        ("Kn(NaN)", bessel_kn(n, nan), nan),
    ];
    g.show("n", &n);
    g.show("negative integer", &m);
    g.show("negative", &neg);
    g.show("outside", &out);
    g.hit();
    for (name, got, want) in &table {
        let ok = if want.is_nan() { got.is_nan() } else { got == want || (want.is_finite() && (got - want).abs() <= 4.0 * EPS) };
        ensure!(ok, name, "{} = {:?}, documented {:?} (n = {}, m = {}, neg = {:e}, out = {:e})", name, got, want, n, m, neg, out);
    }
    Ok(())
}

pub fn property() -> Property {
    Property {
        id: "C05",
        assumptions: &[
            "reference values: Boost.Math in 80-bit extended precision",
            "accuracy bound 20..40 ulps (plus 4 ulps per order for the order-n Bessel functions); relative to the amplitude where the function oscillates through zero; multiplied by the documented conditioning of the log-gamma identity for beta, of 1 - m sin^2 and 1 - n sin^2 for elliptic integrals",
        ],
        laws: vec![
            Law { name: "erf_family", quick: 1600000, rule: "erf, erfc, erf_inv, erfc_inv at branch limits (+-1 ulp), log-uniform, near the ends; non-trivial: x != 0", f: erf_family },
            Law { name: "gamma_family", quick: 1600000, rule: "gamma, ln_gamma and sign at integers, next to poles and branch limits; non-trivial: not a pole", f: gamma_family },
            Law { name: "ln_gamma_large", quick: 800000, rule: "ln_gamma over the whole exponent range; all cases non-trivial", f: ln_gamma_large },
            Law { name: "beta_family", quick: 800000, rule: "beta, ln_beta for positive arguments in all three evaluation regimes; all cases non-trivial", f: beta_family },
            Law { name: "beta_negative", quick: 480000, rule: "beta, ln_beta with negative non-integer arguments; all cases non-trivial", f: beta_negative },
            Law { name: "bessel_01", quick: 1200000, rule: "J, Y, I, K of order 0 and 1, branch limits and zeros included; all cases non-trivial", f: bessel_01 },
            Law { name: "bessel_n", quick: 480000, rule: "J, Y, I, K of integer order up to 200, negative orders and arguments; non-trivial: order >= 2", f: bessel_n },
            Law { name: "bessel_far", quick: 200000, rule: "large arguments; all cases non-trivial", f: bessel_far },
            Law { name: "elliptic", quick: 480000, rule: "elliptic integrals over their domain incl. m > 1, n < 0, n > 1 (principal value); all cases non-trivial", f: elliptic },
            Law { name: "elliptic_domain", quick: 160000, rule: "arguments outside the domain are rejected, special values; all cases non-trivial", f: elliptic_domain },
            Law { name: "special", quick: 160000, rule: "documented results at poles, infinities and NaN with random orders; all cases non-trivial", f: special },
        ],
    }
}
