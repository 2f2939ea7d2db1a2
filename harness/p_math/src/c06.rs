use crate::vpref::*;
use russell_lab::math::*;
use russell_lab::*;
use vp_engine::*;

const EPS: f64 = f64::EPSILON;

fn abscissa(g: &mut G) -> f64 {
    let x = match g.draw(8) {
        0 => *g.pick(&[0.0, 1.0, -1.0, 0.5, -0.5]),
        1 => 1.0 - g.plog(-9.0, 0.0),
        2 => 1.0 + g.plog(-9.0, 0.5),
        _ => g.uni(-1.0, 1.0),
    };
    if g.bool() { -x } else { x }
}

fn order(g: &mut G) -> usize {
    match g.draw(4) {
        0 => g.us(0, 4),
        1 | 2 => g.us(0, 20),
        _ => g.us(0, 60),
    }
}

fn chebyshev(g: &mut G) -> R {
    let n = order(g);
    let x = abscissa(g);
    g.show("n", &n);
    g.show("x", &x);
    if n > 1 {
        g.hit();
    }
    g.class(if x.abs() == 1.0 { "|x| = 1" } else if x.abs() < 1.0 { "|x| < 1" } else { "|x| > 1" });
    let t = poly_ref(0, n, x);
    let u = poly_ref(1, n, x);
    let (p, m) = (n as f64, n as f64 + 1.0);
    let d = (1.0 - x * x).abs();
    let s = d.sqrt();
    let (tol, utol): ([f64; 3], [f64; 3]);
    if x.abs() == 1.0 {
        tol = [8.0 * EPS, 0.0, 8.0 * EPS * t[2].abs()];
        utol = [8.0 * EPS * m, 8.0 * EPS * u[1].abs(), 8.0 * EPS * u[2].abs()];
    } else if x.abs() < 1.0 {
        let e = 16.0 * EPS * (1.0 + p * PI);
        tol = [e, e * p / s, e * (p * p * s + p) / (s * s * s)];
        let e = 16.0 * EPS * (1.0 + m * PI);
        let e0 = e / s;
        let e1 = (e0 + m * e + 4.0 * EPS * (m * m).min(m / s)) / d;
        let e2 = (e0 + e1 + m * e * m / s + 8.0 * EPS * (u[0].abs() + u[1].abs() + m * m * m)) / d + 2.0 * (e0 + m * e) / (d * d) + 16.0 * EPS * (u[0].abs() + m) / (d * d);
        utol = [e0, e1, e2];
    } else {
        let a = x.abs().acosh();
        let e = 32.0 * EPS * (1.0 + p * a + p * x * x / d.sqrt());
        let (c, h) = (t[0].abs(), (p * a).sinh().abs());
        let e3 = EPS * 32.0 * (1.0 + p * a + p * x * x / s + x * x / d);
        tol = [e * c, e3 * p * (c + h) / s, e3 * ((p * p * c) / d + p * x.abs() * (h + c) / d.powf(1.5))];
        let e = EPS * 32.0 * (1.0 + m * a + m * x * x / s + x * x / d);
        let e0 = e * (u[0].abs() + (m * a).cosh());
        let t1 = (m * a).cosh();
        let e1 = (x.abs() * e0 + m * e * t1 + e * (x.abs() * u[0].abs() + m * t1)) / d;
        let e2 = (e0 + x.abs() * e1 + m * e * m * (t1 + (m * a).sinh()) / s + e * (u[0].abs() + x.abs() * u[1].abs() + m * m * t1 / s)) / d
            + 2.0 * x.abs() * (x.abs() * e0 + m * e * t1 + e * (x.abs() * u[0].abs() + m * t1)) / (d * d);
        utol = [e0, e1, e2];
    }
    // within 1e-12 of the ends the values at the ends are used for the second kind
    let close = (x.abs() - 1.0).abs() < 1.1e-12;
    let c = if close { 1e-12 * m.powi(7) } else { 0.0 };
    near("chebyshev_tn", &format!("T{}({:e})", n, x), chebyshev_tn(n, x), t[0], tol[0])?;
    near("chebyshev_tn_deriv1", &format!("T{}'({:e})", n, x), chebyshev_tn_deriv1(n, x), t[1], tol[1])?;
    near("chebyshev_tn_deriv2", &format!("T{}''({:e})", n, x), chebyshev_tn_deriv2(n, x), t[2], tol[2])?;
    near("chebyshev_un", &format!("U{}({:e})", n, x), chebyshev_un(n, x), u[0], utol[0] + c)?;
    near("chebyshev_un_deriv1", &format!("U{}'({:e})", n, x), chebyshev_un_deriv1(n, x), u[1], utol[1] + c)?;
    near("chebyshev_un_deriv2", &format!("U{}''({:e})", n, x), chebyshev_un_deriv2(n, x), u[2], utol[2] + c)
}

fn legendre(g: &mut G) -> R {
    let n = order(g);
    let x = abscissa(g);
    g.show("n", &n);
    g.show("x", &x);
    if n > 1 {
        g.hit();
    }
    g.class(if x.abs() == 1.0 { "|x| = 1" } else if x.abs() < 1.0 { "|x| < 1" } else { "|x| > 1" });
    let p = poly_ref(2, n, x);
    let q = poly_ref(2, n.max(1) - 1, x);
    let nf = n as f64;
    let d = (1.0 - x * x).abs();
    let mag = if x.abs() <= 1.0 { 1.0 } else { p[0].abs().max(1.0) * x.abs() };
    let e0 = 8.0 * EPS * (1.0 + nf).powf(1.5) * mag;
    let (e1, e2);
    if d == 0.0 {
        e1 = 8.0 * EPS * p[1].abs();
        e2 = 8.0 * EPS * p[2].abs();
    } else {
        e1 = nf * (2.0 * e0 * x.abs().max(1.0) + 8.0 * EPS * ((x * p[0]).abs() + q[0].abs())) / d + 8.0 * EPS * p[1].abs() * x * x / d;
        e2 = (2.0 * x.abs() * e1 + nf * (nf + 1.0) * e0 + 8.0 * EPS * (2.0 * (x * p[1]).abs() + nf * (nf + 1.0) * p[0].abs())) / d + 8.0 * EPS * p[2].abs() * x * x / d;
    }
    near("legendre_pn", &format!("P{}({:e})", n, x), legendre_pn(n, x), p[0], e0)?;
    near("legendre_pn_deriv1", &format!("P{}'({:e})", n, x), legendre_pn_deriv1(n, x), p[1], e1)?;
    near("legendre_pn_deriv2", &format!("P{}''({:e})", n, x), legendre_pn_deriv2(n, x), p[2], e2)
}

fn check_points(key: &str, xx: &Vector, nn: usize, open: bool, exact_sym: bool) -> R {
    ensure!(xx.dim() == nn + 1, key, "{} points instead of {}", xx.dim(), nn + 1);
    for i in 0..=nn {
        let x = xx[i];
        ensure!(if open { x.abs() < 1.0 } else { x.abs() <= 1.0 }, key, "point {} = {} outside the interval", i, x);
        ensure!(i == 0 || xx[i - 1] < x, key, "points {} and {} not increasing: {} {}", i - 1, i, xx[i - 1], x);
        let tol = if exact_sym { 0.0 } else { 1e-14 };
        ensure!((x + xx[nn - i]).abs() <= tol, key, "points {} and {} not symmetric: {:e} {:e}", i, nn - i, x, xx[nn - i]);
    }
    if !open {
        ensure!(xx[0] == -1.0 && xx[nn] == 1.0, key, "end points are {} and {}", xx[0], xx[nn]);
    }
    Ok(())
}

fn points(g: &mut G) -> R {
    let nn = match g.draw(4) {
        0 => g.us(0, 6),
        1 | 2 => g.us(0, 40),
        _ => g.us(0, 130),
    };
    g.show("nn", &nn);
    if nn > 2 {
        g.hit();
    }
    let n = nn as f64;
    let xx = chebyshev_gauss_points(nn);
    check_points("chebyshev_gauss_points", &xx, nn, true, true)?;
    for j in 0..=nn {
        near("chebyshev_gauss_points", &format!("X[{}] of {}", j, nn), xx[j], -f64::cos((2 * j + 1) as f64 * PI / (2.0 * n + 2.0)), 8.0 * EPS)?;
    }
    if nn > 0 {
        let xx = chebyshev_lobatto_points(nn);
        check_points("chebyshev_lobatto_points", &xx, nn, false, true)?;
        for j in 0..=nn {
            near("chebyshev_lobatto_points", &format!("X[{}] of {}", j, nn), xx[j], -f64::cos(j as f64 * PI / n), 8.0 * EPS)?;
        }
        let xx = legendre_lobatto_points(nn);
        check_points("legendre_lobatto_points", &xx, nn, false, false)?;
        for j in 1..nn {
            let p = poly_ref(2, nn, xx[j]);
            near("legendre_lobatto_points", &format!("distance of point {} of {} to the zero of P'", j, nn), p[1] / p[2], 0.0, 1e-14)?;
        }
        let ww = legendre_lobatto_weights(nn);
        rule("legendre_lobatto_weights", &xx, &ww, nn, 2 * nn - 1, g)?;
    }
    let xx = legendre_gauss_points(nn);
    check_points("legendre_gauss_points", &xx, nn, true, false)?;
    for j in 0..=nn {
        let p = poly_ref(2, nn + 1, xx[j]);
        near("legendre_gauss_points", &format!("distance of point {} of {} to the zero of P", j, nn), p[0] / p[1], 0.0, 1e-14)?;
    }
    let ww = legendre_gauss_weights(nn);
    rule("legendre_gauss_weights", &xx, &ww, nn, 2 * nn + 1, g)
}

/// the rule integrates every Legendre polynomial (a basis) up to `degree`, and a random monomial
fn rule(key: &str, xx: &Vector, ww: &Vector, nn: usize, degree: usize, g: &mut G) -> R {
    ensure!(ww.dim() == nn + 1, key, "{} weights instead of {}", ww.dim(), nn + 1);
    let tol = 1e-14 * (4.0 + nn as f64);
    for i in 0..=nn {
        ensure!(ww[i] > 0.0, key, "weight {} = {} is not positive", i, ww[i]);
        near(key, &format!("weights {} and {} (symmetry)", i, nn - i), ww[i], ww[nn - i], tol)?;
    }
    let mut degrees: Vec<usize> = vec![0, 1, 2, degree.saturating_sub(1), degree];
    for _ in 0..4 {
        degrees.push(g.us(0, degree));
    }
    for k in degrees {
        if k > degree {
            continue;
        }
        let mut sum = 0.0;
        let mut mono = 0.0;
        for i in 0..=nn {
            sum += ww[i] * poly_ref(2, k, xx[i])[0];
            mono += ww[i] * xx[i].powi(k as i32);
        }
        near(key, &format!("integral of the Legendre polynomial of degree {} with {} points", k, nn + 1), sum, if k == 0 { 2.0 } else { 0.0 }, tol)?;
        let want = if k % 2 == 0 { 2.0 / (k as f64 + 1.0) } else { 0.0 };
        near(key, &format!("integral of x^{} with {} points", k, nn + 1), mono, want, tol)?;
    }
    Ok(())
}

fn smooth(g: &mut G) -> R {
    let x = match g.draw(4) {
        0 => g.flog(-10.0, 3.0),
        1 => g.int(-5, 5) as f64,
        _ => g.uni(-20.0, 20.0),
    };
    let b = match g.draw(4) {
        0 => g.plog(-2.0, 3.0),
        1 => 600.0 / x.abs().max(1e-6) * g.uni(0.7, 1.3),
        _ => g.uni(0.1, 50.0),
    };
    g.show("x", &x);
    g.show("beta", &b);
    g.hit();
    let l = 1.0 / (1.0 + (-x).exp());
    near("logistic", &format!("logistic({:e})", x), logistic(x), l, 4.0 * EPS * l)?;
    // derivative e^-|x| / (1 + e^-|x|)^2
    let e = (-x.abs()).exp();
    near("logistic_deriv1", &format!("logistic_deriv1({:e})", x), logistic_deriv1(x), e / (1.0 + e).powi(2), 8.0 * EPS)?;
    // smooth ramp = max(x,0) + ln(1 + e^(-b|x|)) / b
    let z = b * x;
    let q = (-z.abs()).exp();
    let want = x.max(0.0) + q.ln_1p() / b;
    let tol = 8.0 * EPS * (x.abs() + (1.0 + z.abs()) / b);
    near("smooth_ramp", &format!("smooth_ramp({:e}, {:e})", x, b), smooth_ramp(x, b), want, tol)?;
    let ztol = 8.0 * EPS * (1.0 + z.abs());
    near("smooth_ramp_deriv1", &format!("smooth_ramp_deriv1({:e}, {:e})", x, b), smooth_ramp_deriv1(x, b), if z >= 0.0 { 1.0 / (1.0 + q) } else { q / (1.0 + q) }, ztol)?;
    near("smooth_ramp_deriv2", &format!("smooth_ramp_deriv2({:e}, {:e})", x, b), smooth_ramp_deriv2(x, b), b * q / (1.0 + q).powi(2), b * ztol)
}

fn any_number(g: &mut G) -> f64 {
    match g.draw(6) {
        0 => g.int(-20, 20) as f64,
        1 => g.int(-20, 20) as f64 + 0.5,
        2 => g.flog(-320.0, 308.0),
        3 => g.any_f64(),
        4 => g.flog(10.0, 17.0).round(),
        _ => g.uni(-100.0, 100.0),
    }
}

fn steps(g: &mut G) -> R {
    let x = any_number(g);
    if x.is_nan() {
        discard!();
    }
    g.show("x", &x);
    g.hit();
    let s = if x > 0.0 { 1.0 } else if x < 0.0 { -1.0 } else { 0.0 };
    ensure!(sign(x) == s, "sign", "sign({:e}) = {}", x, sign(x));
    ensure!(ramp(x) == x.max(0.0), "ramp", "ramp({:e}) = {}", x, ramp(x));
    ensure!(heaviside(x) == 0.5 + 0.5 * s, "heaviside", "heaviside({:e}) = {}", x, heaviside(x));
    let y = any_number(g);
    let y = if g.chance(1, 4) { x } else { y };
    let w = g.plog(-5.0, 5.0);
    let (a, b) = (y, y + w);
    if a.is_finite() && b.is_finite() && a < b {
        g.show("a,b", &(a, b));
        for t in [x, a, b, 0.5 * (a + b)] {
            let want = if t < a || t > b { 0.0 } else if t == a || t == b { 0.5 } else { 1.0 };
            ensure!(boxcar(t, a, b) == want, "boxcar", "boxcar({:e}, {:e}, {:e}) = {}", t, a, b, boxcar(t, a, b));
        }
        ensure!(catch(|| boxcar(x, b, a)).is_err(), "boxcar", "boxcar with a > b must panic");
        ensure!(catch(|| boxcar(x, b, b)).is_err(), "boxcar", "boxcar with a = b must panic");
    }
    // super-quadric functions
    let t = g.uni(-10.0, 10.0);
    let k = match g.draw(3) {
        0 => g.int(1, 5) as f64,
        _ => g.uni(0.1, 6.0),
    };
    g.show("t,k", &(t, k));
    for (f, name, base) in [(suq_sin(t, k), "suq_sin", t.sin()), (suq_cos(t, k), "suq_cos", t.cos())] {
        let want = if base == 0.0 { 0.0 } else { base.signum() * (k * base.abs().ln()).exp() };
        near(name, &format!("{}({:e}, {:e})", name, t, k), f, want, 32.0 * EPS * (1.0 + k * base.abs().ln().abs()) * want.abs() + 1e-300)?;
    }
    Ok(())
}

fn integers(g: &mut G) -> R {
    let n = match g.draw(5) {
        0 => *g.pick(&[i32::MIN, i32::MIN + 1, i32::MAX, -1, 0, 1, -4, -3, -2]) as i64,
        1 => g.int(i32::MIN as i64, i32::MAX as i64),
        _ => g.int(-40, 40),
    } as i32;
    g.show("n", &n);
    g.hit();
    let r = (n as i64).rem_euclid(4);
    let i = i_pow_n(n);
    let want = [(1.0, 0.0), (0.0, 1.0), (-1.0, 0.0), (0.0, -1.0)][r as usize];
    ensure!((i.re, i.im) == want, "i_pow_n", "i^{} = {:?}", n, i);
    ensure!(neg_one_pow_n(n) == if r % 2 == 0 { 1.0 } else { -1.0 }, "neg_one_pow_n", "(-1)^{} = {}", n, neg_one_pow_n(n));
    let x = match g.draw(3) {
        0 => g.int(-3, 3) as f64,
        _ => g.flog(-2.0, 2.0),
    };
    if n.unsigned_abs() <= 40 && !(x == 0.0 && n < 0) {
        g.show("x", &x);
        let z = x_times_i_pow_n(x, n);
        let xn = x.powi(n);
        near("x_times_i_pow_n", &format!("re ({} i)^{}", x, n), z.re, want.0 * xn, 8.0 * EPS * 40.0 * xn.abs())?;
        near("x_times_i_pow_n", &format!("im ({} i)^{}", x, n), z.im, want.1 * xn, 8.0 * EPS * 40.0 * xn.abs())?;
    } else {
        // any n: no panic, result on the right axis
        let z = x_times_i_pow_n(1.0, n);
        ensure!((z.re, z.im) == want, "x_times_i_pow_n", "(1 i)^{} = {:?}", n, z);
    }
    let k = g.us(0, 30);
    if k <= 22 {
        let f: f64 = (1..=k as u128).product::<u128>() as f64;
        ensure!(factorial_lookup_22(k) == f, "factorial", "{}! = {}", k, factorial_lookup_22(k));
    } else {
        ensure!(catch(|| factorial_lookup_22(k)).is_err(), "factorial", "{}! must panic", k);
    }
    Ok(())
}

fn floats(g: &mut G) -> R {
    let x = any_number(g);
    g.show("x", &x);
    g.hit();
    g.class(if x.is_nan() { "NaN" } else if x.is_infinite() { "infinite" } else if x.abs() < f64::MIN_POSITIVE { "zero/subnormal" } else { "normal" });
    let same = |a: f64, b: f64| a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan());
    if !x.is_nan() && !x.is_infinite() {
        let (i, f) = float_split(x);
        let (ci, cf) = c_modf(x);
        ensure!(same(i, ci) && f == cf, "float_split", "float_split({:e}) = {:?}, C: {:?}", x, (i, f), (ci, cf));
        let (m, e) = float_decompose(x);
        let (cm, ce) = c_frexp(x);
        ensure!(same(m, cm) && e == ce, "float_decompose", "float_decompose({:e}) = {:?}, C: {:?}", x, (m, e), (cm, ce));
        ensure!(same(float_compose(m, e), x), "float_compose", "compose(decompose({:e})) = {:e}", x, float_compose(m, e));
    } else {
        let (m, e) = float_decompose(x);
        ensure!(same(m, x) && e == 0, "float_decompose", "float_decompose({:e}) = {:?}", x, (m, e));
    }
    let int = x.is_finite() && x == x.trunc();
    ensure!(float_is_integer(x) == int, "float_is_integer", "float_is_integer({:e}) = {}", x, float_is_integer(x));
    ensure!(float_is_neg_integer(x) == (int && x < 0.0), "float_is_neg_integer", "float_is_neg_integer({:e}) = {}", x, float_is_neg_integer(x));
    let e = match g.draw(4) {
        0 => g.int(-2200, 2200),
        1 => *g.pick(&[i32::MIN, i32::MAX, -1074, -1075, -1022, -1023, 1023, 1024]) as i64,
        _ => g.int(-60, 60),
    } as i32;
    g.show("exponent", &e);
    ensure!(same(float_compose(x, e), c_ldexp(x, e)), "float_compose", "float_compose({:e}, {}) = {:e}, C: {:e}", x, e, float_compose(x, e), c_ldexp(x, e));
    let y = any_number(g);
    g.show("y", &y);
    let (r, want) = (modulo(x, y), c_fmod(x, y));
    ensure!(r == want || (r.is_nan() && want.is_nan()), "modulo", "modulo({:e}, {:e}) = {:e}, C: {:e}", x, y, r, want);
    Ok(())
}

pub fn property() -> Property {
    Property {
        id: "C06",
        assumptions: &[
            "polynomials: three-term recurrences (and their derivatives) in quadruple precision; tolerances follow the trigonometric/hyperbolic formulas documented, so they widen towards |x| = 1 for derivatives",
            "float helpers: C library frexp, ldexp, modf, fmod",
            "point sets up to 131 points",
        ],
        laws: vec![
            Law { name: "chebyshev", quick: 150000, rule: "T, U, first and second derivatives for orders 0..60 inside, at and outside the interval; non-trivial: order > 1", f: chebyshev },
            Law { name: "legendre", quick: 100000, rule: "P, first and second derivatives for orders 0..60; non-trivial: order > 1", f: legendre },
            Law { name: "points", quick: 4000, rule: "Gauss and Gauss-Lobatto point sets and weights, 1..131 points; non-trivial: more than 3 points", f: points },
            Law { name: "smooth", quick: 100000, rule: "logistic and smooth ramp with derivatives, including cut-off region; all cases non-trivial", f: smooth },
            Law { name: "steps", quick: 100000, rule: "sign, ramp, heaviside, boxcar, super-quadric functions on any finite number; all cases non-trivial", f: steps },
            Law { name: "integers", quick: 60000, rule: "powers of i and of -1 for any 32-bit exponent, factorials; all cases non-trivial", f: integers },
            Law { name: "floats", quick: 150000, rule: "float split/decompose/compose/modulo on any bit pattern class; all cases non-trivial", f: floats },
        ],
    }
}
