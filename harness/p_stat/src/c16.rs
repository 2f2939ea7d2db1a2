use rand::SeedableRng;
use rand::rngs::StdRng;
use russell_stat::*;
use vp_engine::*;

const EPS: f64 = f64::EPSILON;
const SQRT_2PI: f64 = 2.506628274631000502415765284811;

unsafe extern "C" {
    fn erfc(x: f64) -> f64;
    fn tgamma(x: f64) -> f64;
}

/// independent description of a distribution
#[derive(Clone, Copy, Debug)]
enum Kind {
    Normal(f64, f64),
    Lognormal(f64, f64),
    Gumbel(f64, f64),
    Frechet(f64, f64, f64),
    Uniform(f64, f64),
}
use Kind::*;

enum Dist {
    N(DistributionNormal),
    L(DistributionLognormal),
    G(DistributionGumbel),
    F(DistributionFrechet),
    U(DistributionUniform),
}

macro_rules! each {
    ($s:expr, $d:ident => $e:expr) => {
        match $s {
            Dist::N($d) => $e,
            Dist::L($d) => $e,
            Dist::G($d) => $e,
            Dist::F($d) => $e,
            Dist::U($d) => $e,
        }
    };
}

impl Dist {
    fn pdf(&self, x: f64) -> f64 {
        each!(self, d => d.pdf(x))
    }
    fn cdf(&self, x: f64) -> f64 {
        each!(self, d => d.cdf(x))
    }
    fn mean(&self) -> f64 {
        each!(self, d => d.mean())
    }
    fn variance(&self) -> f64 {
        each!(self, d => d.variance())
    }
    fn sample(&self, r: &mut StdRng) -> f64 {
        each!(self, d => d.sample(r))
    }
}

impl Kind {
    fn build(&self) -> Result<Dist, &'static str> {
        Ok(match *self {
            Normal(a, b) => Dist::N(DistributionNormal::new(a, b)?),
            Lognormal(a, b) => Dist::L(DistributionLognormal::new(a, b)?),
            Gumbel(a, b) => Dist::G(DistributionGumbel::new(a, b)?),
            Frechet(a, b, c) => Dist::F(DistributionFrechet::new(a, b, c)?),
            Uniform(a, b) => Dist::U(DistributionUniform::new(a, b)?),
        })
    }
    fn name(&self) -> &'static str {
        match self {
            Normal(..) => "normal",
            Lognormal(..) => "lognormal",
            Gumbel(..) => "gumbel",
            Frechet(..) => "frechet",
            Uniform(..) => "uniform",
        }
    }
    /// x at the standard coordinate u (the coordinate in which the density is smooth)
    fn at(&self, u: f64) -> f64 {
        match *self {
            Normal(m, s) => m + s * u,
            Lognormal(m, s) => f64::exp(m + s * u),
            Gumbel(l, s) => l + s * u,
            Frechet(l, s, a) => l + s * f64::exp(u / a),
            Uniform(a, b) => a + (b - a) * u,
        }
    }
    /// dx/du
    fn jac(&self, u: f64) -> f64 {
        match *self {
            Normal(_, s) | Gumbel(_, s) => s,
            Lognormal(m, s) => s * f64::exp(m + s * u),
            Frechet(_, s, a) => s * f64::exp(u / a) / a,
            Uniform(a, b) => b - a,
        }
    }
    /// reference density and its relative tolerance
    fn pdf(&self, x: f64) -> (f64, f64) {
        match *self {
            Normal(m, s) => {
                let z = (x - m) / s;
                (f64::exp(-0.5 * z * z) / (s * SQRT_2PI), 16.0 * EPS * (1.0 + z * z))
            }
            Lognormal(m, s) => {
                if x <= 0.0 {
                    return (0.0, 0.0);
                }
                let l = x.ln();
                let z = (l - m) / s;
                // rounding of the logarithm
                let dz = EPS * (l.abs() + m.abs()) / s;
                (f64::exp(-0.5 * z * z) / (s * x * SQRT_2PI), 16.0 * EPS * (1.0 + z * z) + 4.0 * z.abs() * dz + 4.0 * dz * dz)
            }
            Gumbel(l, s) => {
                let z = (l - x) / s;
                let e = z.exp();
                let t = if e.is_infinite() { 0.0 } else { f64::exp(z - e) / s };
                (t, 16.0 * EPS * (1.0 + z.abs() + e * (1.0 + z.abs())))
            }
            Frechet(l, s, a) => {
                if x <= l {
                    return (0.0, 0.0);
                }
                let z = (x - l) / s;
                let lz = z.ln();
                let e = f64::exp(-a * lz);
                let t = if e.is_infinite() { 0.0 } else { f64::exp(-(1.0 + a) * lz - e) * a / s };
                (t, 16.0 * EPS * (1.0 + (1.0 + a) * (1.0 + lz.abs()) + e * (1.0 + a * (1.0 + lz.abs()))))
            }
            Uniform(a, b) => (if x < a || x > b { 0.0 } else { 1.0 / (b - a) }, 4.0 * EPS),
        }
    }
    /// reference cumulative function and its absolute tolerance
    fn cdf(&self, x: f64) -> (f64, f64) {
        let phi = |z: f64| unsafe { 0.5 * erfc(-z * std::f64::consts::FRAC_1_SQRT_2) };
        match *self {
            Normal(m, s) => (phi((x - m) / s), 16.0 * EPS),
            Lognormal(m, s) => {
                if x <= 0.0 {
                    return (0.0, 0.0);
                }
                let dz = EPS * (x.ln().abs() + m.abs()) / s;
                (phi((x.ln() - m) / s), 16.0 * EPS + 4.0 * dz)
            }
            Gumbel(l, s) => {
                let z = (l - x) / s;
                (f64::exp(-z.exp()), 16.0 * EPS * (1.0 + z.abs().min(800.0)))
            }
            Frechet(l, s, a) => {
                if x <= l {
                    return (0.0, 0.0);
                }
                let lz = ((x - l) / s).ln();
                (f64::exp(-f64::exp(-a * lz)), 16.0 * EPS * (1.0 + a * (1.0 + lz.abs().min(800.0))))
            }
            Uniform(a, b) => (((x - a) / (b - a)).clamp(0.0, 1.0), 8.0 * EPS),
        }
    }
    fn mean(&self) -> (f64, f64) {
        match *self {
            Normal(m, _) => (m, 0.0),
            Lognormal(m, s) => {
                let v = f64::exp(m + 0.5 * s * s);
                (v, v * 8.0 * EPS * (1.0 + m.abs() + s * s))
            }
            Gumbel(l, s) => (l + 0.577215664901532860606512 * s, 8.0 * EPS * (l.abs() + s)),
            Frechet(l, s, a) => {
                if a <= 1.0 {
                    return (f64::INFINITY, 0.0);
                }
                let q = 1.0 - 1.0 / a;
                let v = unsafe { tgamma(q) };
                (l + s * v, 50.0 * EPS * (l.abs() + s * v * (1.0 + 1.0 / q)))
            }
            Uniform(a, b) => (0.5 * (a + b), 4.0 * EPS * (a.abs() + b.abs())),
        }
    }
    fn variance(&self) -> (f64, f64) {
        match *self {
            Normal(_, s) => (s * s, 4.0 * EPS * s * s),
            Lognormal(m, s) => {
                let v = f64::exp_m1(s * s) * f64::exp(2.0 * m + s * s);
                (v, v * 16.0 * EPS * (1.0 + 2.0 * m.abs() + 2.0 * s * s))
            }
            Gumbel(_, s) => {
                let v = 1.6449340668482264364724151666460252 * s * s;
                (v, 16.0 * EPS * v)
            }
            Frechet(_, s, a) => {
                if a <= 2.0 {
                    return (f64::INFINITY, 0.0);
                }
                let (q1, q2) = (1.0 - 1.0 / a, 1.0 - 2.0 / a);
                let (g1, g2) = unsafe { (tgamma(q1), tgamma(q2)) };
                (s * s * (g2 - g1 * g1), 50.0 * EPS * s * s * (g2 * (1.0 + 1.0 / q2) + g1 * g1 * (1.0 + 1.0 / q1)))
            }
            Uniform(a, b) => {
                let v = (b - a) * (b - a) / 12.0;
                (v, 8.0 * EPS * v)
            }
        }
    }
}

fn kind(g: &mut G) -> Kind {
    let wide = g.chance(1, 3);
    let (e, lo) = if wide { (60.0, 30.0) } else { (1.0, 1.0) };
    let loc = match g.draw(3) {
        0 => 0.0,
        1 => g.uni(-10.0, 10.0),
        _ => g.flog(-lo, lo),
    };
    let sc = if g.bool() { g.uni(0.1, 4.0) } else { g.plog(-e, e) };
    match g.draw(5) {
        0 => Normal(loc, sc),
        1 => {
            let m = if wide { g.uni(-200.0, 200.0) } else { g.uni(-3.0, 3.0) };
            let s = if wide { g.plog(-6.0, 1.0) } else { g.uni(0.05, 2.0) };
            Lognormal(m, s)
        }
        2 => Gumbel(loc, sc),
        3 => {
            let shape = match g.draw(3) {
                0 => g.int(1, 6) as f64,
                1 => g.uni(0.2, 8.0),
                _ => g.uni(1.5, 40.0),
            };
            Frechet(loc, sc, shape)
        }
        _ => Uniform(loc, loc + sc),
    }
}

fn argument(g: &mut G, k: &Kind) -> f64 {
    match g.draw(8) {
        0 | 1 | 2 | 3 => {
            let u = match k {
                Uniform(..) => g.uni(-0.5, 1.5),
                Lognormal(..) | Normal(..) => g.uni(-9.0, 9.0),
                _ => g.uni(-8.0, 40.0),
            };
            k.at(u)
        }
        4 => k.at(g.flog(-8.0, 2.0)),
        5 => match *k {
            Uniform(a, b) => *g.pick(&[a, b]),
            Frechet(l, ..) => l,
            Lognormal(..) => *g.pick(&[0.0, -1.0, 1.0]),
            Normal(m, _) | Gumbel(m, _) => m,
        },
        6 => *g.pick(&[f64::NEG_INFINITY, f64::INFINITY, 0.0, 1e300, -1e300]),
        _ => g.flog(-20.0, 20.0),
    }
}

fn points(g: &mut G) -> R {
    let k = kind(g);
    if let Uniform(a, b) = k {
        if a >= b {
            discard!();
        }
    }
    let x = argument(g, &k);
    let y = argument(g, &k);
    g.show("kind", &k);
    g.show("x y", &(x, y));
    let d = must("new", "new", k.build())?;
    g.class(k.name());
    for q in [x, y] {
        let (p, tol) = k.pdf(q);
        let got = d.pdf(q);
        ensure!(got >= 0.0, "pdf", "pdf({q:e}) = {got:e}");
        if q.is_finite() {
            if tol < 1e-3 {
                // the cumulative function underflows first in the far tail
                let unit = match k {
                    Normal(_, s) | Gumbel(_, s) | Frechet(_, s, _) => s,
                    Lognormal(_, s) => s * q.max(1e-300),
                    Uniform(a, b) => b - a,
                };
                near("pdf", "pdf", got, p, tol * p + 1e-200 / unit)?;
            }
        } else {
            ensure!(got == 0.0, "pdf", "pdf({q}) = {got:e}");
        }
        let got = d.cdf(q);
        ensure!((0.0..=1.0).contains(&got), "cdf", "cdf({q:e}) = {got:e}");
        if q.is_finite() {
            let (c, tol) = k.cdf(q);
            near("cdf", "cdf", got, c, tol)?;
        } else {
            ensure!(got == if q > 0.0 { 1.0 } else { 0.0 }, "cdf", "cdf({q}) = {got:e}");
        }
    }
    let (a, b) = if x < y { (x, y) } else { (y, x) };
    let (ca, cb) = (d.cdf(a), d.cdf(b));
    ensure!(ca <= cb + 4.0 * EPS, "monotone", "cdf({a:e}) = {ca:e} > cdf({b:e}) = {cb:e}");
    let (m, tol) = k.mean();
    let got = d.mean();
    ensure!(got == m || (got - m).abs() <= tol, "mean", "mean {got:e}, expected {m:e}");
    let (v, tol) = k.variance();
    let got = d.variance();
    ensure!(got == v || (got - v).abs() <= tol, "variance", "variance {got:e}, expected {v:e}");
    g.hit();
    Ok(())
}

/// integral of f(u) over a range where the trapezoidal rule is exponentially accurate
fn trapezoid(a: f64, b: f64, n: usize, f: impl Fn(f64) -> f64) -> f64 {
    let h = (b - a) / n as f64;
    let mut s = 0.5 * (f(a) + f(b));
    for i in 1..n {
        s += f(a + h * i as f64);
    }
    s * h
}

/// the density is the derivative of the cumulative function; moments by integration
fn integrals(g: &mut G) -> R {
    let mut k = kind(g);
    if let Frechet(l, s, _) = k {
        let a = g.uni(2.5, 20.0);
        // the location must not swamp the scale
        k = Frechet(l.clamp(-1e3 * s, 1e3 * s), s, a);
    }
    match &mut k {
        Normal(m, s) | Gumbel(m, s) => *m = m.clamp(-1e3 * *s, 1e3 * *s),
        Lognormal(m, s) => {
            *m = m.clamp(-20.0, 20.0);
            *s = s.clamp(0.01, 1.5);
        }
        Uniform(a, b) => {
            if *b - *a < 1e-6 * a.abs() {
                discard!();
            }
        }
        _ => {}
    }
    g.show("kind", &k);
    g.class(k.name());
    let d = must("new", "new", k.build())?;
    // between two points (Gauss-Legendre of order 10 in small intervals)
    let (u0, u1) = match k {
        Uniform(..) => (g.uni(0.0, 1.0), g.uni(0.0, 1.0)),
        Gumbel(..) | Frechet(..) => (g.uni(-2.5, 6.0), g.uni(-2.5, 6.0)),
        _ => (g.uni(-6.0, 6.0), g.uni(-6.0, 6.0)),
    };
    let (a, b) = if u0 < u1 { (u0, u1) } else { (u1, u0) };
    g.show("range", &(a, b));
    const X: [f64; 5] = [0.1488743389816312, 0.4333953941292472, 0.6794095682990244, 0.8650633666889845, 0.9739065285171717];
    const W: [f64; 5] = [0.2955242247147529, 0.2692667193099963, 0.2190863625159820, 0.1494513491505806, 0.0666713443086881];
    let f = |u: f64| d.pdf(k.at(u)) * k.jac(u);
    let n = 24;
    let h = (b - a) / n as f64;
    let mut s = 0.0;
    for i in 0..n {
        let c = a + h * (i as f64 + 0.5);
        for q in 0..5 {
            s += W[q] * (f(c - 0.5 * h * X[q]) + f(c + 0.5 * h * X[q]));
        }
    }
    s *= 0.5 * h;
    near("derivative", "integral of the density", s, d.cdf(k.at(b)) - d.cdf(k.at(a)), 1e-9)?;
    // moments
    let (lo, hi) = match k {
        Uniform(..) => {
            g.hit();
            return Ok(());
        }
        Normal(..) => (-11.0, 11.0),
        Lognormal(_, s) => (-11.0, 11.0 + 2.0 * s),
        Gumbel(..) => (-5.0, 45.0),
        Frechet(_, _, a) => (-5.0, 32.0 * a / (a - 2.0)),
    };
    let n = if let Frechet(..) = k { 6000 } else { 1500 };
    let m0 = trapezoid(lo, hi, n, f);
    near("total", "total probability", m0, 1.0, 1e-9)?;
    // central moments in units of the scale
    let (mean, var) = (d.mean(), d.variance());
    let sd = var.sqrt();
    let m1 = trapezoid(lo, hi, n, |u| f(u) * (k.at(u) - mean) / sd);
    let m2 = trapezoid(lo, hi, n, |u| f(u) * ((k.at(u) - mean) / sd).powi(2));
    near("mean", "first central moment", m1, 0.0, 1e-6)?;
    near("variance", "second central moment", m2, 1.0, 1e-6)?;
    g.hit();
    Ok(())
}

/// parameters given as mean and standard deviation
fn conversions(g: &mut G) -> R {
    let mu = if g.bool() { g.uni(0.1, 10.0) } else { g.flog(-20.0, 20.0) };
    let sig = match g.draw(3) {
        0 => g.uni(0.1, 10.0),
        1 => mu.abs() * g.plog(-7.0, 2.0),
        _ => g.plog(-15.0, 15.0),
    };
    g.show("mu sig", &(mu, sig));
    let x = mu + sig * g.uni(-3.0, 3.0);
    let d = must("gumbel", "new_from_mu_sig", DistributionGumbel::new_from_mu_sig(mu, sig))?;
    near("gumbel", "mean", d.mean(), mu, 16.0 * EPS * (mu.abs() + sig))?;
    near("gumbel", "standard deviation", d.variance().sqrt(), sig, 32.0 * EPS * sig)?;
    let scale = sig * 6f64.sqrt() / std::f64::consts::PI;
    let e = must("gumbel", "new", DistributionGumbel::new(mu - 0.5772156649015329 * scale, scale))?;
    let slack = 64.0 * EPS * (1.0 + mu.abs() / sig);
    if slack < 1e-3 {
        near("gumbel", "cdf", d.cdf(x), e.cdf(x), slack)?;
    }
    if mu > 0.0 && sig / mu < 1e6 {
        let d = must("lognormal", "new_from_mu_sig", DistributionLognormal::new_from_mu_sig(mu, sig))?;
        let c = sig / mu;
        let l = mu.ln().abs() + 1.0 + c.ln().abs();
        near("lognormal", "mean", d.mean(), mu, 64.0 * EPS * mu * l)?;
        near("lognormal", "standard deviation", d.variance().sqrt(), sig, 64.0 * EPS * sig * l)?;
        // median
        let med = mu / (1.0 + c * c).sqrt();
        near("lognormal", "median", d.cdf(med), 0.5, 64.0 * EPS * l * (1.0 + 1.0 / c))?;
        g.class("lognormal");
    } else {
        g.class("gumbel only");
    }
    g.hit();
    Ok(())
}

/// parameters that describe no distribution
fn invalid(g: &mut G) -> R {
    let bad = *g.pick(&[-1.0, -1e-3, 0.0, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, -5.0]);
    let nan = *g.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY]);
    let loc = g.uni(-5.0, 5.0);
    let pos = g.uni(0.1, 5.0);
    let which = g.draw(11);
    g.show("case", &(which, bad, nan, loc, pos));
    let r = match which {
        0 => Normal(loc, bad).build(),
        1 => Lognormal(loc, bad).build(),
        2 => Gumbel(loc, bad).build(),
        3 => Frechet(loc, bad, pos).build(),
        4 => Frechet(loc, pos, bad).build(),
        5 => Uniform(loc, loc - pos).build(),
        6 => g.pick(&[Normal(nan, pos), Gumbel(nan, pos), Frechet(nan, pos, pos), Lognormal(nan, pos)]).build(),
        7 => Uniform(nan, loc).build(),
        8 => Uniform(loc, nan).build(),
        9 => DistributionLognormal::new_from_mu_sig(-pos, pos).map(Dist::L),
        _ => DistributionGumbel::new_from_mu_sig(loc, bad).map(Dist::G),
    };
    must_err("accepted", "invalid parameters", r.map(|_| ()))?;
    must_err("accepted", "invalid deviation", DistributionLognormal::new_from_mu_sig(pos, bad).map(|_| ()))?;
    g.hit();
    Ok(())
}

/// generated numbers follow the cumulative function (Kolmogorov-Smirnov statistic)
fn samples(g: &mut G) -> R {
    let k = kind(g);
    if let Uniform(a, b) = k {
        if b - a < 1e-6 * a.abs() {
            discard!();
        }
    }
    match k {
        Normal(m, s) | Gumbel(m, s) | Frechet(m, s, _) if s < 1e-6 * m.abs() => discard!(),
        _ => {}
    }
    let seed = g.draw(u64::MAX);
    g.show("kind", &k);
    g.show("seed", &seed);
    g.class(k.name());
    let d = must("new", "new", k.build())?;
    let mut rng = StdRng::seed_from_u64(seed);
    let n = 4000;
    let mut x: Vec<f64> = (0..n).map(|_| d.sample(&mut rng)).collect();
    ensure!(x.iter().all(|v| !v.is_nan()), "sample", "NaN generated");
    x.sort_by(|a, b| a.total_cmp(b));
    let mut ks: f64 = 0.0;
    for i in 0..n {
        let c = k.cdf(x[i]).0;
        let c = if x[i] == f64::INFINITY { 1.0 } else { c };
        ks = ks.max((i + 1) as f64 / n as f64 - c).max(c - i as f64 / n as f64);
    }
    let stat = ks * (n as f64).sqrt();
    // probability of exceeding 3.6 is about 1e-11
    ensure!(stat < 3.6, "sample", "Kolmogorov-Smirnov statistic {stat}");
    // the same generator state gives the same numbers
    let mut r1 = StdRng::seed_from_u64(seed);
    let mut r2 = StdRng::seed_from_u64(seed);
    for _ in 0..10 {
        let (a, b) = (d.sample(&mut r1), d.sample(&mut r2));
        ensure!(a.to_bits() == b.to_bits(), "repeat", "{a} {b}");
    }
    g.hit();
    Ok(())
}

pub fn property() -> Property {
    Property {
        id: "C16",
        assumptions: &[
            "cumulative functions are compared with an absolute tolerance (rounding level), densities with a relative one",
            "a zero standard deviation or scale is invalid",
            "the sampling law uses 4000 numbers per case: deviations of the cumulative function below 5% are not seen by it",
        ],
        laws: vec![
            Law { name: "points", quick: 4_000_000, rule: "density, cumulative function, mean and variance were compared at two arguments", f: points },
            Law { name: "integrals", quick: 60_000, rule: "the density was integrated", f: integrals },
            Law { name: "conversions", quick: 1_500_000, rule: "a distribution built from mean and deviation was checked", f: conversions },
            Law { name: "invalid", quick: 200_000, rule: "invalid parameters were given", f: invalid },
            Law { name: "samples", quick: 40_000, rule: "4000 numbers were compared with the cumulative function", f: samples },
        ],
    }
}
