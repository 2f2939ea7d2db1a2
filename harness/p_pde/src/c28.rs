//! Spectral collocation.
use crate::util::*;
use russell_lab::Vector;
use russell_pde::*;
use vp_engine::*;

pub fn property() -> Property {
    Property {
        id: "C28",
        assumptions: &[
            "coefficients of one sign and a problem with exactly one solution (a prescribed value or a zero-order term)",
            "up to 14 points per direction for polynomial solutions; relative error limit 1e-8 (1e-6 on mapped domains)",
            "mapped domains: corner angles between about 35 and 145 degrees, flux conditions on straight sides and circular arcs",
        ],
        laws: vec![
            Law {
                name: "line",
                quick: 100000,
                rule: "four points or more and a solution of degree two or more",
                f: line,
            },
            Law {
                name: "plane",
                quick: 25000,
                rule: "four points or more per direction and a solution of degree two or more",
                f: plane,
            },
            Law {
                name: "smooth",
                quick: 1500,
                rule: "every case",
                f: smooth,
            },
            Law {
                name: "mapped",
                quick: 30000,
                rule: "a solution of degree one or more",
                f: mapped,
            },
            Law {
                name: "ring",
                quick: 700,
                rule: "a solution of degree one or more",
                f: ring,
            },
            Law {
                name: "samples",
                quick: 2500,
                rule: "every case",
                f: samples,
            },
            Law {
                name: "refuse",
                quick: 5000,
                rule: "every case",
                f: refuse,
            },
        ],
    }
}

fn solved(key: &'static str, what: &str, f: impl FnOnce() -> Result<Vector, &'static str>) -> Result<Vector, Stop> {
    match catch(f) {
        Ok(Ok(a)) => Ok(a),
        Ok(Err(e)) => fail(key, format!("{}: {}", what, e)),
        Err((m, l)) => fail(key, format!("{}: {} at {}", what, m, l)),
    }
}

fn line(g: &mut G) -> R {
    let k = kinds(g, 1, false);
    let n = g.us(if k == [Kind::N; 2] { 3 } else { 2 }, 14);
    let o = [g.f(-3.0, 3.0), 0.0];
    let l = [g.plog(-1.0, 1.0), 1.0];
    let sign = if g.chance(1, 5) { -1.0 } else { 1.0 };
    let kx = sign * g.plog(-1.0, 1.0);
    let al = alpha(g, kx / (l[0] * l[0]), !k.contains(&Kind::E));
    let deg = g.us(0, n - 1);
    let f = polynomial(g, o, l, deg, 0);
    g.show("sides, points, start, length, k, alpha", &(&k, n, o[0], l[0], kx, al));
    g.show("solution", &f);
    if n > 3 && deg > 1 {
        g.hit();
    }
    let ff = f.clone();
    let (eb, nb) = bcs1(g, &k, &vec![f.clone(); 2], move |s, x| ff.flux(s, kx, 0.0, x, 0.0));
    let p = must("line:new", "solver", Spc1d::new(o[0], o[0] + l[0], n, eb, nb, kx))?;
    let size = f.size() + 1e-300;
    let mut xs = vec![0.0; n];
    p.for_each_coord(|m, x| xs[m] = x);
    for m in 0..n {
        let x = o[0] + l[0] * (1.0 - (std::f64::consts::PI * m as f64 / (n - 1) as f64).cos()) / 2.0;
        near("line:points", "point", xs[m], x, 1e-13 * (o[0].abs() + l[0]))?;
    }
    for lmm in [false, true] {
        let s = |x: f64| f.source(kx, 0.0, al, x, 0.0);
        let what = if lmm { "multipliers" } else { "elimination" };
        let a = solved("line:solve", what, || if lmm { p.solve_lmm(al, s) } else { p.solve_sps(al, s) })?;
        ensure!(a.dim() == n, "line:size", "{} values for {} points", a.dim(), n);
        let w = must("line:flow", "flow", p.calculate_flow_vectors(&a))?;
        ensure!(w.len() == n, "line:size", "{} flows for {} points", w.len(), n);
        for m in 0..n {
            near("line:value", &format!("{}: value at point {}", what, m), a[m], f.v(xs[m], 0.0), 1e-8 * size)?;
            let flow = -kx * f.d(1, 0, xs[m], 0.0);
            near("line:flow", &format!("{}: flow at point {}", what, m), w[m], flow, 1e-6 * size * kx.abs() / l[0])?;
        }
    }
    Ok(())
}

/// two flux conditions along one direction need an inner point
fn least(k: &[Kind], lo: usize) -> usize {
    if k[0] == Kind::N && k[1] == Kind::N { lo.max(3) } else { lo }
}

struct Plane {
    k: Vec<Kind>,
    n: [usize; 2],
    o: [f64; 2],
    l: [f64; 2],
    kx: f64,
    ky: f64,
    al: f64,
}

fn plane_case(g: &mut G, lo: usize, hi: usize) -> Plane {
    let k = kinds(g, 2, false);
    let n = [g.us(least(&k[..2], lo), hi), g.us(least(&k[2..], lo), hi)];
    let o = [g.f(-3.0, 3.0), g.f(-3.0, 3.0)];
    let lx = g.plog(-1.0, 1.0);
    let l = [lx, lx * g.plog(-0.5, 0.5)];
    let sign = if g.chance(1, 5) { -1.0 } else { 1.0 };
    let kx = sign * g.plog(-1.0, 1.0);
    let ky = kx * g.plog(-0.5, 0.5);
    let al = alpha(g, kx / (lx * lx), !k.contains(&Kind::E));
    g.show("sides, points", &(&k, n));
    g.show("start, lengths, kx, ky, alpha", &(o, l, kx, ky, al));
    Plane { k, n, o, l, kx, ky, al }
}

fn check_plane(g: &mut G, c: &Plane, f: &Field, tol: f64, both: bool) -> R {
    let ff = f.clone();
    let (kx, ky, al) = (c.kx, c.ky, c.al);
    let (eb, nb) = bcs2(g, &c.k, &vec![f.clone(); 4], move |s, x, y| ff.flux(s, kx, ky, x, y));
    let p = must("plane:new", "solver", Spc2d::new(c.o[0], c.o[0] + c.l[0], c.o[1], c.o[1] + c.l[1], c.n[0], c.n[1], eb, nb, kx, ky))?;
    let size = f.size() + 1e-300;
    let neq = c.n[0] * c.n[1];
    let mut xs = vec![(0.0, 0.0); neq];
    p.for_each_coord(|m, x, y| xs[m] = (x, y));
    let pi = std::f64::consts::PI;
    for m in 0..neq {
        let (i, j) = (m % c.n[0], m / c.n[0]);
        let x = c.o[0] + c.l[0] * (1.0 - (pi * i as f64 / (c.n[0] - 1) as f64).cos()) / 2.0;
        let y = c.o[1] + c.l[1] * (1.0 - (pi * j as f64 / (c.n[1] - 1) as f64).cos()) / 2.0;
        near("plane:points", "point", xs[m].0, x, 1e-13 * (c.o[0].abs() + c.l[0]))?;
        near("plane:points", "point", xs[m].1, y, 1e-13 * (c.o[1].abs() + c.l[1]))?;
    }
    let first = if both { false } else { g.bool() };
    for lmm in [false, true] {
        if !both && lmm != first {
            continue;
        }
        let s = |x: f64, y: f64| f.source(kx, ky, al, x, y);
        let what = if lmm { "multipliers" } else { "elimination" };
        let a = solved("plane:solve", what, || if lmm { p.solve_lmm(al, s) } else { p.solve_sps(al, s) })?;
        ensure!(a.dim() == neq, "plane:size", "{} values for {} points", a.dim(), neq);
        let (wx, wy) = must("plane:flow", "flow", p.calculate_flow_vectors(&a))?;
        for m in 0..neq {
            let (x, y) = xs[m];
            near("plane:value", &format!("{}: value at point {}", what, m), a[m], f.v(x, y), tol * size)?;
            near("plane:flow", &format!("{}: x flow at point {}", what, m), wx[m], -kx * f.d(1, 0, x, y), 100.0 * tol * size * kx.abs() / c.l[0])?;
            near("plane:flow", &format!("{}: y flow at point {}", what, m), wy[m], -ky * f.d(0, 1, x, y), 100.0 * tol * size * ky.abs() / c.l[1])?;
        }
    }
    Ok(())
}

fn plane(g: &mut G) -> R {
    let c = plane_case(g, 2, 9);
    let (px, py) = (g.us(0, c.n[0] - 1), g.us(0, c.n[1] - 1));
    let f = polynomial(g, c.o, c.l, px, py);
    g.show("solution", &f);
    if c.n[0] > 3 && c.n[1] > 3 && px.max(py) > 1 {
        g.hit();
    }
    check_plane(g, &c, &f, 1e-8, true)
}

/// many points: smooth solutions to nearly all digits
fn smooth(g: &mut G) -> R {
    let c = plane_case(g, 15, 17);
    let f = waves(g, c.o, c.l, 4.0, 2);
    g.show("solution", &f);
    g.hit();
    check_plane(g, &c, &f, 1e-7, false)
}

type P2 = [f64; 2];

/// four corners (counter-clockwise), possibly with parabolic sides: side q goes from its first to its second corner
#[derive(Clone, Debug)]
struct Quad {
    p: [P2; 4],
    /// bulge of the sides B0(s), B1(s), B2(r), B3(r): times (1 - t²)
    b: [P2; 4],
}

impl Quad {
    /// end points of the boundary curves
    fn ends(&self, q: usize) -> (P2, P2) {
        let p = &self.p;
        match q {
            0 => (p[0], p[3]),
            1 => (p[1], p[2]),
            2 => (p[0], p[1]),
            _ => (p[3], p[2]),
        }
    }
    fn map(&self) -> Transfinite2d {
        let mut f0: Vec<FnVec1Param1> = Vec::new();
        let mut f1: Vec<FnVec1Param1> = Vec::new();
        let mut f2: Vec<FnVec1Param1> = Vec::new();
        for q in 0..4 {
            let (a, e) = self.ends(q);
            let b = self.b[q];
            f0.push(Box::new(move |x: &mut Vector, t: f64| {
                for d in 0..2 {
                    x[d] = 0.5 * (1.0 - t) * a[d] + 0.5 * (1.0 + t) * e[d] + b[d] * (1.0 - t * t);
                }
            }));
            f1.push(Box::new(move |x: &mut Vector, t: f64| {
                for d in 0..2 {
                    x[d] = 0.5 * (e[d] - a[d]) - 2.0 * b[d] * t;
                }
            }));
            f2.push(Box::new(move |x: &mut Vector, _t: f64| {
                for d in 0..2 {
                    x[d] = -2.0 * b[d];
                }
            }));
        }
        Transfinite2d::new(f0, f1, Some(f2)).unwrap()
    }
    /// outgoing unit normal of a straight side
    fn normal(&self, q: usize) -> P2 {
        let (a, e) = self.ends(q);
        let t = [e[0] - a[0], e[1] - a[1]];
        let len = t[0].hypot(t[1]);
        let c = [0.25 * self.p.iter().map(|p| p[0]).sum::<f64>(), 0.25 * self.p.iter().map(|p| p[1]).sum::<f64>()];
        let n = [t[1] / len, -t[0] / len];
        let mid = [0.5 * (a[0] + e[0]) - c[0], 0.5 * (a[1] + e[1]) - c[1]];
        if n[0] * mid[0] + n[1] * mid[1] > 0.0 { n } else { [-n[0], -n[1]] }
    }
}

fn mapped(g: &mut G) -> R {
    // a distorted square, turned and scaled
    let th = g.f(-3.2, 3.2);
    let sz = g.plog(-0.5, 0.7);
    let o = [g.f(-2.0, 2.0), g.f(-2.0, 2.0)];
    let base = [[0.0, 0.0], [1.0, 0.0], [1.0, 1.0], [0.0, 1.0]];
    let shear = if g.bool() { g.f(-0.6, 0.6) } else { 0.0 };
    let dist = if g.bool() { 0.2 } else { 0.0 };
    let mut p = [[0.0; 2]; 4];
    for q in 0..4 {
        let mut u = [base[q][0] + g.f(-dist, dist), base[q][1] + g.f(-dist, dist)];
        u[0] += shear * u[1];
        p[q] = [o[0] + sz * (th.cos() * u[0] - th.sin() * u[1]), o[1] + sz * (th.sin() * u[0] + th.cos() * u[1])];
    }
    let curved = g.chance(1, 3);
    let mut b = [[0.0; 2]; 4];
    let mut straight = [true; 4];
    if curved {
        for q in 0..4 {
            if g.bool() {
                b[q] = [sz * g.f(-0.08, 0.08), sz * g.f(-0.08, 0.08)];
                straight[q] = b[q] == [0.0, 0.0];
            }
        }
    }
    let quad = Quad { p, b };
    let mut k = kinds(g, 2, false);
    for q in 0..4 {
        if !straight[q] {
            k[q] = Kind::E;
        }
    }
    let kk = if g.chance(1, 4) { -g.plog(-1.0, 1.0) } else { g.plog(-1.0, 1.0) };
    let al = alpha(g, kk / (sz * sz), !k.contains(&Kind::E));
    let pw = if straight == [true; 4] { 1 } else { 2 };
    let deg = g.us(0, if pw == 1 { 5 } else { 3 });
    let n = [g.us(least(&k[..2], (pw * deg + 1).max(2)), pw * deg + 3), g.us(least(&k[2..], (pw * deg + 1).max(2)), pw * deg + 3)];
    let mut f = polynomial(g, o, [sz, sz], deg, deg);
    for i in 0..=deg {
        for j in 0..=deg {
            if i + j > deg {
                f.c[i][j] = 0.0;
            }
        }
    }
    g.show("domain", &quad);
    g.show("sides, points, k, alpha", &(&k, n, kk, al));
    g.show("solution", &f);
    if deg > 0 {
        g.hit();
    }
    if k.contains(&Kind::N) {
        g.class("flux");
        if shear != 0.0 || dist != 0.0 {
            g.class("flux on oblique");
        }
    }
    let ff = f.clone();
    let qq = quad.clone();
    let flux = move |s: usize, x: f64, y: f64| {
        let n = qq.normal(s);
        -kk * (ff.d(1, 0, x, y) * n[0] + ff.d(0, 1, x, y) * n[1])
    };
    let (eb, nb) = bcs2(g, &k, &vec![f.clone(); 4], flux);
    let mut sp = must("mapped:new", "solver", SpcMap2d::new(quad.map(), n[0], n[1], eb, nb, kk))?;
    // values at the corners of the physical domain
    check_map(&mut sp, &f, n[0] * n[1], kk, al, sz, 1e-6, "mapped:value", "mapped:flow", "mapped:solve")
}

fn check_map(sp: &mut SpcMap2d, f: &Field, neq: usize, kk: f64, al: f64, sz: f64, tol: f64, kv: &'static str, kf: &'static str, ks: &'static str) -> R {
    let mut xs = vec![(0.0, 0.0); neq];
    sp.for_each_coord(|m, x, y| xs[m] = (x, y));
    // the first and last nodes are corners of the reference square
    let mut c = Vector::new(2);
    for (m, r) in [(0, -1.0), (neq - 1, 1.0)] {
        sp.get_map().point(&mut c, r, r);
        let d = 1e-12 * (xs[m].0.abs() + xs[m].1.abs() + 1.0);
        ensure!((c[0] - xs[m].0).abs() <= d && (c[1] - xs[m].1).abs() <= d, kv, "node {} is at {:?} instead of ({},{})", m, xs[m], c[0], c[1]);
    }
    let mut size = 0.0;
    for p in &xs {
        size = f64::max(size, f.v(p.0, p.1).abs());
    }
    let size = size.max(f.size());
    for lmm in [false, true] {
        let s = |x: f64, y: f64| f.source(kk, kk, al, x, y);
        let what = if lmm { "multipliers" } else { "elimination" };
        let a = solved(ks, what, || if lmm { sp.solve_lmm(al, s) } else { sp.solve_sps(al, s) })?;
        ensure!(a.dim() == neq, kv, "{} values for {} points", a.dim(), neq);
        let (wx, wy) = must(kf, "flow", sp.calculate_flow_vectors(&a))?;
        for m in 0..neq {
            let (x, y) = xs[m];
            near(kv, &format!("{}: value at point {} ({},{})", what, m, x, y), a[m], f.v(x, y), tol * size)?;
            near(kf, &format!("{}: x flow at point {}", what, m), wx[m], -kk * f.d(1, 0, x, y), 100.0 * tol * size * kk.abs() / sz)?;
            near(kf, &format!("{}: y flow at point {}", what, m), wy[m], -kk * f.d(0, 1, x, y), 100.0 * tol * size * kk.abs() / sz)?;
        }
    }
    Ok(())
}

fn ring(g: &mut G) -> R {
    let kind = g.us(0, 2);
    let a = g.plog(-0.5, 0.5);
    let b = a * g.f(1.5, 3.0);
    let mut k = kinds(g, 2, false);
    if kind == 2 && k[1] == Kind::N {
        k[1] = Kind::E;
    }
    let kk = if g.chance(1, 4) { -g.plog(-1.0, 1.0) } else { g.plog(-1.0, 1.0) };
    let al = alpha(g, kk / (b * b), !k.contains(&Kind::E));
    let deg = g.us(0, 2);
    let n = [g.us(14, 17), g.us(16, 18)];
    let f = polynomial(g, [0.0, 0.0], [b, b], deg, deg);
    g.show("kind, radii, sides, points, k, alpha", &(kind, (a, b), &k, n, kk, al));
    g.show("solution", &f);
    if deg > 0 {
        g.hit();
    }
    let map = match kind {
        0 => TransfiniteSamples::quarter_ring_2d(a, b),
        1 => TransfiniteSamples::half_ring_2d(a, b),
        _ => TransfiniteSamples::quarter_perforated_lozenge_2d(a, b),
    };
    let ff = f.clone();
    let flux = move |s: usize, x: f64, y: f64| {
        let r = x.hypot(y);
        let n = match s {
            0 => [-x / r, -y / r],
            1 => [x / r, y / r],
            2 => [0.0, -1.0],
            _ if kind == 1 => [0.0, -1.0],
            _ => [-1.0, 0.0],
        };
        -kk * (ff.d(1, 0, x, y) * n[0] + ff.d(0, 1, x, y) * n[1])
    };
    let (eb, nb) = bcs2(g, &k, &vec![f.clone(); 4], flux);
    let mut sp = must("ring:new", "solver", SpcMap2d::new(map, n[0], n[1], eb, nb, kk))?;
    check_map(&mut sp, &f, n[0] * n[1], kk, al, a, 1e-5, "ring:value", "ring:flow", "ring:solve")
}

/// first and second derivatives by differences of eighth order
fn diff(f: impl Fn(f64) -> f64, h: f64) -> (f64, f64) {
    let c1 = [4.0 / 5.0, -1.0 / 5.0, 4.0 / 105.0, -1.0 / 280.0];
    let c2 = [8.0 / 5.0, -1.0 / 5.0, 8.0 / 315.0, -1.0 / 560.0];
    let mut d1 = 0.0;
    let mut d2 = -205.0 / 72.0 * f(0.0);
    for i in 0..4 {
        let t = (i + 1) as f64 * h;
        d1 += c1[i] * (f(t) - f(-t));
        d2 += c2[i] * (f(t) + f(-t));
    }
    (d1 / h, d2 / (h * h))
}

/// the library of problems: solution, source and flow belong together, and the solver finds the solution
fn samples(g: &mut G) -> R {
    let which = g.us(0, 14);
    g.show("problem", &which);
    g.hit();
    if which > 12 {
        let a = g.plog(-0.3, 0.3);
        let b = a * g.f(1.5, 3.0);
        let v = g.f(0.5, 2.0);
        let lozenge = which == 13 && g.bool();
        g.show("radii, speed, lozenge", &(a, b, v, lozenge));
        let (map, k, eb, nb, s, f) = if which == 13 { ProblemSamples::d2_problem_08(a, b, lozenge) } else { ProblemSamples::d2_problem_09(a, b, v) };
        let mut top = 0.0;
        for q in 0..=10 {
            let (si, co) = (std::f64::consts::PI * q as f64 / (if which == 13 { 20.0 } else { 10.0 })).sin_cos();
            top = f64::max(top, f(a * co, a * si).abs().max(f(b * co, b * si).abs()));
        }
        let top = f64::max(top, 0.1);
        // equation inside
        let (rho, th) = (g.f(a, b) * if lozenge { 0.7 } else { 1.0 }, g.f(0.1, 1.4));
        if rho >= a * 1.1 && rho < 0.95 * b {
            let (x, y) = (rho * th.cos(), rho * th.sin());
            let h = 0.02 * a;
            let (_, dxx) = diff(|t| f(x + t, y), h);
            let (_, dyy) = diff(|t| f(x, y + t), h);
            near("samples:equation", &format!("equation at ({},{})", x, y), -k * (dxx + dyy), s(x, y), 1e-6 * k.abs() * top / (a * a) * 20.0)?;
        }
        let mut sp = must("samples:new", "solver", SpcMap2d::new(map, 16, 18, eb, nb, k))?;
        let u = solved("samples:solve", "mapped", || sp.solve_sps(0.0, &s))?;
        let mut r = Ok(());
        sp.for_each_coord(|m, x, y| {
            if r.is_ok() {
                r = near("samples:value", &format!("value at ({},{})", x, y), u[m], f(x, y), 1e-3 * top);
            }
        });
        return r;
    }
    type F1 = Box<dyn Fn(f64) -> f64>;
    type F2 = Box<dyn Fn(f64, f64) -> f64>;
    type W2 = Box<dyn Fn(f64, f64) -> (f64, f64)>;
    if which < 6 {
        let (xa, xb, kx, al, eb, nb, s, f, w): (f64, f64, f64, f64, _, _, F1, F1, Option<F1>);
        match which {
            0 => {
                let p = ProblemSamples::d1_problem_01();
                (xa, xb, kx, al, eb, nb, s, f, w) = (p.0, p.1, p.2, 0.0, p.3, p.4, p.5, p.6, Some(p.7));
            }
            1 => {
                let p = ProblemSamples::d1_problem_02();
                (xa, xb, kx, al, eb, nb, s, f, w) = (p.0, p.1, p.2, p.3, p.4, p.5, p.6, p.7, None);
            }
            2 => {
                let p = ProblemSamples::d1_problem_03();
                (xa, xb, kx, al, eb, nb, s, f, w) = (p.0, p.1, p.2, p.3, p.4, p.5, p.6, p.7, None);
            }
            3 => {
                let p = ProblemSamples::d1_problem_04a();
                (xa, xb, kx, al, eb, nb, s, f, w) = (p.0, p.1, p.2, 0.0, p.3, p.4, p.5, p.6, None);
            }
            4 => {
                let p = ProblemSamples::d1_problem_04b();
                (xa, xb, kx, al, eb, nb, s, f, w) = (p.0, p.1, p.2, 0.0, p.3, p.4, p.5, p.6, None);
            }
            _ => {
                let l = g.f(0.5, 2.0);
                let z = g.f(0.2, 5.0);
                if z.cos().abs() < 0.2 {
                    discard!();
                }
                let (g0, pl) = (g.f(-2.0, 2.0), g.f(-2.0, 2.0));
                g.show("length, angle, slope, value", &(l, z, g0, pl));
                let p = ProblemSamples::d1_problem_05(z / l, l, g0, pl);
                (xa, xb, kx, al, eb, nb, s, f, w) = (p.0, p.1, p.2, z * z / (l * l), p.3, p.4, p.5, p.6, Some(p.7));
            }
        }
        let len = xb - xa;
        let h = len * 0.01;
        let x = g.f(xa + 5.0 * h, xb - 5.0 * h);
        let (d1, d2) = diff(|t| f(x + t), h);
        let top = (0..=20).map(|i| f(xa + len * i as f64 / 20.0).abs()).fold(0.0, f64::max);
        let scale = kx.abs() * top / (len * len) * 100.0 + al.abs() * top + s(x).abs();
        near("samples:equation", &format!("equation at {}", x), -kx * d2 + al * f(x), s(x), 1e-7 * scale)?;
        if let Some(w) = w {
            near("samples:flow", &format!("flow at {}", x), w(x), -kx * d1, 1e-7 * kx.abs() * top / len * 10.0)?;
        }
        let n = g.us(22, 30);
        let sp = must("samples:new", "solver", Spc1d::new(xa, xb, n, eb, nb, kx))?;
        let a = solved("samples:solve", "line", || sp.solve_sps(al, &s))?;
        let mut r = Ok(());
        sp.for_each_coord(|m, x| {
            if r.is_ok() {
                r = near("samples:value", &format!("value at {}", x), a[m], f(x), 1e-6 * top);
            }
        });
        return r;
    }
    let (b, k, al, eb, nb, s, f, w): ([f64; 4], (f64, f64), f64, _, _, F2, F2, Option<W2>);
    let mut tol = 1e-4;
    let mut n = 0;
    match which {
        6 => {
            let p = ProblemSamples::d2_problem_01(g.bool());
            (b, k, al, eb, nb, s, f, w) = ([p.0, p.1, p.2, p.3], (p.4, p.5), 0.0, p.6, p.7, p.8, p.9, Some(p.10));
        }
        7 => {
            let p = ProblemSamples::d2_problem_02();
            (b, k, al, eb, nb, s, f, w) = ([p.0, p.1, p.2, p.3], (p.4, p.5), 0.0, p.6, p.7, p.8, p.9, None);
        }
        8 => {
            let (kk, a) = (g.plog(-1.0, 1.0), if g.bool() { 0.0 } else { g.plog(-1.0, 1.0) });
            let combo = *g.pick(&["DDDD", "NNDD", "NDND", "DNND", "DDNN"]);
            g.show("k, alpha, combination", &(kk, a, combo));
            let p = ProblemSamples::d2_problem_03(kk, a, combo);
            (b, k, al, eb, nb, s, f, w) = ([p.0, p.1, p.2, p.3], (p.4, p.5), a, p.6, p.7, p.8, p.9, Some(p.10));
        }
        9 => {
            let p = ProblemSamples::d2_problem_04(80);
            (b, k, al, eb, nb, s, f, w) = ([p.0, p.1, p.2, p.3], (p.4, p.5), 0.0, p.6, p.7, p.8, p.9, None);
        }
        10 => {
            let p = ProblemSamples::d2_problem_05();
            (b, k, al, eb, nb, s, f, w) = ([p.0, p.1, p.2, p.3], (p.4, p.5), 0.0, p.6, p.7, p.8, p.9, None);
        }
        11 => {
            let p = ProblemSamples::d2_problem_06();
            (b, k, al, eb, nb, s, f, w) = ([p.0, p.1, p.2, p.3], (p.4, p.5), 0.0, p.6, p.7, p.8, p.9, None);
            tol = 1e-3;
        }
        _ => {
            let p = ProblemSamples::d2_problem_07();
            (b, k, al, eb, nb, s, f, w) = ([p.0, p.1, p.2, p.3], (p.4, p.5), 0.0, p.6, p.7, p.8, p.9, None);
            n = 22;
        }
    }
    let (lx, ly) = (b[1] - b[0], b[3] - b[2]);
    let (hx, hy) = (0.005 * lx, 0.005 * ly);
    // the series converges slowly near the sides
    let away = if which == 9 { 0.25 } else { 0.03 };
    let (x, y) = (b[0] + lx * g.f(away, 1.0 - away), b[2] + ly * g.f(away, 1.0 - away));
    let (dx, dxx) = diff(|t| f(x + t, y), hx);
    let (dy, dyy) = diff(|t| f(x, y + t), hy);
    let mut top = 0.0;
    for i in 0..=20 {
        for j in 0..=20 {
            top = f64::max(top, f(b[0] + lx * i as f64 / 20.0, b[2] + ly * j as f64 / 20.0).abs());
        }
    }
    let scale = 100.0 * (k.0.abs() * top / (lx * lx) + k.1.abs() * top / (ly * ly)) + al.abs() * top;
    near("samples:equation", &format!("equation at ({},{})", x, y), -k.0 * dxx - k.1 * dyy + al * f(x, y), s(x, y), 1e-7 * scale)?;
    if let Some(w) = w {
        let (wx, wy) = w(x, y);
        near("samples:flow", &format!("x flow at ({},{})", x, y), wx, -k.0 * dx, 1e-7 * k.0.abs() * top / lx * 20.0)?;
        near("samples:flow", &format!("y flow at ({},{})", x, y), wy, -k.1 * dy, 1e-7 * k.1.abs() * top / ly * 20.0)?;
    }
    let n = if n > 0 { n } else { g.us(13, 15) };
    let sp = must("samples:new", "solver", Spc2d::new(b[0], b[1], b[2], b[3], n, n, eb, nb, k.0, k.1))?;
    let a = solved("samples:solve", "plane", || sp.solve_sps(al, &s))?;
    let mut r = Ok(());
    sp.for_each_coord(|m, x, y| {
        if r.is_ok() {
            r = near("samples:value", &format!("value at ({},{})", x, y), a[m], f(x, y), tol * top);
        }
    });
    r
}

fn refuse(g: &mut G) -> R {
    g.hit();
    let which = g.us(0, 5);
    g.show("which", &which);
    let wrong = Vector::new(g.us(0, 3));
    let mut e1 = EssentialBcs1d::new();
    let mut e2 = EssentialBcs2d::new();
    e1.set_homogeneous();
    e2.set_homogeneous();
    let (n1, n2) = (NaturalBcs1d::new(), NaturalBcs2d::new());
    let few = g.us(0, 1);
    let square = || TransfiniteSamples::quadrilateral_2d(&[0.0, 0.0], &[1.0, 0.0], &[1.0, 1.0], &[0.0, 1.0]);
    match which {
        0 => {
            must_err("refuse:points", "too few points on a line", Spc1d::new(0.0, 1.0, few, e1, n1, 1.0).map(|_| ()))
        }
        1 => {
            let (nx, ny) = if g.bool() { (few, 4) } else { (4, few) };
            must_err("refuse:points", "too few points on a plane", Spc2d::new(0.0, 1.0, 0.0, 1.0, nx, ny, e2, n2, 1.0, 1.0).map(|_| ()))
        }
        2 => {
            let (nx, ny) = if g.bool() { (few, 4) } else { (4, few) };
            must_err("refuse:points", "too few points on a mapped domain", SpcMap2d::new(square(), nx, ny, e2, n2, 1.0).map(|_| ()))
        }
        3 => {
            let mut e = EssentialBcs1d::new();
            e.set_periodic(true);
            must_err("refuse:periodic", "periodic line", Spc1d::new(0.0, 1.0, 5, e, n1, 1.0).map(|_| ()))
        }
        4 => {
            let mut e = EssentialBcs2d::new();
            e.set_homogeneous();
            if g.bool() {
                e.set_periodic(true, g.bool());
            } else {
                e.set_periodic(g.bool(), true);
            }
            if g.bool() {
                must_err("refuse:periodic", "periodic plane", Spc2d::new(0.0, 1.0, 0.0, 1.0, 5, 5, e, n2, 1.0, 1.0).map(|_| ()))
            } else {
                must_err("refuse:periodic", "periodic mapped domain", SpcMap2d::new(square(), 4, 4, e, n2, 1.0).map(|_| ()))
            }
        }
        _ => {
            let a = must("refuse:new", "line", Spc1d::new(0.0, 1.0, 5, e1, n1, 1.0))?;
            must_err("refuse:flow", "flow of a wrong vector", a.calculate_flow_vectors(&wrong))?;
            let p = must("refuse:new", "plane", Spc2d::new(0.0, 1.0, 0.0, 1.0, 3, 3, e2, n2, 1.0, 1.0))?;
            must_err("refuse:flow", "flow of a wrong vector", p.calculate_flow_vectors(&wrong))
        }
    }
}
