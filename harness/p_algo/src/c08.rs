use russell_lab::*;
use vp_engine::*;

const EPS: f64 = f64::EPSILON;

struct Case {
    p: usize,
    knots: Vec<f64>,
    scale: f64,
}

fn knots(g: &mut G) -> Case {
    let p = g.rare(1, 6, 9);
    let nint = g.rare(0, 7, 40);
    let uniform = g.chance(1, 3);
    let scale = *g.pick(&[1.0, 1.0, 1.0, 1000.0, 0.01, 7.3]);
    let start = *g.pick(&[0.0, 0.0, -1.0, 0.3]);
    let clamped = g.chance(3, 4);
    let mut interior = Vec::new();
    let mut at = 0.0;
    for _ in 0..nint {
        at += if uniform { 1.0 } else { g.uni(0.05, 2.0) };
        let mult = if g.chance(1, 3) { g.us(1, p + 1) } else { 1 };
        for _ in 0..mult {
            interior.push(at);
        }
    }
    let end = at + if uniform { 1.0 } else { g.uni(0.05, 2.0) };
    let mut k = Vec::new();
    if clamped {
        k.extend(vec![0.0; p + 1]);
        k.extend(interior);
        k.extend(vec![end; p + 1]);
    } else {
        let mut lo: Vec<f64> = vec![0.0];
        let mut hi: Vec<f64> = vec![end];
        for _ in 0..p {
            let d = if uniform { 1.0 } else { g.uni(0.05, 2.0) };
            let e = if uniform { 1.0 } else { g.uni(0.05, 2.0) };
            lo.insert(0, lo[0] - d);
            hi.push(hi[hi.len() - 1] + e);
        }
        k.extend(lo);
        k.extend(interior);
        k.extend(hi);
    }
    let knots: Vec<f64> = k.into_iter().map(|u| start + scale * u).collect();
    g.class(if clamped { "clamped" } else { "unclamped" });
    g.show("p", &p);
    g.show("knots", &knots);
    Case { p, knots, scale }
}

impl Case {
    fn nb(&self) -> usize {
        self.knots.len() - 1 - self.p
    }
    fn domain(&self) -> (f64, f64) {
        (self.knots[self.p], self.knots[self.nb()])
    }
    /// index of the nonempty span containing u (the last one is closed)
    fn span(&self, u: f64) -> usize {
        let k = &self.knots;
        let (lo, hi) = (self.p, self.nb());
        let mut s = lo;
        for i in lo..hi {
            if k[i] < k[i + 1] && u >= k[i] {
                s = i;
            }
        }
        s
    }
    fn basis(&self, i: usize, p: usize, u: f64, s: usize) -> f64 {
        if p == 0 {
            return if i == s { 1.0 } else { 0.0 };
        }
        let k = &self.knots;
        let (d1, d2) = (k[i + p] - k[i], k[i + p + 1] - k[i + 1]);
        let mut r = 0.0;
        if d1 > 0.0 {
            r += (u - k[i]) / d1 * self.basis(i, p - 1, u, s);
        }
        if d2 > 0.0 {
            r += (k[i + p + 1] - u) / d2 * self.basis(i + 1, p - 1, u, s);
        }
        r
    }
    /// m-th derivative and the sum of the magnitudes of its terms
    fn deriv(&self, i: usize, p: usize, u: f64, s: usize, m: usize) -> (f64, f64) {
        if m == 0 {
            let b = self.basis(i, p, u, s);
            return (b, b.abs().max(if i <= s && i + p >= s { 1.0 } else { 0.0 }));
        }
        let k = &self.knots;
        let (d1, d2) = (k[i + p] - k[i], k[i + p + 1] - k[i + 1]);
        let pf = p as f64;
        let (mut r, mut a) = (0.0, 0.0);
        if d1 > 0.0 {
            let (x, y) = self.deriv(i, p - 1, u, s, m - 1);
            r += pf / d1 * x;
            a += pf / d1 * y;
        }
        if d2 > 0.0 {
            let (x, y) = self.deriv(i + 1, p - 1, u, s, m - 1);
            r -= pf / d2 * x;
            a += pf / d2 * y;
        }
        (r, a)
    }
    fn parameter(&self, g: &mut G) -> f64 {
        let (a, b) = self.domain();
        match g.draw(5) {
            0 => *g.pick(&[a, b]),
            1 => self.knots[g.us(self.p, self.nb())],
            2 => {
                let k = self.knots[g.us(self.p, self.nb())];
                let d = g.flog(-10.0, -3.0) * self.scale;
                (k + d).clamp(a, b)
            }
            _ => g.uni(a, b),
        }
    }
}

fn bases(g: &mut G) -> R {
    let c = knots(g);
    let u = c.parameter(g);
    let upto = g.us(0, c.p);
    g.show("u", &u);
    g.show("upto", &upto);
    if c.nb() > c.p + 1 {
        g.hit();
    }
    let mut b = must("new", "Bspline::new", Bspline::new(c.p, &c.knots))?;
    ensure!(b.num_basis() == c.nb(), "num_basis", "{} basis functions instead of {}", b.num_basis(), c.nb());
    let s = c.span(u);
    must("calc_basis", "calc_basis", b.calc_basis(u))?;
    // differences of knots carry a relative error; narrow spans amplify it
    let width = (c.p..c.nb()).map(|i| c.knots[i + 1] - c.knots[i]).filter(|d| *d > 0.0).fold(f64::MAX, f64::min);
    let kmax = c.knots.iter().fold(0.0f64, |m, k| m.max(k.abs()));
    let e = 64.0 * EPS * (1.0 + kmax / width);
    let mut sum = 0.0;
    for i in 0..c.nb() {
        let v = b.get_basis(i);
        ensure!(v >= -e, "calc_basis", "basis {} = {} is negative", i, v);
        sum += v;
        near("calc_basis", &format!("basis {} at {:e}", i, u), v, c.basis(i, c.p, u, s), e)?;
        // the recursion of the code under test covers the whole knot range with its own half-open rule
        if u != c.domain().1 || c.domain().1 == c.knots[c.knots.len() - 1] {
            near("recursive_basis", &format!("recursive basis {} at {:e}", i, u), b.recursive_basis(u, i), c.basis(i, c.p, u, s), e)?;
        }
    }
    near("calc_basis", "sum of the basis functions", sum, 1.0, e)?;
    must("calc_basis_and_derivs", "calc_basis_and_derivs", b.calc_basis_and_derivs(u, upto))?;
    for i in 0..c.nb() {
        near("calc_basis_and_derivs", &format!("basis {}", i), b.get_basis(i), c.basis(i, c.p, u, s), e)?;
        for m in 0..=upto {
            let (d, a) = c.deriv(i, c.p, u, s, m);
            near("calc_basis_and_derivs", &format!("derivative {} of basis {} at {:e}", m, i, u), b.get_basis_deriv(i, m), d, e * (a + 1.0))?;
        }
    }
    // nonzero spans
    let tol = if g.bool() { 1e-14 } else { g.uni(0.0, 2.0) * c.scale };
    let want: Vec<[usize; 2]> = (0..c.knots.len() - 1).filter(|&i| (c.knots[i + 1] - c.knots[i]).abs() > tol).map(|i| [i, i + 1]).collect();
    ensure!(b.get_elements(tol) == want, "get_elements", "elements {:?} instead of {:?}", b.get_elements(tol), want);
    // rejected input
    let (lo, hi) = (c.knots[0], c.knots[c.knots.len() - 1]);
    let d = g.plog(-6.0, 1.0) * c.scale;
    let out = if g.bool() { lo - d } else { hi + d };
    must_err("range", "parameter out of range", b.calc_basis(out))?;
    must_err("range", "parameter out of range", b.calc_basis_and_derivs(out, 0))?;
    must_err("range", "derivative order above the degree", b.calc_basis_and_derivs(u, c.p + 1))?;
    must_err("new", "degree zero", Bspline::new(0, &c.knots))?;
    must_err("new", "too few knots", Bspline::new(c.p, &c.knots[..g.us(0, 2 * c.p + 1)]))
}

fn curves(g: &mut G) -> R {
    let c = knots(g);
    let mut b = must("new", "Bspline::new", Bspline::new(c.p, &c.knots))?;
    let nb = c.nb();
    let width = (c.p..c.nb()).map(|i| c.knots[i + 1] - c.knots[i]).filter(|d| *d > 0.0).fold(f64::MAX, f64::min);
    let kmax = c.knots.iter().fold(0.0f64, |m, k| m.max(k.abs()));
    let e = 64.0 * EPS * (1.0 + kmax / width);
    let mut cc = Vector::new(1);
    must_err("calc_point", "no control points", b.calc_point(&mut cc, c.domain().0, false))?;
    let steps = g.us(1, 8);
    let mut pts: Vec<Vec<f64>> = Vec::new();
    g.hit();
    let mut log: Vec<String> = Vec::new();
    for step in 0..steps {
        let op = if step == 0 { 0 } else { g.draw(7) };
        let u = c.parameter(g);
        let s = c.span(u);
        let dim = if pts.is_empty() { 0 } else { pts[0].len() };
        match op {
            0 => {
                let dim = g.us(1, 4);
                pts = (0..nb).map(|_| g.vec_f(dim, -5.0, 5.0)).collect();
                log.push(format!("set_control_points({}D)", dim));
                g.show("history", &log);
                must("set_control_points", "set_control_points", b.set_control_points(&pts))?;
                let mut wrong = pts.clone();
                if g.bool() {
                    wrong.push(vec![0.0; dim]);
                } else {
                    wrong.pop();
                }
                must_err("set_control_points", "wrong number of control points", b.set_control_points(&wrong))?;
                must_err("set_control_points", "control points without coordinates", b.set_control_points(&vec![Vec::<f64>::new(); nb]))?;
                let mut bad = Vector::new(dim + 1);
                must_err("calc_point", "wrong dimension", b.calc_point(&mut bad, u, false))?;
            }
            1 | 2 | 3 => {
                let recursive = op == 3;
                if recursive && u == c.domain().1 && c.domain().1 != c.knots[c.knots.len() - 1] {
                    continue;
                }
                log.push(format!("calc_point({:e},{})", u, recursive));
                g.show("history", &log);
                let mut cc = Vector::new(dim);
                must("calc_point", "calc_point", b.calc_point(&mut cc, u, recursive))?;
                for d in 0..dim {
                    let want: f64 = (0..nb).map(|i| c.basis(i, c.p, u, s) * pts[i][d]).sum();
                    near(if recursive { "calc_point_recursive" } else { "calc_point" }, &format!("coordinate {} at {:e}", d, u), cc[d], want, 8.0 * e * 5.0)?;
                }
            }
            4 => {
                log.push(format!("calc_basis({:e})", u));
                g.show("history", &log);
                must("calc_basis", "calc_basis", b.calc_basis(u))?;
                for i in 0..nb {
                    near("calc_basis", &format!("basis {} at {:e}", i, u), b.get_basis(i), c.basis(i, c.p, u, s), e)?;
                }
            }
            _ => {
                let upto = g.us(0, c.p + 2);
                let use_control = g.bool();
                log.push(format!("calc_curve_derivs({:e},{},{})", u, upto, use_control));
                g.show("history", &log);
                b.calc_curve_derivs(u, upto, use_control);
                for m in 0..=upto {
                    let mut der = Vector::new(dim);
                    b.get_curve_deriv(&mut der, m);
                    for d in 0..dim {
                        let (mut want, mut mag) = (0.0, 0.0);
                        if m <= c.p {
                            for i in 0..nb {
                                let (x, a) = c.deriv(i, c.p, u, s, m);
                                want += x * pts[i][d];
                                mag += a * 5.0;
                            }
                        }
                        near(if use_control { "curve_derivs_control" } else { "curve_derivs" }, &format!("derivative {} coordinate {} at {:e}", m, d, u), der[d], want, 4.0 * e * (mag + 1.0))?;
                    }
                }
            }
        }
        // the tables always belong to the last parameter
        if (1..=2).contains(&op) || op >= 4 {
            for i in 0..nb {
                near("tables", &format!("basis {} after {}", i, log[log.len() - 1]), b.get_basis(i), c.basis(i, c.p, u, s), e)?;
            }
        }
    }
    Ok(())
}

pub fn property() -> Property {
    Property {
        id: "C08",
        assumptions: &[
            "oracle: recursive definition with the nonempty span found by linear search; derivatives by the recursive derivative formula",
            "parameters within [u_p, u_(n+1)]; end knots with multiplicity at most p+1; knot spans not below 0.05 of the unit",
        ],
        laws: vec![
            Law { name: "bases", quick: 500000, rule: "degree 1..6, clamped/unclamped knots with repeated interior knots, parameters on/near knots; non-trivial: more than one span of basis functions", f: bases },
            Law { name: "curves", quick: 300000, rule: "histories of up to 8 calls on one object with control points of changing dimension; all cases non-trivial", f: curves },
        ],
    }
}
