use crate::util::*;
use russell_tensor::*;
use std::ops::{Add, Div, Mul, Sub};
use vp_engine::*;

const TOL_J2: f64 = 1e-9; // documented threshold

/// hyper-dual number: value, two first derivatives and the mixed second derivative (exact, no step size)
#[derive(Clone, Copy, Debug)]
struct H {
    v: f64,
    a: f64,
    b: f64,
    c: f64,
}

fn k(v: f64) -> H {
    H { v, a: 0.0, b: 0.0, c: 0.0 }
}

impl Add for H {
    type Output = H;
    fn add(self, o: H) -> H {
        H { v: self.v + o.v, a: self.a + o.a, b: self.b + o.b, c: self.c + o.c }
    }
}
impl Sub for H {
    type Output = H;
    fn sub(self, o: H) -> H {
        H { v: self.v - o.v, a: self.a - o.a, b: self.b - o.b, c: self.c - o.c }
    }
}
impl Mul for H {
    type Output = H;
    fn mul(self, o: H) -> H {
        H {
            v: self.v * o.v,
            a: self.a * o.v + self.v * o.a,
            b: self.b * o.v + self.v * o.b,
            c: self.c * o.v + self.a * o.b + self.b * o.a + self.v * o.c,
        }
    }
}
impl Div for H {
    type Output = H;
    fn div(self, o: H) -> H {
        self * o.inv()
    }
}
impl H {
    fn powf(self, p: f64) -> H {
        let f = self.v.powf(p);
        let f1 = p * self.v.powf(p - 1.0);
        let f2 = p * (p - 1.0) * self.v.powf(p - 2.0);
        H { v: f, a: f1 * self.a, b: f1 * self.b, c: f1 * self.c + f2 * self.a * self.b }
    }
    fn inv(self) -> H {
        let v = 1.0 / self.v;
        let f1 = -v * v;
        H { v, a: f1 * self.a, b: f1 * self.b, c: f1 * self.c + 2.0 * v * v * v * self.a * self.b }
    }
}

type HM = [[H; 3]; 3];

fn lift(s: &M3, e1: &M3, e2: &M3) -> HM {
    let mut h = [[k(0.0); 3]; 3];
    for i in 0..3 {
        for j in 0..3 {
            h[i][j] = H { v: s[i][j], a: e1[i][j], b: e2[i][j], c: 0.0 };
        }
    }
    h
}

fn hmul(a: &HM, b: &HM) -> HM {
    let mut h = [[k(0.0); 3]; 3];
    for i in 0..3 {
        for j in 0..3 {
            for m in 0..3 {
                h[i][j] = h[i][j] + a[i][m] * b[m][j];
            }
        }
    }
    h
}

fn htr(a: &HM) -> H {
    a[0][0] + a[1][1] + a[2][2]
}

fn hdet(a: &HM) -> H {
    a[0][0] * (a[1][1] * a[2][2] - a[1][2] * a[2][1]) - a[0][1] * (a[1][0] * a[2][2] - a[1][2] * a[2][0])
        + a[0][2] * (a[1][0] * a[2][1] - a[1][1] * a[2][0])
}

fn hdev(a: &HM) -> HM {
    let m = htr(a) * k(1.0 / 3.0);
    let mut s = *a;
    for i in 0..3 {
        s[i][i] = s[i][i] - m;
    }
    s
}

fn hnorm(a: &HM) -> H {
    let mut s = k(0.0);
    for i in 0..3 {
        for j in 0..3 {
            s = s + a[i][j] * a[i][j];
        }
    }
    s.powf(0.5)
}

fn hj2(a: &HM) -> H {
    let s = hdev(a);
    htr(&hmul(&s, &s)) * k(0.5)
}

fn hj3(a: &HM) -> H {
    hdet(&hdev(a))
}

fn hlode(a: &HM) -> H {
    k(1.5 * 3f64.sqrt()) * hj3(a) / hj2(a).powf(1.5)
}

fn hinv(a: &HM) -> HM {
    let d = hdet(a).inv();
    let mut r = [[k(0.0); 3]; 3];
    for i in 0..3 {
        for j in 0..3 {
            let (p, q) = ((j + 1) % 3, (j + 2) % 3);
            let (u, v) = ((i + 1) % 3, (i + 2) % 3);
            r[i][j] = (a[p][u] * a[q][v] - a[p][v] * a[q][u]) * d;
        }
    }
    r
}

/// unit tensor of the internal basis
fn basis(m: usize) -> M3 {
    let (i, j) = MTOIJ[m];
    let mut b = [[0.0; 3]; 3];
    if i == j {
        b[i][i] = 1.0;
    } else if i < j {
        b[i][j] = 1.0 / S2;
        b[j][i] = 1.0 / S2;
    } else {
        b[j][i] = 1.0 / S2;
        b[i][j] = -1.0 / S2;
    }
    b
}

const Z: M3 = [[0.0; 3]; 3];

/// gradient in standard components along the tensors of the representation
fn grad(s: &M3, rep: Rep, f: &dyn Fn(&HM) -> H) -> M3 {
    let mut r = Z;
    for m in 0..rep.dim() {
        let e = basis(m);
        let d = f(&lift(s, &e, &Z)).a;
        for i in 0..3 {
            for j in 0..3 {
                r[i][j] += d * e[i][j];
            }
        }
    }
    r
}

/// second derivative: internal components (6x6)
fn check2(key: &str, d2: &Tensor4, s: &M3, f: &dyn Fn(&HM) -> H, tol: f64) -> R {
    for m in 0..6 {
        for n in 0..6 {
            let e = f(&lift(s, &basis(m), &basis(n))).c;
            let v = d2.get(m, n);
            if !((v - e).abs() <= tol) {
                return fail(key, format!("second derivative [{m},{n}]: got {v:?}, expected {e:?} (tol {tol:e})"));
            }
        }
    }
    Ok(())
}

fn stress(g: &mut G, rep: Rep) -> M3 {
    match g.draw(4) {
        0 => {
            let l = principal(g);
            let r = rotation(g, rep == Rep::Symmetric2D);
            from_principal(&l, &r)
        }
        1 => {
            // small deviator on a large mean value
            let mut a = m3_scaled(g, rep, 1.0);
            let p = g.uni(-20.0, 20.0);
            for i in 0..3 {
                a[i][i] += p;
            }
            a
        }
        _ => {
            let s = g.plog(-1.0, 1.0);
            m3_scaled(g, rep, s)
        }
    }
}

fn first(g: &mut G) -> R {
    let rep = rep(g);
    let a = if rep == Rep::General { m3_scaled(g, rep, 1.0) } else { stress(g, rep) };
    g.show("rep", &rep);
    g.show("a", &a);
    let t = t2(&a, rep)?;
    let n = max2(&a);
    let mut d1 = used2(g, rep);
    match deriv1_norm(&mut d1, &t) {
        Some(v) => {
            g.hit();
            same_rel("norm", "returned norm", v, fro2(&a), 20.0 * EPS, 0.0)?;
            cmp2("norm", "d norm", &d1, &grad(&a, rep, &hnorm), 100.0 * EPS)?;
        }
        None => ensure!(n == 0.0, "norm_none", "no derivative of the norm of a tensor that is not zero"),
    }
    ensure!(n > 0.0 || deriv1_norm(&mut d1, &t).is_none(), "norm_zero", "derivative of the norm of zero");
    // the direction does not depend on the magnitude
    if n > 0.0 && g.chance(1, 3) {
        let s = 2.0f64.powi(g.int(-250, 250) as i32);
        g.class("norm of a tensor of any magnitude");
        let b = build2(|i, j| s * a[i][j]);
        let mut d2 = used2(g, rep);
        match deriv1_norm(&mut d2, &t2(&b, rep)?) {
            Some(v) => {
                same_rel("norm_scaled", "returned norm", v, s * fro2(&a), 20.0 * EPS, 0.0)?;
                cmp2("norm_scaled", "d norm", &d2, &grad(&a, rep, &hnorm), 100.0 * EPS)?;
            }
            None => return fail("norm_none", "no derivative of the norm of a tensor that is not zero".to_string()),
        }
    }
    let mut d1 = used2(g, rep);
    deriv1_invariant_p(&mut d1, &t);
    cmp2("p", "d p", &d1, &build2(|i, j| dlt(i, j) / 3.0), 4.0 * EPS)?;
    let mut d1 = used2(g, rep);
    deriv1_invariant_sigma_s(&mut d1, &t);
    cmp2("sigma_s", "d sigma_s", &d1, &build2(|i, j| dlt(i, j) / 3f64.sqrt()), 4.0 * EPS)?;
    if rep == Rep::General {
        let mut d1 = Tensor2::new(rep);
        ensure!(catch(|| deriv1_invariant_jj2(&mut d1, &t)).is_err(), "gen_panic", "general tensor accepted");
        return Ok(());
    }
    let e = 100.0 * EPS;
    let mut d1 = used2(g, rep);
    deriv1_invariant_jj2(&mut d1, &t);
    cmp2("j2", "d J2", &d1, &grad(&a, rep, &hj2), e * n)?;
    let (mut d1, mut s) = (used2(g, rep), used2(g, rep));
    deriv1_invariant_jj3(&mut d1, &mut s, &t);
    cmp2("j3", "d J3", &d1, &grad(&a, rep, &hj3), e * n * n)?;
    let j2 = hj2(&lift(&a, &Z, &Z)).v;
    let fuzzy = (j2 - TOL_J2).abs() < 1e-12 + e * n * n;
    let defined = j2 > TOL_J2;
    let q = (n * n / j2.max(1e-300)).max(1.0); // loss of accuracy of J2
    let (mut d1, mut d2, mut d3, mut s) = (used2(g, rep), used2(g, rep), used2(g, rep), used2(g, rep));
    let r1 = deriv1_invariant_sigma_t(&mut d1, &t);
    let r2 = deriv1_invariant_q(&mut d2, &t);
    let r3 = deriv1_invariant_lode(&mut d3, &mut s, &t);
    for (w, r) in [("sigma_t", r1), ("q", r2), ("lode", r3)] {
        match r {
            Some(v) => {
                ensure!(defined || fuzzy, "some", "derivative of {w} given for J2 = {j2:e}");
                near("ret", &format!("J2 returned by {w}"), v, j2, e * n * n)?;
            }
            None => ensure!(!defined || fuzzy, "none", "no derivative of {w} for J2 = {j2:e}"),
        }
    }
    if !fuzzy {
        g.class(if defined { "deviatoric" } else { "spherical" });
    }
    if defined && q < 1e6 && r1.is_some() && r2.is_some() && r3.is_some() {
        let hst = |h: &HM| hnorm(&hdev(h));
        cmp2("sigma_t", "d sigma_t", &d1, &grad(&a, rep, &hst), e * q)?;
        cmp2("q", "d q", &d2, &build2(|i, j| (1.5f64).sqrt() * grad(&a, rep, &hst)[i][j]), 2.0 * e * q)?;
        cmp2("lode", "d lode", &d3, &grad(&a, rep, &hlode), 30.0 * e * q * q.sqrt() / j2.sqrt())?;
    }
    Ok(())
}

fn second(g: &mut G) -> R {
    let (mut aux3, mut auxt, mut auxl) =
        (AuxDeriv2InvariantJ3::new(), AuxDeriv2InvariantSigmaT::new(), AuxDeriv2InvariantLode::new());
    for _ in 0..g.us(1, 3) {
        let rep = sym_rep(g);
        let a = stress(g, rep);
        g.show("rep", &rep);
        g.show("a", &a);
        let t = t2(&a, rep)?;
        let n = max2(&a);
        let e = 200.0 * EPS;
        let loops = g.bool();
        let new4 = |g: &mut G| {
            let mut d = used4(g, Rep::Symmetric);
            d.use_loops = loops;
            d
        };
        let mut d2 = new4(g);
        deriv2_invariant_jj2(&mut d2, &t);
        check2("d2_j2", &d2, &a, &hj2, 20.0 * EPS)?;
        let mut d2 = new4(g);
        deriv2_invariant_jj3(&mut d2, &mut aux3, &t);
        check2("d2_j3", &d2, &a, &hj3, e * n)?;
        let j2 = hj2(&lift(&a, &Z, &Z)).v;
        let fuzzy = (j2 - TOL_J2).abs() < 1e-12 + e * n * n;
        let defined = j2 > TOL_J2;
        let q = (n * n / j2.max(1e-300)).max(1.0);
        let (mut x1, mut x2, mut x3) = (new4(g), new4(g), new4(g));
        let r1 = deriv2_invariant_sigma_t(&mut x1, &mut auxt, &t);
        let r2 = deriv2_invariant_q(&mut x2, &mut auxt, &t);
        let r3 = deriv2_invariant_lode(&mut x3, &mut auxl, &t);
        for (w, r) in [("sigma_t", r1), ("q", r2), ("lode", r3)] {
            match r {
                Some(v) => {
                    ensure!(defined || fuzzy, "some", "second derivative of {w} given for J2 = {j2:e}");
                    near("ret", &format!("J2 returned by {w}"), v, j2, e * n * n)?;
                }
                None => ensure!(!defined || fuzzy, "none", "no second derivative of {w} for J2 = {j2:e}"),
            }
        }
        if defined && q < 1e5 && r1.is_some() && r2.is_some() && r3.is_some() {
            g.hit();
            let hst = |h: &HM| hnorm(&hdev(h));
            let hq = |h: &HM| (hj2(h) * k(3.0)).powf(0.5);
            let r = j2.sqrt();
            check2("d2_sigma_t", &x1, &a, &hst, 10.0 * e * q / r)?;
            check2("d2_q", &x2, &a, &hq, 10.0 * e * q / r)?;
            check2("d2_lode", &x3, &a, &hlode, 100.0 * e * q * q.sqrt() / j2)?;
        }
    }
    Ok(())
}

fn tensors(g: &mut G) -> R {
    let rep = rep(g);
    let a = m3_scaled(g, rep, 1.0);
    g.show("rep", &rep);
    g.show("a", &a);
    let t = t2(&a, rep)?;
    let n = max2(&a);
    // squared tensor
    let mut d = used4(g, Rep::General);
    d.use_loops = g.bool();
    let mut ii = used2(g, rep);
    deriv_squared_tensor(&mut d, &mut ii, &t);
    let unit = |p: usize, q: usize, sym: bool| {
        build2(|i, j| {
            if sym {
                0.5 * (dlt(i, p) * dlt(j, q) + dlt(i, q) * dlt(j, p))
            } else {
                dlt(i, p) * dlt(j, q)
            }
        })
    };
    let deriv = |f: &dyn Fn(&HM) -> HM, sym: bool| {
        build4(|i, j, p, q| f(&lift(&a, &unit(p, q, sym), &Z))[i][j].a)
    };
    let sq = |h: &HM| hmul(h, h);
    cmp4("squared", "d A^2", &d, &deriv(&sq, false), 30.0 * EPS * n)?;
    if n > 0.0 {
        g.hit();
    }
    if rep != Rep::General {
        let mut d = used4(g, Rep::Symmetric);
        d.use_loops = g.bool();
        let mut ii = used2(g, rep);
        deriv_squared_tensor_sym(&mut d, &mut ii, &t);
        cmp4("squared_sym", "d A^2 (symmetric)", &d, &deriv(&sq, true), 60.0 * EPS * n)?;
    }
    // inverse
    let det = det3(&a);
    if det.abs() < 1e-3 * n * n * n || det.abs() < 1e-8 {
        return Ok(());
    }
    g.class("inverse");
    let mut ai = used2(g, rep);
    ensure!(t.inverse(&mut ai, 1e-12).is_some(), "inv", "no inverse for determinant {det:e}");
    let mut d = used4(g, Rep::General);
    d.use_loops = g.bool();
    deriv_inverse_tensor(&mut d, &ai);
    let m = n * n / det.abs();
    let c = m * n;
    cmp4("inverse", "d A^-1", &d, &deriv(&hinv, false), 300.0 * EPS * c * m * m)?;
    if rep != Rep::General {
        let mut d = used4(g, Rep::Symmetric);
        d.use_loops = g.bool();
        deriv_inverse_tensor_sym(&mut d, &ai);
        cmp4("inverse_sym", "d A^-1 (symmetric)", &d, &deriv(&hinv, true), 300.0 * EPS * c * m * m)?;
    }
    Ok(())
}

pub fn property() -> Property {
    Property {
        id: "C21",
        assumptions: &[
            "the derivatives of the independent definitions are taken with hyper-dual numbers, so only rounding limits the comparison",
            "tolerances grow with the ratio of mean to deviatoric part; ratios beyond about 1e3 are not compared",
            "a band of rounding error around the documented J2 threshold 1e-9 is not judged",
        ],
        laws: vec![
            Law { name: "first", quick: 1_000_000, rule: "the tensor is not zero", f: first },
            Law { name: "second", quick: 300_000, rule: "the Lode invariant is defined", f: second },
            Law { name: "tensors", quick: 400_000, rule: "the tensor is not zero", f: tensors },
        ],
    }
}
