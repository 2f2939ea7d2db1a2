use russell_lab::*;
pub use vp_engine::*;

pub const EPS: f64 = f64::EPSILON;

pub fn c(re: f64, im: f64) -> Complex64 {
    Complex64::new(re, im)
}

pub fn cabs(z: Complex64) -> f64 {
    f64::hypot(z.re, z.im)
}

/// length distribution: every small length is frequent, large ones occur
pub fn length(g: &mut G) -> usize {
    match g.draw(8) {
        0 | 1 => g.us(0, 4),
        2 | 3 | 4 => g.us(0, 20),
        5 | 6 => g.us(0, 70),
        _ => g.us(0, 400),
    }
}

pub fn rvec(g: &mut G, n: usize) -> Vec<f64> {
    match g.draw(6) {
        0 => (0..n).map(|_| g.int(-9, 9) as f64).collect(),
        1 => (0..n).map(|_| g.flog(-150.0, 150.0)).collect(),
        2 => (0..n).map(|_| g.entry()).collect(),
        3 => (0..n).map(|i| if g.chance(1, 12) { g.any_f64_finite() } else { i as f64 * 0.25 - 1.0 }).collect(),
        _ => (0..n).map(|_| g.uni(-10.0, 10.0)).collect(),
    }
}

/// moderate magnitudes (products do not overflow)
pub fn mvec(g: &mut G, n: usize) -> Vec<f64> {
    match g.draw(5) {
        0 => (0..n).map(|_| g.int(-9, 9) as f64).collect(),
        1 => (0..n).map(|_| g.flog(-20.0, 20.0)).collect(),
        2 => (0..n).map(|_| g.entry()).collect(),
        _ => (0..n).map(|_| g.uni(-10.0, 10.0)).collect(),
    }
}

pub fn cvec(g: &mut G, n: usize) -> Vec<Complex64> {
    let a = mvec(g, n);
    let b = mvec(g, n);
    (0..n).map(|i| c(a[i], b[i])).collect()
}

pub fn scal(g: &mut G) -> f64 {
    match g.draw(6) {
        0 => 1.0,
        1 => 0.0,
        2 => -1.0,
        3 => g.int(-5, 5) as f64,
        4 => g.uni(-3.0, 3.0),
        _ => g.flog(-6.0, 6.0),
    }
}

pub fn cscal(g: &mut G) -> Complex64 {
    match g.draw(5) {
        0 => c(1.0, 0.0),
        1 => c(0.0, 0.0),
        2 => c(0.0, 1.0),
        _ => {
            let a = scal(g);
            let b = scal(g);
            c(a, b)
        }
    }
}

pub trait Extra {
    fn any_f64_finite(&mut self) -> f64;
}
impl Extra for G {
    fn any_f64_finite(&mut self) -> f64 {
        let x = self.any_f64();
        if x.is_finite() && x.abs() < 1e300 { x } else { 0.0 }
    }
}

/// shapes: small, with empty and vectors
pub fn shape(g: &mut G, hi: usize) -> (usize, usize) {
    match g.draw(6) {
        0 => {
            let n = g.us(0, 5);
            (n, n)
        }
        1 => (g.us(0, 4), g.us(0, 4)),
        2 => (1, g.us(1, hi)),
        3 => (g.us(1, hi), 1),
        _ => (g.us(1, hi), g.us(1, hi)),
    }
}

pub fn rmat(g: &mut G, m: usize, n: usize) -> Matrix {
    let mut a = Matrix::new(m, n);
    let d = mvec(g, m * n);
    for i in 0..m {
        for j in 0..n {
            a.set(i, j, d[i * n + j]);
        }
    }
    a
}

pub fn cmat(g: &mut G, m: usize, n: usize) -> ComplexMatrix {
    let mut a = ComplexMatrix::new(m, n);
    let d = cvec(g, m * n);
    for i in 0..m {
        for j in 0..n {
            a.set(i, j, d[i * n + j]);
        }
    }
    a
}

pub fn cnear(key: &str, what: &str, a: Complex64, b: Complex64, tol: f64) -> R {
    near(key, &format!("{} (re)", what), a.re, b.re, tol)?;
    near(key, &format!("{} (im)", what), a.im, b.im, tol)
}

pub const TINY: f64 = 1e-300;

pub fn mat_to_vec(a: &Matrix) -> Vec<Vec<f64>> {
    (0..a.nrow()).map(|i| (0..a.ncol()).map(|j| a.get(i, j)).collect()).collect()
}
