//! Independent computations do not influence each other: one after the other, inside each other's callbacks, in threads
use russell_lab::algo::*;
use russell_lab::math;
use russell_lab::*;
use russell_nonlin::{Config, DeltaLambda, IniDir, Method as Path, Solver, Stop as Rule, System as Family};
use russell_ode::{Method, OdeSolver, Output, Params, System};
use russell_pde::*;
use russell_sparse::{read_matrix_market, ComplexCooMatrix, ComplexLinSolver, CooMatrix, Genie, LinSolParams, LinSolver, MMsym, Ordering, Scaling, Sym};
use russell_stat::*;
use russell_tensor::{Rep, Spectral2, Tensor2};
use std::cell::RefCell;
use std::sync::Barrier;
use vp_engine::*;

/// numbers that depend on nothing but the seed
struct Rnd(u64);

impl Rnd {
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    fn us(&mut self, lo: usize, hi: usize) -> usize {
        lo + (self.next() % (hi - lo + 1) as u64) as usize
    }
    fn f(&mut self, lo: f64, hi: f64) -> f64 {
        lo + (hi - lo) * (self.next() >> 11) as f64 / (1u64 << 53) as f64
    }
    fn matrix(&mut self, m: usize, n: usize) -> Matrix {
        let mut a = Matrix::new(m, n);
        for i in 0..m {
            for j in 0..n {
                a.set(i, j, self.f(-1.0, 1.0) + if i == j { 2.0 } else { 0.0 });
            }
        }
        a
    }
    fn vector(&mut self, n: usize) -> Vector {
        Vector::initialized(n, |_| self.f(-1.0, 1.0))
    }
}

/// everything a computation returned
#[derive(Default)]
struct Bits(Vec<u64>);

impl Bits {
    fn f(&mut self, x: f64) {
        self.0.push(x.to_bits());
    }
    fn v(&mut self, x: &[f64]) {
        self.0.push(x.len() as u64);
        x.iter().for_each(|x| self.f(*x));
    }
    fn c(&mut self, x: &[Complex64]) {
        x.iter().for_each(|x| {
            self.f(x.re);
            self.f(x.im);
        });
    }
    fn s(&mut self, x: &str) {
        x.bytes().for_each(|b| self.0.push(b as u64));
    }
    fn r(&mut self, x: Result<f64, &'static str>) {
        match x {
            Ok(x) => self.f(x),
            Err(e) => self.s(e),
        }
    }
    fn e<T>(&mut self, x: Result<T, &'static str>) -> Option<T> {
        match x {
            Ok(x) => Some(x),
            Err(e) => {
                self.s(e);
                None
            }
        }
    }
}

/// computations made inside the callbacks of another one
#[derive(Default)]
struct Inner {
    list: Vec<(usize, u64, Vec<u64>)>,
    every: usize,
    calls: usize,
    made: usize,
    wrong: Option<(usize, u64)>,
    busy: bool,
    dir: String,
}

thread_local! {
    static INNER: RefCell<Inner> = RefCell::new(Inner::default());
}

/// called by every callback
fn tick() {
    let job = INNER.with(|x| {
        let x = &mut *x.borrow_mut();
        if x.busy || x.list.is_empty() || x.made >= 12 {
            return None;
        }
        x.calls += 1;
        if x.calls % x.every != 0 {
            return None;
        }
        x.busy = true;
        x.made += 1;
        let (k, s, want) = &x.list[x.made % x.list.len()];
        Some((*k, *s, want.clone(), x.dir.clone()))
    });
    if let Some((k, s, want, dir)) = job {
        let got = task(k, s, &dir);
        INNER.with(|x| {
            let x = &mut *x.borrow_mut();
            x.busy = false;
            if got != want {
                x.wrong = Some((k, s));
            }
        });
    }
}

const NAMES: [&str; 13] = ["dense", "complex", "sparse", "complex sparse", "integration", "continuation", "field", "scalar", "functions", "tensors", "statistics", "newton", "files"];
/// computations with callbacks
const OUTER: [usize; 5] = [4, 5, 6, 7, 11];

fn task(kind: usize, seed: u64, dir: &str) -> Vec<u64> {
    let mut q = Rnd(seed);
    let mut b = Bits::default();
    match kind {
        0 => dense(&mut q, &mut b),
        1 => complex(&mut q, &mut b),
        2 => sparse(&mut q, &mut b),
        3 => complex_sparse(&mut q, &mut b),
        4 => integration(&mut q, &mut b),
        5 => continuation(&mut q, &mut b),
        6 => field(&mut q, &mut b),
        7 => scalar(&mut q, &mut b),
        8 => functions(&mut q, &mut b),
        9 => tensors(&mut q, &mut b),
        10 => statistics(&mut q, &mut b),
        11 => newton(&mut q, &mut b),
        _ => files(&mut q, &mut b, seed, dir),
    }
    b.0
}

fn dense(q: &mut Rnd, b: &mut Bits) {
    let n = q.us(1, 9);
    let a = q.matrix(n, n);
    let mut x = q.vector(n);
    let mut f = a.clone();
    b.e(solve_lin_sys(&mut x, &mut f));
    b.v(x.as_data());
    let mut inv = Matrix::new(n, n);
    let d = mat_inverse(&mut inv, &a);
    b.r(d);
    b.v(inv.as_data());
    let (mut re, mut im, mut v, mut w) = (Vector::new(n), Vector::new(n), Matrix::new(n, n), Matrix::new(n, n));
    let mut f = a.clone();
    b.e(mat_eigen(&mut re, &mut im, &mut v, &mut w, &mut f));
    b.v(re.as_data());
    b.v(im.as_data());
    b.v(v.as_data());
    b.v(w.as_data());
    let m = q.us(1, 9);
    let mut f = q.matrix(m, n);
    let mut p = Matrix::new(n, m);
    b.e(mat_pseudo_inverse(&mut p, &mut f.clone()));
    b.v(p.as_data());
    let (mut s, mut u, mut vt) = (Vector::new(m.min(n)), Matrix::new(m, m), Matrix::new(n, n));
    b.e(mat_svd(&mut s, &mut u, &mut vt, &mut f));
    b.v(s.as_data());
    b.v(u.as_data());
    b.v(vt.as_data());
    let mut g = Matrix::new(n, n);
    b.e(mat_t_mat_mul(&mut g, 1.0, &a, &a, 0.0));
    let mut l = g.clone();
    b.e(mat_cholesky(&mut l, q.us(0, 1) == 0));
    b.v(l.as_data());
    let mut e = Vector::new(n);
    b.e(mat_eigen_sym(&mut e, &mut g, true));
    b.v(e.as_data());
    b.v(g.as_data());
}

fn complex(q: &mut Rnd, b: &mut Bits) {
    let n = q.us(1, 6);
    let mut a = ComplexMatrix::new(n, n);
    let mut x = ComplexVector::new(n);
    for i in 0..n {
        x[i] = Complex64::new(q.f(-1.0, 1.0), q.f(-1.0, 1.0));
        for j in 0..n {
            a.set(i, j, Complex64::new(q.f(-1.0, 1.0), q.f(-1.0, 1.0) + if i == j { 2.0 } else { 0.0 }));
        }
    }
    let mut y = ComplexVector::new(n);
    b.e(complex_mat_vec_mul(&mut y, Complex64::new(1.0, -0.5), &a, &x));
    b.c(y.as_data());
    b.e(complex_solve_lin_sys(&mut x, &mut a.clone()));
    b.c(x.as_data());
    let mut inv = ComplexMatrix::new(n, n);
    if let Some(d) = b.e(complex_mat_inverse(&mut inv, &a)) {
        b.c(&[d]);
    }
    b.c(inv.as_data());
    let mut l = ComplexVector::new(n);
    let mut v = ComplexMatrix::new(n, n);
    b.e(complex_mat_eigen(&mut l, &mut v, &mut a.clone()));
    b.c(l.as_data());
    b.c(v.as_data());
    let (mut s, mut u, mut vh) = (Vector::new(n), ComplexMatrix::new(n, n), ComplexMatrix::new(n, n));
    b.e(complex_mat_svd(&mut s, &mut u, &mut vh, &mut a));
    b.v(s.as_data());
    b.c(u.as_data());
    b.c(vh.as_data());
}

fn sparse(q: &mut Rnd, b: &mut Bits) {
    let n = q.us(1, 12);
    let m = q.us(0, 2 * n);
    let at: Vec<(usize, usize)> = (0..m).map(|_| (q.us(0, n - 1), q.us(0, n - 1))).collect();
    let Some(mut coo) = b.e(CooMatrix::new(n, n, n + m, Sym::No)) else { return };
    let Some(mut ls) = b.e(LinSolver::new(Genie::Umfpack)) else { return };
    let mut par = LinSolParams::new();
    par.compute_determinant = q.us(0, 1) == 0;
    par.ordering = [Ordering::Auto, Ordering::Amd, Ordering::No][q.us(0, 2)];
    par.scaling = [Scaling::Auto, Scaling::Max, Scaling::No][q.us(0, 2)];
    for round in 0..q.us(1, 3) {
        coo.reset();
        for i in 0..n {
            b.e(coo.put(i, i, q.f(3.0, 5.0)));
        }
        for (i, j) in &at {
            b.e(coo.put(*i, *j, q.f(-1.0, 1.0)));
        }
        b.e(ls.actual.factorize(&coo, if round == 0 { Some(par) } else { None }));
        let rhs = q.vector(n);
        let mut x = Vector::new(n);
        b.e(ls.actual.solve(&mut x, &rhs, false));
        b.v(x.as_data());
        tick();
        let mut y = Vector::new(n);
        b.e(ls.actual.solve(&mut y, &x, false));
        b.v(y.as_data());
    }
    let mut st = russell_sparse::StatsLinSol::new();
    ls.actual.update_stats(&mut st);
    b.v(&[st.determinant.mantissa_real, st.determinant.exponent, st.output.umfpack_rcond_estimate]);
}

fn complex_sparse(q: &mut Rnd, b: &mut Bits) {
    let n = q.us(1, 9);
    let m = q.us(0, 2 * n);
    let Some(mut coo) = b.e(ComplexCooMatrix::new(n, n, n + m, Sym::No)) else { return };
    for i in 0..n {
        b.e(coo.put(i, i, Complex64::new(q.f(3.0, 5.0), q.f(-1.0, 1.0))));
    }
    for _ in 0..m {
        let (i, j) = (q.us(0, n - 1), q.us(0, n - 1));
        b.e(coo.put(i, j, Complex64::new(q.f(-1.0, 1.0), q.f(-1.0, 1.0))));
    }
    let Some(mut ls) = b.e(ComplexLinSolver::new(Genie::Umfpack)) else { return };
    b.e(ls.actual.factorize(&coo, None));
    let mut rhs = ComplexVector::new(n);
    for i in 0..n {
        rhs[i] = Complex64::new(q.f(-1.0, 1.0), q.f(-1.0, 1.0));
    }
    let mut x = ComplexVector::new(n);
    tick();
    b.e(ls.actual.solve(&mut x, &rhs, false));
    b.c(x.as_data());
}

fn integration(q: &mut Rnd, b: &mut Bits) {
    let method = crate::ode::ALL[q.us(0, crate::ode::ALL.len() - 1)];
    let n = q.us(1, 3);
    let a: Vec<f64> = (0..n * n).map(|k| q.f(-0.5, 0.5) - if k / n == k % n { 1.0 } else { 0.0 }).collect();
    let aa = a.clone();
    let w = q.f(0.5, 3.0);
    let mut sys: System<usize> = System::new(n, move |f: &mut Vector, x: f64, y: &Vector, calls: &mut usize| {
        *calls += 1;
        tick();
        for i in 0..n {
            f[i] = (w * x).sin() - 0.1 * y[i] * y[i] * y[i];
            for j in 0..n {
                f[i] += a[i * n + j] * y[j];
            }
        }
        Ok(())
    });
    if q.us(0, 1) == 0 {
        b.e(sys.set_jacobian(None, Sym::No, move |jj: &mut CooMatrix, alpha: f64, _x: f64, y: &Vector, _: &mut usize| {
            tick();
            jj.reset();
            for i in 0..n {
                for j in 0..n {
                    jj.put(i, j, alpha * (aa[i * n + j] - if i == j { 0.3 * y[i] * y[i] } else { 0.0 }))?;
                }
            }
            Ok(())
        }));
    }
    let mut par = Params::new(method);
    if method == Method::Radau5 {
        par.radau5.concurrent = q.us(0, 1) == 0;
    }
    let tol = [1e-3, 1e-5, 1e-7][q.us(0, 2)];
    b.e(par.set_tolerances(tol, tol, None));
    let Some(mut solver) = b.e(OdeSolver::new(par, sys)) else { return };
    let mut out = Output::new();
    out.set_step_recording(&[0]);
    let info = method.information();
    if method == Method::DoPri5 || method == Method::DoPri8 || method == Method::Radau5 {
        b.e(out.set_dense_h_out(0.21));
        out.set_dense_recording(&[0]);
    }
    let mut y = q.vector(n);
    let h = if info.embedded && q.us(0, 1) == 0 { None } else { Some(0.1) };
    let mut calls = 0;
    let r = solver.solve(&mut y, 0.0, q.f(0.5, 1.5), h, &mut calls, Some(&mut out));
    b.e(r);
    b.v(y.as_data());
    b.v(out.step_x());
    b.v(out.step_h());
    b.v(out.step_y(0));
    b.v(out.dense_x());
    b.v(out.dense_y(0));
    let s = solver.stats();
    b.0.extend([calls, s.n_function, s.n_jacobian, s.n_factor, s.n_lin_sol, s.n_steps, s.n_accepted, s.n_rejected, s.n_iterations].map(|x| x as u64));
}

fn continuation(q: &mut Rnd, b: &mut Bits) {
    let arc = q.us(0, 1) == 0;
    let n = q.us(1, 3);
    let (c, k) = (q.f(-1.0, 1.0), q.f(0.3, 1.0));
    // u[0] + c u[0]³ k = λ, u[i] = sin(u[i-1])
    let Some(sys) = b.e(Family::new(
        n,
        None,
        Sym::No,
        move |r: &mut Vector, l: f64, u: &Vector, _: &mut usize| {
            tick();
            r[0] = u[0] + c * k * u[0].powi(3) - l;
            for i in 1..n {
                r[i] = u[i] - u[i - 1].sin();
            }
            Ok(())
        },
        move |gu: &mut CooMatrix, gl: &mut Vector, _l: f64, u: &Vector, _: &mut usize| {
            tick();
            gu.put(0, 0, 1.0 + 3.0 * c * k * u[0] * u[0])?;
            gl[0] = -1.0;
            for i in 1..n {
                gu.put(i, i, 1.0)?;
                gu.put(i, i - 1, -u[i - 1].cos())?;
                gl[i] = 0.0;
            }
            Ok(())
        },
    )) else {
        return;
    };
    let mut cfg = Config::new();
    cfg.set_method(if arc { Path::Arclength } else { Path::Natural }).set_verbose_header_footer(false).set_n_step_max(15);
    cfg.set_bordering(q.us(0, 1) == 0);
    cfg.set_tol_delta([1e-6, 1e-9][q.us(0, 1)], 1e-7);
    let Some(mut solver) = b.e(Solver::new(&cfg, sys)) else { return };
    let mut u = Vector::new(n);
    let mut l = 0.0;
    let mut out = russell_nonlin::Output::new();
    out.set_recording(true, &[0], &[0]);
    let ddl = if q.us(0, 1) == 0 { DeltaLambda::auto(0.1) } else { DeltaLambda::constant(0.07) };
    let r = solver.solve(&mut 0, &mut u, &mut l, IniDir::Pos, Rule::Steps(q.us(1, 8)), &ddl, Some(&mut out));
    if let Some(s) = b.e(r) {
        b.s(&format!("{:?}", s));
    }
    b.v(u.as_data());
    b.f(l);
    b.v(out.get_l_values());
    b.v(out.get_h_values());
    b.v(out.get_u_values(0));
    b.v(out.get_duds_values(0));
}

fn field(q: &mut Rnd, b: &mut Bits) {
    let (nx, ny) = (q.us(3, 7), q.us(3, 7));
    let (k, w, al) = (q.f(0.5, 2.0), q.f(-1.0, 1.0), q.f(0.0, 1.0));
    let lmm = q.us(0, 1) == 0;
    let r = match q.us(0, 3) {
        0 | 1 => {
            let spc = q.us(0, 1) == 0;
            let mut e = EssentialBcs1d::new();
            let mut nb = NaturalBcs1d::new();
            e.set(Side::Xmin, move |x| {
                tick();
                w + x
            });
            nb.set(Side::Xmax, move |_| w);
            let f = |x: f64| {
                tick();
                (x * w).cos()
            };
            if spc {
                Spc1d::new(0.0, 1.5, nx, e, nb, k).and_then(|p| if lmm { p.solve_lmm(al, f) } else { p.solve_sps(al, f) })
            } else {
                Grid1d::new_uniform(0.0, 1.5, nx).and_then(|g| Fdm1d::new(g, e, nb, k)).and_then(|p| if lmm { p.solve_lmm(al, f) } else { p.solve_sps(al, f) })
            }
        }
        kind => {
            let mut e = EssentialBcs2d::new();
            let mut nb = NaturalBcs2d::new();
            e.set(Side::Xmin, move |_, y| w + y);
            e.set(Side::Xmax, move |_, y| {
                tick();
                w * y
            });
            e.set(Side::Ymin, move |x, _| w * x);
            nb.set(Side::Ymax, move |x, _| w - x);
            let f = |x: f64, y: f64| {
                tick();
                (x * w + y).cos()
            };
            if kind == 2 {
                Spc2d::new(0.0, 1.5, 0.0, 1.0, nx, ny, e, nb, k, 1.0).and_then(|p| if lmm { p.solve_lmm(al, f) } else { p.solve_sps(al, f) })
            } else {
                Grid2d::new_uniform(0.0, 1.5, 0.0, 1.0, nx, ny).and_then(|g| Fdm2d::new(g, e, nb, k, 1.0)).and_then(|p| if lmm { p.solve_lmm(al, f) } else { p.solve_sps(al, f) })
            }
        }
    };
    if let Some(v) = b.e(r) {
        b.v(v.as_data());
    }
}

fn scalar(q: &mut Rnd, b: &mut Bits) {
    let (a, w, z) = (q.f(-2.0, 1.0), q.f(0.5, 3.0), q.f(0.1, 0.9));
    let s = a + w * z;
    let tol = [1e-5, 1e-8, 1e-10][q.us(0, 2)];
    let mut quad = Quadrature::new();
    quad.tolerance = tol;
    b.r(quad.integrate(a, a + w, &mut 0, |x, _: &mut usize| {
        tick();
        Ok((x - s).abs())
    }));
    let mut root = RootFinder::new();
    if q.us(0, 1) == 0 {
        root.brent_tolerance = tol;
    }
    b.r(root.brent(a, a + w, &mut 0, |x, _: &mut usize| {
        tick();
        Ok((x - s).sinh())
    }));
    let mut min = MinSolver::new();
    min.tolerance = tol;
    b.r(min.brent(a, a + w, &mut 0, |x, _: &mut usize| {
        tick();
        Ok((x - s).cosh())
    }));
    if let Some(mut c) = b.e(InterpChebyshev::new(60, a, a + w)) {
        b.e(c.adapt_function(tol, &mut 0, |x, _: &mut usize| {
            tick();
            Ok((2.0 * x).sin() + x)
        }));
        b.r(c.eval(s));
        b.v(c.get_coefficients());
        if let Some(roots) = b.e(root.chebyshev(&c)) {
            b.v(&roots);
        }
    }
    let n = q.us(1, 12);
    let mut par = InterpParams::new();
    par.grid_type = [InterpGrid::Uniform, InterpGrid::ChebyshevGauss, InterpGrid::ChebyshevGaussLobatto][q.us(0, 2)];
    if let Some(mut p) = b.e(InterpLagrange::new(n, Some(par))) {
        let u = q.vector(n + 1);
        let x = q.f(-1.0, 1.0);
        b.r(p.eval(x, &u));
        b.r(p.eval_deriv1(x, &u));
        b.r(p.eval_deriv2(x, &u));
        p.calc_dd1_matrix();
        p.calc_dd2_matrix();
        if let Ok(d) = p.get_dd2() {
            b.v(d.as_data());
        }
    }
    let p = q.us(1, 3);
    let mut knots = vec![0.0; p + 1];
    for i in 0..q.us(0, 4) {
        knots.push(0.3 + i as f64);
    }
    knots.extend(vec![5.0; p + 1]);
    if let Some(mut s) = b.e(Bspline::new(p, &knots)) {
        for x in [0.0, 5.0 * z, 5.0] {
            b.e(s.calc_basis_and_derivs(x, 1));
            for i in 0..s.num_basis() {
                b.f(s.get_basis_deriv(i, 1));
            }
            b.e(s.calc_basis(x));
            for i in 0..s.num_basis() {
                b.f(s.get_basis(i));
            }
        }
    }
}

fn functions(q: &mut Rnd, b: &mut Bits) {
    for _ in 0..4 {
        let x = q.f(0.1, 9.0);
        let n = q.us(0, 9);
        let i = n as i32;
        b.v(&[math::bessel_j0(x), math::bessel_jn(i, x), math::bessel_yn(i, x), math::bessel_i0(x), math::bessel_kn(i, x), math::gamma(x), math::ln_gamma(x).0, math::beta(x, 1.5), math::erf(x - 4.0), math::erf_inv(x / 10.0)]);
        b.r(math::elliptic_f(0.7, x / 10.0));
        b.r(math::elliptic_e(0.7, x / 10.0));
        b.v(&[math::chebyshev_tn(n, x - 4.0), math::legendre_pn(n, x / 10.0), math::factorial_lookup_22(n)]);
        b.v(math::chebyshev_gauss_points(n + 1).as_data());
        b.v(math::chebyshev_lobatto_points(n + 2).as_data());
        b.v(math::legendre_gauss_points(n + 2).as_data());
        b.v(math::legendre_gauss_weights(n + 2).as_data());
        b.v(math::legendre_lobatto_points(n + 2).as_data());
        b.v(math::legendre_lobatto_weights(n + 2).as_data());
    }
}

fn tensors(q: &mut Rnd, b: &mut Bits) {
    for two_dim in [false, true] {
        let rep = if two_dim { Rep::Symmetric2D } else { Rep::Symmetric };
        let mut t = Tensor2::new(rep);
        for i in 0..t.dim() {
            t.set(i, q.f(-1.0, 1.0));
        }
        let mut s = Spectral2::new(two_dim);
        b.e(s.decompose(&t));
        b.v(s.lambda.as_data());
        s.projectors.iter().for_each(|p| b.v(p.as_std_matrix().as_data()));
        let mut inv = Tensor2::new(rep);
        if let Some(d) = t.inverse(&mut inv, 1e-14) {
            b.f(d);
        }
        b.v(inv.as_std_matrix().as_data());
        b.v(&[t.determinant(), t.norm(), t.invariant_q(), t.invariant_jj3()]);
        b.r(t.invariant_lode().ok_or("none"));
    }
}

fn statistics(q: &mut Rnd, b: &mut Bits) {
    let n = q.us(2, 20);
    let v: Vec<f64> = (0..n).map(|_| q.f(-3.0, 3.0)).collect();
    let s = Statistics::new(&v);
    b.v(&[s.min, s.max, s.mean, s.std_dev]);
    b.s(&format!("{:.5}", s));
    if let Some(mut h) = b.e(Histogram::new(&[-3.0, -1.0, 0.0, 0.5, 3.0])) {
        h.count(&v);
        h.set_bar_char('#');
        b.s(&format!("{:.3}", h));
    }
    let (m, d) = (q.f(1.0, 2.0), q.f(0.1, 1.0));
    for x in [0.3, 1.7, 2.9] {
        if let Some(p) = b.e(DistributionNormal::new(m, d)) {
            b.v(&[p.pdf(x), p.cdf(x)]);
        }
        if let Some(p) = b.e(DistributionLognormal::new_from_mu_sig(m, d)) {
            b.v(&[p.pdf(x), p.cdf(x), p.mean()]);
        }
        if let Some(p) = b.e(DistributionGumbel::new_from_mu_sig(m, d)) {
            b.v(&[p.pdf(x), p.cdf(x), p.mean()]);
        }
        if let Some(p) = b.e(DistributionFrechet::new(0.0, m, 3.0)) {
            b.v(&[p.pdf(x), p.cdf(x), p.variance()]);
        }
    }
}

fn newton(q: &mut Rnd, b: &mut Bits) {
    let n = q.us(1, 4);
    let t = q.vector(n);
    let c = q.f(0.1, 1.0);
    let Some(mut s) = b.e(NewtonSolver::new(n)) else { return };
    s.set_enable_stats(true).set_tolerance([1e-6, 1e-9, 1e-12][q.us(0, 2)]);
    let mut x = q.vector(n);
    let r = s.solve(
        &mut x,
        &mut 0,
        |r: &mut Vector, x: &Vector, _: &mut usize| {
            tick();
            for i in 0..n {
                r[i] = (x[i] - t[i]) + c * (x[i] - t[i]).powi(3) + if i > 0 { 0.3 * (x[i - 1] - t[i - 1]) } else { 0.0 };
            }
            Ok(())
        },
        |j: &mut Matrix, x: &Vector, _: &mut usize| {
            tick();
            j.fill(0.0);
            for i in 0..n {
                j.set(i, i, 1.0 + 3.0 * c * (x[i] - t[i]).powi(2));
                if i > 0 {
                    j.set(i, i - 1, 0.3);
                }
            }
            Ok(())
        },
    );
    b.e(r);
    b.v(x.as_data());
    if let Ok(s) = s.get_stats() {
        b.0.extend([s.get_n_function() as u64, s.get_n_jacobian() as u64, s.get_n_iterations() as u64]);
    }
    let at = q.vector(n);
    let r = num_jacobian(n, 0.5, &at, 1.0, &mut 0, |f: &mut Vector, x: f64, y: &Vector, _: &mut usize| {
        tick();
        for i in 0..n {
            f[i] = x * y[i].sin() + y[0] * c;
        }
        Ok(())
    });
    if let Some(j) = b.e(r) {
        b.v(j.as_data());
    }
}

fn files(q: &mut Rnd, b: &mut Bits, seed: u64, dir: &str) {
    let id = std::thread::current().id();
    let depth = INNER.with(|x| x.borrow().busy);
    let path = format!("{}/{:?}-{}-{}.mtx", dir, id, seed, depth);
    let (m, n) = (q.us(1, 6), q.us(1, 6));
    let k = q.us(1, 12);
    let Some(mut coo) = b.e(CooMatrix::new(m, n, k, Sym::No)) else { return };
    for _ in 0..k {
        let (i, j) = (q.us(0, m - 1), q.us(0, n - 1));
        b.e(coo.put(i, j, q.f(-1.0, 1.0)));
    }
    b.v(coo.as_dense().as_data());
    if let Some(csc) = b.e(russell_sparse::CscMatrix::from_coo(&coo)) {
        b.v(csc.get_values());
        b.e(csc.write_matrix_market(&path, false, 0.0));
    }
    if let Some((Some(back), _)) = b.e(read_matrix_market(&path, MMsym::LeaveAsLower)) {
        b.v(back.as_dense().as_data());
    }
    let t = format!("{}.txt", path);
    if std::fs::write(&t, format!("a b\n{} {}\n{} 2.5\n", q.f(-1.0, 1.0), q.us(0, 9), q.us(0, 9))).is_ok() {
        if let Some(table) = b.e(read_table::<f64, String>(&t, Some(&["a", "b"]))) {
            b.v(&table["a"]);
            b.v(&table["b"]);
        }
    }
    let _ = std::fs::remove_file(&path);
    let _ = std::fs::remove_file(&t);
}

/// the result of a computation alone in a new thread
fn alone(jobs: &[(usize, u64)], dir: &str) -> Result<Vec<Vec<u64>>, Stop> {
    let mut list = Vec::new();
    for (k, s) in jobs {
        let r = std::thread::scope(|sc| sc.spawn(|| task(*k, *s, dir)).join());
        match r {
            Ok(v) => list.push(v),
            Err(_) => return fail("alone:panic", format!("{} panics", NAMES[*k])),
        }
    }
    Ok(list)
}

fn jobs(g: &mut G, n: usize, kinds: &[usize]) -> Vec<(usize, u64)> {
    (0..n).map(|_| (*g.pick(kinds), g.draw(1 << 30))).collect()
}

fn prepare(g: &mut G) -> String {
    let dir = g.scratch.join("c37");
    let _ = std::fs::create_dir_all(&dir);
    dir.to_str().unwrap().to_string()
}

const ALL: [usize; 13] = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12];

fn show(g: &mut G, what: &'static str, list: &[(usize, u64)]) {
    let v: Vec<(&str, u64)> = list.iter().map(|(k, s)| (NAMES[*k], *s)).collect();
    v.iter().for_each(|x| g.class(x.0));
    g.show(what, &v);
}

fn history(g: &mut G) -> R {
    let dir = prepare(g);
    let n = g.us(2, 6);
    let list = jobs(g, n, &ALL);
    show(g, "computations", &list);
    let want = alone(&list, &dir)?;
    let order: Vec<usize> = (0..g.us(2, 10)).map(|_| g.us(0, n - 1)).collect();
    g.show("order", &order);
    if order.iter().any(|i| *i != order[0]) {
        g.hit();
    }
    let r = catch(|| {
        for (k, i) in order.iter().enumerate() {
            if task(list[*i].0, list[*i].1, &dir) != want[*i] {
                return Some((k, *i));
            }
        }
        None
    });
    match r {
        Ok(None) => Ok(()),
        Ok(Some((k, i))) => fail("history", format!("{} gives another result as number {} in the order", NAMES[list[i].0], k)),
        Err((m, l)) => fail("history:panic", format!("panic: {} at {}", m, l)),
    }
}

fn nested(g: &mut G) -> R {
    let dir = prepare(g);
    let outer = jobs(g, 1, &OUTER);
    let n = g.us(1, 3);
    let inner = jobs(g, n, &ALL);
    let every = g.us(1, 9);
    show(g, "outer", &outer);
    show(g, "inner", &inner);
    g.show("at every n-th call", &every);
    let want = alone(&outer, &dir)?;
    let each = alone(&inner, &dir)?;
    INNER.with(|x| {
        *x.borrow_mut() = Inner { list: inner.iter().zip(each).map(|((k, s), w)| (*k, *s, w)).collect(), every, dir: dir.clone(), ..Inner::default() };
    });
    let r = catch(|| task(outer[0].0, outer[0].1, &dir));
    let x = INNER.with(|x| x.replace(Inner::default()));
    let got = match r {
        Ok(v) => v,
        Err((m, l)) => return fail("nested:panic", format!("panic: {} at {}", m, l)),
    };
    if x.made > 0 {
        g.hit();
    }
    if let Some((k, _)) = x.wrong {
        return fail("nested:inner", format!("{} gives another result inside {}", NAMES[k], NAMES[outer[0].0]));
    }
    ensure!(got == want[0], "nested:outer", "{} gives another result with {} inside", NAMES[outer[0].0], x.made);
    Ok(())
}

fn threads(g: &mut G) -> R {
    let dir = prepare(g);
    let n = g.us(2, 4);
    let same = g.bool();
    let list = if same {
        let k = *g.pick(&ALL);
        jobs(g, n, &[k])
    } else {
        jobs(g, n, &ALL)
    };
    show(g, "computations", &list);
    g.hit();
    let want = alone(&list, &dir)?;
    let gate = Barrier::new(n);
    let bad: Vec<Option<usize>> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..n)
            .map(|i| {
                let (list, want, gate, dir) = (&list, &want, &gate, &dir);
                sc.spawn(move || {
                    gate.wait();
                    for round in 0..3 {
                        if task(list[i].0, list[i].1, dir) != want[i] {
                            return Some(round);
                        }
                    }
                    None
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or(Some(99))).collect()
    });
    for i in 0..n {
        ensure!(bad[i].is_none(), "threads", "{} gives another result (or panics) beside {:?}", NAMES[list[i].0], list.iter().map(|x| NAMES[x.0]).collect::<Vec<_>>());
    }
    Ok(())
}

pub fn property() -> Property {
    Property {
        id: "C37",
        assumptions: &["the reference is the same computation alone in a new thread of the same process", "thread schedules are those of the operating system; the start is synchronized"],
        laws: vec![
            Law { name: "history", quick: 6000, rule: "two or more different computations one after the other", f: history },
            Law { name: "nested", quick: 5000, rule: "a computation was made inside a callback of another one", f: nested },
            Law { name: "threads", quick: 4000, rule: "two to four computations at the same time", f: threads },
        ],
    }
}
