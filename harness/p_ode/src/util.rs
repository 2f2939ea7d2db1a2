//! Manufactured systems of differential equations with known solutions.
//!
//! The solution Y(x) is chosen first. The right-hand side is then
//! `f(x,y) = S ( D T Y' + A (y - Y) + N(y) - N(Y) )` and the mass matrix `M = S D T`, so that
//! Y solves `M y' = f` whatever A and N are. Without a mass matrix S, D and T are the identity.
use russell_lab::{Matrix, Vector};
use russell_ode::*;
use russell_sparse::{CooMatrix, Sym};
use std::sync::Arc;
use vp_engine::*;

pub const EPS: f64 = f64::EPSILON;

pub const ALL: [Method; 16] = [
    Method::Radau5,
    Method::BwEuler,
    Method::FwEuler,
    Method::Rk2,
    Method::Rk3,
    Method::Heun3,
    Method::Rk4,
    Method::Rk4alt,
    Method::MdEuler,
    Method::Merson4,
    Method::Zonneveld4,
    Method::Fehlberg4,
    Method::DoPri5,
    Method::Verner6,
    Method::Fehlberg7,
    Method::DoPri8,
];

pub const EMBEDDED: [Method; 9] = [
    Method::DoPri5,
    Method::DoPri8,
    Method::Radau5,
    Method::MdEuler,
    Method::Merson4,
    Method::Zonneveld4,
    Method::Fehlberg4,
    Method::Verner6,
    Method::Fehlberg7,
];

pub fn name(m: Method) -> &'static str {
    match m {
        Method::Radau5 => "Radau5",
        Method::BwEuler => "BwEuler",
        Method::FwEuler => "FwEuler",
        Method::Rk2 => "Rk2",
        Method::Rk3 => "Rk3",
        Method::Heun3 => "Heun3",
        Method::Rk4 => "Rk4",
        Method::Rk4alt => "Rk4alt",
        Method::MdEuler => "MdEuler",
        Method::Merson4 => "Merson4",
        Method::Zonneveld4 => "Zonneveld4",
        Method::Fehlberg4 => "Fehlberg4",
        Method::DoPri5 => "DoPri5",
        Method::Verner6 => "Verner6",
        Method::Fehlberg7 => "Fehlberg7",
        Method::DoPri8 => "DoPri8",
    }
}

pub fn pick_method(g: &mut G, list: &[Method]) -> Method {
    let m = *g.pick(list);
    g.show("method", &m);
    g.class(name(m));
    m
}

/// what the callbacks saw
#[derive(Default, Clone, Debug)]
pub struct Args {
    pub nf: usize,
    pub nj: usize,
    /// raise an error at this function call (1-based; 0 = never)
    pub fail_f: usize,
    pub fail_j: usize,
    /// return NaN from this function call on (0 = never)
    pub nan_f: usize,
    /// entries collected by the step and dense callbacks
    pub step: Vec<(f64, f64, Vec<f64>)>,
    pub dense: Vec<(f64, f64, Vec<f64>)>,
    pub stop_step: usize,
    pub stop_dense: usize,
    pub fail_step: usize,
    pub fail_dense: usize,
}

pub const MSG_F: &str = "function asked to fail";
pub const MSG_J: &str = "jacobian asked to fail";
pub const MSG_S: &str = "step callback asked to fail";
pub const MSG_D: &str = "dense callback asked to fail";

#[derive(Clone, Debug)]
pub struct Prob {
    pub n: usize,
    /// amplitude, frequency, phase, amplitude of decay, rate, slope
    pub sol: Vec<[f64; 6]>,
    pub x0: f64,
    pub x1: f64,
    pub a: Vec<f64>,
    /// N_i(y) = c sin(k y_j + d)
    pub non: Vec<(f64, f64, f64, usize)>,
    /// left factor, mass diagonal and right factor (empty: no mass matrix)
    pub s: Vec<f64>,
    pub d: Vec<f64>,
    pub t: Vec<f64>,
    /// upper bound of the logarithmic norm (growth of perturbations)
    pub mu: f64,
    /// bound of the norm of the Jacobian
    pub lip: f64,
    /// leave zero entries of the Jacobian out
    pub sparse: bool,
}

impl Prob {
    pub fn yex(&self, i: usize, x: f64) -> f64 {
        let c = &self.sol[i];
        let t = x - self.x0;
        c[0] * (c[1] * t + c[2]).sin() + c[3] * (-c[4] * t).exp() + c[5] * t
    }

    pub fn dyex(&self, i: usize, x: f64) -> f64 {
        let c = &self.sol[i];
        let t = x - self.x0;
        c[0] * c[1] * (c[1] * t + c[2]).cos() - c[3] * c[4] * (-c[4] * t).exp() + c[5]
    }

    pub fn exact(&self, x: f64) -> Vec<f64> {
        (0..self.n).map(|i| self.yex(i, x)).collect()
    }

    pub fn start(&self) -> Vector {
        Vector::from(&self.exact(self.x0))
    }

    pub fn has_mass(&self) -> bool {
        !self.d.is_empty()
    }

    fn core(&self, out: &mut [f64], x: f64, y: &[f64]) {
        let n = self.n;
        for i in 0..n {
            let mut v = if self.has_mass() {
                let mut w = 0.0;
                for j in 0..n {
                    w += self.t[i * n + j] * self.dyex(j, x);
                }
                self.d[i] * w
            } else {
                self.dyex(i, x)
            };
            for j in 0..n {
                let aij = self.a[i * n + j];
                if aij != 0.0 {
                    v += aij * (y[j] - self.yex(j, x));
                }
            }
            let (c, k, d, m) = self.non[i];
            if c != 0.0 {
                v += c * ((k * y[m] + d).sin() - (k * self.yex(m, x) + d).sin());
            }
            out[i] = v;
        }
    }

    pub fn rhs(&self, f: &mut [f64], x: f64, y: &[f64]) {
        if self.has_mass() {
            let n = self.n;
            let mut w = vec![0.0; n];
            self.core(&mut w, x, y);
            for i in 0..n {
                f[i] = (0..n).map(|j| self.s[i * n + j] * w[j]).sum();
            }
        } else {
            self.core(f, x, y);
        }
    }

    pub fn jac(&self, y: &[f64]) -> Vec<f64> {
        let n = self.n;
        let mut jj = self.a.clone();
        for i in 0..n {
            let (c, k, d, m) = self.non[i];
            jj[i * n + m] += c * k * (k * y[m] + d).cos();
        }
        if self.has_mass() { matmul(n, &self.s, &jj) } else { jj }
    }

    pub fn mass(&self) -> Vec<f64> {
        let n = self.n;
        let mut dt = self.t.clone();
        for i in 0..n {
            for j in 0..n {
                dt[i * n + j] *= self.d[i];
            }
        }
        matmul(n, &self.s, &dt)
    }

    /// which entries of the Jacobian are stored
    pub fn pattern(&self) -> Vec<(usize, usize)> {
        let n = self.n;
        let mut p = Vec::new();
        for i in 0..n {
            for j in 0..n {
                let (c, _, _, m) = self.non[i];
                let zero = self.a[i * n + j] == 0.0 && !(c != 0.0 && m == j);
                if !(self.sparse && zero && !self.has_mass()) {
                    p.push((i, j));
                }
            }
        }
        p
    }

    /// builds the system; counting and failing as told by the arguments
    pub fn system<'a>(&self, with_jacobian: bool) -> System<'a, Args> {
        let pb = Arc::new(self.clone());
        let p = pb.clone();
        let mut system = System::new(self.n, move |f: &mut Vector, x: f64, y: &Vector, args: &mut Args| {
            args.nf += 1;
            if args.nf == args.fail_f {
                return Err(MSG_F);
            }
            p.rhs(f.as_mut_data(), x, y.as_data());
            if args.nan_f > 0 && args.nf >= args.nan_f {
                f[0] = f64::NAN;
            }
            Ok(())
        });
        if with_jacobian {
            let p = pb.clone();
            let pat = self.pattern();
            let nnz = pat.len();
            system
                .set_jacobian(
                    Some(nnz),
                    Sym::No,
                    move |jj: &mut CooMatrix, alpha: f64, _x: f64, y: &Vector, args: &mut Args| {
                        args.nj += 1;
                        if args.nj == args.fail_j {
                            return Err(MSG_J);
                        }
                        let full = p.jac(y.as_data());
                        jj.reset();
                        for (i, j) in &pat {
                            jj.put(*i, *j, alpha * full[*i * p.n + *j])?;
                        }
                        Ok(())
                    },
                )
                .unwrap();
        }
        if self.has_mass() {
            let n = self.n;
            let mm = self.mass();
            let count = mm.iter().filter(|v| **v != 0.0).count().max(1);
            system
                .set_mass(Some(count), Sym::No, move |m: &mut CooMatrix| {
                    for i in 0..n {
                        for j in 0..n {
                            if mm[i * n + j] != 0.0 || (count == 1 && i == 0 && j == 0) {
                                m.put(i, j, mm[i * n + j]).unwrap();
                            }
                        }
                    }
                })
                .unwrap();
        }
        system
    }

    /// largest magnitude of component i along the solution (sampled)
    pub fn peak(&self, i: usize) -> f64 {
        (0..=64)
            .map(|k| self.yex(i, self.x0 + (self.x1 - self.x0) * k as f64 / 64.0).abs())
            .fold(0.0, f64::max)
    }
}

fn matmul(n: usize, a: &[f64], b: &[f64]) -> Vec<f64> {
    let mut c = vec![0.0; n * n];
    for i in 0..n {
        for k in 0..n {
            for j in 0..n {
                c[i * n + j] += a[i * n + k] * b[k * n + j];
            }
        }
    }
    c
}

/// generates a system; `stiff` is the largest decay rate (log10)
pub fn prob(g: &mut G, nmax: usize, len: (f64, f64), stiff: f64, mass: u64) -> Prob {
    let n = g.us(1, nmax);
    let x0 = match g.draw(3) {
        0 => 0.0,
        1 => g.uni(-2.0, 2.0),
        _ => g.int(-3, 3) as f64,
    };
    let x1 = x0 + g.uni(len.0, len.1);
    let mut sol = Vec::new();
    for _ in 0..n {
        let c0 = g.uni(-2.0, 2.0);
        let c1 = g.uni(0.3, 3.0);
        let c2 = g.uni(0.0, 6.0);
        let c3 = if g.bool() { g.uni(-2.0, 2.0) } else { 0.0 };
        let c4 = g.uni(0.0, 2.0);
        let c5 = if g.chance(1, 3) { g.uni(-1.0, 1.0) } else { 0.0 };
        sol.push([c0, c1, c2, c3, c4, c5]);
    }
    let coupled = g.chance(4, 5);
    let nonlinear = g.chance(3, 4);
    let sparse = g.bool();
    let mut a = vec![0.0; n * n];
    let mut non = Vec::new();
    let mut mu = f64::NEG_INFINITY;
    let mut lip: f64 = 0.0;
    for i in 0..n {
        let lam = if stiff > 0.0 && g.chance(2, 3) {
            g.plog(0.0, stiff)
        } else {
            g.uni(-0.3, 2.0)
        };
        let mut off = 0.0;
        if coupled {
            for j in 0..n {
                if j != i && !(sparse && g.bool()) {
                    let v = g.uni(-1.0, 1.0) * f64::max(1.0, 0.3 * lam) / (n as f64);
                    a[i * n + j] = v;
                    off += v.abs();
                }
            }
        }
        a[i * n + i] = -lam;
        let item = if nonlinear {
            let c = g.uni(-1.0, 1.0);
            let k = g.uni(0.3, 1.5);
            let d = g.uni(0.0, 6.0);
            (c, k, d, g.us(0, n - 1))
        } else {
            (0.0, 1.0, 0.0, 0)
        };
        let nl = f64::abs(item.0 * item.1);
        mu = mu.max(-lam + off + nl);
        lip = lip.max(lam.abs() + off + nl);
        non.push(item);
    }
    let (mut s, mut d, mut t) = (Vec::new(), Vec::new(), Vec::new());
    if mass > 0 {
        // 1: nonsingular, 2: singular
        let k = if mass == 2 { g.us(1, n) } else { 0 };
        d = (0..n).map(|i| if i >= n - k { 0.0 } else { g.uni(0.5, 2.0) }).collect();
        let simple = g.bool();
        s = near_identity(g, n, simple);
        t = near_identity(g, n, simple);
        // dominant rows keep the constraints solvable and the system stable
        for i in 0..n {
            let off: f64 = (0..n).filter(|j| *j != i).map(|j| a[i * n + j].abs()).sum();
            let nl = f64::abs(non[i].0 * non[i].1);
            a[i * n + i] = -(a[i * n + i].abs() + off + nl + 1.0);
        }
        mu = 1.0;
        lip = f64::MAX;
    }
    let p = Prob {
        n,
        sol,
        x0,
        x1,
        a,
        non,
        s,
        d,
        t,
        mu,
        lip,
        sparse,
    };
    g.show("problem", &p);
    if nonlinear {
        g.class("nonlinear");
    }
    if coupled && n > 1 {
        g.class("coupled");
    }
    p
}

fn near_identity(g: &mut G, n: usize, simple: bool) -> Vec<f64> {
    let mut m = vec![0.0; n * n];
    for i in 0..n {
        for j in 0..n {
            if i == j {
                m[i * n + j] = if simple { 1.0 } else { g.uni(0.8, 1.5) };
            } else if !simple {
                m[i * n + j] = g.uni(-0.3, 0.3) / n as f64;
            }
        }
    }
    m
}

/// solves and gives (final state, recorded x, per-step maximum error in all components)
pub struct Run {
    pub y: Vec<f64>,
    pub xs: Vec<f64>,
    pub hs: Vec<f64>,
    pub ys: Vec<Vec<f64>>,
    pub stats: Stats,
    pub args: Args,
}

pub fn run(
    p: &Prob,
    params: Params,
    with_jacobian: bool,
    h: Option<f64>,
    key: &str,
) -> Result<Result<Run, String>, Stop> {
    let r = catch(|| {
        let mut solver = OdeSolver::new(params, p.system(with_jacobian))?;
        solve_once(&mut solver, p, h)
    });
    match r {
        Ok(v) => Ok(v.map_err(|e| e.to_string())),
        Err((msg, loc)) => fail(key, format!("panic: {} at {}", msg, loc)),
    }
}

pub fn solve_once(solver: &mut OdeSolver<Args>, p: &Prob, h: Option<f64>) -> Result<Run, &'static str> {
    let mut out = Output::new();
    let comps: Vec<usize> = (0..p.n).collect();
    out.set_step_recording(&comps);
    let mut y = p.start();
    let mut args = Args::default();
    solver.solve(&mut y, p.x0, p.x1, h, &mut args, Some(&mut out))?;
    let xs = out.step_x().clone();
    let ys = (0..xs.len())
        .map(|k| (0..p.n).map(|m| out.step_y(m)[k]).collect())
        .collect();
    Ok(Run {
        y: y.as_data().to_vec(),
        xs,
        hs: out.step_h().clone(),
        ys,
        stats: *solver.stats(),
        args,
    })
}

pub fn max_err(p: &Prob, r: &Run) -> f64 {
    let mut e: f64 = 0.0;
    for (x, y) in r.xs.iter().zip(&r.ys) {
        for i in 0..p.n {
            let d = (y[i] - p.yex(i, *x)).abs();
            if !(d <= e) {
                e = d;
            }
        }
    }
    e
}

pub fn dense(m: &Matrix) -> String {
    format!("{}", m)
}
