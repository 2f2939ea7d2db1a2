//! Errors raised by user functions.
use crate::c32;
use crate::ode;
use crate::util::{Log, solve};
use russell_lab::check::*;
use russell_lab::*;
use russell_nonlin::{Output as ContOutput, Solver, Status};
use russell_ode::{Method, OdeSolver, Output, Params, Stats as OdeStats};
use russell_sparse::{CooMatrix, Sym, numerical_jacobian};
use vp_engine::*;

pub fn property() -> Property {
    Property {
        id: "C10",
        assumptions: &[
            "errors of the secondary-state update of a continuation are a documented status, not an error, and belong to C31 and C32",
            "the helpers named *_approx_eq are assertions that panic by design and are not covered",
        ],
        laws: vec![
            Law { name: "scalar", quick: 400000, rule: "the fault was raised at the chosen call of a routine taking scalar functions", f: scalar },
            Law { name: "systems", quick: 200000, rule: "the fault was raised at the chosen call of the Newton solver or a numerical Jacobian", f: systems },
            Law { name: "ode", quick: 40000, rule: "the fault was raised at the chosen call of a function, Jacobian or output callback of an integration", f: integration },
            Law { name: "continuation", quick: 40000, rule: "the fault was raised at the chosen call of a residual, Jacobian or output callback of a continuation", f: continuation },
        ],
    }
}

const TEXTS: [&str; 5] = ["the injected fault", "", "INTERNAL ERROR: not really", "Error(1): Matrix is singular", "fail:\n\"π\""];

/// counts calls and fails at one of them (1-based; 0 = never)
#[derive(Clone, Debug, Default)]
struct Calls {
    n: usize,
    at: usize,
    text: &'static str,
    /// kind of function: number of calls per kind
    per: [usize; 4],
    kind: usize,
}

impl Calls {
    fn hit(&mut self, kind: usize) -> Result<(), StrError> {
        self.n += 1;
        self.per[kind] += 1;
        if self.at > 0 && kind == self.kind && self.per[kind] == self.at { Err(self.text) } else { Ok(()) }
    }
}

#[derive(Clone, Debug)]
struct Spec {
    kind: usize,
    a: f64,
    b: f64,
    /// root or minimum
    r: f64,
    /// coefficients
    c: [f64; 4],
    n: usize,
    tol: f64,
    flag: bool,
}

const KINDS: [&str; 18] = [
    "quadrature",
    "root by Brent",
    "root refinement",
    "minimum by Brent",
    "minimum bracketing",
    "Chebyshev: set function",
    "Chebyshev: adapt function",
    "Chebyshev: error estimate",
    "Lagrange: error estimate",
    "Lagrange: all error estimates",
    "line search",
    "line search function",
    "first derivative, central",
    "first derivative, forward",
    "first derivative, backward",
    "second derivative, central",
    "second derivative, forward",
    "second derivative, backward",
];

enum Obj {
    Quad(Quadrature),
    Root(RootFinder),
    Min(MinSolver),
    Brk(MinBracketing),
    Cheb(InterpChebyshev),
    Lag(InterpLagrange),
    Line(LineSearcher),
    Nothing,
}

impl Spec {
    fn make(g: &mut G) -> Spec {
        let kind = g.us(0, KINDS.len() - 1);
        g.class(KINDS[kind]);
        let a = g.f(-3.0, 2.0);
        let b = a + g.f(0.5, 3.0);
        let r = a + (b - a) * g.uni(0.1, 0.9);
        let c = [g.f(-2.0, 2.0), g.f(-2.0, 2.0), g.f(0.1, 1.0), g.f(0.3, 3.0)];
        Spec { kind, a, b, r, c, n: g.us(1, 12), tol: g.plog(-9.0, -2.0), flag: g.bool() }
    }
    fn f(&self, x: f64) -> f64 {
        let t = x - self.r;
        let c = &self.c;
        match self.kind {
            1 | 2 => t * (1.0 + c[2] * t * t) * (if c[0] < 0.0 { -1.0 } else { 1.0 }),
            3 | 4 => t * t * (1.0 + c[2] * t * t) + c[0],
            10 | 11 => 1.0 + t * t * t * t + c[2] * t * t,
            _ => c[0] + c[1] * x + c[2] * (c[3] * x).sin(),
        }
    }
    fn object(&self) -> Result<Obj, StrError> {
        Ok(match self.kind {
            0 => {
                let mut o = Quadrature::new();
                o.set_enable_stats(true);
                if self.flag {
                    o.tolerance = self.tol;
                }
                Obj::Quad(o)
            }
            1 | 2 => {
                let mut o = RootFinder::new();
                o.set_enable_stats(true);
                Obj::Root(o)
            }
            3 => {
                let mut o = MinSolver::new();
                o.set_enable_stats(true);
                Obj::Min(o)
            }
            4 => {
                let mut o = MinBracketing::new();
                o.set_enable_stats(true);
                Obj::Brk(o)
            }
            5 | 6 => Obj::Cheb(InterpChebyshev::new(self.n + 20, self.a, self.b)?),
            7 => {
                let mut o = InterpChebyshev::new(self.n, self.a, self.b)?;
                o.set_function(self.n, &mut 0, |x, _| Ok(self.f(x)))?;
                Obj::Cheb(o)
            }
            8 | 9 => {
                let mut par = InterpParams::new();
                par.error_estimate_nstation = 5 + 7 * self.n;
                let mut o = InterpLagrange::new(self.n + 1, Some(par))?;
                if self.flag {
                    o.calc_dd1_matrix();
                    o.calc_dd2_matrix();
                }
                Obj::Lag(o)
            }
            10 => Obj::Line(LineSearcher::new()),
            _ => Obj::Nothing,
        })
    }
    fn run(&self, o: &mut Obj, calls: &mut Calls) -> Result<Vec<f64>, StrError> {
        let f = |x: f64, q: &mut Calls| -> Result<f64, StrError> {
            q.hit(0)?;
            Ok(self.f(x))
        };
        let slope = |x: f64| 4.0 * (x - self.r).powi(3) + 2.0 * self.c[2] * (x - self.r);
        let x0 = self.a;
        let p = -slope(x0) * self.c[3] * 8.0;
        match (self.kind, o) {
            (0, Obj::Quad(o)) => {
                let v = o.integrate(self.a, self.b, calls, f)?;
                let s = o.get_stats()?;
                Ok(vec![v, s.get_n_function() as f64, s.get_n_iterations() as f64, s.get_error_estimate()])
            }
            (1, Obj::Root(o)) => {
                let v = o.brent(self.a, self.b, calls, f)?;
                let s = o.get_stats()?;
                Ok(vec![v, s.get_n_function() as f64, s.get_n_iterations() as f64, s.get_error_estimate()])
            }
            (2, Obj::Root(o)) => {
                let mut roots = vec![self.r + 0.01 * (self.b - self.a), self.r - 0.02 * (self.b - self.a)];
                o.refine(&mut roots, self.a, self.b, calls, f)?;
                Ok(roots)
            }
            (3, Obj::Min(o)) => {
                let v = o.brent(self.a, self.b, calls, f)?;
                let s = o.get_stats()?;
                Ok(vec![v, s.get_n_function() as f64, s.get_n_iterations() as f64, s.get_error_estimate()])
            }
            (4, Obj::Brk(o)) => {
                let v = o.basic(self.a, calls, f)?;
                let s = o.get_stats()?;
                Ok(vec![v.a, v.b, v.xo, v.fa, v.fb, v.fxo, s.get_n_function() as f64, s.get_n_iterations() as f64])
            }
            (5, Obj::Cheb(o)) => {
                o.set_function(self.n, calls, f)?;
                let mut v = o.get_coefficients()[..=o.get_degree()].to_vec();
                v.push(o.eval(self.r)?);
                Ok(v)
            }
            (6, Obj::Cheb(o)) => {
                o.adapt_function(self.tol, calls, f)?;
                let mut v = o.get_coefficients()[..=o.get_degree()].to_vec();
                v.push(o.eval(self.r)?);
                Ok(v)
            }
            (7, Obj::Cheb(o)) => Ok(vec![o.estimate_max_error(3 + 10 * self.n, calls, f)?]),
            (8, Obj::Lag(o)) => Ok(vec![o.estimate_max_error(calls, f)?]),
            (9, Obj::Lag(o)) => {
                let (c1, c2, c3) = (self.c[1], self.c[2], self.c[3]);
                let (x, y, z) = o.estimate_max_error_all(
                    self.flag,
                    calls,
                    f,
                    |x, q: &mut Calls| {
                        q.hit(1)?;
                        Ok(c1 + c2 * c3 * (c3 * x).cos())
                    },
                    |x, q| {
                        q.hit(2)?;
                        Ok(-c2 * c3 * c3 * (c3 * x).sin())
                    },
                )?;
                Ok(vec![x, y, z])
            }
            (10, Obj::Line(o)) => {
                let (v, n) = o.search(x0, p, self.f(x0), slope(x0), calls, f)?;
                Ok(vec![v, n as f64])
            }
            (11, _) if self.flag => Ok(vec![line_search(x0, p, self.f(x0), slope(x0), calls, f)?]),
            (11, _) => {
                let (v, n) = line_search_with_stats(x0, p, self.f(x0), slope(x0), calls, f)?;
                Ok(vec![v, n as f64])
            }
            (12, _) => Ok(vec![deriv1_central5(self.r, calls, f)?]),
            (13, _) => Ok(vec![deriv1_forward7(self.r, calls, f)?]),
            (14, _) => Ok(vec![deriv1_backward7(self.r, calls, f)?]),
            (15, _) => Ok(vec![deriv2_central9(self.r, calls, f)?]),
            (16, _) => Ok(vec![deriv2_forward8(self.r, calls, f)?]),
            _ => Ok(vec![deriv2_backward8(self.r, calls, f)?]),
        }
    }
}

fn same(a: &[f64], b: &[f64]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.to_bits() == y.to_bits())
}

/// picks the failing call among the calls of an undisturbed run
fn choose(g: &mut G, per: &[usize; 4]) -> Result<(usize, usize), Stop> {
    let kinds: Vec<usize> = (0..4).filter(|k| per[*k] > 0).collect();
    if kinds.is_empty() {
        discard!();
    }
    let kind = *g.pick(&kinds);
    let n = per[kind];
    // the first, the last or any call
    let at = match g.draw(4) {
        0 => 1,
        1 => n,
        _ => g.us(1, n),
    };
    if at == n {
        g.class("last call");
    }
    Ok((kind, at))
}

fn scalar(g: &mut G) -> R {
    let spec = Spec::make(g);
    g.show("problem", &spec);
    let mut o = must("scalar:new", "object", spec.object())?;
    let mut calls = Calls::default();
    let want = match catch(|| spec.run(&mut o, &mut calls)) {
        Ok(Ok(v)) => v,
        _ => discard!(),
    };
    let mut o = must("scalar:new", "object", spec.object())?;
    for round in 0..g.us(1, 3) {
        let (kind, at) = choose(g, &calls.per)?;
        let text = *g.pick(&TEXTS);
        g.show("failing function, call and text", &(kind, at, text));
        g.hit();
        let mut bad = Calls { kind, at, text, ..Default::default() };
        match catch(|| spec.run(&mut o, &mut bad)) {
            Ok(Ok(v)) => return fail("scalar:success", format!("{}: call {} of {} failed and the result is {:?}", KINDS[spec.kind], at, calls.per[kind], v)),
            Ok(Err(e)) => ensure!(e == text, "scalar:error", "{}: call {} failed with {:?} but the error is {:?}", KINDS[spec.kind], at, text, e),
            Err((m, l)) => return fail("scalar:panic", format!("{}: panic at call {}: {} at {}", KINDS[spec.kind], at, m, l)),
        }
        if g.bool() || round == 2 {
            let mut good = Calls::default();
            match catch(|| spec.run(&mut o, &mut good)) {
                Ok(Ok(v)) => ensure!(same(&v, &want) && good.per == calls.per, "scalar:again", "{}: after the failure {:?}, a fresh object gives {:?}", KINDS[spec.kind], (v, good.per), (want, calls.per)),
                Ok(Err(e)) => return fail("scalar:again", format!("{}: after the failure error {:?}", KINDS[spec.kind], e)),
                Err((m, l)) => return fail("scalar:again", format!("{}: after the failure panic {} at {}", KINDS[spec.kind], m, l)),
            }
        }
    }
    Ok(())
}

#[derive(Clone, Debug)]
struct Sys {
    n: usize,
    a: Vec<f64>,
    b: Vec<f64>,
    beta: f64,
}

impl Sys {
    fn f(&self, r: &mut Vector, x: &Vector) {
        for i in 0..self.n {
            r[i] = self.beta * x[(i + 1) % self.n].sin() - self.b[i];
            for j in 0..self.n {
                r[i] += self.a[i * self.n + j] * x[j];
            }
        }
    }
    fn j(&self, jj: &mut Matrix, x: &Vector) {
        for i in 0..self.n {
            for j in 0..self.n {
                jj.set(i, j, self.a[i * self.n + j]);
            }
            let k = (i + 1) % self.n;
            jj.add(i, k, self.beta * x[k].cos());
        }
    }
}

fn systems(g: &mut G) -> R {
    let n = g.us(1, 5);
    let mut a = vec![0.0; n * n];
    for i in 0..n {
        for j in 0..n {
            a[i * n + j] = if i == j { n as f64 + g.uni(1.0, 4.0) } else { g.uni(-1.0, 1.0) };
        }
    }
    let s = Sys { n, a, b: g.vec_f(n, -4.0, 4.0), beta: g.uni(0.0, 1.0) };
    let kind = g.us(0, 2);
    g.class(["Newton", "dense Jacobian", "sparse Jacobian"][kind]);
    let start = g.vec_f(n, -2.0, 2.0);
    let (ls, tol) = (g.bool(), g.plog(-12.0, -3.0));
    let alpha = if ls { g.f(0.3, 1.0) } else { 1.0 };
    let sym = *g.pick(&[Sym::No, Sym::YesLower, Sym::YesUpper, Sym::YesFull]);
    g.show("system", &s);
    g.show("kind, start, line search, tolerance, alpha", &(kind, &start, ls, tol, alpha));
    let make = || -> Result<NewtonSolver, StrError> {
        let mut o = NewtonSolver::new(n)?;
        o.set_enable_stats(true).set_use_line_search(ls).set_tolerance(tol).set_initial_alpha(alpha).set_max_iterations(60);
        Ok(o)
    };
    let sparse = || CooMatrix::new(n, n, n * n, sym).unwrap();
    let work = |o: &mut NewtonSolver, jj: &mut CooMatrix, y: &mut Vector, calls: &mut Calls| -> Result<Vec<f64>, StrError> {
        match kind {
            0 => {
                let mut x = Vector::from(&start);
                o.solve(
                    &mut x,
                    calls,
                    |r, x, q: &mut Calls| {
                        q.hit(0)?;
                        Ok(s.f(r, x))
                    },
                    |j, x, q: &mut Calls| {
                        q.hit(1)?;
                        Ok(s.j(j, x))
                    },
                )?;
                let mut v = x.as_data().to_vec();
                let st = o.get_stats()?;
                v.extend([st.get_n_function() as f64, st.get_n_jacobian() as f64, st.get_n_iterations() as f64]);
                Ok(v)
            }
            1 => {
                let m = num_jacobian(n, 0.5, y, alpha, calls, |r, _, x, q: &mut Calls| {
                    q.hit(0)?;
                    Ok(s.f(r, x))
                })?;
                Ok(m.as_data().to_vec())
            }
            _ => {
                let (mut w1, mut w2) = (Vector::new(n), Vector::new(n));
                numerical_jacobian(jj, n, alpha, 0.5, y, &mut w1, &mut w2, calls, |r, _, x, q: &mut Calls| {
                    q.hit(0)?;
                    Ok(s.f(r, x))
                })?;
                Ok(jj.as_dense().as_data().to_vec())
            }
        }
    };
    let y0 = Vector::from(&start);
    let mut calls = Calls::default();
    let want = match catch(|| work(&mut make()?, &mut sparse(), &mut y0.clone(), &mut calls)) {
        Ok(Ok(v)) => v,
        _ => discard!(),
    };
    let mut o = must("systems:new", "solver", make())?;
    let mut jj = sparse();
    let mut y = y0.clone();
    for round in 0..g.us(1, 3) {
        let (fun, at) = choose(g, &calls.per)?;
        let text = *g.pick(&TEXTS);
        g.show("failing function, call and text", &(fun, at, text));
        g.hit();
        let mut bad = Calls { kind: fun, at, text, ..Default::default() };
        match catch(|| work(&mut o, &mut jj, &mut y, &mut bad)) {
            Ok(Ok(v)) => return fail("systems:success", format!("call {} of {} failed and the result is {:?}", at, calls.per[fun], v)),
            Ok(Err(e)) => ensure!(e == text, "systems:error", "call {} failed with {:?} but the error is {:?}", at, text, e),
            Err((m, l)) => return fail("systems:panic", format!("panic at call {}: {} at {}", at, m, l)),
        }
        ensure!(same(y.as_data(), y0.as_data()), "systems:restored", "the vector {:?} became {:?} after the failure", y0.as_data(), y.as_data());
        if g.bool() || round == 2 {
            let mut good = Calls::default();
            match catch(|| work(&mut o, &mut jj, &mut y, &mut good)) {
                Ok(Ok(v)) => ensure!(same(&v, &want) && good.per == calls.per, "systems:again", "after the failure {:?}, a fresh object gives {:?}", (v, good.per), (want, calls.per)),
                Ok(Err(e)) => return fail("systems:again", format!("after the failure error {:?}", e)),
                Err((m, l)) => return fail("systems:again", format!("after the failure panic {} at {}", m, l)),
            }
        }
    }
    Ok(())
}

const DENSE: [Method; 3] = [Method::DoPri5, Method::DoPri8, Method::Radau5];

/// what is visible from a run
#[derive(Clone, Debug, PartialEq)]
struct Seen {
    result: Result<(), StrError>,
    y: Vec<u64>,
    rec: Vec<u64>,
    counts: Vec<usize>,
    per: [usize; 4],
}

fn bits(v: &[f64]) -> Vec<u64> {
    v.iter().map(|x| x.to_bits()).collect()
}

fn outputs<'a>(p: &ode::Prob, dense: bool, both: bool) -> Output<'a, ode::Args> {
    let mut out = Output::new();
    let all: Vec<usize> = (0..p.n).collect();
    if both {
        out.set_step_recording(&all);
    }
    out.set_step_callback(|_: &OdeStats, h: f64, x: f64, y: &Vector, args: &mut ode::Args| {
        args.step.push((h, x, y.as_data().to_vec()));
        if args.step.len() == args.fail_step { Err(ode::MSG_S) } else { Ok(false) }
    });
    if dense {
        if both {
            out.set_dense_recording(&all);
        }
        out.set_dense_h_out((p.x1 - p.x0) / 7.0).unwrap();
        out.set_dense_callback(|_: &OdeStats, h: f64, x: f64, y: &Vector, args: &mut ode::Args| {
            args.dense.push((h, x, y.as_data().to_vec()));
            if args.dense.len() == args.fail_dense { Err(ode::MSG_D) } else { Ok(false) }
        });
    }
    out
}

fn integration(g: &mut G) -> R {
    let method = if g.bool() { ode::pick_method(g, &[Method::Radau5, Method::BwEuler, Method::DoPri5, Method::DoPri8]) } else { ode::pick_method(g, &ode::ALL) };
    let stiff = if method == Method::Radau5 && g.bool() { 3.0 } else { 0.0 };
    let mass = if method == Method::Radau5 { *g.pick(&[0, 0, 1, 2]) } else { 0 };
    let p = ode::prob(g, 3, (0.3, 2.0), stiff, mass);
    let mut params = Params::new(method);
    let tol = g.plog(-6.0, -3.0);
    must("ode:tol", "tolerances", params.set_tolerances(tol, tol, None))?;
    let with_jac = g.bool();
    params.newton.use_numerical_jacobian = with_jac && g.chance(1, 4);
    if method == Method::Radau5 && g.chance(1, 8) {
        params.radau5.concurrent = false;
    }
    if method == Method::BwEuler {
        params.bweuler.use_modified_newton = g.bool();
    }
    let h = if method == Method::BwEuler || g.chance(1, 3) { Some((p.x1 - p.x0) / g.us(6, 25) as f64 * (1.0 + 1e-9)) } else { None };
    let dense = DENSE.contains(&method) && g.bool();
    let both = g.bool();
    g.show("jacobian, numerical, h, dense", &(with_jac, params.newton.use_numerical_jacobian, h, dense));
    let perform = |solver: &mut OdeSolver<'static, ode::Args>, out: &mut Output<'static, ode::Args>, mut args: ode::Args, key: &'static str| -> Result<Seen, Stop> {
        let mut y = p.start();
        match catch(|| solver.solve(&mut y, p.x0, p.x1, h, &mut args, Some(out))) {
            Ok(r) => {
                let st = solver.stats();
                let mut rec: Vec<f64> = args.step.iter().chain(&args.dense).flat_map(|(h, x, y)| [*h, *x].into_iter().chain(y.clone())).collect();
                if both {
                    rec.extend(out.step_x());
                    rec.extend(out.step_h());
                    (0..p.n).for_each(|m| rec.extend(out.step_y(m)));
                    if dense {
                        rec.extend(out.dense_x());
                        (0..p.n).for_each(|m| rec.extend(out.dense_y(m)));
                    }
                }
                Ok(Seen {
                    result: r,
                    y: bits(y.as_data()),
                    rec: bits(&rec),
                    counts: vec![st.n_function, st.n_jacobian, st.n_factor, st.n_lin_sol, st.n_steps, st.n_accepted, st.n_rejected, st.n_iterations, st.n_iterations_max],
                    per: [args.nf, args.nj, args.step.len(), args.dense.len()],
                })
            }
            Err((m, l)) => fail(key, format!("panic: {} at {}", m, l)),
        }
    };
    let mut fresh = must("ode:new", "solver", OdeSolver::new(params, p.system(with_jac)))?;
    let want = perform(&mut fresh, &mut outputs(&p, dense, both), ode::Args::default(), "ode:fresh")?;
    drop(fresh);
    if want.result.is_err() {
        discard!();
    }
    let mut solver = must("ode:new", "solver", OdeSolver::new(params, p.system(with_jac)))?;
    let mut out = outputs(&p, dense, both);
    let keep = g.bool();
    for round in 0..g.us(1, 3) {
        let (kind, at) = choose(g, &want.per)?;
        g.show("failing function (0 f, 1 Jacobian, 2 step, 3 dense) and call", &(kind, at));
        g.hit();
        g.class(["function fails", "Jacobian fails", "step callback fails", "dense callback fails"][kind]);
        let mut args = ode::Args::default();
        match kind {
            0 => args.fail_f = at,
            1 => args.fail_j = at,
            2 => args.fail_step = at,
            _ => args.fail_dense = at,
        }
        let text = [ode::MSG_F, ode::MSG_J, ode::MSG_S, ode::MSG_D][kind];
        let r = perform(&mut solver, &mut out, args, "ode:panic")?;
        ensure!(r.result == Err(text), "ode:error", "the failure {:?} at call {} of {} gives {:?}", text, at, want.per[kind], r.result);
        if !keep {
            out = outputs(&p, dense, both);
        }
        if g.bool() || round == 2 {
            let r = perform(&mut solver, &mut out, ode::Args::default(), "ode:again")?;
            ensure!(r.result == Ok(()), "ode:again", "after the failure: {:?}", r.result);
            ensure!(r.counts == want.counts && r.per == want.per, "ode:again", "after the failure counters {:?}, a fresh solver has {:?}", (r.counts, r.per), (want.counts, want.per));
            ensure!(r.y == want.y && r.rec == want.rec, "ode:again", "after the failure other values than those of a fresh solver");
        }
    }
    Ok(())
}

fn continuation(g: &mut G) -> R {
    let (mut c, method) = c32::any_curve(g);
    c.hooks = g.chance(1, 4);
    let cfg = c32::settings_for(g, method, c.sym);
    let job = c32::job(g, &c, method)?;
    g.show("curve", &c);
    c32::show(g, "run", &job);
    crate::util::settings(g, &cfg);
    let (u0, l0) = c.at(job.w0);
    let mut fresh = must("continuation:new", "solver", Solver::new(&cfg, c.system()))?;
    let want = solve("continuation:panic", &mut fresh, Log::new(), &u0, l0, job.dir, job.stop, &job.ddl, c.n)?;
    drop(fresh);
    if want.status.is_err() {
        discard!();
    }
    let mut solver = must("continuation:new", "solver", Solver::new(&cfg, c.system()))?;
    for round in 0..g.us(1, 3) {
        let n = want.log.count;
        let (kind, at) = choose(g, &[n[0], n[1], n[2], 0])?;
        g.show("failing function (0 residual, 1 Jacobian, 2 output) and call", &(kind, at));
        g.hit();
        g.class(["residual fails", "Jacobian fails", "output fails"][kind]);
        let mut log = Log::new();
        log.fault = Some((kind, at - 1));
        let r = solve("continuation:panic", &mut solver, log, &u0, l0, job.dir, job.stop, &job.ddl, c.n)?;
        ensure!(r.status == Err(crate::util::FAULT.to_string()), "continuation:error", "the failure at call {} of {} gives {:?}", at, n[kind], r.status);
        if g.bool() || round == 2 {
            let r = solve("continuation:again", &mut solver, Log::new(), &u0, l0, job.dir, job.stop, &job.ddl, c.n)?;
            if let Err(m) = c32::same(&r, &want) {
                return fail("continuation:again", format!("after the failure: {}", m));
            }
        }
    }
    // without an output object the errors of the functions are reported as well
    if g.chance(1, 4) {
        let n = want.log.count;
        let (kind, at) = choose(g, &[n[0], n[1], 0, 0])?;
        let mut log = Log::new();
        log.fault = Some((kind, at - 1));
        let (mut u, mut l) = (Vector::from(&u0), l0);
        let none: Option<&mut ContOutput<Log>> = None;
        match catch(|| solver.solve(&mut log, &mut u, &mut l, job.dir, job.stop, &job.ddl, none)) {
            Ok(Err(e)) => ensure!(e == crate::util::FAULT, "continuation:error", "the error is {:?}", e),
            // an output that stops the run is absent here, not the failing call
            Ok(Ok(s)) => return fail("continuation:success", format!("status {:?} although call {} failed", s as Status, at)),
            Err((m, l)) => return fail("continuation:panic", format!("panic: {} at {}", m, l)),
        }
    }
    Ok(())
}
