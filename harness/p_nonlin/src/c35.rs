//! Signs and units (powers of two) go through every solver without any rounding.
use crate::c32::{any_curve, job, settings_for, show, Job};
use crate::ode::{pick_method, prob, ALL, EPS};
use crate::pde::{alpha, any_field, bcs1, bcs2, kinds, Field, Kind};
use crate::util::{settings, solve, Curve, Ev, Log as Events, Run};
use russell_lab::*;
use russell_nonlin::{IniDir, Solver};
use russell_ode::{Method, OdeSolver, Output, Params, System};
use russell_pde::{Fdm1d, Fdm2d, Grid1d, Grid2d, Spc1d, Spc2d};
use russell_sparse::{CooMatrix, Genie, LinSolver, Sym};
use russell_stat::*;
use std::sync::Arc;
use vp_engine::*;

pub fn property() -> Property {
    Property {
        id: "C35",
        assumptions: &["signs and powers of two commute with rounding as long as nothing overflows or underflows"],
        laws: vec![
            Law {
                name: "integration",
                quick: 60000,
                rule: "signs or units of unknowns or independent variable were changed",
                f: integration,
            },
            Law {
                name: "continuation",
                quick: 40000,
                rule: "signs of unknowns or of the parameter were changed and a step was accepted",
                f: continuation,
            },
            Law { name: "scalar", quick: 200000, rule: "signs or units of function or variable were changed", f: scalar },
            Law { name: "newton", quick: 60000, rule: "signs or units of unknowns or equations were changed", f: newton },
            Law { name: "systems", quick: 60000, rule: "more than one equation", f: systems },
            Law { name: "fields", quick: 12000, rule: "values were changed", f: fields },
            Law { name: "random", quick: 100000, rule: "units were changed", f: random },
        ],
    }
}

fn two(g: &mut G, lo: i64, hi: i64) -> f64 {
    f64::powi(2.0, g.int(lo, hi) as i32)
}

fn sign(g: &mut G) -> f64 {
    if g.bool() { -1.0 } else { 1.0 }
}

#[derive(Default)]
struct Log {}

/// signs and units by powers of two
fn integration(g: &mut G) -> R {
    let method = pick_method(g, &ALL);
    let implicit = method == Method::Radau5 || method == Method::BwEuler;
    let stiff = if implicit && g.bool() { 3.0 } else { 0.0 };
    let mass = if implicit { g.draw(2) } else { 0 };
    let pb = prob(g, 3, (0.5, 2.0), stiff, mass);
    let n = pb.n;
    let sx = if g.bool() { 1.0 } else { f64::powi(2.0, g.int(-8, 8) as i32) };
    let sy = if g.bool() { 1.0 } else { f64::powi(2.0, g.int(-6, 12) as i32) };
    let sc: Vec<f64> = (0..n).map(|_| if g.bool() { -sy } else { sy }).collect();
    g.show("factors of x and y", &(sx, &sc));
    if sx != 1.0 || sc.iter().any(|v| *v != 1.0) {
        g.hit();
    }
    let tol = g.plog(-7.0, -2.0);
    let at = tol * g.plog(-1.0, 1.0);
    let newt = if method == Method::BwEuler { Some(1e-3) } else { None };
    let h_ini = g.plog(-4.0, -0.5);
    let equal = if method == Method::BwEuler || g.chance(1, 4) { Some((pb.x1 - pb.x0) / g.us(5, 40) as f64 * (1.0 + 1e-9)) } else { None };
    let modified = g.bool();
    let dense = sx == 1.0 && [Method::DoPri5, Method::DoPri8, Method::Radau5].contains(&method) && g.bool();
    let spacing = (pb.x1 - pb.x0) / g.uni(2.0, 20.0);
    g.show("tolerances, first step, equal step", &(at, tol, h_ini, equal));
    let p = Arc::new(pb.clone());
    let run = |sx: f64, sc: &[f64]| -> Result<(Result<(), &'static str>, Vec<f64>, Vec<f64>, Vec<f64>, Vec<Vec<f64>>, Vec<f64>, Vec<Vec<f64>>), Stop> {
        let scale = sc[0].abs();
        let (q, s) = (p.clone(), sc.to_vec());
        let mut system = System::new(n, move |f: &mut Vector, x: f64, y: &Vector, _: &mut Log| {
            let z: Vec<f64> = (0..n).map(|i| y[i] / s[i]).collect();
            let mut w = vec![0.0; n];
            q.rhs(&mut w, x / sx, &z);
            for i in 0..n {
                f[i] = s[i] * w[i] / sx;
            }
            Ok(())
        });
        let (q, s) = (p.clone(), sc.to_vec());
        system
            .set_jacobian(Some(n * n), Sym::No, move |jj: &mut CooMatrix, alpha: f64, _x: f64, y: &Vector, _: &mut Log| {
                let z: Vec<f64> = (0..n).map(|i| y[i] / s[i]).collect();
                let full = q.jac(&z);
                jj.reset();
                for i in 0..n {
                    for j in 0..n {
                        jj.put(i, j, alpha * (s[i] * full[i * n + j] / s[j] / sx))?;
                    }
                }
                Ok(())
            })
            .unwrap();
        if p.has_mass() {
            let (mm, s) = (p.mass(), sc.to_vec());
            system
                .set_mass(Some(n * n), Sym::No, move |m: &mut CooMatrix| {
                    for i in 0..n {
                        for j in 0..n {
                            m.put(i, j, s[i] * mm[i * n + j] / s[j]).unwrap();
                        }
                    }
                })
                .unwrap();
        }
        let mut params = Params::new(method);
        must("ode:tol", "tolerances", params.set_tolerances(at * scale, tol, newt))?;
        params.radau5.concurrent = false;
        params.bweuler.use_modified_newton = modified;
        params.newton.n_iteration_max = if method == Method::BwEuler { 40 } else { params.newton.n_iteration_max };
        params.step.h_ini = h_ini * sx;
        let comps: Vec<usize> = (0..n).collect();
        let mut out = Output::new();
        out.set_step_recording(&comps);
        if dense {
            out.set_dense_recording(&comps);
            must("ode:spacing", "spacing", out.set_dense_h_out(spacing).map(|_| ()))?;
        }
        let start = pb.start();
        let mut y = Vector::initialized(n, |i| start[i] * sc[i]);
        let r = catch(|| {
            let mut solver = OdeSolver::new(params, system)?;
            solver.solve(&mut y, pb.x0 * sx, pb.x1 * sx, equal.map(|h| h * sx), &mut Log::default(), Some(&mut out))
        });
        let r = match r {
            Ok(r) => r,
            Err((m, l)) => return fail("ode:panic", format!("{} at {}", m, l)),
        };
        let back = |v: &[f64], f: f64| -> Vec<f64> { v.iter().map(|a| a / f).collect() };
        let yy = (0..n).map(|i| y[i] / sc[i]).collect();
        let steps = (0..n).map(|i| back(out.step_y(i), sc[i])).collect();
        let inside = (0..n).map(|i| back(out.dense_y(i), sc[i])).collect();
        Ok((r, yy, back(out.step_x(), sx), back(out.step_h(), sx), steps, back(out.dense_x(), sx), inside))
    };
    let mut a = run(1.0, &vec![1.0; n])?;
    let mut b = run(sx, &sc)?;
    // a last step of the size of a rounding error is made or not depending on an absolute limit
    let tiny = |h: &[f64]| h.len() > 1 && h[h.len() - 1] < 64.0 * EPS * (pb.x0.abs() + pb.x1.abs());
    if tiny(&a.3) != tiny(&b.3) {
        g.class("one last tiny step");
        let r = if tiny(&a.3) { &mut a } else { &mut b };
        r.2.pop();
        r.3.pop();
        for v in &mut r.4 {
            v.pop();
        }
        r.1 = r.4.iter().map(|v| v[v.len() - 1]).collect();
    }
    ensure!(a.0 == b.0, "ode:outcome", "{:?} and {:?}", a.0, b.0);
    ensure!(a.2 == b.2, "ode:x", "{} and {} steps: {:?} {:?}", a.2.len(), b.2.len(), a.2, b.2);
    ensure!(a.3 == b.3, "ode:h", "{:?} and {:?}", a.3, b.3);
    ensure!(a.1 == b.1, "ode:y", "{:?} and {:?}", a.1, b.1);
    ensure!(a.4 == b.4, "ode:steps", "states along the way differ");
    ensure!(a.5 == b.5 && a.6 == b.6, "ode:dense", "dense output differs");
    Ok(())
}

/// the same curve in other signs: u -> s u, parameter -> t parameter, equations times r
fn reflected<'a>(c: &Curve, s: &[f64], t: f64, r: &[f64]) -> russell_nonlin::System<'a, Events> {
    let n = c.n;
    let (a, b) = (c.clone(), c.clone());
    let (sa, ra) = (s.to_vec(), r.to_vec());
    let (sb, rb) = (s.to_vec(), r.to_vec());
    let nnz = Some(n * n);
    russell_nonlin::System::new(
        n,
        nnz,
        c.sym,
        move |gg: &mut Vector, l: f64, u: &Vector, log: &mut Events| {
            log.ev.push(Ev::F(l * t, (0..n).map(|i| u[i] * sa[i]).collect()));
            if log.fuel == 0 {
                return Err(crate::util::FUEL);
            }
            log.fuel -= 1;
            let v: Vec<f64> = (0..n).map(|i| u[i] * sa[i]).collect();
            let w = a.residual(&v, l * t);
            for i in 0..n {
                gg[i] = ra[i] * w[i];
            }
            Ok(())
        },
        move |ggu: &mut CooMatrix, ggl: &mut Vector, l: f64, u: &Vector, log: &mut Events| {
            log.ev.push(Ev::J(l * t, (0..n).map(|i| u[i] * sb[i]).collect()));
            let v: Vec<f64> = (0..n).map(|i| u[i] * sb[i]).collect();
            let (gu, gl) = b.jacobian(&v, l * t);
            for i in 0..n {
                for k in 0..n {
                    ggu.put(i, k, rb[i] * gu[i][k] * sb[k])?;
                }
                ggl[i] = rb[i] * gl[i] * t;
            }
            Ok(())
        },
    )
    .unwrap()
}

fn continuation(g: &mut G) -> R {
    use russell_nonlin::Stop as Rule;
    let (c, method) = any_curve(g);
    let cfg = settings_for(g, method, c.sym);
    let j: Job = job(g, &c, method)?;
    g.show("curve", &c);
    show(g, "run", &j);
    settings(g, &cfg);
    let n = c.n;
    let s: Vec<f64> = (0..n).map(|_| sign(g)).collect();
    let t = sign(g);
    let r: Vec<f64> = (0..n).map(|i| if c.sym == Sym::No { sign(g) } else { s[i] }).collect();
    g.show("signs of unknowns, parameter, equations", &(&s, t, &r));
    let (u0, l0) = c.at(j.w0);
    let one = vec![1.0; n];
    let go = |s: &[f64], t: f64, r: &[f64]| -> Result<Run, Stop> {
        let mut solver = must("continuation:new", "solver", Solver::new(&cfg, reflected(&c, s, t, r)))?;
        let u: Vec<f64> = (0..n).map(|i| u0[i] * s[i]).collect();
        let dir = if (j.dir == IniDir::Pos) == (t > 0.0) { IniDir::Pos } else { IniDir::Neg };
        let stop = match j.stop {
            Rule::MinLambda(v) if t < 0.0 => Rule::MaxLambda(-v),
            Rule::MaxLambda(v) if t < 0.0 => Rule::MinLambda(-v),
            Rule::MinCompU(i, v) if s[i] < 0.0 => Rule::MaxCompU(i, -v),
            Rule::MaxCompU(i, v) if s[i] < 0.0 => Rule::MinCompU(i, -v),
            other => other,
        };
        solve("continuation:panic", &mut solver, Events::new(), &u, l0 * t, dir, stop, &j.ddl, n)
    };
    let a = go(&one, 1.0, &one)?;
    let b = go(&s, t, &r)?;
    if a.stats.n_accepted > 0 && (t < 0.0 || s.iter().chain(&r).any(|v| *v < 0.0)) {
        g.hit();
    }
    ensure!(a.status == b.status, "continuation:status", "{:?} and {:?}", a.status, b.status);
    let calls = |r: &Run| -> Vec<(f64, Vec<f64>)> {
        r.log.ev.iter().filter_map(|e| if let Ev::F(l, u) | Ev::J(l, u) = e { Some((*l, u.clone())) } else { None }).collect()
    };
    let (ca, cb) = (calls(&a), calls(&b));
    for (k, (x, y)) in ca.iter().zip(&cb).enumerate() {
        ensure!(x == y, "continuation:calls", "call {}: at {:?} and at {:?}", k, x, y);
    }
    ensure!(ca.len() == cb.len(), "continuation:calls", "{} and {} calls", ca.len(), cb.len());
    ensure!(a.l == b.l * t && (0..n).all(|i| a.u[i] == b.u[i] * s[i]), "continuation:state", "{:?} and {:?}", (a.l, &a.u), (b.l, &b.u));
    ensure!(a.h == b.h && a.norm == b.norm, "continuation:steps", "step sizes {:?} and {:?}", a.h, b.h);
    let st = |r: &Run| (r.stats.n_steps, r.stats.n_accepted, r.stats.n_rejected, r.stats.n_iteration_total, r.stats.n_factor, r.stats.n_lin_sol);
    ensure!(st(&a) == st(&b), "continuation:counters", "{:?} and {:?}", st(&a), st(&b));
    for k in 0..a.dlds.len().min(b.dlds.len()) {
        ensure!(a.dlds[k] == b.dlds[k] * t && (0..n).all(|i| a.duds[i][k] == b.duds[i][k] * s[i]), "continuation:tangent", "record {}", k);
    }
    Ok(())
}

/// integrals, roots, minima, brackets of functions of one variable
fn scalar(g: &mut G) -> R {
    let c: Vec<f64> = (0..4).map(|_| g.f(-2.0, 2.0)).collect();
    let (w, z) = (g.f(-6.0, 6.0), g.f(-3.0, 3.0));
    let amp = if g.bool() { 0.0 } else { g.f(-2.0, 2.0) };
    let (kink, at) = (if g.bool() { 0.0 } else { g.f(-2.0, 2.0) }, g.f(-2.0, 2.0));
    let jump = if g.chance(1, 4) { g.f(-3.0, 3.0) } else { 0.0 };
    let power = *g.pick(&[0.5, 1.0, 0.25, 1.5, -0.5, -0.9, -1.0]);
    let f = |x: f64| c[0] + x * (c[1] + x * (c[2] + x * c[3])) + amp * (w * x + z).sin() + kink * ((x - at).abs() + 1e-30).powf(power) + if x > at { jump } else { 0.0 };
    let a = if g.chance(1, 4) { at } else { g.f(-3.0, 3.0) };
    let b = if g.chance(1, 5) { a * (1.0 + g.flog(-9.0, -1.0)) } else { g.f(-3.0, 3.0) };
    if (a - b).abs() < 1e-11 {
        discard!();
    }
    let kind = g.draw(5);
    let sf = sign(g) * two(g, -40, 40);
    let sx = sign(g) * two(g, -8, 20);
    g.show("kind, coefficients, wave, kink", &(kind, &c, (amp, w, z), (kink, at, power, jump)));
    g.show("interval, factors", &(a, b, sf, sx));
    if sf != 1.0 || sx != 1.0 {
        g.hit();
    }
    let tol = g.plog(-12.0, -2.0);
    let few = g.chance(1, 4);
    match kind {
        0 | 1 => {
            g.class("integral");
            let rule = *g.pick(&[6, 8, 10, 12, 14]);
            let go = |sf: f64, sx: f64| -> (Result<f64, &'static str>, usize, f64) {
                let mut q = Quadrature::new();
                q.tolerance = tol;
                q.n_gauss = rule;
                if few {
                    q.n_iteration_max = 20;
                }
                q.set_enable_stats(true);
                let mut calls = 0;
                let r = q.integrate(a * sx, b * sx, &mut calls, |x, n: &mut usize| {
                    *n += 1;
                    Ok(sf * f(x / sx))
                });
                let e = q.get_stats().map(|s| s.get_error_estimate()).unwrap_or(f64::NAN);
                (r.map(|v| v / sf / sx), calls, e / sf / sx)
            };
            let (p, q) = (go(1.0, 1.0), go(sf, sx));
            ensure!(p.0 == q.0 && p.1 == q.1, "scalar:integral", "{:?} and {:?}", p, q);
            ensure!(p.0.is_err() || p.2 == q.2, "scalar:estimate", "{:?} and {:?}", p, q);
        }
        2 => {
            g.class("root");
            let shift = f(0.5 * (a + b));
            let go = |sf: f64, sx: f64| -> (Result<f64, &'static str>, usize) {
                let mut s = RootFinder::new();
                s.brent_tolerance = tol * sx.abs();
                if few {
                    s.brent_max_iterations = 7;
                }
                let mut calls = 0;
                let r = s.brent(a * sx, b * sx, &mut calls, |x, n: &mut usize| {
                    *n += 1;
                    Ok(sf * (f(x / sx) - shift))
                });
                (r.map(|v| v / sx), calls)
            };
            let (p, q) = (go(1.0, 1.0), go(sf, sx));
            ensure!(p == q, "scalar:root", "{:?} and {:?}", p, q);
        }
        3 => {
            g.class("minimum");
            // the method starts closer to the left end: no reflection
            let (sf, sx) = (sf.abs(), sx.abs());
            let go = |sf: f64, sx: f64| -> (Result<f64, &'static str>, usize) {
                let mut s = MinSolver::new();
                s.tolerance = tol * sx;
                if few {
                    s.n_iteration_max = 9;
                }
                let mut calls = 0;
                let r = s.brent(a * sx, b * sx, &mut calls, |x, n: &mut usize| {
                    *n += 1;
                    Ok(sf * f(x / sx))
                });
                (r.map(|v| v / sx), calls)
            };
            if tol * sx < 1e-14 {
                discard!();
            }
            let (p, q) = (go(1.0, 1.0), go(sf, sx));
            ensure!(p == q, "scalar:minimum", "{:?} and {:?}", p, q);
        }
        _ => {
            g.class("bracket");
            let (sf, sx) = (sf.abs(), sx.abs());
            let step = g.plog(-3.0, 0.0);
            let grow = g.uni(1.1, 3.0);
            let go = |sf: f64, sx: f64| -> (Result<[f64; 6], &'static str>, usize) {
                let mut s = MinBracketing::new();
                s.initial_step = step * sx;
                s.expansion_factor = grow;
                s.n_iteration_max = if few { 4 } else { 12 };
                let mut calls = 0;
                let r = s.basic(a * sx, &mut calls, |x, n: &mut usize| {
                    *n += 1;
                    Ok(sf * f(x / sx))
                });
                (r.map(|v| [v.a / sx, v.b / sx, v.xo / sx, v.fa / sf, v.fb / sf, v.fxo / sf]), calls)
            };
            let (p, q) = (go(1.0, 1.0), go(sf, sx));
            ensure!(p == q, "scalar:bracket", "{:?} and {:?}", p, q);
        }
    }
    Ok(())
}

/// Newton's method for small systems
fn newton(g: &mut G) -> R {
    let n = g.us(1, 5);
    let a: Vec<f64> = (0..n * n).map(|k| if k % (n + 1) == 0 { sign(g) * g.uni(1.0, 4.0) } else { g.f(-1.0, 1.0) }).collect();
    let b = g.vec_f(n, -2.0, 2.0);
    let (k, e) = (g.vec_f(n, -1.0, 1.0), g.vec_f(n, -2.0, 2.0));
    let x0 = g.vec_f(n, -2.0, 2.0);
    let tol = g.plog(-10.0, -2.0);
    let (ls, it) = (g.bool(), g.us(1, 20));
    let big = if g.chance(1, 3) { g.uni(1.0, 10.0) } else { 1e6 };
    let sx: Vec<f64> = (0..n).map(|_| sign(g) * two(g, -10, 10)).collect();
    let common = two(g, -5, 10);
    let sr: Vec<f64> = (0..n).map(|_| sign(g) * common).collect();
    g.show("matrix, constants", &(&a, &b));
    g.show("nonlinear terms, start", &(&k, &e, &x0));
    g.show("tolerance, line search, iterations, divergence", &(tol, ls, it, big));
    g.show("factors", &(&sx, &sr));
    if sx.iter().chain(&sr).any(|v| *v != 1.0) {
        g.hit();
    }
    let go = |sx: &[f64], sr: &[f64]| -> Result<(Result<(), &'static str>, Vec<f64>, Vec<Vec<f64>>), Stop> {
        let mut s = must("newton:new", "solver", NewtonSolver::new(n))?;
        s.set_tolerance(tol * sr[0].abs()).set_max_iterations(it).set_use_line_search(ls).set_divergent_tol(big);
        let mut x = Vector::initialized(n, |i| x0[i] * sx[i]);
        let mut calls: Vec<Vec<f64>> = Vec::new();
        let r = s.solve(
            &mut x,
            &mut calls,
            |r: &mut Vector, x: &Vector, c: &mut Vec<Vec<f64>>| {
                let z: Vec<f64> = (0..n).map(|i| x[i] / sx[i]).collect();
                for i in 0..n {
                    let lin: f64 = (0..n).map(|j| a[i * n + j] * z[j]).sum();
                    r[i] = sr[i] * (lin - b[i] + k[i] * (e[i] * z[i]).sin());
                }
                c.push(z);
                Ok(())
            },
            |m: &mut Matrix, x: &Vector, _| {
                for i in 0..n {
                    for j in 0..n {
                        let mut v = a[i * n + j];
                        if i == j {
                            v += k[i] * e[i] * (e[i] * x[i] / sx[i]).cos();
                        }
                        m.set(i, j, sr[i] * v / sx[j]);
                    }
                }
                Ok(())
            },
        );
        Ok((r, (0..n).map(|i| x[i] / sx[i]).collect(), calls))
    };
    let p = go(&vec![1.0; n], &vec![1.0; n])?;
    let q = go(&sx, &sr)?;
    g.class(if p.0.is_ok() { "converged" } else { "not converged" });
    ensure!(p.0 == q.0, "newton:outcome", "{:?} and {:?}", p.0, q.0);
    ensure!(p.1 == q.1, "newton:state", "{:?} and {:?}", p.1, q.1);
    ensure!(p.2 == q.2, "newton:calls", "iterates differ");
    Ok(())
}

/// systems of linear equations: dense and sparse
fn systems(g: &mut G) -> R {
    let n = g.size(1, 12);
    let sparse = g.bool();
    let a: Vec<f64> = (0..n * n)
        .map(|k| {
            if k % (n + 1) == 0 {
                sign(g) * g.uni(0.5, 4.0)
            } else if g.chance(1, 2) {
                g.f(-2.0, 2.0)
            } else {
                0.0
            }
        })
        .collect();
    let b = g.vec_f(n, -3.0, 3.0);
    // (UMFPACK divides by row factors below 1e-12 and multiplies by the reciprocal of others)
    let common = if sparse { two(g, -20, 60) } else { two(g, -60, 60) };
    let sb = sign(g) * two(g, -60, 60);
    let r: Vec<f64> = (0..n).map(|_| sign(g)).collect();
    let c: Vec<f64> = (0..n).map(|_| sign(g) * if sparse { 1.0 } else { two(g, -30, 30) }).collect();
    g.show("matrix, right-hand side", &(&a, &b));
    g.show("factors: all, right-hand side, rows, columns", &(common, sb, &r, &c));
    if n > 1 {
        g.hit();
    }
    let one = vec![1.0; n];
    if sparse {
        g.class("sparse");
        let go = |common: f64, sb: f64, r: &[f64], c: &[f64]| -> Result<Option<(Vec<f64>, f64)>, Stop> {
            let mut m = must("systems:coo", "matrix", CooMatrix::new(n, n, n * n, Sym::No))?;
            for i in 0..n {
                for j in 0..n {
                    if a[i * n + j] != 0.0 {
                        must("systems:put", "put", m.put(i, j, common * r[i] * a[i * n + j] * c[j]))?;
                    }
                }
            }
            let mut s = must("systems:new", "solver", LinSolver::new(Genie::Umfpack))?;
            if s.actual.factorize(&m, None).is_err() {
                return Ok(None);
            }
            let rhs = Vector::initialized(n, |i| b[i] * r[i] * sb);
            let mut x = Vector::new(n);
            must("systems:solve", "solve", s.actual.solve(&mut x, &rhs, false))?;
            Ok(Some(((0..n).map(|j| x[j] * c[j] / sb * common).collect(), 0.0)))
        };
        let p = go(1.0, 1.0, &one, &one)?;
        let q = go(common, sb, &r, &c)?;
        ensure!(p == q, "systems:sparse", "{:?} and {:?}", p, q);
    } else {
        g.class("dense");
        let go = |common: f64, sb: f64, r: &[f64], c: &[f64]| -> (Result<(), &'static str>, Vec<f64>) {
            let mut m = Matrix::new(n, n);
            for i in 0..n {
                for j in 0..n {
                    m.set(i, j, common * r[i] * a[i * n + j] * c[j]);
                }
            }
            let mut x = Vector::initialized(n, |i| b[i] * r[i] * sb);
            let res = solve_lin_sys(&mut x, &mut m);
            (res, (0..n).map(|j| x[j] * c[j] / sb * common).collect())
        };
        let p = go(1.0, 1.0, &one, &one);
        let q = go(common, sb, &r, &c);
        ensure!(p.0 == q.0, "systems:dense", "{:?} and {:?}", p.0, q.0);
        ensure!(p.0.is_err() || p.1 == q.1, "systems:dense", "{:?} and {:?}", p.1, q.1);
        // symmetric positive matrices
        let mut s = Matrix::new(n, n);
        for i in 0..n {
            for j in 0..n {
                let v: f64 = (0..n).map(|k| a[i * n + k] * a[j * n + k]).sum();
                s.set(i, j, v + if i == j { 1.0 } else { 0.0 });
            }
        }
        let t = Matrix::from(&(0..n).map(|i| (0..n).map(|j| s.get(i, j) * c[i] * c[j]).collect::<Vec<_>>()).collect::<Vec<_>>());
        let (mut ls, mut lt) = (s.clone(), t.clone());
        must("systems:cholesky", "factors", mat_cholesky(&mut ls, false))?;
        must("systems:cholesky", "factors", mat_cholesky(&mut lt, false))?;
        for i in 0..n {
            for j in 0..=i {
                let d = c[i] * c[j].signum();
                ensure!(lt.get(i, j) == ls.get(i, j) * d, "systems:cholesky", "({},{}): {} and {}", i, j, ls.get(i, j), lt.get(i, j));
            }
        }
    }
    Ok(())
}

fn times(f: &Field, v: f64) -> Field {
    let mut f = f.clone();
    for row in f.c.iter_mut() {
        for c in row.iter_mut() {
            *c *= v;
        }
    }
    for w in f.w.iter_mut() {
        w.0 *= v;
    }
    f
}

/// boundary value problems with all data multiplied
fn fields(g: &mut G) -> R {
    let dims = g.us(1, 2);
    let spectral = g.bool();
    let k = kinds(g, dims, !spectral);
    let mut n = [0, 0];
    for d in 0..dims {
        let hi = if dims == 1 { 14 } else { 6 };
        n[d] = g.us(3, hi);
    }
    let o = [g.f(-3.0, 3.0), g.f(-3.0, 3.0)];
    let lx = g.plog(-1.0, 1.0);
    let l = [lx, lx * g.plog(-0.5, 0.5)];
    let kx = sign(g) * g.plog(-1.0, 1.0);
    let ky = kx * g.plog(-0.7, 0.7);
    let al = alpha(g, kx / (lx * lx), !k.contains(&Kind::E));
    let e: Vec<Field> = (0..4).map(|_| any_field(g, o, l, dims)).collect();
    let q: Vec<Field> = (0..4).map(|_| any_field(g, o, l, dims)).collect();
    let s = any_field(g, o, l, dims);
    let fac = sign(g) * two(g, -120, 120);
    let all = two(g, -12, 12);
    let lmm = g.bool();
    let symmetric = g.bool();
    g.show("sides, nodes, start, lengths, spectral, multipliers", &(&k, n, o, l, spectral, lmm));
    g.show("kx, ky, alpha, factor of the data, of the coefficients", &(kx, ky, al, fac, all));
    if fac != 1.0 {
        g.hit();
    }
    let go = |fac: f64, all: f64, g: &mut G| -> Result<Vec<f64>, Stop> {
        let (kx, ky, al) = (kx * all, ky * all, al * all);
        let ee: Vec<Field> = e.iter().map(|f| times(f, fac)).collect();
        let qq: Vec<Field> = q.iter().map(|f| times(f, fac * all)).collect();
        let ss = times(&s, fac * all);
        let r = catch(|| -> Result<Vector, &'static str> {
            if dims == 1 {
                let (eb, nb) = bcs1(g, &k, &ee, move |s, x| qq[s].v(x, 0.0));
                let f = |x: f64| ss.v(x, 0.0);
                if spectral {
                    let p = Spc1d::new(o[0], o[0] + l[0], n[0], eb, nb, kx)?;
                    if lmm { p.solve_lmm(al, f) } else { p.solve_sps(al, f) }
                } else {
                    let grid = Grid1d::new_uniform(o[0], o[0] + l[0], n[0])?;
                    let mut p = Fdm1d::new(grid, eb, nb, kx)?;
                    p.set_solver_options(Genie::Umfpack, symmetric);
                    if lmm { p.solve_lmm(al, f) } else { p.solve_sps(al, f) }
                }
            } else {
                let (eb, nb) = bcs2(g, &k, &ee, move |s, x, y| qq[s].v(x, y));
                let f = |x: f64, y: f64| ss.v(x, y);
                if spectral {
                    let p = Spc2d::new(o[0], o[0] + l[0], o[1], o[1] + l[1], n[0], n[1], eb, nb, kx, ky)?;
                    if lmm { p.solve_lmm(al, f) } else { p.solve_sps(al, f) }
                } else {
                    let grid = Grid2d::new_uniform(o[0], o[0] + l[0], o[1], o[1] + l[1], n[0], n[1])?;
                    let mut p = Fdm2d::new(grid, eb, nb, kx, ky)?;
                    p.set_solver_options(Genie::Umfpack, symmetric);
                    if lmm { p.solve_lmm(al, f) } else { p.solve_sps(al, f) }
                }
            }
        });
        match r {
            Ok(Ok(a)) => Ok(a.as_data().iter().map(|v| v / fac).collect()),
            r => fail("fields:solve", format!("{:?}", r)),
        }
    };
    let a = go(1.0, 1.0, g)?;
    let b = go(fac, 1.0, g)?;
    ensure!(a == b, "fields:data", "{:?} and {:?}", a, b);
    if !lmm {
        let c = go(fac, all, g)?;
        ensure!(a == c, "fields:coefficients", "{:?} and {:?}", a, c);
    }
    Ok(())
}

/// distributions and statistics in other units
fn random(g: &mut G) -> R {
    let s = two(g, -20, 20);
    let (loc, scale) = (g.f(-3.0, 3.0), g.plog(-1.0, 1.0));
    let x = loc + scale * g.f(-4.0, 6.0);
    let kind = g.draw(5);
    g.show("kind, location, scale, x, factor", &(kind, loc, scale, x, s));
    if s != 1.0 {
        g.hit();
    }
    fn four<D: ProbabilityDistribution>(d: &D, x: f64, s: f64) -> [f64; 4] {
        [d.pdf(x) * s, d.cdf(x), d.mean() / s, d.variance() / s / s]
    }
    let (p, q) = match kind {
        0 => {
            g.class("normal");
            let go = |s: f64| DistributionNormal::new(loc * s, scale * s).map(|d| four(&d, x * s, s));
            (must("random:new", "normal", go(1.0))?, must("random:new", "normal", go(s))?)
        }
        1 => {
            g.class("uniform");
            let go = |s: f64| DistributionUniform::new(loc * s, (loc + scale) * s).map(|d| four(&d, x * s, s));
            (must("random:new", "uniform", go(1.0))?, must("random:new", "uniform", go(s))?)
        }
        2 => {
            g.class("gumbel");
            let go = |s: f64| DistributionGumbel::new(loc * s, scale * s).map(|d| four(&d, x * s, s));
            (must("random:new", "gumbel", go(1.0))?, must("random:new", "gumbel", go(s))?)
        }
        3 => {
            g.class("frechet");
            let shape = g.uni(0.5, 6.0);
            let go = |s: f64| DistributionFrechet::new(loc * s, scale * s, shape).map(|d| four(&d, x * s, s));
            (must("random:new", "frechet", go(1.0))?, must("random:new", "frechet", go(s))?)
        }
        _ => {
            g.class("data");
            let n = g.us(2, 40);
            let v: Vec<f64> = (0..n).map(|_| loc + scale * g.f(-1.0, 1.0)).collect();
            let m = sign(g);
            let w: Vec<f64> = v.iter().map(|x| x * s * m).collect();
            let (a, b) = (Statistics::new(&v), Statistics::new(&w));
            let (lo, hi) = if m > 0.0 { (b.min / s, b.max / s) } else { (-b.max / s, -b.min / s) };
            (
                [a.mean, a.std_dev, a.min, a.max],
                [b.mean / s * m, b.std_dev / s, lo, hi],
            )
        }
    };
    for k in 0..4 {
        let tiny = p[k].abs() < 1e-280 && q[k].abs() < 1e-280; // not within the range of normal numbers
        ensure!(p[k] == q[k] || tiny || (p[k].is_nan() && q[k].is_nan()), "random:value", "entry {}: {} and {}", k, p[k], q[k]);
    }
    Ok(())
}
