//! Adaptive integration: accuracy against the tolerance, mass matrices, configurations, refusals.
use crate::util::*;
use russell_lab::Vector;
use russell_ode::*;
use russell_sparse::{CooMatrix, Ordering, LinSolParams, Scaling, Sym};
use vp_engine::*;

pub fn property() -> Property {
    Property {
        id: "C24",
        assumptions: &[
            "global error is compared with the tolerance times a calibrated factor per method, only on systems whose perturbations do not grow",
            "the limits of step size times spectral radius are those of the published codes: 3.25 for DoPri5 and 6.1 for DoPri8",
        ],
        laws: vec![
            Law {
                name: "accuracy",
                quick: 20000,
                rule: "more than three accepted steps on a coupled or nonlinear system",
                f: accuracy,
            },
            Law {
                name: "stiff",
                quick: 6000,
                rule: "a decay rate above 100 per unit length",
                f: stiff,
            },
            Law {
                name: "mass",
                quick: 6000,
                rule: "mass matrix different from the identity",
                f: mass,
            },
            Law {
                name: "batch",
                quick: 900,
                rule: "25 runs of one method and kind of system; the median error counts",
                f: batch,
            },
            Law {
                name: "misled",
                quick: 20000,
                rule: "the Jacobian callback is wrong",
                f: misled,
            },
            Law {
                name: "unfinished",
                quick: 4000,
                rule: "the run cannot finish",
                f: unfinished,
            },
            Law {
                name: "stiffness",
                quick: 1500,
                rule: "stiffness detection is on",
                f: stiffness,
            },
            Law {
                name: "detect",
                quick: 12000,
                rule: "stiffness was counted in at least one step",
                f: detect,
            },
            Law {
                name: "samples",
                quick: 3000,
                rule: "a sample problem from a generated initial state",
                f: samples,
            },
            Law {
                name: "defaults",
                quick: 6000,
                rule: "every case",
                f: defaults,
            },
            Law {
                name: "refuse",
                quick: 20000,
                rule: "an invalid request",
                f: refuse,
            },
        ],
    }
}

/// any valid controller configuration
pub fn config(g: &mut G, method: Method, params: &mut Params) -> bool {
    if g.bool() {
        return false;
    }
    g.class("configured");
    let st = &mut params.step;
    if g.bool() {
        st.m_min = g.uni(0.05, 0.45);
        st.m_max = g.uni(1.5, 15.0);
        if method == Method::Radau5 {
            // the two are used as divisors: the step may at least halve and double
            st.m_max = g.uni(2.0, 15.0);
        }
    }
    if g.bool() {
        st.m_safety = g.uni(0.5, 0.95);
    }
    if g.bool() {
        st.m_first_reject = if g.bool() { 0.0 } else { g.uni(0.02, 0.9) };
    }
    if g.bool() {
        st.rel_error_prev_min = g.plog(-8.0, -2.0);
    }
    st.h_ini = g.plog(-7.0, -1.0);
    if method != Method::Radau5 && g.bool() {
        params.erk.lund_beta = g.uni(0.0, 0.04);
        params.erk.lund_m = g.uni(0.2, 1.0);
    }
    if method == Method::Radau5 {
        let r = &mut params.radau5;
        r.zero_trial = g.bool();
        r.use_pred_control = g.bool();
        r.concurrent = g.chance(1, 6);
        if g.bool() {
            r.theta_max = g.plog(-6.0, -1.5);
        }
        if g.bool() {
            r.c1h = g.uni(0.7, 1.0);
            r.c2h = g.uni(1.05, 1.9);
        }
        if g.bool() {
            params.newton.n_iteration_max = g.us(5, 15);
        }
        if g.chance(1, 4) {
            let mut lp = LinSolParams::new();
            lp.ordering = *g.pick(&[Ordering::Auto, Ordering::Amd, Ordering::Cholmod, Ordering::No]);
            lp.scaling = *g.pick(&[Scaling::Auto, Scaling::Max, Scaling::No, Scaling::Sum]);
            params.newton.lin_sol_params = Some(lp);
            g.class("linear solver options");
        }
    }
    g.show("step", &params.step);
    g.show("radau5", &params.radau5);
    g.show("newton", &params.newton);
    g.show("erk", &params.erk);
    true
}

/// tolerance range that each method can use at reasonable cost
fn tolerance(g: &mut G, method: Method) -> (f64, f64) {
    let lo = match method {
        Method::MdEuler => -6.0,
        Method::Merson4 | Method::Zonneveld4 | Method::Fehlberg4 => -8.0,
        Method::Radau5 => -9.0,
        _ => -10.0,
    };
    let rel = g.plog(lo, -2.0);
    let abs = if g.bool() { rel } else { rel * g.plog(-1.0, 1.0) };
    (abs, rel)
}

/// worst error over all output, in units of the tolerance
fn ratio(p: &Prob, r: &Run, method: Method, abs: f64, rel: f64) -> f64 {
    // Radau5 documents that it works with 0.1 rel^(2/3)
    let (abs, rel) = if method == Method::Radau5 {
        let b = 0.1 * f64::powf(rel, 2.0 / 3.0);
        (f64::max(abs, b * abs / rel), f64::max(rel, b))
    } else {
        (abs, rel)
    };
    let mut worst: f64 = 0.0;
    let peak: Vec<f64> = (0..p.n).map(|i| p.peak(i)).collect();
    // the controller measures all components together
    let mut scale: f64 = 0.0;
    for i in 0..p.n {
        scale = scale.max(abs + rel * peak[i]);
    }
    for (x, y) in r.xs.iter().zip(&r.ys) {
        for i in 0..p.n {
            let d = (y[i] - p.yex(i, *x)).abs() / scale;
            if !(d <= worst) {
                worst = d;
            }
        }
    }
    worst
}

fn finish(p: &Prob, r: &Run) -> R {
    let tol = 4.0 * EPS * p.x0.abs().max(p.x1.abs()) + 1e-14;
    let last = r.xs[r.xs.len() - 1];
    near("finish:x1", "final station", last, p.x1, tol)?;
    ensure!(r.ys[r.ys.len() - 1] == r.y, "finish:y", "the last record is not the returned state");
    ensure!(r.xs.len() == r.stats.n_accepted + 1, "finish:count", "{} records, {} accepted", r.xs.len(), r.stats.n_accepted);
    Ok(())
}

/// growth of a perturbation over the interval
fn growth(p: &Prob) -> f64 {
    let len = p.x1 - p.x0;
    if p.mu > 0.0 { (p.mu * len).exp() * len.max(1.0) } else { len.max(1.0) }
}

/// error in units of the tolerance that a single run must not exceed
const LIMIT_DEFAULT: f64 = 1e4;
const LIMIT_CONFIGURED: f64 = 1e5;

/// value that the median of 25 runs must not exceed (95% quantile of single runs)
fn median_limit(method: Method) -> f64 {
    match method {
        Method::DoPri8 => 0.18,
        Method::Merson4 => 0.28,
        Method::Fehlberg7 => 0.52,
        Method::Fehlberg4 => 1.7,
        Method::Verner6 => 0.66,
        Method::Zonneveld4 => 0.09,
        Method::MdEuler => 0.37,
        Method::DoPri5 => 0.26,
        _ => 0.75,
    }
}

fn median(mut v: Vec<f64>) -> f64 {
    v.sort_by(|a, b| a.partial_cmp(b).unwrap());
    v[v.len() / 2]
}

/// one random run; gives the error in units of the tolerance
fn single(g: &mut G, method: Method, stiff: f64, mass: u64, key: &str) -> Result<(f64, bool), Stop> {
    let pb = prob(g, 4, (0.3, if mass > 0 { 3.0 } else { 4.0 }), stiff, mass);
    let gr = if mass > 0 { 1.0 } else { growth(&pb) };
    if gr > 30.0 {
        discard!();
    }
    let mut params = Params::new(method);
    let (abs, rel) = tolerance(g, method);
    g.show("tolerances", &(abs, rel));
    must("tolerances", "set_tolerances", params.set_tolerances(abs, rel, None))?;
    let configured = config(g, method, &mut params);
    let with_jac = g.bool();
    if method == Method::Radau5 {
        params.newton.use_numerical_jacobian = g.chance(1, 3);
    }
    g.show("jacobian", &(with_jac, params.newton.use_numerical_jacobian));
    let r = must(&format!("{}:solve", key), "adaptive", run(&pb, params, with_jac, None, &format!("{}:panic", key))?)?;
    finish(&pb, &r)?;
    let w = ratio(&pb, &r, method, abs, rel) / gr;
    if std::env::var("CAL").is_ok() {
        println!("CAL {}{} {:e} {:e}", name(method), key, w, rel);
    }
    let limit = if configured { LIMIT_CONFIGURED } else { LIMIT_DEFAULT };
    ensure!(
        w <= limit,
        format!("{}:accuracy", key),
        "{:?}: error {} times the tolerance ({}, {}) after {} accepted steps",
        method,
        w,
        abs,
        rel,
        r.stats.n_accepted
    );
    let interesting = match (mass, stiff > 0.0) {
        (0, false) => r.stats.n_accepted > 3 && pb.n > 1,
        (0, true) => pb.lip > 100.0,
        _ => true,
    };
    Ok((w, interesting))
}

fn accuracy(g: &mut G) -> R {
    let method = pick_method(g, &EMBEDDED);
    if single(g, method, 0.0, 0, "accuracy")?.1 {
        g.hit();
    }
    Ok(())
}

fn stiff(g: &mut G) -> R {
    if single(g, Method::Radau5, 6.0, 0, "stiff")?.1 {
        g.hit();
    }
    Ok(())
}

fn mass(g: &mut G) -> R {
    let kind = 1 + g.draw(2);
    g.class(if kind == 1 { "nonsingular mass" } else { "algebraic constraints" });
    if single(g, Method::Radau5, 0.0, kind, "mass")?.1 {
        g.hit();
    }
    Ok(())
}

fn batch(g: &mut G) -> R {
    let kind = g.draw(12);
    let (method, stiff, mass, limit) = match kind {
        9 => (Method::Radau5, 6.0, 0, 0.8),
        10 => (Method::Radau5, 0.0, 1, 1.6),
        11 => (Method::Radau5, 0.0, 2, 0.36),
        k => (EMBEDDED[k as usize], 0.0, 0, median_limit(EMBEDDED[k as usize])),
    };
    g.show("method", &method);
    g.class(name(method));
    if mass > 0 {
        g.class("mass matrix");
    }
    if stiff > 0.0 {
        g.class("stiff");
    }
    let mut all = Vec::new();
    while all.len() < 25 {
        match single(g, method, stiff, mass, "batch") {
            Ok((w, _)) => all.push(w),
            Err(Stop::Discard) => (),
            Err(e) => return Err(e),
        }
    }
    g.hit();
    g.show("errors in units of the tolerance", &all);
    let m = median(all);
    ensure!(m <= limit, "batch:median", "{:?}: median error {} times the tolerance (at most {})", method, m, limit);
    Ok(())
}

/// linear problem whose Jacobian callback is wrong by a factor: error or right answer, nothing else
fn misled(g: &mut G) -> R {
    let method = *g.pick(&[Method::Radau5, Method::BwEuler]);
    g.class(name(method));
    let lam = -g.plog(-1.0, 2.0);
    let factor = *g.pick(&[-3.0, -1.0, 0.0, 0.3, 0.5, 0.8, 1.0, 1.5, 2.0, 4.0]);
    let fixed = method == Method::BwEuler || g.bool();
    let nst = g.us(1, 6);
    let h = g.plog(-2.0, 0.5);
    let amp = g.plog(-1.0, 4.0);
    g.show("lambda, factor, fixed, steps, h, amplitude", &(lam, factor, fixed, nst, h, amp));
    let mut system = System::new(1, move |f: &mut Vector, _x: f64, y: &Vector, _: &mut NoArgs| {
        f[0] = lam * y[0];
        Ok(())
    });
    system
        .set_jacobian(Some(1), Sym::No, move |jj: &mut CooMatrix, a: f64, _x: f64, _y: &Vector, _: &mut NoArgs| {
            jj.reset();
            jj.put(0, 0, a * lam * factor)
        })
        .unwrap();
    let mut params = Params::new(method);
    let tol = g.plog(-8.0, -3.0);
    params.set_tolerances(tol, tol, None).unwrap();
    params.radau5.concurrent = false;
    params.newton.n_iteration_max = g.us(4, 12);
    params.step.n_step_max = 3000;
    g.show("tol, iterations", &(tol, params.newton.n_iteration_max));
    if factor != 1.0 {
        g.hit();
    }
    let res = catch(|| {
        let mut solver = OdeSolver::new(params, system)?;
        let mut y = Vector::from(&[amp]);
        let hh = if fixed { Some(h * (1.0 + 1e-9)) } else { None };
        solver.solve(&mut y, 0.0, h * nst as f64, hh, &mut 0, None)?;
        Ok::<(f64, usize), &'static str>((y[0], solver.stats().n_accepted))
    });
    let res = match res {
        Ok(v) => v,
        Err((m, l)) => return fail("misled:panic", format!("panic: {} at {}", m, l)),
    };
    if let Ok((y, n)) = res {
        let z = lam * h;
        let (want, slack) = if !fixed {
            (amp * (lam * h * nst as f64).exp(), 100.0)
        } else if method == Method::BwEuler {
            (amp * f64::powi(1.0 / (1.0 - z), nst as i32), 10.0)
        } else {
            let r = (1.0 + 0.4 * z + z * z / 20.0) / (1.0 - 0.6 * z + 0.15 * z * z - z * z * z / 60.0);
            (amp * f64::powi(r, nst as i32), 10.0)
        };
        // iterations end within their own tolerance of the discrete solution
        let b = f64::max(tol, if method == Method::Radau5 { 0.1 * f64::powf(tol, 2.0 / 3.0) } else { tol });
        let bound = slack * b * (1.0 + amp) * n as f64;
        near("misled:y", &format!("{:?} fixed={}", method, fixed), y, want, bound)?;
        g.class("solved");
    } else {
        g.class("reported");
        // a right Jacobian never fails
        ensure!(factor != 1.0, "misled:right", "{:?}", res);
    }
    Ok(())
}

/// runs that cannot finish
fn unfinished(g: &mut G) -> R {
    let method = pick_method(g, &EMBEDDED);
    let kind = g.draw(4);
    let mut params = Params::new(method);
    let tol = g.plog(-8.0, -3.0);
    params.set_tolerances(tol, tol, None).unwrap();
    params.radau5.concurrent = g.chance(1, 10);
    let with_jac = g.bool();
    g.hit();
    let dense = matches!(method, Method::DoPri5 | Method::DoPri8 | Method::Radau5) && g.bool();
    let file = g.chance(1, 4);
    let mut out = Output::new();
    out.set_step_recording(&[0]);
    if dense {
        out.set_dense_recording(&[0]);
        out.set_dense_h_out(g.uni(0.05, 0.5)).unwrap();
        g.class("with dense output");
    }
    let key = g.scratch.join("unfinished");
    if file {
        out.set_step_file_writing(key.to_str().unwrap());
    }
    let res = match kind {
        0 => {
            // solution 1/(c-x) has a pole inside the interval
            g.class("pole");
            let c = g.uni(0.5, 2.0);
            let beyond = g.uni(0.05, 2.0);
            g.show("pole, end", &(c, c + beyond));
            let mut system = System::new(1, |f: &mut Vector, _x: f64, y: &Vector, _: &mut NoArgs| {
                f[0] = y[0] * y[0];
                Ok(())
            });
            if with_jac {
                system
                    .set_jacobian(Some(1), Sym::No, |jj: &mut CooMatrix, a: f64, _x: f64, y: &Vector, _: &mut NoArgs| {
                        jj.reset();
                        jj.put(0, 0, a * 2.0 * y[0])
                    })
                    .unwrap();
            }
            // an implicit method may step over the pole: forbidding long steps keeps it honest
            if method == Method::Radau5 {
                discard!();
            }
            params.step.n_step_max = 2000;
            catch(|| {
                let mut solver = OdeSolver::new(params, system)?;
                let mut y = Vector::from(&[1.0 / c]);
                solver.solve(&mut y, 0.0, c + beyond, None, &mut 0, Some(&mut out))
            })
        }
        1 => {
            g.class("too few steps");
            let pb = prob(g, 3, (1.0, 4.0), 0.0, 0);
            let r = run(&pb, params, with_jac, None, "unfinished:panic")?;
            let need = match r {
                Ok(r) => r.stats.n_steps,
                Err(_) => discard!(),
            };
            if need < 3 {
                discard!();
            }
            params.step.n_step_max = g.us(1, need - 1);
            g.show("allowed, needed", &(params.step.n_step_max, need));
            let mut o = Output::new();
            o.set_step_recording(&[0]);
            if dense {
                o.set_dense_recording(&[0]);
                o.set_dense_h_out(g.uni(0.05, 0.5)).unwrap();
            }
            if file {
                o.set_step_file_writing(key.to_str().unwrap());
            }
            let r = catch(|| {
                let mut solver = OdeSolver::new(params, pb.system(with_jac))?;
                let mut y = pb.start();
                solver.solve(&mut y, pb.x0, pb.x1, None, &mut Args::default(), Some(&mut o))
            });
            r
        }
        _ => {
            // the right-hand side stops being a number
            g.class(if kind == 2 { "not a number" } else { "infinite" });
            let at = g.uni(0.1, 0.9);
            let bad = if kind == 2 { f64::NAN } else { f64::INFINITY };
            g.show("bad from", &at);
            let equal = g.chance(1, 3);
            let system = System::new(2, move |f: &mut Vector, x: f64, y: &Vector, _: &mut NoArgs| {
                f[0] = -y[0] + x;
                f[1] = if x > at { bad } else { y[0] - y[1] };
                Ok(())
            });
            catch(|| {
                let mut solver = OdeSolver::new(params, system)?;
                let mut y = Vector::from(&[1.0, 2.0]);
                let h = if equal { Some(0.05) } else { None };
                solver.solve(&mut y, 0.0, 1.0, h, &mut 0, Some(&mut out))
            })
        }
    };
    match res {
        Ok(Ok(())) => fail("unfinished:ok", "the run cannot finish, yet success was reported".to_string()),
        Ok(Err(_)) => Ok(()),
        Err((m, l)) => fail("unfinished:panic", format!("panic: {} at {}", m, l)),
    }
}

/// invalid parameters and unsupported combinations
fn refuse(g: &mut G) -> R {
    let method = pick_method(g, &ALL);
    let mut p = Params::new(method);
    let mut updated = false;
    let lin = || -> System<NoArgs> {
        System::new(1, |f: &mut Vector, _x: f64, y: &Vector, _: &mut NoArgs| {
            f[0] = -y[0];
            Ok(())
        })
    };
    let nan = f64::NAN;
    let kind = g.us(0, 24);
    g.show("kind", &kind);
    g.hit();
    match kind {
        0 => p.newton.n_iteration_max = 0,
        1 => p.step.m_min = *g.pick(&[0.0, 0.00099, 0.51, -1.0]),
        2 => p.step.m_max = *g.pick(&[0.0, 0.009, 20.1, -3.0]),
        3 => {
            p.step.m_min = 0.3;
            p.step.m_max = g.uni(0.02, 0.3);
        }
        4 => p.step.m_safety = *g.pick(&[0.0, 0.099, 1.001, -0.5]),
        5 => p.step.m_first_reject = -g.plog(-8.0, 0.0),
        6 => p.step.h_ini = *g.pick(&[0.0, 9.9e-9, -1.0]),
        7 => p.step.n_step_max = 0,
        8 => p.step.rel_error_prev_min = *g.pick(&[0.0, 9.9e-9, -1.0]),
        9 => p.radau5.theta_max = *g.pick(&[0.0, 9.9e-8, -1.0]),
        10 => p.radau5.c1h = *g.pick(&[0.0, 0.49, 1.51, -1.0]),
        11 => p.radau5.c2h = *g.pick(&[0.0, 0.99, 2.01]),
        12 => {
            p.radau5.c1h = 1.3;
            p.radau5.c2h = g.uni(1.0, 1.3);
        }
        13 => p.erk.lund_beta = *g.pick(&[-0.001, 0.101]),
        14 => p.erk.lund_m = *g.pick(&[-0.001, 1.001]),
        15 => {
            let bad = *g.pick(&[0.0, -1.0, 2.2e-15, EPS]);
            must_err("refuse:abs", "absolute tolerance", p.set_tolerances(bad, 1e-4, None))?;
            must_err("refuse:rel", "relative tolerance", p.set_tolerances(1e-4, bad, None))?;
            return Ok(());
        }
        16 => {
            // mass matrix with a method that cannot use it
            let mut system = lin();
            must("refuse:set_mass", "set_mass", system.set_mass(Some(1), Sym::No, |m: &mut CooMatrix| m.put(0, 0, 1.0).unwrap()))?;
            let r = catch(|| OdeSolver::new(p, system).map(|_| ()));
            return match (r, method) {
                (Ok(Ok(())), Method::Radau5) => Ok(()),
                (Ok(Err(_)), m) if m != Method::Radau5 => Ok(()),
                (r, m) => fail("refuse:mass", format!("{:?} with a mass matrix: {:?}", m, r)),
            };
        }
        17 => {
            // symmetry flags must agree
            let mut system = lin();
            let (a, b) = *g.pick(&[(Sym::No, Sym::YesFull), (Sym::YesFull, Sym::No), (Sym::YesLower, Sym::YesUpper), (Sym::No, Sym::No)]);
            let first = g.bool();
            let jac = |jj: &mut CooMatrix, al: f64, _x: f64, _y: &Vector, _: &mut NoArgs| {
                jj.reset();
                jj.put(0, 0, -al)
            };
            let mas = |m: &mut CooMatrix| m.put(0, 0, 1.0).unwrap();
            let r = if first {
                must("refuse:first", "set_jacobian", system.set_jacobian(Some(1), a, jac))?;
                system.set_mass(Some(1), b, mas)
            } else {
                must("refuse:first", "set_mass", system.set_mass(Some(1), a, mas))?;
                system.set_jacobian(Some(1), b, jac)
            };
            ensure!(r.is_ok() == (a == b), "refuse:symmetry", "{:?} and {:?}: {:?}", a, b, r);
            return Ok(());
        }
        18..=21 => {
            let mut solver = must("refuse:new", "solver", OdeSolver::new(p, lin()))?;
            let mut y = Vector::from(&[1.0]);
            let x0 = g.f(-2.0, 2.0);
            let (r, what) = match kind {
                18 => (catch(|| solver.solve(&mut y, x0, x0 - 0.5, None, &mut 0, None)), "x1 < x0"),
                19 => (catch(|| solver.solve(&mut y, x0, x0, None, &mut 0, None)), "x1 = x0"),
                20 => {
                    let mut w = Vector::new(g.us(2, 4));
                    (catch(|| solver.solve(&mut w, x0, x0 + 1.0, None, &mut 0, None)), "wrong length")
                }
                _ => {
                    let h = *g.pick(&[0.0, -0.1, 1e-16]);
                    (catch(|| solver.solve(&mut y, x0, x0 + 1.0, Some(h), &mut 0, None)), "tiny step")
                }
            };
            return match r {
                Ok(Err(_)) => {
                    ensure!(y[0] == 1.0, "refuse:state", "{}: the state changed to {}", what, y[0]);
                    Ok(())
                }
                r => fail("refuse:solve", format!("{}: {:?}", what, r)),
            };
        }
        22 => {
            // dense output is offered by three methods only
            let mut solver = must("refuse:new", "solver", OdeSolver::new(p, lin()))?;
            let mut y = Vector::from(&[1.0]);
            let mut out = Output::new();
            out.set_dense_recording(&[0]);
            out.set_dense_h_out(0.1).unwrap();
            let r = catch(|| solver.solve(&mut y, 0.0, 1.0, if g.bool() { Some(0.2) } else { None }, &mut 0, Some(&mut out)));
            let can = matches!(method, Method::DoPri5 | Method::DoPri8 | Method::Radau5);
            return match r {
                Ok(r) if r.is_ok() == can => Ok(()),
                r => fail("refuse:dense", format!("{:?} with dense output: {:?}", method, r)),
            };
        }
        23 => {
            // another method through update_params
            updated = true;
            let mut other = *g.pick(&ALL);
            if other == method {
                other = if method == Method::Rk2 { Method::Rk4 } else { Method::Rk2 };
            }
            p = Params::new(other);
        }
        _ => {
            // output requests
            let mut out: Output<NoArgs> = Output::new();
            must_err("refuse:h_out", "h_out", out.set_dense_h_out(*g.pick(&[0.0, -1.0, 1e-15])).map(|_| ()))?;
            must_err("refuse:x_out", "unsorted", out.set_dense_x_out(&[0.5, 0.2]).map(|_| ()))?;
            must_err("refuse:x_out", "too close", out.set_dense_x_out(&[0.5, 0.5]).map(|_| ()))?;
            // stations outside the interval
            let mut solver = must("refuse:new", "solver", OdeSolver::new(Params::new(Method::DoPri5), lin()))?;
            let list: &[f64] = *g.pick(&[&[-0.1, 0.5][..], &[0.0, 0.5], &[0.5, 1.0], &[0.5, 1.5]]);
            let mut out = Output::new();
            out.set_dense_recording(&[0]);
            must("refuse:x_out", "sorted", out.set_dense_x_out(list).map(|_| ()))?;
            let mut y = Vector::from(&[1.0]);
            return match catch(|| solver.solve(&mut y, 0.0, 1.0, None, &mut 0, Some(&mut out))) {
                Ok(Err(_)) => Ok(()),
                r => fail("refuse:stations", format!("{:?}: {:?}", list, r)),
            };
        }
    }
    let _ = nan;
    if !updated {
        match catch(|| OdeSolver::new(p, lin()).map(|_| ())) {
            Ok(Err(_)) => (),
            r => return fail("refuse:params", format!("{:?}: {:?}", p, r)),
        }
    }
    let mut solver = must("refuse:new", "solver", OdeSolver::new(Params::new(method), lin()))?;
    must_err("refuse:update", "update_params", solver.update_params(p))?;
    // the refused update leaves the solver as it was
    let mut y = Vector::from(&[1.0]);
    let mut z = Vector::from(&[1.0]);
    let mut fresh = must("refuse:new", "solver", OdeSolver::new(Params::new(method), lin()))?;
    must("refuse:after", "solve", solver.solve(&mut y, 0.0, 1.0, None, &mut 0, None))?;
    must("refuse:after", "solve", fresh.solve(&mut z, 0.0, 1.0, None, &mut 0, None))?;
    ensure!(y[0] == z[0], "refuse:changed", "{} after a refused update, {} otherwise", y[0], z[0]);
    Ok(())
}

/// stiffness detection of the two explicit methods that offer it
fn stiffness(g: &mut G) -> R {
    let method = pick_method(g, &[Method::DoPri5, Method::DoPri8]);
    let is_stiff = g.bool();
    g.class(if is_stiff { "stiff" } else { "not stiff" });
    let lam = if is_stiff { -g.uni(800.0, 2000.0) } else { -g.uni(0.1, 2.0) };
    let tol = if is_stiff { g.plog(-4.0, -3.0) } else { g.plog(-8.0, -4.0) };
    let mode = g.draw(3);
    g.show("lambda, tolerance, mode", &(lam, tol, mode));
    g.hit();
    let system = || {
        System::new(2, move |f: &mut Vector, x: f64, y: &Vector, args: &mut Args| {
            args.nf += 1;
            f[0] = lam * (y[0] - x.cos()) - x.sin();
            f[1] = y[0] - y[1];
            Ok(())
        })
    };
    let mut params = Params::new(method);
    params.set_tolerances(tol, tol, None).unwrap();
    let solve = |params: Params| -> Result<(Result<(), &'static str>, Vec<f64>, Stats, [usize; 4], Vec<f64>), Stop> {
        let mut out = Output::new();
        out.set_step_recording(&[0]);
        let mut y = Vector::from(&[1.0, 0.0]);
        let mut args = Args::default();
        let mut st = Stats::new(method);
        let r = catch(|| {
            let mut solver = OdeSolver::new(params, system())?;
            let r = solver.solve(&mut y, 0.0, 1.0, None, &mut args, Some(&mut out));
            st = solver.stats().clone();
            r
        });
        match r {
            Ok(r) => {
                let n = [out.step_x().len(), out.stiff_h_times_rho().len(), out.stiff_x().len(), out.stiff_step_index().len()];
                let xs = out.stiff_x().to_vec();
                Ok((r, y.as_data().clone(), st, n, xs))
            }
            Err((m, l)) => fail("stiffness:panic", format!("{} at {}", m, l)),
        }
    };
    let (r0, y0, s0, n0, _) = solve(params)?;
    must("stiffness:plain", "without detection", r0)?;
    ensure!(n0[1..] == [0, 0, 0], "stiffness:off", "records {:?} although detection is off", n0);
    params.stiffness.enabled = true;
    params.stiffness.stop_with_error = mode == 0;
    params.stiffness.save_results = mode == 2;
    let (r1, y1, s1, n1, xs) = solve(params)?;
    if mode == 0 && is_stiff {
        ensure!(r1 == Err("stiffness detected"), "stiffness:missed", "{:?} after {} steps", r1, s1.n_accepted);
        return Ok(());
    }
    must("stiffness:solve", "with detection", r1)?;
    ensure!(y0 == y1, "stiffness:changed", "{:?} without and {:?} with detection", y0, y1);
    ensure!(
        (s0.n_accepted, s0.n_rejected, s0.n_steps) == (s1.n_accepted, s1.n_rejected, s1.n_steps),
        "stiffness:steps",
        "steps differ"
    );
    if mode == 2 {
        ensure!(n1[1] == n1[0], "stiffness:rho", "{} values for {} records", n1[1], n1[0]);
        ensure!(n1[2] == n1[3], "stiffness:index", "{} stations for {} indices", n1[2], n1[3]);
        ensure!((n1[2] > 0) == is_stiff, "stiffness:stations", "stiff={} but {} stations", is_stiff, n1[2]);
        ensure!(xs.iter().all(|x| *x >= 0.0 && *x <= 1.0), "stiffness:x", "{:?}", xs);
    } else {
        ensure!(n1[1..] == [0, 0, 0], "stiffness:saved", "records {:?} not asked for", n1);
    }
    Ok(())
}

/// counts of the stiffness detection against a model
/// the parameters of a method are the tolerances 1e-4, and a system knows its sizes
fn defaults(g: &mut G) -> R {
    let method = *g.pick(&ALL);
    let n = g.us(1, 4);
    let nnz = if g.bool() { Some(n + g.us(0, 5)) } else { None };
    let w: Vec<f64> = (0..n).map(|_| g.uni(-2.0, 0.5)).collect();
    let y0: Vec<f64> = (0..n).map(|_| g.uni(-2.0, 2.0)).collect();
    let x1 = g.uni(0.2, 2.0);
    g.show("method, rates, start, end, reserved", &(method, &w, &y0, x1, nnz));
    g.hit();
    let run = |params: Params| -> Result<(Vec<u64>, Vec<usize>), vp_engine::Stop> {
        let (a, b) = (w.clone(), w.clone());
        let mut system = System::new(n, move |f: &mut Vector, x: f64, y: &Vector, _: &mut Args| {
            for i in 0..n {
                f[i] = a[i] * y[i] + x.sin();
            }
            Ok(())
        });
        must(
            "defaults:jacobian",
            "set_jacobian",
            system.set_jacobian(nnz, Sym::No, move |jj: &mut CooMatrix, al: f64, _: f64, _: &Vector, _: &mut Args| {
                jj.reset();
                for i in 0..n {
                    jj.put(i, i, al * b[i])?;
                }
                Ok(())
            }),
        )?;
        ensure!(system.get_ndim() == n, "defaults:ndim", "{}", system.get_ndim());
        ensure!(system.get_jac_nnz() == nnz.unwrap_or(n * n), "defaults:nnz", "{} of {:?}", system.get_jac_nnz(), nnz);
        let mut other = system.clone();
        ensure!(other.get_jac_nnz() == system.get_jac_nnz(), "defaults:nnz", "{} of a clone", other.get_jac_nnz());
        must("defaults:mass", "set_mass", other.set_mass(nnz, Sym::No, |_: &mut CooMatrix| ()))?;
        ensure!(other.get_mass_nnz() == nnz.unwrap_or(n * n), "defaults:nnz", "{} of {:?} in the mass matrix", other.get_mass_nnz(), nnz);
        ensure!(other.get_jac_nnz() == system.get_jac_nnz(), "defaults:nnz", "{} after the mass matrix", other.get_jac_nnz());
        let mut solver = must("defaults:new", "solver", OdeSolver::new(params, system))?;
        let mut y = Vector::from(&y0);
        let h = if method.information().embedded { None } else { Some(0.05) };
        must("defaults:solve", "solve", solver.solve(&mut y, 0.0, x1, h, &mut Args::default(), None))?;
        let s = solver.stats();
        Ok((y.as_data().iter().map(|v| v.to_bits()).collect(), vec![s.n_function, s.n_steps, s.n_accepted, s.n_rejected, s.n_iterations, s.n_factor]))
    };
    let explicit = Method::erk_methods();
    ensure!(explicit.contains(&method) == (!method.information().implicit && method != Method::FwEuler), "defaults:explicit", "{:?} in the list of explicit methods", method);
    let limit = Params::new(method).stiffness.get_h_times_rho_max();
    if method == Method::DoPri5 {
        ensure!(limit == 3.25, "defaults:stiffness", "{}", limit);
    }
    if method == Method::DoPri8 {
        ensure!(limit == 6.1, "defaults:stiffness", "{}", limit);
    }
    let a = run(Params::new(method))?;
    let mut params = Params::new(method);
    must("defaults:set", "set_tolerances", params.set_tolerances(1e-4, 1e-4, None))?;
    let b = run(params)?;
    ensure!(a == b, "defaults:same", "{:?}: {:?} without and {:?} with the tolerances 1e-4", method, a.1, b.1);
    Ok(())
}

fn detect(g: &mut G) -> R {
    let method = pick_method(g, &[Method::DoPri5, Method::DoPri8]);
    let limit = if method == Method::DoPri5 { 3.25 } else { 6.1 };
    // decay rate that comes and goes
    let lo = g.plog(0.0, 1.5);
    let hi = g.plog(1.5, 3.0);
    let freq = g.uni(0.0, 12.0);
    let sharp = g.us(1, 4) as i32;
    let lam = move |x: f64| -> f64 { -(lo + (hi - lo) * (0.5 + 0.5 * (freq * x).cos()).powi(sharp)) };
    let tol = g.plog(-5.0, -2.0);
    let mut params = Params::new(method);
    params.set_tolerances(tol, tol, None).unwrap();
    params.step.n_step_max = 20000;
    params.stiffness.enabled = true;
    params.stiffness.stop_with_error = false;
    params.stiffness.save_results = true;
    params.stiffness.skip_first_n_accepted_step = g.us(0, 20);
    params.stiffness.ratified_after_nstep = g.us(1, 15);
    params.stiffness.ignored_after_nstep = g.us(1, 8);
    let s = params.stiffness;
    g.show("rates, frequency, power, tolerance", &(lo, hi, freq, sharp, tol));
    g.show("skip, ratified, ignored", &(s.skip_first_n_accepted_step, s.ratified_after_nstep, s.ignored_after_nstep));
    let system = || {
        System::new(1, move |f: &mut Vector, x: f64, y: &Vector, _: &mut Args| {
            f[0] = lam(x) * (y[0] - x.cos()) - x.sin();
            Ok(())
        })
    };
    let x1s = [g.uni(0.3, 2.0), g.uni(0.3, 2.0)];
    g.show("ends", &x1s);
    let mut solver = must("detect:new", "solver", OdeSolver::new(params, system()))?;
    for (round, x1) in x1s.iter().enumerate() {
        let mut out = Output::new();
        out.set_step_recording(&[0]);
        let mut y = Vector::from(&[1.0]);
        match catch(|| solver.solve(&mut y, 0.0, *x1, None, &mut Args::default(), Some(&mut out))) {
            Ok(Ok(())) => (),
            r => return fail("detect:solve", format!("{:?}", r)),
        }
        let (xs, hs, rho) = (out.step_x(), out.step_h(), out.stiff_h_times_rho());
        ensure!(rho.len() == xs.len(), "detect:rho", "{} values for {} records", rho.len(), xs.len());
        let (mut yes, mut no, mut start) = (0, 0, f64::MAX);
        let mut want: Vec<(usize, f64)> = Vec::new();
        for i in 1..=solver.stats().n_accepted {
            let due = hs[i] * lam(xs[i]).abs();
            ensure!(
                (rho[i] - due).abs() <= 1e-5 * due || rho[i] == rho[i - 1],
                "detect:value",
                "round {} step {}: {} but h times rate is {}",
                round,
                i,
                rho[i],
                due
            );
            if i <= s.skip_first_n_accepted_step {
                continue;
            }
            if rho[i] > limit {
                g.hit();
                start = f64::min(start, xs[i - 1]);
                no = 0;
                yes += 1;
                if yes == s.ratified_after_nstep {
                    want.push((i, start));
                }
            } else {
                no += 1;
                if no == s.ignored_after_nstep {
                    start = f64::MAX;
                    yes = 0;
                }
            }
        }
        let index: Vec<usize> = want.iter().map(|w| w.0).collect();
        ensure!(
            out.stiff_step_index() == &index[..],
            "detect:index",
            "round {}: detected in steps {:?}, counting gives {:?}",
            round,
            out.stiff_step_index(),
            index
        );
        if want.len() > 0 {
            g.class("detected");
        }
        if want.len() > 1 {
            g.class("detected more than once");
        }
        for (x, w) in out.stiff_x().iter().zip(&want) {
            ensure!((x - w.1).abs() <= 1e-12, "detect:x", "round {}: stiff from {} instead of {}", round, x, w.1);
        }
        ensure!(out.stiff_x().len() == want.len(), "detect:count", "{} stations, {} detected", out.stiff_x().len(), want.len());
        // asked to stop, it does so at the first detection
        let mut strict = params;
        strict.stiffness.stop_with_error = true;
        strict.stiffness.save_results = g.bool();
        let mut z = Vector::from(&[1.0]);
        let mut n = 0;
        let r = catch(|| {
            let mut solver = OdeSolver::new(strict, system())?;
            let r = solver.solve(&mut z, 0.0, *x1, None, &mut Args::default(), None);
            n = solver.stats().n_accepted;
            r
        });
        match (r, want.first()) {
            (Ok(Ok(())), None) => ensure!(z[0] == y[0], "detect:changed", "{} and {}", z[0], y[0]),
            (Ok(Err(_)), Some(w)) => ensure!(n == w.0, "detect:stop", "stopped in step {} instead of {}", n, w.0),
            (r, w) => return fail("detect:stop", format!("{:?}, expected detection {:?}", r, w)),
        }
    }
    Ok(())
}

type Rhs = fn(&mut [f64], f64, &[f64], f64);

fn s_brusselator(f: &mut [f64], _x: f64, y: &[f64], _: f64) {
    let (u, v) = (y[0], y[1]);
    f[0] = u * u * v - 4.0 * u + 1.0;
    f[1] = 3.0 * u - u * u * v;
}

fn s_arenstorf(f: &mut [f64], _x: f64, y: &[f64], _: f64) {
    let m = 0.012277471;
    let r1 = ((y[0] + m).powi(2) + y[1].powi(2)).powf(1.5);
    let r2 = ((y[0] - 1.0 + m).powi(2) + y[1].powi(2)).powf(1.5);
    f[0] = y[2];
    f[1] = y[3];
    f[2] = y[0] + 2.0 * y[3] - (1.0 - m) * (y[0] + m) / r1 - m * (y[0] - 1.0 + m) / r2;
    f[3] = y[1] - 2.0 * y[2] - (1.0 - m) * y[1] / r1 - m * y[1] / r2;
}

fn s_eq1(f: &mut [f64], x: f64, y: &[f64], _: f64) {
    f[0] = 50.0 * (x.cos() - y[0]);
}

fn s_robertson(f: &mut [f64], _x: f64, y: &[f64], _: f64) {
    let (a, b, c) = (0.04 * y[0], 1e4 * y[1] * y[2], 3e7 * y[1] * y[1]);
    f[0] = b - a;
    f[1] = a - b - c;
    f[2] = c;
}

fn s_vdp(f: &mut [f64], _x: f64, y: &[f64], eps: f64) {
    f[0] = y[1];
    f[1] = (y[1] - y[0] * y[0] * y[1] - y[0]) / eps;
}

fn s_amplifier(f: &mut [f64], x: f64, y: &[f64], _: f64) {
    let g = 1e-6 * (((y[1] - y[2]) / 0.026).exp() - 1.0);
    f[0] = (y[0] - 0.4 * (200.0 * std::f64::consts::PI * x).sin()) / 1000.0;
    f[1] = (2.0 * y[1] - 6.0) / 9000.0 + 0.01 * g;
    f[2] = y[2] / 9000.0 - g;
    f[3] = (y[3] - 6.0) / 9000.0 + 0.99 * g;
    f[4] = y[4] / 9000.0;
}

/// the sample problems against equations typed independently
fn samples(g: &mut G) -> R {
    let kind = g.draw(8);
    g.hit();
    if kind == 7 {
        return brusselator_pde(g);
    }
    let sym = g.bool();
    let eps = g.uni(0.05, 1.0);
    let mut len = g.uni(0.1, 1.0);
    let cases: [(&'static str, Rhs, Vec<f64>); 6] = [
        ("brusselator", s_brusselator, vec![g.uni(0.3, 2.5), g.uni(0.3, 3.0)]),
        (
            "arenstorf",
            s_arenstorf,
            vec![g.uni(1.3, 2.0), g.uni(-1.0, 1.0), g.uni(-1.0, 1.0), g.uni(-1.0, 1.0)],
        ),
        ("eq1", s_eq1, vec![g.uni(-1.0, 2.0)]),
        ("robertson", s_robertson, vec![g.uni(0.5, 1.0), 3e-5 * g.uni(0.5, 1.0), g.uni(0.0, 0.5)]),
        ("van der pol", s_vdp, vec![g.uni(-2.0, 2.0), g.uni(-1.0, 1.0)]),
        ("amplifier", s_amplifier, vec![0.0, 3.0, 3.0, 6.0, 0.0]),
    ];
    if kind == 6 {
        // closed-form solutions that come with the samples
        let which = g.draw(5);
        let tol = 1e-8;
        g.show("which, symmetric, length", &(which, sym, len));
        let mut y = Vector::new(0);
        let mut want;
        match which {
            0 => {
                let (system, x0, y0, mut args, exact) = Samples::simple_equation_constant();
                let mut solver = must("samples:new", "constant", OdeSolver::new(Params::new(*g.pick(&ALL)), system))?;
                y = y0;
                must("samples:solve", "constant", solver.solve(&mut y, x0, x0 + len, None, &mut args, None))?;
                want = Vector::new(1);
                exact(&mut want, x0 + len, &mut args);
                near("samples:constant", "y = x", want[0], len, 1e-15)?;
            }
            1 => {
                let (system, x0, y0, mut args, exact) = Samples::simple_system_with_mass_matrix(sym, russell_sparse::Genie::Umfpack);
                let mut params = Params::new(Method::Radau5);
                params.set_tolerances(tol, tol, None).unwrap();
                params.radau5.concurrent = false;
                let mut solver = must("samples:new", "mass", OdeSolver::new(params, system))?;
                y = y0;
                must("samples:solve", "mass", solver.solve(&mut y, x0, x0 + len, None, &mut args, None))?;
                want = Vector::from(&[len.cos(), -len.sin(), len.ln_1p()]);
                let mut e = Vector::new(3);
                exact(&mut e, x0 + len, &mut args);
                for i in 0..3 {
                    near("samples:mass", "closed form", e[i], want[i], 1e-14)?;
                }
            }
            2 => {
                let (system, x0, y0, mut args, exact) = Samples::kreyszig_eq6_page902();
                let mut params = Params::new(*g.pick(&[Method::DoPri8, Method::Radau5]));
                params.set_tolerances(tol, tol, None).unwrap();
                let mut solver = must("samples:new", "kreyszig 1", OdeSolver::new(params, system))?;
                y = y0;
                must("samples:solve", "kreyszig 1", solver.solve(&mut y, x0, x0 + len, None, &mut args, None))?;
                want = Vector::new(1);
                exact(&mut want, x0 + len, &mut args);
                near("samples:kreyszig", "closed form", want[0], len.exp_m1() - len, 1e-14 * len.exp())?;
            }
            3 => {
                let (system, x0, y0, mut args, exact) = Samples::kreyszig_ex4_page920();
                let mut params = Params::new(*g.pick(&[Method::DoPri8, Method::Radau5]));
                params.set_tolerances(tol, tol, None).unwrap();
                let mut solver = must("samples:new", "kreyszig 2", OdeSolver::new(params, system))?;
                y = y0;
                must("samples:solve", "kreyszig 2", solver.solve(&mut y, x0, x0 + len, None, &mut args, None))?;
                want = Vector::new(2);
                exact(&mut want, x0 + len, &mut args);
                near("samples:kreyszig", "closed form", want[0], (-len).exp() + (-10.0 * len).exp() + len, 1e-14 * (2.0 + len))?;
                near("samples:kreyszig", "closed form", want[1], 1.0 - (-len).exp() - 10.0 * (-10.0 * len).exp(), 1e-14 * 12.0)?;
            }
            _ => {
                let (system, x0, y0, mut args, exact) = Samples::hairer_wanner_eq1();
                let mut params = Params::new(Method::DoPri5);
                params.set_tolerances(tol, tol, None).unwrap();
                let mut solver = must("samples:new", "eq1", OdeSolver::new(params, system))?;
                y = y0;
                must("samples:solve", "eq1", solver.solve(&mut y, x0, x0 + len, None, &mut args, None))?;
                want = Vector::new(1);
                exact(&mut want, x0 + len, &mut args);
            }
        }
        for i in 0..y.dim() {
            near("samples:exact", "closed form", y[i], want[i], 1e-5)?;
        }
        return Ok(());
    }
    let (title, rhs, y0) = cases[kind as usize].clone();
    g.class(title);
    let implicit = kind == 5 || kind == 3 || g.bool();
    let method = if implicit {
        if kind == 5 || g.bool() { Method::Radau5 } else { Method::BwEuler }
    } else {
        *g.pick(&[Method::DoPri5, Method::DoPri8, Method::Verner6])
    };
    g.show("sample, initial state, epsilon, method", &(title, &y0, eps, method));
    let mut nominal = Vector::from(&y0);
    let mut x0 = 0.0;
    let system = match kind {
        0 => {
            let s = Samples::brusselator_ode();
            ensure!(s.2.as_data() == &[1.5, 3.0], "samples:start", "{:?}", s.2);
            s.0
        }
        1 => Samples::arenstorf().0,
        2 => Samples::hairer_wanner_eq1().0,
        3 => Samples::robertson().0,
        4 => Samples::van_der_pol(eps, false).0,
        _ => {
            let s = Samples::amplifier1t();
            nominal = s.2;
            x0 = s.1;
            s.0
        }
    };
    let mut params = Params::new(method);
    let tol = g.plog(-7.0, -4.0);
    params.set_tolerances(tol, tol, None).unwrap();
    if kind == 3 {
        // the second species lives at 1e-5 and must not become negative
        params.set_tolerances(1e-6 * tol, tol, None).unwrap();
    }
    params.radau5.concurrent = false;
    params.newton.n_iteration_max = 20;
    if kind == 5 {
        ensure!(nominal.as_data() == &y0, "samples:start", "{:?}", nominal);
        len *= 0.05;
        params.step.h_ini = 1e-6;
    }
    let equal = method == Method::BwEuler;
    if equal {
        len *= 0.2;
    }
    let h = if equal { Some(len / g.us(5, 30) as f64) } else { None };
    g.show("length, step, tolerance", &(len, h, tol));
    // the same equations typed here
    let mut mine = System::new(y0.len(), move |f: &mut Vector, x: f64, y: &Vector, _: &mut NoArgs| {
        rhs(f.as_mut_data(), x, y.as_data(), eps);
        Ok(())
    });
    if kind == 5 {
        must(
            "samples:mass",
            "set_mass",
            mine.set_mass(Some(9), Sym::No, |m: &mut CooMatrix| {
                let (c1, c2, c3) = (1e-6, 2e-6, 3e-6);
                for (i, j, v) in [
                    (0, 0, -c1),
                    (0, 1, c1),
                    (1, 0, c1),
                    (1, 1, -c1),
                    (2, 2, -c2),
                    (3, 3, -c3),
                    (3, 4, c3),
                    (4, 3, c3),
                    (4, 4, -c3),
                ] {
                    m.put(i, j, v).unwrap();
                }
            }),
        )?;
    }
    let both = catch(|| {
        let mut a = OdeSolver::new(params, system.clone())?;
        let mut b = OdeSolver::new(params, mine.clone())?;
        let (mut ya, mut yb) = (Vector::from(&y0), Vector::from(&y0));
        a.solve(&mut ya, x0, x0 + len, h, &mut 0, None)?;
        b.solve(&mut yb, x0, x0 + len, h, &mut 0, None)?;
        Ok::<_, &'static str>((ya, yb, a.stats().clone(), b.stats().clone()))
    });
    let (ya, yb, sa, sb) = match both {
        Ok(Ok(v)) => v,
        Ok(Err(e)) => return fail("samples:solve", format!("{}: {}", title, e)),
        Err((m, l)) => return fail("samples:panic", format!("{} at {}", m, l)),
    };
    let top = y0.iter().fold(1.0, |m: f64, v| m.max(v.abs()));
    for i in 0..y0.len() {
        // the two runs differ in rounding (and in the Jacobian when implicit)
        let tol = if implicit { 1e3 * tol } else { 1e-9_f64.max(tol) } * top;
        near("samples:y", &format!("{} component {}", title, i), ya[i], yb[i], tol)?;
    }
    // the number of iterations shows a wrong Jacobian; by chance it differs in single runs only
    let excess = |a: &Stats, b: &Stats| {
        let (na, nb) = (a.n_lin_sol as f64, b.n_lin_sol as f64);
        (na - nb).abs() > 4.0 + 0.4 * na.max(nb)
    };
    if excess(&sa, &sb) {
        g.class("iterations counted again");
        let mut again = 0;
        for f in [0.95, 0.9, 0.85, 0.8] {
            let r = catch(|| {
                let mut a = OdeSolver::new(params, system.clone())?;
                let mut b = OdeSolver::new(params, mine.clone())?;
                let (mut ya, mut yb) = (Vector::from(&y0), Vector::from(&y0));
                a.solve(&mut ya, x0, x0 + f * len, h, &mut 0, None)?;
                b.solve(&mut yb, x0, x0 + f * len, h, &mut 0, None)?;
                Ok::<_, &'static str>((a.stats().clone(), b.stats().clone()))
            });
            match r {
                Ok(Ok((a, b))) if !excess(&a, &b) => (),
                _ => again += 1,
            }
        }
        ensure!(
            again < 3,
            "samples:iterations",
            "{}: {} linear solutions with the Jacobian of the sample, {} with a numerical one",
            title,
            sa.n_lin_sol,
            sb.n_lin_sol
        );
    }
    Ok(())
}

/// reaction-diffusion sample against a five-point stencil typed here
fn brusselator_pde(g: &mut G) -> R {
    g.class("brusselator pde");
    let np = g.us(2, 5);
    let second = g.bool() && np > 2;
    let nodiff = g.chance(1, 4);
    let alpha = g.uni(0.01, 0.3);
    let s = np * np;
    let t1 = if second && g.bool() { 1.2 } else { g.uni(0.05, 0.5) };
    g.show("points, second book, no diffusion, alpha, end", &(np, second, nodiff, alpha, t1));
    let (system, t0, yy0, mut fdm) = Samples::brusselator_pde(alpha, np, second, nodiff);
    let hh = 1.0 / (np - 1) as f64;
    let mut y0 = Vector::new(2 * s);
    for j in 0..np {
        for i in 0..np {
            let (x, y) = (i as f64 * hh, j as f64 * hh);
            y0[i + j * np] = if second { 22.0 * y * (1.0 - y).powf(1.5) } else { 0.5 + y };
            y0[s + i + j * np] = if second { 27.0 * x * (1.0 - x).powf(1.5) } else { 1.0 + 5.0 * x };
        }
    }
    for k in 0..2 * s {
        near("pde:start", "initial state", yy0[k], y0[k], 1e-13)?;
    }
    let mine = System::new(2 * s, move |f: &mut Vector, t: f64, w: &Vector, _: &mut NoArgs| {
        let nb = |i: usize, d: i64| -> usize {
            let k = i as i64 + d;
            let m = np as i64;
            (if second {
                (k + m) % m
            } else if k < 0 {
                1
            } else if k >= m {
                m - 2
            } else {
                k
            }) as usize
        };
        for j in 0..np {
            for i in 0..np {
                let c = i + j * np;
                let lap = |o: usize| -> f64 {
                    let sum = w[o + nb(i, -1) + j * np] + w[o + nb(i, 1) + j * np] + w[o + i + nb(j, -1) * np] + w[o + i + nb(j, 1) * np];
                    (sum - 4.0 * w[o + c]) / (hh * hh)
                };
                let (u, v) = (w[c], w[s + c]);
                let d = if nodiff { 0.0 } else { alpha };
                f[c] = 1.0 + u * u * v - 4.4 * u + d * lap(0);
                f[s + c] = 3.4 * u - u * u * v + d * lap(s);
                let (x, y) = (i as f64 * hh, j as f64 * hh);
                if second && t >= 1.1 && (x - 0.3).powi(2) + (y - 0.6).powi(2) <= 0.01 {
                    f[c] += 5.0;
                }
            }
        }
        Ok(())
    });
    let method = *g.pick(&[Method::DoPri5, Method::Radau5]);
    g.class(name(method));
    let mut params = Params::new(method);
    let tol = 1e-6;
    params.set_tolerances(tol, tol, None).unwrap();
    params.radau5.concurrent = false;
    let mut a = must("pde:new", "solver", OdeSolver::new(params, system))?;
    let mut b = must("pde:new", "solver", OdeSolver::new(params, mine))?;
    let (mut ya, mut yb) = (yy0.clone(), yy0.clone());
    must("pde:solve", "sample", a.solve(&mut ya, t0, t1, None, &mut fdm, None))?;
    must("pde:solve", "typed here", b.solve(&mut yb, t0, t1, None, &mut 0, None))?;
    for k in 0..2 * s {
        near("pde:y", &format!("component {}", k), ya[k], yb[k], 1e-3)?;
    }
    let (na, nb) = (a.stats().n_lin_sol as f64, b.stats().n_lin_sol as f64);
    ensure!((na - nb).abs() <= 4.0 + 0.4 * na.max(nb), "pde:iterations", "{} and {} linear solutions", na, nb);
    Ok(())
}
