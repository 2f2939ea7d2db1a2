//! Reuse, determinism and counters of the solver objects.
use crate::c24::config;
use crate::util::*;
use russell_lab::Vector;
use russell_ode::*;
use russell_sparse::{Ordering, Scaling};
use vp_engine::*;

pub fn property() -> Property {
    Property {
        id: "C26",
        assumptions: &[
            "a numerical Jacobian costs one call more than it reports (the base point), per Jacobian",
            "the dense output of DoPri8 evaluates the final state once without reporting it",
        ],
        laws: vec![
            Law {
                name: "again",
                quick: 60000,
                rule: "at least two simulations with one solver object",
                f: again,
            },
            Law {
                name: "counters",
                quick: 100000,
                rule: "more than one accepted step",
                f: counters,
            },
            Law {
                name: "threads",
                quick: 2000,
                rule: "concurrent linear algebra or several solvers at once",
                f: threads,
            },
        ],
    }
}

const DENSE: [Method; 3] = [Method::DoPri5, Method::DoPri8, Method::Radau5];

/// one simulation to be asked of a solver object
#[derive(Clone, Debug)]
struct Task {
    x0: f64,
    x1: f64,
    shift: Vec<f64>,
    h: Option<f64>,
    dense: bool,
    stop: usize,
    fail_f: usize,
    fail_j: usize,
}

fn counts(s: &Stats) -> [usize; 9] {
    [
        s.n_function,
        s.n_jacobian,
        s.n_factor,
        s.n_lin_sol,
        s.n_steps,
        s.n_accepted,
        s.n_rejected,
        s.n_iterations,
        s.n_iterations_max,
    ]
}

#[derive(Clone, Debug, PartialEq)]
struct Outcome {
    result: Result<(), &'static str>,
    y: Vec<f64>,
    xs: Vec<f64>,
    ys: Vec<f64>,
    dense: Vec<f64>,
    counts: [usize; 9],
    h: f64,
    calls: (usize, usize),
}

fn perform(solver: &mut OdeSolver<Args>, p: &Prob, t: &Task) -> Result<Outcome, Stop> {
    let mut out = Output::new();
    let all: Vec<usize> = (0..p.n).collect();
    out.set_step_recording(&all);
    if t.dense {
        out.set_dense_recording(&all);
        out.set_dense_h_out((t.x1 - t.x0) / 7.0).unwrap();
    }
    out.set_step_callback(|_: &Stats, h: f64, x: f64, y: &Vector, args: &mut Args| {
        args.step.push((h, x, y.as_data().to_vec()));
        Ok(args.step.len() == args.stop_step)
    });
    let mut args = Args::default();
    args.stop_step = t.stop;
    args.fail_f = t.fail_f;
    args.fail_j = t.fail_j;
    let mut y = Vector::from(&(0..p.n).map(|i| p.yex(i, t.x0) + t.shift[i]).collect::<Vec<_>>());
    match catch(|| solver.solve(&mut y, t.x0, t.x1, t.h, &mut args, Some(&mut out))) {
        Ok(r) => Ok(Outcome {
            result: r,
            y: if r.is_ok() { y.as_data().to_vec() } else { Vec::new() },
            xs: out.step_x().clone(),
            ys: (0..p.n).flat_map(|m| out.step_y(m).clone()).collect(),
            dense: if r.is_ok() && t.stop == 0 { (0..p.n).flat_map(|m| out.dense_y(m).clone()).collect() } else { Vec::new() },
            counts: counts(solver.stats()),
            h: solver.stats().h_accepted,
            calls: (args.nf, args.nj),
        }),
        Err((m, l)) => fail("panic", format!("{} at {}", m, l)),
    }
}

fn differs(a: &Outcome, b: &Outcome) -> Option<&'static str> {
    if a.result != b.result {
        Some("result")
    } else if a.y != b.y {
        Some("final state")
    } else if a.xs != b.xs {
        Some("stations")
    } else if a.ys != b.ys {
        Some("recorded states")
    } else if a.dense != b.dense {
        Some("dense values")
    } else if a.counts != b.counts {
        Some("counters")
    } else if a.h != b.h {
        Some("suggested step")
    } else if a.calls != b.calls {
        Some("calls")
    } else {
        None
    }
}

fn task(g: &mut G, p: &Prob, method: Method) -> Task {
    let len = p.x1 - p.x0;
    let x0 = if g.bool() { p.x0 } else { p.x0 + len * g.uni(-0.3, 0.5) };
    let x1 = if g.bool() { x0 + len } else { x0 + len * g.uni(0.1, 1.0) };
    let amp = *g.pick(&[0.0, 0.0, 0.1, 1.0]);
    let shift = (0..p.n).map(|_| amp * g.uni(-1.0, 1.0)).collect();
    let fixed = method == Method::BwEuler || g.chance(1, 3);
    let h = if fixed { Some((x1 - x0) / g.us(6, 25) as f64 * (1.0 + 1e-9)) } else { None };
    Task {
        x0,
        x1,
        shift,
        h,
        dense: DENSE.contains(&method) && g.chance(1, 3),
        stop: if g.chance(1, 6) { g.us(1, 6) } else { 0 },
        fail_f: if g.chance(1, 6) { g.us(1, 60) } else { 0 },
        fail_j: if g.chance(1, 12) { g.us(1, 4) } else { 0 },
    }
}

fn tune(g: &mut G, method: Method, params: &mut Params) {
    let tol = g.plog(-6.0, -3.0);
    params.set_tolerances(tol, tol, None).unwrap();
    config(g, method, params);
    params.radau5.concurrent = false;
    params.newton.lin_sol_params = None;
    params.newton.n_iteration_max = 20;
    if method == Method::BwEuler {
        params.bweuler.use_modified_newton = g.bool();
    }
}

fn again(g: &mut G) -> R {
    let method = if g.chance(1, 2) { pick_method(g, &[Method::Radau5, Method::BwEuler, Method::DoPri5, Method::DoPri8]) } else { pick_method(g, &ALL) };
    let stiff = if method == Method::Radau5 && g.bool() { 3.0 } else { 0.0 };
    let mass = if method == Method::Radau5 { *g.pick(&[0, 0, 1, 2]) } else { 0 };
    let p = prob(g, 3, (0.3, 2.0), stiff, mass);
    let mut params = Params::new(method);
    tune(g, method, &mut params);
    let with_jac = g.bool();
    params.newton.use_numerical_jacobian = with_jac && g.chance(1, 4);
    let mut solver = must("again:new", "solver", OdeSolver::new(params, p.system(with_jac)))?;
    let rounds = g.us(2, 5);
    let mut last: Option<(Task, Outcome)> = None;
    for round in 0..rounds {
        if round > 0 {
            if g.chance(1, 3) {
                params = Params::new(method);
                tune(g, method, &mut params);
                params.newton.use_numerical_jacobian = with_jac && g.chance(1, 4);
                if g.bool() {
                    let mut ls = russell_sparse::LinSolParams::new();
                    ls.ordering = *g.pick(&[Ordering::Amd, Ordering::Auto, Ordering::Metis, Ordering::No]);
                    ls.scaling = *g.pick(&[Scaling::Auto, Scaling::Max, Scaling::No, Scaling::Sum]);
                    params.newton.lin_sol_params = Some(ls);
                }
                must("again:update", "update_params", solver.update_params(params))?;
                g.class("updated");
                last = None;
            }
            if g.chance(1, 6) {
                // a refused request in between
                let mut y = Vector::new(p.n);
                let r = solver.solve(&mut y, 1.0, 0.0, None, &mut Args::default(), None);
                must_err("again:refused", "backward interval", r)?;
                g.class("refused request");
            }
        }
        // the very same simulation once more, or another one
        let (t, before) = match &last {
            Some((t, o)) if g.chance(1, 3) => (t.clone(), Some(o.clone())),
            _ => (task(g, &p, method), None),
        };
        g.show("simulation", &t);
        let got = perform(&mut solver, &p, &t)?;
        let mut fresh = must("again:new", "solver", OdeSolver::new(params, p.system(with_jac).clone()))?;
        let want = perform(&mut fresh, &p, &t)?;
        if got.result.is_err() {
            g.class("failed run in between");
        }
        if round > 0 {
            g.hit();
            if let Some(what) = differs(&got, &want) {
                return fail("again:fresh", format!("simulation {}: {} differs from a fresh solver: {:?} and {:?}", round, what, got, want));
            }
        }
        if let Some(o) = before {
            if let Some(what) = differs(&got, &o) {
                return fail("again:same", format!("simulation {}: {} differs from the same simulation before: {:?} and {:?}", round, what, got, o));
            }
            g.class("repeated");
        }
        last = Some((t, got));
    }
    Ok(())
}

fn n_stage(m: Method) -> usize {
    match m {
        Method::FwEuler => 1,
        Method::Rk2 | Method::MdEuler => 2,
        Method::Heun3 => 3,
        Method::Rk3 | Method::Rk4 | Method::Rk4alt => 4,
        Method::Merson4 | Method::Zonneveld4 => 5,
        Method::Fehlberg4 => 6,
        Method::DoPri5 => 7,
        Method::Verner6 => 8,
        Method::Fehlberg7 => 13,
        Method::DoPri8 => 12,
        _ => 0,
    }
}

/// counters against the calls that were really made
fn counters(g: &mut G) -> R {
    let method = pick_method(g, &ALL);
    let stiff = if method == Method::Radau5 && g.bool() { 4.0 } else { 0.0 };
    let mass = if method == Method::Radau5 { *g.pick(&[0, 0, 1, 2]) } else { 0 };
    let p = prob(g, 4, (0.3, 2.0), stiff, mass);
    let mut params = Params::new(method);
    tune(g, method, &mut params);
    let with_jac = g.chance(2, 3);
    params.newton.use_numerical_jacobian = with_jac && g.chance(1, 4);
    let numerical = !with_jac || params.newton.use_numerical_jacobian;
    let mut t = task(g, &p, method);
    t.fail_f = 0;
    t.fail_j = 0;
    g.show("simulation", &t);
    g.show("given, numerical", &(with_jac, params.newton.use_numerical_jacobian));
    let mut solver = must("counters:new", "solver", OdeSolver::new(params, p.system(with_jac)))?;
    // calls made when each output is shown
    let mut out = Output::new();
    out.set_step_callback(|stats: &Stats, _h: f64, x: f64, _y: &Vector, args: &mut Args| {
        let nf = args.nf as f64;
        args.step.push((nf, x, vec![stats.n_steps as f64, stats.n_accepted as f64]));
        Ok(args.step.len() == args.stop_step)
    });
    if t.dense {
        out.set_dense_recording(&[0]);
        out.set_dense_h_out((t.x1 - t.x0) / 5.0).unwrap();
        g.class("dense");
    }
    let mut args = Args::default();
    args.stop_step = t.stop;
    let mut y = Vector::from(&(0..p.n).map(|i| p.yex(i, t.x0) + t.shift[i]).collect::<Vec<_>>());
    if mass == 2 {
        // keep the constraints satisfied
        y = Vector::from(&p.exact(t.x0));
    }
    match catch(|| solver.solve(&mut y, t.x0, t.x1, t.h, &mut args, Some(&mut out))) {
        Ok(Ok(())) => (),
        // the iterations of an implicit method may diverge with equal steps
        Ok(Err(_)) if t.h.is_some() && method.information().implicit => discard!(),
        Ok(Err(e)) => return fail("counters:solve", e.to_string()),
        Err((m, l)) => return fail("counters:panic", format!("{} at {}", m, l)),
    }
    let s = *solver.stats();
    let shown = args.step.len();
    ensure!(s.n_accepted + 1 == shown, "counters:accepted", "{} accepted, {} outputs", s.n_accepted, shown);
    for (k, e) in args.step.iter().enumerate() {
        ensure!(e.2[1] == k as f64, "counters:running", "output {} reports {} accepted steps", k, e.2[1]);
    }
    if s.n_accepted > 1 {
        g.hit();
    }
    let implicit = method.information().implicit;
    let mut want = s.n_function;
    if implicit && numerical {
        want += s.n_jacobian; // the base point
    }
    if method == Method::DoPri8 && t.dense && s.n_accepted > 0 {
        want += 1;
    }
    ensure!(args.nf == want, "counters:function", "{} calls made, {} reported ({} expected)", args.nf, s.n_function, want);
    if implicit && !numerical {
        ensure!(args.nj == s.n_jacobian, "counters:jacobian", "{} calls made, {} reported", args.nj, s.n_jacobian);
    } else {
        ensure!(args.nj == 0, "counters:jacobian", "{} calls not needed", args.nj);
    }
    if !implicit {
        ensure!(
            (s.n_jacobian, s.n_factor, s.n_lin_sol) == (0, 0, 0),
            "counters:explicit",
            "explicit method reports {} {} {}",
            s.n_jacobian,
            s.n_factor,
            s.n_lin_sol
        );
    }
    if t.h.is_some() || !method.information().embedded {
        ensure!(s.n_steps == s.n_accepted && s.n_rejected == 0, "counters:equal", "steps {} {} {}", s.n_steps, s.n_accepted, s.n_rejected);
    }
    ensure!(s.n_steps >= s.n_accepted + s.n_rejected, "counters:sum", "{} steps, {} accepted, {} rejected", s.n_steps, s.n_accepted, s.n_rejected);
    // explicit methods: the number of attempts follows from the calls
    let ns = n_stage(method);
    if ns > 1 && !t.dense && s.n_accepted > 0 {
        let fsal = method == Method::DoPri5;
        let base = if fsal { 1 } else { s.n_accepted };
        ensure!(
            args.nf == base + (ns - 1) * s.n_steps,
            "counters:attempts",
            "{} calls cannot be {} steps with {} accepted",
            args.nf,
            s.n_steps,
            s.n_accepted
        );
        let first = (args.step[1].0 as usize - 1) / (ns - 1);
        ensure!(
            s.n_rejected + s.n_accepted + (first - 1) == s.n_steps,
            "counters:rejected",
            "{} steps, {} accepted, {} rejected, {} attempts before the first",
            s.n_steps,
            s.n_accepted,
            s.n_rejected,
            first - 1
        );
        if s.n_rejected > 0 {
            g.class("with rejections");
        }
        if first > 1 {
            g.class("first step repeated");
        }
    }
    if implicit && s.n_accepted > 0 {
        ensure!(s.n_jacobian <= s.n_factor, "counters:factor", "{} Jacobians, {} factorizations", s.n_jacobian, s.n_factor);
        ensure!(s.n_iterations <= s.n_iterations_max, "counters:iterations", "{} iterations, maximum {}", s.n_iterations, s.n_iterations_max);
        ensure!(s.n_iterations_max <= params.newton.n_iteration_max, "counters:limit", "{} iterations", s.n_iterations_max);
        if method == Method::Radau5 {
            // three evaluations per iteration, one at the start and one after each accepted step
            let lin = s.n_lin_sol;
            let nd = if numerical { p.n * s.n_jacobian } else { 0 };
            let low = 3 * lin + s.n_accepted + nd;
            ensure!(
                s.n_function >= low && s.n_function <= low + 2 * s.n_steps,
                "counters:radau",
                "{} evaluations for {} iterations, {} accepted, {} steps",
                s.n_function,
                lin,
                s.n_accepted,
                s.n_steps
            );
        }
    }
    ensure!(s.h_accepted > 0.0 && s.h_accepted.is_finite(), "counters:h", "suggested step {}", s.h_accepted);
    Ok(())
}

/// threads inside a step, and several solvers at once
fn threads(g: &mut G) -> R {
    let stiff = if g.bool() { 4.0 } else { 0.0 };
    let mass = *g.pick(&[0, 0, 1, 2]);
    let p = prob(g, 4, (0.2, 1.0), stiff, mass);
    let mut params = Params::new(Method::Radau5);
    tune(g, Method::Radau5, &mut params);
    let with_jac = g.bool();
    let mut t = task(g, &p, Method::Radau5);
    t.fail_f = 0;
    t.fail_j = 0;
    g.show("simulation", &t);
    g.hit();
    let mut serial = must("threads:new", "solver", OdeSolver::new(params, p.system(with_jac)))?;
    let want = perform(&mut serial, &p, &t)?;
    params.radau5.concurrent = true;
    let mut conc = must("threads:new", "solver", OdeSolver::new(params, p.system(with_jac)))?;
    let got = perform(&mut conc, &p, &t)?;
    if let Some(what) = differs(&got, &want) {
        return fail("threads:concurrent", format!("{} differs: {:?} and {:?}", what, got, want));
    }
    // switched on and off through the parameters
    params.radau5.concurrent = false;
    must("threads:update", "update_params", conc.update_params(params))?;
    let got = perform(&mut conc, &p, &t)?;
    if let Some(what) = differs(&got, &want) {
        return fail("threads:updated", format!("{} differs: {:?} and {:?}", what, got, want));
    }
    let method = *g.pick(&ALL);
    let mut params = Params::new(method);
    tune(g, method, &mut params);
    if method != Method::Radau5 && mass != 0 {
        return Ok(());
    }
    if stiff > 0.0 && method != Method::Radau5 {
        return Ok(());
    }
    g.class("several at once");
    let mut t = task(g, &p, method);
    t.stop = 0;
    let mut one = must("threads:new", "solver", OdeSolver::new(params, p.system(with_jac)))?;
    let want = perform(&mut one, &p, &t)?;
    let all: Vec<Result<Outcome, Stop>> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..3)
            .map(|_| {
                sc.spawn(|| {
                    let mut solver = must("threads:new", "solver", OdeSolver::new(params, p.system(with_jac)))?;
                    perform(&mut solver, &p, &t)
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    for got in all {
        let got = got?;
        if let Some(what) = differs(&got, &want) {
            return fail("threads:parallel", format!("{} differs: {:?} and {:?}", what, got, want));
        }
    }
    Ok(())
}
