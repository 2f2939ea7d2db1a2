//! Iterations: convergence and failure exactly at the configured limits
use russell_lab::Vector;
use russell_nonlin::{Config, DeltaLambda, IniDir, Method, Solver, Status, Stop as Rule, System};
use russell_ode::{Method as OdeMethod, OdeSolver, Params, System as OdeSystem};
use russell_sparse::{CooMatrix, Sym};
use vp_engine::*;

/// A user function that returns prescribed values
#[derive(Default)]
struct Script {
    values: Vec<Vec<f64>>,      // residual of every call
    slopes: Vec<Vec<f64>>,      // diagonal of the Jacobian that follows the call
    seen: Vec<(f64, Vec<f64>)>, // arguments of every call
    jacs: usize,
    over: bool,
}

/// residuals moving up and down by powers of ten
fn values(g: &mut G, n: usize, len: usize) -> (Vec<Vec<f64>>, Vec<Vec<f64>>) {
    let trend = *g.pick(&[-1.5, -0.7, 0.0, 0.3, 0.8]);
    let bad = if g.chance(1, 8) { Some(g.us(0, len.min(12))) } else { None };
    let tilt = g.bool();
    let mut e = g.f(-3.0, 2.0);
    let mut d0 = g.f(-0.5, 0.5);
    let (mut v, mut s) = (Vec::new(), Vec::new());
    for k in 0..len {
        // every now and then a fresh start
        if e < -12.0 || g.chance(1, 9) {
            e = g.f(-3.0, 2.0);
        }
        let m = 10f64.powf(e);
        let lead = g.us(0, n - 1);
        let mut r: Vec<f64> = (0..n).map(|i| if i == lead { m } else { m * g.unit() } * if g.bool() { 1.0 } else { -1.0 }).collect();
        if bad == Some(k) {
            r[lead] = *g.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY]);
        }
        v.push(r);
        s.push((0..n).map(|_| 10f64.powf(d0) * g.f(0.5, 2.0) * if g.bool() { 1.0 } else { -1.0 }).collect());
        if tilt {
            d0 = (d0 + g.f(-0.7, 0.7)).clamp(-2.0, 2.0);
        }
        e = (e + trend + g.f(-1.0, 1.0)).min(6.0);
    }
    (v, s)
}

fn norm(v: &[f64]) -> f64 {
    v.iter().fold(0.0, |a: f64, b| if a.is_nan() || b.is_nan() { f64::NAN } else { f64::max(a, b.abs()) })
}

/// a comparison that rounding may decide
fn close(a: f64, b: f64) -> bool {
    (a - b).abs() <= 1e-8 * a.abs().max(b.abs())
}

enum End {
    Converged(usize),          // index of the call holding the solution
    Failed(usize, Vec<Status>), // calls made and the possible reasons
    Unknown,
}

/// predicts the outcome of the correction that starts at a call; the step starts at x0
fn predict(cfg: &Config, residuals: &[Vec<f64>], deltas: &[Vec<f64>], x0: &[f64]) -> End {
    let n = x0.len();
    let rel = !cfg.get_disable_rel_delta_analysis();
    let (mut r1, mut d1) = (0.0, 0.0);
    let (mut dr, mut dd): (Vec<bool>, Vec<bool>) = (vec![], vec![]);
    for k in 0..cfg.get_n_iteration_max() {
        if k >= residuals.len() {
            return End::Unknown;
        }
        let r = norm(&residuals[k]);
        if !r.is_finite() {
            return End::Failed(k + 1, vec![Status::NanOrInfResidual]);
        }
        let tol = cfg.get_tol_abs_residual();
        if close(r, tol) || (k > 0 && close(r, r1)) {
            return End::Unknown;
        }
        dr.push(k > 0 && r > r1);
        r1 = r;
        if r < tol {
            return End::Converged(k);
        }
        let mut why = vec![];
        if rel {
            let del = &deltas[k];
            let d = norm(del);
            let q = (0..n).map(|i| del[i] / (cfg.get_tol_abs_delta() + cfg.get_tol_rel_delta() * x0[i].abs())).fold(0.0, |a, b| a + b * b);
            let rms = (q / n as f64).sqrt();
            if close(rms, 1.0) || close(d, cfg.get_delta_max_allowed()) || (k > 0 && close(d, d1)) {
                return End::Unknown;
            }
            dd.push(k > 0 && d > d1);
            d1 = d;
            if rms < 1.0 {
                return End::Converged(k);
            }
            if d > cfg.get_delta_max_allowed() {
                why.push(Status::LargeDelta);
            }
        }
        for (x, max, s) in [
            (&dr, cfg.get_n_cont_residual_divergence_max(), Status::ContinuedResidualDivergence),
            (&dd, cfg.get_n_cont_delta_divergence_max(), Status::ContinuedDeltaDivergence),
        ] {
            // pairs of consecutive increases: in total, and since the last decrease
            let total = (1..x.len()).filter(|i| x[*i] && x[*i - 1]).count();
            let run = x.iter().rev().take_while(|b| **b).count().max(1) - 1;
            if (total >= max) != (run >= max) {
                return End::Unknown; // interrupted divergence is not specified
            }
            if total >= max {
                why.push(s);
            }
        }
        if k + 1 == cfg.get_n_iteration_max() {
            why.push(Status::ReachedMaxIterations);
        }
        if !why.is_empty() {
            return End::Failed(k + 1, why);
        }
    }
    End::Unknown
}

fn system<'a>(n: usize, slope: Vec<f64>) -> System<'a, Script> {
    System::new(
        n,
        Some(n),
        Sym::No,
        |gg: &mut Vector, l: f64, u: &Vector, s: &mut Script| {
            let k = s.seen.len();
            s.seen.push((l, u.as_data().to_vec()));
            if k >= s.values.len() {
                s.over = true;
                return Err("end of script");
            }
            for i in 0..gg.dim() {
                gg[i] = s.values[k][i];
            }
            Ok(())
        },
        move |ggu: &mut CooMatrix, ggl: &mut Vector, _l: f64, _u: &Vector, s: &mut Script| {
            s.jacs += 1;
            let k = s.seen.len().max(1) - 1;
            for i in 0..ggl.dim() {
                ggu.put(i, i, s.slopes[k][i])?;
                ggl[i] = slope[i];
            }
            Ok(())
        },
    )
    .unwrap()
}

fn settings(g: &mut G, cfg: &mut Config) {
    cfg.set_n_iteration_max(g.us(1, 14));
    cfg.set_tol_abs_residual(*g.pick(&[1e-10, 1e-7, 1e-4, 1e-2]));
    cfg.set_tol_abs_delta(*g.pick(&[1e-10, 1e-6, 1e-3]));
    cfg.set_tol_rel_delta(*g.pick(&[1e-7, 1e-5, 1e-3]));
    cfg.set_delta_max_allowed(*g.pick(&[1e8, 1e8, 1e3, 20.0]));
    cfg.set_disable_rel_delta_analysis(g.chance(1, 6));
    cfg.set_n_cont_residual_divergence_max(g.us(1, 5));
    cfg.set_n_cont_delta_divergence_max(g.us(1, 6));
}

/// corrections of the natural continuation
fn corrections(g: &mut G) -> R {
    let n = g.us(1, 4);
    let auto = g.bool();
    let mut cfg = Config::new();
    cfg.set_verbose_header_footer(false);
    cfg.set_method(Method::Natural);
    settings(g, &mut cfg);
    cfg.set_euler_predictor(g.bool());
    cfg.set_tg_control_enabled(false);
    cfg.set_nr_control_enabled(false);
    cfg.set_m_failure(*g.pick(&[0.5, 0.25, 0.01, 0.001]));
    cfg.set_n_cont_failure_max(g.us(1, 6));
    let (values, slopes) = values(g, n, 90);
    let slope: Vec<f64> = (0..n).map(|_| g.f(-1.0, 1.0)).collect();
    let u0: Vec<f64> = (0..n).map(|_| g.entry()).collect();
    let l0 = g.f(-1.0, 1.0);
    let dir = if g.bool() { IniDir::Pos } else { IniDir::Neg };
    let s = if dir == IniDir::Pos { 1.0 } else { -1.0 };
    let h0 = if g.chance(1, 6) { g.plog(-9.0, -5.0) } else { g.plog(-2.0, 0.0) };
    let steps = g.us(1, 6);
    let mut sc = Script { values, slopes, ..Script::default() };
    g.show("settings", &cfg);
    g.show("automatic, direction, first, steps", &(auto, dir, h0, steps));
    g.show("start", &(&u0, l0));
    let mut solver = must("corrections:new", "solver", Solver::new(&cfg, system(n, slope)))?;
    let (mut u, mut l) = (Vector::from(&u0), l0);
    let ddl = if auto { DeltaLambda::auto(h0) } else { DeltaLambda::constant(h0) };
    let res = match catch(|| solver.solve(&mut sc, &mut u, &mut l, dir, Rule::Steps(steps), &ddl, None)) {
        Ok(r) => r,
        Err((m, p)) => return fail("corrections:panic", format!("panic: {} at {}", m, p)),
    };
    if sc.over {
        discard!();
    }
    g.show("residuals used", &&sc.values[..sc.seen.len()]);
    let status = must("corrections:error", "solve", res)?;
    let deltas: Vec<Vec<f64>> = (0..sc.values.len()).map(|k| (0..n).map(|i| -sc.values[k][i] / sc.slopes[k][i]).collect()).collect();
    // follow the run
    let (mut ua, mut la, mut h) = (u0.clone(), l0, h0);
    let mut at = 0;
    let (mut accepted, mut rejected, mut again) = (0, 0, 0);
    let mut total = 0;
    let done = loop {
        if sc.seen.len() <= at {
            return fail("corrections:calls", format!("the run ends with {:?} after {} residuals; another step is due", status, at));
        }
        let want = la + s * h;
        ensure!((sc.seen[at].0 - want).abs() <= 1e-14 * (1.0 + want.abs()), "corrections:parameter", "step starts with parameter {} instead of {}", sc.seen[at].0, want);
        let end = predict(&cfg, &sc.values[at..], &deltas[at..], &ua);
        let made = match &end {
            End::Unknown => discard!(),
            End::Converged(k) => k + 1,
            End::Failed(k, _) => *k,
        };
        ensure!(sc.seen.len() >= at + made, "corrections:early", "the correction ends after {} residuals instead of {} with {:?}", sc.seen.len() - at, made, status);
        // iterates
        for k in 1..made {
            let (p, q) = (&sc.seen[at + k - 1].1, &sc.seen[at + k].1);
            for i in 0..n {
                let w = p[i] + deltas[at + k - 1][i];
                ensure!((q[i] - w).abs() <= 1e-12 * (p[i].abs() + w.abs()), "corrections:iterate", "iterate {} has component {} = {} instead of {}", k, i, q[i], w);
            }
            ensure!(sc.seen[at + k].0 == sc.seen[at].0, "corrections:moved", "the parameter changes during the correction");
        }
        at += made;
        total += made;
        match end {
            End::Converged(_) => {
                accepted += 1;
                again = 0;
                ua = sc.seen[at - 1].1.clone();
                la = sc.seen[at - 1].0;
                if accepted == steps {
                    break vec![Status::Success];
                }
            }
            End::Failed(_, why) => {
                if !auto || why[0] == Status::NanOrInfResidual {
                    break why;
                }
                again += 1;
                if again >= cfg.get_n_cont_failure_max() {
                    break vec![Status::ContinuedFailure];
                }
                rejected += 1;
                h *= cfg.get_m_failure();
                if close(h, 1e-10) {
                    discard!();
                }
                if h < 1e-10 {
                    break vec![Status::SmallStepsize];
                }
            }
            End::Unknown => discard!(),
        }
    };
    ensure!(done.contains(&status), "corrections:status", "status {:?} instead of {:?} after {} accepted steps", status, done, accepted);
    ensure!(sc.seen.len() == at, "corrections:late", "{} residuals instead of {}", sc.seen.len(), at);
    ensure!(l == la && u.as_data() == &ua, "corrections:state", "final state ({:?}, {}) instead of ({:?}, {})", u.as_data(), l, ua, la);
    let st = solver.get_stats();
    let got = (st.n_accepted, st.n_rejected, st.n_iteration_total, st.n_function);
    let want = (accepted, rejected, total, total);
    ensure!(got == want, "corrections:counters", "accepted, rejected, iterations, functions: {:?} instead of {:?}", got, want);
    g.class(match status {
        Status::Success => "success",
        Status::LargeDelta => "large correction",
        Status::ReachedMaxIterations => "too many iterations",
        Status::ContinuedResidualDivergence => "residual divergence",
        Status::ContinuedDeltaDivergence => "correction divergence",
        Status::ContinuedFailure => "continued failure",
        Status::SmallStepsize => "small step",
        Status::NanOrInfResidual => "not finite",
        _ => "other",
    });
    if rejected > 0 {
        g.class("retried");
    }
    if total >= 2 {
        g.hit();
    }
    Ok(())
}

/// first step of the arclength continuation
fn arclength(g: &mut G) -> R {
    let n = g.us(1, 4);
    let mut cfg = Config::new();
    cfg.set_verbose_header_footer(false);
    cfg.set_method(Method::Arclength);
    settings(g, &mut cfg);
    cfg.set_bordering(g.bool());
    let (values, slopes) = values(g, n, 30);
    // the Jacobian does not change
    let slopes = vec![slopes[0].clone(); 30];
    let d = slopes[0].clone();
    let slope: Vec<f64> = (0..n).map(|_| g.f(0.1, 1.0) * if g.bool() { 1.0 } else { -1.0 }).collect();
    let u0: Vec<f64> = (0..n).map(|_| g.f(-2.0, 2.0)).collect();
    let l0 = g.f(-1.0, 1.0);
    let dir = if g.bool() { IniDir::Pos } else { IniDir::Neg };
    let s = if dir == IniDir::Pos { 1.0 } else { -1.0 };
    let h0 = g.plog(-2.0, 0.0);
    let mut sc = Script { values, slopes, ..Script::default() };
    g.show("settings", &cfg);
    g.show("direction, first", &(dir, h0));
    g.show("start", &(&u0, l0));
    g.show("Jacobian", &(&d, &slope));
    let mut solver = must("arclength:new", "solver", Solver::new(&cfg, system(n, slope.clone())))?;
    let (mut u, mut l) = (Vector::from(&u0), l0);
    let res = match catch(|| solver.solve(&mut sc, &mut u, &mut l, dir, Rule::Steps(1), &DeltaLambda::constant(h0), None)) {
        Ok(r) => r,
        Err((m, p)) => return fail("arclength:panic", format!("panic: {} at {}", m, p)),
    };
    if sc.over {
        discard!();
    }
    g.show("residuals used", &&sc.values[..sc.seen.len()]);
    let status = must("arclength:error", "solve", res)?;
    // tangent and corrections: δu = -D⁻¹(G + Gλ δλ) with a correction orthogonal to the tangent
    let z: Vec<f64> = (0..n).map(|i| -slope[i] / d[i]).collect();
    let q = (1.0 + z.iter().map(|x| x * x).sum::<f64>()).sqrt();
    let tl = s / q;
    let tu: Vec<f64> = z.iter().map(|x| x * tl).collect();
    let deltas: Vec<Vec<f64>> = sc
        .values
        .iter()
        .map(|v| {
            let a: Vec<f64> = (0..n).map(|i| -v[i] / d[i]).collect();
            let dl = -(0..n).map(|i| tu[i] * a[i]).sum::<f64>() / ((0..n).map(|i| tu[i] * z[i]).sum::<f64>() + tl);
            let mut del: Vec<f64> = (0..n).map(|i| a[i] + dl * z[i]).collect();
            del.push(dl);
            del
        })
        .collect();
    let mut x = u0.clone();
    x.push(l0);
    let end = predict(&cfg, &sc.values, &deltas, &x);
    let (made, want) = match &end {
        End::Unknown => discard!(),
        End::Converged(k) => (k + 1, vec![Status::Success]),
        End::Failed(k, w) => (*k, w.clone()),
    };
    ensure!(want.contains(&status), "arclength:status", "status {:?} instead of {:?}", status, want);
    ensure!(sc.seen.len() == made, "arclength:calls", "{} residuals instead of {}", sc.seen.len(), made);
    // the correction starts at the point along the tangent
    let ds = h0 / tl.abs();
    for i in 0..n {
        x[i] += ds * tu[i];
    }
    x[n] += ds * tl;
    let mut size = norm(&x) + norm(&u0) + l0.abs();
    for k in 0..made {
        let y = &sc.seen[k];
        for i in 0..=n {
            let got = if i < n { y.1[i] } else { y.0 };
            ensure!((got - x[i]).abs() <= 1e-11 * size, "arclength:iterate", "iterate {} has component {} = {} instead of {}", k, i, got, x[i]);
        }
        for i in 0..=n {
            x[i] += deltas[k][i];
        }
        size += norm(&x);
    }
    let (ue, le) = if status == Status::Success { (sc.seen[made - 1].1.clone(), sc.seen[made - 1].0) } else { (u0.clone(), l0) };
    ensure!(l == le && u.as_data() == &ue, "arclength:state", "final state ({:?}, {}) instead of ({:?}, {})", u.as_data(), l, ue, le);
    g.class(match status {
        Status::Success => "success",
        Status::LargeDelta => "large correction",
        Status::ReachedMaxIterations => "too many iterations",
        Status::ContinuedResidualDivergence => "residual divergence",
        Status::ContinuedDeltaDivergence => "correction divergence",
        Status::NanOrInfResidual => "not finite",
        _ => "other",
    });
    if made >= 2 {
        g.hit();
    }
    Ok(())
}


/// start of the running step; arguments of every call with the returned value
struct Calls {
    base: (f64, Vec<f64>),
    calls: Vec<(f64, Vec<f64>, Vec<f64>)>,
    over: bool,
}

/// iterations of the backward Euler method
fn implicit(g: &mut G) -> R {
    let n = g.us(1, 4);
    let steps = g.us(1, 4);
    let h = *g.pick(&[0.25, 0.5, 0.125]);
    let mut params = Params::new(OdeMethod::BwEuler);
    // the tolerance of the iterations is bounded below when the relative one is tiny
    let (abs, rel) = if g.chance(1, 5) { (g.plog(-3.0, -1.0), g.plog(-13.0, -9.0)) } else { (g.plog(-8.0, -1.0), g.plog(-8.0, -1.0)) };
    let newton = if g.bool() { Some(g.plog(-6.0, 0.0)) } else { None };
    must("implicit:tolerances", "tolerances", params.set_tolerances(abs, rel, newton))?;
    let tol = newton.unwrap_or((10.0 * f64::EPSILON / rel).max(rel.sqrt().min(0.03)));
    params.newton.n_iteration_max = g.us(1, 12);
    let max = params.newton.n_iteration_max;
    let modified = g.chance(1, 4);
    params.bweuler.use_modified_newton = modified;
    // the residual of every call is prescribed
    let mut res: Vec<Vec<f64>> = Vec::new();
    let mut jac: Vec<Vec<f64>> = Vec::new();
    let y0: Vec<f64> = (0..n).map(|_| g.f(-3.0, 3.0)).collect();
    let mut e = g.f(-2.0, 1.0);
    let trend = *g.pick(&[-2.5, -1.2, -0.6, 0.0]);
    for _ in 0..60 {
        let m = 10f64.powf(e);
        res.push((0..n).map(|_| m * g.f(0.2, 1.0) * if g.bool() { 1.0 } else { -1.0 }).collect());
        jac.push((0..n).map(|_| g.f(-6.0, 1.5)).collect());
        e = if e < -15.0 || g.chance(1, 8) { g.f(-2.0, 1.0) } else { e + trend + g.f(-0.5, 0.5) };
    }
    let bad = if g.chance(1, 10) { Some(g.us(0, 8)) } else { None };
    g.show("tolerances, limit, modified", &(abs, rel, newton, max, modified));
    g.show("start, step, steps, not a number at", &(&y0, h, steps, bad));
    let r2 = res.clone();
    let mut system = OdeSystem::new(n, move |f: &mut Vector, x: f64, y: &Vector, s: &mut Calls| {
        let k = s.calls.len();
        if s.base.0 != x {
            // a new step starts at the accepted values
            s.base = (x, y.as_data().to_vec());
        }
        if k >= r2.len() {
            s.over = true;
            return Err("end of script");
        }
        for i in 0..f.dim() {
            f[i] = (y[i] - s.base.1[i] - r2[k][i]) / h;
        }
        if bad == Some(k) {
            f[0] = f64::NAN;
        }
        s.calls.push((x, y.as_data().to_vec(), f.as_data().to_vec()));
        Ok(())
    });
    let j3 = jac.clone();
    must(
        "implicit:jacobian",
        "jacobian",
        system.set_jacobian(Some(n), Sym::No, move |jj: &mut CooMatrix, alpha: f64, _x: f64, _y: &Vector, s: &mut Calls| {
            let k = s.calls.len() - 1;
            jj.reset();
            for i in 0..n {
                jj.put(i, i, alpha * j3[k][i])?;
            }
            Ok(())
        }),
    )?;
    // keep away from singular systems
    if jac.iter().any(|j| j.iter().any(|a| (h * a - 1.0).abs() < 0.05)) {
        discard!();
    }
    let mut solver = must("implicit:new", "solver", OdeSolver::new(params, system))?;
    let mut y = Vector::from(&y0);
    let x1 = h * steps as f64;
    let mut log = Calls { base: (f64::NAN, vec![]), calls: vec![], over: false };
    let out = match catch(|| solver.solve(&mut y, 0.0, x1, Some(h), &mut log, None)) {
        Ok(r) => r,
        Err((m, p)) => return fail("implicit:panic", format!("panic: {} at {}", m, p)),
    };
    if log.over {
        discard!();
    }
    let calls = &log.calls;
    g.show("residuals used", &&res[..calls.len()]);
    let mut at = 0;
    let mut ya = y0.clone();
    let mut most = 0;
    let mut good = true;
    for k in 0..steps {
        let xn = (k + 1) as f64 * h;
        let mut done = false;
        for it in 0..max {
            if calls.len() <= at {
                return fail("implicit:early", format!("the run ends after {} evaluations with {:?}; iteration {} of step {} is due", at, out, it + 1, k + 1));
            }
            let (x, v, f) = &calls[at];
            ensure!(*x == xn, "implicit:station", "iteration {} of step {} evaluates at {} instead of {}", it + 1, k + 1, x, xn);
            if it == 0 {
                ensure!(v == &ya, "implicit:start", "step {} starts from {:?} instead of {:?}", k + 1, v, ya);
            } else if !modified {
                for i in 0..n {
                    let (_, p, q) = &calls[at - 1];
                    let r = p[i] - ya[i] - h * q[i];
                    let w = p[i] + r / (h * jac[at - 1][i] - 1.0);
                    ensure!(!w.is_finite() || (v[i] - w).abs() <= 1e-11 * (w.abs() + p[i].abs()), "implicit:iterate", "iterate {} has component {} = {} instead of {}", it + 1, i, v[i], w);
                }
            }
            at += 1;
            most = most.max(it + 1);
            let q = (0..n).map(|i| (v[i] - ya[i] - h * f[i]) / (abs + rel * ya[i].abs())).fold(0.0, |a, b| a + b * b);
            let rms = (q / n as f64).sqrt();
            if (rms - tol).abs() < 1e-6 * tol {
                discard!();
            }
            // rounding of the prescribed residual
            let noise = (0..n).map(|i| 1e-15 * (v[i].abs() + ya[i].abs() + h * f[i].abs()) / (abs + rel * ya[i].abs())).fold(0.0, f64::max);
            if (rms - tol).abs() < 4.0 * noise {
                discard!();
            }
            if rms < tol {
                done = true;
                ya = v.clone();
                break;
            }
        }
        if !done {
            good = false;
            break;
        }
    }
    ensure!(out.is_ok() == good, "implicit:outcome", "result {:?} although the iterations {}", out, if good { "converge" } else { "do not converge" });
    ensure!(calls.len() == at, "implicit:late", "{} evaluations instead of {}", calls.len(), at);
    if good {
        ensure!(y.as_data() == &ya, "implicit:result", "result {:?} instead of {:?}", y.as_data(), ya);
    }
    let st = solver.stats();
    ensure!(st.n_function == at && st.n_iterations_max == most, "implicit:counters", "functions and longest iteration: {:?} instead of {:?}", (st.n_function, st.n_iterations_max), (at, most));
    g.class(if good { "converged" } else { "failed" });
    if at >= 2 {
        g.hit();
    }
    Ok(())
}

pub fn property() -> Property {
    Property {
        id: "C34",
        assumptions: &["prescribed residuals stand for arbitrary user functions", "divergence interrupted by a decrease is not judged", "comparisons within 1e-8 of a limit are not judged"],
        laws: vec![
            Law { name: "corrections", quick: 300000, rule: "at least two residuals are evaluated", f: corrections },
            Law { name: "arclength", quick: 300000, rule: "at least two residuals are evaluated", f: arclength },
            Law { name: "implicit", quick: 300000, rule: "at least two evaluations", f: implicit },
        ],
    }
}
