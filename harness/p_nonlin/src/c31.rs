//! Continuation follows the solution curve and honours the stop rule.
use crate::util::*;
use russell_lab::{Norm, Vector};
use russell_nonlin::*;
use russell_sparse::Sym;
use vp_engine::*;

pub fn property() -> Property {
    Property {
        id: "C31",
        assumptions: &[
            "the starting state lies on the curve and the tangent has parts in u and in the parameter",
            "advance along the branch is required of steps that are short compared with the curvature",
            "accepted states: the Newton correction or the residual is below the configured tolerance (factor 10)",
        ],
        laws: vec![
            Law {
                name: "fixed",
                quick: 60000,
                rule: "three accepted steps or more",
                f: fixed,
            },
            Law {
                name: "auto",
                quick: 60000,
                rule: "three accepted steps or more",
                f: auto,
            },
            Law {
                name: "newton",
                quick: 100000,
                rule: "start away from the solution",
                f: newton,
            },
            Law {
                name: "unreachable",
                quick: 40000,
                rule: "every case",
                f: unreachable,
            },
            Law {
                name: "samples",
                quick: 50000,
                rule: "every case",
                f: samples,
            },
        ],
    }
}

/// run to be performed
struct Plan {
    c: Curve,
    method: Method,
    w0: f64,
    /// direction of the curve coordinate
    sgn: f64,
    dir: IniDir,
    stop: russell_nonlin::Stop,
    sigma: f64,
    bend: f64,
    dlds: f64,
}

fn holds(s: &russell_nonlin::Stop, n: usize, u: &[f64], l: f64) -> bool {
    use russell_nonlin::Stop::*;
    match s {
        MinCompU(i, v) => u[*i] < v + 1e-10,
        MaxCompU(i, v) => u[*i] > v - 1e-10,
        MaxNormU(v, k, b, e) => norm(&u[*b..*e], *k) > v - 1e-10,
        MinLambda(v) => l < v + 1e-10,
        MaxLambda(v) => l > v - 1e-10,
        Steps(m) => n >= *m,
    }
}

/// whether the stop rule is decided only by rounding
fn doubtful(s: &russell_nonlin::Stop, u: &[f64], l: f64) -> bool {
    use russell_nonlin::Stop::*;
    let d = match s {
        MinCompU(i, v) | MaxCompU(i, v) => u[*i] - v,
        MaxNormU(v, k, b, e) => norm(&u[*b..*e], *k) - v,
        MinLambda(v) | MaxLambda(v) => l - v,
        Steps(_) => 1.0,
    };
    (d.abs() - 1e-10).abs() < 1e-12
}

fn norm(v: &[f64], k: Norm) -> f64 {
    match k {
        Norm::Euc | Norm::Fro => v.iter().map(|x| x * x).sum::<f64>().sqrt(),
        Norm::Inf | Norm::Max => v.iter().fold(0.0, |a, x| a.max(x.abs())),
        Norm::One => v.iter().map(|x| x.abs()).sum(),
    }
}

fn plan(g: &mut G) -> Result<Plan, vp_engine::Stop> {
    let fold = g.bool();
    let method = if fold || g.bool() { Method::Arclength } else { Method::Natural };
    let symmetric = !fold && g.chance(1, 4);
    let mut c = curve(g, fold, symmetric);
    c.hooks = g.bool();
    let w0 = g.f(-2.0, 2.0);
    let dir = if g.bool() { IniDir::Pos } else { IniDir::Neg };
    let (d, m) = tangent(&c, w0);
    if m.abs() < 0.05 || d.iter().all(|x| x.abs() < 1e-3) {
        discard!();
    }
    let sgn = if (dir == IniDir::Pos) == (m > 0.0) { 1.0 } else { -1.0 };
    let t = g.f(0.3, 2.0);
    let w1 = w0 + sgn * t;
    let bend = (0..=60).map(|i| c.bend(w0 + sgn * i as f64 * 0.05)).fold(0.0, f64::max);
    // length of the path
    let mut len = 0.0;
    for i in 0..50 {
        let (d, m) = c.deriv(w0 + sgn * t * (i as f64 + 0.5) / 50.0);
        len += d.iter().fold(m * m, |a, b| a + b * b).sqrt() * t / 50.0;
    }
    let sigma = (len / g.us(2, 40) as f64).min(0.3 / (1.0 + bend));
    let (u0, l0) = c.at(w0);
    let (u1, l1) = c.at(w1);
    let i = g.us(0, c.n - 1);
    use russell_nonlin::Stop::*;
    let stop = match g.us(0, 3) {
        0 => Steps(g.us(1, 15)),
        1 => {
            if l1 == l0 {
                discard!();
            }
            if l1 > l0 { MaxLambda(l1) } else { MinLambda(l1) }
        }
        2 => {
            if u1[i] > u0[i] {
                MaxCompU(i, u1[i])
            } else if u1[i] < u0[i] {
                MinCompU(i, u1[i])
            } else {
                discard!()
            }
        }
        _ => {
            let b = g.us(0, c.n - 1);
            let e = g.us(b + 1, c.n);
            let k = *g.pick(&[Norm::Euc, Norm::Max, Norm::One, Norm::Inf, Norm::Fro]);
            let v = norm(&u1[b..e], k);
            if v <= norm(&u0[b..e], k) || v <= 0.0 {
                discard!();
            }
            MaxNormU(v, k, b, e)
        }
    };
    if !matches!(stop, Steps(_)) {
        // the target must be crossed clearly and must not be touched before
        let mut first = None;
        let n = 2000;
        let mut prev = f64::NEG_INFINITY;
        let mut top = f64::NEG_INFINITY;
        let val = |w: f64| {
            let (u, l) = c.at(w);
            match &stop {
                MinCompU(i, v) => v - u[*i],
                MaxCompU(i, v) => u[*i] - v,
                MaxNormU(v, k, b, e) => norm(&u[*b..*e], *k) - v,
                MinLambda(v) => v - l,
                MaxLambda(v) => l - v,
                Steps(_) => 0.0,
            }
        };
        for i in 0..=n {
            let w = w0 + sgn * t * 1.001 * i as f64 / n as f64;
            let x = val(w);
            if x >= 0.0 && first.is_none() {
                first = Some(w);
            }
            if first.is_none() {
                if prev > f64::NEG_INFINITY && x < prev {
                    top = top.max(prev);
                }
                prev = x;
            }
        }
        let Some(w) = first else { discard!() };
        let eps = 1e-4;
        let slope = (val(w + sgn * eps) - val(w - sgn * eps)) / (2.0 * eps);
        let (d, m) = c.deriv(w);
        let speed = d.iter().fold(m * m, |a, b| a + b * b).sqrt();
        if slope < 0.2 * speed || top > -3.0 * sigma {
            discard!();
        }
    }
    g.show("curve", &c);
    g.show("method, start, direction, stop, length of steps", &(method, w0, dir, stop, sigma));
    Ok(Plan { c, method, w0, sgn, dir, stop, sigma, bend, dlds: m })
}

/// states, step relations and landing
fn follow(g: &mut G, p: &Plan, cfg: &Config, run: &Run, is_auto: bool) -> R {
    let c = &p.c;
    let n = c.n;
    let outs = run.outs();
    let (u0, l0) = c.at(p.w0);
    ensure!(!outs.is_empty() && outs[0].4 == l0 && outs[0].5 == u0, "follow:first", "the first output is not the initial state");
    ensure!(run.lam.len() == outs.len(), "follow:records", "{} records and {} outputs", run.lam.len(), outs.len());
    let last = outs.len() - 1;
    ensure!(run.l == outs[last].4 && run.u == outs[last].5, "follow:last", "the final state is not the last accepted one");
    let mut regular = true;
    // the last steps towards a component of u are shortened
    let mut near_target = false;
    let mut passes = false;
    let targeted = matches!(p.stop, russell_nonlin::Stop::MinLambda(_) | russell_nonlin::Stop::MaxLambda(_) | russell_nonlin::Stop::MinCompU(..) | russell_nonlin::Stop::MaxCompU(..));
    for k in 1..=last {
        let (_, _, _, _, l, u) = &outs[k];
        let (_, _, rej0, h0, l0, u0) = &outs[k - 1];
        let ok = allowed(c, cfg, u, *l);
        let e = off(c, u, *l);
        ensure!(e <= ok, "follow:curve", "state {} is {:e} away from the curve (allowed {:e})", k, e, ok);
        let (w, w0) = (c.coord(u, *l), c.coord(u0, *l0));
        // short step
        let chord = u.iter().zip(u0).fold((l - l0).powi(2), |a, (x, y)| a + (x - y).powi(2)).sqrt();
        let (d0, m0) = tangent(c, w0);
        let (d1, m1) = tangent(c, w);
        let dot = d0.iter().zip(&d1).fold(m0 * m1, |a, (x, y)| a + x * y);
        let short = dot > 0.8 && chord * p.bend.max(c.bend(w)) < 0.8;
        if !short {
            regular = false;
            g.class("long step");
        }
        if let russell_nonlin::Stop::MinCompU(i, v) | russell_nonlin::Stop::MaxCompU(i, v) = p.stop {
            if p.method == Method::Arclength {
                let rest = (v - u0[i]) / run.duds[i][k - 1];
                near_target = near_target || (rest > 0.0 && *h0 > rest * (1.0 - 1e-9)) || outs[k].2 != *rej0;
            }
        }
        if let russell_nonlin::Stop::MinLambda(v) | russell_nonlin::Stop::MaxLambda(v) = p.stop {
            passes = p.method == Method::Natural || (outs[k].2 == *rej0 && (v - l0).abs() <= h0 * run.dlds[k - 1].abs() * (1.0 - 1e-9) && (v - l0) * run.dlds[k - 1] > 0.0);
        }
        if let russell_nonlin::Stop::MinLambda(v) | russell_nonlin::Stop::MaxLambda(v) = p.stop {
            // the corrector fell short of the target in the step before
            near_target = k > 1 && p.method == Method::Arclength && (v - l0).abs() < 1e-6 * (1.0 + v.abs());
        }
        let at_target = (k == last && targeted) || near_target;
        ensure!(h0.is_finite() && *h0 > 0.0, "follow:h", "step length {} is {}", k, h0);
        if regular && !(at_target && chord < 1e-5) {
            ensure!((w - w0) * p.sgn > 0.0, "follow:advance", "step {} goes from {} to {} but the direction is {}", k, w0, w, p.sgn);
        }
        if p.method == Method::Natural {
            let s = if p.dir == IniDir::Pos { 1.0 } else { -1.0 };
            if !at_target && outs[k].2 == *rej0 {
                near("follow:increment", &format!("parameter increment {}", k), l - l0, s * h0, 1e-12 * (1.0 + l.abs()))?;
            }
        } else {
            // tangent of unit length along the curve
            let size = (0..n).fold(run.dlds[k].powi(2), |a, i| a + run.duds[i][k].powi(2));
            near("follow:unit", &format!("length of tangent {}", k), size, 1.0, 1e-10)?;
            let along = (0..n).fold(run.dlds[k] * m1, |a, i| a + run.duds[i][k] * d1[i]) * p.sgn;
            if regular {
                ensure!(along > 0.95, "follow:tangent", "tangent {} deviates from the curve (cosine {})", k, along);
            }
            if !at_target && outs[k].2 == *rej0 {
                let s = (0..n).fold((l - l0) * run.dlds[k - 1], |a, i| a + (u[i] - u0[i]) * run.duds[i][k - 1]);
 near("follow:arclength", &format!("pseudo-arclength of step {}", k), s, *h0, ok + 1e-9 * h0)?;
            }
        }
        let h = holds(&p.stop, k, u, *l);
        if doubtful(&p.stop, u, *l) {
            discard!();
        }
        ensure!(!h || k == last, "follow:late", "the stop rule holds at state {} of {}", k, last);
    }
    ensure!(outs[last].3.is_finite(), "follow:h", "the last step length is {}", outs[last].3);
    let reached = last > 0 && holds(&p.stop, last, &run.u, run.l);
    match &run.status {
        Ok(s) if s.success() => {
            if is_auto && !reached && run.stats.n_steps == cfg.get_n_step_max() {
                g.class("all steps used");
                return Ok(());
            }
            ensure!(reached, "follow:stop", "success but the stop rule does not hold at the last state {:?}", (run.l, &run.u));
            use russell_nonlin::Stop::*;
            let ok = allowed(c, cfg, &run.u, run.l);
            if let MinLambda(v) | MaxLambda(v) = p.stop {
                if passes {
                    near("follow:landing", "final parameter", run.l, v, if p.method == Method::Natural { 1e-10 } else { 10.0 * ok + 1e-9 })?;
                } else {
                    g.class("corrector passes the target");
                }
            }
            if let (MinCompU(i, v) | MaxCompU(i, v), true, true) = (p.stop, is_auto, cfg.get_enable_precise_stop_u_comp()) {
                near("follow:precise", "final component", run.u[i], v, 1.0001e-10 + 1e-15 * v.abs())?;
            }
        }
        Ok(s) => {
            ensure!(!reached, "follow:status", "status {:?} but the stop rule holds", s);
            if !is_auto {
                return fail("follow:failure", format!("status {:?} with short steps", s));
            }
            g.class("auto stops early");
        }
        Err(e) => {
            // bordering divides by Gu, which is singular exactly at a fold
            if let (Some(q), true, Some(Ev::J(_, v))) = (c.q, cfg.get_bordering(), run.log.ev.iter().rev().find(|e| matches!(e, Ev::J(..)))) {
                if p.method == Method::Arclength && c.p.d(v[q]).abs() < 1e-10 {
                    discard!();
                }
            }
            if !is_auto || regular {
                return fail("follow:error", format!("error {:?}", e));
            }
            g.class("auto error");
        }
    }
    if last >= 3 {
        g.hit();
    }
    Ok(())
}

fn fixed(g: &mut G) -> R {
    let p = plan(g)?;
    let mut cfg = config(g, p.method);
    if p.method == Method::Arclength && !cfg.get_bordering() && p.c.sym != Sym::No {
        cfg.set_bordering(true);
    }
    settings(g, &cfg);
    let rate = if p.method == Method::Natural { 1.0 } else { p.dlds.abs() };
    let list = g.chance(1, 3) && p.c.q.is_none();
    let ddl = if list {
        let mut v = Vec::new();
        for _ in 0..g.us(1, 20) {
            v.push(p.sigma * g.f(0.02, 0.3));
        }
        g.show("list", &v);
        DeltaLambda::list(&v)
    } else {
        DeltaLambda::constant(p.sigma * rate)
    };
    let mut s = must("fixed:new", "solver", Solver::new(&cfg, p.c.system()))?;
    let (u0, l0) = p.c.at(p.w0);
    let mut run = solve("fixed:panic", &mut s, Log::new(), &u0, l0, p.dir, p.stop, &ddl, p.c.n)?;
    let mut p = p;
    if list {
        let v: Vec<f64> = {
            // the list as given
            let txt = format!("{:?}", ddl);
            let a = txt.find('[').unwrap();
            let b = txt.find(']').unwrap();
            txt[a + 1..b].split(',').map(|x| x.trim().parse().unwrap()).collect()
        };
        let outs = run.outs();
        let last = outs.len() - 1;
        ensure!(last <= v.len(), "fixed:list", "{} steps with {} increments", last, v.len());
        for k in 1..=last {
            if p.method == Method::Natural {
                if k == last && matches!(p.stop, russell_nonlin::Stop::MinLambda(_) | russell_nonlin::Stop::MaxLambda(_)) {
                    continue;
                }
                near("fixed:list", &format!("parameter increment {}", k), (outs[k].4 - outs[k - 1].4).abs(), v[k - 1], 1e-12 * (1.0 + outs[k].4.abs()))?;
            } else {
                let lim = match p.stop {
                    russell_nonlin::Stop::MinLambda(x) | russell_nonlin::Stop::MaxLambda(x) if k == 1 => (x - outs[0].4).abs(),
                    _ => f64::INFINITY,
                };
                near("fixed:list", &format!("step length {}", k), outs[k - 1].3, v[k - 1].min(lim) / run.dlds[k - 1].abs(), 1e-12 * outs[k - 1].3)?;
            }
        }
        if last == v.len() && run.status == Ok(Status::Success) && !holds(&p.stop, last, &run.u, run.l) {
            g.class("list used up");
            if p.method == Method::Arclength && (outs[last].3 / outs[last - 1].3 - 1.0).abs() > 1e-13 {
                // the last step was truncated at the target and fell short of it
                return Ok(());
            }
            p.stop = russell_nonlin::Stop::Steps(last);
            run.status = Ok(Status::Success);
        }
    } else {
        let outs = run.outs();
        for k in 0..outs.len() - 1 {
            let lim = match p.stop {
                russell_nonlin::Stop::MinLambda(x) | russell_nonlin::Stop::MaxLambda(x) => (x - outs[0].4).abs(),
                _ => f64::INFINITY,
            };
            if matches!(p.stop, russell_nonlin::Stop::MinCompU(..) | russell_nonlin::Stop::MaxCompU(..)) && p.method == Method::Arclength {
                ensure!(outs[k].3 <= p.sigma * (1.0 + 1e-12), "fixed:constant", "step length {} is {}", k, outs[k].3);
                continue;
            }
            if p.method == Method::Arclength && k > 0 && matches!(p.stop, russell_nonlin::Stop::MinLambda(x) | russell_nonlin::Stop::MaxLambda(x) if (x - outs[k].4).abs() < 1e-6 * (1.0 + x.abs())) {
                // truncated again because the corrector fell short of the target
                g.class("another truncated step");
                continue;
            }
            near("fixed:constant", &format!("step length {}", k), outs[k].3, (p.sigma * rate).min(lim) / rate, 1e-12 * outs[k].3 + 1e-15)?;
        }
    }
    follow(g, &p, &cfg, &run, false)
}

/// the comparison of secants in the natural method makes the steps collapse with tight tolerances
fn steady(cfg: &Config) -> bool {
    !cfg.get_tg_control_enabled() || (cfg.get_tg_control_tol() >= 0.4 && cfg.get_tg_control_pid_vcc())
}

fn auto(g: &mut G) -> R {
    let p = plan(g)?;
    let mut cfg = config(g, p.method);
    if p.method == Method::Arclength && !cfg.get_bordering() && p.c.sym != Sym::No {
        cfg.set_bordering(true);
    }
    if g.bool() {
        cfg.set_enable_precise_stop_u_comp(true);
    }
    cfg.set_n_step_max(1000);
    settings(g, &cfg);
    let rate = if p.method == Method::Natural { 1.0 } else { p.dlds.abs() };
    let ddl = DeltaLambda::auto(p.sigma * rate * g.f(0.3, 1.0));
    let mut s = must("auto:new", "solver", Solver::new(&cfg, p.c.system()))?;
    let (u0, l0) = p.c.at(p.w0);
    let run = solve("auto:panic", &mut s, Log::new(), &u0, l0, p.dir, p.stop, &ddl, p.c.n)?;
    follow(g, &p, &cfg, &run, true)?;
    if let Ok(s) = &run.status {
        // a long step may pass over a hump that reaches the target of a component
        let plain = !matches!(p.stop, russell_nonlin::Stop::MinCompU(..) | russell_nonlin::Stop::MaxCompU(..) | russell_nonlin::Stop::MaxNormU(..));
        if s.failure() && plain && p.c.q.is_none() && p.method == Method::Natural && !cfg.get_enable_precise_stop_u_comp() && steady(&cfg) {
            return fail("auto:failure", format!("status {:?} on a curve without folds", s));
        }
    }
    Ok(())
}

fn newton(g: &mut G) -> R {
    // nothing depends on the parameter
    let mut c = curve(g, false, false);
    for f in &mut c.f {
        f.c[1] = 0.0;
        f.c[2] = 0.0;
        f.a = 0.0;
        f.b = 0.0;
    }
    c.hooks = g.bool();
    let root: Vec<f64> = c.f.iter().map(|f| f.v(0.0)).collect();
    let far = *g.pick(&[0.0, 0.1, 1.0, 10.0]);
    let u0: Vec<f64> = root.iter().map(|r| r + g.f(-far, far)).collect();
    let l0 = g.f(-1.0, 1.0);
    let mut cfg = config(g, Method::Natural);
    cfg.set_n_iteration_max(40);
    let ddl = if g.bool() { DeltaLambda::auto(1.0) } else { DeltaLambda::constant(1.0) };
    g.show("system", &c);
    g.show("start", &(&u0, l0));
    settings(g, &cfg);
    if far > 0.0 {
        g.hit();
    }
    let mut s = must("newton:new", "solver", Solver::new(&cfg, c.system()))?;
    let run = solve("newton:panic", &mut s, Log::new(), &u0, l0, IniDir::Pos, russell_nonlin::Stop::Steps(1), &ddl, c.n)?;
    ensure!(run.status == Ok(Status::Success), "newton:status", "status {:?}", run.status);
    near("newton:parameter", "parameter", run.l, l0 + 1.0, 1e-14)?;
    let ok = allowed(&c, &cfg, &run.u, 0.0).max(allowed(&c, &cfg, &u0, 0.0));
    for i in 0..c.n {
        near("newton:root", &format!("component {}", i), run.u[i], root[i], ok)?;
    }
    Ok(())
}

/// no solutions beyond the fold of a parabola
fn unreachable(g: &mut G) -> R {
    g.hit();
    let mut c = curve(g, true, false);
    let s = if g.bool() { 1.0 } else { -1.0 };
    let (top, a) = (g.f(-1.0, 1.0), g.f(0.3, 2.0));
    c.p = Fun { c: [top, 0.0, -s * a, 0.0], k: 1.0, z: 0.0, a: 0.0, s: 0.0, b: 0.0 };
    c.hooks = g.bool();
    let w0 = g.f(0.3, 1.5) * if g.bool() { 1.0 } else { -1.0 };
    let mut cfg = config(g, Method::Natural);
    cfg.set_n_step_max(1000);
    let (u0, l0) = c.at(w0);
    let goal = top + s * g.f(0.05, 1.0);
    let stop = if s > 0.0 { russell_nonlin::Stop::MaxLambda(goal) } else { russell_nonlin::Stop::MinLambda(goal) };
    let d = (top - l0).abs() * g.f(0.05, 0.6);
    let is_auto = g.bool();
    let ddl = if is_auto { DeltaLambda::auto(d) } else { DeltaLambda::constant(d) };
    g.show("curve", &c);
    g.show("start, goal, increment, automatic", &(w0, goal, d, is_auto));
    settings(g, &cfg);
    let mut sv = must("unreachable:new", "solver", Solver::new(&cfg, c.system()))?;
    let run = solve("unreachable:panic", &mut sv, Log::new(), &u0, l0, if s > 0.0 { IniDir::Pos } else { IniDir::Neg }, stop, &ddl, c.n)?;
    if let Ok(s) = &run.status {
        ensure!(s.failure() || run.stats.n_steps == 1000, "unreachable:status", "status {:?} at {:?} although there is no solution at the target", s, (run.l, &run.u));
    }
    let outs = run.outs();
    let last = outs.last().unwrap();
    ensure!(run.l == last.4 && run.u == last.5, "unreachable:last", "the final state is not the last accepted one");
    for (k, o) in outs.iter().enumerate() {
        let ok = allowed(&c, &cfg, &o.5, o.4);
        let e = off(&c, &o.5, o.4);
        // convergence measured by corrections is slow near the fold
        let w = c.coord(&o.5, o.4).abs();
        if w > 0.05 {
            ensure!(e <= ok, "unreachable:curve", "state {} is {:e} away from the curve (allowed {:e})", k, e, ok);
        }
        ensure!((o.4 - top) * s < 1e-3, "unreachable:beyond", "state {} lies beyond the fold: {}", k, o.4);
    }
    Ok(())
}

fn check_jacobian<A>(what: &str, sys: System<A>, args: &mut A, u: &[f64], l: f64) -> R {
    // the library's own comparison with numerical derivatives
    let v = Vector::from(&u.to_vec());
    match catch(|| sys.check_ggu(l, &v, args, 1e-6 * (1.0 + u.iter().fold(0.0f64, |a, b| a.max(b.abs())).powi(2)))) {
        Ok(Ok(())) => Ok(()),
        Ok(Err(e)) => fail("samples:jacobian", format!("{}: {}", what, e)),
        Err((m, p)) => fail("samples:jacobian", format!("{}: {} at {}", what, m, p)),
    }
}

fn samples(g: &mut G) -> R {
    g.hit();
    let which = g.us(0, 9);
    let (x, y, l) = (g.f(-2.0, 2.0), g.f(-2.0, 2.0), g.f(-2.0, 2.0));
    g.show("which, at", &(which, x, y, l));
    // root of a system that does not depend on the parameter
    let root = |what: &str, sys: System<NoArgs>, from: &Vector, want: &Vector, tol: f64| -> R {
        let mut cfg = Config::new();
        cfg.set_verbose_header_footer(false).set_n_iteration_max(60).set_tol_delta(1e-12, 1e-12);
        let n = from.dim();
        let mut u = Vector::from(from.as_data());
        let mut l = 0.0;
        let mut s = must("samples:new", what, Solver::new(&cfg, sys))?;
        let st = must("samples:solve", what, s.solve(&mut 0, &mut u, &mut l, IniDir::Pos, russell_nonlin::Stop::Steps(1), &DeltaLambda::constant(1.0), None))?;
        ensure!(st.success(), "samples:status", "{}: {:?}", what, st);
        for i in 0..n {
            near("samples:root", what, u[i], want[i], tol)?;
        }
        Ok(())
    };
    match which {
        0 => {
            let (s, u, l0, mut args) = Samples::simple_linear_problem(if g.bool() { Sym::No } else { Sym::YesFull });
            ensure!(u[0] == l0, "samples:start", "linear problem starts at {:?}", (u[0], l0));
            check_jacobian("linear problem", s, &mut args, &[x], l)
        }
        1 => {
            let (s, ok, _, _, want, mut args) = Samples::cubic_poly_1();
            check_jacobian("cubic 1", s, &mut args, &[x], l)?;
            root("cubic 1", Samples::cubic_poly_1().0, &ok, &want, 1e-12)
        }
        2 => {
            let (s, from, want, mut args) = Samples::cubic_poly_2();
            check_jacobian("cubic 2", s, &mut args, &[x], l)?;
            root("cubic 2", Samples::cubic_poly_2().0, &from, &want, 1e-8)
        }
        3 => {
            let (s, from, want, mut args) = Samples::two_eq_ref();
            check_jacobian("two equations", s, &mut args, &[x, y], l)?;
            root("two equations", Samples::two_eq_ref().0, &from, &want, 1e-8)
        }
        4 => {
            let (s, _, want, mut args) = Samples::two_eq_nr_prob_1();
            check_jacobian("problem 1", s, &mut args, &[x, y], l)?;
            near("samples:root", "problem 1", want[0].abs() + want[1].abs(), 0.0, 0.0)
        }
        5 => {
            let (s, o1, o2, _, r1, r2, mut args) = Samples::two_eq_nr_prob_2();
            check_jacobian("problem 2", s, &mut args, &[x, y], l)?;
            root("problem 2", Samples::two_eq_nr_prob_2().0, &o1, &r1, 1e-8)?;
            root("problem 2", Samples::two_eq_nr_prob_2().0, &o2, &r2, 1e-8)
        }
        6 => {
            let (s, u, l0, f, mut args) = Samples::one_eq_with_fold_point();
            check_jacobian("fold", s, &mut args, &[x], l)?;
            let mut cfg = Config::new();
            cfg.set_method(Method::Arclength).set_verbose_header_footer(false).set_bordering(g.bool());
            path(&cfg, Samples::one_eq_with_fold_point().0, u, l0, 0.0, g.f(1.2, 3.0), g.f(0.02, 0.1), &mut args, |u, l| l - f(u))
        }
        7 => {
            let (al, pe) = (*g.pick(&[2.0, 3.0]), g.f(0.01, 0.1));
            let (s, _, _, f, mut args) = Samples::singular_initial_state(al, pe);
            check_jacobian("singular start", s, &mut args, &[x.abs() + 0.1], l)?;
            let x = x.abs();
            near("samples:curve", "reference", f(x), x.powf(al), 1e-14 * (1.0 + x.powf(al)))
        }
        8 => {
            // the solution is a point of a curve
            let delta = g.f(0.0, 0.8);
            let control = [[0.0, 0.0], [0.5, 1.0], [1.75, 1.0], [2.0 - delta, 0.0], [2.5, 0.5]];
            let knots = [0.0, 0.0, 0.0, 0.4, 0.6, 1.0, 1.0, 1.0];
            let point = |t: f64| -> [f64; 2] {
                let k = if t < 0.4 { 2 } else if t < 0.6 { 3 } else { 4 };
                let mut d = [control[k - 2], control[k - 1], control[k]];
                for r in 1..3 {
                    for j in (r..3).rev() {
                        let i = j + k - 2;
                        let a = (t - knots[i]) / (knots[i + 3 - r] - knots[i]);
                        for c in 0..2 {
                            d[j][c] = (1.0 - a) * d[j - 1][c] + a * d[j][c];
                        }
                    }
                }
                d[2]
            };
            let (s, mut u, mut l, mut args) = Samples::bspline_problem_1(delta);
            let at = g.f(0.05, 0.95);
            if (at - 0.4).abs() > 1e-3 && (at - 0.6).abs() > 1e-3 {
                check_jacobian("b-spline", s, &mut args, &[x, y], at)?;
            }
            let mut cfg = Config::new();
            cfg.set_verbose_header_footer(false);
            let n = g.us(1, 30);
            let mut sv = must("samples:new", "b-spline", Solver::new(&cfg, Samples::bspline_problem_1(delta).0))?;
            let mut out = Output::new();
            out.set_recording(true, &[0, 1], &[]);
            let st = must(
                "samples:solve",
                "b-spline",
                sv.solve(&mut args, &mut u, &mut l, IniDir::Pos, russell_nonlin::Stop::Steps(n), &DeltaLambda::constant(1.0 / (n + 2) as f64), Some(&mut out)),
            )?;
            ensure!(st.success(), "samples:status", "b-spline: {:?}", st);
            for (k, l) in out.get_l_values().iter().enumerate() {
                let p = point(*l);
                near("samples:spline", "first coordinate", out.get_u_values(0)[k], p[0], 1e-9)?;
                near("samples:spline", "second coordinate", out.get_u_values(1)[k], p[1], 1e-9)?;
            }
            Ok(())
        }
        _ => {
            let r = g.f(0.5, 3.0);
            let (s, u, l0, mut args) = Samples::circle_ul(r);
            check_jacobian("circle", s, &mut args, &[x], l)?;
            let mut cfg = Config::new();
            cfg.set_method(Method::Arclength).set_verbose_header_footer(false).set_bordering(g.bool());
            // around the circle
            let h = r * g.f(0.05, 0.2);
            let n = g.us(5, 80);
            let mut sv = must("samples:new", "circle", Solver::new(&cfg, Samples::circle_ul(r).0))?;
            let mut out = Output::new();
            out.set_recording(true, &[0], &[0]);
            let (mut u, mut l) = (u, l0);
            let dir = if g.bool() { IniDir::Pos } else { IniDir::Neg };
            let st = must(
                "samples:solve",
                "circle",
                sv.solve(&mut args, &mut u, &mut l, dir, russell_nonlin::Stop::Steps(n), &DeltaLambda::constant(h / std::f64::consts::SQRT_2), Some(&mut out)),
            )?;
            ensure!(st.success(), "samples:status", "circle: {:?}", st);
            let (uu, ll) = (out.get_u_values(0), out.get_l_values());
            ensure!(ll.len() == n + 1, "samples:steps", "circle: {} states", ll.len());
            let s = if dir == IniDir::Pos { 1.0 } else { -1.0 };
            let mut turn = 0.0;
            for k in 0..=n {
                near("samples:circle", &format!("radius at {}", k), uu[k].hypot(ll[k]), r, 1e-6 * r)?;
                if k > 0 {
                    // positive direction is clockwise in the (parameter, u) plane
                    let a = uu[k - 1].atan2(ll[k - 1]) - uu[k].atan2(ll[k]);
                    let a = (a + 3.0 * std::f64::consts::PI) % (2.0 * std::f64::consts::PI) - std::f64::consts::PI;
                    ensure!(a * s > 0.0, "samples:advance", "step {} turns by {}", k, a);
                    // chord projected on the tangent has the step length
                    near("samples:step", &format!("angle of step {}", k), a.abs().sin(), h / r, 1e-5)?;
                    turn += a;
                }
            }
            near("samples:turn", "total angle", turn, s * n as f64 * (h / r).asin(), 1e-4)
        }
    }
}

#[allow(clippy::too_many_arguments)]
fn path<A>(cfg: &Config, sys: System<A>, mut u: Vector, l0: f64, ul: f64, ur: f64, h: f64, args: &mut A, err: impl Fn(f64, f64) -> f64) -> R {
    let mut sv = must("samples:new", "path", Solver::new(cfg, sys))?;
    let mut out = Output::new();
    out.set_recording(true, &[0], &[0]);
    let mut l = l0;
    let st = must("samples:solve", "path", sv.solve(args, &mut u, &mut l, IniDir::Pos, russell_nonlin::Stop::MaxCompU(0, ur), &DeltaLambda::constant(h), Some(&mut out)))?;
    ensure!(st.success(), "samples:status", "path: {:?}", st);
    let (uu, ll) = (out.get_u_values(0), out.get_l_values());
    for k in 0..uu.len() {
        near("samples:path", &format!("state {}", k), err(uu[k], ll[k]), 0.0, 1e-6)?;
        if k > 0 && k + 1 < uu.len() {
            ensure!(uu[k] > uu[k - 1], "samples:advance", "state {}: {} after {}", k, uu[k], uu[k - 1]);
        }
    }
    ensure!(u[0] >= ur - 1e-9 && ul < ur, "samples:stop", "stopped at {}", u[0]);
    Ok(())
}

