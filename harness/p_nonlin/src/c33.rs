//! Rules of automatic step sizes.
use crate::ode;
use crate::util::*;
use russell_lab::Vector;
use russell_nonlin::*;
use russell_ode::{Method as Rk, OdeSolver, Output as OdeOutput, Params, Stats as OdeStats};
use vp_engine::*;

type Rule = russell_nonlin::Stop;

pub fn property() -> Property {
    Property {
        id: "C33",
        assumptions: &[
            "the smallest multiplier is below 0.5 and the largest one above 1; the multiplier for a rejected first step is below 1",
            "the implicit method may keep its step size to reuse a factorization",
            "the controller with previous changes equal to zero is only bounded, not predicted",
            "an iteration count is the number of residual evaluations or one less",
        ],
        laws: vec![
            Law {
                name: "limits",
                quick: 16000,
                rule: "three accepted steps or more",
                f: limits,
            },
            Law {
                name: "budget",
                quick: 8000,
                rule: "every case",
                f: budget,
            },
            Law {
                name: "scaling",
                quick: 60000,
                rule: "both runs are inside the limits of the multiplier",
                f: scaling,
            },
            Law {
                name: "continuation",
                quick: 200000,
                rule: "two predicted step sizes or more",
                f: continuation,
            },
        ],
    }
}

const METHODS: [Rk; 12] = [
    Rk::Radau5,
    Rk::Merson4,
    Rk::Zonneveld4,
    Rk::Fehlberg4,
    Rk::DoPri5,
    Rk::Verner6,
    Rk::Fehlberg7,
    Rk::DoPri8,
    Rk::DoPri5,
    Rk::DoPri8,
    Rk::Radau5,
    Rk::Radau5,
];

/// steps, accepted, h, x, suggestion
#[derive(Clone, Debug)]
struct Row {
    steps: usize,
    h: f64,
    x: f64,
    next: f64,
}

struct Trace {
    rows: Vec<Row>,
    result: Result<(), String>,
    stats: OdeStats,
    nf: usize,
}

fn trace(key: &str, p: &ode::Prob, params: Params, stop: usize) -> Result<Trace, Stop2> {
    let mut args = ode::Args::default();
    args.stop_step = stop;
    let r = catch(|| {
        let mut out = OdeOutput::new();
        out.set_step_callback(|st: &OdeStats, h: f64, x: f64, _y: &Vector, args: &mut ode::Args| {
            args.step.push((h, x, vec![st.n_steps as f64, st.h_accepted]));
            Ok(args.step.len() == args.stop_step)
        });
        let mut solver = OdeSolver::new(params, p.system(true)).map_err(|e| e.to_string())?;
        let mut y = p.start();
        let r = solver.solve(&mut y, p.x0, p.x1, None, &mut args, Some(&mut out));
        Ok::<_, String>((r.map_err(|e| e.to_string()), *solver.stats()))
    });
    match r {
        Ok(Ok((result, stats))) => Ok(Trace {
            rows: args.step.iter().map(|(h, x, v)| Row { steps: v[0] as usize, h: *h, x: *x, next: v[1] }).collect(),
            result,
            stats,
            nf: args.nf,
        }),
        Ok(Err(e)) => fail(key, format!("no solver: {}", e)),
        Err((m, l)) => fail(key, format!("panic: {} at {}", m, l)),
    }
}

fn settings(g: &mut G) -> (Params, Rk, f64, f64) {
    let m = ode::pick_method(g, &METHODS);
    let mut p = Params::new(m);
    let t = g.plog(-7.0, -2.0);
    let r = if g.bool() { t } else { g.plog(-7.0, -2.0) };
    p.set_tolerances(t, r, if m == Rk::Radau5 { Some(0.01) } else { None }).unwrap();
    g.show("tolerances", &(t, r));
    if g.chance(3, 4) {
        p.step.m_min = g.uni(0.05, 0.49);
        p.step.m_max = if g.bool() { g.uni(1.2, 3.0) } else { g.uni(1.2, 15.0) };
    }
    if g.bool() {
        p.step.m_safety = g.uni(0.5, 1.0);
    }
    if g.bool() {
        p.step.m_first_reject = if g.chance(1, 3) { 0.0 } else { g.uni(0.05, 0.9) };
    }
    p.step.h_ini = if g.chance(1, 4) { 100.0 } else { g.plog(-3.0, 0.5) };
    if m != Rk::Radau5 && g.bool() {
        p.erk.lund_beta = g.uni(0.0, 0.05);
        p.erk.lund_m = g.uni(0.0, 1.0);
    }
    if m == Rk::Radau5 {
        p.radau5.concurrent = g.chance(1, 8);
        if g.bool() {
            p.radau5.use_pred_control = false;
        }
        if g.bool() {
            p.radau5.c1h = g.uni(0.9, 1.0);
            p.radau5.c2h = g.uni(1.0, 1.5) + 1e-3;
        }
    }
    (p, m, t, r)
}

fn show(g: &mut G, p: &Params) {
    g.show("m_min, m_max, safety, first reject, h_ini, rel_error_prev_min", &(p.step.m_min, p.step.m_max, p.step.m_safety, p.step.m_first_reject, p.step.h_ini, p.step.rel_error_prev_min));
    g.show("lund", &(p.erk.lund_beta, p.erk.lund_m));
    g.show("radau5: predictive, c1h, c2h", &(p.radau5.use_pred_control, p.radau5.c1h, p.radau5.c2h));
}

fn problem(g: &mut G, m: Rk) -> ode::Prob {
    let stiff = if m == Rk::Radau5 && g.bool() { 3.0 } else { 0.0 };
    ode::prob(g, 3, (0.2, 3.0), stiff, 0)
}

fn limits(g: &mut G) -> R {
    let (mut pa, method, _, _) = settings(g);
    pa.step.n_step_max = 3000;
    let p = problem(g, method);
    show(g, &pa);
    let erk = method != Rk::Radau5;
    let t = trace("limits:panic", &p, pa, 0)?;
    if t.rows.len() > 3 {
        g.hit();
    }
    if let Err(e) = &t.result {
        ensure!(!erk || e == "variable stepping did not converge", "limits:error", "{}", e);
        g.class("error");
    }
    let s = &pa.step;
    let first = s.h_ini.min(p.x1 - p.x0);
    let eps = 1e-12;
    ensure!(!t.rows.is_empty() && t.rows[0].x == p.x0, "limits:initial", "the first output is {:?}", t.rows.get(0));
    ensure!(t.rows[0].h == first, "limits:initial", "the first step size is {} instead of {}", t.rows[0].h, first);
    for k in 1..t.rows.len() {
        let (a, b) = (&t.rows[k - 1], &t.rows[k]);
        let left = p.x1 - a.x;
        let want = if k == 1 { first } else { a.next }.min(left);
        let tries = b.steps - a.steps;
        ensure!(tries >= 1, "limits:tries", "no step between the outputs {} and {}", k - 1, k);
        ensure!((a.x + b.h - b.x).abs() <= 1e-14 * (1.0 + b.x.abs()), "limits:x", "x = {} after a step of {} from {}", b.x, b.h, a.x);
        if tries == 1 {
            ensure!((b.h - want).abs() <= eps * want, "limits:suggested", "step {} has size {} but {} was suggested with {} left", k, b.h, a.next, left);
        } else {
            g.class("rejected");
            ensure!(b.h < want, "limits:reject", "step {} has size {} after {} rejections but {} was tried first", k, b.h, tries - 1, want);
            if erk && k == 1 && s.m_first_reject > 0.0 {
                g.class("first step rejected");
                let w = want * s.m_first_reject.powi(tries as i32 - 1);
                ensure!((b.h - w).abs() <= eps * w, "limits:first", "the first step has size {} after {} rejections instead of {}", b.h, tries - 1, w);
            } else if erk {
                let w = want * s.m_min.powi(tries as i32 - 1);
                ensure!(b.h >= w * (1.0 - eps), "limits:min", "step {} has size {} after {} rejections of {} although the multiplier is not below {}", k, b.h, tries - 1, want, s.m_min);
            }
        }
        let q = b.next / b.h;
        ensure!(q >= s.m_min * (1.0 - eps), "limits:min", "the multiplier is {} after step {} with the limit {}", q, k, s.m_min);
        let last = k + 1 == t.rows.len();
        if erk || !last {
            ensure!(q <= s.m_max * (1.0 + eps), "limits:max", "the multiplier is {} after step {} with the limit {}", q, k, s.m_max);
        }
        if tries > 1 && (erk || !last) {
            ensure!(q <= 1.0 + eps, "limits:growth", "the step size grows from {} to {} after a rejection", b.h, b.next);
        }
        if q >= s.m_max * (1.0 - eps) {
            g.class("largest multiplier");
        }
    }
    Ok(())
}

fn budget(g: &mut G) -> R {
    let (mut pa, method, _, _) = settings(g);
    pa.step.n_step_max = 600;
    let p = problem(g, method);
    show(g, &pa);
    let t = trace("budget:panic", &p, pa, 0)?;
    if t.result.is_err() {
        discard!();
    }
    g.hit();
    let n = t.stats.n_steps;
    let max = match g.us(0, 2) {
        0 => n,
        1 => n + g.us(1, 5),
        _ => g.us(1, n),
    };
    g.show("steps needed and allowed", &(n, max));
    pa.step.n_step_max = max;
    let b = trace("budget:panic", &p, pa, 0)?;
    ensure!(b.stats.n_steps <= max, "budget:more", "{} steps are made but {} are allowed", b.stats.n_steps, max);
    if max >= n {
        ensure!(b.result.is_ok(), "budget:enough", "{} steps are needed and {} are allowed but the result is {:?}", n, max, b.result);
        ensure!(b.stats.n_steps == n, "budget:enough", "{} steps are made instead of {}", b.stats.n_steps, n);
    } else {
        ensure!(b.result.is_err(), "budget:few", "{} steps are needed and {} are allowed but there is no error", n, max);
        ensure!(b.stats.n_steps == max, "budget:few", "{} steps are made but {} are allowed and {} are needed", b.stats.n_steps, max, n);
    }
    Ok(())
}

fn scaling(g: &mut G) -> R {
    let (mut pa, method, abs, rel) = settings(g);
    let erk = method != Rk::Radau5;
    pa.step.m_min = 0.01;
    pa.step.m_max = 20.0;
    pa.step.m_first_reject = 0.0;
    pa.step.n_step_max = 50;
    if pa.step.h_ini > 1.0 {
        pa.step.h_ini = 0.3;
    }
    if !erk {
        pa.radau5.c1h = 1.49;
        pa.radau5.c2h = 1.5;
    }
    let p = problem(g, method);
    show(g, &pa);
    let mut pb = pa;
    let q = method.information().order_of_estimator as f64;
    let (what, factor);
    match g.us(0, if erk { 2 } else { 1 }) {
        0 => {
            pb.step.m_safety = g.uni(0.3, 1.0);
            what = "safety factor";
            factor = pb.step.m_safety / pa.step.m_safety;
        }
        1 => {
            // the tolerances of the implicit method are raised to 2/3
            let c = g.uni(1.1, 4.0);
            pb.set_tolerances(abs * c, rel * c, if erk { None } else { Some(0.01) }).unwrap();
            let e = if erk { 1.0 / (q + 1.0) - pa.erk.lund_beta * pa.erk.lund_m } else { 0.25 * 2.0 / 3.0 };
            what = "tolerance";
            factor = c.powf(e);
        }
        _ => {
            pb.step.rel_error_prev_min = pa.step.rel_error_prev_min * g.uni(0.01, 100.0);
            if pa.erk.lund_beta == 0.0 {
                pa.erk.lund_beta = 0.04;
                pb.erk.lund_beta = 0.04;
            }
            what = "previous error";
            factor = (pb.step.rel_error_prev_min / pa.step.rel_error_prev_min).powf(pa.erk.lund_beta);
        }
    }
    g.class(what);
    g.show("change", &(what, factor));
    let a = trace("scaling:panic", &p, pa, 2)?;
    let b = trace("scaling:panic", &p, pb, 2)?;
    if a.rows.len() < 2 || b.rows.len() < 2 {
        discard!();
    }
    let (ra, rb) = (&a.rows[1], &b.rows[1]);
    if ra.steps != rb.steps || ra.steps > if erk { 2 } else { 1 } || a.nf != b.nf {
        discard!();
    }
    let (ha, hb) = if ra.steps == 1 {
        if ra.h != rb.h {
            return fail("scaling:first", format!("the first steps have sizes {} and {}", ra.h, rb.h));
        }
        (ra.next, rb.next)
    } else {
        // the second attempt has the size of the suggestion after the rejection
        g.class("after a rejection");
        (ra.h, rb.h)
    };
    let (qa, qb) = if ra.steps == 1 { (ha / ra.h, hb / rb.h) } else { (ha / a.rows[0].h, hb / b.rows[0].h) };
    for v in [qa, qb] {
        if v < 0.0101 || v > 19.9 || (!erk && (v == 1.0 || (v > 1.48 && v < 1.51))) {
            discard!();
        }
    }
    if erk {
        // errors below 1e-10 are not distinguished
        let prev = |p: &Params| if ra.steps == 1 { p.step.rel_error_prev_min.powf(p.erk.lund_beta) } else { 1.0 };
        let e = 1.0 / (q + 1.0) - pa.erk.lund_beta * pa.erk.lund_m;
        for (p, v) in [(&pa, qa), (&pb, qb)] {
            if v >= 0.999 * p.step.m_safety * 1e10f64.powf(e) * prev(p) {
                discard!();
            }
        }
    }
    g.hit();
    let want = if ra.steps == 2 && what == "previous error" { 1.0 } else { factor };
    // the error of a step of tiny error is subject to rounding
    let tol = 1e-9;
    ensure!((qb / qa - want).abs() <= tol * want, "scaling:factor", "the multipliers are {} and {} with the quotient {} instead of {}", qa, qb, qb / qa, want);
    Ok(())
}

fn continuation(g: &mut G) -> R {
    let fold = g.bool();
    let method = if g.bool() { Method::Arclength } else { Method::Natural };
    let arc = method == Method::Arclength;
    let mut c = curve(g, fold, false);
    c.hooks = true;
    let mut cfg = config(g, method);
    cfg.set_n_step_max(40);
    if g.chance(1, 3) {
        cfg.set_n_iteration_max(g.us(2, 4));
    }
    if g.chance(1, 4) {
        cfg.set_tg_control_rdiff_min(g.plog(-6.0, -1.0));
        cfg.set_tg_control_rho_for_tiny_rdiff(g.f(0.5, 2.5));
    }
    if g.chance(1, 4) {
        cfg.set_tg_control_pid_vcc(false);
        cfg.set_tg_control_beta1(g.f(0.1, 1.0));
        cfg.set_tg_control_beta2(g.f(-0.2, 0.5));
        cfg.set_tg_control_beta3(g.f(-0.2, 0.5));
        cfg.set_tg_control_alpha2(g.f(-0.5, 0.5));
        cfg.set_tg_control_alpha3(g.f(-0.5, 0.5));
    }
    let w0 = g.f(-2.0, 2.0);
    let (d, m) = tangent(&c, w0);
    if arc && (m.abs() < 0.02 || d.iter().all(|x| x.abs() < 1e-3)) {
        discard!();
    }
    if !arc && fold && c.p.d(w0).abs() < 0.05 {
        discard!();
    }
    let dir = if g.bool() { IniDir::Pos } else { IniDir::Neg };
    let s = if dir == IniDir::Pos { 1.0 } else { -1.0 };
    let ddl = g.plog(-2.0, 0.0);
    let n = g.us(2, 12);
    let mut rule = Rule::Steps(n);
    if arc && g.chance(1, 3) {
        // a state beyond the target is repeated with a smaller step
        g.class("precise stop");
        cfg.set_enable_precise_stop_u_comp(true);
        let i = g.us(0, c.n - 1);
        let t = g.f(0.05, 1.5);
        let v = c.at(w0).0[i];
        rule = if d[i] * m * s > 0.0 { Rule::MaxCompU(i, v + t) } else { Rule::MinCompU(i, v - t) };
    }
    g.show("curve", &c);
    g.show("run: method, start, direction, first, stop", &(method, w0, dir, ddl, rule));
    crate::util::settings(g, &cfg);
    let mut log = Log::new();
    if g.chance(1, 3) {
        // some steps are rejected by the update
        log.fault = Some((3, g.us(0, 12)));
        log.again = *g.pick(&[0, 0, 1, 2]);
        g.show("update fails at call", &(log.fault, log.again));
    }
    let mut sv = must("continuation:new", "solver", Solver::new(&cfg, c.system()))?;
    let (u0, l0) = c.at(w0);
    let run = solve("continuation:panic", &mut sv, log, &u0, l0, dir, rule, &DeltaLambda::auto(ddl), c.n)?;
    let st = match &run.status {
        Ok(s) => s.clone(),
        Err(_) => {
            discard!();
        }
    };
    if st.failure() {
        g.class("failure");
    }
    // residual evaluations of the attempt that was accepted
    let mut evals = Vec::new();
    let mut e = 0;
    // and the state from which its iterations started
    let mut guesses = Vec::new();
    let mut guess = (Vec::new(), 0.0);
    for x in &run.log.ev {
        match x {
            Ev::Update(true, _, b, _, y) => {
                e = 0;
                guess = (b.clone(), *y);
            }
            Ev::F(..) => e += 1,
            Ev::Out(..) => {
                evals.push(e);
                guesses.push(guess.clone());
            }
            _ => (),
        }
    }
    let rows = run.outs();
    let (mut r1, mut r2, mut h1, mut h2) = (0.0, 0.0, 0.0, 0.0);
    let mut predicted = 0;
    for k in 1..rows.len() {
        let (_, na, rej, h, l, u) = &rows[k];
        let (_, _, rej0, h0, l0, v) = &rows[k - 1];
        let r = rej - rej0;
        let used = h0 * cfg.get_m_failure().powi(r as i32);
        if arc {
            // the iterations start on the tangent
            let (b, y) = &guesses[k];
            let along = (0..c.n).fold((y - l0) * run.dlds[k - 1], |a, i| a + (b[i] - v[i]) * run.duds[i][k - 1]);
            let size = (0..c.n).fold(1.0 + l0.abs(), |a, i| a.max(v[i].abs()));
            for i in 0..=c.n {
                let (q, p, t) = if i < c.n { (b[i], v[i], run.duds[i][k - 1]) } else { (*y, *l0, run.dlds[k - 1]) };
                ensure!((q - p - along * t).abs() <= 1e-9 * (size + along.abs()), "continuation:guess", "step {} starts at {:?}, {} on the tangent through {:?}, {}", k, b, y, v, l0);
            }
        }
        if let Rule::MaxCompU(i, x) | Rule::MinCompU(i, x) = rule {
            let end = v[i] + h0 * run.duds[i][k - 1];
            let beyond = if matches!(rule, Rule::MaxCompU(..)) { end > x - 1e-6 } else { end < x + 1e-6 };
            if beyond {
                // truncated by the target
                break;
            }
            if r > 0 {
                g.class("repeated before the target");
            }
        }
        ensure!(*na == k, "continuation:count", "{} accepted steps at output {}", na, k);
        // size of the step
        if arc {
            let t: f64 = (0..c.n).fold((l - l0) * run.dlds[k - 1], |a, i| a + (u[i] - v[i]) * run.duds[i][k - 1]);
            let tol = 10.0 * cfg.get_tol_abs_residual() + 1e-9 * used;
            ensure!((t - used).abs() <= tol, "continuation:size", "step {} covers {} along the tangent instead of {} after {} failures", k, t, used, r);
        } else {
            ensure!((l - l0 - s * used).abs() <= 1e-12 * (1.0 + l.abs()), "continuation:size", "step {} covers {} instead of {} after {} failures", k, l - l0, used, r);
        }
        // change of the tangent
        let tol = cfg.get_tg_control_tol();
        let q: Vec<f64> = if arc {
            (0..=c.n)
                .filter_map(|i| {
                    let (a, b) = if i < c.n { (run.duds[i][k - 1], run.duds[i][k]) } else { (run.dlds[k - 1], run.dlds[k]) };
                    if a.abs() > 1e-10 { Some((b - a).abs() / a.abs()) } else { None }
                })
                .collect()
        } else if k > 1 {
            let z = &rows[k - 2].5;
            (0..c.n)
                .filter_map(|i| {
                    let a = (u[i] - v[i]).abs();
                    if a > 1e-10 { Some((u[i] - 2.0 * v[i] + z[i]).abs() / a) } else { None }
                })
                .collect()
        } else {
            vec![]
        };
        let average = arc && cfg.get_tg_control_rdiff_type() == RdiffType::Ave;
        let raw = if q.is_empty() {
            0.0
        } else if average {
            q.iter().sum::<f64>() / q.len() as f64 / tol
        } else {
            q.iter().fold(0.0f64, |a, b| a.max(*b)) / tol
        };
        let min = cfg.get_tg_control_rdiff_min();
        if (raw - min).abs() < 1e-9 * min {
            return Ok(());
        }
        let rd = if raw < min { 0.0 } else { raw };
        let mut known = true;
        let rho = if !cfg.get_tg_control_enabled() {
            1.0
        } else if rd == 0.0 {
            g.class("tiny change");
            cfg.get_tg_control_rho_for_tiny_rdiff()
        } else if cfg.get_tg_control_pid_vcc() {
            let mut x = (1.0 / rd).powf(0.175);
            if k > 1 {
                known = known && r1 > 0.0;
                x *= (r1 / rd).powf(0.075);
            }
            if k > 2 && r2 > 0.0 {
                x *= (r1 * r1 / (rd * r2)).powf(0.01);
            }
            x
        } else {
            let mut x = (1.0 / rd).powf(cfg.get_tg_control_beta1());
            if k > 1 && r1 > 0.0 {
                x *= (1.0 / r1).powf(cfg.get_tg_control_beta2()) * (used / h1).powf(-cfg.get_tg_control_alpha2());
            }
            if k > 2 && r2 > 0.0 {
                x *= (1.0 / r2).powf(cfg.get_tg_control_beta3()) * (h1 / h2).powf(-cfg.get_tg_control_alpha3());
            }
            // no statement about zero changes
            known = (k < 2 || r1 > 0.0) && (k < 3 || r2 > 0.0);
            x
        };
        r2 = r1;
        r1 = rd;
        h2 = h1;
        h1 = used;
        ensure!(r == 0 || *h <= used * (1.0 + 1e-12), "continuation:growth", "the step size grows from {} to {} after a failure", used, h);
        ensure!(*h >= used * 0.2146 && *h <= used * 2.571, "continuation:limits", "the step size changes from {} to {}", used, h);
        if !known {
            g.class("not predicted");
            continue;
        }
        predicted += 1;
        let guess = |it: usize| {
            let ksi = if cfg.get_nr_control_enabled() { (cfg.get_nr_control_n_opt() as f64 / it.max(1) as f64).powf(cfg.get_nr_control_beta()) } else { 1.0 };
            let w = used * (1.0 + (ksi * rho - 1.0).atan());
            if r > 0 { w.min(used) } else { w }
        };
        let e = evals[k];
        let w = guess(e.max(1) - 1);
        ensure!((h - w).abs() <= 1e-8 * w, "continuation:next", "the step size changes from {} to {} instead of {} (step {}, {} residuals, {} failures, change {})", used, h, w, k, e, r, rd);
        if r > 0 {
            g.class("after a failure");
        }
    }
    if predicted >= 2 {
        g.hit();
    }
    Ok(())
}
