//! Call protocol, counters, records, reuse and refusals of the continuation solver.
use crate::util::*;
use russell_lab::{Norm, Vector};
use russell_nonlin::*;
use russell_sparse::{CooMatrix, Genie, Sym};
use vp_engine::*;

type Rule = russell_nonlin::Stop;
type Halt = vp_engine::Stop;

pub fn property() -> Property {
    Property {
        id: "C32",
        assumptions: &[
            "the callback sees accepted states before they are recorded; a state at which the callback stops the run is not recorded",
            "a step that ends the run with a failure status may or may not restore the external state",
            "the linear solution of the Euler predictor in the natural method is not counted",
        ],
        laws: vec![
            Law {
                name: "protocol",
                quick: 150000,
                rule: "two steps or more, or a fault",
                f: protocol,
            },
            Law {
                name: "again",
                quick: 60000,
                rule: "every case",
                f: again,
            },
            Law {
                name: "settings",
                quick: 60000,
                rule: "every case",
                f: kept,
            },
            Law {
                name: "refuse",
                quick: 100000,
                rule: "every case",
                f: refuse,
            },
        ],
    }
}

pub struct Job {
    pub c: Curve,
    pub method: Method,
    pub w0: f64,
    pub dir: IniDir,
    pub stop: Rule,
    pub ddl: DeltaLambda,
    pub is_auto: bool,
}

pub fn settings_for(g: &mut G, method: Method, sym: Sym) -> Config {
    let mut cfg = config(g, method);
    if method == Method::Arclength && sym != Sym::No {
        cfg.set_bordering(true);
    }
    cfg.set_n_step_max(g.us(1, 60));
    if g.bool() {
        cfg.set_n_iteration_max(g.us(1, 6));
    }
    if g.chance(1, 3) {
        cfg.set_delta_max_allowed(g.f(0.05, 2.0));
    }
    if g.bool() {
        cfg.set_n_cont_failure_max(g.us(1, 8));
    }
    if g.chance(1, 3) {
        cfg.set_enable_precise_stop_u_comp(true);
    }
    if g.chance(1, 4) {
        cfg.set_n_cont_residual_divergence_max(g.us(1, 3));
        cfg.set_n_cont_delta_divergence_max(g.us(1, 3));
    }
    cfg
}

pub fn job(g: &mut G, c: &Curve, method: Method) -> Result<Job, Halt> {
    let w0 = g.f(-2.0, 2.0);
    let (d, m) = tangent(c, w0);
    if method == Method::Arclength && (m.abs() < 0.02 || d.iter().all(|x| x.abs() < 1e-3)) {
        discard!();
    }
    if method == Method::Natural && c.q.is_some() && c.p.d(w0).abs() < 0.05 {
        discard!();
    }
    let dir = if g.bool() { IniDir::Pos } else { IniDir::Neg };
    let s = if dir == IniDir::Pos { 1.0 } else { -1.0 };
    let (u0, l0) = c.at(w0);
    let t = g.f(0.1, 2.0);
    let i = g.us(0, c.n - 1);
    let stop = match g.us(0, 3) {
        0 => Rule::Steps(g.us(1, 12)),
        1 => {
            if s > 0.0 {
                Rule::MaxLambda(l0 + t)
            } else {
                Rule::MinLambda(l0 - t)
            }
        }
        2 => {
            // towards the side where the component goes
            if d[i] * m * s > 0.0 {
                Rule::MaxCompU(i, u0[i] + t)
            } else {
                Rule::MinCompU(i, u0[i] - t)
            }
        }
        _ => Rule::MaxNormU(t, *g.pick(&[Norm::Euc, Norm::Max, Norm::One]), i, c.n),
    };
    let h = g.plog(-2.0, 0.0);
    let is_auto = g.chance(2, 3);
    let ddl = if is_auto {
        DeltaLambda::auto(h)
    } else if g.bool() {
        DeltaLambda::constant(h)
    } else {
        let mut v = vec![h];
        for _ in 0..g.us(0, 6) {
            v.push(g.plog(-2.0, 0.0));
        }
        DeltaLambda::list(&v)
    };
    Ok(Job { c: c.clone(), method, w0, dir, stop, ddl, is_auto })
}

pub fn show(g: &mut G, name: &str, j: &Job) {
    g.show(name, &(j.method, j.w0, j.dir, j.stop, &j.ddl));
}

pub fn any_curve(g: &mut G) -> (Curve, Method) {
    let fold = g.bool();
    let method = if g.bool() { Method::Arclength } else { Method::Natural };
    let symmetric = !fold && g.chance(1, 4);
    (curve(g, fold, symmetric), method)
}

fn protocol(g: &mut G) -> R {
    let (mut c, method) = any_curve(g);
    c.hooks = true;
    let cfg = settings_for(g, method, c.sym);
    let j = job(g, &c, method)?;
    let mut log = Log::new();
    if g.bool() {
        let kind = *g.pick(&[3, 3, 3, 4, 5, 6]);
        log.fault = Some((kind, g.us(0, 12)));
        log.again = *g.pick(&[0, 1, 2, 5, 20]);
        g.show("fault (3 update fails, 4 update ends, 5 output ends, 6 NaN) at call", &(log.fault, log.again));
    }
    let fault = log.fault;
    let more = log.again;
    g.show("curve", &c);
    show(g, "run", &j);
    settings(g, &cfg);
    let mut s = must("protocol:new", "solver", Solver::new(&cfg, c.system()))?;
    let (u0, l0) = c.at(j.w0);
    let run = solve("protocol:panic", &mut s, log, &u0, l0, j.dir, j.stop, &j.ddl, c.n)?;
    check(g, &j, &cfg, &run, fault, more)
}

/// reads the events of a run
struct Reader<'a> {
    ev: &'a [Ev],
    i: usize,
}

impl<'a> Reader<'a> {
    fn peek(&self) -> Option<&'a Ev> {
        self.ev.get(self.i)
    }
    fn next(&mut self) -> Option<&'a Ev> {
        self.i += 1;
        self.ev.get(self.i - 1)
    }
    fn j(&self) -> bool {
        matches!(self.peek(), Some(Ev::J(..)))
    }
    fn unexpected<T>(&self, what: &str) -> Result<T, Halt> {
        let from = self.i.saturating_sub(4);
        let to = (self.i + 1).min(self.ev.len());
        fail("protocol:order", format!("expected {} as event {} but the sequence is {:?}", what, self.i, &self.ev[from..to]))
    }
}

fn check(g: &mut G, j: &Job, cfg: &Config, run: &Run, fault: Option<(usize, usize)>, more: usize) -> R {
    let faulty = |kind: usize, call: usize| matches!(fault, Some((k, m)) if k == kind && call >= m && call <= m + more);
    let c = &j.c;
    let mut r = Reader { ev: &run.log.ev, i: 0 };
    let (mut u, mut l) = c.at(j.w0);
    let arc = j.method == Method::Arclength;
    let st = &run.stats;
    let status = match &run.status {
        Ok(s) => s.clone(),
        Err(e) => {
            // singular matrices and the like
            g.class("error");
            let allowed = ["Error(1): Matrix is singular", "duds[i] is too small", "too small", "is zero", "singular", "NaN", "not finite", "INTERNAL", "vector contains"];
            ensure!(allowed.iter().any(|a| e.contains(a)), "protocol:error", "error {:?}", e);
            return Ok(());
        }
    };
    // initial tangent and state
    if arc {
        match r.next() {
            Some(Ev::J(a, b)) if *a == l && *b == u => (),
            _ => {
                r.i -= 1;
                return r.unexpected("the Jacobian at the initial state");
            }
        }
    }
    let (mut steps, mut accepted, mut rejected, mut f_calls, mut j_calls, mut up_calls, mut outs, mut row) = (0, 0, 0, 0, arc as usize, 0, 0, 0);
    let (mut iter_j, mut converged, mut solved, mut unsure, mut open) = (0, 0, Vec::new(), 0, 0);
    let mut first = true;
    match r.next() {
        Some(Ev::Out(0, 0, 0, _, a, b)) if *a == l && *b == u => outs += 1,
        _ => {
            r.i -= 1;
            return r.unexpected("the output of the initial state");
        }
    }
    let mut ended = faulty(5, 0);
    let mut why = if ended { Some(Status::Success) } else { None };
    while !ended {
        if r.peek().is_none() {
            break;
        }
        if j.is_auto {
            match r.next() {
                Some(Ev::Backup) => (),
                _ => {
                    r.i -= 1;
                    return r.unexpected("a backup");
                }
            }
        }
        match r.next() {
            Some(Ev::Prepare) => steps += 1,
            _ => {
                r.i -= 1;
                return r.unexpected("the preparation of iterations");
            }
        }
        if !arc && cfg.get_euler_predictor() && first {
            match r.next() {
                Some(Ev::J(_, b)) if *b == u => j_calls += 1,
                _ => {
                    r.i -= 1;
                    return r.unexpected("the Jacobian of the predictor");
                }
            }
        }
        first = false;
        // predictor
        let (mut u1, mut l1);
        match r.next() {
            Some(Ev::Update(true, a, b, x, y)) if *a == u && *x == l => {
                u1 = b.clone();
                l1 = *y;
            }
            _ => {
                r.i -= 1;
                return r.unexpected("the update at the predictor from the last accepted state");
            }
        }
        let mut failed = None;
        let mut fatal = false;
        if faulty(3, up_calls) {
            failed = Some(Status::SecondaryUpdateError(FAULT));
        } else if faulty(4, up_calls) {
            failed = Some(Status::SecondaryUpdateTerminate);
            fatal = true;
        }
        up_calls += 1;
        let mut n_f = 0;
        let mut had_j = false;
        let mut maybe = false;
        let mut res = Vec::new();
        if failed.is_none() {
            loop {
                match r.peek() {
                    Some(Ev::F(a, b)) if *a == l1 && *b == u1 => (),
                    Some(Ev::F(..)) => return r.unexpected(&format!("the function at the updated state {:?}", (l1, &u1))),
                    _ if n_f > 0 => break,
                    _ => return r.unexpected("the function at the predictor"),
                }
                r.i += 1;
                n_f += 1;
                res.push(c.residual(&u1, l1).iter().fold(0.0f64, |a, b| a.max(b.abs())));
                f_calls += 1;
                ensure!(n_f <= cfg.get_n_iteration_max(), "protocol:iterations", "{} iterations", n_f);
                if faulty(6, f_calls - 1) {
                    failed = Some(Status::NanOrInfResidual);
                    fatal = true;
                    break;
                }
                // Jacobian of the iteration; a Jacobian right before the output belongs to the tangent vector
                if !r.j() {
                    break;
                }
                if let Some(Ev::J(a, b)) = r.peek() {
                    ensure!(*a == l1 && *b == u1, "protocol:order", "the Jacobian is computed at {:?} after the function at {:?}", (a, b), (l1, &u1));
                }
                if arc && !had_j && *res.last().unwrap() < cfg.get_tol_abs_residual() && !matches!(r.ev.get(r.i + 1), Some(Ev::Update(..))) && matches!(r.ev.get(r.i + 1), Some(Ev::Out(..)) | Some(Ev::Restore) | None) {
                    // the Jacobian belongs to the tangent vector if the constraint is satisfied as well
                    let mut part_of_iteration = false;
                    if row == 0 && matches!(j.stop, Rule::Steps(_) | Rule::MaxNormU(..)) {
                        let k = accepted;
                        let h = run.h[k];
                        let nn = (0..c.n).fold((l1 - l) * run.dlds[k], |a, i| a + (u1[i] - u[i]) * run.duds[i][k]) - h;
                        if nn.abs() > 1.1 * cfg.get_tol_abs_residual() + 1e-14 {
                            part_of_iteration = true;
                        } else if nn.abs() > 0.9 * cfg.get_tol_abs_residual() - 1e-14 {
                            open += 1;
                            maybe = true;
                        }
                    } else {
                        open += 1;
                        maybe = true;
                    }
                    if !part_of_iteration {
                        break;
                    }
                }
                r.i += 1;
                j_calls += 1;
                iter_j += 1;
                had_j = true;
                match r.peek() {
                    Some(Ev::Update(false, a, b, x, y)) => {
                        ensure!(*a == u && *x == l, "protocol:order", "the update starts at {:?} but the last accepted state is {:?}", (x, a), (l, &u));
                        r.i += 1;
                        u1 = b.clone();
                        l1 = *y;
                        let call = up_calls;
                        up_calls += 1;
                        if faulty(3, call) {
                            failed = Some(Status::SecondaryUpdateError(FAULT));
                            break;
                        }
                        if faulty(4, call) {
                            failed = Some(Status::SecondaryUpdateTerminate);
                            fatal = true;
                            break;
                        }
                    }
                    _ => break,
                }
            }
        }
        // tangent vector
        let mut extra_j = false;
        if arc && failed.is_none() && !had_j && r.j() {
            r.i += 1;
            j_calls += 1;
            extra_j = true;
        }
        // outcome
        match r.peek() {
            Some(Ev::Out(a, b, e, h, x, y)) => {
                r.i += 1;
                ensure!(failed.is_none(), "protocol:accept", "a step is accepted after {:?}", failed);
                ensure!(!arc || had_j || extra_j, "protocol:order", "no Jacobian for the tangent vector at step {}", steps);
                ensure!(*x == l1 && *y == u1, "protocol:accept", "accepted state {:?} but the last evaluated one is {:?}", (x, y), (l1, &u1));
                accepted += 1;
                converged += 1;
                solved.push(res.clone());
                ensure!(*a == steps && *b == accepted && *e == rejected, "protocol:callback", "the callback sees (steps, accepted, rejected) = {:?}, expected {:?}", (a, b, e), (steps, accepted, rejected));
                ensure!(h.is_finite(), "protocol:h", "step length {}", h);
                row = 0;
                l = l1;
                u = u1;
                if faulty(5, outs) {
                    ended = true;
                    why = Some(Status::Success);
                }
                outs += 1;
            }
            Some(Ev::Restore) => {
                r.i += 1;
                ensure!(j.is_auto, "protocol:restore", "restored with fixed steps");
                ensure!(!fatal, "protocol:restore", "the run continues after {:?}", failed);
                rejected += 1;
                row += 1;
                ensure!(row < cfg.get_n_cont_failure_max(), "protocol:failures", "{} failures in a row", row);
                if !extra_j && failed.is_none() && cfg.get_enable_precise_stop_u_comp() && beyond(j, &u1) {
                    // converged beyond the target or not converged
                    unsure += 1;
                }
                if extra_j && maybe && !cfg.get_enable_precise_stop_u_comp() {
                    // the Jacobian belonged to a failed iteration
                    iter_j += 1;
                    open -= 1;
                } else if extra_j {
                    converged += 1;
                    solved.push(res.clone());
                    ensure!(cfg.get_enable_precise_stop_u_comp(), "protocol:reject", "a converged step is rejected");
                }
            }
            None => {
                ended = true;
                if status.success() {
                    return r.unexpected("an accepted or rejected step");
                }
                if fatal || !j.is_auto {
                    why = failed.clone();
                } else if row + 1 >= cfg.get_n_cont_failure_max() {
                    why = Some(Status::ContinuedFailure);
                    if extra_j {
                        converged += 1;
                        solved.push(res.clone());
                    } else if failed.is_none() && cfg.get_enable_precise_stop_u_comp() && beyond(j, &u1) {
                        unsure += 1;
                    }
                } else if failed.is_none() {
                    ensure!(matches!(status, Status::NanOrInfDelta | Status::NanOrInfResidual), "protocol:status", "the run ends with {:?} without further attempts", status);
                } else {
                    return r.unexpected("a restored state");
                }
                if let (Some(f), false) = (&failed, j.is_auto) {
                    ensure!(status == *f, "protocol:status", "status {:?}, expected {:?}", status, f);
                }
            }
            _ => return r.unexpected("an output or a restored state"),
        }
    }
    if r.i < r.ev.len() {
        return r.unexpected("the end of the run");
    }
    if let Some(w) = why {
        ensure!(status == w, "protocol:status", "status {:?}, expected {:?}", status, w);
    }
    ensure!(run.l == l && run.u == u, "protocol:state", "final state {:?} but the last accepted one is {:?}", (run.l, &run.u), (l, &u));
    if status.success() && !faulty(5, outs - 1) {
        ensure!(accepted > 0, "protocol:state", "success without accepted steps");
    }
    // counters
    let tally = |what: &str, a: usize, b: usize| -> R {
        ensure!(a == b, "protocol:counter", "{} = {} but {} were made", what, a, b);
        Ok(())
    };
    tally("function evaluations", st.n_function, f_calls)?;
    tally("iterations", st.n_iteration_total, f_calls)?;
    tally("Jacobian evaluations", st.n_jacobian, j_calls)?;
    tally("factorizations", st.n_factor, j_calls)?;
    tally("steps", st.n_steps, steps)?;
    tally("accepted steps", st.n_accepted, accepted)?;
    tally("rejected steps", st.n_rejected, rejected)?;
    let n_sol = if !arc {
        iter_j
    } else if cfg.get_bordering() {
        1 + 2 * iter_j + converged
    } else {
        1 + iter_j + converged
    };
    if cfg.get_bordering() {
        open *= 2;
    }
    unsure += open;
    if unsure == 0 || !arc {
        tally("linear solutions", st.n_lin_sol, n_sol)?;
    } else {
        ensure!(st.n_lin_sol >= n_sol && st.n_lin_sol <= n_sol + unsure, "protocol:counter", "linear solutions = {} but {} to {} were made", st.n_lin_sol, n_sol, n_sol + unsure);
    }
    let text = st.summary();
    for (label, n) in [
        ("Number of function evaluations   = ", f_calls),
        ("Number of Jacobian evaluations   = ", j_calls),
        ("Number of accepted steps         = ", accepted),
        ("Number of rejected steps         = ", rejected),
        ("Number of performed steps        = ", steps),
    ] {
        ensure!(text.contains(&format!("{}{}\n", label, n)), "protocol:summary", "summary without {}{}", label, n);
    }
    // records
    let seen = run.outs();
    let m = if faulty(5, outs - 1) { seen.len() - 1 } else { seen.len() };
    ensure!(run.lam.len() == m && run.h.len() == m, "protocol:records", "{} records of {} states", run.lam.len(), m);
    if arc {
        ensure!(run.dlds.len() == m, "protocol:records", "{} tangent vectors of {} states", run.dlds.len(), m);
    }
    ensure!(run.norm.len() == m, "protocol:records", "{} norms of {} states", run.norm.len(), m);
    for k in 0..m {
        let part = seen[k].5[c.n / 2..].iter().map(|x| x * x).sum::<f64>().sqrt();
        same_rel("protocol:norm", "norm of part of u", run.norm[k], part, 1e-14, 1e-300)?;
        ensure!(run.lam[k] == seen[k].4 && (run.h[k] == seen[k].3), "protocol:records", "record {}: {:?} differs from the callback {:?}", k, (run.lam[k], run.h[k]), (seen[k].4, seen[k].3));
        for i in 0..c.n {
            ensure!(run.uu[i][k] == seen[k].5[i], "protocol:records", "record {} of component {} differs from the callback", k, i);
        }
    }
    if cfg.get_record_iterations_residuals() && steps > 0 && unsure == open && (open == 0 || (status.success() && !cfg.get_enable_precise_stop_u_comp())) {
        let Some(rec) = &st.iterations_residuals else { return fail("protocol:residuals", "no residuals recorded".to_string()) };
        ensure!(rec.len() == solved.len(), "protocol:residuals", "residuals of {} steps but {} converged", rec.len(), solved.len());
        for (k, (a, b)) in rec.iter().zip(&solved).enumerate() {
            ensure!(a.len() == b.len(), "protocol:residuals", "step {}: {} residuals of {} iterations", k, a.len(), b.len());
            for (x, y) in a.iter().zip(b) {
                ensure!(if arc { *x >= y * (1.0 - 1e-15) } else { x == y }, "protocol:residuals", "step {}: residual {} recorded as {}", k, y, x);
            }
        }
        let rates = st.get_convergence_rates(0.5, 3.0);
        let mut want = Vec::new();
        for e in rec {
            if let [.., a, b, d] = e[..] {
                let q = (d / b).ln() / (b / a).ln();
                if (0.5..=3.0).contains(&q) {
                    want.push(q);
                }
            }
        }
        ensure!(rates == want, "protocol:rates", "convergence rates {:?}, expected {:?}", rates, want);
    } else if !cfg.get_record_iterations_residuals() {
        ensure!(st.iterations_residuals.is_none() && st.get_convergence_rates(0.0, 9.0).is_empty(), "protocol:residuals", "residuals recorded without request");
    }
    if cfg.get_debug_predictor() {
        // one predictor per accepted step and per step that ended the run
        let n = run.guess.0.len();
        let tail = steps - accepted - rejected;
        ensure!(n == accepted + tail, "protocol:predictors", "{} predictors with {} accepted steps", n, accepted);
        let mut k = 0;
        let mut last: Option<(&Vec<f64>, f64)> = None;
        for e in &run.log.ev {
            match e {
                Ev::Update(true, _, b, _, y) => last = Some((b, *y)),
                Ev::Out(_, s, _, _, _, _) if *s > 0 => {
                    let (b, y) = last.unwrap();
                    ensure!(run.guess.0[k] == y && run.guess.1[k] == b[0] && (c.n < 2 || run.guess.2[k] == b[1]), "protocol:predictors", "predictor {} is {:?}, expected {:?}", k, (run.guess.0[k], run.guess.1[k]), (y, b));
                    k += 1;
                }
                _ => (),
            }
        }
    }
    match &status {
        Status::Success => (),
        Status::ContinuedFailure => g.class("continued failure"),
        Status::SmallStepsize => g.class("small stepsize"),
        _ => g.class("other failure"),
    }
    if rejected > 0 {
        g.class("rejected steps");
    }
    if steps >= 2 || fault.is_some() {
        g.hit();
    }
    Ok(())
}

fn beyond(j: &Job, u: &[f64]) -> bool {
    match j.stop {
        Rule::MinCompU(i, v) => u[i] < v - 1e-10,
        Rule::MaxCompU(i, v) => u[i] > v + 1e-10,
        _ => false,
    }
}

pub fn same(a: &Run, b: &Run) -> Result<(), String> {
    if a.status != b.status {
        return Err(format!("status {:?} instead of {:?}", a.status, b.status));
    }
    let bits = |v: &[f64]| v.iter().map(|x| x.to_bits()).collect::<Vec<_>>();
    if a.log.ev.len() != b.log.ev.len() {
        return Err(format!("{} events instead of {}", a.log.ev.len(), b.log.ev.len()));
    }
    for (k, (x, y)) in a.log.ev.iter().zip(&b.log.ev).enumerate() {
        if format!("{:?}", x) != format!("{:?}", y) {
            return Err(format!("event {}: {:?} instead of {:?}", k, x, y));
        }
    }
    if a.l.to_bits() != b.l.to_bits() || bits(&a.u) != bits(&b.u) {
        return Err(format!("state {:?} instead of {:?}", (a.l, &a.u), (b.l, &b.u)));
    }
    if bits(&a.h) != bits(&b.h) || bits(&a.dlds) != bits(&b.dlds) || a.duds.iter().zip(&b.duds).any(|(x, y)| bits(x) != bits(y)) {
        return Err("records differ".to_string());
    }
    let key = |s: &Stats| (s.n_function, s.n_jacobian, s.n_factor, s.n_lin_sol, s.n_steps, s.n_accepted, s.n_rejected, s.n_iteration_total, s.h_accepted.to_bits(), format!("{:?}", s.iterations_residuals));
    if key(&a.stats) != key(&b.stats) {
        return Err(format!("counters {:?} instead of {:?}", key(&a.stats), key(&b.stats)));
    }
    if a.guess != b.guess {
        return Err("predictor values differ".to_string());
    }
    Ok(())
}

fn again(g: &mut G) -> R {
    g.hit();
    let (mut c, method) = any_curve(g);
    c.hooks = g.bool();
    let mut cfg = settings_for(g, method, c.sym);
    let a = job(g, &c, method)?;
    let b = job(g, &c, method)?;
    let mut log = Log::new();
    if g.bool() {
        log.fault = Some((g.us(0, 6), g.us(0, 12)));
        g.show("fault in the first run", &log.fault);
    }
    g.show("curve", &c);
    show(g, "first run", &a);
    show(g, "second run", &b);
    settings(g, &cfg);
    let (ua, la) = c.at(a.w0);
    let (ub, lb) = c.at(b.w0);
    let mut fresh = must("again:new", "solver", Solver::new(&cfg, c.system().clone()))?;
    let want = solve("again:panic", &mut fresh, Log::new(), &ub, lb, b.dir, b.stop, &b.ddl, c.n)?;
    drop(fresh);
    let cfg0 = cfg.clone();
    let mut used = must("again:new", "solver", Solver::new(&cfg0, c.system()))?;
    solve("again:panic", &mut used, log, &ua, la, a.dir, a.stop, &a.ddl, c.n)?;
    let got = solve("again:panic", &mut used, Log::new(), &ub, lb, b.dir, b.stop, &b.ddl, c.n)?;
    if let Err(m) = same(&got, &want) {
        return fail("again:differs", format!("second run with the same solver: {}", m));
    }
    if g.chance(1, 8) {
        // a log file changes nothing
        let path = g.scratch.join("run.log");
        cfg.set_log_file(path.to_str().unwrap()).set_verbose(true, g.bool(), g.bool()).set_verbose_legend(g.bool()).set_verbose_header_footer(true);
        let mut loud = must("again:new", "solver", Solver::new(&cfg, c.system()))?;
        let got = solve("again:panic", &mut loud, Log::new(), &ub, lb, b.dir, b.stop, &b.ddl, c.n)?;
        if let Err(m) = same(&got, &want) {
            return fail("again:log", format!("run with a log file: {}", m));
        }
        if got.status.is_ok() && got.stats.n_steps > 0 {
            let text = must("again:file", "log file", std::fs::read_to_string(&path))?;
            ensure!(text.lines().count() >= got.stats.n_steps + 4, "again:file", "log with {} lines of {} steps", text.lines().count(), got.stats.n_steps);
        }
        let _ = std::fs::remove_file(&path);
    }
    Ok(())
}

fn refuse(g: &mut G) -> R {
    g.hit();
    let (c, method) = any_curve(g);
    let mut cfg = Config::new();
    cfg.set_method(method).set_verbose_header_footer(false);
    let which = g.us(0, 27);
    g.show("method, dimension, case", &(method, c.n, which));
    let bad = g.f(0.0, 1.0);
    if which < 14 {
        match which {
            0 => cfg.set_m_failure(0.000999 * bad),
            1 => cfg.set_n_step_max(0),
            2 => cfg.set_n_cont_failure_max(0),
            3 => cfg.set_n_cont_rejection_max(0),
            4 => cfg.set_tol_abs_residual(0.999e-12 * bad),
            5 => cfg.set_tol_abs_delta(0.999e-12 * bad),
            6 => cfg.set_tol_rel_delta(0.999e-12 * bad),
            7 => cfg.set_delta_max_allowed(-bad),
            8 => cfg.set_n_iteration_max(0),
            9 => cfg.set_n_cont_residual_divergence_max(0),
            10 => cfg.set_n_cont_delta_divergence_max(0),
            11 => cfg.set_nr_control_n_opt(0),
            12 => cfg.set_nr_control_beta(-bad),
            _ => cfg.set_tg_control_tol(0.999e-12 * bad),
        };
        match catch(|| Solver::new(&cfg, c.system()).err()) {
            Ok(Some(_)) => {}
            Ok(None) => return fail("refuse:config", format!("configuration case {} accepted", which)),
            Err((m, p)) => return fail("refuse:config", format!("panic: {} at {}", m, p)),
        }
        return Ok(());
    }
    let none = |_: &mut Vector, _: f64, _: &Vector, _: &mut Log| Ok(());
    let nonj = |_: &mut CooMatrix, _: &mut Vector, _: f64, _: &Vector, _: &mut Log| Ok(());
    match which {
        14 => {
            must_err("refuse:system", "system without equations", System::new(0, None, Sym::No, none, nonj).map(|_| ()))?;
            return must_err("refuse:system", "Jacobian without entries", System::new(g.us(1, 5), Some(0), Sym::No, none, nonj).map(|_| ()));
        }
        15 => {
            cfg.set_method(Method::Arclength).set_bordering(false);
            let n = g.us(1, 4);
            let sym = *g.pick(&[Sym::YesFull, Sym::YesLower, Sym::YesUpper]);
            let s = must("refuse:system", "system", System::new(n, None, sym, none, nonj))?;
            return must_err("refuse:symmetric", "augmented system of symmetric equations", Solver::new(&cfg, s).map(|_| ()));
        }
        16 => {
            // valid limits are accepted
            cfg.set_m_failure(0.001).set_tol_abs_residual(1e-12).set_tol_delta(1e-12, 1e-12).set_n_step_max(1).set_n_iteration_max(1).set_nr_control_n_opt(1).set_tg_control_tol(1e-12).set_genie(Genie::Umfpack);
            return must("refuse:valid", "smallest valid settings", Solver::new(&cfg, c.system()).map(|_| ()));
        }
        _ => (),
    }
    let w0 = g.f(-2.0, 2.0);
    let (u0, l0) = c.at(w0);
    let i = g.us(0, c.n - 1);
    let up = g.us(0, 3);
    let mut start = u0.clone();
    let mut ddl = DeltaLambda::auto(0.1);
    let mut fixed = None;
    let stop = match which {
        17 => Rule::MinCompU(c.n + up, u0[0] - 1.0),
        18 => Rule::MaxCompU(c.n + up, u0[0] + 1.0),
        19 => Rule::MinCompU(i, u0[i] + bad),
        20 => Rule::MaxCompU(i, u0[i] - bad),
        21 => Rule::MaxNormU(1.0, Norm::Euc, i + up, i),
        22 => Rule::MaxNormU(1.0, Norm::Euc, i, c.n + 1 + up),
        23 => Rule::MaxNormU(-bad, Norm::Max, i, c.n),
        24 => Rule::MinLambda(l0 + bad),
        25 => Rule::MaxLambda(l0 - bad),
        26 => {
            if g.bool() {
                Rule::Steps(0)
            } else {
                start = if g.bool() || c.n == 1 { vec![0.0; c.n + 1 + up] } else { u0[1..].to_vec() };
                Rule::Steps(1)
            }
        }
        _ => {
            let tiny = 1e-10 * bad;
            ddl = match g.us(0, 3) {
                0 => DeltaLambda::auto(tiny),
                1 => DeltaLambda::constant(tiny),
                2 => DeltaLambda::list(&[tiny, 0.1]),
                _ => {
                    fixed = Some(g.us(1, 3));
                    let mut v = vec![0.01; fixed.unwrap()];
                    v.push(tiny);
                    DeltaLambda::list(&v)
                }
            };
            Rule::Steps(20)
        }
    };
    g.show("curve, start, stop, increments", &(&c, &start, l0, stop, &ddl));
    if fixed.is_some() {
        let (d, m) = tangent(&c, w0);
        if m.abs() < 0.2 || d.iter().all(|x| x.abs() < 1e-3) {
            discard!();
        }
    }
    let mut s = must("refuse:new", "solver", Solver::new(&cfg, c.system()))?;
    let mut u = Vector::from(&start);
    let mut l = l0;
    let mut log = Log::new();
    let mut out = output(c.n);
    match catch(|| s.solve(&mut log, &mut u, &mut l, IniDir::Pos, stop, &ddl, Some(&mut out))) {
        Ok(Err(e)) => {
            ensure!(e != FUEL, "refuse:fuel", "the run does not end");
            if let Some(n) = fixed {
                let k = out.get_l_values().len();
                ensure!(k <= n + 1, "refuse:increment", "{} states with {} valid increments", k, n);
            } else {
                ensure!(u.as_data() == &start && l == l0, "refuse:state", "the state has changed");
                ensure!(log.count[0] == 0, "refuse:calls", "the function is called");
            }
        }
        Ok(Ok(st)) => {
            if fixed.is_some() && st.failure() {
                return Ok(());
            }
            return fail("refuse:solve", format!("status {:?} of an invalid request", st));
        }
        Err((m, p)) => return fail("refuse:panic", format!("{} at {}", m, p)),
    }
    if which == 27 && g.chance(1, 4) {
        ensure!(catch(|| DeltaLambda::list(&[])).is_err(), "refuse:list", "empty list accepted");
    }
    Ok(())
}

const SETTINGS: [&str; 36] = ["verbose", "verbose_iterations", "verbose_stats", "verbose_legend", "verbose_header_footer", "hide_timings", "record_iterations_residuals", "enable_precise_stop_u_comp", "disable_rel_delta_analysis", "euler_predictor", "bordering", "debug_predictor", "nr_control_enabled", "tg_control_enabled", "tg_control_pid_vcc", "n_step_max", "n_cont_failure_max", "n_cont_rejection_max", "n_iteration_max", "n_cont_residual_divergence_max", "n_cont_delta_divergence_max", "nr_control_n_opt", "m_failure", "tol_abs_residual", "tol_abs_delta", "tol_rel_delta", "delta_max_allowed", "tg_control_rdiff_min", "tg_control_rho_for_tiny_rdiff", "nr_control_beta", "tg_control_tol", "tg_control_beta1", "tg_control_beta2", "tg_control_beta3", "tg_control_alpha2", "tg_control_alpha3"];
const N_FLAGS: usize = 15;
const N_COUNTS: usize = 22;

fn read_settings(c: &Config) -> [u64; 36] {
    [
        c.get_verbose() as u64,
        c.get_verbose_iterations() as u64,
        c.get_verbose_stats() as u64,
        c.get_verbose_legend() as u64,
        c.get_verbose_header_footer() as u64,
        c.get_hide_timings() as u64,
        c.get_record_iterations_residuals() as u64,
        c.get_enable_precise_stop_u_comp() as u64,
        c.get_disable_rel_delta_analysis() as u64,
        c.get_euler_predictor() as u64,
        c.get_bordering() as u64,
        c.get_debug_predictor() as u64,
        c.get_nr_control_enabled() as u64,
        c.get_tg_control_enabled() as u64,
        c.get_tg_control_pid_vcc() as u64,
        c.get_n_step_max() as u64,
        c.get_n_cont_failure_max() as u64,
        c.get_n_cont_rejection_max() as u64,
        c.get_n_iteration_max() as u64,
        c.get_n_cont_residual_divergence_max() as u64,
        c.get_n_cont_delta_divergence_max() as u64,
        c.get_nr_control_n_opt() as u64,
        c.get_m_failure().to_bits(),
        c.get_tol_abs_residual().to_bits(),
        c.get_tol_abs_delta().to_bits(),
        c.get_tol_rel_delta().to_bits(),
        c.get_delta_max_allowed().to_bits(),
        c.get_tg_control_rdiff_min().to_bits(),
        c.get_tg_control_rho_for_tiny_rdiff().to_bits(),
        c.get_nr_control_beta().to_bits(),
        c.get_tg_control_tol().to_bits(),
        c.get_tg_control_beta1().to_bits(),
        c.get_tg_control_beta2().to_bits(),
        c.get_tg_control_beta3().to_bits(),
        c.get_tg_control_alpha2().to_bits(),
        c.get_tg_control_alpha3().to_bits(),
    ]
}

fn write_setting(c: &mut Config, k: usize, v: u64) {
    match k {
        0 => c.set_verbose_only(v % 2 == 1),
        1 => c.set_verbose_iterations(v % 2 == 1),
        2 => c.set_verbose_stats(v % 2 == 1),
        3 => c.set_verbose_legend(v % 2 == 1),
        4 => c.set_verbose_header_footer(v % 2 == 1),
        5 => c.set_hide_timings(v % 2 == 1),
        6 => c.set_record_iterations_residuals(v % 2 == 1),
        7 => c.set_enable_precise_stop_u_comp(v % 2 == 1),
        8 => c.set_disable_rel_delta_analysis(v % 2 == 1),
        9 => c.set_euler_predictor(v % 2 == 1),
        10 => c.set_bordering(v % 2 == 1),
        11 => c.set_debug_predictor(v % 2 == 1),
        12 => c.set_nr_control_enabled(v % 2 == 1),
        13 => c.set_tg_control_enabled(v % 2 == 1),
        14 => c.set_tg_control_pid_vcc(v % 2 == 1),
        15 => c.set_n_step_max(v as usize),
        16 => c.set_n_cont_failure_max(v as usize),
        17 => c.set_n_cont_rejection_max(v as usize),
        18 => c.set_n_iteration_max(v as usize),
        19 => c.set_n_cont_residual_divergence_max(v as usize),
        20 => c.set_n_cont_delta_divergence_max(v as usize),
        21 => c.set_nr_control_n_opt(v as usize),
        22 => c.set_m_failure(f64::from_bits(v)),
        23 => c.set_tol_abs_residual(f64::from_bits(v)),
        24 => c.set_tol_abs_delta(f64::from_bits(v)),
        25 => c.set_tol_rel_delta(f64::from_bits(v)),
        26 => c.set_delta_max_allowed(f64::from_bits(v)),
        27 => c.set_tg_control_rdiff_min(f64::from_bits(v)),
        28 => c.set_tg_control_rho_for_tiny_rdiff(f64::from_bits(v)),
        29 => c.set_nr_control_beta(f64::from_bits(v)),
        30 => c.set_tg_control_tol(f64::from_bits(v)),
        31 => c.set_tg_control_beta1(f64::from_bits(v)),
        32 => c.set_tg_control_beta2(f64::from_bits(v)),
        33 => c.set_tg_control_beta3(f64::from_bits(v)),
        34 => c.set_tg_control_alpha2(f64::from_bits(v)),
        35 => c.set_tg_control_alpha3(f64::from_bits(v)),
        _ => unreachable!(),
    };
}

/// every setting is what was set last, the others keep their values
fn kept(g: &mut G) -> R {
    g.hit();
    let mut c = Config::new();
    let mut model = read_settings(&c);
    let (mut method, mut kind) = (Method::Natural, RdiffType::Ave);
    ensure!(c.get_method() == method && c.get_tg_control_rdiff_type() == kind, "settings:default", "method or type");
    ensure!(c.get_genie() == Genie::Umfpack && c.get_log_file().is_none() && c.get_lin_sol_config().is_none(), "settings:default", "solver or file");
    ensure!(c.get_write_matrix_after_nstep_and_stop().is_none(), "settings:default", "matrix");
    let mut file: Option<String> = None;
    for _ in 0..g.us(1, 12) {
        let what: String;
        match g.draw(10) {
            0 => {
                let (v, i, s) = (g.bool(), g.bool(), g.bool());
                c.set_verbose(v, i, s);
                model[0] = v as u64;
                model[1] = i as u64;
                model[2] = s as u64;
                what = "verbose".to_string();
            }
            1 => {
                let (a, r) = (g.uni(0.0, 1.0), g.uni(0.0, 1.0));
                c.set_tol_delta(a, r);
                model[24] = a.to_bits();
                model[25] = r.to_bits();
                what = "tol_delta".to_string();
            }
            2 => {
                // Table III of Söderlind (2003)
                let p = g.uni(2.0, 8.0);
                let (class, v) = match g.draw(8) {
                    0 => (SoderlindClass::Ho211, [0.5, 0.5, 0.0, 0.5, 0.0]),
                    1 => (SoderlindClass::H211b(p), [1.0 / p, 1.0 / p, 0.0, 1.0 / p, 0.0]),
                    2 => (SoderlindClass::H211PI, [1.0 / 6.0, 1.0 / 6.0, 0.0, 0.0, 0.0]),
                    3 => (SoderlindClass::Ho312, [0.25, 0.5, 0.25, 0.75, 0.25]),
                    4 => (SoderlindClass::H312b(p), [1.0 / p, 2.0 / p, 1.0 / p, 3.0 / p, 1.0 / p]),
                    5 => (SoderlindClass::H312PID, [1.0 / 18.0, 1.0 / 9.0, 1.0 / 18.0, 0.0, 0.0]),
                    6 => (SoderlindClass::Ho321, [1.25, 0.5, -0.75, -0.25, -0.75]),
                    _ => (SoderlindClass::H321, [1.0 / 3.0, 1.0 / 18.0, -5.0 / 18.0, -5.0 / 6.0, -1.0 / 6.0]),
                };
                what = format!("{:?}", class);
                c.set_tg_control_soderlind(class);
                let got = read_settings(&c);
                for (k, w) in v.iter().enumerate() {
                    let at = 31 + k;
                    near("settings:table", &format!("{} {}", what, SETTINGS[at]), f64::from_bits(got[at]), *w, 1e-15)?;
                    model[at] = got[at];
                }
            }
            3 => {
                method = if g.bool() { Method::Natural } else { Method::Arclength };
                c.set_method(method);
                what = "method".to_string();
            }
            4 => {
                kind = *g.pick(&[RdiffType::Ave, RdiffType::Max]);
                c.set_tg_control_rdiff_type(kind);
                what = "type".to_string();
            }
            5 => {
                let name = format!("file{}.txt", g.draw(100));
                c.set_log_file(&name);
                file = Some(name);
                what = "file".to_string();
            }
            _ => {
                let k = g.us(0, SETTINGS.len() - 1);
                let v = if k < N_FLAGS {
                    g.draw(2)
                } else if k < N_COUNTS {
                    g.draw(1000)
                } else {
                    g.uni(-2.0, 2.0).to_bits()
                };
                write_setting(&mut c, k, v);
                model[k] = v;
                what = SETTINGS[k].to_string();
            }
        }
        g.show("set", &what);
        let got = read_settings(&c);
        for k in 0..SETTINGS.len() {
            ensure!(got[k] == model[k], "settings:value", "{} after setting {}", SETTINGS[k], what);
        }
        ensure!(c.get_method() == method && c.get_tg_control_rdiff_type() == kind, "settings:value", "method or type after {}", what);
        ensure!(c.get_log_file() == file.as_deref(), "settings:value", "file after {}", what);
        let text = match (method, c.get_bordering()) {
            (Method::Natural, _) => "Natural",
            (_, true) => "Arclength(bord)",
            _ => "Arclength(full)",
        };
        ensure!(c.get_continuation() == text, "settings:text", "{} instead of {}", c.get_continuation(), text);
    }
    // sizes of a system
    let n = g.us(1, 5);
    let nnz = if g.bool() { Some(g.us(1, 20)) } else { None };
    let sym = *g.pick(&[Sym::No, Sym::YesFull]);
    let r = System::new(n, nnz, sym, |_: &mut Vector, _: f64, _: &Vector, _: &mut usize| Ok(()), |_: &mut CooMatrix, _: &mut Vector, _: f64, _: &Vector, _: &mut usize| Ok(()));
    let s = must("settings:system", "new", r)?;
    ensure!(s.get_ndim() == n && s.get_sym_ggu() == sym, "settings:system", "{} {:?}", s.get_ndim(), s.get_sym_ggu());
    ensure!(s.get_nnz_ggu() == nnz.unwrap_or(n * n), "settings:system", "{} reserved instead of {:?}", s.get_nnz_ggu(), nnz);
    Ok(())
}
