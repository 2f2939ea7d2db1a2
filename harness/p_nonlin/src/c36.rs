//! Log files and printed statistics state what was done
use crate::ode;
use crate::util::*;
use russell_lab::algo::{MinSolver, NewtonSolver, Quadrature, RootFinder};
use russell_lab::{format_nanoseconds, Matrix, Vector};
use russell_nonlin::{DeltaLambda, IniDir, Method, Solver, Stop as Rule};
use russell_ode::{OdeSolver, Output, Params, Stats};
use vp_engine::*;

/// number shown with a few digits
fn shown(key: &str, what: &str, text: &str, value: f64, digits: i32) -> R {
    let Ok(x) = text.parse::<f64>() else { return fail(key, format!("{}: {:?} is not a number", what, text)) };
    ensure!((x - value).abs() <= 0.5001 * 10f64.powi(-digits) * 10f64.powf(value.abs().max(1e-300).log10().floor()) + 1e-305, key, "{}: {} shown as {}", what, value, text);
    Ok(())
}

/// value after a label at the beginning of a line
fn entry<'a>(text: &'a str, label: &str) -> Option<&'a str> {
    let mut found = text.lines().filter_map(|l| l.strip_prefix(label)).filter_map(|l| l.trim_start().strip_prefix("= "));
    let x = found.next();
    if found.next().is_some() { None } else { x }
}

fn same_entry(key: &str, text: &str, label: &str, want: String) -> R {
    ensure!(entry(text, label) == Some(&want), key, "{:?} shown as {:?} instead of {}", label, entry(text, label), want);
    Ok(())
}

fn log(g: &mut G) -> R {
    let fold = g.bool();
    let method = if g.bool() { Method::Arclength } else { Method::Natural };
    let arc = method == Method::Arclength;
    let mut c = curve(g, fold, false);
    c.hooks = true;
    let mut cfg = config(g, method);
    cfg.set_n_step_max(30);
    if g.chance(1, 3) {
        cfg.set_n_iteration_max(g.us(2, 4));
    }
    let (its, stats, legend, frame, hide) = (g.chance(3, 4), g.bool(), g.bool(), g.chance(3, 4), g.bool());
    let rec = g.bool();
    cfg.set_verbose(g.chance(1, 4), its, stats).set_verbose_legend(legend).set_verbose_header_footer(frame).set_hide_timings(hide).set_record_iterations_residuals(rec);
    let path = g.scratch.join("log").join("run.txt");
    let _ = std::fs::remove_file(&path);
    cfg.set_log_file(path.to_str().unwrap());
    let w0 = g.f(-2.0, 2.0);
    let (d, m) = tangent(&c, w0);
    if arc && (m.abs() < 0.02 || d.iter().all(|x| x.abs() < 1e-3)) {
        discard!();
    }
    if !arc && fold && c.p.d(w0).abs() < 0.05 {
        discard!();
    }
    let dir = if g.bool() { IniDir::Pos } else { IniDir::Neg };
    let auto = g.chance(2, 3);
    let size = g.plog(-2.0, 0.0);
    let ddl = if auto { DeltaLambda::auto(size) } else { DeltaLambda::constant(size) };
    let n = g.us(1, 10);
    g.show("curve", &c);
    g.show("run: method, start, direction, automatic, first, steps", &(method, w0, dir, auto, size, n));
    settings(g, &cfg);
    let mut lg = Log::new();
    if g.chance(1, 4) {
        lg.fault = Some((3, g.us(0, 12)));
        g.show("update fails at call", &lg.fault);
    }
    let mut sv = must("log:new", "solver", Solver::new(&cfg, c.system()))?;
    let (u0, l0) = c.at(w0);
    if !frame {
        sv.log_header();
    }
    let run = solve("log:panic", &mut sv, lg, &u0, l0, dir, Rule::Steps(n), &ddl, c.n)?;
    let Ok(status) = run.status.clone() else { discard!() };
    if !frame {
        ensure!(!path.exists(), "log:file", "the file is written before the footer is requested");
        sv.log_footer();
    }
    let Ok(text) = std::fs::read_to_string(&path) else { return fail("log:file", "no log file".to_string()) };
    let mut lines = text.lines();
    let st = sv.get_stats().clone();

    // head
    if legend {
        for x in ["Legend:", "✅  Converged", "🎈  Diverging", "🔹  Not converged"] {
            let l = lines.next().unwrap_or("");
            ensure!(l.trim() == x, "log:legend", "{:?} instead of {:?}", l, x);
        }
    }
    let bar = "─".repeat(68);
    ensure!(lines.next() == Some(&bar), "log:head", "no line at the top");
    let head: Vec<&str> = lines.next().unwrap_or("").split_whitespace().collect();
    ensure!(head.len() == 8 && head[0] == "λ" && head[1] == if arc { "Δs" } else { "Δλ" } && head[2] == "iter", "log:head", "columns {:?}", head);
    ensure!(lines.next() == Some(&bar), "log:head", "no line below the head");

    // attempts: state at the start, announced size, evaluations, last call of the update failed
    struct Attempt {
        u0: Vec<f64>,
        l0: f64,
        h: Option<f64>,
        f: Vec<(f64, Vec<f64>)>,
        accepted: bool,
    }
    let mut list: Vec<Attempt> = Vec::new();
    let mut next = None;
    for e in &run.log.ev {
        match e {
            Ev::Update(true, u0, _, l0, _) => list.push(Attempt { u0: u0.clone(), l0: *l0, h: next.take(), f: Vec::new(), accepted: false }),
            Ev::F(l, u) => list.last_mut().unwrap().f.push((*l, u.clone())),
            Ev::Out(.., h, _, _) => {
                next = Some(*h);
                if let Some(a) = list.last_mut() {
                    a.accepted = true;
                }
            }
            _ => (),
        }
    }
    ensure!(list.len() == st.n_steps, "log:steps", "{} steps counted, {} attempts", st.n_steps, list.len());
    // the size after an accepted step does not depend on the output function
    let faulty = run.log.fault.is_some();
    let mut h_prev = 0.0;
    let mut rates_ok = true;
    for (k, a) in list.iter().enumerate() {
        let l = lines.next().unwrap_or("");
        let w: Vec<&str> = l.split_whitespace().collect();
        ensure!(w.len() == 2, "log:step", "attempt {}: {:?}", k, l);
        shown("log:lambda", "parameter at the start", w[0], a.l0, 3)?;
        let h = a.h.unwrap_or(h_prev * cfg.get_m_failure());
        shown("log:size", "step size", w[1], h, 3)?;
        h_prev = h;
        let values: Vec<f64> = a.f.iter().map(|(l, u)| c.residual(u, *l).iter().fold(0.0, |m: f64, x| m.max(x.abs()))).collect();
        if values.iter().any(|v| !v.is_finite()) {
            return Ok(());
        }
        let mut converged = false;
        if its {
            let (mut res_prev, mut del_prev) = (0.0, 0.0);
            for (i, (l1, u1)) in a.f.iter().enumerate() {
                let l = lines.clone().next().unwrap_or("");
                if !l.trim_start().starts_with('·') {
                    // ended before the correction was analysed
                    ensure!(i + 1 == a.f.len() && !a.accepted, "log:iteration", "attempt {}, iteration {}: {:?}", k, i, l);
                    break;
                }
                lines.next();
                let w: Vec<&str> = l.split_whitespace().collect();
                ensure!(w.len() >= 6 && w[1] == "·", "log:iteration", "{:?}", l);
                ensure!(w[2] == i.to_string(), "log:iteration", "iteration {} shown as {:?}", i, w[2]);
                let Ok(res) = w[3].parse::<f64>() else { return fail("log:iteration", format!("{:?}", l)) };
                if arc {
                    ensure!(res >= 0.994 * values[i] || values[i] < 1e-290, "log:residual", "{} shown as {}", values[i], w[3]);
                } else {
                    shown("log:residual", "residual", w[3], values[i], 2)?;
                }
                // symbols
                let (mut x, mut y) = ("", "");
                let mut rest = &w[4..];
                if rest[0].parse::<f64>().is_err() && rest[0] != "·" {
                    x = rest[0];
                    rest = &rest[1..];
                }
                ensure!(rest.len() >= 2, "log:iteration", "{:?}", l);
                if rest.len() > 2 {
                    y = rest[2];
                }
                let last = i + 1 == a.f.len();
                converged = x == "✅" || y == "✅";
                ensure!(!converged || last, "log:symbol", "iteration after convergence: {:?}", l);
                if !arc {
                    let want = if values[i] < cfg.get_tol_abs_residual() {
                        "✅"
                    } else if i > 0 && values[i] > res_prev {
                        "🎈"
                    } else if i == 0 {
                        ""
                    } else {
                        "🔹"
                    };
                    ensure!(x == want, "log:symbol", "iteration {}: residual {} after {} shown with {:?} instead of {:?}", i, values[i], res_prev, x, want);
                    res_prev = values[i];
                }
                if last || cfg.get_disable_rel_delta_analysis() {
                    continue;
                }
                // the correction leads to the next evaluation
                let (l2, u2) = &a.f[i + 1];
                let mut del: Vec<f64> = (0..c.n).map(|j| u2[j] - u1[j]).collect();
                let mut start = a.u0.clone();
                if arc {
                    del.push(l2 - l1);
                    start.push(a.l0);
                }
                let size = u1.iter().chain([l1].into_iter()).fold(1e-300, |m: f64, x| m.max(x.abs()));
                let max = del.iter().fold(0.0, |m: f64, x| m.max(x.abs()));
                if max < 1e-9 * size {
                    continue;
                }
                let rms = (del.iter().zip(&start).map(|(x, u)| (x / (cfg.get_tol_abs_delta() + cfg.get_tol_rel_delta() * u.abs())).powi(2)).sum::<f64>() / del.len() as f64).sqrt();
                let (Ok(a1), Ok(a2)) = (rest[0].parse::<f64>(), rest[1].parse::<f64>()) else { return fail("log:delta", format!("{:?}", l)) };
                ensure!((a1 - max).abs() <= 0.0051 * max, "log:delta", "largest correction {} shown as {}", max, a1);
                ensure!((a2 - rms).abs() <= 0.0051 * rms + 1e-5 * rms, "log:delta", "relative correction {} shown as {}", rms, a2);
                if i > 0 && (max - del_prev).abs() > 1e-6 * max && del_prev > 0.0 {
                    let want = if max > del_prev { "🎈" } else { "🔹" };
                    ensure!(y == want, "log:symbol", "iteration {}: correction {} after {} shown with {:?} instead of {:?}", i, max, del_prev, y, want);
                }
                del_prev = max;
            }
            ensure!(converged || !a.accepted, "log:symbol", "attempt {} accepted without convergence", k);
        }
        let l = lines.clone().next().unwrap_or("");
        let told = l.trim() == "(rejected: did not converge)";
        if told {
            lines.next();
            g.class("not converged");
        }
        ensure!(!(told && (a.accepted || converged)), "log:rejected", "attempt {} converged, yet the log tells that it did not", k);
        if !a.accepted && !faulty && !told {
            // only the attempt that meets the stop rule has no output
            ensure!(k + 1 == list.len(), "log:rejected", "attempt {} was rejected without message", k);
        }
        rates_ok &= a.accepted;
    }
    // end
    if frame {
        let l = lines.next().unwrap_or("");
        shown("log:last", "last parameter", l.trim(), run.l, 3)?;
    }
    ensure!(lines.next() == Some(&bar), "log:end", "no line at the end");
    let rest: Vec<&str> = lines.collect();
    let rest = rest.join("\n");
    let mut want = String::new();
    if stats {
        want += &format!("\n{}\n", st);
    }
    let tail = rest.trim_end();
    let bad = frame && status.failure();
    if bad {
        g.class("failure");
        ensure!(tail.contains(&format!("❌ {:?} ❌", status)), "log:failure", "{:?} is not mentioned in {:?}", status, tail);
        ensure!(tail.starts_with(want.trim_end()), "log:stats", "{:?} instead of {:?}", tail, want);
    } else {
        ensure!(!tail.contains("FAILURE") && !tail.contains('❌'), "log:failure", "failure of a successful run {:?}", tail);
        ensure!(tail == want.trim_end(), "log:stats", "{:?} instead of {:?}", tail, want);
    }
    if st.n_steps > 1 {
        g.hit();
    }

    // printed statistics
    let text = format!("{}", st);
    let k = "log:summary";
    let first = text.lines().next().unwrap_or("");
    ensure!(first.ends_with(if auto { "(auto)" } else { "(fixed)" }) && first.starts_with(if arc { "Pseudo-arclength" } else { "Natural" }), k, "{:?}", first);
    for (label, n) in [
        ("Number of function evaluations", st.n_function),
        ("Number of Jacobian evaluations", st.n_jacobian),
        ("Number of factorizations", st.n_factor),
        ("Number of lin sys solutions", st.n_lin_sol),
        ("Number of accepted steps", st.n_accepted),
        ("Number of rejected steps", st.n_rejected),
        ("Number of performed steps", st.n_steps),
        ("Number of iterations (total)", st.n_iteration_total),
    ] {
        same_entry(k, &text, label, n.to_string())?;
    }
    same_entry(k, &text, "Last accepted/suggested stepsize", st.h_accepted.to_string())?;
    for (label, n) in [
        ("Max time spent on a step", st.nanos_step_max),
        ("Max time spent on the Jacobian", st.nanos_jacobian_max),
        ("Max time spent on factorization", st.nanos_factor_max),
        ("Max time spent on lin solution", st.nanos_lin_sol_max),
        ("Total time", st.nanos_total),
    ] {
        if hide {
            ensure!(entry(&text, label).is_none(), k, "{:?} although hidden", label);
        } else {
            same_entry(k, &text, label, format_nanoseconds(n))?;
        }
    }
    // distribution of the iterations
    let (upper, len) = (g.us(2, 14), g.us(1, 30));
    let hist = st.get_histogram_of_iterations(upper, '#', len);
    if let (true, Some(all)) = (rec, &st.iterations_residuals) {
        let mut want = vec![0; upper - 1];
        for r in all {
            let n = if r.len() >= 2 { r.len() - 1 } else { r.len() };
            if n < upper - 1 {
                want[n] += 1;
            }
        }
        ensure!(hist.get_counts() == &want, "log:histogram", "{:?} instead of {:?}", hist.get_counts(), want);
        ensure!(text.contains("Distribution of the number of converged iterations"), k, "no histogram in {:?}", text);
        if !rates_ok {
            g.class("recorded with rejections");
        }
        let r = st.get_convergence_rates(0.9, 2.1);
        if !r.is_empty() {
            g.class("rates");
            let (lo, hi) = r.iter().fold((f64::MAX, f64::MIN), |m, x| (m.0.min(*x), m.1.max(*x)));
            let mean = r.iter().sum::<f64>() / r.len() as f64;
            let sd = if r.len() > 1 { (r.iter().map(|x| (x - mean).powi(2)).sum::<f64>() / (r.len() - 1) as f64).sqrt() } else { 0.0 };
            let at = text.find("Convergence rates:").map(|i| &text[i..]).unwrap_or("");
            let nums: Vec<f64> = at.lines().take(2).flat_map(|l| l.rsplit('=').next().unwrap_or("").trim_matches(|c| " ()".contains(c)).split(", ").map(|x| x.parse::<f64>().unwrap_or(f64::NAN)).collect::<Vec<_>>()).collect();
            ensure!(nums.len() == 4, k, "convergence rates in {:?}", at);
            for (x, y) in nums.iter().zip([lo, hi, mean, sd]) {
                near(k, "convergence rates", *x, y, 0.000501)?;
            }
        }
    } else {
        ensure!(hist.get_counts().iter().all(|c| *c == 0), "log:histogram", "{:?} without records", hist.get_counts());
    }
    Ok(())
}

fn integration(g: &mut G) -> R {
    let m = ode::pick_method(g, &ode::ALL);
    let p = ode::prob(g, 3, (0.2, 2.0), 5.0, 0);
    let mut params = Params::new(m);
    params.step.h_ini = g.plog(-4.0, -1.0);
    let info = m.information();
    let h = if !info.embedded || g.chance(1, 3) { Some((p.x1 - p.x0) / g.us(2, 30) as f64) } else { None };
    let jac = g.bool();
    g.show("method, step", &(m, h));
    let mut args = ode::Args::default();
    let r = catch(|| {
        let mut out = Output::new();
        out.set_step_callback(|st: &Stats, h: f64, x: f64, _y: &Vector, args: &mut ode::Args| {
            args.step.push((h, x, vec![st.n_iterations as f64, st.n_iterations_max as f64]));
            Ok(false)
        });
        let mut solver = OdeSolver::new(params, p.system(jac))?;
        let mut y = p.start();
        solver.solve(&mut y, p.x0, p.x1, h, &mut args, Some(&mut out))?;
        Ok::<_, &'static str>(*solver.stats())
    });
    let st = match r {
        Ok(Ok(st)) => st,
        Ok(Err(_)) => discard!(),
        Err((m, l)) => return fail("integration:panic", format!("panic: {} at {}", m, l)),
    };
    g.hit();
    // iterations of each step and their maximum
    let mut most = 0.0;
    for (k, (_, _, v)) in args.step.iter().enumerate() {
        most = f64::max(most, v[0]);
        ensure!(v[1] >= most, "integration:maximum", "step {}: {} iterations at most, but {} before", k, v[1], most);
        if st.n_rejected == 0 {
            ensure!(v[1] == most, "integration:maximum", "step {}: {} iterations at most instead of {}", k, v[1], most);
        }
    }
    let text = format!("{}", st);
    let k = "integration:summary";
    let first = text.lines().next().unwrap_or("");
    ensure!(first == format!("{:?}: {}", m, m.description()), k, "{:?}", first);
    for (label, n, implicit) in [
        ("Number of function evaluations", st.n_function, false),
        ("Number of Jacobian evaluations", st.n_jacobian, true),
        ("Number of factorizations", st.n_factor, true),
        ("Number of lin sys solutions", st.n_lin_sol, true),
        ("Number of performed steps", st.n_steps, false),
        ("Number of accepted steps", st.n_accepted, false),
        ("Number of rejected steps", st.n_rejected, false),
        ("Number of iterations (maximum)", st.n_iterations_max, true),
        ("Number of iterations (last step)", st.n_iterations, true),
    ] {
        if implicit && !info.implicit {
            ensure!(entry(&text, label).is_none(), k, "{:?} for an explicit method", label);
        } else {
            same_entry(k, &text, label, n.to_string())?;
        }
    }
    same_entry(k, &text, "Last accepted/suggested stepsize", st.h_accepted.to_string())?;
    for (label, n, implicit) in [
        ("Max time spent on a step", st.nanos_step_max, false),
        ("Max time spent on the Jacobian", st.nanos_jacobian_max, true),
        ("Max time spent on factorization", st.nanos_factor_max, true),
        ("Max time spent on lin solution", st.nanos_lin_sol_max, true),
        ("Total time", st.nanos_total, false),
    ] {
        if !implicit || info.implicit {
            same_entry(k, &text, label, format_nanoseconds(n))?;
        }
        ensure!(n <= st.nanos_total, "integration:time", "{:?} takes {} ns of {}", label, n, st.nanos_total);
    }
    ensure!(st.n_iterations <= st.n_iterations_max, k, "{} iterations of at most {}", st.n_iterations, st.n_iterations_max);
    Ok(())
}

fn numeric(g: &mut G) -> R {
    let on = g.bool();
    let (a, b, z) = (g.f(-3.0, 3.0), g.f(0.5, 3.0), g.f(0.1, 0.9));
    let root = a + b * z;
    let kind = g.us(0, 3);
    g.show("statistics, kind, range, root", &(on, kind, a, a + b, root));
    let mut calls = 0usize;
    let mut jacs = 0usize;
    // an earlier run with the same object must not matter
    let warm = g.bool();
    let (text, summary, counts) = match kind {
        0 => {
            let mut q = Quadrature::new();
            q.set_enable_stats(on);
            if warm {
                let _ = q.integrate(0.0, 1.0, &mut calls, |x, _: &mut usize| Ok((x - 0.3).abs()));
            }
            let _ = q.integrate(a, a + b, &mut calls, |x, n: &mut usize| {
                *n += 1;
                Ok((x - root).abs().powf(0.7))
            });
            stats(q.get_stats())
        }
        1 => {
            let mut q = RootFinder::new();
            q.set_enable_stats(on);
            if warm {
                let _ = q.brent(-1.0, 2.0, &mut calls, |x, _: &mut usize| Ok(x * x * x - 0.1));
            }
            let _ = q.brent(a, a + b, &mut calls, |x, n: &mut usize| {
                *n += 1;
                Ok((x - root) + (x - root).powi(3))
            });
            stats(q.get_stats())
        }
        2 => {
            let mut q = MinSolver::new();
            q.set_enable_stats(on);
            if warm {
                let _ = q.brent(-1.0, 2.0, &mut calls, |x, _: &mut usize| Ok(x * x));
            }
            let _ = q.brent(a, a + b, &mut calls, |x, n: &mut usize| {
                *n += 1;
                Ok((x - root).powi(2) + (x - root).powi(4))
            });
            stats(q.get_stats())
        }
        _ => {
            let mut q = must("numeric:new", "new", NewtonSolver::new(1))?;
            q.set_enable_stats(on);
            let mut x = Vector::from(&[a + b]);
            let mut n = (0usize, 0usize);
            if warm {
                let mut x = Vector::from(&[0.7]);
                let _ = q.solve(
                    &mut x,
                    &mut n,
                    |r: &mut Vector, x: &Vector, _: &mut (usize, usize)| {
                        r[0] = x[0] * x[0] * x[0];
                        Ok(())
                    },
                    |j: &mut Matrix, x: &Vector, _: &mut (usize, usize)| {
                        j.set(0, 0, 3.0 * x[0] * x[0]);
                        Ok(())
                    },
                );
            }
            let _ = q.solve(
                &mut x,
                &mut n,
                |r: &mut Vector, x: &Vector, n: &mut (usize, usize)| {
                    n.0 += 1;
                    r[0] = (x[0] - root) + (x[0] - root).powi(3);
                    Ok(())
                },
                |j: &mut Matrix, x: &Vector, n: &mut (usize, usize)| {
                    n.1 += 1;
                    j.set(0, 0, 1.0 + 3.0 * (x[0] - root).powi(2));
                    Ok(())
                },
            );
            calls = n.0;
            jacs = n.1;
            stats(q.get_stats())
        }
    };
    let Some((nf, nj, ni, err, time)) = counts else {
        ensure!(!on, "numeric:stats", "no statistics although enabled");
        return Ok(());
    };
    g.hit();
    ensure!(on, "numeric:stats", "statistics although not enabled");
    let k = "numeric:summary";
    ensure!((nf, nj) == (calls, jacs), "numeric:counts", "{:?} counted, {:?} made", (nf, nj), (calls, jacs));
    same_entry(k, &text, "Number of function evaluations", calls.to_string())?;
    same_entry(k, &text, "Number of Jacobian evaluations", jacs.to_string())?;
    same_entry(k, &text, "Number of iterations", ni.to_string())?;
    same_entry(k, &text, "Total computation time", time)?;
    let e = entry(&text, "Error estimate").unwrap_or("");
    if e != "unavailable" {
        shown(k, "error estimate", e, err, 2)?;
    }
    ensure!(kind != 0 || e != "unavailable", k, "the quadrature has an error estimate");
    ensure!(text.starts_with(&summary) && !summary.is_empty(), k, "{:?} does not start with {:?}", text, summary);
    Ok(())
}

type Numbers = (usize, usize, usize, f64, String);

fn stats(s: Result<&russell_lab::algo::Stats, &'static str>) -> (String, String, Option<Numbers>) {
    match s {
        Ok(s) => (format!("{}", s), s.summary(), Some((s.get_n_function(), s.get_n_jacobian(), s.get_n_iterations(), s.get_error_estimate(), s.get_elapsed_time()))),
        Err(_) => (String::new(), String::new(), None),
    }
}

pub fn property() -> Property {
    Property {
        id: "C36",
        assumptions: &[
            "numbers in a log have three or four significant digits, so they are compared at that resolution",
            "a solver object that writes a log file is used for one run",
        ],
        laws: vec![
            Law { name: "log", quick: 6000, rule: "continuation runs with a log file; non-trivial: at least two attempted steps", f: log },
            Law { name: "integration", quick: 5000, rule: "integrations with every method; all finished ones are non-trivial", f: integration },
            Law { name: "numeric", quick: 40000, rule: "quadrature, root, minimum, Newton; non-trivial: statistics enabled", f: numeric },
        ],
    }
}
