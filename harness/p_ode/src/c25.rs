//! Output of the integrator: step and dense channels, files, callbacks, stopping.
use crate::util::*;
use russell_lab::Vector;
use russell_ode::*;
use vp_engine::*;

pub fn property() -> Property {
    Property {
        id: "C25",
        assumptions: &[
            "numbers read back from the text files may differ in the last binary digit",
            "requested stations are at least 1e-6 of the interval away from the end point",
        ],
        laws: vec![
            Law {
                name: "channels",
                quick: 5000,
                rule: "more than one output channel is active",
                f: channels,
            },
            Law {
                name: "stop",
                quick: 40000,
                rule: "a callback stops or fails before the end",
                f: stop,
            },
            Law {
                name: "reuse",
                quick: 20000,
                rule: "one output object serves several simulations",
                f: reuse,
            },
            Law {
                name: "order",
                quick: 10000,
                rule: "coarse dense error above the noise floor",
                f: order,
            },
            Law {
                name: "accuracy",
                quick: 16000,
                rule: "more than three accepted steps with several stations",
                f: accuracy,
            },
        ],
    }
}

pub const DENSE: [Method; 3] = [Method::DoPri5, Method::DoPri8, Method::Radau5];

/// how the stations are asked for
#[derive(Clone, Debug)]
pub enum Stations {
    Ends,
    Spacing(f64),
    List(Vec<f64>),
}

#[derive(Clone, Debug)]
pub struct Plan {
    step_cb: bool,
    step_rec: Option<Vec<usize>>,
    step_file: bool,
    dense_cb: bool,
    dense_rec: Option<Vec<usize>>,
    dense_file: bool,
    global: bool,
    stations: Stations,
}

fn comps(g: &mut G, n: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..n).filter(|_| g.chance(2, 3)).collect();
    if v.is_empty() && g.bool() {
        v.push(g.us(0, n - 1));
    }
    v
}

fn stations(g: &mut G, p: &Prob) -> Stations {
    let len = p.x1 - p.x0;
    match g.draw(3) {
        0 => Stations::Ends,
        1 => {
            // divides the interval or not
            let m = g.us(1, 12) as f64;
            Stations::Spacing(if g.bool() { len / m } else { len * g.uni(0.02, 1.5) })
        }
        _ => {
            let k = g.us(0, 12);
            let mut v: Vec<f64> = (0..k).map(|_| p.x0 + len * g.uni(1e-6, 1.0 - 1e-6)).collect();
            v.sort_by(|a, b| a.partial_cmp(b).unwrap());
            v.dedup_by(|a, b| *a - *b < 1e-12);
            Stations::List(v)
        }
    }
}

fn plan(g: &mut G, p: &Prob, method: Method) -> Plan {
    let can = DENSE.contains(&method);
    let pl = Plan {
        step_cb: g.bool(),
        step_rec: if g.chance(3, 4) { Some(comps(g, p.n)) } else { None },
        step_file: g.chance(1, 6),
        dense_cb: can && g.bool(),
        dense_rec: if can && g.chance(3, 4) { Some(comps(g, p.n)) } else { None },
        dense_file: can && g.chance(1, 6),
        global: g.chance(1, 3),
        stations: stations(g, p),
    };
    g.show("plan", &pl);
    pl
}

fn with_dense(pl: &Plan) -> bool {
    pl.dense_cb || pl.dense_rec.is_some() || pl.dense_file
}

fn setup<'a>(pl: &Plan, p: &Prob, g: &G) -> Result<Output<'a, Args>, Stop> {
    let mut out = Output::new();
    if pl.step_cb {
        out.set_step_callback(|_stats: &Stats, h: f64, x: f64, y: &Vector, args: &mut Args| {
            args.step.push((h, x, y.as_data().to_vec()));
            if args.step.len() == args.fail_step {
                return Err(MSG_S);
            }
            Ok(args.step.len() == args.stop_step)
        });
    }
    if let Some(c) = &pl.step_rec {
        out.set_step_recording(c);
    }
    if pl.step_file {
        out.set_step_file_writing(g.scratch.join("step").to_str().unwrap());
    }
    if pl.dense_cb {
        out.set_dense_callback(|_stats: &Stats, h: f64, x: f64, y: &Vector, args: &mut Args| {
            args.dense.push((h, x, y.as_data().to_vec()));
            if args.dense.len() == args.fail_dense {
                return Err(MSG_D);
            }
            Ok(args.dense.len() == args.stop_dense)
        });
    }
    if let Some(c) = &pl.dense_rec {
        out.set_dense_recording(c);
    }
    if pl.dense_file {
        must("setup", "dense files", out.set_dense_file_writing(g.scratch.join("dense").to_str().unwrap()).map(|_| ()))?;
    }
    match &pl.stations {
        Stations::Ends => (),
        Stations::Spacing(h) => {
            must("setup", "spacing", out.set_dense_h_out(*h).map(|_| ()))?;
        }
        Stations::List(v) => {
            must("setup", "stations", out.set_dense_x_out(v).map(|_| ()))?;
        }
    }
    if pl.global {
        let q = p.clone();
        out.set_yx_correct(move |y: &mut Vector, x: f64, _: &mut Args| {
            for i in 0..q.n {
                y[i] = q.yex(i, x);
            }
        });
    }
    Ok(out)
}

/// stations that the request stands for
fn expected(pl: &Plan, x0: f64, x1: f64) -> Vec<f64> {
    let mut v = vec![x0];
    match &pl.stations {
        Stations::Ends => (),
        Stations::List(l) => v.extend(l),
        Stations::Spacing(h) => {
            // as many whole spacings as fit; the last one is stretched to the end point
            let n = usize::max(1, ((x1 + 1e-13 - x0) / h) as usize);
            for k in 1..n {
                v.push(x0 + k as f64 * h);
            }
        }
    }
    v.push(x1);
    v
}

fn wipe(g: &G) {
    let _ = std::fs::remove_dir_all(&g.scratch);
    let _ = std::fs::create_dir_all(&g.scratch);
}

fn params_for(g: &mut G, method: Method) -> Params {
    let mut params = Params::new(method);
    let tol = g.plog(-7.0, -3.0);
    params.set_tolerances(tol, tol, None).unwrap();
    params.radau5.concurrent = false;
    if method == Method::BwEuler {
        params.bweuler.use_modified_newton = g.bool();
        params.newton.n_iteration_max = 30;
    }
    if g.chance(1, 3) {
        params.step.h_ini = g.plog(-4.0, 0.0);
    }
    g.show("tolerance", &tol);
    params
}

fn step_size(g: &mut G, p: &Prob, method: Method) -> Option<f64> {
    let h = if g.bool() || method == Method::BwEuler { Some((p.x1 - p.x0) / g.us(8, 40) as f64 * (1.0 + 1e-9)) } else { None };
    g.show("equal step", &h);
    h
}

/// the iterations of an implicit method need not converge with a given step
fn no_convergence(pb: &Prob, method: Method, params: Params, with_jac: bool, h: Option<f64>) -> bool {
    if h.is_none() || !matches!(method, Method::Radau5 | Method::BwEuler) {
        return false;
    }
    let mut y = pb.start();
    let r = catch(|| OdeSolver::new(params, pb.system(with_jac))?.solve(&mut y, pb.x0, pb.x1, h, &mut Args::default(), None));
    matches!(r, Ok(Err(_)))
}

type Entry = (f64, f64, Vec<f64>);

fn read_files(g: &G, key: &str, n: usize) -> Result<Vec<Entry>, Stop> {
    let mut v = Vec::new();
    for k in 0..n {
        let path = g.scratch.join(format!("{}_{}.json", key, k));
        let d = must("files:read", "file", OutData::read_json(path.to_str().unwrap()))?;
        v.push((d.h, d.x, d.y.as_data().to_vec()));
    }
    let beyond = g.scratch.join(format!("{}_{}.json", key, n));
    ensure!(!beyond.exists(), "files:extra", "file number {} exists", n);
    let path = g.scratch.join(format!("{}_count.json", key));
    let c = must("files:count", "count file", OutCount::read_json(path.to_str().unwrap()))?;
    ensure!(c.n == n, "files:count", "count file says {}, expected {}", c.n, n);
    Ok(v)
}

fn same_entry(key: &str, what: &str, a: &Entry, b: &Entry) -> R {
    let t = |v: f64| 4.0 * EPS * v.abs() + 1e-300;
    near(key, &format!("{}: h", what), a.0, b.0, t(a.0))?;
    near(key, &format!("{}: x", what), a.1, b.1, t(a.1))?;
    for i in 0..a.2.len() {
        near(key, &format!("{}: y{}", what, i), a.2[i], b.2[i], t(a.2[i]))?;
    }
    Ok(())
}

fn channels(g: &mut G) -> R {
    let method = if g.chance(2, 5) { pick_method(g, &DENSE) } else { pick_method(g, &ALL) };
    let pb = prob(g, 3, (0.5, 2.0), 0.0, 0);
    let params = params_for(g, method);
    let pl = plan(g, &pb, method);
    let h = step_size(g, &pb, method);
    let with_jac = g.bool();
    wipe(g);
    let n_active = pl.step_cb as usize
        + pl.step_rec.is_some() as usize
        + pl.step_file as usize
        + pl.dense_cb as usize
        + pl.dense_rec.is_some() as usize
        + pl.dense_file as usize;
    if n_active > 1 {
        g.hit();
    }
    // reference: every step through a callback, nothing else
    let mut full = Output::new();
    full.set_step_callback(|_: &Stats, h: f64, x: f64, y: &Vector, args: &mut Args| {
        args.step.push((h, x, y.as_data().to_vec()));
        Ok(false)
    });
    let mut out = setup(&pl, &pb, g)?;
    let mut args = [Args::default(), Args::default(), Args::default()];
    let mut ys = [pb.start(), pb.start(), pb.start()];
    let mut stats = Vec::new();
    for k in 0..3 {
        let r = catch(|| {
            let mut solver = OdeSolver::new(params, pb.system(with_jac))?;
            let o = match k {
                0 => None,
                1 => Some(&mut full),
                _ => Some(&mut out),
            };
            solver.solve(&mut ys[k], pb.x0, pb.x1, h, &mut args[k], o)?;
            Ok::<_, &'static str>(solver.stats().clone())
        });
        match r {
            Ok(Ok(s)) => stats.push(s),
            Ok(Err(_)) if no_convergence(&pb, method, params, with_jac, h) => discard!(),
            Ok(Err(e)) => return fail("channels:solve", format!("run {}: {}", k, e)),
            Err((m, l)) => return fail("channels:panic", format!("run {}: {} at {}", k, m, l)),
        }
    }
    ensure!(ys[0].as_data() == ys[1].as_data(), "channels:solution", "step callback changes the solution");
    ensure!(
        ys[0].as_data() == ys[2].as_data(),
        "channels:solution",
        "{:?} without output, {:?} with",
        ys[0].as_data(),
        ys[2].as_data()
    );
    for k in 1..3 {
        ensure!(
            (stats[0].n_steps, stats[0].n_accepted, stats[0].n_rejected) == (stats[k].n_steps, stats[k].n_accepted, stats[k].n_rejected),
            "channels:steps",
            "steps differ with output"
        );
    }
    // step sequence
    let sq = &args[1].step;
    let na = stats[1].n_accepted;
    ensure!(sq.len() == na + 1, "channels:count", "{} outputs, {} accepted steps", sq.len(), na);
    ensure!(sq[0].1 == pb.x0 && sq[0].2 == *pb.start().as_data(), "channels:first", "first output {:?}", sq[0]);
    let top = pb.x0.abs().max(pb.x1.abs()).max(1.0);
    near("channels:last", "last station", sq[na].1, pb.x1, 200.0 * EPS * top)?;
    ensure!(sq[na].2 == *ys[1].as_data(), "channels:last", "last output is not the returned state");
    for k in 1..=na {
        ensure!(sq[k].1 > sq[k - 1].1, "channels:increasing", "stations {} and {}", sq[k - 1].1, sq[k].1);
        near("channels:h", "step size", sq[k].0, sq[k].1 - sq[k - 1].1, 4.0 * EPS * top)?;
    }
    // all channels say the same
    if pl.step_cb {
        ensure!(args[2].step == *sq, "channels:callback", "step callback saw something else");
    } else {
        ensure!(args[2].step.is_empty(), "channels:callback", "callback not asked for");
    }
    if let Some(c) = &pl.step_rec {
        let (hs, xs) = (out.step_h(), out.step_x());
        ensure!(hs.len() == sq.len() && xs.len() == sq.len(), "channels:record", "{} and {} records", hs.len(), xs.len());
        for k in 0..sq.len() {
            ensure!(hs[k] == sq[k].0 && xs[k] == sq[k].1, "channels:record", "record {}: {} {}", k, hs[k], xs[k]);
        }
        for m in 0..pb.n {
            let want: Vec<f64> = if c.contains(&m) { sq.iter().map(|e| e.2[m]).collect() } else { Vec::new() };
            ensure!(out.step_y(m) == &want, "channels:record", "component {}: {:?}, expected {:?}", m, out.step_y(m), want);
        }
        if pl.global {
            ensure!(out.step_global_error().len() == sq.len(), "channels:global", "{} values", out.step_global_error().len());
            for k in 0..sq.len() {
                let e = (0..pb.n).map(|i| (sq[k].2[i] - pb.yex(i, sq[k].1)).abs()).fold(0.0, f64::max);
                ensure!(out.step_global_error()[k] == e, "channels:global", "step {}: {}, expected {}", k, out.step_global_error()[k], e);
            }
        } else {
            ensure!(out.step_global_error().is_empty(), "channels:global", "not asked for");
        }
    } else {
        ensure!(out.step_x().is_empty(), "channels:record", "records not asked for");
    }
    if pl.step_file {
        g.class("step files");
        let f = read_files(g, "step", sq.len())?;
        for k in 0..sq.len() {
            same_entry("channels:file", &format!("step file {}", k), &f[k], &sq[k])?;
        }
    }
    if !with_dense(&pl) {
        return Ok(());
    }
    g.class("dense");
    let want = expected(&pl, pb.x0, pb.x1);
    let dx = out.dense_x();
    let ok = want.len() == dx.len();
    ensure!(ok, "channels:stations", "{:?}, expected {:?}", dx, want);
    for k in 0..dx.len() {
        near("channels:stations", &format!("station {}", k), dx[k], want[k], 20.0 * EPS * top)?;
    }
    ensure!(dx[0] == pb.x0 && dx[dx.len() - 1] == pb.x1, "channels:stations", "ends {:?}", dx);
    if let Stations::List(v) = &pl.stations {
        ensure!(dx[1..dx.len() - 1] == v[..], "channels:stations", "{:?} requested {:?}", dx, v);
    }
    let nd = dx.len();
    let mut seq: Vec<Entry> = Vec::new();
    if pl.dense_cb {
        seq = args[2].dense.clone();
        ensure!(seq.len() == nd, "channels:dense", "{} calls for {} stations", seq.len(), nd);
        for k in 0..nd {
            let t = if k == nd - 1 { 200.0 * EPS * top } else { 0.0 };
            near("channels:dense", &format!("station {}", k), seq[k].1, dx[k], t)?;
        }
    }
    if pl.dense_file {
        g.class("dense files");
        let f = read_files(g, "dense", nd)?;
        if pl.dense_cb {
            for k in 0..nd {
                same_entry("channels:file", &format!("dense file {}", k), &f[k], &seq[k])?;
            }
        } else {
            seq = f;
        }
    }
    if let Some(c) = &pl.dense_rec {
        for m in 0..pb.n {
            let v = out.dense_y(m);
            ensure!(v.len() == if c.contains(&m) { nd } else { 0 }, "channels:dense", "component {}: {} values", m, v.len());
            if c.contains(&m) && !seq.is_empty() {
                for k in 0..nd {
                    near("channels:dense", &format!("component {} at station {}", m, k), v[k], seq[k].2[m], 4.0 * EPS * v[k].abs())?;
                }
            }
            if c.contains(&m) {
                ensure!(v[0] == pb.start()[m] && v[nd - 1] == ys[2][m], "channels:dense", "ends of component {}", m);
            }
        }
    }
    // the interpolant lies between the steps: it moves no further than the slopes allow
    for e in &seq {
        let k = sq.iter().position(|s| s.1 >= e.1).unwrap_or(na);
        if k == 0 {
            same_entry("channels:dense", "initial station", e, &sq[0])?;
            continue;
        }
        if e.1 == sq[k].1 {
            for i in 0..pb.n {
                near("channels:node", "dense value at an accepted step", e.2[i], sq[k].2[i], 1e-12 * (1.0 + sq[k].2[i].abs()))?;
            }
            g.class("station on a step");
        }
    }
    Ok(())
}

/// callbacks that stop or fail
fn stop(g: &mut G) -> R {
    let method = if g.chance(2, 5) { pick_method(g, &DENSE) } else { pick_method(g, &ALL) };
    let pb = prob(g, 3, (0.5, 2.0), 0.0, 0);
    let params = params_for(g, method);
    let mut pl = plan(g, &pb, method);
    pl.step_cb = true;
    pl.step_file = false;
    pl.dense_file = false;
    let dense = DENSE.contains(&method) && g.bool();
    if dense {
        pl.dense_cb = true;
        g.class("dense");
    }
    let h = step_size(g, &pb, method);
    let with_jac = g.bool();
    // complete run
    let solve = |args: &mut Args, out: &mut Output<Args>| {
        catch(|| {
            let mut y = pb.start();
            let mut solver = OdeSolver::new(params, pb.system(with_jac)).unwrap();
            let r = solver.solve(&mut y, pb.x0, pb.x1, h, args, Some(out));
            (r, y.as_data().to_vec(), *solver.stats())
        })
    };
    let mut full = Args::default();
    let mut out = setup(&pl, &pb, g)?;
    match solve(&mut full, &mut out) {
        Ok((Ok(()), _, _)) => (),
        Ok((Err(_), _, _)) if no_convergence(&pb, method, params, with_jac, h) => discard!(),
        r => return fail("stop:full", format!("complete run: {:?}", r.map(|v| v.0))),
    }
    let mut args = Args::default();
    let failing = g.chance(1, 4);
    let at = if dense { g.us(1, full.dense.len()) } else { g.us(1, full.step.len()) };
    match (dense, failing) {
        (false, false) => args.stop_step = at,
        (false, true) => args.fail_step = at,
        (true, false) => args.stop_dense = at,
        (true, true) => args.fail_dense = at,
    }
    g.show("dense, failing, at", &(dense, failing, at));
    if at < if dense { full.dense.len() } else { full.step.len() } {
        g.hit();
    }
    let mut out = setup(&pl, &pb, g)?;
    let (r, y, stats) = match solve(&mut args, &mut out) {
        Ok(v) => v,
        Err((m, l)) => return fail("stop:panic", format!("{} at {}", m, l)),
    };
    if failing {
        g.class("failing");
        ensure!(r == Err(if dense { MSG_D } else { MSG_S }), "stop:error", "{:?}", r);
    } else {
        ensure!(r.is_ok(), "stop:ok", "{:?}", r);
    }
    // nothing more is shown and what was shown is the beginning of the complete run
    let (seen, all) = if dense { (&args.dense, &full.dense) } else { (&args.step, &full.step) };
    ensure!(seen.len() == at, "stop:more", "{} calls, asked to stop at {}", seen.len(), at);
    ensure!(seen[..] == all[..at], "stop:prefix", "outputs differ from the complete run");
    let ns = args.step.len();
    ensure!(ns >= 1 && args.step[..] == full.step[..ns], "stop:steps", "steps differ from the complete run");
    if dense {
        // stopped in the step that contains the station
        let x = args.dense[at - 1].1;
        let xe = args.step[ns - 1].1;
        ensure!(x <= xe && (ns == 1 || x > args.step[ns - 2].1), "stop:late", "station {} in step ending at {}", x, xe);
    }
    if !failing {
        ensure!(y == args.step[ns - 1].2, "stop:state", "returned {:?}, last state shown {:?}", y, args.step[ns - 1].2);
        ensure!(stats.n_accepted == ns - 1, "stop:accepted", "{} accepted, {} shown", stats.n_accepted, ns);
    }
    Ok(())
}

/// one output object for several simulations
fn reuse(g: &mut G) -> R {
    let method = if g.chance(2, 5) { pick_method(g, &DENSE) } else { pick_method(g, &ALL) };
    let mut pb = prob(g, 3, (0.5, 2.0), 0.0, 0);
    let params = params_for(g, method);
    let mut pl = plan(g, &pb, method);
    pl.step_file = false;
    pl.dense_file = false;
    // systems of other dimensions with the same output object
    let several = g.chance(1, 3);
    pl.step_rec = Some(if several { vec![0] } else { (0..pb.n).collect() });
    if several {
        g.class("several systems");
        pl.dense_rec = pl.dense_rec.map(|_| vec![0]);
    }
    if let Stations::List(_) = pl.stations {
        pl.stations = Stations::Ends;
    }
    let with_jac = g.bool();
    let mut shared = setup(&pl, &pb, g)?;
    let mut solver = must("reuse:new", "solver", OdeSolver::new(params, pb.system(with_jac)))?;
    let rounds = g.us(2, 4);
    g.hit();
    for round in 0..rounds {
        let h = step_size(g, &pb, method);
        let mut fresh = setup(&pl, &pb, g)?;
        let (mut aa, mut ab) = (Args::default(), Args::default());
        let cut = g.chance(1, 4);
        if cut && pl.step_cb {
            aa.stop_step = 3;
            ab.stop_step = 3;
        }
        let (mut ya, mut yb) = (pb.start(), pb.start());
        let r = catch(|| {
            solver.solve(&mut ya, pb.x0, pb.x1, h, &mut aa, Some(&mut shared))?;
            let mut other = OdeSolver::new(params, pb.system(with_jac))?;
            other.solve(&mut yb, pb.x0, pb.x1, h, &mut ab, Some(&mut fresh))
        });
        match r {
            Ok(Ok(())) => (),
            Ok(Err(_)) if no_convergence(&pb, method, params, with_jac, h) => discard!(),
            r => return fail("reuse:solve", format!("round {}: {:?}", round, r)),
        }
        let close = |a: &[f64], b: &[f64]| a.len() == b.len() && a.iter().zip(b).all(|(u, v)| u == v);
        ensure!(close(shared.step_x(), fresh.step_x()), "reuse:x", "round {}: {:?} and {:?}", round, shared.step_x(), fresh.step_x());
        ensure!(close(shared.step_h(), fresh.step_h()), "reuse:h", "round {}", round);
        ensure!(
            close(shared.step_global_error(), fresh.step_global_error()),
            "reuse:global",
            "round {}: {} and {} values",
            round,
            shared.step_global_error().len(),
            fresh.step_global_error().len()
        );
        for m in 0..(if several { 1 } else { pb.n }) {
            ensure!(close(shared.step_y(m), fresh.step_y(m)), "reuse:y", "round {} component {}", round, m);
            if !(cut && pl.step_cb) {
                ensure!(close(shared.dense_y(m), fresh.dense_y(m)), "reuse:dense_y", "round {} component {}", round, m);
            }
        }
        ensure!(close(shared.dense_x(), fresh.dense_x()), "reuse:dense_x", "round {}: {:?} and {:?}", round, shared.dense_x(), fresh.dense_x());
        ensure!(aa.step == ab.step && aa.dense == ab.dense, "reuse:callbacks", "round {}", round);
        if several {
            let (x0, x1) = (pb.x0, pb.x1);
            pb = prob(g, 3, (0.5, 2.0), 0.0, 0);
            if let Stations::Spacing(_) = pl.stations {
                (pb.x0, pb.x1) = (x0, x1); // the solution is given relative to x0
            }
            solver = must("reuse:new", "solver", OdeSolver::new(params, pb.system(with_jac)))?;
            if pl.global {
                let q = pb.clone();
                shared.set_yx_correct(move |y: &mut Vector, x: f64, _: &mut Args| {
                    for i in 0..q.n {
                        y[i] = q.yex(i, x);
                    }
                });
            }
        }
        // another interval; the equations keep their solution
        if g.bool() {
            let len = pb.x1 - pb.x0;
            pb.x1 = pb.x0 + len * g.uni(0.3, 1.3);
        }
        // other stations
        let listed = matches!(pl.stations, Stations::List(_));
        if listed || ((pl.dense_cb || pl.dense_rec.is_some()) && g.chance(1, 3)) {
            g.class("other stations");
            let len = pb.x1 - pb.x0;
            if g.bool() {
                let h = len * g.uni(0.06, 0.6);
                must("reuse:stations", "spacing", shared.set_dense_h_out(h).map(|_| ()))?;
                pl.stations = Stations::Spacing(h);
            } else {
                let m = g.us(0, 6);
                let v: Vec<f64> = (1..=m).map(|i| pb.x0 + len * (i as f64 + g.uni(-0.4, 0.4)) / (m + 1) as f64).collect();
                must("reuse:stations", "list", shared.set_dense_x_out(&v).map(|_| ()))?;
                pl.stations = Stations::List(v);
            }
        }
    }
    Ok(())
}

/// the interpolants converge at their own order
fn order(g: &mut G) -> R {
    let method = pick_method(g, &DENSE);
    let p = match method {
        Method::DoPri5 => 5,
        Method::DoPri8 => 8,
        _ => 4,
    };
    let pb = prob(g, 4, (0.5, 2.0), 0.0, 0);
    let len = pb.x1 - pb.x0;
    let nst = g.us(4, 10).max((pb.lip.max(3.0) * len / 0.35) as usize);
    let mut params = Params::new(method);
    must("order:tol", "tolerances", params.set_tolerances(1e-13, 1e-13, Some(1e-4)))?;
    params.newton.n_iteration_max = 60;
    params.radau5.concurrent = false;
    let with_jac = g.bool();
    let spacing = len / (nst as f64 * 9.0) * g.uni(0.9, 1.1);
    g.show("steps, spacing", &(nst, spacing));
    let floor = if method == Method::Radau5 { 3e-12 } else { 1e-13 } * (1.0 + len);
    let due = f64::powf(2.0, p as f64 - 0.6);
    let mut errs: Vec<f64> = Vec::new();
    let mut seen = false;
    for k in [1, 2, 4, 8, 16] {
        let h = len / (nst * k) as f64 * (1.0 + 1e-9);
        let mut out = Output::new();
        out.set_dense_recording(&(0..pb.n).collect::<Vec<_>>());
        // the stations must stay inside the steps when these shrink
        must("order:out", "spacing", out.set_dense_h_out(spacing / k as f64).map(|_| ()))?;
        let mut y = pb.start();
        let r = catch(|| {
            let mut solver = OdeSolver::new(params, pb.system(with_jac))?;
            solver.solve(&mut y, pb.x0, pb.x1, Some(h), &mut Args::default(), Some(&mut out))
        });
        match r {
            Ok(Ok(())) => (),
            r => return fail("order:solve", format!("{:?}", r)),
        }
        let mut e: f64 = 0.0;
        for (j, x) in out.dense_x().iter().enumerate() {
            for i in 0..pb.n {
                e = e.max((out.dense_y(i)[j] - pb.yex(i, *x)).abs());
            }
        }
        errs.push(e);
        if k == 1 {
            if e > due * floor {
                g.hit();
            }
            continue;
        }
        let e1 = errs[errs.len() - 2];
        if e <= floor || e * due <= e1 || (k > 2 && e * due * due <= errs[errs.len() - 3]) {
            seen = true;
            break;
        }
    }
    g.show("errors", &errs);
    ensure!(seen, "order:rate", "{:?}: dense errors {:?}, halving the step: a factor near {} is due", method, errs, f64::powi(2.0, p));
    Ok(())
}

/// with automatic steps the dense values are as accurate as the steps
fn accuracy(g: &mut G) -> R {
    let method = pick_method(g, &DENSE);
    let pb = prob(g, 4, (0.3, 4.0), if method == Method::Radau5 { 3.0 } else { 0.0 }, 0);
    let tol = g.plog(-9.0, -3.0);
    let mut params = Params::new(method);
    params.set_tolerances(tol, tol, None).unwrap();
    params.radau5.concurrent = false;
    let with_jac = g.bool();
    let k = g.us(5, 60);
    g.show("tolerance, stations", &(tol, k));
    let mut out = Output::new();
    out.set_dense_recording(&(0..pb.n).collect::<Vec<_>>());
    out.set_step_recording(&(0..pb.n).collect::<Vec<_>>());
    must("accuracy:out", "spacing", out.set_dense_h_out((pb.x1 - pb.x0) / k as f64).map(|_| ()))?;
    let mut y = pb.start();
    let r = catch(|| {
        let mut solver = OdeSolver::new(params, pb.system(with_jac))?;
        solver.solve(&mut y, pb.x0, pb.x1, None, &mut Args::default(), Some(&mut out))?;
        Ok::<_, &'static str>(solver.stats().n_accepted)
    });
    let na = match r {
        Ok(Ok(n)) => n,
        r => return fail("accuracy:solve", format!("{:?}", r)),
    };
    if na > 3 && k > 8 {
        g.hit();
    }
    let mut es: f64 = 0.0;
    for (j, x) in out.step_x().iter().enumerate() {
        for i in 0..pb.n {
            es = es.max((out.step_y(i)[j] - pb.yex(i, *x)).abs());
        }
    }
    let mut ed: f64 = 0.0;
    for (j, x) in out.dense_x().iter().enumerate() {
        for i in 0..pb.n {
            ed = ed.max((out.dense_y(i)[j] - pb.yex(i, *x)).abs());
        }
    }
    let b = if method == Method::Radau5 { f64::max(tol, 0.1 * f64::powf(tol, 2.0 / 3.0)) } else { tol };
    let top = (0..pb.n).map(|i| pb.peak(i)).fold(1.0, f64::max);
    let w = ed / (es + b * top);
    if std::env::var("CAL").is_ok() {
        println!("CAL {} {:e} {:e}", name(method), w, tol);
    }
    // the interpolants are not error controlled: single runs reach 500
    let limit = 1e4;
    ensure!(w <= limit, "accuracy:dense", "{:?}: dense error {}, step error {}, tolerance {}, {} steps", method, ed, es, tol, na);
    Ok(())
}
