use russell_ode::prelude::*;
use russell_ode::Samples;
use russell_sparse::{LinSolParams, Ordering, Scaling};
use serde_json::Value;
use std::fs;
use std::process::{Command, Stdio};
use vp_engine::*;

const EPS: f64 = f64::EPSILON;

struct Ended {
    code: Option<i32>,
    out: String,
    err: String,
}

/// runs a program that lies next to this one
fn launch(name: &str, args: &[String]) -> Result<Ended, Stop> {
    let path = std::env::current_exe().unwrap().parent().unwrap().join(name);
    let o = Command::new(&path)
        .args(args)
        .stdin(Stdio::null())
        .output()
        .unwrap_or_else(|e| panic!("cannot run {}: {}", path.display(), e));
    Ok(Ended {
        code: o.status.code(),
        out: String::from_utf8_lossy(&o.stdout).into_owned(),
        err: String::from_utf8_lossy(&o.stderr).into_owned(),
    })
}

/// the report, if there is one
fn report(out: &str) -> Option<Value> {
    let at = if out.starts_with("{\n") { 0 } else { out.find("\n{\n")? + 1 };
    let mut it = serde_json::Deserializer::from_str(&out[at..]).into_iter::<Value>();
    it.next()?.ok()
}

fn num(v: &Value, a: &str, b: &str) -> f64 {
    v[a][b].as_f64().unwrap_or(f64::NAN)
}

type Z = (i128, i128);
fn zmul(a: Z, b: Z) -> Z {
    (a.0 * b.0 - a.1 * b.1, a.0 * b.1 + a.1 * b.0)
}
fn zdiv(a: Z, b: Z) -> Z {
    let d = b.0 * b.0 + b.1 * b.1;
    let n = zmul(a, (b.0, -b.1));
    (n.0 / d, n.1 / d)
}
/// exact determinant over the Gaussian integers (fraction-free elimination)
fn bareiss(mut a: Vec<Vec<Z>>) -> Z {
    let n = a.len();
    let mut prev = (1, 0);
    let mut sign = 1;
    for k in 0..n.saturating_sub(1) {
        if a[k][k] == (0, 0) {
            match (k + 1..n).find(|&r| a[r][k] != (0, 0)) {
                Some(r) => {
                    a.swap(k, r);
                    sign = -sign;
                }
                None => return (0, 0),
            }
        }
        for i in k + 1..n {
            for j in k + 1..n {
                let p = zmul(a[i][j], a[k][k]);
                let q = zmul(a[i][k], a[k][j]);
                a[i][j] = zdiv((p.0 - q.0, p.1 - q.1), prev);
            }
        }
        prev = a[k][k];
    }
    let d = a[n - 1][n - 1];
    (sign * d.0, sign * d.1)
}

/// integer matrix with dominant entries (on the diagonal or on a permutation of it)
struct Mat {
    n: usize,
    complex: bool,
    symmetric: bool,
    z: Vec<Vec<Z>>,
    keep: Vec<Vec<bool>>,
    power: i32,
}

fn matrix(g: &mut G) -> Mat {
    let n = g.rare(1, 7, 25);
    let complex = g.bool();
    let symmetric = g.bool();
    let sparse = g.us(0, 3);
    let mut z = vec![vec![(0, 0); n]; n];
    let mut keep = vec![vec![false; n]; n];
    for i in 0..n {
        for j in 0..n {
            if i == j || (symmetric && j > i) || g.us(0, 3) < sparse {
                continue;
            }
            keep[i][j] = true;
            z[i][j] = (g.int(-3, 3) as i128, if complex { g.int(-3, 3) as i128 } else { 0 });
        }
    }
    if symmetric {
        for i in 0..n {
            for j in 0..i {
                keep[j][i] = keep[i][j];
                z[j][i] = z[i][j];
            }
        }
    }
    for i in 0..n {
        let sum: i128 = z[i].iter().map(|v| v.0.abs() + v.1.abs()).sum();
        let d = sum + g.int(1, 3) as i128;
        keep[i][i] = true;
        z[i][i] = (if g.bool() { d } else { -d }, if complex { g.int(-3, 3) as i128 } else { 0 });
    }
    if !symmetric && g.bool() {
        let p = g.perm(n);
        z = p.iter().map(|&k| z[k].clone()).collect();
        keep = p.iter().map(|&k| keep[k].clone()).collect();
    }
    let power = *g.pick(&[0, 0, 0, -20, 17]);
    Mat { n, complex, symmetric, z, keep, power }
}

impl Mat {
    fn scale(&self) -> f64 {
        f64::powi(2.0, self.power)
    }
    /// lines of the file
    fn lines(&self, g: &mut G) -> Vec<String> {
        let kind = if self.symmetric { "symmetric" } else { "general" };
        let mut l = vec![format!("%%MatrixMarket matrix coordinate {} {}", if self.complex { "complex" } else { "real" }, kind)];
        for _ in 0..g.us(0, 2) {
            l.push(g.pick(&["% comment", "%", "% 1 2 3"]).to_string());
        }
        let mut e = vec![];
        for i in 0..self.n {
            for j in 0..self.n {
                if self.keep[i][j] && (!self.symmetric || j <= i) {
                    e.push((i, j));
                }
            }
        }
        l.push(format!("{} {} {}", self.n, self.n, e.len()));
        for k in g.perm(e.len()) {
            let (i, j) = e[k];
            let v = self.z[i][j];
            let (re, im) = (v.0 as f64 * self.scale(), v.1 as f64 * self.scale());
            let pos = format!("{} {}", i + 1, j + 1);
            l.push(match (self.complex, g.bool()) {
                (true, true) => format!("{pos} {re:?} {im:?}"),
                (true, false) => format!("{pos} {re:e} {im:e}"),
                (false, true) => format!("{pos} {re:?}"),
                (false, false) => format!("{pos} {re:e}"),
            });
        }
        l
    }
}

fn any_case(g: &mut G, s: &str) -> String {
    match g.draw(3) {
        0 => s.to_string(),
        1 => s.to_lowercase(),
        _ => s.to_uppercase(),
    }
}

const ORDERINGS: [&str; 11] = ["Amd", "Amf", "Auto", "Best", "Cholmod", "Colamd", "Metis", "No", "Pord", "Qamd", "Scotch"];
const SCALINGS: [&str; 9] = ["Auto", "Column", "Diagonal", "Max", "No", "RowCol", "RowColIter", "RowColRig", "Sum"];

/// option text and the name expected in the report
fn choice(g: &mut G, list: &[&str]) -> (String, String) {
    if g.chance(1, 8) {
        (g.pick(&["nothing", "", "amdd", "su m"]).to_string(), "Auto".to_string())
    } else {
        let s = *g.pick(list);
        (any_case(g, s), s.to_string())
    }
}

fn option(g: &mut G, args: &mut Vec<String>, short: &str, long: &str, value: &str) {
    if g.bool() {
        args.push(short.to_string());
        args.push(value.to_string());
    } else {
        args.push(format!("{}={}", long, value));
    }
}

fn flag(g: &mut G, args: &mut Vec<String>, short: &str, long: &str) -> bool {
    let on = g.bool();
    if on {
        args.push(if g.bool() { short } else { long }.to_string());
    }
    on
}

fn solve(g: &mut G) -> R {
    let m = matrix(g);
    let lines = m.lines(g);
    g.show("file", &lines);
    let name = *g.pick(&["a", "mat.v2", "x-y_z"]);
    let path = g.scratch.join(format!("{}.mtx", name));
    let mut text = lines.join("\n");
    text.push('\n');
    fs::write(&path, &text).unwrap();

    let mut args = vec![];
    let mut ordering = "Auto".to_string();
    let mut scaling = "Auto".to_string();
    if g.bool() {
        let (t, w) = choice(g, &ORDERINGS);
        option(g, &mut args, "-o", "--ordering", &t);
        ordering = w;
    }
    if g.bool() {
        let (t, w) = choice(g, &SCALINGS);
        option(g, &mut args, "-s", "--scaling", &t);
        scaling = w;
    }
    if g.chance(1, 4) {
        let t = any_case(g, "Umfpack");
        option(g, &mut args, "-g", "--genie", &t);
    }
    let mut runs = 1;
    if g.bool() {
        runs = g.us(1, 4);
        option(g, &mut args, "-r", "--nrun", &runs.to_string());
    }
    let mut mumps = 0;
    if g.chance(1, 4) {
        mumps = g.us(0, 3);
        option(g, &mut args, "-m", "--mumps-nt", &mumps.to_string());
    }
    let mut factor = None;
    if g.chance(1, 4) {
        let f = *g.pick(&[0.01, 0.99, 0.5]);
        option(g, &mut args, "-h", "--hybrid-memory-factor", &f.to_string());
        factor = Some(f);
    }
    let det = flag(g, &mut args, "-d", "--determinant");
    let positive = flag(g, &mut args, "-p", "--positive-definite");
    flag(g, &mut args, "-u", "--enforce-unsymmetric-strategy");
    if g.chance(1, 4) {
        flag(g, &mut args, "-x", "--error-estimates");
        flag(g, &mut args, "-y", "--condition-numbers");
    }
    let hide = g.chance(1, 6);
    if hide && g.bool() {
        // the log of the back-end would be mixed with the report
        args.push("-v".to_string());
        g.class("verbose");
    }
    if hide {
        args.push("--hide-json".to_string());
    }
    let at = if g.bool() { 0 } else { args.len() };
    g.show("options", &args);
    args.insert(at, path.to_str().unwrap().to_string());

    let e = launch("solve_matrix_market", &args)?;
    let _ = fs::remove_file(&path);
    ensure!(e.code == Some(0), "solve:exit", "exit {:?}: {} {}", e.code, e.out, e.err);
    g.hit();
    let r = report(&e.out);
    if hide {
        g.class("no report");
        ensure!(r.is_none(), "solve:hide", "a report although hidden");
        return Ok(());
    }
    let Some(v) = r else { return fail("solve:report", format!("no report in {:?}", e.out)) };

    // identification
    let info = &v["main"];
    ensure!(info["solver"] == "UMFPACK" && info["platform"] == "Russell", "solve:main", "{}", info);
    ensure!(info["out_of_memory"] == false && info["local_sparse"] == false, "solve:main", "{}", info);

    // the matrix
    let full: usize = m.keep.iter().map(|r| r.iter().filter(|k| **k).count()).sum();
    let a = &v["matrix"];
    ensure!(a["name"] == name, "solve:matrix", "name {}", a["name"]);
    ensure!(a["nrow"] == m.n && a["ncol"] == m.n, "solve:matrix", "dimensions {} {}", a["nrow"], a["ncol"]);
    ensure!(a["nnz"] == full && a["nnz_actual"] == full, "solve:matrix", "entries {} {} instead of {}", a["nnz"], a["nnz_actual"], full);
    ensure!(a["complex"] == m.complex, "solve:matrix", "complex {}", a["complex"]);
    ensure!(a["symmetric"] == if m.symmetric { "YesFull" } else { "No" }, "solve:matrix", "symmetric {}", a["symmetric"]);

    // the options
    let q = &v["requests"];
    ensure!(q["ordering"] == ordering && q["scaling"] == scaling, "solve:requests", "{} instead of {} {}", q, ordering, scaling);
    ensure!(q["positive_definite"] == positive, "solve:requests", "positive definite {}", q["positive_definite"]);
    ensure!(q["mumps_num_threads"] == mumps, "solve:requests", "threads {}", q["mumps_num_threads"]);
    ensure!(q["hybrid_memory_factor"].as_f64() == factor, "solve:requests", "factor {}", q["hybrid_memory_factor"]);
    if ["Max", "Sum", "No"].contains(&scaling.as_str()) {
        ensure!(v["output"]["effective_scaling"] == scaling, "solve:scaling", "{} instead of {}", v["output"]["effective_scaling"], scaling);
    }
    let rcond = num(&v, "output", "umfpack_rcond_estimate");
    ensure!(rcond > 0.0 && rcond <= 1.0, "solve:rcond", "estimate {}", rcond);

    // the determinant
    let s = m.scale();
    if det && m.n <= 7 {
        g.class("determinant");
        let d = bareiss(m.z.clone());
        let had: f64 = m.z.iter().map(|r| r.iter().map(|c| (c.0 * c.0 + c.1 * c.1) as f64).sum::<f64>().sqrt()).product();
        let f = f64::powf(10.0, num(&v, "determinant", "exponent")) / f64::powi(s, m.n as i32);
        let tol = 1e3 * (m.n * m.n) as f64 * EPS * had;
        ensure!(num(&v, "determinant", "base") == 10.0, "solve:determinant", "base {}", v["determinant"]["base"]);
        near("solve:determinant", "real part", num(&v, "determinant", "mantissa_real") * f, d.0 as f64, tol)?;
        near("solve:determinant", "imaginary part", num(&v, "determinant", "mantissa_imag") * f, d.1 as f64, tol)?;
    }

    // the verification
    let max_a = m.z.iter().flatten().map(|c| f64::hypot(c.0 as f64, c.1 as f64) * s).fold(0.0, f64::max);
    let one = if m.complex { f64::sqrt(2.0) } else { 1.0 };
    near("solve:verify", "largest entry", num(&v, "verify", "max_abs_a"), max_a, 4.0 * EPS * max_a)?;
    let tol = 1e-11 * m.n as f64;
    near("solve:verify", "largest component of the product", num(&v, "verify", "max_abs_ax"), one, tol)?;
    let diff = num(&v, "verify", "max_abs_diff");
    ensure!(diff >= 0.0 && diff <= tol, "solve:verify", "residual {:e}", diff);
    near("solve:verify", "relative error", num(&v, "verify", "relative_error"), diff / (max_a + 1.0), 8.0 * EPS * diff)?;

    // the times
    let t = &v["time_nanoseconds"];
    let h = &v["time_human"];
    let mut total = vec![0u64; runs];
    for key in ["initialize", "factorize", "solve", "total_ifs"] {
        let list: Vec<u64> = t[format!("{}_array", key)].as_array().map(|l| l.iter().map(|x| x.as_u64().unwrap_or(u64::MAX)).collect()).unwrap_or_default();
        ensure!(list.len() == runs, "solve:times", "{} times of {} for {} runs", list.len(), key, runs);
        ensure!(h[format!("{}_array", key)].as_array().map(|l| l.len()) == Some(runs), "solve:times", "texts of {}", key);
        let mean = list.iter().map(|x| *x as f64).sum::<f64>() / runs as f64;
        near("solve:times", "mean time", t[key].as_u64().unwrap_or(0) as f64, mean, 1.0 + 1e-9 * mean)?;
        if key == "total_ifs" {
            ensure!(list == total, "solve:times", "totals {:?} instead of {:?}", list, total);
        } else {
            for i in 0..runs {
                total[i] += list[i];
            }
        }
    }
    if runs > 1 {
        g.class("several runs");
    }
    if m.symmetric {
        g.class("symmetric");
    }
    Ok(())
}

fn refused(key: &'static str, e: &Ended) -> R {
    ensure!(e.code == Some(1), key, "exit {:?} instead of an error: {} {}", e.code, e.out, e.err);
    ensure!(report(&e.out).is_none(), key, "a report in spite of the error");
    ensure!(!e.err.trim().is_empty(), key, "no message");
    Ok(())
}

fn refuse(g: &mut G) -> R {
    let mut m = matrix(g);
    let mut args = vec![];
    let mut lines = m.lines(g);
    let first = lines.iter().position(|l| !l.starts_with('%')).unwrap();
    let kind = g.draw(8);
    let mut key = "refuse:file";
    let path = g.scratch.join("m.mtx");
    let mut file = path.to_str().unwrap().to_string();
    match kind {
        0 => {
            file = g.scratch.join("missing.mtx").to_str().unwrap().to_string();
            g.class("missing");
        }
        1 => {
            g.class("malformed");
            match g.draw(8) {
                0 => lines.clear(),
                1 => lines[0] = g.pick(&["%%MatrixMarket matrix array real general", "%MatrixMarket", "%%MatrixMarket matrix coordinate pattern general"]).to_string(),
                2 => lines.truncate(first),
                3 => {
                    lines.pop();
                }
                4 => *lines.last_mut().unwrap() = if m.complex { "0 1 1.0 1.0" } else { "0 1 1.0" }.to_string(),
                5 => *lines.last_mut().unwrap() = format!("{} 1 1.0 1.0", m.n + 1),
                6 => *lines.last_mut().unwrap() = "1 1 a b".to_string(),
                _ => lines[first] = format!("{} {} {}", m.n, m.n, lines.len() - first + 3),
            }
        }
        2 => {
            g.class("singular");
            key = "refuse:singular";
            let k = g.us(0, m.n - 1);
            let row = m.symmetric || g.bool();
            let drop = g.bool() && m.n > 1;
            for i in 0..m.n {
                for j in 0..m.n {
                    if (row && i == k) || ((m.symmetric || !row) && j == k) {
                        m.z[i][j] = (0, 0);
                        m.keep[i][j] = m.keep[i][j] && !drop;
                    }
                }
            }
            lines = m.lines(g);
        }
        3 => {
            g.class("rectangular");
            key = "refuse:rectangular";
            if m.symmetric {
                discard!();
            }
            let extra = g.us(1, 3);
            let count = lines.len() - first - 1;
            lines[first] = if g.bool() { format!("{} {} {}", m.n + extra, m.n, count) } else { format!("{} {} {}", m.n, m.n + extra, count) };
        }
        4 => {
            g.class("solver not available");
            key = "refuse:solver";
            let s = *g.pick(&["Mumps", "Cudss"]);
            let s = any_case(g, s);
            option(g, &mut args, "-g", "--genie", &s);
        }
        5 => {
            g.class("factor");
            key = "refuse:factor";
            args.push(format!("--hybrid-memory-factor={}", g.pick(&["0.0", "0.00999", "0.9901", "1", "-0.5", "7"])));
        }
        6 => {
            g.class("options");
            key = "refuse:options";
            match g.draw(4) {
                0 => args.push("--unknown".to_string()),
                1 => args.push("--nrun=x".to_string()),
                2 => args.push("--nrun=-1".to_string()),
                _ => args.push("second.mtx".to_string()),
            }
        }
        _ => {
            file = g.scratch.to_str().unwrap().to_string();
            g.class("directory");
        }
    }
    g.show("file", &lines);
    g.show("options", &args);
    fs::write(&path, lines.join("\n")).unwrap();
    args.insert(0, file);
    let e = launch("solve_matrix_market", &args)?;
    let _ = fs::remove_file(&path);
    g.hit();
    refused(key, &e)
}

fn brusselator(g: &mut G) -> R {
    let mut args = vec![];
    let first = g.bool();
    if first {
        args.push("--first-book".to_string());
    }
    let npoint = g.us(3, 8);
    args.push(format!("--npoint={}", npoint));
    let (d5, d8) = (g.chance(1, 3), g.chance(1, 3));
    if d5 {
        args.push("--dopri5".to_string());
    }
    if d8 {
        args.push("--dopri8".to_string());
    }
    let mut exp = 4;
    if g.bool() {
        exp = g.int(2, 7);
        args.push(format!("--neg-exp-tol={}", exp));
    }
    let serial = g.bool();
    if serial {
        args.push("--serial".to_string());
    }
    args.push("--blas-nt=1".to_string());
    let (mut ordering, mut scaling) = ("Auto".to_string(), "Auto".to_string());
    if g.bool() {
        (ordering, _) = choice(g, &ORDERINGS);
        option(g, &mut args, "-o", "--ordering", &ordering);
    }
    if g.bool() {
        (scaling, _) = choice(g, &SCALINGS);
        option(g, &mut args, "-s", "--scaling", &scaling);
    }
    let bad = g.chance(1, 5);
    if bad {
        let (what, value) = *g.pick(&[
            ("--npoint", "1"),
            ("--npoint", "0"),
            ("--neg-exp-tol", "0"),
            ("--neg-exp-tol", "31"),
            ("--blas-nt", "0"),
            ("--blas-nt", "33"),
        ]);
        args.retain(|a| !a.starts_with(what));
        args.push(format!("{}={}", what, value));
    }
    g.show("options", &args);
    let e = launch("brusselator_pde", &args)?;
    g.hit();
    if bad {
        g.class("refused");
        ensure!(e.code == Some(1), "program:refuse", "exit {:?} instead of an error: {} {}", e.code, e.out, e.err);
        ensure!(e.out.trim().is_empty(), "program:refuse", "output {:?}", e.out);
        return Ok(());
    }
    ensure!(e.code == Some(0), "program:exit", "exit {:?}: {} {}", e.code, e.out, e.err);

    // the same with the library
    let method = if d8 {
        Method::DoPri8
    } else if d5 {
        Method::DoPri5
    } else {
        Method::Radau5
    };
    let alpha = if first { 2e-3 } else { 0.1 };
    let (system, t0, mut y, mut a) = Samples::brusselator_pde(alpha, npoint, !first, false);
    let mut params = Params::new(method);
    let tol = f64::powi(10.0, -(exp as i32));
    params.step.h_ini = 1e-4;
    params.radau5.concurrent = false;
    must("program:library", "tolerances", params.set_tolerances(tol, tol, None))?;
    let mut ls = LinSolParams::new();
    ls.ordering = Ordering::from(&ordering);
    ls.scaling = Scaling::from(&scaling);
    params.newton.lin_sol_params = Some(ls);
    let (ndim, nnz) = (system.get_ndim(), system.get_jac_nnz());
    let mut solver = must("program:library", "solver", OdeSolver::new(params, system))?;
    must("program:library", "solve", solver.solve(&mut y, t0, 1.5, None, &mut a, None))?;
    let head = format!(
        "Second-book problem              = {}\n\
         Number of points along x and y   = {}\n\
         Tolerance (abs_tol = rel_tol)    = 1.00E-{:02}\n\
         Concurrent real and complex sys  = {}\n\
         Problem dimension (ndim)         = {}\n\
         Number of non-zeros (jac_nnz)    = {}\n\
         Number of BLAS threads           = 1\n\
         Linear solver                    = Umfpack\n",
        !first, npoint, exp, !serial, ndim, nnz
    );
    let want = format!("{}{}", head, solver.stats());
    ensure!(ndim == 2 * npoint * npoint, "program:library", "dimension {}", ndim);
    let (got, want): (Vec<&str>, Vec<&str>) = (e.out.trim_end().lines().collect(), want.lines().collect());
    ensure!(got.len() == want.len(), "program:report", "{:?} instead of {:?}", got, want);
    for (x, y) in got.iter().zip(want.iter()) {
        let timed = y.to_lowercase().contains("time");
        if timed {
            ensure!(x.split('=').next() == y.split('=').next(), "program:report", "{:?} instead of {:?}", x, y);
        } else {
            ensure!(x.split_whitespace().eq(y.split_whitespace()), "program:report", "{:?} instead of {:?}", x, y);
        }
    }
    g.class(if d8 { "DoPri8" } else if d5 { "DoPri5" } else { "Radau5" });
    Ok(())
}

pub fn property() -> Property {
    Property {
        id: "C38",
        assumptions: &[
            "only the UMFPACK back-end is available",
            "the option that writes the matrix below /tmp is not used",
        ],
        laws: vec![
            Law { name: "solve", quick: 6000, rule: "a generated file was solved by the program and the report compared", f: solve },
            Law { name: "refuse", quick: 4000, rule: "the program was given a bad file, matrix or option", f: refuse },
            Law { name: "brusselator", quick: 1200, rule: "the program was run and compared with the library", f: brusselator },
        ],
    }
}
