//! Fixed-step integration: step counts, exactness for polynomials, stability functions, orders.
use crate::util::*;
use russell_lab::{Complex64, Vector};
use russell_ode::*;
use russell_sparse::{CooMatrix, Sym};
use vp_engine::*;

pub fn property() -> Property {
    Property {
        id: "C23",
        assumptions: &[
            "orders are those advertised by the method information table",
            "measured orders may fall 0.6 below the advertised order (1 refinement by four) down to a noise floor",
        ],
        laws: vec![
            Law {
                name: "steps",
                quick: 100000,
                rule: "interval/step not an integer or more than one step",
                f: steps,
            },
            Law {
                name: "poly",
                quick: 100000,
                rule: "polynomial of the highest degree the method integrates exactly",
                f: poly,
            },
            Law {
                name: "linear",
                quick: 100000,
                rule: "at least two steps with |z| > 0.01",
                f: linear,
            },
            Law {
                name: "order",
                quick: 40000,
                rule: "the coarse error is above the noise floor and the refined one had to shrink",
                f: order,
            },
        ],
    }
}

fn tight(method: Method) -> Params {
    let mut params = Params::new(method);
    if method == Method::Radau5 {
        params.set_tolerances(1e-13, 1e-13, Some(1e-4)).unwrap();
    } else {
        params.set_tolerances(1e-13, 1e-13, Some(0.1)).unwrap();
    }
    params.newton.n_iteration_max = 30;
    params.radau5.concurrent = false;
    params
}

fn steps(g: &mut G) -> R {
    let method = pick_method(g, &ALL);
    let x0 = match g.draw(4) {
        0 => 0.0,
        1 => g.f(-10.0, 10.0),
        2 => g.int(-20, 20) as f64 * 0.1,
        _ => g.flog(-3.0, 4.0),
    };
    let (len, h) = match g.draw(4) {
        0 => {
            let h = g.us(1, 20) as f64 * 0.05;
            (h * g.us(1, 60) as f64, h)
        }
        1 => {
            let len = g.plog(-3.0, 2.0);
            (len, len / g.us(1, 100) as f64)
        }
        2 => {
            let len = g.us(1, 50) as f64 * 0.1;
            (len, len / g.us(1, 100) as f64)
        }
        _ => {
            let len = g.plog(-3.0, 2.0);
            (len, len * g.uni(0.01, 1.6))
        }
    };
    let x1 = x0 + len;
    let with_h = !g.chance(1, 5);
    g.show("x0,x1,h", &(x0, x1, h, with_h));
    let info = method.information();
    if !with_h && info.embedded {
        discard!();
    }
    let c = g.f(-3.0, 3.0);
    let mut system = System::new(2, move |f: &mut Vector, _x: f64, _y: &Vector, _: &mut NoArgs| {
        f[0] = c;
        f[1] = 1.0;
        Ok(())
    });
    must("set_jacobian", "set_jacobian", system.set_jacobian(
        Some(2),
        Sym::No,
        |jj: &mut CooMatrix, _a: f64, _x: f64, _y: &Vector, _: &mut NoArgs| {
            jj.reset();
            jj.put(0, 0, 0.0)?;
            jj.put(1, 1, 0.0)
        },
    ))?;
    let mut solver = must("new", "solver", OdeSolver::new(tight(method), system))?;
    let mut out = Output::new();
    out.set_step_recording(&[0, 1]);
    let mut y = Vector::from(&[1.0, x0]);
    let mut args = 0;
    let used = if with_h { Some(h) } else { None };
    must("solve", "constant slope", solver.solve(&mut y, x0, x1, used, &mut args, Some(&mut out)))?;
    let n = solver.stats().n_steps;
    let span = x1 - x0;
    // the number of steps is the smallest one whose steps do not exceed the request
    if with_h {
        let q = span / h;
        let slack = 4.0 * EPS * q;
        let lo = (q - slack).ceil().max(1.0) as usize;
        let hi = (q + slack).ceil().max(1.0) as usize;
        ensure!(n >= lo && n <= hi, "steps:count", "{} steps taken, expected {}..{}", n, lo, hi);
        if n > 1 || (q - q.round()).abs() > 1e-9 {
            g.hit();
        }
    } else {
        ensure!(n == 10, "steps:default", "{} steps taken, expected 10", n);
        g.hit();
    }
    ensure!(solver.stats().n_accepted == n && solver.stats().n_rejected == 0, "steps:accepted", "{:?}", solver.stats());
    ensure!(out.step_x().len() == n + 1, "steps:records", "{} records for {} steps", out.step_x().len(), n);
    let scale = x0.abs().max(x1.abs());
    let tol = 2.0 * EPS * scale * (n as f64 + 2.0);
    for k in 0..=n {
        let want = x0 + span * k as f64 / n as f64;
        near("steps:x", "station", out.step_x()[k], want, tol)?;
        near("steps:h", "step size", out.step_h()[k], span / n as f64, 1e-14 * span)?;
    }
    // slope c over the whole interval, no more and no less
    near("steps:y", "y0 at the end", y[0], 1.0 + c * span, 1e-13 * (1.0 + c.abs() * span) * (n as f64).sqrt().max(1.0) + tol)?;
    near("steps:x1", "y1 follows x", y[1], x1, 4.0 * tol + 1e-13 * scale)?;
    Ok(())
}

fn poly(g: &mut G) -> R {
    let method = pick_method(g, &ALL);
    let order = method.information().order;
    let deg = g.us(0, order - 1);
    let n = g.us(1, 3);
    let x0 = g.f(-2.0, 2.0);
    let len = g.uni(0.1, 3.0);
    let nst = g.us(1, 8);
    let coef: Vec<Vec<f64>> = (0..n).map(|_| (0..=deg).map(|_| g.f(-2.0, 2.0)).collect()).collect();
    g.show("degree", &deg);
    g.show("coefficients", &coef);
    g.show("x0,len,steps", &(x0, len, nst));
    // Euler's methods use one end of the step only
    let cf = coef.clone();
    let mut system = System::new(n, move |f: &mut Vector, x: f64, _y: &Vector, _: &mut NoArgs| {
        for i in 0..f.dim() {
            let mut v = 0.0;
            for k in (0..cf[i].len()).rev() {
                v = v * x + cf[i][k];
            }
            f[i] = v;
        }
        Ok(())
    });
    if g.bool() {
        system
            .set_jacobian(Some(n), Sym::No, move |jj: &mut CooMatrix, _a: f64, _x: f64, _y: &Vector, _: &mut NoArgs| {
                jj.reset();
                for i in 0..n {
                    jj.put(i, i, 0.0)?;
                }
                Ok(())
            })
            .unwrap();
    }
    let mut y = Vector::from(&g.vec_f(n, -2.0, 2.0));
    let start = y.as_data().to_vec();
    let mut solver = must("new", "solver", OdeSolver::new(tight(method), system))?;
    let h = len / nst as f64 * (1.0 + 1e-12);
    must("solve", "polynomial", solver.solve(&mut y, x0, x0 + len, Some(h), &mut 0, None))?;
    if deg == order - 1 {
        g.hit();
    }
    for i in 0..n {
        let mut want = start[i];
        let mut mag = start[i].abs();
        for k in 0..=deg {
            let e = (k + 1) as f64;
            let a = f64::powf((x0 + len).abs().max(x0.abs()), e);
            want += coef[i][k] * (f64::powi(x0 + len, k as i32 + 1) - f64::powi(x0, k as i32 + 1)) / e;
            mag += coef[i][k].abs() * a;
        }
        // the published coefficients of the order-8 method carry about 1e-15
        let tol = 200.0 * EPS * mag * (nst as f64);
        near("poly:y", &format!("component {}", i), y[i], want, tol)?;
    }
    Ok(())
}

/// stability function of each method
fn stability(method: Method, z: Complex64) -> Complex64 {
    let one = Complex64::new(1.0, 0.0);
    let taylor = |p: usize, extra: &[f64]| {
        let mut sum = one;
        let mut term = one;
        let mut k = 1;
        while k <= p {
            term *= z / (k as f64);
            sum += term;
            k += 1;
        }
        let mut power = z.powu(p as u32);
        for c in extra {
            power *= z;
            sum += power * *c;
        }
        sum
    };
    match method {
        Method::FwEuler => taylor(1, &[]),
        Method::BwEuler => one / (one - z),
        Method::Rk2 | Method::MdEuler => taylor(2, &[]),
        Method::Rk3 => taylor(3, &[1.0 / 12.0]),
        Method::Heun3 => taylor(3, &[]),
        Method::Rk4 | Method::Rk4alt | Method::Zonneveld4 => taylor(4, &[]),
        Method::Merson4 => taylor(4, &[1.0 / 144.0]),
        Method::Fehlberg4 => taylor(4, &[1.0 / 104.0]),
        Method::DoPri5 => taylor(5, &[1.0 / 600.0]),
        Method::Verner6 => taylor(6, &[1.0 / 5400.0]),
        Method::Fehlberg7 => taylor(
            7,
            &[2.3165371472663142e-05, 2.3671439526313516e-06, 5.182944877196413e-08, -4.319120730997017e-08],
        ),
        Method::DoPri8 => taylor(
            8,
            &[2.6916922001690835e-06, 2.3413451082097818e-07, 1.494736485459155e-08, 3.613324578128244e-10],
        ),
        Method::Radau5 => {
            (one + 0.4 * z + z * z / 20.0) / (one - 0.6 * z + 0.15 * z * z - z * z * z / 60.0)
        }
    }
}

fn linear(g: &mut G) -> R {
    let method = pick_method(g, &ALL);
    let implicit = method.information().implicit;
    // y1 + i y2 = exp((re + i im) x), mixed by an invertible change of variables
    let nst = g.us(1, 12);
    let h = g.plog(-2.0, 1.0);
    let zmax: f64 = if implicit { 20.0 } else { 1.5 };
    let rad = g.plog(-2.0, zmax.log10());
    let ang = g.uni(std::f64::consts::FRAC_PI_2, std::f64::consts::PI) * if g.bool() { 1.0 } else { -1.0 };
    let (zr, zi) = (rad * ang.cos(), rad * ang.sin());
    let (re, im) = (zr / h, zi / h);
    let x0 = g.f(-3.0, 3.0);
    // A = P [[re,-im],[im,re]] P^-1
    let p = [[1.0, g.uni(-0.5, 0.5)], [g.uni(-0.5, 0.5), 1.0]];
    let det = p[0][0] * p[1][1] - p[0][1] * p[1][0];
    let q = [[p[1][1] / det, -p[0][1] / det], [-p[1][0] / det, p[0][0] / det]];
    let b = [[re, -im], [im, re]];
    let mul = |a: &[[f64; 2]; 2], b: &[[f64; 2]; 2]| {
        let mut c = [[0.0; 2]; 2];
        for i in 0..2 {
            for j in 0..2 {
                c[i][j] = a[i][0] * b[0][j] + a[i][1] * b[1][j];
            }
        }
        c
    };
    let a = mul(&mul(&p, &b), &q);
    let w0 = Complex64::new(g.f(-2.0, 2.0), g.f(-2.0, 2.0));
    g.show("z", &(zr, zi));
    g.show("h,steps,x0", &(h, nst, x0));
    g.show("p", &p);
    g.show("w0", &w0);
    if rad > 0.01 && nst > 1 && w0.norm() > 0.01 {
        g.hit();
    }
    let mut system = System::new(2, move |f: &mut Vector, _x: f64, y: &Vector, _: &mut NoArgs| {
        f[0] = a[0][0] * y[0] + a[0][1] * y[1];
        f[1] = a[1][0] * y[0] + a[1][1] * y[1];
        Ok(())
    });
    system
        .set_jacobian(None, Sym::No, move |jj: &mut CooMatrix, al: f64, _x: f64, _y: &Vector, _: &mut NoArgs| {
            jj.reset();
            for i in 0..2 {
                for j in 0..2 {
                    jj.put(i, j, al * a[i][j])?;
                }
            }
            Ok(())
        })
        .unwrap();
    let mut params = tight(method);
    if method == Method::BwEuler {
        params.bweuler.use_modified_newton = g.bool();
    }
    if method == Method::Radau5 {
        params.radau5.zero_trial = g.bool();
        params.radau5.concurrent = g.chance(1, 8);
    }
    let mut solver = must("new", "solver", OdeSolver::new(params, system))?;
    let mut y = Vector::from(&[p[0][0] * w0.re + p[0][1] * w0.im, p[1][0] * w0.re + p[1][1] * w0.im]);
    let mut out = Output::new();
    out.set_step_recording(&[0, 1]);
    let x1 = x0 + h * nst as f64;
    must("solve", "linear system", solver.solve(&mut y, x0, x1, Some(h * (1.0 + 1e-9)), &mut 0, Some(&mut out)))?;
    ensure!(out.step_x().len() == nst + 1, "linear:count", "{} records", out.step_x().len());
    let hh = (x1 - x0) / nst as f64;
    let rr = stability(method, Complex64::new(re * hh, im * hh));
    let mut w = w0;
    let mut big = w0.norm();
    for k in 0..=nst {
        let want = [p[0][0] * w.re + p[0][1] * w.im, p[1][0] * w.re + p[1][1] * w.im];
        big = big.max(w.norm());
        // rounding of the stages; iterative methods also stop at their tolerance
        let tol = if implicit {
            1e-12 * (1.0 + big) * (k as f64 + 1.0) * (1.0 + rad)
        } else {
            500.0 * EPS * big * (k as f64 + 1.0)
        };
        for m in 0..2 {
            near("linear:y", &format!("y{} after {} steps", m, k), out.step_y(m)[k], want[m], tol)?;
        }
        w *= rr;
    }
    Ok(())
}

fn order(g: &mut G) -> R {
    let method = pick_method(g, &ALL);
    let p = method.information().order;
    let pb = prob(g, 4, (0.5, 2.0), 0.0, 0);
    let nst = match p {
        1 => g.us(40, 80),
        2 => g.us(15, 40),
        3 | 4 => g.us(8, 20),
        _ => g.us(4, 10),
    };
    let len = pb.x1 - pb.x0;
    // stay in the asymptotic range
    let nst = nst.max((pb.lip.max(3.0) * len / if p <= 2 { 0.1 } else { 0.35 }) as usize);
    g.show("steps", &nst);
    let mut params = tight(method);
    let with_jac = g.bool();
    if !with_jac {
        params.newton.use_numerical_jacobian = g.bool();
    }
    let floor = if method.information().implicit { 3e-12 } else { 1e-13 } * (1.0 + len);
    let due = f64::powf(2.0, p as f64 - 0.6);
    let mut errs: Vec<f64> = Vec::new();
    let mut seen = false;
    // halve until the rate shows or the noise floor is reached
    for k in [1, 2, 4, 8, 16] {
        let h = len / (nst * k) as f64 * (1.0 + 1e-9);
        let r = must("order:solve", "fixed steps", run(&pb, params, with_jac, Some(h), "order:panic")?)?;
        ensure!(r.stats.n_steps == nst * k, "order:count", "{} steps", r.stats.n_steps);
        errs.push(max_err(&pb, &r));
        let e = errs[errs.len() - 1];
        if k == 2 {
            if errs[0] > due * floor {
                g.hit();
            }
            continue;
        }
        if k > 1 {
            let e2 = errs[errs.len() - 3];
            let e1 = errs[errs.len() - 2];
            if e <= floor || e * due * due <= e2 || e * due <= e1 {
                seen = true;
                break;
            }
        }
    }
    g.show("errors", &errs);
    ensure!(
        seen,
        "order:rate",
        "{:?}: errors {:?} from {} steps on, halving the step: a factor near {} is due each time",
        method,
        errs,
        nst,
        f64::powi(2.0, p as i32)
    );
    // and the coarse error itself is not off the scale
    ensure!(errs[0] <= 1.0, "order:size", "coarse error {}", errs[0]);
    Ok(())
}
