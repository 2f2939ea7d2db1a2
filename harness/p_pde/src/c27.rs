//! Finite differences.
use crate::util::*;
use russell_lab::Vector;
use russell_pde::*;
use russell_sparse::Genie;
use vp_engine::*;

pub fn property() -> Property {
    Property {
        id: "C27",
        assumptions: &[
            "the coefficients are positive and the problem has exactly one solution (a prescribed value or a zero-order term)",
            "periodic: the last node of a row is the neighbour of the first one (one spacing away)",
            "two prescribed sides with different values at their common corner: either value is accepted there",
        ],
        laws: vec![
            Law {
                name: "line",
                quick: 100000,
                rule: "three nodes or more, with at least one unknown",
                f: line,
            },
            Law {
                name: "plane",
                quick: 50000,
                rule: "nine nodes or more, with at least one unknown",
                f: plane,
            },
            Law {
                name: "exact",
                quick: 100000,
                rule: "four nodes or more along each direction",
                f: exact,
            },
            Law {
                name: "converge",
                quick: 15000,
                rule: "the error of the coarse grid is well above the rounding errors",
                f: converge,
            },
        ],
    }
}

fn run1(key: &'static str, p: &Fdm1d, alpha: f64, s: &Field, lmm: bool) -> Result<Vec<f64>, Stop> {
    let r = catch(|| if lmm { p.solve_lmm(alpha, |x| s.v(x, 0.0)) } else { p.solve_sps(alpha, |x| s.v(x, 0.0)) });
    match r {
        Ok(Ok(a)) => Ok(a.as_data().to_vec()),
        Ok(Err(e)) => fail(key, format!("{} with {}", e, if lmm { "multipliers" } else { "elimination" })),
        Err((m, l)) => fail(key, format!("{} at {} with {}", m, l, if lmm { "multipliers" } else { "elimination" })),
    }
}

fn run2(key: &'static str, p: &Fdm2d, alpha: f64, s: impl Fn(f64, f64) -> f64, lmm: bool) -> Result<Vec<f64>, Stop> {
    let r = catch(|| if lmm { p.solve_lmm(alpha, &s) } else { p.solve_sps(alpha, &s) });
    match r {
        Ok(Ok(a)) => Ok(a.as_data().to_vec()),
        Ok(Err(e)) => fail(key, format!("{} with {}", e, if lmm { "multipliers" } else { "elimination" })),
        Err((m, l)) => fail(key, format!("{} at {} with {}", m, l, if lmm { "multipliers" } else { "elimination" })),
    }
}

fn top(a: &[f64]) -> f64 {
    a.iter().fold(0.0, |m, v| f64::max(m, v.abs()))
}

/// one direction of the stencil: neighbours of index i, and the flux side if the neighbour is a ghost
fn neighbours(i: usize, n: usize, k: &[Kind]) -> [(usize, Option<usize>); 2] {
    let periodic = k[0] == Kind::P;
    let a = if i > 0 {
        (i - 1, None)
    } else if periodic {
        (n - 1, None)
    } else {
        (1, Some(0))
    };
    let b = if i + 1 < n {
        (i + 1, None)
    } else if periodic {
        (0, None)
    } else {
        (n - 2, Some(1))
    };
    [a, b]
}

/// any data: the solution satisfies the difference equations
fn line(g: &mut G) -> R {
    let k = kinds(g, 1, true);
    let n = if k[0] == Kind::P { g.rare(3, 30, 150) } else { g.rare(2, 30, 150) };
    let o = [g.f(-3.0, 3.0), 0.0];
    let l = [g.plog(-1.0, 1.0), 1.0];
    let kx = if g.chance(1, 4) { -g.plog(-1.0, 1.0) } else { g.plog(-1.0, 1.0) };
    let al = alpha(g, kx / (l[0] * l[0]), !k.contains(&Kind::E));
    let e: Vec<Field> = (0..2).map(|_| any_field(g, o, l, 1)).collect();
    let q: Vec<Field> = (0..2).map(|_| any_field(g, o, l, 1)).collect();
    let s = any_field(g, o, l, 1);
    g.show("sides, nodes, start, length, k, alpha", &(&k, n, o[0], l[0], kx, al));
    g.show("source", &s);
    let free = n - k.iter().filter(|x| **x == Kind::E).count();
    if n > 2 && free > 0 {
        g.hit();
    }
    let mut all = Vec::new();
    for symmetric in [true, false] {
        let grid = must("line:grid", "grid", Grid1d::new_uniform(o[0], o[0] + l[0], n))?;
        let qq = q.clone();
        let (eb, nb) = bcs1(g, &k, &e, move |s, x| qq[s].v(x, 0.0));
        let mut p = must("line:new", "solver", Fdm1d::new(grid, eb, nb, kx))?;
        p.set_solver_options(Genie::Umfpack, symmetric);
        for lmm in [false, true] {
            all.push(run1("line:solve", &p, al, &s, lmm)?);
        }
    }
    let a = &all[0];
    let dx = l[0] / (n - 1) as f64;
    ensure!(a.len() == n, "line:size", "{} values for {} nodes", a.len(), n);
    let big = top(a) + 1e-300;
    for b in &all {
        for m in 0..n {
            ensure!((a[m] - b[m]).abs() <= 1e-8 * big, "line:agree", "node {}: {} and {}", m, a[m], b[m]);
        }
    }
    for m in 0..n {
        let x = o[0] + dx * m as f64;
        let sd = if m == 0 { Some(0) } else if m == n - 1 { Some(1) } else { None };
        if let Some(sd) = sd {
            if k[sd] == Kind::E {
                let v = e[sd].v(x, 0.0);
                for b in &all {
                    near("line:prescribed", "value at a prescribed node", b[m], v, 1e-9 * (v.abs() + big))?;
                }
                continue;
            }
        }
        let mut r = al * a[m] - s.v(x, 0.0);
        let c = kx / (dx * dx);
        for (j, ghost) in neighbours(m, n, &k) {
            r += c * (a[m] - a[j]);
            if let Some(sd) = ghost {
                r += 2.0 / dx * q[sd].v(x, 0.0);
            }
        }
        let scale = (4.0 * c + al).abs() * big + s.v(x, 0.0).abs();
        ensure!(r.abs() <= 1e-9 * scale, "line:equation", "node {}: residual {} (scale {})", m, r, scale);
    }
    Ok(())
}

fn plane(g: &mut G) -> R {
    let k = kinds(g, 2, true);
    let mut n = [0, 0];
    for d in 0..2 {
        n[d] = if k[2 * d] == Kind::P { g.rare(3, 9, 20) } else { g.rare(2, 9, 20) };
    }
    let o = [g.f(-3.0, 3.0), g.f(-3.0, 3.0)];
    let lx = g.plog(-1.0, 1.0);
    let l = [lx, lx * g.plog(-0.5, 0.5)];
    let kx = if g.chance(1, 4) { -g.plog(-1.0, 1.0) } else { g.plog(-1.0, 1.0) };
    let ky = kx * g.plog(-0.7, 0.7);
    let al = alpha(g, kx / (lx * lx), !k.contains(&Kind::E));
    let e: Vec<Field> = (0..4).map(|_| any_field(g, o, l, 2)).collect();
    let q: Vec<Field> = (0..4).map(|_| any_field(g, o, l, 2)).collect();
    let s = any_field(g, o, l, 2);
    g.show("sides", &k);
    g.show("nodes, start, lengths", &(n, o, l));
    g.show("kx, ky, alpha", &(kx, ky, al));
    let (nx, ny) = (n[0], n[1]);
    let which = |i: usize, j: usize| -> Vec<usize> {
        let mut v = Vec::new();
        if i == 0 {
            v.push(0);
        }
        if i == nx - 1 {
            v.push(1);
        }
        if j == 0 {
            v.push(2);
        }
        if j == ny - 1 {
            v.push(3);
        }
        v
    };
    let mut free = 0;
    for j in 0..ny {
        for i in 0..nx {
            if !which(i, j).iter().any(|s| k[*s] == Kind::E) {
                free += 1;
            }
        }
    }
    if nx * ny >= 9 && free > 0 {
        g.hit();
    }
    if k[0] == Kind::P && k[2..].contains(&Kind::N) || k[2] == Kind::P && k[..2].contains(&Kind::N) {
        g.class("periodic and flux");
    }
    if free == 0 {
        g.class("all prescribed");
    }
    let mut all = Vec::new();
    for symmetric in [true, false] {
        let grid = must("plane:grid", "grid", Grid2d::new_uniform(o[0], o[0] + l[0], o[1], o[1] + l[1], nx, ny))?;
        let qq = q.clone();
        let (eb, nb) = bcs2(g, &k, &e, move |s, x, y| qq[s].v(x, y));
        let mut p = must("plane:new", "solver", Fdm2d::new(grid, eb, nb, kx, ky))?;
        p.set_solver_options(Genie::Umfpack, symmetric);
        for lmm in [false, true] {
            all.push(run2("plane:solve", &p, al, |x, y| s.v(x, y), lmm)?);
        }
    }
    let a = &all[0];
    ensure!(a.len() == nx * ny, "plane:size", "{} values for {} nodes", a.len(), nx * ny);
    let big = top(a) + 1e-300;
    for b in &all {
        for m in 0..nx * ny {
            ensure!((a[m] - b[m]).abs() <= 1e-8 * big, "plane:agree", "node {}: {} and {}", m, a[m], b[m]);
        }
    }
    let dx = l[0] / (nx - 1) as f64;
    let dy = l[1] / (ny - 1) as f64;
    let (cx, cy) = (kx / (dx * dx), ky / (dy * dy));
    for j in 0..ny {
        for i in 0..nx {
            let m = i + j * nx;
            let (x, y) = (o[0] + dx * i as f64, o[1] + dy * j as f64);
            let es: Vec<usize> = which(i, j).into_iter().filter(|s| k[*s] == Kind::E).collect();
            if es.len() > 0 {
                for b in &all {
                    let ok = es.iter().any(|sd| (b[m] - e[*sd].v(x, y)).abs() <= 1e-9 * (e[*sd].v(x, y).abs() + big));
                    ensure!(ok, "plane:prescribed", "node ({},{}) holds {} instead of {}", i, j, b[m], e[es[0]].v(x, y));
                }
                continue;
            }
            let mut r = al * a[m] - s.v(x, y);
            let mut extra = s.v(x, y).abs();
            for (w, ghost) in neighbours(i, nx, &k[..2]) {
                r += cx * (a[m] - a[w + j * nx]);
                if let Some(sd) = ghost {
                    let z = 2.0 / dx * q[sd].v(x, y);
                    r += z;
                    extra += z.abs();
                }
            }
            for (w, ghost) in neighbours(j, ny, &k[2..]) {
                r += cy * (a[m] - a[i + w * nx]);
                if let Some(sd) = ghost {
                    let z = 2.0 / dy * q[2 + sd].v(x, y);
                    r += z;
                    extra += z.abs();
                }
            }
            let scale = (4.0 * (cx + cy) + al).abs() * big + extra;
            ensure!(r.abs() <= 1e-9 * scale, "plane:equation", "node ({},{}): residual {} (scale {})", i, j, r, scale);
        }
    }
    Ok(())
}

/// low polynomial degree: the solution itself
fn exact(g: &mut G) -> R {
    let two = g.bool();
    let dims = if two { 2 } else { 1 };
    let k = kinds(g, dims, false);
    let o = [g.f(-3.0, 3.0), if two { g.f(-3.0, 3.0) } else { 0.0 }];
    let lx = g.plog(-1.0, 1.0);
    let l = [lx, lx * g.plog(-0.5, 0.5)];
    let kx = if g.chance(1, 4) { -g.plog(-1.0, 1.0) } else { g.plog(-1.0, 1.0) };
    let ky = kx * g.plog(-0.7, 0.7);
    let al = alpha(g, kx / (lx * lx), !k.contains(&Kind::E));
    let deg = |i: usize| if k[2 * i] == Kind::E && k[2 * i + 1] == Kind::E { 3 } else { 2 };
    let f = polynomial(g, o, l, deg(0), if two { deg(1) } else { 0 });
    let n: Vec<usize> = (0..dims).map(|_| if two { g.rare(2, 9, 20) } else { g.rare(2, 30, 150) }).collect();
    g.show("sides, nodes", &(&k, &n));
    g.show("start, lengths, kx, ky, alpha", &(o, l, kx, ky, al));
    g.show("solution", &f);
    if n.iter().all(|n| *n > 3) {
        g.hit();
    }
    let lmm = g.bool();
    let tol = 1e-8 * (f.size() + 1e-300);
    let e = vec![f.clone(); 4];
    let ff = f.clone();
    if two {
        let grid = must("exact:grid", "grid", Grid2d::new_uniform(o[0], o[0] + l[0], o[1], o[1] + l[1], n[0], n[1]))?;
        let (eb, nb) = bcs2(g, &k, &e, move |s, x, y| ff.flux(s, kx, ky, x, y));
        let p = must("exact:new", "solver", Fdm2d::new(grid, eb, nb, kx, ky))?;
        let mut same = true;
        p.for_each_coord(|m, x, y| same = same && p.get_grid().coord(m) == (x, y));
        ensure!(same, "exact:grid", "the grid of the solver has other coordinates");
        let a = run2("exact:solve", &p, al, |x, y| f.source(kx, ky, al, x, y), lmm)?;
        let mut r = Ok(());
        p.for_each_coord(|m, x, y| {
            if r.is_ok() {
                r = near("exact:plane", &format!("node {}", m), a[m], f.v(x, y), tol);
            }
        });
        r
    } else {
        let grid = must("exact:grid", "grid", Grid1d::new_uniform(o[0], o[0] + l[0], n[0]))?;
        let (eb, nb) = bcs1(g, &k, &e, move |s, x| ff.flux(s, kx, ky, x, 0.0));
        let p = must("exact:new", "solver", Fdm1d::new(grid, eb, nb, kx))?;
        let mut same = true;
        p.for_each_coord(|m, x| same = same && p.get_grid().coord(m) == x);
        ensure!(same, "exact:grid", "the grid of the solver has other coordinates");
        let r = catch(|| if lmm { p.solve_lmm(al, |x| f.source(kx, 0.0, al, x, 0.0)) } else { p.solve_sps(al, |x| f.source(kx, 0.0, al, x, 0.0)) });
        let a: Vector = match r {
            Ok(Ok(a)) => a,
            r => return fail("exact:solve", format!("{:?}", r.map(|_| ()))),
        };
        let mut r = Ok(());
        p.for_each_coord(|m, x| {
            if r.is_ok() {
                r = near("exact:line", &format!("node {}", m), a[m], f.v(x, 0.0), tol);
            }
        });
        r
    }
}

/// second order for smooth solutions
fn converge(g: &mut G) -> R {
    let k = kinds(g, 2, false);
    let o = [g.f(-3.0, 3.0), g.f(-3.0, 3.0)];
    let lx = g.plog(-1.0, 1.0);
    let l = [lx, lx * g.plog(-0.3, 0.3)];
    let kx = if g.chance(1, 4) { -g.plog(-1.0, 1.0) } else { g.plog(-1.0, 1.0) };
    let ky = kx * g.plog(-0.3, 0.3);
    let al = alpha(g, kx / (lx * lx), !k.contains(&Kind::E));
    let f = waves(g, o, l, 3.0, 2);
    g.show("sides", &k);
    g.show("start, lengths, kx, ky, alpha", &(o, l, kx, ky, al));
    g.show("solution", &f);
    let n0 = [g.us(5, 7), g.us(5, 7)];
    let error = |g: &mut G, n: [usize; 2]| -> Result<f64, Stop> {
        let grid = must("converge:grid", "grid", Grid2d::new_uniform(o[0], o[0] + l[0], o[1], o[1] + l[1], n[0], n[1]))?;
        let e = vec![f.clone(); 4];
        let ff = f.clone();
        let (eb, nb) = bcs2(g, &k, &e, move |s, x, y| ff.flux(s, kx, ky, x, y));
        let p = must("converge:new", "solver", Fdm2d::new(grid, eb, nb, kx, ky))?;
        let a = run2("converge:solve", &p, al, |x, y| f.source(kx, ky, al, x, y), false)?;
        let mut err: f64 = 0.0;
        p.for_each_coord(|m, x, y| err = err.max((a[m] - f.v(x, y)).abs()));
        Ok(err)
    };
    let mut n = n0;
    let mut e0 = error(g, n)?;
    if e0 < 1e-7 * f.size() {
        return Ok(());
    }
    g.hit();
    let mut log = vec![e0];
    // cancellation may spoil the ratio of one pair of grids
    for _ in 0..3 {
        n = [2 * n[0] - 1, 2 * n[1] - 1];
        let e1 = error(g, n)?;
        log.push(e1);
        if e1 <= e0 / 3.0 {
            return Ok(());
        }
        e0 = e1;
    }
    fail("converge:order", format!("errors {:?} when the spacing is halved repeatedly", log))
}
