//! Grids, equation numbers, boundary data and discrete systems.
use crate::util::*;
use russell_lab::Vector;
use russell_pde::*;
use russell_sparse::{CooMatrix, Sym};
use std::collections::BTreeSet;
use vp_engine::*;

pub fn property() -> Property {
    Property {
        id: "C29",
        assumptions: &[
            "coordinates are finite; uniform grids are recognised for coordinates that are exact to rounding",
            "finite-difference matrices are symmetric; spectral matrices are not",
        ],
        laws: vec![
            Law {
                name: "line",
                quick: 180000,
                rule: "three nodes or more",
                f: line,
            },
            Law {
                name: "plane",
                quick: 120000,
                rule: "nine nodes or more",
                f: plane,
            },
            Law {
                name: "equations",
                quick: 180000,
                rule: "both kinds of equations present",
                f: equations,
            },
            Law {
                name: "boundary",
                quick: 120000,
                rule: "two operations or more",
                f: boundary,
            },
            Law {
                name: "differences",
                quick: 36000,
                rule: "unknown and prescribed equations present",
                f: differences,
            },
            Law {
                name: "spectral",
                quick: 18000,
                rule: "unknown and prescribed equations present",
                f: spectral,
            },
        ],
    }
}

/// increasing coordinates; the flag tells whether they are equally spaced
fn coordinates(g: &mut G, n: usize) -> (Vec<f64>, bool) {
    let o = g.f(-10.0, 10.0);
    let s = g.plog(-2.0, 2.0);
    let mut x = vec![o];
    for i in 1..n {
        let d = s * g.f(0.1, 2.0);
        x.push(x[i - 1] + d);
    }
    let first = x[1] - x[0];
    let even = (1..n).all(|i| (x[i] - x[i - 1] - first).abs() < 1e-6 * s);
    (x, even)
}

fn refused<T>(key: &'static str, what: &str, r: impl FnOnce() -> T) -> R {
    match catch(r) {
        Ok(_) => fail(key, format!("{} was accepted", what)),
        Err(_) => Ok(()),
    }
}

/// equally spaced coordinates with one out of place
fn almost(g: &mut G, n: usize) -> Vec<f64> {
    let a = g.flog(-2.0, 2.0);
    let d = g.plog(-2.0, 1.0);
    let mut x: Vec<f64> = (0..n).map(|i| a + i as f64 * d).collect();
    let top = x[0].abs().max(x[n - 1].abs()).max(10.0);
    let k = if g.chance(1, 3) { n - 1 } else { g.us(0, n - 1) };
    x[k] += (d * g.plog(-6.0, -0.5)).max(1e-11 * top) * if g.bool() { 1.0 } else { -1.0 };
    x
}

fn line(g: &mut G) -> R {
    let kind = g.us(0, 2);
    let n = g.rare(2, 25, 150);
    let (xa, xb);
    let x: Vec<f64>;
    let dx: Option<f64>;
    let grid = match kind {
        0 => {
            let (c, even) = coordinates(g, n);
            if even && n > 2 {
                discard!();
            }
            x = c;
            dx = if n == 2 { Some(x[1] - x[0]) } else { None };
            must("line:new", "grid", Grid1d::new(&x))?
        }
        1 => {
            xa = g.flog(-3.0, 3.0);
            xb = xa + xa.abs() * g.plog(-2.0, 3.0);
            let d = (xb - xa) / (n - 1) as f64;
            x = (0..n).map(|i| xa + i as f64 * d).collect();
            dx = Some(d);
            must("line:new", "uniform grid", Grid1d::new_uniform(xa, xb, n))?
        }
        _ => {
            x = (0..n).map(|i| -(std::f64::consts::PI * i as f64 / (n - 1) as f64).cos()).collect();
            dx = if n == 2 {
                Some(2.0)
            } else if n == 3 {
                Some(1.0)
            } else {
                None
            };
            must("line:new", "Chebyshev grid", Grid1d::new_chebyshev_gauss_lobatto(n))?
        }
    };
    g.show("kind, nodes", &(kind, &x));
    if n > 2 {
        g.hit();
    }
    let top = x[0].abs().max(x[n - 1].abs());
    ensure!(grid.nx() == n, "line:size", "{} nodes instead of {}", grid.nx(), n);
    for m in 0..n {
        near("line:coord", &format!("node {}", m), grid.coord(m), x[m], 1e-14 * top)?;
        ensure!(grid.is_xmin(m) == (m == 0) && grid.is_xmax(m) == (m == n - 1), "line:side", "sides of node {}", m);
        ensure!(grid.on_boundary(m) == (m == 0 || m == n - 1), "line:side", "boundary flag of node {}", m);
    }
    let mut seen = Vec::new();
    grid.for_each_coord(|m, x| seen.push((m, x)));
    ensure!(seen.len() == n && (0..n).all(|m| seen[m] == (m, grid.coord(m))), "line:each", "visited {:?}", seen);
    ensure!(grid.get_nodes_on_side(Side::Xmin) == &[0][..] && grid.get_nodes_on_side(Side::Xmax) == &[n - 1][..], "line:side", "nodes on sides");
    ensure!(grid.get_boundary_nodes() == (&[0][..], &[n - 1][..]), "line:side", "boundary nodes");
    refused("line:side", "a y side of a line", || grid.get_nodes_on_side(Side::Ymin).len())?;
    refused("line:side", "a y side of a line", || grid.get_nodes_on_side(Side::Ymax).len())?;
    match (dx, grid.get_dx()) {
        (None, None) => (),
        (Some(a), Some(b)) => near("line:spacing", "spacing", b, a, 1e-14 * top)?,
        (a, b) => return fail("line:spacing", format!("spacing {:?} instead of {:?}", b, a)),
    }
    if n > 2 && g.bool() {
        let x = almost(g, n);
        g.show("almost equal spacing", &x);
        let grid = must("line:new", "grid", Grid1d::new(&x))?;
        ensure!(grid.get_dx().is_none(), "line:almost", "a spacing is reported: {:?}", grid.get_dx());
    }
    // refused
    let few = g.us(0, 1);
    must_err("line:refuse", "too few nodes", Grid1d::new(&x[..few]).map(|_| ()))?;
    must_err("line:refuse", "too few nodes", Grid1d::new_uniform(0.0, 1.0, few).map(|_| ()))?;
    must_err("line:refuse", "too few nodes", Grid1d::new_chebyshev_gauss_lobatto(few).map(|_| ()))?;
    let mut bad = x.clone();
    let i = g.us(1, n - 1);
    bad[i] = bad[i - 1] - if g.bool() { 0.0 } else { g.f(0.0, 1.0) };
    must_err("line:refuse", "decreasing coordinates", Grid1d::new(&bad).map(|_| ()))?;
    must_err("line:refuse", "empty interval", Grid1d::new_uniform(x[0], x[0] - g.f(0.0, 2.0), n).map(|_| ()))
}

fn plane(g: &mut G) -> R {
    let kind = g.us(0, 2);
    let (nx, ny) = (g.rare(2, 9, 40), g.rare(2, 9, 40));
    let (x, y): (Vec<f64>, Vec<f64>);
    let dxy: Option<(f64, f64)>;
    let grid = match kind {
        0 => {
            let (cx, ex) = if g.bool() { coordinates(g, nx) } else { ((0..nx).map(|i| i as f64 * 0.25).collect(), true) };
            let (cy, ey) = if g.bool() { coordinates(g, ny) } else { ((0..ny).map(|i| i as f64 * 0.5).collect(), true) };
            x = cx;
            y = cy;
            dxy = if ex && ey { Some((x[1] - x[0], y[1] - y[0])) } else { None };
            must("plane:new", "grid", Grid2d::new(&x, &y))?
        }
        1 => {
            let xa = g.flog(-3.0, 3.0);
            let xb = xa + xa.abs() * g.plog(-2.0, 3.0);
            let ya = g.flog(-3.0, 3.0);
            let yb = ya + ya.abs() * g.plog(-2.0, 3.0);
            let (dx, dy) = ((xb - xa) / (nx - 1) as f64, (yb - ya) / (ny - 1) as f64);
            x = (0..nx).map(|i| xa + i as f64 * dx).collect();
            y = (0..ny).map(|i| ya + i as f64 * dy).collect();
            dxy = Some((dx, dy));
            must("plane:new", "uniform grid", Grid2d::new_uniform(xa, xb, ya, yb, nx, ny))?
        }
        _ => {
            let p = |n: usize| (0..n).map(|i| -(std::f64::consts::PI * i as f64 / (n - 1) as f64).cos()).collect::<Vec<_>>();
            x = p(nx);
            y = p(ny);
            dxy = if nx < 4 && ny < 4 { Some((2.0 / (nx - 1) as f64, 2.0 / (ny - 1) as f64)) } else { None };
            must("plane:new", "Chebyshev grid", Grid2d::new_chebyshev_gauss_lobatto(nx, ny))?
        }
    };
    g.show("kind, nodes", &(kind, &x, &y));
    if nx > 2 && ny > 2 {
        g.hit();
    }
    let tx = 1e-14 * x[0].abs().max(x[nx - 1].abs());
    let ty = 1e-14 * y[0].abs().max(y[ny - 1].abs());
    ensure!(grid.nx() == nx && grid.ny() == ny && grid.size() == nx * ny, "plane:size", "size {} {} {}", grid.nx(), grid.ny(), grid.size());
    ensure!(grid.is_chebyshev_gauss_lobatto() == (kind == 2), "plane:kind", "kind of grid");
    near("plane:limits", "xmin", grid.xmin(), x[0], tx)?;
    near("plane:limits", "xmax", grid.xmax(), x[nx - 1], tx)?;
    near("plane:limits", "ymin", grid.ymin(), y[0], ty)?;
    near("plane:limits", "ymax", grid.ymax(), y[ny - 1], ty)?;
    let mut sides: [Vec<usize>; 4] = Default::default();
    for j in 0..ny {
        for i in 0..nx {
            let m = grid.get_m(i, j);
            ensure!(m < nx * ny && grid.get_ij(m) == (i, j), "plane:index", "node ({},{}) is {} is {:?}", i, j, m, grid.get_ij(m));
            let c = grid.coord(m);
            near("plane:coord", &format!("x of node ({},{})", i, j), c.0, x[i], tx)?;
            near("plane:coord", &format!("y of node ({},{})", i, j), c.1, y[j], ty)?;
            let f = [i == 0, i == nx - 1, j == 0, j == ny - 1];
            let s = [grid.is_xmin(m), grid.is_xmax(m), grid.is_ymin(m), grid.is_ymax(m)];
            ensure!(f == s, "plane:side", "sides of node ({},{}): {:?}", i, j, s);
            let on = f.iter().any(|v| *v);
            ensure!(grid.on_boundary(m) == on, "plane:side", "boundary flag of node ({},{})", i, j);
            let corner = (f[0] || f[1]) && (f[2] || f[3]);
            ensure!(grid.is_corner(m) == corner, "plane:corner", "corner flag of node ({},{})", i, j);
            for q in 0..4 {
                if f[q] {
                    sides[q].push(m);
                }
            }
        }
    }
    let all: BTreeSet<usize> = (0..nx * ny).map(|m| grid.get_m(m % nx, m / nx)).collect();
    ensure!(all.len() == nx * ny, "plane:index", "node numbers are not unique");
    let b = grid.get_boundary_nodes();
    let b = [b.0, b.1, b.2, b.3];
    for q in 0..4 {
        ensure!(grid.get_nodes_on_side(side(q)) == &sides[q][..], "plane:side", "nodes on side {}: {:?}", q, grid.get_nodes_on_side(side(q)));
        ensure!(b[q] == &sides[q][..], "plane:side", "boundary nodes {}: {:?}", q, b[q]);
    }
    let mut v: [Vec<usize>; 4] = Default::default();
    grid.for_each_node_xmin(|m| v[0].push(*m));
    grid.for_each_node_xmax(|m| v[1].push(*m));
    grid.for_each_node_ymin(|m| v[2].push(*m));
    grid.for_each_node_ymax(|m| v[3].push(*m));
    ensure!(v == sides, "plane:each", "visited {:?}", v);
    let mut seen = Vec::new();
    grid.for_each_coord(|m, x, y| seen.push((m, (x, y))));
    ensure!(seen.len() == nx * ny && (0..nx * ny).all(|m| seen[m] == (m, grid.coord(m))), "plane:each", "visited {:?}", seen);
    match (dxy, grid.get_dx_dy()) {
        (None, None) => (),
        (Some(a), Some(b)) => {
            near("plane:spacing", "dx", b.0, a.0, tx)?;
            near("plane:spacing", "dy", b.1, a.1, ty)?;
        }
        (a, b) => return fail("plane:spacing", format!("spacings {:?} instead of {:?}", b, a)),
    }
    if nx > 2 && ny > 2 && g.bool() {
        let equal = |n: usize| (0..n).map(|i| i as f64 * 0.25).collect::<Vec<_>>();
        let (x, y) = if g.bool() { (almost(g, nx), equal(ny)) } else { (equal(nx), almost(g, ny)) };
        g.show("almost equal spacing", &(&x, &y));
        let grid = must("plane:new", "grid", Grid2d::new(&x, &y))?;
        ensure!(grid.get_dx_dy().is_none(), "plane:almost", "spacings are reported: {:?}", grid.get_dx_dy());
    }
    // refused
    let few = g.us(0, 1);
    let (mut p, mut q) = (nx, ny);
    if g.bool() { p = few } else { q = few }
    must_err("plane:refuse", "too few nodes", Grid2d::new(&x[..p], &y[..q]).map(|_| ()))?;
    must_err("plane:refuse", "too few nodes", Grid2d::new_uniform(0.0, 1.0, 0.0, 1.0, p, q).map(|_| ()))?;
    must_err("plane:refuse", "too few nodes", Grid2d::new_chebyshev_gauss_lobatto(p, q).map(|_| ()))?;
    let (mut bx, mut by) = (x.clone(), y.clone());
    let step = if g.bool() { 0.0 } else { g.f(0.0, 1.0) };
    if g.bool() {
        let i = g.us(1, nx - 1);
        bx[i] = bx[i - 1] - step;
        must_err("plane:refuse", "empty interval", Grid2d::new_uniform(0.0, -step, 0.0, 1.0, nx, ny).map(|_| ()))?;
    } else {
        let i = g.us(1, ny - 1);
        by[i] = by[i - 1] - step;
        must_err("plane:refuse", "empty interval", Grid2d::new_uniform(0.0, 1.0, 0.0, -step, nx, ny).map(|_| ()))?;
    }
    must_err("plane:refuse", "decreasing coordinates", Grid2d::new(&bx, &by).map(|_| ()))
}

fn check_equations(h: &EquationHandler, n: usize, set: &BTreeSet<usize>) -> R {
    ensure!(h.neq() == n && h.np() == set.len() && h.nu() == n - set.len(), "equations:size", "sizes {} {} {}", h.neq(), h.nu(), h.np());
    let p: Vec<usize> = set.iter().cloned().collect();
    let u: Vec<usize> = (0..n).filter(|e| !set.contains(e)).collect();
    ensure!(h.prescribed() == &p, "equations:list", "prescribed {:?} instead of {:?}", h.prescribed(), p);
    ensure!(h.unknown() == &u, "equations:list", "unknown {:?} instead of {:?}", h.unknown(), u);
    for e in 0..n {
        ensure!(h.is_prescribed(e) == set.contains(&e) && h.is_unknown(e) != set.contains(&e), "equations:flag", "flags of equation {}", e);
        if set.contains(&e) {
            ensure!(p[h.ip(e)] == e, "equations:number", "equation {} has prescribed number {}", e, h.ip(e));
            refused("equations:number", "the unknown number of a prescribed equation", || h.iu(e))?;
        } else {
            ensure!(u[h.iu(e)] == e, "equations:number", "equation {} has unknown number {}", e, h.iu(e));
            refused("equations:number", "the prescribed number of an unknown equation", || h.ip(e))?;
        }
    }
    Ok(())
}

fn equations(g: &mut G) -> R {
    let n = g.rare(1, 20, 300);
    let mut h = EquationHandler::new(n);
    check_equations(&h, n, &BTreeSet::new())?;
    for _ in 0..g.us(1, 3) {
        let len = g.us(0, n + 3);
        let list: Vec<usize> = (0..len).map(|_| g.us(0, n - 1)).collect();
        g.show("equations, prescribed", &(n, &list));
        h.recompute(&list);
        let set: BTreeSet<usize> = list.iter().cloned().collect();
        if set.len() > 0 && set.len() < n {
            g.hit();
        }
        check_equations(&h, n, &set)?;
    }
    let over = n + g.us(0, 3);
    refused("equations:range", "an equation outside", || h.recompute(&[0, over]))
}

/// sequences of assignments
fn boundary(g: &mut G) -> R {
    let two = g.bool();
    let ns = if two { 4 } else { 2 };
    let mut e = vec![false; 4];
    let mut q = vec![false; 4];
    let mut per = [false, false];
    let mut e1 = EssentialBcs1d::new();
    let mut n1 = NaturalBcs1d::new();
    let mut e2 = EssentialBcs2d::new();
    let mut n2 = NaturalBcs2d::new();
    let mut val = vec![0.0; 4];
    let mut log = Vec::new();
    let nops = g.us(0, 8);
    if nops > 1 {
        g.hit();
    }
    for _ in 0..nops {
        let s = g.us(0, ns - 1);
        let v = g.int(-5, 5) as f64;
        match g.us(0, 9) {
            0..=3 => {
                log.push(format!("value {} on {}", v, s));
                e[s] = true;
                val[s] = v;
                per[s / 2] = false;
                if two { e2.set(side(s), move |_, _| v) } else { e1.set(side(s), move |_| v) }
            }
            4..=6 => {
                log.push(format!("flux on {}", s));
                q[s] = true;
                if two { n2.set(side(s), move |_, _| v) } else { n1.set(side(s), move |_| v) }
            }
            7 | 8 => {
                let p = [g.bool(), g.bool()];
                log.push(format!("periodic {:?}", &p[..ns / 2]));
                for d in 0..ns / 2 {
                    per[d] = p[d];
                    if p[d] {
                        e[2 * d] = false;
                        e[2 * d + 1] = false;
                    }
                }
                if two { e2.set_periodic(p[0], p[1]) } else { e1.set_periodic(p[0]) }
            }
            _ => {
                log.push("homogeneous".to_string());
                for s in 0..ns {
                    e[s] = true;
                    val[s] = 0.0;
                }
                per = [false, false];
                if two { e2.set_homogeneous() } else { e1.set_homogeneous() }
            }
        }
    }
    g.show("dimensions, operations", &(ns / 2, &log));
    let mut ok = true;
    for s in 0..ns {
        if per[s / 2] {
            ok = ok && !q[s] && !e[s];
        } else {
            ok = ok && (e[s] != q[s]);
        }
    }
    let r = if two { e2.validate(&n2) } else { e1.validate(&n1) };
    ensure!(r.is_ok() == ok, "boundary:validate", "validation gives {:?}", r);
    g.class(if ok { "valid" } else { "invalid" });
    // the solvers see the same data
    let (nx, ny) = (g.us(3, 5), g.us(3, 5));
    let mut set = BTreeSet::new();
    if two {
        let spectral = g.bool() && !per[0] && !per[1];
        for j in 0..ny {
            for i in 0..nx {
                let f = [i == 0, i == nx - 1, j == 0, j == ny - 1];
                if (0..4).any(|s| f[s] && e[s]) {
                    set.insert(i + j * nx);
                }
            }
        }
        let alpha = 1.0;
        let (eq_ok, r1, r2);
        let corner_ok = |a: &Vector| -> R {
            for m in &set {
                let (i, j) = (m % nx, m / nx);
                let f = [i == 0, i == nx - 1, j == 0, j == ny - 1];
                let fit = (0..4).any(|s| f[s] && e[s] && (a[*m] - val[s]).abs() < 1e-9);
                ensure!(fit, "boundary:value", "node ({},{}) holds {} but the sides have {:?}", i, j, a[*m], val);
            }
            Ok(())
        };
        if spectral {
            let p = must("boundary:new", "solver", Spc2d::new(0.0, 1.0, 0.0, 1.0, nx, ny, e2, n2, 1.0, 1.0))?;
            eq_ok = check_equations(p.get_equations(), nx * ny, &set);
            r1 = p.solve_sps(alpha, |_, _| 1.0);
            r2 = p.solve_lmm(alpha, |_, _| 1.0);
        } else {
            let grid = must("boundary:grid", "grid", Grid2d::new_uniform(0.0, 1.0, 0.0, 1.0, nx, ny))?;
            let p = must("boundary:new", "solver", Fdm2d::new(grid, e2, n2, 1.0, 1.0))?;
            eq_ok = check_equations(p.get_equations(), nx * ny, &set);
            r1 = p.solve_sps(alpha, |_, _| 1.0);
            r2 = p.solve_lmm(alpha, |_, _| 1.0);
        }
        eq_ok?;
        ensure!(r1.is_ok() == ok && r2.is_ok() == ok, "boundary:solve", "solving gives {:?} and {:?}", r1.err(), r2.err());
        if ok {
            corner_ok(&r1.unwrap())?;
            corner_ok(&r2.unwrap())?;
        }
    } else {
        let spectral = g.bool() && !per[0];
        if e[0] {
            set.insert(0);
        }
        if e[1] {
            set.insert(nx - 1);
        }
        let (r1, r2);
        if spectral {
            let p = must("boundary:new", "solver", Spc1d::new(0.0, 1.0, nx, e1, n1, 1.0))?;
            check_equations(p.get_equations(), nx, &set)?;
            r1 = p.solve_sps(1.0, |_| 1.0);
            r2 = p.solve_lmm(1.0, |_| 1.0);
        } else {
            let grid = must("boundary:grid", "grid", Grid1d::new_uniform(0.0, 1.0, nx))?;
            let p = must("boundary:new", "solver", Fdm1d::new(grid, e1, n1, 1.0))?;
            check_equations(p.get_equations(), nx, &set)?;
            r1 = p.solve_sps(1.0, |_| 1.0);
            r2 = p.solve_lmm(1.0, |_| 1.0);
        }
        ensure!(r1.is_ok() == ok && r2.is_ok() == ok, "boundary:solve", "solving gives {:?} and {:?}", r1.err(), r2.err());
        if ok {
            for a in [r1.unwrap(), r2.unwrap()] {
                for m in &set {
                    near("boundary:value", "prescribed value", a[*m], val[if *m == 0 { 0 } else { 1 }], 1e-9)?;
                }
            }
        }
    }
    Ok(())
}

/// dense copy; triangular storage is completed
fn dense(m: &CooMatrix) -> Vec<Vec<f64>> {
    let (nr, nc, nnz, sym) = m.get_info();
    let mut d = vec![vec![0.0; nc]; nr];
    let (i, j, v) = (m.get_row_indices(), m.get_col_indices(), m.get_values());
    for q in 0..nnz {
        let (r, c) = (i[q] as usize, j[q] as usize);
        d[r][c] += v[q];
        if sym.triangular() && r != c {
            d[c][r] += v[q];
        }
    }
    d
}

fn same(key: &'static str, what: &str, a: &[Vec<f64>], b: &[Vec<f64>], top: f64) -> R {
    ensure!(a.len() == b.len() && a.iter().zip(b).all(|(r, s)| r.len() == s.len()), key, "{}: different sizes", what);
    for i in 0..a.len() {
        for j in 0..a[i].len() {
            near(key, &format!("{}: entry ({},{})", what, i, j), a[i][j], b[i][j], 1e-12 * top)?;
        }
    }
    Ok(())
}

struct Systems {
    neq: usize,
    equations: (Vec<usize>, Vec<usize>),
    k_bar: Vec<Vec<f64>>,
    k_check: Option<Vec<Vec<f64>>>,
    mm: Vec<Vec<f64>>,
    cc: Option<Vec<Vec<f64>>>,
    vectors: (Vector, Vector, Vector),
    vectors_lmm: (Vector, Vector),
    dims_sps: (usize, usize),
    dims_lmm: (usize, usize, usize),
}

/// one operator in both arrangements
fn consistent(s: &Systems) -> Result<f64, Stop> {
    let (u, p) = &s.equations;
    let top = s.mm.iter().flatten().fold(1.0, |m: f64, v| m.max(v.abs()));
    let neq = s.neq;
    ensure!(s.dims_sps == (u.len(), p.len()), "systems:size", "sizes {:?}", s.dims_sps);
    ensure!(s.dims_lmm == (neq, p.len(), neq + p.len()), "systems:size", "sizes {:?}", s.dims_lmm);
    ensure!(s.mm.len() == neq + p.len(), "systems:size", "matrix with {} rows", s.mm.len());
    for (a, r) in u.iter().enumerate() {
        for (b, c) in u.iter().enumerate() {
            near("systems:blocks", &format!("unknown block ({},{})", a, b), s.k_bar[a][b], s.mm[*r][*c], 1e-12 * top)?;
        }
        for (b, c) in p.iter().enumerate() {
            if let Some(k) = &s.k_check {
                near("systems:blocks", &format!("prescribed block ({},{})", a, b), k[a][b], s.mm[*r][*c], 1e-12 * top)?;
            } else {
                return fail("systems:blocks", "prescribed block is missing".into());
            }
        }
    }
    for (b, c) in p.iter().enumerate() {
        for m in 0..neq {
            let v = if m == *c { 1.0 } else { 0.0 };
            ensure!(s.mm[neq + b][m] == v && s.mm[m][neq + b] == v, "systems:constraints", "constraint {} at equation {}", b, m);
            if let Some(cc) = &s.cc {
                ensure!(cc[b][m] == v, "systems:constraints", "separate constraint {} at equation {}", b, m);
            }
        }
        for d in 0..p.len() {
            ensure!(s.mm[neq + b][neq + d] == 0.0, "systems:constraints", "lower block ({},{})", b, d);
        }
    }
    let (a_bar, a_check, f_bar) = &s.vectors;
    let (aa, ff) = &s.vectors_lmm;
    ensure!(a_bar.dim() == u.len() && f_bar.dim() == u.len() && a_check.dim() == p.len(), "systems:vectors", "sizes of vectors");
    ensure!(aa.dim() == neq + p.len() && ff.dim() == neq + p.len(), "systems:vectors", "sizes of vectors");
    let ft = ff.as_data().iter().fold(1e-300, |m: f64, v| m.max(v.abs()));
    for (a, r) in u.iter().enumerate() {
        near("systems:vectors", &format!("right-hand side {}", r), f_bar[a], ff[*r], 1e-12 * ft)?;
    }
    for b in 0..p.len() {
        ensure!(a_check[b] == ff[neq + b], "systems:vectors", "prescribed value {}", b);
    }
    Ok(top)
}

fn joined(g: &mut G, u: &[usize], p: &[usize], join: impl Fn(&Vector, &Vector) -> Vector) -> R {
    let a = Vector::from(&g.vec_f(u.len(), -5.0, 5.0));
    let b = Vector::from(&g.vec_f(p.len(), -5.0, 5.0));
    let c = join(&a, &b);
    ensure!(c.dim() == u.len() + p.len(), "systems:join", "joined vector of size {}", c.dim());
    for (i, e) in u.iter().enumerate() {
        ensure!(c[*e] == a[i], "systems:join", "unknown {} at equation {}", i, e);
    }
    for (i, e) in p.iter().enumerate() {
        ensure!(c[*e] == b[i], "systems:join", "prescribed {} at equation {}", i, e);
    }
    Ok(())
}

fn differences(g: &mut G) -> R {
    let two = g.bool();
    let dims = if two { 2 } else { 1 };
    let k = kinds(g, dims, true);
    let n: Vec<usize> = (0..dims).map(|d| if k[2 * d] == Kind::P { g.rare(3, 6, 14) } else { g.rare(2, 6, 14) }).collect();
    let o = [0.0, 0.0];
    let l = [g.plog(-1.0, 1.0), g.plog(-1.0, 1.0)];
    let (kx, ky, al) = (g.plog(-1.0, 1.0), g.plog(-1.0, 1.0), g.f(-3.0, 3.0));
    let e: Vec<Field> = (0..4).map(|_| any_field(g, o, l, dims)).collect();
    let q = any_field(g, o, l, dims);
    let src = any_field(g, o, l, dims);
    g.show("sides, nodes, lengths, kx, ky, alpha", &(&k, &n, l, kx, ky, al));
    let extra = g.us(0, 3);
    let mut all = Vec::new();
    let mut molecule = Vec::new();
    for sym in [Sym::No, Sym::YesFull, Sym::YesLower, Sym::YesUpper] {
        let qq = q.clone();
        let (s, tri) = if two {
            let grid = must("systems:grid", "grid", Grid2d::new_uniform(0.0, l[0], 0.0, l[1], n[0], n[1]))?;
            let (eb, nb) = bcs2(g, &k, &e, move |s, x, y| s as f64 + qq.v(x, y));
            let p = must("systems:new", "solver", Fdm2d::new(grid, eb, nb, kx, ky))?;
            let (u, pr) = (p.get_equations().unknown().clone(), p.get_equations().prescribed().clone());
            let (mut kb, kc) = p.get_matrices_sps(al, extra, sym);
            let (mut mm, cc) = p.get_matrices_lmm(al, extra, true, sym);
            let s = Systems {
                neq: n[0] * n[1],
                k_bar: dense(&kb),
                k_check: kc.as_ref().map(|m| dense(m)),
                mm: dense(&mm),
                cc: cc.as_ref().map(|m| dense(m)),
                vectors: p.get_vectors_sps(|x, y| src.v(x, y)),
                vectors_lmm: p.get_vectors_lmm(|x, y| src.v(x, y)),
                dims_sps: p.get_dims_sps(),
                dims_lmm: p.get_dims_lmm(),
                equations: (u, pr),
            };
            joined(g, &s.equations.0, &s.equations.1, |a, b| p.get_joined_vector_sps(a, b))?;
            if sym == Sym::No {
                for m in 0..s.neq {
                    let mut row = vec![0.0; s.neq];
                    p.loop_over_molecule(m, |c, v| row[c] += v);
                    molecule.push(row);
                }
            }
            for _ in 0..extra {
                must("systems:extra", "additional entry", kb.put(0, 0, 1.0))?;
                must("systems:extra", "additional entry", mm.put(0, 0, 1.0))?;
            }
            (s, (mm.get_info().3, kb.get_info().3))
        } else {
            let grid = must("systems:grid", "grid", Grid1d::new_uniform(0.0, l[0], n[0]))?;
            let (eb, nb) = bcs1(g, &k, &e, move |s, x| s as f64 + qq.v(x, 0.0));
            let p = must("systems:new", "solver", Fdm1d::new(grid, eb, nb, kx))?;
            let (u, pr) = (p.get_equations().unknown().clone(), p.get_equations().prescribed().clone());
            let (mut kb, kc) = p.get_matrices_sps(al, extra, sym);
            let (mut mm, cc) = p.get_matrices_lmm(al, extra, true, sym);
            let s = Systems {
                neq: n[0],
                k_bar: dense(&kb),
                k_check: kc.as_ref().map(|m| dense(m)),
                mm: dense(&mm),
                cc: cc.as_ref().map(|m| dense(m)),
                vectors: p.get_vectors_sps(|x| src.v(x, 0.0)),
                vectors_lmm: p.get_vectors_lmm(|x| src.v(x, 0.0)),
                dims_sps: p.get_dims_sps(),
                dims_lmm: p.get_dims_lmm(),
                equations: (u, pr),
            };
            joined(g, &s.equations.0, &s.equations.1, |a, b| p.get_joined_vector_sps(a, b))?;
            if sym == Sym::No {
                for m in 0..s.neq {
                    let mut row = vec![0.0; s.neq];
                    p.loop_over_molecule(m, |c, v| row[c] += v);
                    molecule.push(row);
                }
            }
            for _ in 0..extra {
                must("systems:extra", "additional entry", kb.put(0, 0, 1.0))?;
                must("systems:extra", "additional entry", mm.put(0, 0, 1.0))?;
            }
            (s, (mm.get_info().3, kb.get_info().3))
        };
        ensure!(tri == (sym, sym), "systems:kind", "matrices of kind {:?} instead of {:?}", tri, sym);
        consistent(&s)?;
        all.push(s);
    }
    let s = &all[0];
    if s.equations.0.len() > 0 && s.equations.1.len() > 0 {
        g.hit();
    }
    let top = s.mm.iter().flatten().fold(1.0, |m: f64, v| m.max(v.abs()));
    for t in &all[1..] {
        same("systems:storage", "bordered matrix", &t.mm, &s.mm, top)?;
        same("systems:storage", "partitioned matrix", &t.k_bar, &s.k_bar, top)?;
        ensure!(t.k_check.is_some() == s.k_check.is_some() && t.cc.is_some() == s.cc.is_some(), "systems:storage", "missing matrices");
        if let (Some(a), Some(b)) = (&t.k_check, &s.k_check) {
            same("systems:storage", "prescribed block", a, b, top)?;
        }
    }
    for i in 0..s.mm.len() {
        for j in 0..i {
            near("systems:symmetric", &format!("entries ({},{}) and ({},{})", i, j, j, i), s.mm[i][j], s.mm[j][i], 1e-12 * top)?;
        }
    }
    // the stencil without the halving of boundary rows
    for m in 0..s.neq {
        let (i, j) = (m % n[0], m / n[0]);
        let mut den = 1.0;
        if k[0] != Kind::P && (i == 0 || i == n[0] - 1) {
            den *= 2.0;
        }
        if two && k[2] != Kind::P && (j == 0 || j == n[1] - 1) {
            den *= 2.0;
        }
        for c in 0..s.neq {
            let a = if m == c { al } else { 0.0 };
            near("systems:stencil", &format!("stencil entry ({},{})", m, c), molecule[m][c] + a, den * s.mm[m][c], 1e-12 * top)?;
        }
    }
    Ok(())
}

fn spectral(g: &mut G) -> R {
    let kind = g.us(0, 2);
    let dims = if kind == 0 { 1 } else { 2 };
    let k = kinds(g, dims, false);
    let n: Vec<usize> = (0..dims).map(|_| g.rare(2, 5, 9)).collect();
    let o = [0.0, 0.0];
    let l = [g.plog(-1.0, 1.0), g.plog(-1.0, 1.0)];
    let (kx, ky, al) = (g.plog(-1.0, 1.0), g.plog(-1.0, 1.0), g.f(-3.0, 3.0));
    let e: Vec<Field> = (0..4).map(|_| any_field(g, o, l, dims)).collect();
    let q = any_field(g, o, l, dims);
    let src = any_field(g, o, l, dims);
    let extra = g.us(0, 3);
    g.show("kind, sides, nodes, lengths, kx, ky, alpha", &(kind, &k, &n, l, kx, ky, al));
    let qq = q.clone();
    macro_rules! gather {
        ($p:ident, $src:expr, $neq:expr) => {{
            let (u, pr) = ($p.get_equations().unknown().clone(), $p.get_equations().prescribed().clone());
            let (mut kb, kc) = $p.get_matrices_sps(al, extra);
            let (mut mm, cc) = $p.get_matrices_lmm(al, extra, true);
            let s = Systems {
                neq: $neq,
                k_bar: dense(&kb),
                k_check: Some(dense(&kc)),
                mm: dense(&mm),
                cc: cc.as_ref().map(|m| dense(m)),
                vectors: $p.get_vectors_sps($src),
                vectors_lmm: $p.get_vectors_lmm($src),
                dims_sps: $p.get_dims_sps(),
                dims_lmm: $p.get_dims_lmm(),
                equations: (u, pr),
            };
            joined(g, &s.equations.0, &s.equations.1, |a, b| $p.get_joined_vector_sps(a, b))?;
            for _ in 0..extra {
                must("systems:extra", "additional entry", kb.put(0, 0, 1.0))?;
                must("systems:extra", "additional entry", mm.put(0, 0, 1.0))?;
            }
            s
        }};
    }
    let s = match kind {
        0 => {
            let (eb, nb) = bcs1(g, &k, &e, move |s, x| s as f64 + qq.v(x, 0.0));
            let p = must("systems:new", "solver", Spc1d::new(0.0, l[0], n[0], eb, nb, kx))?;
            gather!(p, |x| src.v(x, 0.0), n[0])
        }
        1 => {
            let (eb, nb) = bcs2(g, &k, &e, move |s, x, y| s as f64 + qq.v(x, y));
            let p = must("systems:new", "solver", Spc2d::new(0.0, l[0], 0.0, l[1], n[0], n[1], eb, nb, kx, ky))?;
            gather!(p, |x, y| src.v(x, y), n[0] * n[1])
        }
        _ => {
            let (eb, nb) = bcs2(g, &k, &e, move |s, x, y| s as f64 + qq.v(x, y));
            let map = TransfiniteSamples::quadrilateral_2d(&[0.0, 0.0], &[l[0], 0.1 * l[1]], &[1.2 * l[0], l[1]], &[0.2 * l[0], 0.9 * l[1]]);
            let mut p = must("systems:new", "solver", SpcMap2d::new(map, n[0], n[1], eb, nb, kx))?;
            gather!(p, |x, y| src.v(x, y), n[0] * n[1])
        }
    };
    if s.equations.0.len() > 0 && s.equations.1.len() > 0 {
        g.hit();
    }
    consistent(&s)?;
    Ok(())
}
