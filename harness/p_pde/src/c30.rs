//! Transfinite maps and metrics.
use russell_lab::Vector;
use russell_pde::*;
use vp_engine::*;

pub fn property() -> Property {
    Property {
        id: "C30",
        assumptions: &[
            "the boundary functions agree along common edges and at corners and their derivatives are exact",
            "metrics: base vectors of length 0.1 to 10 that are not nearly linearly dependent",
        ],
        laws: vec![
            Law {
                name: "plane",
                quick: 300000,
                rule: "curved boundaries",
                f: plane,
            },
            Law {
                name: "space",
                quick: 150000,
                rule: "curved boundaries",
                f: space,
            },
            Law {
                name: "samples",
                quick: 180000,
                rule: "every case",
                f: samples,
            },
            Law {
                name: "triangles",
                quick: 60000,
                rule: "two cells or more",
                f: triangles,
            },
            Law {
                name: "metrics",
                quick: 300000,
                rule: "second derivatives given",
                f: metrics,
            },
            Law {
                name: "refuse",
                quick: 5000,
                rule: "every case",
                f: refuse,
            },
        ],
    }
}

/// one factor of a term
#[derive(Clone, Copy, Debug)]
enum Factor {
    Pow(usize),
    Wave(f64, f64),
}

impl Factor {
    fn d(&self, n: usize, x: f64) -> f64 {
        match *self {
            Factor::Pow(p) => {
                if n > p {
                    return 0.0;
                }
                let mut c = 1.0;
                for i in 0..n {
                    c *= (p - i) as f64;
                }
                c * x.powi((p - n) as i32)
            }
            Factor::Wave(w, z) => w.powi(n as i32) * (w * x + z + n as f64 * std::f64::consts::FRAC_PI_2).sin(),
        }
    }
}

/// vector function of the reference coordinates
#[derive(Clone, Debug)]
struct Shape {
    dims: usize,
    c: Vec<Vec<(f64, [Factor; 3])>>,
}

impl Shape {
    fn d(&self, comp: usize, n: [usize; 3], x: [f64; 3]) -> f64 {
        let mut s = 0.0;
        for (a, f) in &self.c[comp] {
            let mut v = *a;
            for q in 0..self.dims {
                v *= f[q].d(n[q], x[q]);
            }
            s += v;
        }
        s
    }
    /// derivative of the interpolant of the boundary values: alternating sum of projections
    fn blend(&self, comp: usize, n: [usize; 3], x: [f64; 3]) -> f64 {
        let mut total = 0.0;
        for set in 1..(1usize << self.dims) {
            let dirs: Vec<usize> = (0..self.dims).filter(|d| set >> d & 1 == 1).collect();
            let sign = if dirs.len() % 2 == 1 { 1.0 } else { -1.0 };
            for ends in 0..(1usize << dirs.len()) {
                let mut w = sign;
                let mut p = x;
                let mut m = n;
                for (q, d) in dirs.iter().enumerate() {
                    let e = if ends >> q & 1 == 1 { 1.0 } else { -1.0 };
                    w *= match n[*d] {
                        0 => 0.5 * (1.0 + e * x[*d]),
                        1 => 0.5 * e,
                        _ => 0.0,
                    };
                    p[*d] = e;
                    m[*d] = 0;
                }
                if w != 0.0 {
                    total += w * self.d(comp, m, p);
                }
            }
        }
        total
    }
}

fn shape(g: &mut G, dims: usize, curved: bool) -> Shape {
    let mut c = Vec::new();
    for q in 0..dims {
        let mut terms = Vec::new();
        let one = Factor::Pow(0);
        terms.push((g.f(-3.0, 3.0), [one; 3]));
        let mut f = [one; 3];
        f[q] = Factor::Pow(1);
        terms.push((g.f(0.5, 3.0), f));
        for _ in 0..g.us(0, 4) {
            let mut f = [one; 3];
            for d in 0..dims {
                f[d] = if !curved {
                    Factor::Pow(g.us(0, 1))
                } else if g.chance(1, 4) {
                    Factor::Wave(g.f(0.2, 3.0), g.f(-3.0, 3.0))
                } else {
                    Factor::Pow(g.us(0, 4))
                };
            }
            terms.push((g.f(-0.5, 0.5), f));
        }
        c.push(terms);
    }
    Shape { dims, c }
}

fn coordinate(g: &mut G) -> f64 {
    if g.chance(1, 4) { *g.pick(&[-1.0, 1.0, 0.0]) } else { g.f(-1.0, 1.0) }
}

fn map2(s: &Shape, second: bool) -> Result<Transfinite2d, &'static str> {
    let mut f: Vec<Vec<FnVec1Param1>> = Vec::new();
    for n in 0..3 {
        let mut v: Vec<FnVec1Param1> = Vec::new();
        for q in 0..4 {
            let s = s.clone();
            v.push(Box::new(move |x: &mut Vector, t: f64| {
                let e = if q % 2 == 0 { -1.0 } else { 1.0 };
                for c in 0..2 {
                    x[c] = if q < 2 { s.d(c, [0, n, 0], [e, t, 0.0]) } else { s.d(c, [n, 0, 0], [t, e, 0.0]) };
                }
            }));
        }
        f.push(v);
    }
    let d2 = f.pop().unwrap();
    let d1 = f.pop().unwrap();
    let d0 = f.pop().unwrap();
    Transfinite2d::new(d0, d1, if second { Some(d2) } else { None })
}

fn plane(g: &mut G) -> R {
    let curved = g.chance(5, 6);
    let second = curved || g.bool();
    let s = shape(g, 2, curved);
    g.show("shape", &s);
    if curved {
        g.hit();
    }
    let mut map = must("plane:new", "map", map2(&s, second))?;
    let (p0, p1, p2, p3) = map.get_corners();
    for (p, r) in [(p0, [-1.0, -1.0]), (p1, [1.0, -1.0]), (p2, [1.0, 1.0]), (p3, [-1.0, 1.0])] {
        for c in 0..2 {
            near("plane:corner", &format!("corner {:?}", r), p[c], s.d(c, [0; 3], [r[0], r[1], 0.0]), 1e-12)?;
        }
    }
    for _ in 0..2 {
        let x = [coordinate(g), coordinate(g), 0.0];
        g.show("at", &x);
        let mut v: Vec<Vector> = (0..7).map(|_| Vector::filled(2, 777.0)).collect();
        let (a, b) = v.split_at_mut(3);
        let (b, c) = b.split_at_mut(3);
        map.point(&mut c[0], x[0], x[1]);
        let [a0, a1, a2] = a else { unreachable!() };
        let [b0, b1, b2] = b else { unreachable!() };
        // second derivatives are given together or not at all
        let want = [g.chance(3, 4); 3];
        map.point_and_derivs(
            a0,
            a1,
            a2,
            if want[0] { Some(b0) } else { None },
            if want[1] { Some(b1) } else { None },
            if want[2] { Some(b2) } else { None },
            x[0],
            x[1],
        );
        let orders = [[0, 0, 0], [1, 0, 0], [0, 1, 0], [2, 0, 0], [0, 2, 0], [1, 1, 0], [0, 0, 0]];
        for (q, n) in orders.iter().enumerate() {
            if (3..6).contains(&q) && !want[q - 3] {
                continue;
            }
            for c in 0..2 {
                let key = if q == 0 || q == 6 { "plane:point" } else { "plane:derivative" };
                near(key, &format!("component {} of derivative {:?}", c, &n[..2]), v[q][c], s.blend(c, *n, x), 1e-10)?;
                if (q == 0 || q == 6) && (x[0].abs() == 1.0 || x[1].abs() == 1.0) {
                    near("plane:boundary", &format!("component {} at the boundary", c), v[q][c], s.d(c, *n, x), 1e-12)?;
                }
            }
        }
    }
    Ok(())
}

fn map3(s: &Shape, second: bool) -> Result<Transfinite3d, &'static str> {
    let mut d0: Vec<FnVec1Param2> = Vec::new();
    let mut d1: Vec<FnVec2Param2> = Vec::new();
    let mut d2: Vec<FnVec3Param2> = Vec::new();
    for q in 0..6 {
        let e = if q % 2 == 0 { -1.0 } else { 1.0 };
        let fixed = q / 2;
        let (u, v) = match fixed {
            0 => (1, 2),
            1 => (0, 2),
            _ => (0, 1),
        };
        let at = move |a: f64, b: f64| {
            let mut x = [0.0; 3];
            x[fixed] = e;
            x[u] = a;
            x[v] = b;
            x
        };
        let ord = move |i: usize, j: usize| {
            let mut n = [0; 3];
            n[u] = i;
            n[v] = j;
            n
        };
        let f = s.clone();
        d0.push(Box::new(move |x: &mut Vector, a: f64, b: f64| {
            for c in 0..3 {
                x[c] = f.d(c, [0; 3], at(a, b));
            }
        }));
        let f = s.clone();
        d1.push(Box::new(move |x: &mut Vector, y: &mut Vector, a: f64, b: f64| {
            for c in 0..3 {
                x[c] = f.d(c, ord(1, 0), at(a, b));
                y[c] = f.d(c, ord(0, 1), at(a, b));
            }
        }));
        let f = s.clone();
        d2.push(Box::new(move |x: &mut Vector, y: &mut Vector, z: &mut Vector, a: f64, b: f64| {
            for c in 0..3 {
                x[c] = f.d(c, ord(2, 0), at(a, b));
                y[c] = f.d(c, ord(0, 2), at(a, b));
                z[c] = f.d(c, ord(1, 1), at(a, b));
            }
        }));
    }
    Transfinite3d::new(d0, d1, if second { Some(d2) } else { None })
}

fn space(g: &mut G) -> R {
    let curved = g.chance(5, 6);
    let mut s = shape(g, 3, curved);
    let second = curved || g.bool();
    if !second {
        // only flat parallel faces have no second derivatives at all
        for c in &mut s.c {
            c.retain(|t| t.1.iter().filter(|f| matches!(f, Factor::Pow(1))).count() < 2);
        }
    }
    g.show("shape", &s);
    if curved {
        g.hit();
    }
    let mut map = must("space:new", "map", map3(&s, second))?;
    let p = map.get_corners();
    let p = [p.0, p.1, p.2, p.3, p.4, p.5, p.6, p.7];
    let at = [
        [-1.0, -1.0, -1.0],
        [1.0, -1.0, -1.0],
        [1.0, 1.0, -1.0],
        [-1.0, 1.0, -1.0],
        [-1.0, -1.0, 1.0],
        [1.0, -1.0, 1.0],
        [1.0, 1.0, 1.0],
        [-1.0, 1.0, 1.0],
    ];
    for q in 0..8 {
        for c in 0..3 {
            near("space:corner", &format!("corner {}", q), p[q][c], s.d(c, [0; 3], at[q]), 1e-12)?;
        }
    }
    let x = [coordinate(g), coordinate(g), coordinate(g)];
    g.show("at", &x);
    let mut v: Vec<Vector> = (0..11).map(|_| Vector::filled(3, 777.0)).collect();
    let (a, b) = v.split_at_mut(4);
    let (b, c) = b.split_at_mut(6);
    map.point(&mut c[0], x[0], x[1], x[2]);
    let [a0, a1, a2, a3] = a else { unreachable!() };
    let [b0, b1, b2, b3, b4, b5] = b else { unreachable!() };
    let want = [g.chance(3, 4); 6];
    let o = |b, v| if b { Some(v) } else { None };
    map.point_and_derivs(
        a0,
        a1,
        a2,
        a3,
        o(want[0], b0),
        o(want[1], b1),
        o(want[2], b2),
        o(want[3], b3),
        o(want[4], b4),
        o(want[5], b5),
        x[0],
        x[1],
        x[2],
    );
    let orders = [
        [0, 0, 0],
        [1, 0, 0],
        [0, 1, 0],
        [0, 0, 1],
        [2, 0, 0],
        [0, 2, 0],
        [0, 0, 2],
        [1, 1, 0],
        [1, 0, 1],
        [0, 1, 1],
        [0, 0, 0],
    ];
    for (q, n) in orders.iter().enumerate() {
        if (4..10).contains(&q) && !want[q - 4] {
            continue;
        }
        for c in 0..3 {
            let key = if q == 0 || q == 10 { "space:point" } else { "space:derivative" };
            near(key, &format!("component {} of derivative {:?}", c, n), v[q][c], s.blend(c, *n, x), 1e-10)?;
            if (q == 0 || q == 10) && x.iter().any(|x| x.abs() == 1.0) {
                near("space:boundary", &format!("component {} at the boundary", c), v[q][c], s.d(c, *n, x), 1e-12)?;
            }
        }
    }
    Ok(())
}

/// differences of eighth order for the derivatives of a point function
fn diffs(dims: usize, f: &mut dyn FnMut([f64; 3]) -> Vec<f64>, x: [f64; 3], d1: usize, d2: Option<usize>) -> Vec<f64> {
    let h = 0.02;
    let c1 = [4.0 / 5.0, -1.0 / 5.0, 4.0 / 105.0, -1.0 / 280.0];
    let c2 = [8.0 / 5.0, -1.0 / 5.0, 8.0 / 315.0, -1.0 / 560.0];
    let mut out = vec![0.0; dims];
    let mut add = |w: f64, p: [f64; 3], out: &mut Vec<f64>| {
        let v = f(p);
        for c in 0..dims {
            out[c] += w * v[c];
        }
    };
    let step = |p: [f64; 3], d: usize, t: f64| {
        let mut p = p;
        p[d] += t;
        p
    };
    match d2 {
        None => {
            for i in 0..4 {
                for sg in [-1.0, 1.0] {
                    add(sg * c1[i] / h, step(x, d1, sg * (i + 1) as f64 * h), &mut out);
                }
            }
        }
        Some(d) if d == d1 => {
            add(-205.0 / 72.0 / (h * h), x, &mut out);
            for i in 0..4 {
                for sg in [-1.0, 1.0] {
                    add(c2[i] / (h * h), step(x, d1, sg * (i + 1) as f64 * h), &mut out);
                }
            }
        }
        Some(d) => {
            for i in 0..4 {
                for j in 0..4 {
                    for sg in [-1.0, 1.0] {
                        for sh in [-1.0, 1.0] {
                            let p = step(step(x, d1, sg * (i + 1) as f64 * h), d, sh * (j + 1) as f64 * h);
                            add(sg * sh * c1[i] * c1[j] / (h * h), p, &mut out);
                        }
                    }
                }
            }
        }
    }
    out
}

fn samples(g: &mut G) -> R {
    g.hit();
    let kind = g.us(0, 5);
    let (a, b) = {
        let a = g.plog(-1.0, 1.0);
        (a, a * g.f(1.2, 4.0))
    };
    let h = g.plog(-1.0, 1.0);
    let x = [coordinate(g), coordinate(g), coordinate(g)];
    g.show("kind, a, b, h, at", &(kind, a, b, h, x));
    let pi = std::f64::consts::PI;
    if kind < 4 {
        let q: Vec<[f64; 2]> = (0..4).map(|_| [g.f(-2.0, 2.0), g.f(-2.0, 2.0)]).collect();
        if kind == 0 {
            g.show("corners", &q);
        }
        let mut map = match kind {
            0 => TransfiniteSamples::quadrilateral_2d(&q[0], &q[1], &q[2], &q[3]),
            1 => TransfiniteSamples::quarter_ring_2d(a, b),
            2 => TransfiniteSamples::half_ring_2d(a, b),
            _ => TransfiniteSamples::quarter_perforated_lozenge_2d(a, b),
        };
        let top = if kind == 0 { 2.0 } else { b };
        let (r, s) = (x[0], x[1]);
        let rho = a + (1.0 + r) * (b - a) / 2.0;
        let want = match kind {
            0 => {
                let w = [(1.0 - r) * (1.0 - s), (1.0 + r) * (1.0 - s), (1.0 + r) * (1.0 + s), (1.0 - r) * (1.0 + s)];
                let f = |c: usize| (0..4).map(|i| w[i] * q[i][c] / 4.0).sum::<f64>();
                [f(0), f(1)]
            }
            1 => {
                let th = pi * (1.0 + s) / 4.0;
                [rho * th.cos(), rho * th.sin()]
            }
            2 => {
                let th = pi * (1.0 + s) / 2.0;
                [rho * th.cos(), rho * th.sin()]
            }
            _ => {
                // arc on one side, straight line on the other
                let th = pi * (1.0 + s) / 4.0;
                let (p, q) = ([a * th.cos(), a * th.sin()], [b * (1.0 - s) / 2.0, b * (1.0 + s) / 2.0]);
                [0.5 * ((1.0 - r) * p[0] + (1.0 + r) * q[0]), 0.5 * ((1.0 - r) * p[1] + (1.0 + r) * q[1])]
            }
        };
        let mut v: Vec<Vector> = (0..6).map(|_| Vector::new(2)).collect();
        let [v0, v1, v2, v3, v4, v5] = &mut v[..] else { unreachable!() };
        map.point_and_derivs(v0, v1, v2, Some(v3), Some(v4), Some(v5), r, s);
        for c in 0..2 {
            near("samples:point", &format!("component {}", c), v[0][c], want[c], 1e-13 * top)?;
        }
        let mut p = Vector::new(2);
        let mut f = |x: [f64; 3]| {
            map.point(&mut p, x[0], x[1]);
            p.as_data().to_vec()
        };
        let list = [(1, 0, None), (2, 1, None), (3, 0, Some(0)), (4, 1, Some(1)), (5, 0, Some(1))];
        for (q, d1, d2) in list {
            let d = diffs(2, &mut f, x, d1, d2);
            for c in 0..2 {
                near("samples:derivative", &format!("derivative {:?} of component {}", (d1, d2), c), v[q][c], d[c], 1e-9 * top)?;
            }
        }
        return Ok(());
    }
    let mut map = if kind == 4 { TransfiniteSamples::brick_3d(a, b, h) } else { TransfiniteSamples::quarter_ring_3d(a, b, h) };
    let want = if kind == 4 {
        [(1.0 + x[0]) * a / 2.0, (1.0 + x[1]) * b / 2.0, (1.0 + x[2]) * h / 2.0]
    } else {
        let rho = a + (1.0 + x[1]) * (b - a) / 2.0;
        let th = pi * (1.0 + x[2]) / 4.0;
        [(1.0 + x[0]) * h / 2.0, rho * th.cos(), rho * th.sin()]
    };
    let top = b.max(h);
    let mut v: Vec<Vector> = (0..10).map(|_| Vector::new(3)).collect();
    let [v0, v1, v2, v3, v4, v5, v6, v7, v8, v9] = &mut v[..] else { unreachable!() };
    map.point_and_derivs(v0, v1, v2, v3, Some(v4), Some(v5), Some(v6), Some(v7), Some(v8), Some(v9), x[0], x[1], x[2]);
    for c in 0..3 {
        near("samples:point", &format!("component {}", c), v[0][c], want[c], 1e-13 * top)?;
    }
    let mut p = Vector::new(3);
    let mut f = |x: [f64; 3]| {
        map.point(&mut p, x[0], x[1], x[2]);
        p.as_data().to_vec()
    };
    let list = [
        (1, 0, None),
        (2, 1, None),
        (3, 2, None),
        (4, 0, Some(0)),
        (5, 1, Some(1)),
        (6, 2, Some(2)),
        (7, 0, Some(1)),
        (8, 0, Some(2)),
        (9, 1, Some(2)),
    ];
    for (q, d1, d2) in list {
        let d = diffs(3, &mut f, x, d1, d2);
        for c in 0..3 {
            near("samples:derivative", &format!("derivative {:?} of component {}", (d1, d2), c), v[q][c], d[c], 1e-9 * top)?;
        }
    }
    Ok(())
}

fn triangles(g: &mut G) -> R {
    let s = shape(g, 2, true);
    let (nr, ns) = (g.us(2, 8), g.us(2, 8));
    let (cr, cs) = (g.bool(), g.bool());
    g.show("shape", &s);
    g.show("points, Chebyshev", &((nr, ns), (cr, cs)));
    if nr * ns > 4 {
        g.hit();
    }
    let mut map = must("triangles:new", "map", map2(&s, true))?;
    let (xx, yy, tt) = map.triangulate(nr, ns, cr, cs);
    ensure!(xx.len() == nr * ns && yy.len() == nr * ns, "triangles:size", "{} and {} coordinates", xx.len(), yy.len());
    ensure!(tt.len() == 2 * (nr - 1) * (ns - 1), "triangles:size", "{} triangles", tt.len());
    let along = |n: usize, c: bool, i: usize| {
        let t = i as f64 / (n - 1) as f64;
        if c { -(std::f64::consts::PI * t).cos() } else { -1.0 + 2.0 * t }
    };
    for m in 0..nr * ns {
        let x = [along(nr, cr, m % nr), along(ns, cs, m / nr), 0.0];
        near("triangles:point", &format!("x of point {}", m), xx[m], s.blend(0, [0; 3], x), 1e-11)?;
        near("triangles:point", &format!("y of point {}", m), yy[m], s.blend(1, [0; 3], x), 1e-11)?;
    }
    // the triangles cover the index rectangle exactly once with one orientation
    let mut area = 0;
    let mut cells = vec![0i64; (nr - 1) * (ns - 1)];
    for t in &tt {
        ensure!(t.len() == 3 && t.iter().all(|m| *m < nr * ns), "triangles:nodes", "triangle {:?}", t);
        let p: Vec<(i64, i64)> = t.iter().map(|m| ((m % nr) as i64, (m / nr) as i64)).collect();
        let twice = (p[1].0 - p[0].0) * (p[2].1 - p[0].1) - (p[2].0 - p[0].0) * (p[1].1 - p[0].1);
        ensure!(twice == 1, "triangles:shape", "triangle {:?} has index area {}/2", t, twice);
        let (i0, i1) = (p.iter().map(|q| q.0).min().unwrap(), p.iter().map(|q| q.0).max().unwrap());
        let (j0, j1) = (p.iter().map(|q| q.1).min().unwrap(), p.iter().map(|q| q.1).max().unwrap());
        ensure!(i1 - i0 == 1 && j1 - j0 == 1, "triangles:shape", "triangle {:?} leaves its cell", t);
        cells[(i0 + j0 * (nr as i64 - 1)) as usize] += 1;
        area += twice;
    }
    ensure!(cells.iter().all(|c| *c == 2) && area as usize == tt.len(), "triangles:cover", "triangles per cell {:?}", cells);
    // both triangles of a cell share a diagonal but no other corner
    let mut sets: Vec<Vec<usize>> = tt.iter().map(|t| { let mut t = t.clone(); t.sort(); t }).collect();
    sets.sort();
    sets.dedup();
    ensure!(sets.len() == tt.len(), "triangles:cover", "repeated triangles");
    Ok(())
}

fn metrics(g: &mut G) -> R {
    let n = g.us(2, 3);
    let homogeneous = g.chance(1, 5);
    let mut base: Vec<Vec<f64>> = Vec::new();
    for _ in 0..n {
        let len = g.plog(-1.0, 1.0);
        base.push((0..n).map(|_| len * g.f(-1.0, 1.0)).collect());
    }
    let mut cc = vec![vec![vec![0.0; n]; n]; n];
    for i in 0..n {
        for j in 0..=i {
            cc[i][j] = g.vec_f(n, -3.0, 3.0);
            cc[j][i] = cc[i][j].clone();
        }
    }
    let dot = |a: &[f64], b: &[f64]| a.iter().zip(b).map(|(x, y)| x * y).sum::<f64>();
    let det = if n == 2 {
        base[0][0] * base[1][1] - base[0][1] * base[1][0]
    } else {
        let (a, b, c) = (&base[0], &base[1], &base[2]);
        a[0] * (b[1] * c[2] - b[2] * c[1]) - a[1] * (b[0] * c[2] - b[2] * c[0]) + a[2] * (b[0] * c[1] - b[1] * c[0])
    };
    let prod: f64 = base.iter().map(|b| dot(b, b).sqrt()).product();
    if !(det.abs() > 0.05 * prod) || prod < 1e-3 {
        discard!();
    }
    g.show("base vectors", &base);
    g.show("second derivatives", &cc);
    let mut m = Metrics::new(n, homogeneous);
    let v = |a: &[f64]| Vector::from(&a.to_vec());
    let b: Vec<Vector> = base.iter().map(|b| v(b)).collect();
    let second: Vec<Vec<Vector>> = cc.iter().map(|r| r.iter().map(|c| v(c)).collect()).collect();
    let give = !homogeneous || g.bool();
    if !homogeneous {
        g.hit();
    }
    let o = |i: usize, j: usize| if give { Some(&second[i][j]) } else { None };
    let r = if n == 2 {
        m.calculate_2d(&b[0], &b[1], o(0, 0), o(1, 1), o(0, 1))
    } else {
        m.calculate_3d(&b[0], &b[1], &b[2], o(0, 0), o(1, 1), o(2, 2), o(0, 1), o(0, 2), o(1, 2))
    };
    let d = must("metrics:calculate", "metrics", r)?;
    same_rel("metrics:determinant", "determinant", d, det * det, 1e-11, 0.0)?;
    for i in 0..n {
        ensure!(m.g_cov[i].as_data() == &base[i], "metrics:covariant", "base vector {}", i);
        for j in 0..n {
            let gij = dot(&base[i], &base[j]);
            let size = dot(&base[i], &base[i]).sqrt() * dot(&base[j], &base[j]).sqrt();
            near("metrics:metric", &format!("metric ({},{})", i, j), m.g_mat.get(i, j), gij, 1e-13 * size)?;
            let dual = dot(m.g_ctr[i].as_data(), &base[j]);
            let li = dot(m.g_ctr[i].as_data(), m.g_ctr[i].as_data()).sqrt() * dot(&base[j], &base[j]).sqrt();
            near("metrics:dual", &format!("dual product ({},{})", i, j), dual, if i == j { 1.0 } else { 0.0 }, 1e-10 * (1.0 + li))?;
            let up = dot(m.g_ctr[i].as_data(), m.g_ctr[j].as_data());
            near("metrics:contra", &format!("contravariant metric ({},{})", i, j), m.gg_mat.get(i, j), up, 1e-9 * (1e-300 + up.abs() + (m.gg_mat.get(i, i) * m.gg_mat.get(j, j)).sqrt()))?;
        }
    }
    if homogeneous {
        return Ok(());
    }
    // C_ij = sum over k of the symbols times the base vectors
    for i in 0..n {
        for j in 0..n {
            for c in 0..n {
                let mut s = 0.0;
                let mut t = 0.0;
                for k in 0..n {
                    s += m.christoffel_second[k][i][j] * base[k][c];
                    t += (m.christoffel_second[k][i][j] * base[k][c]).abs();
                }
                near("metrics:christoffel", &format!("symbols ({},{}), component {}", i, j, c), s, cc[i][j][c], 1e-9 * (1.0 + t))?;
            }
        }
    }
    // Laplacian of a quadratic function of position
    let grad = g.vec_f(n, -2.0, 2.0);
    let mut hess = vec![vec![0.0; n]; n];
    for i in 0..n {
        for j in 0..=i {
            hess[i][j] = g.f(-2.0, 2.0);
            hess[j][i] = hess[i][j];
        }
    }
    let mut lap = 0.0;
    let mut size = 0.0;
    for i in 0..n {
        for j in 0..n {
            let mut f = dot(&grad, &cc[i][j]);
            for p in 0..n {
                for q in 0..n {
                    f += base[i][p] * hess[p][q] * base[j][q];
                }
            }
            lap += m.gg_mat.get(i, j) * f;
            size += (m.gg_mat.get(i, j) * f).abs();
        }
        let l = m.ell_coefficient_for_laplacian(i) * dot(&grad, &base[i]);
        lap -= l;
        size += l.abs();
    }
    let trace: f64 = (0..n).map(|i| hess[i][i]).sum();
    near("metrics:laplacian", "Laplacian", lap, trace, 1e-9 * (1.0 + size))
}

fn refuse(g: &mut G) -> R {
    g.hit();
    let which = g.us(0, 4);
    g.show("which", &which);
    let z2 = Vector::from(&[1.0, 2.0]);
    let y2 = Vector::from(&[-1.0, 2.0]);
    let z3 = Vector::from(&[1.0, 2.0, 0.0]);
    let y3 = Vector::from(&[-1.0, 2.0, 0.0]);
    let w3 = Vector::from(&[0.0, 2.0, 1.0]);
    match which {
        0 => {
            let n = *g.pick(&[0usize, 1, 3, 5]);
            let mk = |n: usize| -> Vec<FnVec1Param1> { (0..n).map(|_| -> FnVec1Param1 { Box::new(|x: &mut Vector, _| x.fill(0.0)) }).collect() };
            let q = g.us(0, 2);
            let c = [if q == 0 { n } else { 4 }, if q == 1 { n } else { 4 }, if q == 2 { n } else { 4 }];
            must_err("refuse:count", "wrong number of boundary functions", Transfinite2d::new(mk(c[0]), mk(c[1]), Some(mk(c[2]))).map(|_| ()))
        }
        1 => {
            let n = *g.pick(&[0usize, 4, 5, 7]);
            let q = g.us(0, 2);
            let c = [if q == 0 { n } else { 6 }, if q == 1 { n } else { 6 }, if q == 2 { n } else { 6 }];
            let m0: Vec<FnVec1Param2> = (0..c[0]).map(|_| -> FnVec1Param2 { Box::new(|_, _, _| ()) }).collect();
            let m1: Vec<FnVec2Param2> = (0..c[1]).map(|_| -> FnVec2Param2 { Box::new(|_, _, _, _| ()) }).collect();
            let m2: Vec<FnVec3Param2> = (0..c[2]).map(|_| -> FnVec3Param2 { Box::new(|_, _, _, _, _| ()) }).collect();
            must_err("refuse:count", "wrong number of boundary functions", Transfinite3d::new(m0, m1, Some(m2)).map(|_| ()))
        }
        2 => {
            // missing second derivatives
            let mut m = Metrics::new(2, false);
            let q = g.us(0, 2);
            let o = |i| if i == q { None } else { Some(&z2) };
            must_err("refuse:second", "missing second derivative", m.calculate_2d(&z2, &y2, o(0), o(1), o(2)))?;
            let mut m = Metrics::new(3, false);
            let q = g.us(0, 5);
            let o = |i| if i == q { None } else { Some(&z3) };
            must_err("refuse:second", "missing second derivative", m.calculate_3d(&z3, &y3, &w3, o(0), o(1), o(2), o(3), o(4), o(5)))
        }
        3 => {
            let mut m = Metrics::new(3, true);
            must_err("refuse:dimension", "plane metrics of a space", m.calculate_2d(&z2, &y2, None, None, None))?;
            let mut m = Metrics::new(2, true);
            must_err("refuse:dimension", "space metrics of a plane", m.calculate_3d(&z3, &y3, &w3, None, None, None, None, None, None))?;
            let (p, q) = if g.bool() { (&z3, &y2) } else { (&z2, &y3) };
            must_err("refuse:dimension", "vectors of different size", m.calculate_2d(p, q, None, None, None))?;
            let mut m = Metrics::new(3, true);
            let q = g.us(0, 2);
            let o = |i, v| if i == q { &z2 } else { v };
            must_err("refuse:dimension", "vectors of different size", m.calculate_3d(o(0, &z3), o(1, &y3), o(2, &w3), None, None, None, None, None, None))
        }
        _ => {
            let mut m = Metrics::new(2, true);
            let f = g.int(-3, 3) as f64;
            let y = Vector::from(&[f, 2.0 * f]);
            must_err("refuse:singular", "parallel base vectors", m.calculate_2d(&z2, &y, None, None, None))
        }
    }
}
