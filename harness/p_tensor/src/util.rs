//! Standard-component models of the tensors and the generators that fill them.
use russell_tensor::*;
use vp_engine::*;

pub type M3 = [[f64; 3]; 3];
pub type A3 = [[[f64; 3]; 3]; 3];
pub type A4 = [[[[f64; 3]; 3]; 3]; 3];

pub const EPS: f64 = f64::EPSILON;
pub const REPS: [Rep; 3] = [Rep::General, Rep::Symmetric, Rep::Symmetric2D];
/// position of the pair (i,j) in the internal vector (documented order)
pub const MTOIJ: [(usize, usize); 9] = [(0, 0), (1, 1), (2, 2), (0, 1), (1, 2), (0, 2), (1, 0), (2, 1), (2, 0)];
pub const S2: f64 = std::f64::consts::SQRT_2;

pub fn rep(g: &mut G) -> Rep {
    let r = REPS[g.us(0, 2)];
    g.class(match r {
        Rep::General => "general",
        Rep::Symmetric => "symmetric",
        Rep::Symmetric2D => "plane symmetric",
    });
    r
}

pub fn sym_rep(g: &mut G) -> Rep {
    let r = REPS[g.us(1, 2)];
    g.class(match r {
        Rep::Symmetric => "symmetric",
        _ => "plane symmetric",
    });
    r
}

/// is the pair (i,j) held by the plane representation?
pub fn plane(i: usize, j: usize) -> bool {
    (i == 2) == (j == 2)
}

/// one component: integers, zeros, uniform numbers; `scale` multiplies all
pub fn comp(g: &mut G, mode: u64, scale: f64) -> f64 {
    scale
        * match mode {
            0 => g.int(-4, 4) as f64,
            1 => g.uni(-1.0, 1.0),
            2 => {
                if g.chance(1, 2) {
                    0.0
                } else {
                    g.uni(-2.0, 2.0)
                }
            }
            _ => g.flog(-3.0, 3.0),
        }
}

pub fn scale(g: &mut G) -> f64 {
    match g.draw(4) {
        0 | 1 => 1.0,
        2 => g.plog(-3.0, 3.0),
        _ => g.plog(-8.0, 8.0),
    }
}

pub fn m3(g: &mut G, rep: Rep) -> M3 {
    let s = scale(g);
    m3_scaled(g, rep, s)
}

pub fn m3_scaled(g: &mut G, rep: Rep, s: f64) -> M3 {
    let mode = g.draw(4);
    let mut a = [[0.0; 3]; 3];
    for i in 0..3 {
        for j in 0..3 {
            a[i][j] = comp(g, mode, s);
        }
    }
    if rep != Rep::General {
        for i in 0..3 {
            for j in 0..i {
                a[i][j] = a[j][i];
            }
        }
    }
    if rep == Rep::Symmetric2D {
        for (i, j) in [(0, 2), (1, 2), (2, 0), (2, 1)] {
            a[i][j] = 0.0;
        }
    }
    a
}

/// third-order components; case A: symmetric in (i,j); case B: symmetric in (j,k)
pub fn a3(g: &mut G, rep: Rep, case_a: bool) -> A3 {
    let s = scale(g);
    let mode = g.draw(4);
    let mut a = [[[0.0; 3]; 3]; 3];
    for i in 0..3 {
        for j in 0..3 {
            for k in 0..3 {
                a[i][j][k] = comp(g, mode, s);
            }
        }
    }
    let b = a;
    if rep != Rep::General {
        for i in 0..3 {
            for j in 0..3 {
                for k in 0..3 {
                    let (p, q) = if case_a { (i, j) } else { (j, k) };
                    a[i][j][k] = if case_a {
                        b[i.min(j)][i.max(j)][k]
                    } else {
                        b[i][j.min(k)][j.max(k)]
                    };
                    if rep == Rep::Symmetric2D && !plane(p, q) {
                        a[i][j][k] = 0.0;
                    }
                }
            }
        }
    }
    a
}

pub fn a4(g: &mut G, rep: Rep) -> A4 {
    let s = scale(g);
    a4_scaled(g, rep, s)
}

pub fn a4_scaled(g: &mut G, rep: Rep, s: f64) -> A4 {
    let mode = g.draw(4);
    let mut a = [[[[0.0; 3]; 3]; 3]; 3];
    for i in 0..3 {
        for j in 0..3 {
            for k in 0..3 {
                for l in 0..3 {
                    a[i][j][k][l] = comp(g, mode, s);
                }
            }
        }
    }
    sym4(&a, rep)
}

/// keeps the part of the components that the representation can hold
pub fn sym4(b: &A4, rep: Rep) -> A4 {
    let mut a = *b;
    if rep != Rep::General {
        for i in 0..3 {
            for j in 0..3 {
                for k in 0..3 {
                    for l in 0..3 {
                        a[i][j][k][l] = b[i.min(j)][i.max(j)][k.min(l)][k.max(l)];
                        if rep == Rep::Symmetric2D && (!plane(i, j) || !plane(k, l)) {
                            a[i][j][k][l] = 0.0;
                        }
                    }
                }
            }
        }
    }
    a
}

/// a tensor that was used before: every internal component holds something
pub fn used2(g: &mut G, rep: Rep) -> Tensor2 {
    let mut t = Tensor2::new(rep);
    let dirty = g.chance(3, 4);
    if dirty {
        for m in 0..t.dim() {
            t.set(m, g.uni(-9.0, 9.0));
        }
    }
    t
}

pub fn used3(g: &mut G, rep: Rep, case_a: bool) -> Tensor3 {
    let mut t = Tensor3::new(rep, case_a);
    if g.chance(3, 4) {
        let (r, c) = t.dims();
        for m in 0..r {
            for n in 0..c {
                t.set(m, n, g.uni(-9.0, 9.0));
            }
        }
    }
    t
}

pub fn used4(g: &mut G, rep: Rep) -> Tensor4 {
    let mut t = Tensor4::new(rep);
    if g.chance(3, 4) {
        for m in 0..t.dim() {
            for n in 0..t.dim() {
                t.set(m, n, g.uni(-9.0, 9.0));
            }
        }
    }
    t
}

pub fn t2(a: &M3, rep: Rep) -> Result<Tensor2, Stop> {
    must("load2", "Tensor2::from_std_matrix", Tensor2::from_std_matrix(a, rep))
}

pub fn t3(a: &A3, rep: Rep, case_a: bool) -> Result<Tensor3, Stop> {
    must("load3", "Tensor3::from_std_array", Tensor3::from_std_array(a, rep, case_a))
}

pub fn t4(a: &A4, rep: Rep) -> Result<Tensor4, Stop> {
    must("load4", "Tensor4::from_std_array", Tensor4::from_std_array(a, rep))
}

pub fn max2(a: &M3) -> f64 {
    a.iter().flatten().fold(0.0, |m, v| f64::max(m, v.abs()))
}

pub fn max3(a: &A3) -> f64 {
    a.iter().flatten().flatten().fold(0.0, |m, v| f64::max(m, v.abs()))
}

pub fn max4(a: &A4) -> f64 {
    a.iter().flatten().flatten().flatten().fold(0.0, |m, v| f64::max(m, v.abs()))
}

pub fn fro2(a: &M3) -> f64 {
    let s = max2(a);
    if s == 0.0 {
        return 0.0;
    }
    s * a.iter().flatten().map(|v| (v / s) * (v / s)).sum::<f64>().sqrt()
}

/// compares all nine standard components
pub fn cmp2(key: &str, what: &str, t: &Tensor2, e: &M3, tol: f64) -> R {
    for i in 0..3 {
        for j in 0..3 {
            near(key, &format!("{what}[{i}{j}]"), t.get_std(i, j), e[i][j], tol)?;
        }
    }
    Ok(())
}

pub fn cmp3(key: &str, what: &str, t: &Tensor3, e: &A3, tol: f64) -> R {
    for i in 0..3 {
        for j in 0..3 {
            for k in 0..3 {
                near(key, &format!("{what}[{i}{j}{k}]"), t.get_std(i, j, k), e[i][j][k], tol)?;
            }
        }
    }
    Ok(())
}

pub fn cmp4(key: &str, what: &str, t: &Tensor4, e: &A4, tol: f64) -> R {
    for i in 0..3 {
        for j in 0..3 {
            for k in 0..3 {
                for l in 0..3 {
                    let v = t.get_std(i, j, k, l);
                    if !((v - e[i][j][k][l]).abs() <= tol) {
                        return fail(
                            key,
                            format!("{what}[{i}{j}{k}{l}]: got {v:?}, expected {:?} (tol {tol:e})", e[i][j][k][l]),
                        );
                    }
                }
            }
        }
    }
    Ok(())
}

pub fn build4(f: impl Fn(usize, usize, usize, usize) -> f64) -> A4 {
    let mut a = [[[[0.0; 3]; 3]; 3]; 3];
    for i in 0..3 {
        for j in 0..3 {
            for k in 0..3 {
                for l in 0..3 {
                    a[i][j][k][l] = f(i, j, k, l);
                }
            }
        }
    }
    a
}

pub fn build2(f: impl Fn(usize, usize) -> f64) -> M3 {
    let mut a = [[0.0; 3]; 3];
    for i in 0..3 {
        for j in 0..3 {
            a[i][j] = f(i, j);
        }
    }
    a
}

pub fn dlt(i: usize, j: usize) -> f64 {
    if i == j { 1.0 } else { 0.0 }
}

pub fn det3(a: &M3) -> f64 {
    a[0][0] * (a[1][1] * a[2][2] - a[1][2] * a[2][1]) - a[0][1] * (a[1][0] * a[2][2] - a[1][2] * a[2][0])
        + a[0][2] * (a[1][0] * a[2][1] - a[1][1] * a[2][0])
}

pub fn mul3(a: &M3, b: &M3) -> M3 {
    build2(|i, j| (0..3).map(|k| a[i][k] * b[k][j]).sum())
}

pub fn tr3(a: &M3) -> M3 {
    build2(|i, j| a[j][i])
}

/// a rotation matrix (product of three plane rotations; only the last axis in the plane case)
pub fn rotation(g: &mut G, planar: bool) -> M3 {
    let rot = |c: f64, s: f64, p: usize, q: usize| {
        let mut r = build2(dlt);
        r[p][p] = c;
        r[q][q] = c;
        r[p][q] = -s;
        r[q][p] = s;
        r
    };
    let mut m = build2(dlt);
    let axes: &[(usize, usize)] = if planar { &[(0, 1)] } else { &[(0, 1), (1, 2), (0, 2)] };
    for (p, q) in axes {
        let a = if g.chance(1, 5) {
            std::f64::consts::FRAC_PI_2 * g.int(-2, 2) as f64
        } else {
            g.uni(-3.2, 3.2)
        };
        m = mul3(&m, &rot(a.cos(), a.sin(), *p, *q));
    }
    m
}

/// symmetric tensor with the given principal values: R diag(l) Rt, exactly symmetric
pub fn from_principal(l: &[f64; 3], r: &M3) -> M3 {
    let a = build2(|i, j| (0..3).map(|k| r[i][k] * l[k] * r[j][k]).sum());
    build2(|i, j| a[i.min(j)][i.max(j)])
}

/// three principal values, often repeated or with zero sum
pub fn principal(g: &mut G) -> [f64; 3] {
    let s = match g.draw(4) {
        0 => g.plog(-2.0, 2.0),
        _ => 1.0,
    };
    let v = |g: &mut G| s * if g.bool() { g.int(-4, 4) as f64 } else { g.uni(-3.0, 3.0) };
    let a = v(g);
    let b = v(g);
    let c = v(g);
    match g.draw(8) {
        0 => [a, a, b],
        1 => [a, b, b],
        2 => [a, a, a],
        3 => [a, 0.0, 0.0],
        4 => [a, b, -a - b],
        5 => [a, 0.5 * (a + c), c],
        _ => [a, b, c],
    }
}
