use crate::util::*;
use russell_tensor::*;
use vp_engine::*;

fn factor(g: &mut G) -> f64 {
    match g.draw(5) {
        0 => 1.0,
        1 => -1.0,
        2 => 0.0,
        _ => g.uni(-3.0, 3.0),
    }
}

fn t1v(g: &mut G) -> (Tensor1, [f64; 3]) {
    let mode = g.draw(4);
    let u = [comp(g, mode, 1.0), comp(g, mode, 1.0), comp(g, mode, 1.0)];
    (Tensor1::from(&u), u)
}

fn used1(g: &mut G) -> Tensor1 {
    Tensor1::from(&[g.uni(-9.0, 9.0), g.uni(-9.0, 9.0), g.uni(-9.0, 9.0)])
}

/// sums and single products of vectors and second-order tensors
fn second(g: &mut G) -> R {
    let rep = rep(g);
    let a = m3(g, rep);
    let b = m3(g, rep);
    g.show("rep", &rep);
    g.show("a", &a);
    g.show("b", &b);
    let (ta, tb) = (t2(&a, rep)?, t2(&b, rep)?);
    let (ma, mb) = (max2(&a), max2(&b));
    if ma > 0.0 && mb > 0.0 {
        g.hit();
    }
    let (al, be) = (factor(g), factor(g));
    let mut c = used2(g, rep);
    t2_add(&mut c, al, &ta, be, &tb);
    let e = build2(|i, j| al * a[i][j] + be * b[i][j]);
    cmp2("add", "t2_add", &c, &e, 16.0 * EPS * (al.abs() * ma + be.abs() * mb))?;
    let dot: f64 = (0..9).map(|k| a[k / 3][k % 3] * b[k / 3][k % 3]).sum();
    near("ddot", "t2_ddot_t2", t2_ddot_t2(&ta, &tb), dot, 60.0 * EPS * ma * mb)?;
    let mut p = used2(g, Rep::General);
    t2_dot_t2(&mut p, &ta, &tb);
    cmp2("dot", "t2_dot_t2", &p, &mul3(&a, &b), 60.0 * EPS * ma * mb)?;
    let (u, uu) = t1v(g);
    let (v, vv) = t1v(g);
    let mu = uu.iter().fold(0.0, |m: f64, x| m.max(x.abs()));
    let mv = vv.iter().fold(0.0, |m: f64, x| m.max(x.abs()));
    let mut r = used1(g);
    t2_dot_t1(&mut r, al, &ta, &u);
    for i in 0..3 {
        let e: f64 = al * (0..3).map(|j| a[i][j] * uu[j]).sum::<f64>();
        near("dot1", "t2_dot_t1", r.get(i), e, 30.0 * EPS * al.abs() * ma * mu)?;
    }
    let mut r = used1(g);
    t1_dot_t2(&mut r, al, &u, &ta);
    for j in 0..3 {
        let e: f64 = al * (0..3).map(|i| a[i][j] * uu[i]).sum::<f64>();
        near("dot1", "t1_dot_t2", r.get(j), e, 30.0 * EPS * al.abs() * ma * mu)?;
    }
    let mut d = used2(g, Rep::General);
    must("dyad1", "t1_dyad_t1", t1_dyad_t1(&mut d, al, &u, &v))?;
    cmp2("dyad1", "t1_dyad_t1", &d, &build2(|i, j| al * uu[i] * vv[j]), 16.0 * EPS * al.abs() * mu * mv)?;
    // symmetric destinations: v = c u with exact products, or an error
    let srep = if g.bool() { Rep::Symmetric } else { Rep::Symmetric2D };
    let w: [f64; 3] = [g.int(-5, 5) as f64, g.int(-5, 5) as f64, if srep == Rep::Symmetric { g.int(-5, 5) as f64 } else { 0.0 }];
    let k = g.int(-3, 3) as f64;
    let mut z = [k * w[0], k * w[1], k * w[2]];
    let spoil = g.bool();
    if spoil {
        let i = g.us(0, if srep == Rep::Symmetric { 2 } else { 1 });
        z[i] += if g.bool() { 1.0 } else { g.plog(-8.0, 0.0) };
    }
    let sym = (0..3).all(|i| (0..3).all(|j| w[i] * z[j] == w[j] * z[i]));
    let mut d = used2(g, srep);
    let res = t1_dyad_t1(&mut d, al, &Tensor1::from(&w), &Tensor1::from(&z));
    if sym {
        must("dyad1s", "t1_dyad_t1", res)?;
        cmp2("dyad1s", "t1_dyad_t1", &d, &build2(|i, j| al * w[i] * z[j]), 1e3 * EPS)?;
    } else {
        must_err("dyad1s", "t1_dyad_t1 with a product that is not symmetric", res)?;
    }
    // mixed representations are a documented panic
    let other = if rep == Rep::General { Rep::Symmetric } else { Rep::General };
    let mut w = Tensor2::new(other);
    ensure!(catch(|| t2_add(&mut w, 1.0, &ta, 1.0, &tb)).is_err(), "mixed", "t2_add accepted mixed representations");
    ensure!(catch(|| t2_ddot_t2(&w, &ta)).is_err(), "mixed", "t2_ddot_t2 accepted mixed representations");
    Ok(())
}

/// functions of one second-order tensor
fn unary(g: &mut G) -> R {
    let rep = rep(g);
    let a = m3(g, rep);
    g.show("rep", &rep);
    g.show("a", &a);
    let t = t2(&a, rep)?;
    let m = max2(&a);
    if m > 0.0 {
        g.hit();
    }
    let mut at = used2(g, rep);
    t.transpose(&mut at);
    cmp2("transpose", "transpose", &at, &tr3(&a), 8.0 * EPS * m)?;
    let det = det3(&a);
    near("det", "determinant", t.determinant(), det, 80.0 * EPS * m * m * m)?;
    let mut sq = used2(g, rep);
    t.squared(&mut sq);
    cmp2("squared", "squared", &sq, &mul3(&a, &a), 60.0 * EPS * m * m)?;
    let tr = a[0][0] + a[1][1] + a[2][2];
    near("trace", "trace", t.trace(), tr, 8.0 * EPS * m)?;
    let s = build2(|i, j| a[i][j] - dlt(i, j) * tr / 3.0);
    let mut dv = used2(g, rep);
    t.deviator(&mut dv);
    cmp2("deviator", "deviator", &dv, &s, 16.0 * EPS * m)?;
    let ds = fro2(&s);
    near("dev_norm", "deviator_norm", t.deviator_norm(), ds, 30.0 * EPS * m + 30.0 * EPS * m * if ds > 0.0 { m / ds } else { 1.0 / EPS.sqrt() })?;
    near("dev_det", "deviator_determinant", t.deviator_determinant(), det3(&s), 300.0 * EPS * m * m * m)?;
    let (mut sy, mut sk) = (used2(g, rep), used2(g, rep));
    t.decompose(&mut sy, &mut sk);
    cmp2("sym", "symmetric part", &sy, &build2(|i, j| (a[i][j] + a[j][i]) / 2.0), 8.0 * EPS * m)?;
    let w = build2(|i, j| (a[i][j] - a[j][i]) / 2.0);
    cmp2("skew", "skew part", &sk, &w, 8.0 * EPS * m)?;
    let mut ax = used1(g);
    t.axial_vector(&mut ax);
    // omega x u = skw u for every u
    let (_, u) = t1v(g);
    let o = [ax.get(0), ax.get(1), ax.get(2)];
    for i in 0..3 {
        let (j, k) = ((i + 1) % 3, (i + 2) % 3);
        let l = o[j] * u[k] - o[k] * u[j];
        let r: f64 = (0..3).map(|j| w[i][j] * u[j]).sum();
        near("axial", "axial vector", l, r, 60.0 * EPS * m * u.iter().fold(0.0, |p: f64, x| p.max(x.abs())))?;
    }
    // inverse
    let tol = *g.pick(&[0.0, 1e-10, 1e-30]);
    let mut inv = used2(g, rep);
    let before: Vec<f64> = (0..inv.dim()).map(|k| inv.get(k)).collect();
    let noise = 100.0 * EPS * m * m * m;
    match t.inverse(&mut inv, tol) {
        Some(d) => {
            near("inv_det", "determinant from inverse", d, det, noise)?;
            ensure!(det.abs() > tol - noise, "inv_some", "inverse given for determinant {det:e} with tolerance {tol:e}");
            if det.abs() > 1e6 * noise {
                g.class("inverted");
                let ie = build2(|i, j| {
                    let (p, q) = ((j + 1) % 3, (j + 2) % 3);
                    let (r, s) = ((i + 1) % 3, (i + 2) % 3);
                    (a[p][r] * a[q][s] - a[p][s] * a[q][r]) / det
                });
                let cond = (m * m * m / det.abs()).max(1.0);
                cmp2("inverse", "inverse", &inv, &ie, 200.0 * EPS * cond * m * m / det.abs())?;
            }
        }
        None => {
            ensure!(!(det.abs() > tol + noise), "inv_none", "no inverse for determinant {det:e} with tolerance {tol:e}");
            g.class("not invertible");
            for k in 0..inv.dim() {
                ensure!(inv.get(k) == before[k], "inv_keep", "destination changed although there is no inverse");
            }
        }
    }
    Ok(())
}

/// exactly singular second-order tensors have no inverse
fn singular(g: &mut G) -> R {
    let rep = rep(g);
    let mut a = [[0.0; 3]; 3];
    // integer data: the determinant is exactly zero in floating point for each kind
    let v = |g: &mut G| g.int(-4, 4) as f64;
    match g.draw(3) {
        0 => {
            // one zero row and column
            let z = g.us(0, 2);
            for i in 0..3 {
                for j in i..3 {
                    if i != z && j != z && (rep != Rep::Symmetric2D || plane(i, j)) {
                        a[i][j] = v(g);
                        a[j][i] = if rep == Rep::General { v(g) } else { a[i][j] };
                    }
                }
            }
            g.class("zero row");
        }
        1 => {
            let d = [v(g), 0.0, v(g)];
            for i in 0..3 {
                a[i][i] = d[i];
            }
            g.class("diagonal");
        }
        _ => g.class("zero"),
    }
    g.show("rep", &rep);
    g.show("a", &a);
    g.hit();
    let t = t2(&a, rep)?;
    let mut inv = used2(g, rep);
    // zero columns: products with exact zeros; only the scaling by sqrt(2) rounds
    let tol = 1e-12;
    ensure!(t.inverse(&mut inv, tol).is_none(), "singular", "inverse of a singular tensor");
    near("singular_det", "determinant", t.determinant(), 0.0, 1e-12)
}

fn third(g: &mut G) -> R {
    let rep = rep(g);
    let case_a = g.bool();
    let h = a3(g, rep, case_a);
    let h2 = a3(g, rep, case_a);
    let (al, be) = (factor(g), factor(g));
    g.show("rep", &rep);
    g.show("h", &h);
    let (th, th2) = (t3(&h, rep, case_a)?, t3(&h2, rep, case_a)?);
    let m = max3(&h);
    if m > 0.0 {
        g.hit();
    }
    let mut c = used3(g, rep, case_a);
    t3_add(&mut c, al, &th, be, &th2);
    let mut e = h;
    for i in 0..3 {
        for j in 0..3 {
            for k in 0..3 {
                e[i][j][k] = al * h[i][j][k] + be * h2[i][j][k];
            }
        }
    }
    cmp3("t3_add", "t3_add", &c, &e, 16.0 * EPS * (al.abs() * m + be.abs() * max3(&h2)))?;
    if case_a {
        let (u, uu) = t1v(g);
        let mu = uu.iter().fold(0.0, |m: f64, x| m.max(x.abs()));
        let mut tt = used2(g, rep);
        t3_dot_t1(&mut tt, al, &th, &u);
        let e = build2(|i, j| al * (0..3).map(|k| h[i][j][k] * uu[k]).sum::<f64>());
        cmp2("t3_dot_t1", "t3_dot_t1", &tt, &e, 40.0 * EPS * m * mu * al.abs())?;
        let s = t2(&m3(g, rep), rep)?;
        let mut v = used1(g);
        ensure!(catch(|| t3_ddot_t2(&mut v, 1.0, &th, &s)).is_err(), "t3_case", "t3_ddot_t2 accepted case A");
    } else {
        let s = m3(g, rep);
        let ts = t2(&s, rep)?;
        let mut v = used1(g);
        t3_ddot_t2(&mut v, al, &th, &ts);
        for i in 0..3 {
            let mut e = 0.0;
            for j in 0..3 {
                for k in 0..3 {
                    e += h[i][j][k] * s[j][k];
                }
            }
            near("t3_ddot_t2", "t3_ddot_t2", v.get(i), al * e, 80.0 * EPS * m * max2(&s) * al.abs())?;
        }
    }
    let p = Tensor3::constant_permutation(case_a);
    let mut e = [[[0.0; 3]; 3]; 3];
    for i in 0..3 {
        for j in 0..3 {
            for k in 0..3 {
                e[i][j][k] = (i as f64 - j as f64) * (j as f64 - k as f64) * (k as f64 - i as f64) / 2.0;
            }
        }
    }
    cmp3("permutation", "constant_permutation", &p, &e, 4.0 * EPS)
}

fn ddot44(a: &A4, b: &A4) -> A4 {
    build4(|i, j, k, l| {
        let mut s = 0.0;
        for p in 0..3 {
            for q in 0..3 {
                s += a[i][j][p][q] * b[p][q][k][l];
            }
        }
        s
    })
}

/// products of fourth-order with second-order tensors
fn mixed(g: &mut G) -> R {
    let rep = rep(g);
    let a = m3(g, rep);
    let b = m3(g, rep);
    let c = a4(g, rep);
    let d = a4(g, rep);
    let (al, be) = (factor(g), factor(g));
    g.show("rep", &rep);
    g.show("a", &a);
    g.show("b", &b);
    let (ta, tb) = (t2(&a, rep)?, t2(&b, rep)?);
    let (tc, td) = (t4(&c, rep)?, t4(&d, rep)?);
    let (ma, mb, mc, md) = (max2(&a), max2(&b), max4(&c), max4(&d));
    if ma > 0.0 && mb > 0.0 && mc > 0.0 && md > 0.0 {
        g.hit();
    }
    let mut e4 = used4(g, rep);
    t2_dyad_t2(&mut e4, al, &ta, &tb);
    cmp4("dyad", "t2_dyad_t2", &e4, &build4(|i, j, k, l| al * a[i][j] * b[k][l]), 30.0 * EPS * al.abs() * ma * mb)?;
    let mut e4 = t4(&c, rep)?;
    t2_dyad_t2_update(&mut e4, al, &ta, &tb);
    let e = build4(|i, j, k, l| c[i][j][k][l] + al * a[i][j] * b[k][l]);
    cmp4("dyad_update", "t2_dyad_t2_update", &e4, &e, 30.0 * EPS * (mc + al.abs() * ma * mb))?;

    let c_a = build2(|i, j| {
        let mut s = 0.0;
        for k in 0..3 {
            for l in 0..3 {
                s += c[i][j][k][l] * a[k][l];
            }
        }
        s
    });
    let a_c = build2(|k, l| {
        let mut s = 0.0;
        for i in 0..3 {
            for j in 0..3 {
                s += a[i][j] * c[i][j][k][l];
            }
        }
        s
    });
    let t9 = 150.0 * EPS * mc * ma;
    let mut r = used2(g, rep);
    t4_ddot_t2(&mut r, al, &tc, &ta);
    cmp2("t4_ddot_t2", "t4_ddot_t2", &r, &build2(|i, j| al * c_a[i][j]), t9 * al.abs())?;
    let mut r = t2(&b, rep)?;
    t4_ddot_t2_update(&mut r, al, &tc, &ta, be);
    let e = build2(|i, j| al * c_a[i][j] + be * b[i][j]);
    cmp2("t4_ddot_t2_update", "t4_ddot_t2_update", &r, &e, t9 * al.abs() + 16.0 * EPS * be.abs() * mb)?;
    let mut r = used2(g, rep);
    t2_ddot_t4(&mut r, al, &ta, &tc);
    cmp2("t2_ddot_t4", "t2_ddot_t4", &r, &build2(|i, j| al * a_c[i][j]), t9 * al.abs())?;
    let s: f64 = (0..9).map(|k| a_c[k / 3][k % 3] * b[k / 3][k % 3]).sum();
    near("t2_ddot_t4_ddot_t2", "t2_ddot_t4_ddot_t2", t2_ddot_t4_ddot_t2(&ta, &tc, &tb), s, 2000.0 * EPS * ma * mb * mc)?;
    let b_c = build2(|k, l| {
        let mut s = 0.0;
        for i in 0..3 {
            for j in 0..3 {
                s += b[i][j] * c[i][j][k][l];
            }
        }
        s
    });
    let mut e4 = used4(g, rep);
    t4_ddot_t2_dyad_t2_ddot_t4(&mut e4, al, &tc, be, &ta, &tb);
    let e = build4(|i, j, k, l| al * c[i][j][k][l] + be * c_a[i][j] * b_c[k][l]);
    cmp4(
        "t4_dyad_t4",
        "t4_ddot_t2_dyad_t2_ddot_t4",
        &e4,
        &e,
        20.0 * EPS * al.abs() * mc + 3e4 * EPS * be.abs() * mc * mc * ma * mb,
    )?;

    let mut e4 = used4(g, rep);
    t4_add(&mut e4, al, &tc, be, &td);
    let e = build4(|i, j, k, l| al * c[i][j][k][l] + be * d[i][j][k][l]);
    cmp4("t4_add", "t4_add", &e4, &e, 16.0 * EPS * (al.abs() * mc + be.abs() * md))?;
    let cd = ddot44(&c, &d);
    let mut e4 = used4(g, rep);
    t4_ddot_t4(&mut e4, al, &tc, &td);
    let t9 = 200.0 * EPS * mc * md * al.abs();
    cmp4("t4_ddot_t4", "t4_ddot_t4", &e4, &build4(|i, j, k, l| al * cd[i][j][k][l]), t9)?;
    let mut e4 = t4(&c, rep)?;
    t4_ddot_t4_update(&mut e4, al, &tc, &td, be);
    let e = build4(|i, j, k, l| al * cd[i][j][k][l] + be * c[i][j][k][l]);
    cmp4("t4_ddot_t4_update", "t4_ddot_t4_update", &e4, &e, t9 + 20.0 * EPS * be.abs() * mc)?;
    Ok(())
}

/// overbar, underbar and symmetrized dyadic products
fn bars(g: &mut G) -> R {
    let rep = rep(g);
    let a = m3(g, rep);
    let b = m3(g, rep);
    let s = factor(g);
    g.show("rep", &rep);
    g.show("a", &a);
    g.show("b", &b);
    let (ta, tb) = (t2(&a, rep)?, t2(&b, rep)?);
    let tol = 60.0 * EPS * s.abs() * max2(&a) * max2(&b);
    let tola = 60.0 * EPS * s.abs() * max2(&a) * max2(&a);
    if s != 0.0 && tol > 0.0 {
        g.hit();
    }
    let loops = g.bool();
    g.class(if loops { "loops" } else { "unrolled" });
    let mut d = used4(g, Rep::General);
    d.use_loops = loops;
    t2_odyad_t2(&mut d, s, &ta, &tb);
    cmp4("odyad", "t2_odyad_t2", &d, &build4(|i, j, k, l| s * a[i][k] * b[j][l]), tol)?;
    let mut d = used4(g, Rep::General);
    d.use_loops = loops;
    t2_udyad_t2(&mut d, s, &ta, &tb);
    cmp4("udyad", "t2_udyad_t2", &d, &build4(|i, j, k, l| s * a[i][l] * b[j][k]), tol)?;
    let mut d = used4(g, Rep::Symmetric);
    d.use_loops = loops;
    t2_ssd(&mut d, s, &ta);
    let e = build4(|i, j, k, l| s * (a[i][k] * a[j][l] + a[i][l] * a[j][k]));
    cmp4("ssd", "t2_ssd", &d, &e, 2.0 * tola)?;
    let mut d = used4(g, Rep::Symmetric);
    d.use_loops = loops;
    t2_qsd_t2(&mut d, s, &ta, &tb);
    let e = build4(|i, j, k, l| s * (a[i][k] * b[j][l] + a[i][l] * b[j][k] + b[i][k] * a[j][l] + b[i][l] * a[j][k]));
    cmp4("qsd", "t2_qsd_t2", &d, &e, 4.0 * tol)?;
    let mut w = Tensor4::new(if rep == Rep::Symmetric2D { Rep::Symmetric2D } else { Rep::General });
    ensure!(catch(|| t2_ssd(&mut w, s, &ta)).is_err(), "ssd_rep", "t2_ssd accepted {:?}", w.rep());
    Ok(())
}

/// inverse of fourth-order tensors and constant tensors
fn inverse4(g: &mut G) -> R {
    let rep = rep(g);
    let mut c = a4_scaled(g, rep, 1.0);
    let kind = g.draw(3);
    let shift = g.uni(3.0, 30.0);
    if kind > 0 {
        // add a multiple of the identity map of the representation
        let id = ident(rep);
        let m = max4(&c);
        c = build4(|i, j, k, l| c[i][j][k][l] + shift * m * id[i][j][k][l]);
    }
    g.show("rep", &rep);
    g.show("c", &c);
    let t = t4(&c, rep)?;
    let mut inv = used4(g, rep);
    let m = max4(&c);
    // determinant of the internal matrix in extended precision (pivoted elimination)
    let n = t.dim();
    let (det, minpiv) = elimination(&t, n);
    match t.calc_inverse(&mut inv) {
        Ok(d) => {
            if minpiv > 1e-9 * (1.0 + m) {
                g.hit();
                g.class("inverted");
                same_rel("inv4_det", "determinant", d, det, 1e-6, 1e-300)?;
                let mut iv = [[[[0.0; 3]; 3]; 3]; 3];
                for i in 0..3 {
                    for j in 0..3 {
                        for k in 0..3 {
                            for l in 0..3 {
                                iv[i][j][k][l] = inv.get_std(i, j, k, l);
                            }
                        }
                    }
                }
                // C : C^-1 = C^-1 : C = identity of the representation
                let id = ident(rep);
                let mi = max4(&iv);
                let tol = 3e3 * EPS * m * mi * (1.0 + m * mi).min(1e5);
                for (w, x) in [("C:C^-1", ddot44(&c, &iv)), ("C^-1:C", ddot44(&iv, &c))] {
                    for k in 0..81 {
                        let (i, j, p, q) = (k / 27, k / 9 % 3, k / 3 % 3, k % 3);
                        near("inv4", w, x[i][j][p][q], id[i][j][p][q], tol)?;
                    }
                }
            }
        }
        Err(_) => {
            ensure!(minpiv < 1e-9 * (1.0 + m), "inv4_err", "inverse refused; smallest pivot {minpiv:e}");
            g.class("singular");
        }
    }
    // a tensor with a null direction has no inverse
    let mut z = t4(&c, rep)?;
    let p = g.us(0, n - 1);
    for q in 0..n {
        if g.bool() {
            z.set(p, q, 0.0);
        } else {
            z.set(p, q, 0.0);
        }
    }
    must_err("inv4_singular", "calc_inverse with a zero row", z.calc_inverse(&mut inv))?;
    let mut w = Tensor4::new(if rep == Rep::General { Rep::Symmetric } else { Rep::General });
    must_err("inv4_rep", "calc_inverse into another representation", t.calc_inverse(&mut w))?;
    Ok(())
}

/// the map of the representation that leaves its second-order tensors unchanged
fn ident(rep: Rep) -> A4 {
    build4(|i, j, k, l| {
        if rep == Rep::General {
            dlt(i, k) * dlt(j, l)
        } else {
            let v = 0.5 * (dlt(i, k) * dlt(j, l) + dlt(i, l) * dlt(j, k));
            if rep == Rep::Symmetric2D && (!plane(i, j) || !plane(k, l)) { 0.0 } else { v }
        }
    })
}

fn elimination(t: &Tensor4, n: usize) -> (f64, f64) {
    let mut a: Vec<Vec<f64>> = (0..n).map(|m| (0..n).map(|k| t.get(m, k)).collect()).collect();
    let (mut det, mut minp) = (1.0, f64::INFINITY);
    for k in 0..n {
        // full pivoting
        let (mut pi, mut pj) = (k, k);
        for i in k..n {
            for j in k..n {
                if a[i][j].abs() > a[pi][pj].abs() {
                    pi = i;
                    pj = j;
                }
            }
        }
        if pi != k {
            a.swap(pi, k);
            det = -det;
        }
        if pj != k {
            for r in a.iter_mut() {
                r.swap(pj, k);
            }
            det = -det;
        }
        let p = a[k][k];
        det *= p;
        minp = f64::min(minp, p.abs());
        if p == 0.0 {
            return (0.0, 0.0);
        }
        for i in k + 1..n {
            let f = a[i][k] / p;
            for j in k..n {
                let x = a[k][j];
                a[i][j] -= f * x;
            }
        }
    }
    (det, minp)
}

/// the constant fourth-order tensors act on second-order tensors as their names say
fn constants(g: &mut G) -> R {
    let tol = 8.0 * EPS;
    g.hit();
    let id = build4(|i, j, k, l| dlt(i, k) * dlt(j, l));
    let tt = build4(|i, j, k, l| dlt(i, l) * dlt(j, k));
    let jj = build4(|i, j, k, l| dlt(i, j) * dlt(k, l));
    let sym = build4(|i, j, k, l| 0.5 * (dlt(i, k) * dlt(j, l) + dlt(i, l) * dlt(j, k)));
    let skw = build4(|i, j, k, l| 0.5 * (dlt(i, k) * dlt(j, l) - dlt(i, l) * dlt(j, k)));
    let iso = build4(|i, j, k, l| dlt(i, j) * dlt(k, l) / 3.0);
    let dev = build4(|i, j, k, l| id[i][j][k][l] - iso[i][j][k][l]);
    let symdev = build4(|i, j, k, l| sym[i][j][k][l] - iso[i][j][k][l]);
    let red = g.bool();
    cmp4("const", "constant_ii", &Tensor4::constant_ii(), &id, tol)?;
    cmp4("const", "constant_tt", &Tensor4::constant_tt(), &tt, tol)?;
    cmp4("const", "constant_jj", &Tensor4::constant_jj(red), &jj, tol)?;
    cmp4("const", "constant_pp_iso", &Tensor4::constant_pp_iso(red), &iso, tol)?;
    cmp4("const", "constant_pp_sym", &Tensor4::constant_pp_sym(red), &sym, tol)?;
    cmp4("const", "constant_pp_skew", &Tensor4::constant_pp_skew(), &skw, tol)?;
    cmp4("const", "constant_pp_dev", &Tensor4::constant_pp_dev(), &dev, tol)?;
    cmp4("const", "constant_pp_symdev", &Tensor4::constant_pp_symdev(red), &symdev, tol)?;
    for t in [
        Tensor4::constant_jj(red),
        Tensor4::constant_pp_iso(red),
        Tensor4::constant_pp_sym(red),
        Tensor4::constant_pp_symdev(red),
    ] {
        ensure!(t.rep() == if red { Rep::Symmetric } else { Rep::General }, "const_rep", "representation {:?}", t.rep());
    }
    let rep = rep(g);
    let mut p = used4(g, rep);
    p.set_pp_symdev();
    let e = build4(|i, j, k, l| {
        if rep == Rep::Symmetric2D && (!plane(i, j) || !plane(k, l)) { 0.0 } else { symdev[i][j][k][l] }
    });
    cmp4("set_pp_symdev", "set_pp_symdev", &p, &e, tol)
}

pub fn property() -> Property {
    Property {
        id: "C19",
        assumptions: &[
            "components with magnitude between 1e-11 and 1e11, or zero; factors in [-3,3]",
            "plane destinations of the vector dyadic product only with vectors in the plane",
            "fourth-order inverses with pivots well above 1e-9 or exactly zero rows",
        ],
        laws: vec![
            Law { name: "second", quick: 1_000_000, rule: "both tensors are not zero", f: second },
            Law { name: "unary", quick: 1_500_000, rule: "the tensor is not zero", f: unary },
            Law { name: "singular", quick: 100_000, rule: "always", f: singular },
            Law { name: "third", quick: 500_000, rule: "the tensor is not zero", f: third },
            Law { name: "mixed", quick: 500_000, rule: "no operand is zero", f: mixed },
            Law { name: "bars", quick: 800_000, rule: "no operand is zero", f: bars },
            Law { name: "inverse4", quick: 500_000, rule: "an inverse was computed and multiplied back", f: inverse4 },
            Law { name: "constants", quick: 2_000, rule: "always", f: constants },
        ],
    }
}
