use crate::util::*;
use russell_lab::Vector;
use russell_tensor::*;
use vp_engine::*;

const TOL_J2: f64 = 1e-9; // documented threshold

fn sorted(l: &[f64; 3]) -> [f64; 3] {
    let mut s = *l;
    s.sort_by(|a, b| b.partial_cmp(a).unwrap());
    s
}

/// accuracy of the Lode invariant for a tensor of size n with deviatoric radius r
fn lode_tol(n: f64, r: f64) -> f64 {
    let q = (n / r).max(1.0);
    500.0 * EPS * q * q * q
}

fn check_all(a: &M3, l: &[f64; 3], rep: Rep, key: &str) -> R {
    let t = t2(a, rep)?;
    let n = l.iter().fold(0.0, |m: f64, x| m.max(x.abs()));
    let tr = l[0] + l[1] + l[2];
    let s = [l[0] - tr / 3.0, l[1] - tr / 3.0, l[2] - tr / 3.0];
    let j2 = 0.5 * (s[0] * s[0] + s[1] * s[1] + s[2] * s[2]);
    let j3 = s[0] * s[1] * s[2];
    let r = (2.0 * j2).sqrt();
    let e = 100.0 * EPS;
    let k = |w: &str| format!("{key}_{w}");
    near(&k("i1"), "I1", t.invariant_ii1(), tr, e * n)?;
    near(&k("i2"), "I2", t.invariant_ii2(), l[0] * l[1] + l[1] * l[2] + l[0] * l[2], e * n * n)?;
    near(&k("i3"), "I3", t.invariant_ii3(), l[0] * l[1] * l[2], e * n * n * n)?;
    near(&k("j2"), "J2", t.invariant_jj2(), j2, e * n * n)?;
    near(&k("j3"), "J3", t.invariant_jj3(), j3, 2.0 * e * n * n * n)?;
    // the radius is a square root: its error is that of its square divided by itself, at most its root
    let dr = f64::min(e * n * n / r.max(1e-300), e.sqrt() * n);
    near(&k("sigma_s"), "sigma_s", t.invariant_sigma_s(), tr / 3f64.sqrt(), e * n)?;
    near(&k("sigma_t"), "sigma_t", t.invariant_sigma_t(), r, dr)?;
    near(&k("p"), "p", t.invariant_p(), tr / 3.0, e * n)?;
    near(&k("q"), "q", t.invariant_q(), (3.0 * j2).sqrt(), 2.0 * dr)?;
    near(&k("eps_s"), "eps_s", t.invariant_eps_s(), tr / 3f64.sqrt(), e * n)?;
    near(&k("eps_t"), "eps_t", t.invariant_eps_t(), r, dr)?;
    near(&k("eps_v"), "eps_v", t.invariant_eps_v(), tr, e * n)?;
    near(&k("eps_d"), "eps_d", t.invariant_eps_d(), r * (2.0f64 / 3.0).sqrt(), dr)?;
    let (d, rr, lo) = t.invariants_octahedral();
    near(&k("oct_d"), "octahedral distance", d, tr / 3f64.sqrt(), e * n)?;
    near(&k("oct_r"), "octahedral radius", rr, r, dr)?;
    let lode = t.invariant_lode();
    ensure!(lode == lo, k("oct_l"), "Lode invariant differs between the two functions: {lode:?} {lo:?}");
    let fuzzy = (j2 - TOL_J2).abs() < 1e-12 + e * n * n;
    match lode {
        Some(x) => {
            ensure!(j2 > TOL_J2 || fuzzy, k("lode_some"), "Lode invariant given for J2 = {j2:e}");
            if j2 > TOL_J2 {
                let ex = 1.5 * 3f64.sqrt() * j3 / j2.powf(1.5);
                near(&k("lode"), "Lode", x, ex, lode_tol(n, r))?;
                ensure!(x >= -1.0 && x <= 1.0, k("lode_range"), "Lode invariant {x:?} outside [-1,1]");
            }
        }
        None => ensure!(j2 <= TOL_J2 || fuzzy, k("lode_none"), "no Lode invariant for J2 = {j2:e}"),
    }
    Ok(())
}

/// invariants from principal values, in any frame
fn invariants(g: &mut G) -> R {
    let rep = rep(g);
    let l = principal(g);
    let rot = rotation(g, rep == Rep::Symmetric2D);
    let a = from_principal(&l, &rot);
    g.show("principal", &l);
    g.show("a", &a);
    let mut d = [[0.0; 3]; 3];
    for i in 0..3 {
        d[i][i] = l[i];
    }
    if l.iter().any(|x| *x != 0.0) {
        g.hit();
    }
    g.class(if l[0] == l[1] && l[1] == l[2] { "spherical" } else { "not spherical" });
    if rep == Rep::General {
        // the range of the Lode invariant is stated for symmetric tensors; use the symmetric one there
        check_all(&a, &l, Rep::Symmetric, "rotated")?;
    } else {
        check_all(&a, &l, rep, "rotated")?;
    }
    check_all(&d, &l, if rep == Rep::General { Rep::Symmetric } else { rep }, "diagonal")?;
    Ok(())
}

/// invariants of general tensors equal their definitions and do not depend on the frame
fn general(g: &mut G) -> R {
    let a = m3_scaled(g, Rep::General, 1.0);
    let rot = rotation(g, false);
    let b = mul3(&mul3(&rot, &a), &tr3(&rot));
    g.show("a", &a);
    let n = max2(&a);
    if n == 0.0 {
        discard!();
    }
    g.hit();
    let tr = a[0][0] + a[1][1] + a[2][2];
    let a2 = mul3(&a, &a);
    let tr2 = a2[0][0] + a2[1][1] + a2[2][2];
    let s = build2(|i, j| a[i][j] - dlt(i, j) * tr / 3.0);
    let s2 = mul3(&s, &s);
    let e = 300.0 * EPS;
    for (w, m) in [("given", &a), ("rotated", &b)] {
        let t = t2(m, Rep::General)?;
        near("gen_i1", w, t.invariant_ii1(), tr, e * n)?;
        near("gen_i2", w, t.invariant_ii2(), 0.5 * (tr * tr - tr2), e * n * n)?;
        near("gen_i3", w, t.invariant_ii3(), det3(&a), e * n * n * n)?;
        near("gen_j2", w, t.invariant_jj2(), 0.5 * (s2[0][0] + s2[1][1] + s2[2][2]), e * n * n)?;
        near("gen_j3", w, t.invariant_jj3(), det3(&s), 3.0 * e * n * n * n)?;
        near("gen_norm", w, t.norm(), fro2(&a), e * n)?;
        near("gen_p", w, t.invariant_p(), tr / 3.0, e * n)?;
        near("gen_sigma_s", w, t.invariant_sigma_s(), tr / 3f64.sqrt(), e * n)?;
        let r = fro2(&s);
        let dr = f64::min(e * n * n / r.max(1e-300), e.sqrt() * n);
        near("gen_sigma_t", w, t.invariant_sigma_t(), r, dr)?;
    }
    Ok(())
}

/// octahedral coordinates -> tensor -> the same coordinates, and back from any tensor
fn octahedral(g: &mut G) -> R {
    let d = match g.draw(3) {
        0 => 0.0,
        1 => g.uni(-3.0, 3.0),
        _ => g.flog(-3.0, 3.0),
    };
    let r = match g.draw(4) {
        0 => 0.0,
        1 => g.plog(-3.0, 3.0),
        _ => g.uni(0.1, 3.0),
    };
    let lode = match g.draw(5) {
        0 => *g.pick(&[-1.0, 1.0, 0.0]),
        _ => g.uni(-1.0, 1.0),
    };
    let two = g.bool();
    g.show("d,r,lode", &(d, r, lode, two));
    let t = must("oct", "new_from_octahedral", Tensor2::new_from_octahedral(d, r, lode, two))?;
    ensure!(t.rep() == if two { Rep::Symmetric2D } else { Rep::Symmetric }, "oct_rep", "representation {:?}", t.rep());
    let n = d.abs().max(r);
    let (dd, rr, ll) = t.invariants_octahedral();
    near("oct_d", "distance", dd, d, 50.0 * EPS * n)?;
    near("oct_r", "radius", rr, r, 50.0 * EPS * n * (1.0 + n / r.max(1e-9 * n + 1e-300)))?;
    if 0.5 * r * r > 1.1 * TOL_J2 + 100.0 * EPS * n * n {
        g.hit();
        match ll {
            Some(x) => near("oct_lode", "Lode", x, lode, 2.0 * lode_tol(n, r))?,
            None => return fail("oct_lode", format!("no Lode invariant for radius {r:e}")),
        }
    }
    // principal values in the order given by the definition of theta in [0, pi/3]
    for (i, j) in [(0, 1), (0, 2), (1, 2), (1, 0), (2, 0), (2, 1)] {
        ensure!(t.get_std(i, j) == 0.0, "oct_diag", "component {i}{j} is not zero");
    }
    let bad = *g.pick(&[1.0 + 1e-9, -1.0 - 1e-9, 2.0, -5.0]);
    must_err("oct_err", "new_from_octahedral with lode out of range", Tensor2::new_from_octahedral(d, r, bad, two))?;
    // angle version
    let pi = std::f64::consts::PI;
    let al = if g.chance(1, 6) { *g.pick(&[-pi, pi, 0.0, pi / 2.0]) } else { g.uni(-pi, pi) };
    let t = must("octa", "new_from_octahedral_alpha", Tensor2::new_from_octahedral_alpha(d, r, al, two))?;
    let l = [t.get_std(0, 0), t.get_std(1, 1), t.get_std(2, 2)];
    let e = 50.0 * EPS * n;
    near("octa_1", "first octahedral axis", (2.0 * l[0] - l[1] - l[2]) / 6f64.sqrt(), r * al.sin(), e)?;
    near("octa_2", "distance", (l[0] + l[1] + l[2]) / 3f64.sqrt(), d, e)?;
    near("octa_3", "third octahedral axis", (l[2] - l[1]) / 2f64.sqrt(), r * al.cos(), e)?;
    must_err("octa_err", "alpha out of range", Tensor2::new_from_octahedral_alpha(d, r, *g.pick(&[3.15, -3.15, 7.0]), two))?;
    // the spectral object reports the same coordinates
    let mut sp = Spectral2::new(two);
    must("spec", "decompose", sp.decompose(&t))?;
    let (s1, s2, s3) = sp.octahedral_basis();
    let ll = [sp.lambda[0], sp.lambda[1], sp.lambda[2]];
    near("octb_1", "basis 1", s1, (2.0 * ll[0] - ll[1] - ll[2]) / 6f64.sqrt(), e)?;
    near("octb_2", "basis 2", s2, d, e)?;
    near("octb_3", "basis 3", s3, (ll[2] - ll[1]) / 2f64.sqrt(), e)?;
    near("octb_r", "radius from basis", (s1 * s1 + s3 * s3).sqrt(), r, 2.0 * e)?;
    Ok(())
}

/// any symmetric tensor -> octahedral invariants -> a tensor with the same principal values
fn rebuild(g: &mut G) -> R {
    let rep = sym_rep(g);
    let l = principal(g);
    let rot = rotation(g, rep == Rep::Symmetric2D);
    let a = from_principal(&l, &rot);
    g.show("a", &a);
    let t = t2(&a, rep)?;
    let n = l.iter().fold(0.0, |m: f64, x| m.max(x.abs()));
    let (d, r, lode) = t.invariants_octahedral();
    let lode = match lode {
        Some(x) => x,
        None => discard!(),
    };
    g.hit();
    let two = g.bool();
    let u = must("rebuild", "new_from_octahedral of the invariants of a tensor", Tensor2::new_from_octahedral(d, r, lode, two))?;
    let got = sorted(&[u.get(0), u.get(1), u.get(2)]);
    let exp = sorted(&l);
    let tol = 100.0 * EPS * n * (n / r).max(1.0) + r * 2.0 * lode_tol(n, r).sqrt();
    for i in 0..3 {
        near("rebuild_l", &format!("principal value {i}"), got[i], exp[i], tol)?;
    }
    Ok(())
}

fn spectral(g: &mut G) -> R {
    let two = g.bool();
    let rep = if two { Rep::Symmetric2D } else { Rep::Symmetric };
    let mut sp = Spectral2::new(two);
    let n_use = g.us(1, 3);
    g.class(if two { "plane symmetric" } else { "symmetric" });
    for _ in 0..n_use {
        let l = principal(g);
        let rot = rotation(g, two);
        let a = from_principal(&l, &rot);
        g.show("a", &a);
        let n = l.iter().fold(0.0, |m: f64, x| m.max(x.abs()));
        if l[0] != l[1] || l[1] != l[2] {
            g.hit();
        }
        let t = t2(&a, rep)?;
        must("decompose", "decompose", sp.decompose(&t))?;
        let got = sorted(&[sp.lambda[0], sp.lambda[1], sp.lambda[2]]);
        let exp = sorted(&l);
        let tol = 100.0 * EPS * n + 1e-14;
        for i in 0..3 {
            near("eigen", &format!("principal value {i}"), got[i], exp[i], tol)?;
        }
        let p: Vec<M3> = (0..3).map(|k| build2(|i, j| sp.projectors[k].get_std(i, j))).collect();
        for k in 0..3 {
            ensure!(sp.projectors[k].rep() == rep, "proj_rep", "projector representation {:?}", sp.projectors[k].rep());
            for m in 0..3 {
                let q = mul3(&p[k], &p[m]);
                for i in 0..3 {
                    for j in 0..3 {
                        near("proj", &format!("P{k} P{m} [{i}{j}]"), q[i][j], if k == m { p[k][i][j] } else { 0.0 }, 1e-13)?;
                    }
                }
            }
            near("proj_tr", "trace of a projector", p[k][0][0] + p[k][1][1] + p[k][2][2], 1.0, 1e-13)?;
        }
        let mu = [g.uni(-3.0, 3.0), g.uni(-3.0, 3.0), g.uni(-3.0, 3.0)];
        for i in 0..3 {
            for j in 0..3 {
                near("proj_sum", "sum of projectors", p[0][i][j] + p[1][i][j] + p[2][i][j], dlt(i, j), 1e-13)?;
                let s: f64 = (0..3).map(|k| sp.lambda[k] * p[k][i][j]).sum();
                near("proj_t", "sum of lambda P", s, a[i][j], 200.0 * EPS * n + 1e-14)?;
            }
        }
        let mut c = used2(g, rep);
        must("compose", "compose", sp.compose(&mut c, &sp.lambda))?;
        cmp2("compose", "compose", &c, &a, 200.0 * EPS * n + 1e-14)?;
        must("compose", "compose", sp.compose(&mut c, &Vector::from(&mu)))?;
        cmp2("compose_mu", "compose", &c, &build2(|i, j| (0..3).map(|k| mu[k] * p[k][i][j]).sum()), 1e-14)?;
    }
    let wrong = Tensor2::new(if two { Rep::Symmetric } else { *g.pick(&[Rep::Symmetric2D, Rep::General]) });
    must_err("spec_rep", "decompose of another representation", sp.decompose(&wrong))?;
    let mut w = wrong.clone();
    must_err("spec_rep", "compose into another representation", sp.compose(&mut w, &Vector::new(3)))?;
    let mut c = Tensor2::new(rep);
    must_err("spec_dim", "compose with two values", sp.compose(&mut c, &Vector::new(2)))?;
    Ok(())
}

pub fn property() -> Property {
    Property {
        id: "C20",
        assumptions: &[
            "principal values of magnitude between 1e-3 and 1e3 (the eigenvalue iteration has an absolute tolerance of 1e-15)",
            "the documented threshold 1e-9 decides when a tensor counts as spherical; a band of rounding error around it is not judged",
        ],
        laws: vec![
            Law { name: "invariants", quick: 2_000_000, rule: "the tensor is not zero", f: invariants },
            Law { name: "general", quick: 2_000_000, rule: "the tensor is not zero", f: general },
            Law { name: "octahedral", quick: 2_000_000, rule: "the Lode invariant is defined", f: octahedral },
            Law { name: "rebuild", quick: 2_000_000, rule: "the Lode invariant is defined", f: rebuild },
            Law { name: "spectral", quick: 700_000, rule: "two principal values differ", f: spectral },
        ],
    }
}
