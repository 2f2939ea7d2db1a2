use crate::util::*;
use russell_tensor::*;
use vp_engine::*;

fn constants(g: &mut G) -> (f64, f64) {
    let e = match g.draw(3) {
        0 => g.int(1, 3000) as f64,
        1 => g.uni(0.5, 50.0),
        _ => g.plog(-4.0, 11.0),
    };
    let nu = match g.draw(4) {
        0 => *g.pick(&[0.0, 0.25, 0.2, 0.3, -0.5, 0.49]),
        1 => g.uni(0.4, 0.4999),
        _ => g.uni(-0.95, 0.49),
    };
    (e, nu)
}

/// how far the constants are from their singular limits
fn cond(nu: f64) -> f64 {
    1.0 + 1.0 / (1.0 - 2.0 * nu) + 1.0 / (1.0 + nu)
}

fn strain(g: &mut G, rep: Rep) -> M3 {
    let s = g.plog(-6.0, 0.0);
    m3_scaled(g, rep, s)
}

fn law(e: f64, nu: f64, eps: &M3) -> M3 {
    let la = e * nu / ((1.0 + nu) * (1.0 - 2.0 * nu));
    let g = e / (2.0 * (1.0 + nu));
    let tr = eps[0][0] + eps[1][1] + eps[2][2];
    build2(|i, j| la * tr * dlt(i, j) + 2.0 * g * eps[i][j])
}

fn verify(g: &mut G, ela: &LinElasticity, e: f64, nu: f64, two_dim: bool, plane_stress: bool) -> R {
    let rep = if two_dim || plane_stress { Rep::Symmetric2D } else { Rep::Symmetric };
    ensure!(ela.rep() == rep, "rep", "representation {:?}", ela.rep());
    ensure!(ela.get_modulus().rep() == rep, "rep", "representation of the modulus");
    let c = cond(nu);
    let (ey, np) = ela.get_young_poisson();
    same_rel("young", "Young", ey, e, 50.0 * EPS * c, 0.0)?;
    near("poisson", "Poisson", np, nu, 50.0 * EPS * c)?;
    let (bulk, shear) = ela.get_bulk_shear();
    same_rel("bulk", "bulk", bulk, e / (3.0 * (1.0 - 2.0 * nu)), 200.0 * EPS * c * c, 0.0)?;
    same_rel("shear", "shear", shear, e / (2.0 * (1.0 + nu)), 200.0 * EPS * c * c, 0.0)?;
    let mut eps = strain(g, rep);
    g.show("strain", &eps);
    let n = max2(&eps);
    let ts = t2(&eps, rep)?;
    let mut sig = used2(g, rep);
    ela.calc_stress(&mut sig, &ts);
    let tol = 500.0 * EPS * e * c * c * n;
    if plane_stress {
        // the out-of-plane strain follows from zero out-of-plane stress
        eps[2][2] = -nu / (1.0 - nu) * (eps[0][0] + eps[1][1]);
        let s = law(e, nu, &eps);
        let mut s0 = s;
        s0[2][2] = 0.0;
        cmp2("stress_ps", "plane stress", &sig, &s0, tol)?;
        ensure!(sig.get_std(2, 2) == 0.0, "stress_zz", "out-of-plane stress {}", sig.get_std(2, 2));
        let ezz = must("ezz", "out_of_plane_strain", ela.out_of_plane_strain(&sig))?;
        near("ezz", "out-of-plane strain", ezz, eps[2][2], 1000.0 * EPS * c * c * n * (1.0 + 1.0 / (1.0 - nu)))?;
        let mut cc = used4(g, rep);
        must_err("compliance_ps", "compliance in plane stress", ela.calc_compliance(&mut cc))?;
    } else {
        let s = law(e, nu, &eps);
        cmp2("stress", "stress", &sig, &s, tol)?;
        must_err("ezz_err", "out-of-plane strain without plane stress", ela.out_of_plane_strain(&sig))?;
        // the inverse law
        let mut cc = used4(g, rep);
        must("compliance", "calc_compliance", ela.calc_compliance(&mut cc))?;
        let mut back = used2(g, rep);
        t4_ddot_t2(&mut back, 1.0, &cc, &sig);
        let ctol = 2e3 * EPS * c * c * c;
        cmp2("compliance_inv", "strain from stress", &back, &eps, ctol * n)?;
        for i in 0..3 {
            for j in 0..3 {
                for k in 0..3 {
                    for l in 0..3 {
                        let mut v = ((1.0 + nu) * 0.5 * (dlt(i, k) * dlt(j, l) + dlt(i, l) * dlt(j, k))
                            - nu * dlt(i, j) * dlt(k, l))
                            / e;
                        if rep == Rep::Symmetric2D && (!plane(i, j) || !plane(k, l)) {
                            v = 0.0;
                        }
                        near("compliance_c", &format!("C[{i}{j}{k}{l}]"), cc.get_std(i, j, k, l), v, ctol / e)?;
                    }
                }
            }
        }
    }
    // components of the modulus, with both index symmetries
    let dd = ela.get_modulus();
    let la = e * nu / ((1.0 + nu) * (1.0 - 2.0 * nu));
    let sh = e / (2.0 * (1.0 + nu));
    let mtol = 200.0 * EPS * e * c * c;
    for i in 0..3 {
        for j in 0..3 {
            for k in 0..3 {
                for l in 0..3 {
                    let mut v =
                        la * dlt(i, j) * dlt(k, l) + sh * (dlt(i, k) * dlt(j, l) + dlt(i, l) * dlt(j, k));
                    if rep == Rep::Symmetric2D && (!plane(i, j) || !plane(k, l)) {
                        v = 0.0;
                    }
                    if plane_stress {
                        let q = e / (1.0 - nu * nu);
                        v = if i == 2 || j == 2 || k == 2 || l == 2 {
                            0.0
                        } else {
                            q * nu * dlt(i, j) * dlt(k, l)
                                + q * (1.0 - nu) * 0.5 * (dlt(i, k) * dlt(j, l) + dlt(i, l) * dlt(j, k))
                        };
                    }
                    near("modulus", &format!("D[{i}{j}{k}{l}]"), dd.get_std(i, j, k, l), v, mtol)?;
                }
            }
        }
    }
    Ok(())
}

fn hooke(g: &mut G) -> R {
    let two_dim = g.bool();
    let plane_stress = g.chance(1, 3);
    g.class(if plane_stress {
        "plane stress"
    } else if two_dim {
        "plane strain"
    } else {
        "three dimensions"
    });
    let (e, nu) = constants(g);
    g.show("E,nu", &(e, nu, two_dim, plane_stress));
    g.hit();
    let mut ela = LinElasticity::new(e, nu, two_dim, plane_stress);
    verify(g, &ela, e, nu, two_dim, plane_stress)?;
    for _ in 0..g.us(0, 3) {
        let (e, nu) = constants(g);
        if g.bool() {
            g.class("set young poisson");
            ela.set_young_poisson(e, nu);
            let (x, y) = ela.get_young_poisson();
            ensure!(x == e && y == nu, "set", "constants after setting them: {x} {y}");
            let fresh = LinElasticity::new(e, nu, two_dim, plane_stress);
            let (a, b) = (ela.get_modulus(), fresh.get_modulus());
            for m in 0..a.dim() {
                for n in 0..a.dim() {
                    ensure!(a.get(m, n) == b.get(m, n), "fresh", "modulus after set differs from that of a new object");
                }
            }
        } else {
            g.class("set bulk shear");
            ela.set_bulk_shear(e / (3.0 * (1.0 - 2.0 * nu)), e / (2.0 * (1.0 + nu)));
        }
        g.show("E,nu", &(e, nu));
        verify(g, &ela, e, nu, two_dim, plane_stress)?;
    }
    Ok(())
}

pub fn property() -> Property {
    Property {
        id: "C22",
        assumptions: &["Young's modulus between 1e-4 and 1e11, Poisson's ratio between -0.95 and 0.4999; tolerances grow near the limits"],
        laws: vec![Law { name: "hooke", quick: 700_000, rule: "always", f: hooke }],
    }
}
