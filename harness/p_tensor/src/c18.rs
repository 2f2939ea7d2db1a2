use crate::util::*;
use russell_lab::Matrix;
use russell_tensor::*;
use vp_engine::*;

/// internal (Kelvin) component m of a second-order tensor, from its definition
fn kelvin(a: &M3, m: usize) -> f64 {
    let (i, j) = MTOIJ[m];
    if i == j {
        a[i][i]
    } else if i < j {
        (a[i][j] + a[j][i]) / S2
    } else {
        (a[j][i] - a[i][j]) / S2
    }
}

/// coefficients of the unit basis tensor m
fn basis(m: usize) -> M3 {
    let (i, j) = MTOIJ[m];
    let mut b = [[0.0; 3]; 3];
    if i == j {
        b[i][i] = 1.0;
    } else if i < j {
        b[i][j] = 1.0 / S2;
        b[j][i] = 1.0 / S2;
    } else {
        b[j][i] = 1.0 / S2;
        b[i][j] = -1.0 / S2;
    }
    b
}

fn used_matrix(g: &mut G, r: usize, c: usize) -> Matrix {
    let mut m = Matrix::new(r, c);
    if g.chance(3, 4) {
        for i in 0..r {
            for j in 0..c {
                m.set(i, j, g.uni(-9.0, 9.0));
            }
        }
    }
    m
}

/// the numbers of a printed tensor, in reading order
fn printed(s: &str) -> Vec<f64> {
    s.split(|c: char| c.is_whitespace() || "│┌┐└┘".contains(c)).filter_map(|w| w.parse::<f64>().ok()).collect()
}

fn first(g: &mut G) -> R {
    let u: Vec<f64> = (0..3).map(|_| g.entry()).collect();
    let v: Vec<f64> = (0..3).map(|_| g.entry()).collect();
    g.show("u", &u);
    g.show("v", &v);
    g.hit();
    let a = Tensor1::from(&[u[0], u[1], u[2]]);
    let b = Tensor1::from(&v);
    for i in 0..3 {
        ensure!(a.get(i) == u[i] && b.get(i) == v[i], "t1", "Tensor1::from component {i}");
        ensure!(a.as_vector()[i] == u[i], "t1", "Tensor1::as_vector component {i}");
    }
    let mx = |w: &[f64]| w.iter().fold(0.0, |m: f64, x| m.max(x.abs()));
    let tol = 8.0 * EPS * mx(&u) * mx(&v);
    near("t1_dot", "dot", a.dot(&b), (0..3).map(|i| u[i] * v[i]).sum(), tol)?;
    let mut c = Tensor1::from(&[1.0, 2.0, 3.0]);
    a.cross(&mut c, &b);
    for i in 0..3 {
        let (j, k) = ((i + 1) % 3, (i + 2) % 3);
        near("t1_cross", "cross", c.get(i), u[j] * v[k] - u[k] * v[j], tol)?;
    }
    let mut d = Tensor1::from(&u);
    let i = g.us(0, 2);
    let x = g.entry();
    d.set(i, x);
    for j in 0..3 {
        ensure!(d.get(j) == if j == i { x } else { u[j] }, "t1_set", "set({i}) changed component {j}");
        ensure!(a.get(j) == u[j], "t1_set", "set on a clone changed the original");
    }
    Ok(())
}

fn second(g: &mut G) -> R {
    let rep = rep(g);
    let a = m3(g, rep);
    let b = m3(g, rep);
    g.show("rep", &rep);
    g.show("a", &a);
    if max2(&a) > 0.0 {
        g.hit();
    }
    let tol = 8.0 * EPS * max2(&a);
    let t = match g.draw(3) {
        0 => t2(&a, rep)?,
        1 => {
            let mut t = used2(g, rep);
            must("load2", "set_std_matrix", t.set_std_matrix(&a))?;
            t
        }
        _ => {
            let m = Matrix::from(&a);
            must("load2", "from_std_matrix", Tensor2::from_std_matrix(&m, rep))?
        }
    };
    ensure!(t.rep() == rep && t.dim() == rep.dim(), "rep2", "representation {:?}", t.rep());
    cmp2("get2", "get_std", &t, &a, tol)?;
    for m in 0..t.dim() {
        near("kelvin2", "internal component", t.get(m), kelvin(&a, m), tol)?;
    }
    // matrices
    let mut mat = used_matrix(g, 3, 3);
    t.to_std_matrix(&mut mat);
    let mas = t.as_std_matrix();
    ensure!(mas.dims() == (3, 3), "as2", "dims of as_std_matrix {:?}", mas.dims());
    for i in 0..3 {
        for j in 0..3 {
            near("to2", &format!("to_std_matrix[{i}{j}]"), mat.get(i, j), a[i][j], tol)?;
            near("as2", &format!("as_std_matrix[{i}{j}]"), mas.get(i, j), a[i][j], tol)?;
        }
    }
    if rep == Rep::Symmetric2D {
        let (t22, m22) = t.as_std_matrix_2d();
        near("as2_2d", "t22", t22, a[2][2], tol)?;
        ensure!(m22.dims() == (2, 2), "as2_2d", "dims {:?}", m22.dims());
        for i in 0..2 {
            for j in 0..2 {
                near("as2_2d", "2d matrix", m22.get(i, j), a[i][j], tol)?;
            }
        }
        let s = t.sym2d_as_symmetric();
        ensure!(s.rep() == Rep::Symmetric, "sym2d", "representation {:?}", s.rep());
        cmp2("sym2d", "sym2d_as_symmetric", &s, &a, tol)?;
    } else {
        ensure!(catch(|| t.as_std_matrix_2d()).is_err(), "as2_2d", "as_std_matrix_2d accepted {rep:?}");
    }
    let gnl2 = t.as_general();
    ensure!(gnl2.rep() == Rep::General, "as_general", "representation {:?}", gnl2.rep());
    cmp2("as_general", "as_general", &gnl2, &a, tol)?;
    // norm and inner product
    same_rel("norm2", "norm", t.norm(), fro2(&a), 8.0 * EPS, 1e-150)?;
    let nk = (0..t.dim()).map(|m| t.get(m) * t.get(m)).sum::<f64>().sqrt();
    same_rel("norm2", "norm of internal vector", nk, fro2(&a), 8.0 * EPS, 1e-150)?;
    let tb = t2(&b, rep)?;
    let dot: f64 = (0..9).map(|k| a[k / 3][k % 3] * b[k / 3][k % 3]).sum();
    let ik: f64 = (0..t.dim()).map(|m| t.get(m) * tb.get(m)).sum();
    near("inner2", "inner product of internal vectors", ik, dot, 40.0 * EPS * max2(&a) * max2(&b))?;
    // serialization and clone
    let js = must("serde2", "serialize", serde_json::to_string(&t))?;
    let e: Tensor2 = must("serde2", "deserialize", serde_json::from_str(&js))?;
    ensure!(e.rep() == rep && e.dim() == t.dim(), "serde2", "representation after json {:?}", e.rep());
    cmp2("serde2", "json", &e, &a, tol)?;
    let c = t.clone();
    cmp2("clone2", "clone", &c, &a, tol)?;
    let mut z = t.clone();
    z.clear();
    cmp2("clear2", "clear", &z, &[[0.0; 3]; 3], 0.0)?;
    // copies with factors on used tensors
    let al = g.uni(-3.0, 3.0);
    let mut s = used2(g, rep);
    s.set_tensor(al, &t);
    cmp2("set_tensor2", "set_tensor", &s, &build2(|i, j| al * a[i][j]), 3.0 * tol)?;
    s.update(2.0, &tb);
    let e2 = build2(|i, j| al * a[i][j] + 2.0 * b[i][j]);
    cmp2("update2", "update", &s, &e2, 3.0 * tol + 16.0 * EPS * max2(&b))?;
    let kv: Vec<f64> = (0..t.dim()).map(|m| t.get(m)).collect();
    let mut s = used2(g, rep);
    s.set_vector(al, &kv);
    cmp2("set_vector2", "set_vector", &s, &build2(|i, j| al * a[i][j]), 3.0 * tol)?;
    // one internal component at a time
    let m = g.us(0, t.dim() - 1);
    let x = g.uni(-2.0, 2.0);
    let mut s = Tensor2::new(rep);
    s.set(m, x);
    let bm = basis(m);
    cmp2("basis2", "single internal component", &s, &build2(|i, j| x * bm[i][j]), 4.0 * EPS)?;
    let id = Tensor2::identity(rep);
    cmp2("identity", "identity", &id, &build2(dlt), 0.0)?;
    ensure!(printed(&format!("{}", t)) == kv, "print2", "printed {}", t);
    Ok(())
}

fn setters(g: &mut G) -> R {
    let rep = sym_rep(g);
    let mut model = m3(g, rep);
    let mut t = t2(&model, rep)?;
    let mut mag = max2(&model);
    let n = g.us(1, 12);
    g.hit();
    for step in 0..n {
        let (mut i, mut j) = (g.us(0, 2), g.us(0, 2));
        if rep == Rep::Symmetric2D && !plane(i, j) {
            i = 0;
            j = 1;
        }
        let v = g.uni(-5.0, 5.0);
        if g.bool() {
            t.sym_set_std(i, j, v);
            model[i][j] = v;
            model[j][i] = v;
            mag = mag.max(v.abs());
            g.class("set");
        } else {
            let (p, q) = (i.min(j), i.max(j));
            let al = g.uni(-2.0, 2.0);
            t.sym_add_std(p, q, al, v);
            let w = model[p][q] + al * v;
            model[p][q] = w;
            model[q][p] = w;
            mag = mag.max(w.abs()).max((al * v).abs());
            g.class("add");
        }
        cmp2("setter2", &format!("after setter {step}"), &t, &model, 30.0 * EPS * mag)?;
    }
    // lower-triangle addition is a documented panic
    let mut u = t.clone();
    ensure!(catch(|| u.sym_add_std(1, 0, 1.0, 1.0)).is_err(), "setter_panic", "sym_add_std(1,0) accepted");
    let mut gnl = Tensor2::new(Rep::General);
    ensure!(catch(|| gnl.sym_set_std(0, 1, 1.0)).is_err(), "setter_panic", "sym_set_std accepted a general tensor");
    Ok(())
}

/// relative difference of either sign that makes data unfit
fn gap(g: &mut G) -> f64 {
    let d = if g.bool() { g.uni(0.5, 2.0) } else { g.plog(-6.0, 1.0) };
    if g.bool() { -d } else { d }
}

/// data that the representation cannot hold must be refused by every loader
fn reject(g: &mut G) -> R {
    let rep = sym_rep(g);
    let case_a = g.bool();
    match g.draw(3) {
        0 => {
            let mut a = m3(g, rep);
            let (i, j) = *g.pick(&[(0usize, 1usize), (0, 2), (1, 2)]);
            let d = gap(g) * (1.0 + max2(&a));
            let both = rep == Rep::Symmetric2D && j == 2 && g.bool();
            a[j][i] += d;
            if both {
                a[i][j] = a[j][i];
            }
            g.show("a", &a);
            g.class(if both { "out of plane" } else { "not symmetric" });
            must_err("reject2", "from_std_matrix", Tensor2::from_std_matrix(&a, rep))?;
            let mut t = used2(g, rep);
            must_err("reject2", "set_std_matrix", t.set_std_matrix(&Matrix::from(&a)))?;
        }
        1 => {
            let mut a = a3(g, rep, case_a);
            let (p, q) = *g.pick(&[(0usize, 1usize), (0, 2), (1, 2)]);
            let k = g.us(0, 2);
            let d = gap(g) * (1.0 + max3(&a));
            let both = rep == Rep::Symmetric2D && q == 2 && g.bool();
            let flip = g.bool();
            let (x, y) = if flip { (q, p) } else { (p, q) };
            g.class(if both { "out of plane" } else { "not symmetric" });
            if case_a {
                a[x][y][k] += d;
                if both {
                    a[y][x][k] = a[x][y][k];
                }
            } else {
                a[k][x][y] += d;
                if both {
                    a[k][y][x] = a[k][x][y];
                }
            }
            g.show("case_a", &case_a);
            g.show("a", &a);
            must_err("reject3", "from_std_array", Tensor3::from_std_array(&a, rep, case_a))?;
            let m = mat3(&a, case_a);
            must_err("reject3", "from_std_matrix", Tensor3::from_std_matrix(&m, rep, case_a))?;
            let mut t = used3(g, rep, case_a);
            must_err("reject3", "set_std_array", t.set_std_array(&a))?;
            must_err("reject3", "set_std_matrix", t.set_std_matrix(&m))?;
        }
        _ => {
            let mut a = a4(g, rep);
            let (p, q) = *g.pick(&[(0usize, 1usize), (0, 2), (1, 2)]);
            let (k, l) = (g.us(0, 2), g.us(0, 2));
            let d = gap(g) * (1.0 + max4(&a));
            let both = rep == Rep::Symmetric2D && q == 2 && g.bool();
            let flip = g.bool();
            let (x, y) = if flip { (q, p) } else { (p, q) };
            let front = g.bool();
            g.class(if both { "out of plane" } else { "not symmetric" });
            if front {
                a[x][y][k][l] += d;
            } else {
                a[k][l][x][y] += d;
            }
            if both {
                // symmetric in both pairs but out of the plane
                let b = a;
                for (i, j) in [(x, y), (y, x)] {
                    for (r, s) in [(k, l), (l, k)] {
                        if front {
                            a[i][j][r][s] = b[x][y][k][l];
                        } else {
                            a[r][s][i][j] = b[k][l][x][y];
                        }
                    }
                }
            }
            g.show("a", &a);
            must_err("reject4", "from_std_array", Tensor4::from_std_array(&a, rep))?;
            let m = mat4(&a);
            must_err("reject4", "from_std_matrix", Tensor4::from_std_matrix(&m, rep))?;
            let mut t = used4(g, rep);
            must_err("reject4", "set_std_array", t.set_std_array(&a))?;
            must_err("reject4", "set_std_matrix", t.set_std_matrix(&m))?;
        }
    }
    g.hit();
    Ok(())
}

/// matrix of standard components of a third-order tensor (9x3 or 3x9)
pub fn mat3(a: &A3, case_a: bool) -> Matrix {
    let mut m = if case_a { Matrix::new(9, 3) } else { Matrix::new(3, 9) };
    for p in 0..9 {
        let (i, j) = MTOIJ[p];
        for k in 0..3 {
            if case_a {
                m.set(p, k, a[i][j][k]);
            } else {
                m.set(k, p, a[k][i][j]);
            }
        }
    }
    m
}

pub fn mat4(a: &A4) -> Matrix {
    let mut m = Matrix::new(9, 9);
    for p in 0..9 {
        for q in 0..9 {
            let (i, j) = MTOIJ[p];
            let (k, l) = MTOIJ[q];
            m.set(p, q, a[i][j][k][l]);
        }
    }
    m
}

fn third(g: &mut G) -> R {
    let rep = rep(g);
    let case_a = g.bool();
    let a = a3(g, rep, case_a);
    let b = a3(g, rep, case_a);
    g.show("rep", &rep);
    g.show("case_a", &case_a);
    g.show("a", &a);
    g.class(if case_a { "case A" } else { "case B" });
    if max3(&a) > 0.0 {
        g.hit();
    }
    let tol = 8.0 * EPS * max3(&a);
    let t = match g.draw(4) {
        0 => t3(&a, rep, case_a)?,
        1 => {
            let mut t = used3(g, rep, case_a);
            must("load3", "set_std_array", t.set_std_array(&a))?;
            t
        }
        2 => {
            let mut t = used3(g, rep, case_a);
            must("load3", "set_std_matrix", t.set_std_matrix(&mat3(&a, case_a)))?;
            t
        }
        _ => must("load3", "from_std_matrix", Tensor3::from_std_matrix(&mat3(&a, case_a), rep, case_a))?,
    };
    ensure!(t.rep() == rep && t.is_case_a() == case_a, "rep3", "representation");
    let dims = if case_a { (rep.dim(), 3) } else { (3, rep.dim()) };
    ensure!(t.dims() == dims, "rep3", "dims {:?}", t.dims());
    cmp3("get3", "get_std", &t, &a, tol)?;
    let mut nk = 0.0;
    for p in 0..rep.dim() {
        for k in 0..3 {
            let sl = if case_a { build2(|i, j| a[i][j][k]) } else { build2(|i, j| a[k][i][j]) };
            let v = if case_a { t.get(p, k) } else { t.get(k, p) };
            near("kelvin3", "internal component", v, kelvin(&sl, p), tol)?;
            nk += (v / (1e-300 + max3(&a))).powi(2);
        }
    }
    let full: f64 = a.iter().flatten().flatten().map(|v| (v / (1e-300 + max3(&a))).powi(2)).sum();
    near("norm3", "squared norm", nk, full, 100.0 * EPS * (1.0 + full))?;
    // conversions
    let fill = g.uni(-9.0, 9.0);
    let mut arr = vec![vec![vec![fill; 3]; 3]; 3];
    t.to_std_array(&mut arr);
    let arr2 = t.as_std_array();
    let mut mat = if case_a { used_matrix(g, 9, 3) } else { used_matrix(g, 3, 9) };
    t.to_std_matrix(&mut mat);
    let mat2 = t.as_std_matrix();
    let em = mat3(&a, case_a);
    for i in 0..3 {
        for j in 0..3 {
            for k in 0..3 {
                near("to3", &format!("to_std_array[{i}{j}{k}]"), arr[i][j][k], a[i][j][k], tol)?;
                near("as3", &format!("as_std_array[{i}{j}{k}]"), arr2[i][j][k], a[i][j][k], tol)?;
            }
        }
    }
    ensure!(mat2.dims() == em.dims(), "as3m", "dims {:?}", mat2.dims());
    for r in 0..em.nrow() {
        for c in 0..em.ncol() {
            near("to3m", &format!("to_std_matrix[{r},{c}]"), mat.get(r, c), em.get(r, c), tol)?;
            near("as3m", &format!("as_std_matrix[{r},{c}]"), mat2.get(r, c), em.get(r, c), tol)?;
        }
    }
    let iv: Vec<f64> = (0..dims.0 * dims.1).map(|k| t.get(k / dims.1, k % dims.1)).collect();
    ensure!(printed(&format!("{}", t)) == iv, "print3", "printed {}", t);
    let js = must("serde3", "serialize", serde_json::to_string(&t))?;
    let e: Tensor3 = must("serde3", "deserialize", serde_json::from_str(&js))?;
    ensure!(e.rep() == rep && e.is_case_a() == case_a && e.dims() == dims, "serde3", "shape after json");
    cmp3("serde3", "json", &e, &a, tol)?;
    let al = g.uni(-3.0, 3.0);
    let tb = t3(&b, rep, case_a)?;
    let mut s = used3(g, rep, case_a);
    s.set_tensor(al, &t);
    s.update(-2.0, &tb);
    let mut e = a;
    for i in 0..3 {
        for j in 0..3 {
            for k in 0..3 {
                e[i][j][k] = al * a[i][j][k] - 2.0 * b[i][j][k];
            }
        }
    }
    cmp3("update3", "set_tensor+update", &s, &e, 4.0 * tol + 20.0 * EPS * max3(&b))?;
    cmp3("clone3", "clone", &t.clone(), &a, tol)?;
    if rep != Rep::General {
        let mut t = t;
        let mut model = a;
        for _ in 0..g.us(1, 6) {
            let (mut p, mut q, k) = (g.us(0, 2), g.us(0, 2), g.us(0, 2));
            if rep == Rep::Symmetric2D && !plane(p, q) {
                p = 1;
                q = 0;
            }
            let v = g.uni(-3.0, 3.0);
            if case_a {
                t.sym_set_std(p, q, k, v);
                model[p][q][k] = v;
                model[q][p][k] = v;
            } else {
                t.sym_set_std(k, p, q, v);
                model[k][p][q] = v;
                model[k][q][p] = v;
            }
        }
        cmp3("setter3", "sym_set_std", &t, &model, tol + 30.0 * EPS)?;
    }
    Ok(())
}

fn fourth(g: &mut G) -> R {
    let rep = rep(g);
    let a = a4(g, rep);
    let b = a4(g, rep);
    g.show("rep", &rep);
    g.show("a", &a);
    let mx = max4(&a);
    if mx > 0.0 {
        g.hit();
    }
    let tol = 8.0 * EPS * mx;
    let t = match g.draw(4) {
        0 => t4(&a, rep)?,
        1 => {
            let mut t = used4(g, rep);
            must("load4", "set_std_array", t.set_std_array(&a))?;
            t
        }
        2 => {
            let mut t = used4(g, rep);
            must("load4", "set_std_matrix", t.set_std_matrix(&mat4(&a)))?;
            t
        }
        _ => must("load4", "from_std_matrix", Tensor4::from_std_matrix(&mat4(&a), rep))?,
    };
    ensure!(t.rep() == rep && t.dim() == rep.dim(), "rep4", "representation");
    cmp4("get4", "get_std", &t, &a, tol)?;
    let mut nk = 0.0;
    for p in 0..rep.dim() {
        let bp = basis(p);
        for q in 0..rep.dim() {
            let bq = basis(q);
            let mut e = 0.0;
            for i in 0..3 {
                for j in 0..3 {
                    for k in 0..3 {
                        for l in 0..3 {
                            e += bp[i][j] * a[i][j][k][l] * bq[k][l];
                        }
                    }
                }
            }
            near("kelvin4", &format!("internal component {p},{q}"), t.get(p, q), e, 3.0 * tol)?;
            nk += (t.get(p, q) / (1e-300 + mx)).powi(2);
        }
    }
    let full: f64 = a.iter().flatten().flatten().flatten().map(|v| (v / (1e-300 + mx)).powi(2)).sum();
    near("norm4", "squared norm", nk, full, 200.0 * EPS * (1.0 + full))?;
    let fill = g.uni(-9.0, 9.0);
    let mut arr = vec![vec![vec![vec![fill; 3]; 3]; 3]; 3];
    t.to_std_array(&mut arr);
    let arr2 = t.as_std_array();
    for i in 0..3 {
        for j in 0..3 {
            for k in 0..3 {
                for l in 0..3 {
                    near("to4", &format!("to_std_array[{i}{j}{k}{l}]"), arr[i][j][k][l], a[i][j][k][l], tol)?;
                    near("as4", &format!("as_std_array[{i}{j}{k}{l}]"), arr2[i][j][k][l], a[i][j][k][l], tol)?;
                }
            }
        }
    }
    let mut mat = used_matrix(g, 9, 9);
    t.to_std_matrix(&mut mat);
    let mat2 = t.as_std_matrix();
    let em = mat4(&a);
    for r in 0..9 {
        for c in 0..9 {
            near("to4m", &format!("to_std_matrix[{r},{c}]"), mat.get(r, c), em.get(r, c), tol)?;
            near("as4m", &format!("as_std_matrix[{r},{c}]"), mat2.get(r, c), em.get(r, c), tol)?;
        }
    }
    let d = rep.dim();
    let iv: Vec<f64> = (0..d * d).map(|k| t.get(k / d, k % d)).collect();
    ensure!(printed(&format!("{}", t)) == iv, "print4", "printed {}", t);
    let js = must("serde4", "serialize", serde_json::to_string(&t))?;
    let e: Tensor4 = must("serde4", "deserialize", serde_json::from_str(&js))?;
    ensure!(e.rep() == rep && e.dim() == rep.dim(), "serde4", "shape after json");
    cmp4("serde4", "json", &e, &a, tol)?;
    let al = g.uni(-3.0, 3.0);
    let tb = t4(&b, rep)?;
    let mut s = used4(g, rep);
    s.set_tensor(al, &t);
    s.update(-2.0, &tb);
    let e = build4(|i, j, k, l| al * a[i][j][k][l] - 2.0 * b[i][j][k][l]);
    cmp4("update4", "set_tensor+update", &s, &e, 4.0 * tol + 20.0 * EPS * max4(&b))?;
    if rep != Rep::General {
        let mut t = t.clone();
        let mut model = a;
        for _ in 0..g.us(1, 6) {
            let (mut i, mut j, mut k, mut l) = (g.us(0, 2), g.us(0, 2), g.us(0, 2), g.us(0, 2));
            if rep == Rep::Symmetric2D {
                if !plane(i, j) {
                    i = 1;
                    j = 0;
                }
                if !plane(k, l) {
                    k = 0;
                    l = 1;
                }
            }
            let v = g.uni(-3.0, 3.0);
            t.sym_set_std(i, j, k, l, v);
            for (p, q) in [(i, j), (j, i)] {
                for (r, s) in [(k, l), (l, k)] {
                    model[p][q][r][s] = v;
                }
            }
        }
        cmp4("setter4", "sym_set_std", &t, &model, tol + 30.0 * EPS)?;
    }
    cmp4("clone4", "clone", &t.clone(), &a, tol)?;
    Ok(())
}

/// allocation by representation, dimension or flag agree
fn kinds(g: &mut G) -> R {
    let r = rep(g);
    g.hit();
    ensure!(
        r.dim() == match r {
            Rep::General => 9,
            Rep::Symmetric => 6,
            Rep::Symmetric2D => 4,
        },
        "rep",
        "dim of {r:?} is {}",
        r.dim()
    );
    ensure!(r.two_dim() == (r == Rep::Symmetric2D), "rep", "two_dim of {r:?}");
    ensure!(r.symmetric() == (r != Rep::General), "rep", "symmetric of {r:?}");
    let d = *g.pick(&[9usize, 6, 4]);
    let q = Rep::new(d);
    ensure!(q.dim() == d, "rep", "Rep::new({d}) has dim {}", q.dim());
    let ca = g.bool();
    for two in [false, true] {
        let e = if two { Rep::Symmetric2D } else { Rep::Symmetric };
        let nd = if two { 2 } else { 3 };
        let reps = [
            Tensor2::new_sym(two).rep(),
            Tensor2::new_sym_ndim(nd).rep(),
            Tensor3::new_sym(two, ca).rep(),
            Tensor3::new_sym_ndim(nd, ca).rep(),
            Tensor4::new_sym(two).rep(),
            Tensor4::new_sym_ndim(nd).rep(),
        ];
        for (i, x) in reps.iter().enumerate() {
            ensure!(*x == e, "alloc", "allocation {i} for two_dim={two} gives {x:?}");
        }
        ensure!(Tensor3::new_sym(two, ca).is_case_a() == ca, "alloc", "case flag");
        ensure!(Tensor3::new_sym_ndim(nd, ca).is_case_a() == ca, "alloc", "case flag");
    }
    cmp2("alloc0", "new", &Tensor2::new(r), &[[0.0; 3]; 3], 0.0)?;
    cmp3("alloc0", "new", &Tensor3::new(r, ca), &[[[0.0; 3]; 3]; 3], 0.0)?;
    cmp4("alloc0", "new", &Tensor4::new(r), &[[[[0.0; 3]; 3]; 3]; 3], 0.0)?;
    Ok(())
}

pub fn property() -> Property {
    Property {
        id: "C18",
        assumptions: &[
            "components with magnitude between 1e-11 and 1e11, or zero",
            "setters of single components only for components that the representation holds",
            "JSON text may change a number by a unit in the last place",
        ],
        laws: vec![
            Law { name: "first", quick: 100_000, rule: "always", f: first },
            Law { name: "second", quick: 400_000, rule: "the tensor is not zero", f: second },
            Law { name: "setters", quick: 200_000, rule: "always", f: setters },
            Law { name: "reject", quick: 200_000, rule: "always", f: reject },
            Law { name: "third", quick: 250_000, rule: "the tensor is not zero", f: third },
            Law { name: "fourth", quick: 200_000, rule: "the tensor is not zero", f: fourth },
            Law { name: "kinds", quick: 5_000, rule: "always", f: kinds },
        ],
    }
}
