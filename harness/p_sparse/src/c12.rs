use crate::util::*;
use russell_lab::NumMatrix;

/// expected compressed structure: distinct positions by major index
fn pattern<T: Sc>(t: &Trip<T>, by_col: bool) -> Vec<Vec<usize>> {
    let major = if by_col { t.n } else { t.m };
    let mut p = vec![Vec::new(); major];
    for &(i, j, _) in &t.e {
        if by_col { p[j].push(i) } else { p[i].push(j) }
    }
    for v in &mut p {
        v.sort();
        v.dedup();
    }
    p
}

fn check_compressed<T: Sc>(
    key: &'static str,
    t: &Trip<T>,
    by_col: bool,
    info: (usize, usize, usize, Sym),
    ptr: &[i32],
    idx: &[i32],
    val: &[T],
) -> R {
    let pat = pattern(t, by_col);
    let nnz: usize = pat.iter().map(|v| v.len()).sum();
    ensure!(info == (t.m, t.n, nnz, t.sym), key, "info {:?}, expected nnz = {nnz}", info);
    ensure!(ptr.len() == pat.len() + 1 && ptr[0] == 0, key, "pointers {:?}", ptr);
    ensure!(idx.len() == nnz && val.len() == nnz, key, "lengths {} {} instead of {nnz}", idx.len(), val.len());
    let mut sums = vec![std::collections::HashMap::new(); pat.len()];
    for &(i, j, x) in &t.e {
        let (a, b) = if by_col { (j, i) } else { (i, j) };
        let s = sums[a].entry(b).or_insert((T::zero(), 0.0));
        s.0 += x;
        s.1 += x.mag();
    }
    let k = t.e.len() as f64 + 2.0;
    for a in 0..pat.len() {
        let (p, q) = (ptr[a] as usize, ptr[a + 1] as usize);
        ensure!(p <= q && q <= nnz, key, "pointers {:?}", ptr);
        let got: Vec<usize> = idx[p..q].iter().map(|&x| x as usize).collect();
        ensure!(got == pat[a], key, "line {a}: indices {:?} instead of {:?}", got, pat[a]);
        for s in p..q {
            let w = sums[a][&(idx[s] as usize)];
            scnear(key, &format!("line {a}, value {s}"), val[s], w.0, k * EPS * w.1 + TINY)?;
        }
    }
    Ok(())
}

fn check_csc<T: Sc>(t: &Trip<T>, c: &NumCscMatrix<T>) -> R {
    check_compressed("csc", t, true, c.get_info(), c.get_col_pointers(), c.get_row_indices(), c.get_values())
}
fn check_csr<T: Sc>(t: &Trip<T>, c: &NumCsrMatrix<T>) -> R {
    check_compressed("csr", t, false, c.get_info(), c.get_row_pointers(), c.get_col_indices(), c.get_values())
}
fn eq_csc<T: Sc>(key: &'static str, a: &NumCscMatrix<T>, b: &NumCscMatrix<T>) -> R {
    ensure!(a.get_info() == b.get_info(), key, "{:?} {:?}", a.get_info(), b.get_info());
    ensure!(a.get_col_pointers() == b.get_col_pointers(), key, "pointers {:?} {:?}", a.get_col_pointers(), b.get_col_pointers());
    ensure!(a.get_row_indices() == b.get_row_indices(), key, "indices {:?} {:?}", a.get_row_indices(), b.get_row_indices());
    ensure!(a.get_values() == b.get_values(), key, "values {:?} {:?}", a.get_values(), b.get_values());
    Ok(())
}
fn eq_csr<T: Sc>(key: &'static str, a: &NumCsrMatrix<T>, b: &NumCsrMatrix<T>) -> R {
    ensure!(a.get_info() == b.get_info(), key, "{:?} {:?}", a.get_info(), b.get_info());
    ensure!(a.get_row_pointers() == b.get_row_pointers(), key, "pointers {:?} {:?}", a.get_row_pointers(), b.get_row_pointers());
    ensure!(a.get_col_indices() == b.get_col_indices(), key, "indices {:?} {:?}", a.get_col_indices(), b.get_col_indices());
    ensure!(a.get_values() == b.get_values(), key, "values {:?} {:?}", a.get_values(), b.get_values());
    Ok(())
}

fn dim(g: &mut G) -> usize {
    match g.draw(8) {
        0 => 2,
        1 | 2 | 3 => 5,
        4 | 5 => 10,
        6 => 20,
        _ => 45,
    }
}

fn formats_t<T: Sc>(g: &mut G) -> R {
    let sy = sym(g);
    let md = dim(g);
    let t = triplets::<T>(g, sy, md);
    let extra = g.us(0, 3);
    t.show(g, "t");
    let coo = t.coo(extra)?;
    ensure!(coo.get_info() == (t.m, t.n, t.e.len(), sy), "coo", "info {:?}", coo.get_info());
    ensure!(coo.get_nnz() == t.e.len(), "coo", "nnz {}", coo.get_nnz());
    for (k, &(i, j, x)) in t.e.iter().enumerate() {
        ensure!(
            coo.get_row_indices()[k] as usize == i && coo.get_col_indices()[k] as usize == j && coo.get_values()[k] == x,
            "coo",
            "entry {k}"
        );
    }
    let actual: usize = if sy.triangular() { t.e.iter().map(|q| if q.0 == q.1 { 1 } else { 2 }).sum() } else { t.e.len() };
    ensure!(coo.get_actual_nnz() == actual, "coo", "actual nnz {} {}", coo.get_actual_nnz(), actual);
    let from = must(
        "from",
        "from",
        NumCooMatrix::<T>::from(
            t.m,
            t.n,
            t.e.iter().map(|q| q.0 as i32).collect(),
            t.e.iter().map(|q| q.1 as i32).collect(),
            t.e.iter().map(|q| q.2).collect(),
            sy,
        ),
    )?;
    let d = coo.as_dense();
    same_dense("coo_dense", "coo", &d, &t)?;
    equal_dense("coo_dense", "from", &from.as_dense(), &d)?;
    // stale content must not survive
    let mut dd = NumMatrix::<T>::filled(t.m, t.n, T::make(7.0, 3.0));
    must("coo_dense", "to_dense", coo.to_dense(&mut dd))?;
    equal_dense("coo_dense", "to_dense", &dd, &d)?;
    // compressed forms
    let csc = must("csc", "from_coo", NumCscMatrix::from_coo(&coo))?;
    check_csc(&t, &csc)?;
    let csr = must("csr", "from_coo", NumCsrMatrix::from_coo(&coo))?;
    check_csr(&t, &csr)?;
    same_dense("csc_dense", "csc", &csc.as_dense(), &t)?;
    same_dense("csr_dense", "csr", &csr.as_dense(), &t)?;
    must("csc_dense", "to_dense", csc.to_dense(&mut dd))?;
    same_dense("csc_dense", "to_dense", &dd, &t)?;
    dd.fill(T::make(-7.0, 1.0));
    must("csr_dense", "to_dense", csr.to_dense(&mut dd))?;
    same_dense("csr_dense", "to_dense", &dd, &t)?;
    let (wm, wn) = *g.pick(&[(t.m + 1, t.n), (t.m, t.n + 1)]);
    let mut bad = NumMatrix::<T>::new(wm, wn);
    must_err("to_dense_dims", "coo", coo.to_dense(&mut bad))?;
    must_err("to_dense_dims", "csc", csc.to_dense(&mut bad))?;
    must_err("to_dense_dims", "csr", csr.to_dense(&mut bad))?;
    // between compressed forms
    let csc2 = must("from_csr", "from_csr", NumCscMatrix::from_csr(&csr))?;
    let csr2 = must("from_csc", "from_csc", NumCsrMatrix::from_csc(&csc))?;
    check_csc(&t, &csc2)?;
    check_csr(&t, &csr2)?;
    eq_csr("round_trip", &must("from_csc", "back", NumCsrMatrix::from_csc(&csc2))?, &csr)?;
    eq_csc("round_trip", &must("from_csr", "back", NumCscMatrix::from_csr(&csr2))?, &csc)?;
    // the constructors accept what the conversions produce
    let csc3 = must(
        "csc_new",
        "new",
        NumCscMatrix::new(t.m, t.n, csc.get_col_pointers().to_vec(), csc.get_row_indices().to_vec(), csc.get_values().to_vec(), sy),
    )?;
    eq_csc("csc_new", &csc3, &csc)?;
    let csr3 = must(
        "csr_new",
        "new",
        NumCsrMatrix::new(t.m, t.n, csr.get_row_pointers().to_vec(), csr.get_col_indices().to_vec(), csr.get_values().to_vec(), sy),
    )?;
    eq_csr("csr_new", &csr3, &csr)?;
    if t.e.len() > csc.get_info().2 {
        g.class("duplicates");
    }
    if T::COMPLEX {
        g.class("complex");
    }
    if sy.triangular() {
        g.class("triangular");
    }
    g.hit();
    Ok(())
}

fn formats(g: &mut G) -> R {
    if g.bool() { formats_t::<f64>(g) } else { formats_t::<Complex64>(g) }
}

/// in-place refresh from triplets (new values, other order, other positions), several times
fn refresh_t<T: Sc>(g: &mut G) -> R {
    let sy = sym(g);
    let md = dim(g);
    let mut t = triplets::<T>(g, sy, md);
    t.show(g, "t");
    let mut coo = t.coo(0)?;
    let mut csc = must("csc", "from_coo", NumCscMatrix::from_coo(&coo))?;
    let mut csr = must("csr", "from_coo", NumCsrMatrix::from_coo(&coo))?;
    let rounds = g.us(1, 4);
    for _ in 0..rounds {
        let how = g.draw(5);
        match how {
            0 | 1 => {
                for k in 0..t.e.len() {
                    t.e[k].2 = scalar(g);
                }
            }
            2 => {
                let p = g.perm(t.e.len());
                t.e = p.iter().map(|&k| t.e[k]).collect();
            }
            3 => {
                // other positions, same number of triplets
                for k in 0..t.e.len() {
                    let (i, j) = (g.us(0, t.m - 1), g.us(0, t.n - 1));
                    let (i, j) = match sy {
                        Sym::YesLower => (i.max(j), i.min(j)),
                        Sym::YesUpper => (i.min(j), i.max(j)),
                        _ => (i, j),
                    };
                    t.e[k] = (i, j, scalar(g));
                }
            }
            _ => {
                // through serialization; the values may change in the last digit
                let s = serde_json::to_string(&csc).unwrap();
                let c2: NumCscMatrix<T> = must("serde", "csc", serde_json::from_str(&s).map_err(|_| "cannot parse"))?;
                let s = serde_json::to_string(&csr).unwrap();
                let r2: NumCsrMatrix<T> = must("serde", "csr", serde_json::from_str(&s).map_err(|_| "cannot parse"))?;
                let s = serde_json::to_string(&coo).unwrap();
                let o2: NumCooMatrix<T> = must("serde", "coo", serde_json::from_str(&s).map_err(|_| "cannot parse"))?;
                ensure!(c2.get_info() == csc.get_info() && r2.get_info() == csr.get_info() && o2.get_info() == coo.get_info(), "serde", "info");
                ensure!(c2.get_col_pointers() == csc.get_col_pointers() && c2.get_row_indices() == csc.get_row_indices(), "serde", "csc structure");
                ensure!(r2.get_row_pointers() == csr.get_row_pointers() && r2.get_col_indices() == csr.get_col_indices(), "serde", "csr structure");
                ensure!(o2.get_row_indices() == coo.get_row_indices() && o2.get_col_indices() == coo.get_col_indices(), "serde", "coo structure");
                same_dense("serde", "csc", &c2.as_dense(), &t)?;
                same_dense("serde", "csr", &r2.as_dense(), &t)?;
                same_dense("serde", "coo", &o2.as_dense(), &t)?;
                csc = c2;
                csr = r2;
                coo = o2;
                g.class("serde");
            }
        }
        t.show(g, "next");
        // refill the same triplet object
        if how == 0 && g.bool() {
            for k in 0..t.e.len() {
                coo.get_values_mut()[k] = t.e[k].2;
            }
            ensure!(coo.get_values_mut().len() == t.e.len(), "values_mut", "length");
        } else {
            coo.reset();
            ensure!(coo.get_nnz() == 0 && coo.get_values().is_empty(), "reset", "nnz = {}", coo.get_nnz());
            for &(i, j, x) in &t.e {
                must("put", "put again", coo.put(i, j, x))?;
            }
        }
        same_dense("refill", "coo", &coo.as_dense(), &t)?;
        must("csc_update", "update_from_coo", csc.update_from_coo(&coo))?;
        must("csr_update", "update_from_coo", csr.update_from_coo(&coo))?;
        check_csc(&t, &csc)?;
        check_csr(&t, &csr)?;
        eq_csc("csc_update", &csc, &must("csc", "from_coo", NumCscMatrix::from_coo(&coo))?)?;
        eq_csr("csr_update", &csr, &must("csr", "from_coo", NumCsrMatrix::from_coo(&coo))?)?;
        // values through the mutable accessors
        let q = g.us(0, csc.get_info().2 - 1);
        let x = scalar::<T>(g);
        let (old1, old2) = (csc.get_values()[q], csr.get_values()[q]);
        csc.get_values_mut()[q] = x;
        csr.get_values_mut()[q] = x;
        ensure!(csc.get_values()[q] == x && csr.get_values()[q] == x, "values_mut", "value {q}");
        let (lc, lr, lo) = (csc.get_values_mut().len(), csr.get_values_mut().len(), coo.get_values_mut().len());
        ensure!(lc == csc.get_values().len() && lr == csr.get_values().len() && lo == coo.get_nnz(), "values_mut", "{lc} {lr} {lo} values");
        csc.get_values_mut()[q] = old1;
        csr.get_values_mut()[q] = old2;
    }
    // refused refreshes
    let other = match g.draw(4) {
        0 => {
            let mut s = t.clone();
            s.e.push((0, 0, T::one()));
            s
        }
        1 => Trip { m: t.m + 1, n: if sy == Sym::No { t.n } else { t.n + 1 }, ..t.clone() },
        2 if sy == Sym::No => Trip { n: t.n + 1, ..t.clone() },
        _ => {
            if t.m != t.n || sy.triangular() {
                let mut s = t.clone();
                s.e.push((0, 0, T::one()));
                s
            } else {
            Trip { sym: if sy == Sym::No { Sym::YesFull } else { Sym::No }, ..t.clone() }
            }
        }
    };
    let oc = other.coo(0)?;
    must_err("update_mismatch", "csc", csc.update_from_coo(&oc))?;
    must_err("update_mismatch", "csr", csr.update_from_coo(&oc))?;
    check_csc(&t, &csc)?;
    check_csr(&t, &csr)?;
    g.hit();
    Ok(())
}

fn refresh(g: &mut G) -> R {
    if g.bool() { refresh_t::<f64>(g) } else { refresh_t::<Complex64>(g) }
}

/// put with valid and invalid arguments
fn insertion(g: &mut G) -> R {
    let sy = sym(g);
    let m = g.us(0, 5);
    let n = if g.chance(2, 3) { m } else { g.us(0, 5) };
    let cap = g.us(0, 8);
    g.show("new", &(m, n, cap, sy));
    let res = NumCooMatrix::<f64>::new(m, n, cap, sy);
    let ok = m >= 1 && n >= 1 && cap >= 1 && (sy == Sym::No || m == n);
    if !ok {
        g.class("new refused");
        must_err("new", "new", res)?;
        g.hit();
        return Ok(());
    }
    let mut coo = must("new", "new", res)?;
    ensure!(coo.get_info() == (m, n, 0, sy), "new", "info {:?}", coo.get_info());
    let mut t = Trip { m, n, sym: sy, e: Vec::<(usize, usize, f64)>::new() };
    let steps = g.rare(1, 14, 80);
    let mut refused = 0;
    for _ in 0..steps {
        if g.chance(1, 10) {
            coo.reset();
            t.e.clear();
            continue;
        }
        let i = if g.chance(1, 10) { g.us(m, m + 3) } else { g.us(0, m - 1) };
        let j = if g.chance(1, 10) { g.us(n, n + 3) } else { g.us(0, n - 1) };
        let x = value(g);
        let valid = i < m && j < n && t.e.len() < cap && !(sy == Sym::YesLower && j > i) && !(sy == Sym::YesUpper && j < i);
        g.show("put", &(i, j, x));
        let r = coo.put(i, j, x);
        if valid {
            must("put", "put", r)?;
            t.e.push((i, j, x));
        } else {
            refused += 1;
            must_err("put_invalid", &format!("put({i},{j}) with {} of {cap} used", t.e.len()), r)?;
        }
        ensure!(coo.get_nnz() == t.e.len(), "put", "nnz {} {}", coo.get_nnz(), t.e.len());
        same_dense("put", "dense", &coo.as_dense(), &t)?;
    }
    if t.e.is_empty() {
        must_err("empty", "csc", NumCscMatrix::from_coo(&coo))?;
        must_err("empty", "csr", NumCsrMatrix::from_coo(&coo))?;
    } else {
        check_csc(&t, &must("csc", "from_coo", NumCscMatrix::from_coo(&coo))?)?;
        check_csr(&t, &must("csr", "from_coo", NumCsrMatrix::from_coo(&coo))?)?;
    }
    if refused > 0 {
        g.class("refused");
    }
    g.hit();
    Ok(())
}

/// arrays given to the constructors
fn constructors(g: &mut G) -> R {
    let sy = sym(g);
    let m = if g.chance(1, 20) { 0 } else { g.us(1, 4) };
    let n = if sy != Sym::No && g.chance(7, 8) { m } else if g.chance(1, 20) { 0 } else { g.us(1, 4) };
    let kind = g.draw(3);
    let (major, minor) = if kind == 2 { (m, n) } else { (n, m) };
    let vals = |g: &mut G, k: usize| -> Vec<f64> { (0..k).map(|_| value(g)).collect() };
    if kind == 0 {
        // triplets
        let k = g.us(0, 6);
        let bad = g.draw(4) == 0;
        let mut ii = Vec::new();
        let mut jj = Vec::new();
        for _ in 0..k {
            let (mut i, mut j) = (g.us(0, m.max(1) - 1) as i32, g.us(0, n.max(1) - 1) as i32);
            if (sy == Sym::YesLower && j > i || sy == Sym::YesUpper && j < i) && !g.chance(1, 10) {
                std::mem::swap(&mut i, &mut j);
            }
            if bad && g.chance(1, 4) {
                i = *g.pick(&[-1, m as i32, i32::MAX, i32::MIN]);
            }
            if bad && g.chance(1, 4) {
                j = *g.pick(&[-1, n as i32, i32::MAX, i32::MIN]);
            }
            ii.push(i);
            jj.push(j);
        }
        let nv = if bad && g.chance(1, 3) { k + 1 } else { k };
        let vv = vals(g, nv);
        if bad && g.chance(1, 3) {
            jj.push(0);
        }
        g.show("from", &(m, n, sy, &ii, &jj, &vv));
        let mut ok = m >= 1 && n >= 1 && k >= 1 && jj.len() == k && vv.len() == k && (sy == Sym::No || m == n);
        if ok {
            for q in 0..k {
                ok = ok && ii[q] >= 0 && ii[q] < m as i32 && jj[q] >= 0 && jj[q] < n as i32;
                ok = ok && !(sy == Sym::YesLower && jj[q] > ii[q]) && !(sy == Sym::YesUpper && jj[q] < ii[q]);
            }
        }
        let r = NumCooMatrix::<f64>::from(m, n, ii.clone(), jj.clone(), vv.clone(), sy);
        if ok {
            let c = must("coo_from", "valid triplets refused", r)?;
            let t = Trip { m, n, sym: sy, e: (0..k).map(|q| (ii[q] as usize, jj[q] as usize, vv[q])).collect() };
            same_dense("coo_from", "dense", &c.as_dense(), &t)?;
            g.class("coo valid");
        } else {
            must_err("coo_from", "invalid triplets accepted", r)?;
            g.class("coo invalid");
        }
        g.hit();
        return Ok(());
    }
    // compressed
    let mut ptr = vec![0i32];
    let mut idx = Vec::new();
    for a in 0..major {
        let mut l: Vec<i32> = Vec::new();
        if minor > 0 {
            for b in 0..minor {
                let wrong = match (sy, kind) {
                    (Sym::YesLower, 1) => b < a,
                    (Sym::YesLower, _) => b > a,
                    (Sym::YesUpper, 1) => b > a,
                    (Sym::YesUpper, _) => b < a,
                    _ => false,
                };
                if g.bool() && !(wrong && !g.chance(1, 30)) {
                    l.push(b as i32);
                    if g.chance(1, 15) {
                        l.push(b as i32); // repeated position
                    }
                }
            }
        }
        idx.extend(l);
        ptr.push(idx.len() as i32);
    }
    let nmut = if g.bool() { 0 } else { g.us(1, 3) };
    let extra = if g.chance(1, 4) { g.us(0, 2) } else { 0 };
    let mut val = vals(g, idx.len());
    for _ in 0..nmut {
        match g.draw(8) {
            0 => {
                let q = g.us(0, ptr.len() - 1);
                ptr[q] = *g.pick(&[-1, 0, 1, 2, 3, 5, 50, i32::MAX, i32::MIN]);
            }
            1 if !idx.is_empty() => {
                let q = g.us(0, idx.len() - 1);
                idx[q] = *g.pick(&[-1, 0, 1, 2, 3, 4, i32::MAX, i32::MIN]);
            }
            2 => {
                ptr.pop();
            }
            3 => ptr.push(*ptr.last().unwrap_or(&0)),
            4 => {
                idx.pop();
            }
            5 => {
                val.pop();
            }
            6 if idx.len() > 1 => {
                let q = g.us(1, idx.len() - 1);
                idx.swap(q - 1, q);
            }
            _ => {
                let q = g.us(0, ptr.len().max(1) - 1);
                if q < ptr.len() {
                    ptr[q] = ptr[q].wrapping_add(if g.bool() { 1 } else { -1 });
                }
            }
        }
        if ptr.is_empty() {
            ptr.push(0);
        }
    }
    for _ in 0..extra {
        idx.push(0);
        val.push(1.0);
    }
    g.show("arrays", &(if kind == 1 { "csc" } else { "csr" }, m, n, sy, &ptr, &idx, &val));
    let mut ok = m >= 1 && n >= 1 && ptr.len() == major + 1 && (sy == Sym::No || m == n);
    let mut t = Trip { m, n, sym: sy, e: Vec::new() };
    if ok {
        let nnz = ptr[major];
        ok = nnz >= 1 && idx.len() as i64 >= nnz as i64 && val.len() as i64 >= nnz as i64 && ptr[0] == 0;
        for a in 0..major {
            ok = ok && ptr[a] >= 0 && ptr[a] <= ptr[a + 1] && ptr[a + 1] <= nnz;
            if ok {
                for p in ptr[a] as usize..ptr[a + 1] as usize {
                    ok = ok && idx[p] >= 0 && idx[p] < minor as i32;
                    ok = ok && (p == ptr[a] as usize || idx[p - 1] <= idx[p]);
                    if ok {
                        let (i, j) = if kind == 1 { (idx[p] as usize, a) } else { (a, idx[p] as usize) };
                        ok = ok && !(sy == Sym::YesLower && j > i) && !(sy == Sym::YesUpper && j < i);
                        t.e.push((i, j, val[p]));
                    }
                }
            }
        }
    }
    let (res, dense) = if kind == 1 {
        let r = catch(|| NumCscMatrix::<f64>::new(m, n, ptr.clone(), idx.clone(), val.clone(), sy));
        match r {
            Err((msg, loc)) => return fail("csc_new_panic", format!("panic: {msg} at {loc}")),
            Ok(Ok(c)) => (Ok(()), Some(c.as_dense())),
            Ok(Err(e)) => (Err(e), None),
        }
    } else {
        let r = catch(|| NumCsrMatrix::<f64>::new(m, n, ptr.clone(), idx.clone(), val.clone(), sy));
        match r {
            Err((msg, loc)) => return fail("csr_new_panic", format!("panic: {msg} at {loc}")),
            Ok(Ok(c)) => (Ok(()), Some(c.as_dense())),
            Ok(Err(e)) => (Err(e), None),
        }
    };
    if ok {
        must("compressed_new", "valid arrays refused", res)?;
        same_dense("compressed_new", "dense", &dense.unwrap(), &t)?;
        g.class("compressed valid");
    } else {
        must_err("compressed_new", "invalid arrays accepted", res)?;
        g.class("compressed invalid");
    }
    g.hit();
    Ok(())
}

pub fn property() -> Property {
    Property {
        id: "C12",
        assumptions: &["finite values", "dimensions up to 45, up to 4050 triplets", "compressed arrays given to a constructor may repeat a position (documented)"],
        laws: vec![
            Law { name: "formats", quick: 120_000, rule: "dense, compressed and converted forms were compared with the triplet model", f: formats },
            Law { name: "refresh", quick: 80_000, rule: "at least one in-place refresh was compared with a fresh conversion", f: refresh },
            Law { name: "insertion", quick: 600_000, rule: "a constructor decision or a put sequence was compared with the model", f: insertion },
            Law { name: "constructors", quick: 1000_000, rule: "the accept/reject decision was compared with the validity predicate", f: constructors },
        ],
    }
}
