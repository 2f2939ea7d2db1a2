use crate::util::*;
use russell_lab::Complex64;
use russell_sparse::{ComplexCooMatrix, CooMatrix, MMsym, StatsLinSol, read_matrix_market};
use std::fs;

const HANDLING: [MMsym; 3] = [MMsym::LeaveAsLower, MMsym::SwapToUpper, MMsym::MakeItFull];

trait Wr: Sc {
    fn write(csc: &NumCscMatrix<Self>, path: &str, vis: bool, tol: f64) -> Result<(), &'static str>;
    fn read(path: &str, h: MMsym) -> Result<Option<NumCooMatrix<Self>>, &'static str>;
}
impl Wr for f64 {
    fn write(csc: &NumCscMatrix<Self>, path: &str, vis: bool, tol: f64) -> Result<(), &'static str> {
        csc.write_matrix_market(path, vis, tol)
    }
    fn read(path: &str, h: MMsym) -> Result<Option<NumCooMatrix<Self>>, &'static str> {
        read_matrix_market(path, h).map(|r| if r.1.is_some() { None } else { r.0 })
    }
}
impl Wr for Complex64 {
    fn write(csc: &NumCscMatrix<Self>, path: &str, vis: bool, tol: f64) -> Result<(), &'static str> {
        csc.write_matrix_market(path, vis, tol)
    }
    fn read(path: &str, h: MMsym) -> Result<Option<NumCooMatrix<Self>>, &'static str> {
        read_matrix_market(path, h).map(|r| if r.0.is_some() { None } else { r.1 })
    }
}

fn kept(x: (f64, f64), tol: f64) -> bool {
    x.0.abs() > tol || x.1.abs() > tol
}

fn round_trip_t<T: Wr>(g: &mut G) -> R {
    let sy = sym(g);
    let mut t = triplets::<T>(g, sy, 7);
    // one entry per position
    let mut seen = std::collections::HashSet::new();
    t.e.retain(|q| seen.insert((q.0, q.1)));
    if sy == Sym::YesFull {
        let val: std::collections::HashMap<(usize, usize), T> = t.e.iter().map(|q| ((q.0, q.1), q.2)).collect();
        for q in &mut t.e {
            q.2 = val[&(q.0.max(q.1), q.0.min(q.1))];
        }
    }
    let dup = g.chance(1, 4) && sy != Sym::YesFull;
    if dup {
        // halves sum up exactly
        let mut e = Vec::new();
        for q in &t.e {
            let h = q.2 * T::make(0.5, 0.0);
            e.push((q.0, q.1, h));
            e.push((q.0, q.1, q.2 - h));
        }
        t.e = e;
    }
    let tol = *g.pick(&[0.0, 0.0, 1e-15, 1e-3, 1.5]);
    let vis = g.chance(1, 4);
    let from_csr = g.bool();
    t.show(g, "t");
    g.show("tol vis", &(tol, vis));
    let coo = t.coo(g.us(0, 2))?;
    let csc = if from_csr {
        let csr = must("csr", "from_coo", NumCsrMatrix::from_coo(&coo))?;
        must("csc", "from_csr", NumCscMatrix::from_csr(&csr))?
    } else {
        must("csc", "from_coo", NumCscMatrix::from_coo(&coo))?
    };
    // entries that must be found in the file (dense view)
    let (mut d, _) = t.dense();
    let mut count_low = 0;
    let mut count_all = 0;
    for i in 0..t.m {
        for j in 0..t.n {
            if kept(d[i][j].parts(), tol) {
                count_all += 1;
                if i >= j {
                    count_low += 1;
                }
            } else {
                d[i][j] = T::zero();
            }
        }
    }
    if count_all == 0 {
        discard!();
    }
    let sub = g.bool();
    let path = if sub { g.scratch.join("sub").join("mat.mtx") } else { g.scratch.join("mat.mtx") };
    let path = path.to_str().unwrap().to_string();
    must("write", "write", T::write(&csc, &path, vis, tol))?;
    let text = fs::read_to_string(&path).unwrap();
    g.show("text", &text);
    let mut lines = text.lines();
    if !vis {
        let head = format!(
            "%%MatrixMarket matrix coordinate {} {}",
            if T::COMPLEX { "complex" } else { "real" },
            if sy == Sym::No { "general" } else { "symmetric" }
        );
        let first: Vec<&str> = lines.next().unwrap_or("").split_whitespace().collect();
        ensure!(first == head.split_whitespace().collect::<Vec<_>>(), "header", "{:?}", first);
    }
    let rows: Vec<Vec<&str>> = lines.map(|l| l.split_whitespace().collect()).filter(|v: &Vec<&str>| !v.is_empty() && !v[0].starts_with('%')).collect();
    let expect = if vis || sy == Sym::No { count_all } else { count_low };
    ensure!(!rows.is_empty() && rows[0] == vec![t.m.to_string(), t.n.to_string(), expect.to_string()], "counts", "{:?} {} {} {}", rows.get(0), t.m, t.n, expect);
    ensure!(rows.len() == expect + 1, "counts", "{} data lines, the header says {}", rows.len() - 1, expect);
    if vis {
        let mut seen = std::collections::HashSet::new();
        for r in &rows[1..] {
            let v: (usize, usize, f64) = match (r.len(), r[0].parse(), r.get(1).map(|q| q.parse()), r.get(2).map(|q| q.parse())) {
                (3, Ok(i), Some(Ok(j)), Some(Ok(x))) => (i, j, x),
                _ => return fail("vismatrix", format!("line {r:?}")),
            };
            ensure!(v.0 < t.m && v.1 < t.n && seen.insert((v.0, v.1)), "vismatrix", "position {v:?}");
            let x = d[v.0][v.1];
            let m = if T::COMPLEX { x.mag() } else { x.parts().0 };
            near("vismatrix", "value", v.2, m, 4.0 * EPS * m.abs())?;
        }
        g.class("vismatrix");
        g.hit();
        return Ok(());
    }
    for h in HANDLING {
        let r = must("read", "read", T::read(&path, h))?;
        let Some(r) = r else { return fail("kind", "the file was read as the other scalar type".into()) };
        let (m, n, nnz, s) = r.get_info();
        let want = if sy == Sym::No {
            Sym::No
        } else {
            match h {
                MMsym::LeaveAsLower => Sym::YesLower,
                MMsym::SwapToUpper => Sym::YesUpper,
                MMsym::MakeItFull => Sym::YesFull,
            }
        };
        ensure!((m, n) == (t.m, t.n) && s == want, "info", "{m} {n} {s:?}, expected {want:?}");
        let cnt = if sy != Sym::No && h != MMsym::MakeItFull { count_low } else { count_all };
        ensure!(nnz == cnt, "nnz", "{nnz} entries read, expected {cnt} ({h:?})");
        let a = r.as_dense();
        for i in 0..t.m {
            for j in 0..t.n {
                ensure!(a.get(i, j) == d[i][j], "value", "[{i},{j}] = {:?}, expected {:?} ({h:?})", a.get(i, j), d[i][j]);
            }
        }
    }
    g.class(if T::COMPLEX { "complex" } else { "real" });
    g.class(match sy {
        Sym::No => "general",
        Sym::YesFull => "full",
        Sym::YesLower => "lower",
        Sym::YesUpper => "upper",
    });
    g.hit();
    Ok(())
}

fn round_trip(g: &mut G) -> R {
    if g.bool() { round_trip_t::<f64>(g) } else { round_trip_t::<Complex64>(g) }
}

/// what a text describes
#[derive(Debug, PartialEq)]
struct Meaning {
    complex: bool,
    symmetric: bool,
    m: i64,
    n: i64,
    e: Vec<(i64, i64, f64, f64)>,
}

/// independent reader; None if the text describes no matrix
fn meaning(bytes: &[u8]) -> Option<Meaning> {
    let text = std::str::from_utf8(bytes).ok()?;
    let mut lines = text.split('\n').map(|l| l.strip_suffix('\r').unwrap_or(l));
    let head: Vec<&str> = lines.next()?.split_whitespace().collect();
    if head.len() < 5 || head[0] != "%%MatrixMarket" || head[1] != "matrix" || head[2] != "coordinate" {
        return None;
    }
    let complex = match head[3] {
        "real" => false,
        "complex" => true,
        _ => return None,
    };
    let symmetric = match head[4] {
        "general" => false,
        "symmetric" => true,
        "Hermitian" if complex => false,
        _ => return None,
    };
    let mut dims: Option<(i64, i64, i64)> = None;
    let mut e = Vec::new();
    for l in lines {
        let l = l.trim_start();
        if l.is_empty() || l.starts_with('%') {
            continue;
        }
        let w: Vec<&str> = l.split_whitespace().collect();
        let int = |k: usize| w.get(k).and_then(|q| q.parse::<i32>().ok()).map(|q| q as i64);
        let num = |k: usize| w.get(k).and_then(|q| q.parse::<f64>().ok());
        match dims {
            None => {
                let d = (int(0)?, int(1)?, int(2)?);
                if d.0 < 1 || d.1 < 1 || d.2 < 1 || symmetric && d.0 != d.1 {
                    return None;
                }
                dims = Some(d);
            }
            Some(d) => {
                let q = (int(0)?, int(1)?, num(2)?, if complex { num(3)? } else { 0.0 });
                if q.0 < 1 || q.0 > d.0 || q.1 < 1 || q.1 > d.1 {
                    return None;
                }
                e.push((q.0 - 1, q.1 - 1, q.2, q.3));
            }
        }
    }
    let d = dims?;
    if e.len() as i64 != d.2 {
        return None;
    }
    Some(Meaning { complex, symmetric, m: d.0, n: d.1, e })
}

type Bits = (i64, i64, u64, u64);

fn entries<T: Sc>(a: &NumCooMatrix<T>) -> Vec<Bits> {
    let n = a.get_info().2;
    let mut v: Vec<Bits> = (0..n)
        .map(|k| {
            let p = a.get_values()[k].parts();
            (a.get_row_indices()[k] as i64, a.get_col_indices()[k] as i64, p.0.to_bits(), p.1.to_bits())
        })
        .collect();
    v.sort();
    v
}

/// reads the bytes and compares with the independent reader; returns whether a matrix was read
fn compare(g: &mut G, bytes: &[u8], h: MMsym, required: bool) -> Result<bool, Stop> {
    let path = g.scratch.join("in.mtx");
    fs::write(&path, bytes).unwrap();
    g.show("text", &String::from_utf8_lossy(bytes));
    g.show("handling", &h);
    let p = path.to_str().unwrap().to_string();
    let got = match catch(|| read_matrix_market(&p, h)) {
        Ok(r) => r,
        Err((m, loc)) => {
            fail("panic", format!("reading panicked: {m} at {loc}"))?;
            unreachable!()
        }
    };
    let mean = meaning(bytes);
    let (re, im) = match got {
        Err(e) => {
            ensure!(!required, "refused", "a valid file was refused: {e}");
            return Ok(false);
        }
        Ok(r) => r,
    };
    let Some(w) = mean else {
        fail("accepted", "a malformed file was accepted".into())?;
        unreachable!()
    };
    ensure!(re.is_some() != im.is_some() && im.is_some() == w.complex, "kind", "real {} complex {}", re.is_some(), im.is_some());
    let (info, got) = match (&re, &im) {
        (Some(a), _) => (a.get_info(), entries(a)),
        (_, Some(a)) => (a.get_info(), entries(a)),
        _ => unreachable!(),
    };
    let mut expect: Vec<Bits> = Vec::new();
    for q in &w.e {
        let b = (q.2.to_bits(), if w.complex { q.3.to_bits() } else { 0.0f64.to_bits() });
        if !w.symmetric {
            expect.push((q.0, q.1, b.0, b.1));
            continue;
        }
        match h {
            MMsym::LeaveAsLower => expect.push((q.0, q.1, b.0, b.1)),
            MMsym::SwapToUpper => expect.push((q.1, q.0, b.0, b.1)),
            MMsym::MakeItFull => {
                expect.push((q.0, q.1, b.0, b.1));
                if q.0 != q.1 {
                    expect.push((q.1, q.0, b.0, b.1));
                }
            }
        }
        ensure!(q.0 >= q.1 || h == MMsym::MakeItFull, "triangle", "an entry above the diagonal of a symmetric file was accepted");
    }
    expect.sort();
    let sy = match (w.symmetric, h) {
        (false, _) => Sym::No,
        (_, MMsym::LeaveAsLower) => Sym::YesLower,
        (_, MMsym::SwapToUpper) => Sym::YesUpper,
        (_, MMsym::MakeItFull) => Sym::YesFull,
    };
    ensure!((info.0 as i64, info.1 as i64, info.3) == (w.m, w.n, sy), "info", "{info:?}");
    ensure!(got == expect, "entries", "got {got:?}, expected {expect:?}");
    Ok(true)
}

fn spaces(g: &mut G) -> String {
    g.pick(&[" ", " ", "  ", "\t", " \t "]).to_string()
}

fn number(g: &mut G) -> String {
    let x = value(g);
    match g.draw(7) {
        0 => format!("{}", g.int(-99, 99)),
        1 => format!("{x:?}"),
        2 => format!("{x:e}"),
        3 => format!("{x:E}"),
        4 => format!("+{:.3}", x.abs().min(1e10)),
        5 => format!("{:.5e}", x),
        _ => format!("{x:.2}"),
    }
}

fn junk_line(g: &mut G) -> String {
    g.pick(&["", "", "%", "% comment", "  % indented 1 2 3", "   ", "\t", "%%MatrixMarket matrix coordinate real general", "% 5 5 5"]).to_string()
}

/// a valid file, as lines
fn valid(g: &mut G) -> Vec<String> {
    let complex = g.bool();
    let kind = match g.draw(5) {
        0 | 1 => "general",
        2 | 3 => "symmetric",
        _ if complex => "Hermitian",
        _ => "general",
    };
    let (m, mut n) = (g.us(1, 9), g.us(1, 9));
    if kind == "symmetric" {
        n = m;
    }
    let mut out = vec![format!(
        "%%MatrixMarket{}matrix{}coordinate{}{}{}{}",
        spaces(g),
        spaces(g),
        spaces(g),
        if complex { "complex" } else { "real" },
        spaces(g),
        kind
    )];
    let nnz = g.us(1, 8);
    for _ in 0..g.us(0, 2) {
        out.push(junk_line(g));
    }
    let lead = if g.chance(1, 3) { " " } else { "" };
    out.push(format!("{lead}{m}{}{n}{}{nnz}", spaces(g), spaces(g)));
    for _ in 0..nnz {
        if g.chance(1, 6) {
            out.push(junk_line(g));
        }
        let (mut i, mut j) = (g.us(1, m), g.us(1, n));
        if kind == "symmetric" {
            (i, j) = (i.max(j), i.min(j));
        }
        let mut l = format!("{lead}{i}{}{j}{}{}", spaces(g), spaces(g), number(g));
        if complex {
            l.push_str(&spaces(g));
            l.push_str(&number(g));
        }
        if g.chance(1, 8) {
            l.push_str("  ");
        }
        out.push(l);
    }
    if g.chance(1, 5) {
        out.push(junk_line(g));
    }
    out
}

fn join(g: &mut G, l: &[String]) -> Vec<u8> {
    let eol = if g.chance(1, 5) { "\r\n" } else { "\n" };
    let mut s = l.join(eol);
    if g.bool() {
        s.push_str(eol);
    }
    s.into_bytes()
}

fn reader(g: &mut G) -> R {
    let l = valid(g);
    let b = join(g, &l);
    let h = *g.pick(&HANDLING);
    ensure!(meaning(&b).is_some(), "machinery", "the generated text is not valid: {:?}", String::from_utf8_lossy(&b));
    compare(g, &b, h, true)?;
    g.hit();
    Ok(())
}

fn mutated(g: &mut G) -> R {
    let mut l = valid(g);
    for _ in 0..g.us(1, 3) {
        if l.is_empty() {
            break;
        }
        let k = g.us(0, l.len() - 1);
        match g.draw(9) {
            0 => {
                l.remove(k);
            }
            1 => {
                let c = l[k].clone();
                l.insert(k, c);
            }
            2 | 3 | 4 => {
                // another token
                let mut w: Vec<String> = l[k].split_whitespace().map(|s| s.to_string()).collect();
                if w.is_empty() {
                    continue;
                }
                let q = g.us(0, w.len() - 1);
                w[q] = g
                    .pick(&[
                        "0", "-1", "1", "2", "3", "10", "1.0", "1e0", "abc", "2147483647", "2147483648", "-2147483648", "99999999999999999999", "NaN", "inf", "1e400", "%", "1%", "real",
                        "complex", "general", "symmetric", "Hermitian", "pattern", "array", "matrix", "coordinate", "%%MatrixMarket", "+1", "\u{e9}", "1_0", "0x1", "--1", "1d0", "",
                    ])
                    .to_string();
                l[k] = w.join(" ");
            }
            5 => {
                let mut w: Vec<&str> = l[k].split_whitespace().collect();
                w.pop();
                l[k] = w.join(" ");
            }
            6 => l[k].push_str(" 7"),
            7 => {
                let j = g.us(0, l.len() - 1);
                l.swap(k, j);
            }
            _ => l.truncate(k),
        }
    }
    let mut b = join(g, &l);
    for _ in 0..g.us(0, 2) {
        if b.is_empty() {
            break;
        }
        let k = g.us(0, b.len() - 1);
        match g.draw(4) {
            0 => b.truncate(k),
            1 => b[k] = g.draw(256) as u8,
            2 => b.insert(k, *g.pick(&[b'\n', b' ', 0, 255, b'%', b'-', b'9', b'\r', 11, 0xc2])),
            _ => {
                b.remove(k);
            }
        }
    }
    let h = *g.pick(&HANDLING);
    if compare(g, &b, h, false)? {
        g.class("a matrix was read");
    } else {
        g.class("refused");
    }
    g.hit();
    Ok(())
}

fn bytes(g: &mut G) -> R {
    let n = g.us(0, 40);
    let mut b: Vec<u8> = Vec::new();
    if g.bool() {
        b.extend_from_slice(b"%%MatrixMarket matrix coordinate real general\n");
    }
    let text = g.bool();
    for _ in 0..n {
        b.push(if text { *g.pick(b"0123456789 .-+e\n\n %\t") } else { g.draw(256) as u8 });
    }
    let h = *g.pick(&HANDLING);
    compare(g, &b, h, false)?;
    if !b.is_empty() {
        g.hit();
    }
    Ok(())
}

/// statistics written to and read from a file
fn stats_file(g: &mut G) -> R {
    let mut s = StatsLinSol::new();
    s.matrix.name = g.pick(&["", "bfwb62", "a \"quoted\" \\ name", "\u{3b1}\u{3b2}\n"]).to_string();
    s.matrix.nrow = g.us(0, 1 << 40);
    s.matrix.ncol = g.us(0, 50);
    s.matrix.nnz = g.us(0, 50);
    s.matrix.complex = g.bool();
    s.requests.hybrid_memory_factor = if g.bool() { Some(g.uni(0.0, 1.0)) } else { None };
    s.determinant.mantissa_real = value(g);
    s.determinant.mantissa_imag = value(g);
    s.determinant.exponent = g.int(-400, 400) as f64;
    s.output.umfpack_rcond_estimate = g.plog(-300.0, 0.0);
    s.verify.max_abs_ax = value(g);
    let k = g.us(0, 4);
    let (mut a, mut b, mut c) = (0.0, 0.0, 0.0);
    for _ in 0..k {
        let t = [g.draw(1 << 40), g.draw(1 << 20), g.draw(1 << 40)];
        s.time_nanoseconds.initialize_array.push(t[0] as u128);
        s.time_nanoseconds.factorize_array.push(t[1] as u128);
        s.time_nanoseconds.solve_array.push(t[2] as u128);
        a += t[0] as f64;
        b += t[1] as f64;
        c += t[2] as f64;
    }
    g.show("stats", &s.time_nanoseconds.initialize_array);
    // information about a matrix, with entries that cancel nothing and mirrored entries counted
    if g.bool() {
        let n = g.us(1, 6);
        let sym = *g.pick(&[Sym::No, Sym::YesFull, Sym::YesLower, Sym::YesUpper]);
        let ncol = if sym == Sym::No { g.us(1, 6) } else { n };
        let (mut count, mut diagonal) = (0, 0);
        let mut at = vec![];
        for i in 0..n {
            for j in 0..ncol {
                let stored = match sym {
                    Sym::YesLower => j <= i,
                    Sym::YesUpper => j >= i,
                    _ => true,
                };
                if stored && (sym == Sym::YesFull || g.bool()) {
                    at.push((i, j));
                    count += 1;
                    diagonal += (i == j) as usize;
                }
            }
        }
        let complex = g.bool();
        let room = count.max(1) + g.us(0, 3);
        if complex {
            let mut coo = must("stats:coo", "new", ComplexCooMatrix::new(n, ncol, room, sym))?;
            for (i, j) in &at {
                must("stats:coo", "put", coo.put(*i, *j, Complex64::new(1.0, 2.0)))?;
            }
            s.set_matrix_info_from_coo(&coo);
        } else {
            let mut coo = must("stats:coo", "new", CooMatrix::new(n, ncol, room, sym))?;
            for (i, j) in &at {
                must("stats:coo", "put", coo.put(*i, *j, 3.0))?;
            }
            s.set_matrix_info_from_coo(&coo);
        }
        let actual = if sym == Sym::YesLower || sym == Sym::YesUpper { 2 * count - diagonal } else { count };
        let m = &s.matrix;
        g.show("matrix", &(n, ncol, sym, complex, count, diagonal));
        ensure!((m.nrow, m.ncol, m.nnz, m.nnz_actual) == (n, ncol, count, actual), "stats:info", "{:?} instead of {:?}", (m.nrow, m.ncol, m.nnz, m.nnz_actual), (n, ncol, count, actual));
        ensure!(m.complex == complex && m.symmetric == format!("{:?}", sym), "stats:info", "{} {}", m.complex, m.symmetric);
    }
    if g.chance(1, 4) {
        let name = *g.pick(&["a", "b.c", ".d", "e-f_g", "\u{3b1}"]);
        let end = *g.pick(&[".mtx", ".x", ".mtx.gz"]);
        s.set_matrix_name_from_path(&format!("{}{}{}", g.pick(&["", "/", "./", "/q.r/s/", "../"]), name, end));
        let full = format!("{}{}", name, end);
        let want = &full[..full.rfind('.').unwrap()];
        ensure!(s.matrix.name == want, "stats:name", "{:?} instead of {:?}", s.matrix.name, want);
    }
    let path = g.scratch.join("st").join("stats.json");
    let path = path.to_str().unwrap().to_string();
    must("write_json", "write_json", s.write_json(&path))?;
    let text = std::fs::read_to_string(&path).unwrap_or_default();
    ensure!(s.get_json().trim() == text.trim(), "stats:json", "the text differs from the file");
    let r = must("read_json", "read_json", StatsLinSol::read_json(&path))?;
    ensure!(r.matrix.name == s.matrix.name && r.matrix.nrow == s.matrix.nrow && r.matrix.ncol == s.matrix.ncol, "stats", "matrix {:?}", r.matrix.name);
    ensure!(r.matrix.nnz == s.matrix.nnz && r.matrix.complex == s.matrix.complex, "stats", "matrix");
    ensure!(r.requests.hybrid_memory_factor.is_some() == s.requests.hybrid_memory_factor.is_some(), "stats", "hybrid_memory_factor");
    for (what, x, y) in [
        ("mantissa_real", r.determinant.mantissa_real, s.determinant.mantissa_real),
        ("mantissa_imag", r.determinant.mantissa_imag, s.determinant.mantissa_imag),
        ("exponent", r.determinant.exponent, s.determinant.exponent),
        ("rcond", r.output.umfpack_rcond_estimate, s.output.umfpack_rcond_estimate),
        ("max_abs_ax", r.verify.max_abs_ax, s.verify.max_abs_ax),
        ("factor", r.requests.hybrid_memory_factor.unwrap_or(0.0), s.requests.hybrid_memory_factor.unwrap_or(0.0)),
    ] {
        near("stats", what, x, y, 2.0 * EPS * y.abs())?;
    }
    let (x, y) = (&r.time_nanoseconds, &s.time_nanoseconds);
    ensure!(x.initialize_array == y.initialize_array && x.factorize_array == y.factorize_array && x.solve_array == y.solve_array, "stats", "times");
    ensure!(x.total_ifs_array == y.total_ifs_array && x.total_ifs_array.len() == k, "stats", "totals");
    for i in 0..k {
        ensure!(x.total_ifs_array[i] == x.initialize_array[i] + x.factorize_array[i] + x.solve_array[i], "stats", "total of run {i}");
    }
    if k > 0 {
        for (what, v, sum) in [("initialize", x.initialize, a), ("factorize", x.factorize, b), ("solve", x.solve, c), ("total", x.total_ifs, a + b + c)] {
            let m = sum / k as f64;
            near("average", what, v as f64, m, 1.0 + 1e-12 * m)?;
        }
        g.hit();
    }
    Ok(())
}

pub fn property() -> Property {
    Property {
        id: "C15",
        assumptions: &[
            "matrices with at least one entry above the tolerance and no NaN are written",
            "Hermitian files list all entries (as the existing example file does)",
            "extra words at the end of a data line are ignored or refused",
        ],
        laws: vec![
            Law { name: "round_trip", quick: 20_000, rule: "a written file was checked line by line and read back under every handling", f: round_trip },
            Law { name: "reader", quick: 40_000, rule: "a valid generated file was read and compared", f: reader },
            Law { name: "mutated", quick: 80_000, rule: "a damaged file was read", f: mutated },
            Law { name: "bytes", quick: 40_000, rule: "a non-empty byte string was read", f: bytes },
            Law { name: "stats_file", quick: 10_000, rule: "statistics with at least one run were written and read", f: stats_file },
        ],
    }
}
