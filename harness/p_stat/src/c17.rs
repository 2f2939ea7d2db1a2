use russell_stat::*;
use std::fmt::Debug;
use vp_engine::*;

const EPS: f64 = f64::EPSILON;

fn data_f(g: &mut G) -> Vec<f64> {
    let n = match g.draw(4) {
        0 => g.us(0, 4),
        1 | 2 => g.us(0, 20),
        _ => if g.chance(1, 20) { g.us(200, 1500) } else { g.us(0, 200) },
    };
    let base = match g.draw(4) {
        0 => 0.0,
        1 => g.uni(-10.0, 10.0),
        _ => g.flog(-6.0, 9.0),
    };
    let spread = g.plog(-3.0, 3.0);
    let mode = g.draw(6);
    let c = g.uni(-3.0, 3.0);
    (0..n)
        .map(|_| match mode {
            0 => c,
            1 => g.int(-5, 5) as f64,
            2 => base + spread * g.uni(-1.0, 1.0),
            3 => base + spread * g.int(-3, 3) as f64,
            4 => g.flog(-10.0, 10.0),
            _ => {
                if g.chance(1, 6) {
                    100.0 * spread * g.uni(-1.0, 1.0)
                } else {
                    spread * g.uni(-1.0, 1.0)
                }
            }
        })
        .collect()
}

/// exact-ish sum (double-double)
fn dd_sum(x: impl Iterator<Item = f64>) -> (f64, f64) {
    let (mut s, mut c) = (0.0f64, 0.0f64);
    for v in x {
        let t = s + v;
        let z = t - s;
        c += (s - (t - z)) + (v - z);
        s = t;
    }
    (s, c)
}

fn shuffled<T: Copy>(g: &mut G, x: &[T]) -> Vec<T> {
    let p = g.perm(x.len());
    p.iter().map(|&i| x[i]).collect()
}

fn statistics_of<T: Into<f64> + Copy + Debug>(g: &mut G, x: &[T]) -> R {
    g.show("data", &x);
    let s = Statistics::new(x);
    let v: Vec<f64> = x.iter().map(|&q| q.into()).collect();
    let n = v.len();
    if n == 0 {
        ensure!(s.min == 0.0 && s.max == 0.0 && s.mean == 0.0 && s.std_dev == 0.0, "empty", "{} {} {} {}", s.min, s.max, s.mean, s.std_dev);
        return Ok(());
    }
    let mn = v.iter().cloned().fold(f64::INFINITY, f64::min);
    let mx = v.iter().cloned().fold(f64::NEG_INFINITY, f64::max);
    ensure!(s.min == mn && s.max == mx, "limits", "{} {}, expected {} {}", s.min, s.max, mn, mx);
    let big = mn.abs().max(mx.abs());
    let nn = n as f64;
    let (hi, lo) = dd_sum(v.iter().cloned());
    let mean = hi / nn + lo / nn;
    near("mean", "mean", s.mean, mean, 2.0 * nn * EPS * big)?;
    // variance about the accurate mean
    let rest = (hi - mean * nn) / nn; // negligible
    let (h2, l2) = dd_sum(v.iter().map(|q| (q - mean - rest) * (q - mean - rest)));
    let var = if n > 1 { (h2 + l2) / (nn - 1.0) } else { 0.0 };
    let delta = nn * EPS * big;
    ensure!(s.std_dev >= 0.0, "std_dev", "standard deviation {}", s.std_dev);
    near("std_dev", "variance", s.std_dev * s.std_dev, var, 20.0 * nn * EPS * (var + delta * delta) + delta * delta)?;
    // order does not matter
    let y = shuffled(g, x);
    let r = Statistics::new(&y);
    ensure!(r.min == s.min && r.max == s.max, "order", "limits");
    near("order", "mean", r.mean, s.mean, 4.0 * delta)?;
    // text
    let text = format!("{:.3}", s);
    let want = format!("min = {:.3}\nmax = {:.3}\nmean = {:.3}\nstd_dev = {:.3}\n", s.min, s.max, s.mean, s.std_dev);
    ensure!(text == want, "display", "{text:?}");
    let text = format!("{}", s);
    let want = format!("min = {}\nmax = {}\nmean = {}\nstd_dev = {}\n", s.min, s.max, s.mean, s.std_dev);
    ensure!(text == want, "display", "{text:?}");
    if n > 1 {
        g.hit();
    }
    g.class(if n == 1 {
        "single"
    } else if mn == mx {
        "constant"
    } else {
        "varied"
    });
    Ok(())
}

fn statistics(g: &mut G) -> R {
    match g.draw(4) {
        0 => {
            let x: Vec<i32> = (0..g.us(0, 30)).map(|_| if g.bool() { g.int(-9, 9) as i32 } else { g.int(i32::MIN as i64, i32::MAX as i64) as i32 }).collect();
            statistics_of(g, &x)
        }
        1 => {
            let x: Vec<u8> = (0..g.us(0, 30)).map(|_| g.draw(256) as u8).collect();
            statistics_of(g, &x)
        }
        _ => {
            let x = data_f(g);
            statistics_of(g, &x)
        }
    }
}

/// linear interpolation of order statistics
fn quant(sorted: &[f64], q: f64) -> f64 {
    let n = sorted.len();
    let t = q * (n - 1) as f64;
    let i = (t as usize).min(n - 1);
    let j = (i + 1).min(n - 1);
    let w = t - i as f64;
    sorted[i] * (1.0 - w) + sorted[j] * w
}

macro_rules! order_stats {
    ($g:ident, $x:ident) => {{
        $g.show("data", &$x);
        let n = $x.len();
        if n == 0 {
            let mut y = $x.clone();
            ensure!(catch(|| quantile(&$x, 0.5)).is_err(), "empty", "quantile of no data");
            ensure!(catch(|| quartiles(&mut y)).is_err(), "empty", "quartiles of no data");
            return Ok(());
        }
        let mut s: Vec<f64> = $x.iter().map(|q| *q as f64).collect();
        s.sort_by(|a, b| a.total_cmp(b));
        let big = s[0].abs().max(s[n - 1].abs());
        let tol = 8.0 * n as f64 * EPS * big;
        // quantiles of the sorted data
        let mut sorted = $x.clone();
        sorted.sort_by(|a, b| a.partial_cmp(b).unwrap());
        let q1 = $g.unit();
        let q2 = if $g.bool() { $g.us(0, n - 1) as f64 / (n - 1).max(1) as f64 } else { $g.unit() };
        let q = [q1, q2, 0.0, 1.0, 0.5];
        for &p in &q {
            let got = quantile(&sorted, p);
            near("quantile", &format!("quantile {p}"), got, quant(&s, p), tol)?;
            ensure!(got >= s[0] - tol && got <= s[n - 1] + tol, "quantile", "quantile {p} = {got} outside the data");
        }
        ensure!(quantile(&sorted, 0.0) == s[0] && quantile(&sorted, 1.0) == s[n - 1], "quantile", "end points");
        let (a, b) = if q1 < q2 { (q1, q2) } else { (q2, q1) };
        ensure!(quantile(&sorted, a) <= quantile(&sorted, b) + tol, "quantile", "not monotone");
        ensure!(catch(|| quantile(&sorted, -0.1)).is_err() && catch(|| quantile(&sorted, 1.0001)).is_err(), "range", "q outside [0, 1] accepted");
        // quartiles of unsorted data
        let mut y = shuffled($g, &$x);
        let (f, m, t) = quartiles(&mut y);
        near("quartiles", "first", f, quant(&s, 0.25), tol)?;
        near("quartiles", "second", m, quant(&s, 0.5), tol)?;
        near("quartiles", "third", t, quant(&s, 0.75), tol)?;
        ensure!(y.iter().zip(&sorted).all(|(a, b)| a == b), "quartiles", "the data were not sorted: {:?}", y);
        let mut y = shuffled($g, &$x);
        near("iqr", "inter-quartile range", inter_quartile_range(&mut y), quant(&s, 0.75) - quant(&s, 0.25), 2.0 * tol)?;
        // outliers
        let iqr = quant(&s, 0.75) - quant(&s, 0.25);
        let (lo, hi) = (quant(&s, 0.25) - 1.5 * iqr, quant(&s, 0.75) + 1.5 * iqr);
        // the fences of small integers are exact
        let tol = if s.iter().all(|v| v.fract() == 0.0 && v.abs() <= 1e6) { 0.0 } else { tol };
        let mut found = outliers(&$x);
        ensure!(found.iter().all(|p| p.0 < n && $x[p.0] == p.1), "outliers", "index and value do not match: {:?}", found);
        found.sort_by_key(|p| p.0);
        ensure!(found.windows(2).all(|w| w[0].0 < w[1].0), "outliers", "repeated index: {:?}", found);
        let mut count = 0;
        for i in 0..n {
            let v = $x[i] as f64;
            let inside = v >= lo - 8.0 * tol && v <= hi + 8.0 * tol;
            let clearly = v < lo - 8.0 * tol || v > hi + 8.0 * tol;
            let exact = inside && tol == 0.0;
            if exact && (v == lo || v == hi) && lo < hi {
                $g.class("on a fence");
            }
            let listed = found.iter().any(|p| p.0 == i);
            if clearly {
                ensure!(listed, "outliers", "datum {i} = {v} is outside [{lo}, {hi}] but not listed");
                count += 1;
            } else if inside && v > lo + 8.0 * tol && v < hi - 8.0 * tol || exact {
                ensure!(!listed, "outliers", "datum {i} = {v} is inside [{lo}, {hi}] but listed");
            }
        }
        if count > 0 {
            $g.class("outliers");
        }
        if n > 1 {
            $g.hit();
        }
    }};
}

fn order(g: &mut G) -> R {
    match g.draw(5) {
        0 => {
            let x: Vec<i64> = (0..g.us(0, 30)).map(|_| if g.chance(1, 8) { g.int(-1000, 1000) } else { g.int(-9, 9) }).collect();
            order_stats!(g, x)
        }
        1 => {
            let x: Vec<u8> = (0..g.us(0, 30)).map(|_| g.draw(256) as u8).collect();
            order_stats!(g, x)
        }
        2 => {
            let x: Vec<usize> = (0..g.us(0, 12)).map(|_| g.us(0, 40)).collect();
            order_stats!(g, x)
        }
        _ => {
            let x = data_f(g);
            order_stats!(g, x)
        }
    }
    Ok(())
}

macro_rules! histogram_of {
    ($g:ident, $t:ty, $stations:ident, $datum:expr) => {{
        let st: Vec<$t> = $stations;
        $g.show("stations", &st);
        if st.len() < 2 {
            return must_err("stations", "fewer than two stations", Histogram::<$t>::new(&st).map(|_| ()));
        }
        let nb = st.len() - 1;
        let mut h = must("new", "new", Histogram::<$t>::new(&st))?;
        let mut model = vec![0usize; nb];
        let mut inside = 0;
        for _ in 0..$g.us(1, 4) {
            if $g.chance(1, 6) {
                h.reset();
                model.iter_mut().for_each(|c| *c = 0);
                $g.class("reset");
            }
            let data: Vec<$t> = (0..$g.us(0, 25)).map(|_| $datum($g, &st)).collect();
            $g.show("data", &data);
            // large counts
            let times = if $g.chance(1, 40) { $g.us(2, 3000) } else { 1 };
            $g.show("times", &times);
            for _ in 0..times {
                h.count(&data);
            }
            for x in &data {
                for b in 0..nb {
                    if st[b] <= *x && *x < st[b + 1] {
                        model[b] += times;
                        inside += 1;
                    }
                }
            }
            ensure!(h.get_counts() == &model, "counts", "{:?}, expected {:?}", h.get_counts(), model);
        }
        // text
        let max_len = $g.us(0, 40);
        h.set_bar_char('#').set_bar_max_len(max_len);
        let scientific = if $g.chance(1, 3) { Some($g.us(0, 5)) } else { None };
        if let Some(k) = scientific {
            h.set_scientific_fmt_precision(k);
            $g.class("scientific");
        }
        let prec = $g.us(0, 3);
        let text = format!("{:.*}", prec, h);
        let total: usize = model.iter().sum();
        if total == 0 {
            ensure!(text == "zero data\n", "display", "{text:?}");
        } else {
            let lines: Vec<&str> = text.lines().collect();
            ensure!(lines.len() == nb + 1, "display", "{} lines", lines.len());
            let mx = *model.iter().max().unwrap();
            for b in 0..nb {
                let l = lines[b];
                let (range, rest) = l.split_once('|').unwrap_or(("", ""));
                let w: Vec<&str> = rest.split_whitespace().collect();
                ensure!(!w.is_empty() && w[0] == model[b].to_string(), "display", "count in {l:?}, expected {}", model[b]);
                let bar = w.get(1).map_or(0, |s| s.chars().filter(|c| *c == '#').count());
                let want = max_len as f64 * model[b] as f64 / mx as f64;
                ensure!((bar as f64) <= want + 1e-6 && (bar as f64) > want - 1.0 - 1e-6, "display", "bar of {bar} characters, expected {want}");
                let r: String = range.chars().filter(|c| !"[)".contains(*c)).collect();
                let ends: Vec<f64> = r.split(',').map(|s| s.trim().parse().unwrap_or(f64::NAN)).collect();
                ensure!(ends.len() == 2, "display", "{l:?}");
                let unit = 0.51 * 10f64.powi(-(prec as i32));
                for e in 0..2 {
                    let s = st[b + e] as f64;
                    let unit = match scientific {
                        Some(k) if s != 0.0 => 0.51 * 10f64.powi(s.abs().log10().floor() as i32 - k as i32),
                        _ => unit,
                    };
                    near("display", "station", ends[e], s, unit + 1e-9 * s.abs())?;
                }
            }
            ensure!(lines[nb].trim() == format!("sum = {total}"), "display", "{:?}", lines[nb]);
        }
        if inside > 0 {
            $g.hit();
        }
    }};
}

fn histogram(g: &mut G) -> R {
    let n = g.us(0, 9);
    if g.bool() {
        let mut v = g.uni(-5.0, 5.0);
        let st: Vec<f64> = (0..n)
            .map(|_| {
                let r = v;
                v += if g.chance(1, 6) { 0.0 } else { g.plog(-2.0, 1.0) };
                r
            })
            .collect();
        let datum = |g: &mut G, st: &Vec<f64>| -> f64 {
            let (a, b) = (st[0], st[st.len() - 1]);
            match g.draw(8) {
                0 => *g.pick(st),
                1 => f64::from_bits(g.pick(st).to_bits().wrapping_add(1)),
                2 => *g.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 0.0]),
                _ => a + (b - a) * g.uni(-0.2, 1.2),
            }
        };
        histogram_of!(g, f64, st, datum);
        g.class("real");
    } else if g.bool() {
        let mut v = g.int(-5, 5) as i32;
        let st: Vec<i32> = (0..n)
            .map(|_| {
                let r = v;
                v += g.int(0, 4) as i32;
                r
            })
            .collect();
        let datum = |g: &mut G, st: &Vec<i32>| -> i32 { g.int(st[0] as i64 - 2, st[st.len() - 1] as i64 + 2) as i32 };
        histogram_of!(g, i32, st, datum);
        g.class("integer");
    } else {
        let mut v = g.int(-1 << 40, 1 << 40);
        let st: Vec<i64> = (0..n)
            .map(|_| {
                let r = v;
                v += g.int(1, 1 << 20);
                r
            })
            .collect();
        let datum = |g: &mut G, st: &Vec<i64>| -> i64 { g.int(st[0] - 2, st[st.len() - 1] + 2) };
        histogram_of!(g, i64, st, datum);
        g.class("integer");
    }
    Ok(())
}

pub fn property() -> Property {
    Property {
        id: "C17",
        assumptions: &[
            "data and quantile levels without NaN (histograms: NaN belongs to no bin); magnitudes up to 1e10",
            "stations in ascending order (repeated stations allowed)",
        ],
        laws: vec![
            Law { name: "statistics", quick: 1_500_000, rule: "two or more data", f: statistics },
            Law { name: "order", quick: 1_000_000, rule: "two or more data", f: order },
            Law { name: "histogram", quick: 1_200_000, rule: "at least one datum fell into a bin", f: histogram },
        ],
    }
}
