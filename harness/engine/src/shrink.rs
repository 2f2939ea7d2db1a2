//! Tape shrinking: shortlex-minimal failing tape within a budget

pub fn shortlex_less(a: &[u64], b: &[u64]) -> bool {
    a.len() < b.len() || (a.len() == b.len() && a < b)
}

/// `fails(tape)` returns the (possibly shorter) tape actually consumed if the case still fails
pub fn shrink(start: Vec<u64>, budget: usize, seconds: u64, mut fails: impl FnMut(&[u64]) -> Option<Vec<u64>>) -> (Vec<u64>, usize) {
    let t0 = std::time::Instant::now();
    let mut best = start;
    let mut used = 0usize;
    let mut attempt = |cand: &[u64], best: &mut Vec<u64>, used: &mut usize| -> bool {
        if *used >= budget || t0.elapsed().as_secs() >= seconds {
            return false;
        }
        if !shortlex_less(cand, best) {
            return false;
        }
        *used += 1;
        if let Some(t) = fails(cand) {
            let t = if shortlex_less(&t, cand) || t.len() == cand.len() { t } else { cand.to_vec() };
            if shortlex_less(&t, best) {
                *best = t;
                return true;
            }
        }
        false
    };
    loop {
        let before = best.clone();
        // delete blocks
        for k in [32usize, 16, 8, 4, 2, 1] {
            let mut i = best.len();
            while i >= k {
                i -= 1;
                let s = i + 1 - k;
                if s + k > best.len() {
                    continue;
                }
                let mut c = best.clone();
                c.drain(s..s + k);
                if attempt(&c, &mut best, &mut used) {
                    i = i.min(best.len());
                }
            }
        }
        // zero blocks
        for k in [16usize, 8, 4, 2] {
            let mut i = 0;
            while i + k <= best.len() {
                if best[i..i + k].iter().any(|v| *v != 0) {
                    let mut c = best.clone();
                    for v in &mut c[i..i + k] {
                        *v = 0;
                    }
                    attempt(&c, &mut best, &mut used);
                }
                i += k;
            }
        }
        // lower single values
        let mut i = 0;
        while i < best.len() {
            if best[i] > 0 {
                let mut c = best.clone();
                c[i] = 0;
                if !attempt(&c, &mut best, &mut used) && i < best.len() {
                    let (mut lo, mut hi) = (0u64, best[i]);
                    while lo + 1 < hi {
                        let mid = lo + (hi - lo) / 2;
                        let mut c = best.clone();
                        if i >= c.len() {
                            break;
                        }
                        c[i] = mid;
                        if attempt(&c, &mut best, &mut used) {
                            hi = mid;
                        } else {
                            lo = mid;
                        }
                        if used >= budget {
                            break;
                        }
                    }
                }
            }
            i += 1;
        }
        if best == before || used >= budget || t0.elapsed().as_secs() >= seconds {
            break;
        }
    }
    (best, used)
}
