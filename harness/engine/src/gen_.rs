//! Choice-tape generator: every random decision of a test case is one `u64` on a tape.
//! A case is a pure function of its tape, so failing cases are replayed and shrunk on the tape.

use std::fmt::Debug;

/// splitmix64
#[derive(Clone)]
pub struct Rng(pub u64);

impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
}

/// FNV-1a followed by a splitmix finalizer
pub fn hash_bytes(seed: u64, bytes: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64 ^ seed.wrapping_mul(0x9E3779B97F4A7C15);
    for b in bytes {
        h ^= *b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    Rng(h).next()
}

/// What went wrong in a case
#[derive(Clone, Debug)]
pub enum Stop {
    /// The generated input does not satisfy the law's precondition
    Discard,
    /// The law is violated; `key` names the failing call site (used for known findings)
    Fail { key: String, msg: String },
}

pub type R = Result<(), Stop>;

pub enum Source {
    Random(Rng),
    Tape(Vec<u64>),
}

/// Generator handed to a law
pub struct G {
    src: Source,
    pos: usize,
    pub tape: Vec<u64>,
    pub verbose: bool,
    pub notes: Vec<(String, String)>,
    pub classes: Vec<&'static str>,
    pub nontrivial: bool,
    pub tape_file: Option<std::fs::File>,
    pub scratch: std::path::PathBuf,
}

impl G {
    pub fn new(src: Source, verbose: bool) -> Self {
        G {
            src,
            pos: 0,
            tape: Vec::new(),
            verbose,
            notes: Vec::new(),
            classes: Vec::new(),
            nontrivial: false,
            tape_file: None,
            scratch: std::path::PathBuf::from("/nonexistent"),
        }
    }

    /// Uniform draw in 0..n (n == 0 means all of u64). Zero is the simplest value.
    pub fn draw(&mut self, n: u64) -> u64 {
        let v = match &mut self.src {
            Source::Random(rng) => {
                let r = rng.next();
                if n == 0 { r } else { ((r as u128 * n as u128) >> 64) as u64 }
            }
            Source::Tape(t) => {
                let r = if self.pos < t.len() { t[self.pos] } else { 0 };
                if n == 0 { r } else { r.min(n - 1) }
            }
        };
        self.pos += 1;
        self.tape.push(v);
        if let Some(f) = &mut self.tape_file {
            use std::io::Write;
            let _ = writeln!(f, "{}", v);
        }
        v
    }

    // integers ---------------------------------------------------------------

    /// lo..=hi, rarely lo..=large
    pub fn rare(&mut self, lo: usize, hi: usize, large: usize) -> usize {
        let top = if self.chance(1, 60) { large } else { hi };
        self.us(lo, top)
    }

    /// Integer in lo..=hi, `lo` is simplest
    pub fn us(&mut self, lo: usize, hi: usize) -> usize {
        assert!(hi >= lo);
        lo + self.draw((hi - lo) as u64 + 1) as usize
    }

    /// Integer in lo..=hi; `near` (clamped) is simplest
    pub fn int(&mut self, lo: i64, hi: i64) -> i64 {
        assert!(hi >= lo);
        let base = if lo > 0 {
            lo
        } else if hi < 0 {
            hi
        } else {
            0
        };
        let n = (hi as i128 - lo as i128 + 1) as u64;
        let k = self.draw(n) as i128;
        // zig-zag around base while inside, then the remaining side
        let up = hi as i128 - base as i128;
        let dn = base as i128 - lo as i128;
        let m = up.min(dn);
        let v = if k <= 2 * m {
            if k == 0 {
                base as i128
            } else if k % 2 == 1 {
                base as i128 + (k + 1) / 2
            } else {
                base as i128 - k / 2
            }
        } else if up > dn {
            base as i128 + (k - m)
        } else {
            base as i128 - (k - m)
        };
        v as i64
    }

    /// Size skewed to small values: in lo..=hi
    pub fn size(&mut self, lo: usize, hi: usize) -> usize {
        let mode = self.draw(4);
        let span = hi - lo;
        let h = match mode {
            0 => lo + span.min(3),
            1 => lo + span.min(9),
            _ => hi,
        };
        self.us(lo, h)
    }

    pub fn bool(&mut self) -> bool {
        self.draw(2) == 1
    }

    /// True with probability num/den
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        // true must not be the simplest
        self.draw(den) >= den - num
    }

    pub fn pick<'a, T>(&mut self, items: &'a [T]) -> &'a T {
        let i = self.draw(items.len() as u64) as usize;
        &items[i]
    }

    pub fn perm(&mut self, n: usize) -> Vec<usize> {
        let mut p: Vec<usize> = (0..n).collect();
        for i in 0..n {
            let j = self.us(i, n - 1);
            p.swap(i, j);
        }
        p
    }

    // floats -----------------------------------------------------------------

    /// Uniform in [0,1)
    pub fn unit(&mut self) -> f64 {
        self.draw(1 << 53) as f64 / (1u64 << 53) as f64
    }

    /// Continuous uniform in [lo,hi]
    pub fn uni(&mut self, lo: f64, hi: f64) -> f64 {
        let u = self.unit();
        (lo + u * (hi - lo)).clamp(lo, hi)
    }

    /// Value in [lo,hi]: a mix of integers/quarters and continuous values
    pub fn f(&mut self, lo: f64, hi: f64) -> f64 {
        let kind = self.draw(8);
        if kind == 0 || kind == 1 {
            let s = if kind == 0 { 1.0 } else { 4.0 };
            let a = f64::ceil(lo * s);
            let b = f64::floor(hi * s);
            if a <= b && b - a < 1e9 {
                return self.int(a as i64, b as i64) as f64 / s;
            }
        }
        self.uni(lo, hi)
    }

    /// Signed log-uniform magnitude 10^e, e in [elo, ehi]
    pub fn flog(&mut self, elo: f64, ehi: f64) -> f64 {
        let s = if self.bool() { -1.0 } else { 1.0 };
        s * self.plog(elo, ehi)
    }

    /// Positive log-uniform
    pub fn plog(&mut self, elo: f64, ehi: f64) -> f64 {
        f64::powf(10.0, self.uni(elo, ehi))
    }

    /// Generic entry: zero, small integers, uniform in [-10,10], log-uniform
    pub fn entry(&mut self) -> f64 {
        match self.draw(8) {
            0 => 0.0,
            1 | 2 => self.int(-5, 5) as f64,
            3..=6 => self.uni(-10.0, 10.0),
            _ => self.flog(-6.0, 6.0),
        }
    }

    /// Any finite or special f64
    pub fn any_f64(&mut self) -> f64 {
        match self.draw(10) {
            0 => self.int(-20, 20) as f64,
            1 => self.int(-40, 40) as f64 * 0.5,
            2 | 3 => self.uni(-10.0, 10.0),
            4 | 5 => self.flog(-18.0, 18.0),
            6 => self.flog(-307.0, 308.0),
            7 => *self.pick(&[
                0.0,
                -0.0,
                1.0,
                -1.0,
                f64::MIN_POSITIVE,
                5e-324,
                f64::MAX,
                f64::MIN,
                f64::EPSILON,
            ]),
            8 => *self.pick(&[f64::INFINITY, f64::NEG_INFINITY, f64::NAN]),
            _ => f64::from_bits(self.draw(0)),
        }
    }

    pub fn vec_f(&mut self, n: usize, lo: f64, hi: f64) -> Vec<f64> {
        (0..n).map(|_| self.f(lo, hi)).collect()
    }

    pub fn vec_entry(&mut self, n: usize) -> Vec<f64> {
        (0..n).map(|_| self.entry()).collect()
    }

    // bookkeeping ------------------------------------------------------------

    /// Describes an input (formatted only when the case is being reported)
    pub fn show(&mut self, name: &str, value: &dyn Debug) {
        if self.verbose {
            let mut s = format!("{:?}", value);
            if s.len() > 4000 {
                let mut k = 4000;
                while !s.is_char_boundary(k) {
                    k -= 1;
                }
                s.truncate(k);
                s.push_str("…");
            }
            self.notes.push((name.to_string(), s));
        }
    }

    /// Counts the case in a class
    pub fn class(&mut self, c: &'static str) {
        if !self.classes.contains(&c) {
            self.classes.push(c);
        }
    }

    /// Marks the case as non-trivial under the law's rule
    pub fn hit(&mut self) {
        self.nontrivial = true;
    }
}

// checks -----------------------------------------------------------------------

pub fn fail<T>(key: &str, msg: String) -> Result<T, Stop> {
    Err(Stop::Fail {
        key: key.to_string(),
        msg,
    })
}

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $key:expr, $($arg:tt)+) => {
        if !($cond) {
            return Err($crate::Stop::Fail { key: $key.to_string(), msg: format!($($arg)+) });
        }
    };
}

#[macro_export]
macro_rules! discard {
    () => {
        return Err($crate::Stop::Discard)
    };
}

/// |a-b| ≤ tol (NaN fails)
pub fn near(key: &str, what: &str, a: f64, b: f64, tol: f64) -> R {
    if a == b {
        return Ok(());
    }
    let d = (a - b).abs();
    if d <= tol {
        Ok(())
    } else {
        fail(key, format!("{}: got {:?}, expected {:?} (|diff| = {:e} > tol = {:e})", what, a, b, d, tol))
    }
}

/// Equal including NaN==NaN, infinities and within relative tolerance
pub fn same_rel(key: &str, what: &str, a: f64, b: f64, rel: f64, abs: f64) -> R {
    if a == b || (a.is_nan() && b.is_nan()) {
        return Ok(());
    }
    let d = (a - b).abs();
    if d.is_finite() && d <= abs + rel * b.abs().max(a.abs()) {
        Ok(())
    } else {
        fail(key, format!("{}: got {:?}, expected {:?} (|diff| = {:e})", what, a, b, d))
    }
}

/// Unwraps a result that must be Ok on valid input
pub fn must<T, E: Debug>(key: &str, what: &str, r: Result<T, E>) -> Result<T, Stop> {
    match r {
        Ok(v) => Ok(v),
        Err(e) => fail(key, format!("{}: unexpected error {:?}", what, e)),
    }
}

/// Requires an error
pub fn must_err<T, E>(key: &str, what: &str, r: Result<T, E>) -> Result<(), Stop> {
    match r {
        Ok(_) => fail(key, format!("{}: an error was expected but the call succeeded", what)),
        Err(_) => Ok(()),
    }
}
