unsafe extern "C" {
    fn vp_ref(which: i32, a: f64, b: f64, c: f64) -> f64;
}

/// extended-precision reference value (see ref.cpp for the meaning of `which`)
pub fn reference(which: i32, a: f64, b: f64, c: f64) -> f64 {
    unsafe { vp_ref(which, a, b, c) }
}

unsafe extern "C" {
    fn vp_poly(kind: i32, n: i32, x: f64, out: *mut f64);
    fn frexp(x: f64, e: *mut i32) -> f64;
    fn ldexp(x: f64, e: i32) -> f64;
    fn modf(x: f64, i: *mut f64) -> f64;
    fn fmod(x: f64, y: f64) -> f64;
}

/// value, first and second derivative of T (kind 0), U (1) or P (2) in quadruple precision
pub fn poly_ref(kind: i32, n: usize, x: f64) -> [f64; 3] {
    let mut out = [0.0; 3];
    unsafe { vp_poly(kind, n as i32, x, out.as_mut_ptr()) };
    out
}

pub fn c_frexp(x: f64) -> (f64, i32) {
    let mut e = 0;
    let m = unsafe { frexp(x, &mut e) };
    (m, e)
}
pub fn c_ldexp(x: f64, e: i32) -> f64 {
    unsafe { ldexp(x, e) }
}
pub fn c_modf(x: f64) -> (f64, f64) {
    let mut i = 0.0;
    let f = unsafe { modf(x, &mut i) };
    (i, f)
}
pub fn c_fmod(x: f64, y: f64) -> f64 {
    unsafe { fmod(x, y) }
}
