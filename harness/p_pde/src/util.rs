//! Manufactured fields and boundary conditions.
use russell_pde::*;
use vp_engine::*;

/// polynomial plus waves, in one or two variables
#[derive(Clone, Debug)]
pub struct Field {
    /// coefficients of ((x-x0)/lx)^i ((y-y0)/ly)^j
    pub c: Vec<Vec<f64>>,
    pub o: [f64; 2],
    pub l: [f64; 2],
    /// amplitude, wave numbers (relative to the lengths), phase
    pub w: Vec<(f64, f64, f64, f64)>,
}

fn pw(x: f64, i: usize, d: usize) -> f64 {
    if d > i {
        return 0.0;
    }
    let mut f = 1.0;
    for k in 0..d {
        f *= (i - k) as f64;
    }
    f * x.powi((i - d) as i32)
}

impl Field {
    /// derivative of order (a,b) at (x,y)
    pub fn d(&self, a: usize, b: usize, x: f64, y: f64) -> f64 {
        let (u, v) = ((x - self.o[0]) / self.l[0], (y - self.o[1]) / self.l[1]);
        let mut s = 0.0;
        for (i, row) in self.c.iter().enumerate() {
            for (j, c) in row.iter().enumerate() {
                if *c != 0.0 {
                    s += c * pw(u, i, a) * pw(v, j, b);
                }
            }
        }
        for (amp, p, q, z) in &self.w {
            let arg = p * u + q * v + z + (a + b) as f64 * std::f64::consts::FRAC_PI_2;
            s += amp * p.powi(a as i32) * q.powi(b as i32) * arg.sin();
        }
        s / self.l[0].powi(a as i32) / self.l[1].powi(b as i32)
    }
    pub fn v(&self, x: f64, y: f64) -> f64 {
        self.d(0, 0, x, y)
    }
    /// minus k laplacian plus alpha times the field
    pub fn source(&self, kx: f64, ky: f64, alpha: f64, x: f64, y: f64) -> f64 {
        -kx * self.d(2, 0, x, y) - ky * self.d(0, 2, x, y) + alpha * self.v(x, y)
    }
    /// outgoing flux through a side of a rectangle
    pub fn flux(&self, side: usize, kx: f64, ky: f64, x: f64, y: f64) -> f64 {
        match side {
            0 => kx * self.d(1, 0, x, y),
            1 => -kx * self.d(1, 0, x, y),
            2 => ky * self.d(0, 1, x, y),
            _ => -ky * self.d(0, 1, x, y),
        }
    }
    /// magnitude of the field on its box (a bound)
    pub fn size(&self) -> f64 {
        let mut s = 0.0;
        for row in &self.c {
            for c in row {
                s += c.abs();
            }
        }
        for w in &self.w {
            s += w.0.abs();
        }
        s
    }
}

/// the rectangle [x0,x0+lx] x [y0,y0+ly]
pub fn polynomial(g: &mut G, o: [f64; 2], l: [f64; 2], px: usize, py: usize) -> Field {
    let mut c = vec![vec![0.0; py + 1]; px + 1];
    for row in c.iter_mut() {
        for v in row.iter_mut() {
            if g.chance(3, 4) {
                *v = g.f(-2.0, 2.0);
            }
        }
    }
    Field { c, o, l, w: vec![] }
}

pub fn waves(g: &mut G, o: [f64; 2], l: [f64; 2], top: f64, dims: usize) -> Field {
    let n = g.us(1, 2);
    let w = (0..n)
        .map(|_| {
            let q = if dims == 2 { g.f(-top, top) } else { 0.0 };
            (g.f(-2.0, 2.0), g.f(0.3, top), q, g.f(0.0, 3.0))
        })
        .collect();
    Field { c: vec![vec![g.f(-1.0, 1.0)]], o, l, w }
}

/// some function without any relation to a solution
pub fn any_field(g: &mut G, o: [f64; 2], l: [f64; 2], dims: usize) -> Field {
    let p = g.us(0, 2);
    let mut f = polynomial(g, o, l, p, if dims == 2 { p } else { 0 });
    f.w = waves(g, o, l, 5.0, dims).w;
    f
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Kind {
    E,
    N,
    P,
}

pub fn kinds(g: &mut G, dims: usize, periodic: bool) -> Vec<Kind> {
    let mut k = Vec::new();
    for _ in 0..dims {
        if periodic && g.chance(1, 4) {
            k.push(Kind::P);
            k.push(Kind::P);
        } else {
            k.push(if g.chance(3, 5) { Kind::E } else { Kind::N });
            k.push(if g.chance(3, 5) { Kind::E } else { Kind::N });
        }
    }
    k
}

pub fn side(i: usize) -> Side {
    Side::from_index(i)
}

/// boundary conditions in one dimension: values e, outgoing fluxes q
pub fn bcs1(g: &mut G, k: &[Kind], e: &[Field], q: impl Fn(usize, f64) -> f64 + Clone + Send + Sync + 'static) -> (EssentialBcs1d<'static>, NaturalBcs1d<'static>) {
    let mut eb = EssentialBcs1d::new();
    let mut nb = NaturalBcs1d::new();
    if k[0] == Kind::P {
        eb.set_periodic(true);
        return (eb, nb);
    }
    for s in g.perm(2) {
        match k[s] {
            Kind::E => {
                let f = e[s].clone();
                eb.set(side(s), move |x| f.v(x, 0.0));
            }
            _ => {
                let q = q.clone();
                nb.set(side(s), move |x| q(s, x));
            }
        }
    }
    (eb, nb)
}

pub fn bcs2(g: &mut G, k: &[Kind], e: &[Field], q: impl Fn(usize, f64, f64) -> f64 + Clone + Send + Sync + 'static) -> (EssentialBcs2d<'static>, NaturalBcs2d<'static>) {
    let mut eb = EssentialBcs2d::new();
    let mut nb = NaturalBcs2d::new();
    let (px, py) = (k[0] == Kind::P, k[2] == Kind::P);
    let first = g.bool();
    if first && (px || py) {
        eb.set_periodic(px, py);
    }
    for s in g.perm(4) {
        match k[s] {
            Kind::E => {
                let f = e[s].clone();
                eb.set(side(s), move |x, y| f.v(x, y));
            }
            Kind::N => {
                let q = q.clone();
                nb.set(side(s), move |x, y| q(s, x, y));
            }
            Kind::P => (),
        }
    }
    if !first && (px || py) {
        eb.set_periodic(px, py);
    }
    (eb, nb)
}

/// coefficient of the zero-order term, positive whenever it is needed
pub fn alpha(g: &mut G, scale: f64, needed: bool) -> f64 {
    if needed || g.bool() { scale * g.plog(-1.0, 1.0) } else { 0.0 }
}
