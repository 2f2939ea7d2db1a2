//! Systems with known solution curves.
use russell_lab::{Norm, Vector};
use russell_nonlin::*;
use russell_sparse::{CooMatrix, LinSolParams, Sym};
use vp_engine::*;

/// smooth function of one variable
#[derive(Clone, Copy, Debug)]
pub struct Fun {
    pub c: [f64; 4],
    pub k: f64,
    pub z: f64,
    pub a: f64,
    /// straight up to this station, cubic afterwards
    pub s: f64,
    pub b: f64,
}

impl Fun {
    pub fn v(&self, x: f64) -> f64 {
        let t = (x - self.s).max(0.0);
        self.c[0] + x * (self.c[1] + x * (self.c[2] + x * self.c[3])) + self.a * (self.k * x + self.z).sin() + self.b * t * t * t
    }
    pub fn d(&self, x: f64) -> f64 {
        let t = (x - self.s).max(0.0);
        self.c[1] + x * (2.0 * self.c[2] + x * 3.0 * self.c[3]) + self.a * self.k * (self.k * x + self.z).cos() + 3.0 * self.b * t * t
    }
    pub fn d2(&self, x: f64) -> f64 {
        let t = (x - self.s).max(0.0);
        2.0 * self.c[2] + 6.0 * x * self.c[3] - self.a * self.k * self.k * (self.k * x + self.z).sin() + 6.0 * self.b * t
    }
}

pub fn wavy(g: &mut G) -> Fun {
    let mut f = Fun { c: [g.f(-2.0, 2.0), g.f(-2.0, 2.0), 0.0, 0.0], k: 1.0, z: 0.0, a: 0.0, s: 0.0, b: 0.0 };
    match g.us(0, 3) {
        0 => {
            f.k = g.f(0.2, 2.0);
            f.z = g.f(-3.0, 3.0);
            f.a = g.f(-1.0, 1.0);
        }
        1 => f.c[2] = g.f(-0.5, 0.5),
        2 => {
            f.s = g.f(-1.0, 2.0);
            f.b = g.f(-0.3, 0.3);
        }
        _ => (),
    }
    f
}

/// what happened during a run
#[derive(Clone, Debug, PartialEq)]
pub enum Ev {
    F(f64, Vec<f64>),
    J(f64, Vec<f64>),
    Backup,
    Restore,
    Prepare,
    /// do_backup, u0, u1, l0, l1
    Update(bool, Vec<f64>, Vec<f64>, f64, f64),
    /// steps, accepted, rejected, h, l, u
    Out(usize, usize, usize, f64, f64, Vec<f64>),
}

pub const FAULT: &str = "the requested fault";
pub const FUEL: &str = "out of fuel";

#[derive(Clone, Debug, Default)]
pub struct Log {
    pub ev: Vec<Ev>,
    pub fuel: usize,
    /// kind and call number of a fault: 0 function, 1 Jacobian, 2 output, 3 update fails, 4 update terminates, 5 output stops, 6 function gives NaN
    pub fault: Option<(usize, usize)>,
    /// further failing calls after the first one
    pub again: usize,
    pub count: [usize; 7],
    pub state: usize,
    pub saved: usize,
    /// announced step size differs from the one in the statistics
    pub bad: Option<(f64, f64)>,
}

impl Log {
    pub fn new() -> Log {
        Log { fuel: 60000, ..Default::default() }
    }
    pub fn hit(&mut self, kind: usize) -> bool {
        let n = self.count[kind];
        self.count[kind] += 1;
        match self.fault {
            Some((k, m)) => k == kind && n >= m && n <= m + self.again,
            None => false,
        }
    }
}

/// system with one solution curve
#[derive(Clone, Debug)]
pub struct Curve {
    pub n: usize,
    /// None: all u are functions of the parameter; Some(q): the parameter and all other u are functions of u[q]
    pub q: Option<usize>,
    pub f: Vec<Fun>,
    pub p: Fun,
    /// strength of the nonlinearity
    pub cub: Vec<f64>,
    /// mixing matrix
    pub a: Vec<Vec<f64>>,
    pub sym: Sym,
    pub hooks: bool,
}

impl Curve {
    /// point of the curve
    pub fn at(&self, w: f64) -> (Vec<f64>, f64) {
        let mut u: Vec<f64> = self.f.iter().map(|f| f.v(w)).collect();
        match self.q {
            None => (u, w),
            Some(q) => {
                u[q] = w;
                (u, self.p.v(w))
            }
        }
    }
    /// curve coordinate of a state
    pub fn coord(&self, u: &[f64], l: f64) -> f64 {
        match self.q {
            None => l,
            Some(q) => u[q],
        }
    }
    /// derivative of the state with respect to the curve coordinate
    pub fn deriv(&self, w: f64) -> (Vec<f64>, f64) {
        let mut d: Vec<f64> = self.f.iter().map(|f| f.d(w)).collect();
        match self.q {
            None => (d, 1.0),
            Some(q) => {
                d[q] = 1.0;
                (d, self.p.d(w))
            }
        }
    }
    /// largest curvature near a station
    pub fn bend(&self, w: f64) -> f64 {
        let mut b: f64 = 0.0;
        for f in self.f.iter().chain([self.p].iter()) {
            b = b.max(f.d2(w).abs());
        }
        b
    }
    fn h(&self, u: &[f64], l: f64) -> Vec<f64> {
        match self.q {
            None => (0..self.n).map(|j| u[j] - self.f[j].v(l)).collect(),
            Some(q) => (0..self.n).map(|j| if j == q { l - self.p.v(u[q]) } else { u[j] - self.f[j].v(u[q]) }).collect(),
        }
    }
    pub fn residual(&self, u: &[f64], l: f64) -> Vec<f64> {
        let h = self.h(u, l);
        (0..self.n).map(|i| (0..self.n).map(|j| self.a[i][j] * (h[j] + self.cub[j] * h[j] * h[j] * h[j])).sum()).collect()
    }
    /// Gu and Gλ
    pub fn jacobian(&self, u: &[f64], l: f64) -> (Vec<Vec<f64>>, Vec<f64>) {
        let h = self.h(u, l);
        let n = self.n;
        let mut hu = vec![vec![0.0; n]; n];
        let mut hl = vec![0.0; n];
        for j in 0..n {
            match self.q {
                None => {
                    hu[j][j] = 1.0;
                    hl[j] = -self.f[j].d(l);
                }
                Some(q) if j == q => {
                    hu[j][q] = -self.p.d(u[q]);
                    hl[j] = 1.0;
                }
                Some(q) => {
                    hu[j][j] = 1.0;
                    hu[j][q] = -self.f[j].d(u[q]);
                }
            }
        }
        let mut gu = vec![vec![0.0; n]; n];
        let mut gl = vec![0.0; n];
        for i in 0..n {
            for j in 0..n {
                let w = self.a[i][j] * (1.0 + 3.0 * self.cub[j] * h[j] * h[j]);
                for k in 0..n {
                    gu[i][k] += w * hu[j][k];
                }
                gl[i] += w * hl[j];
            }
        }
        (gu, gl)
    }
    /// entries that may be different from zero
    fn pattern(&self) -> Vec<(usize, usize)> {
        let mut v = Vec::new();
        for i in 0..self.n {
            for k in 0..self.n {
                let linked = (0..self.n).any(|j| self.a[i][j] != 0.0 && (j == k || self.q == Some(k)));
                if linked {
                    v.push((i, k));
                }
            }
        }
        v
    }
    pub fn system<'a>(&self) -> System<'a, Log> {
        let c = self.clone();
        let d = self.clone();
        let pat = self.pattern();
        let nnz = if pat.len() == self.n * self.n { None } else { Some(pat.len()) };
        let mut s = System::new(
            self.n,
            nnz,
            self.sym,
            move |gg: &mut Vector, l: f64, u: &Vector, log: &mut Log| {
                log.ev.push(Ev::F(l, u.as_data().to_vec()));
                if log.fuel == 0 {
                    return Err(FUEL);
                }
                log.fuel -= 1;
                if log.hit(0) {
                    return Err(FAULT);
                }
                let r = c.residual(u.as_data(), l);
                for i in 0..c.n {
                    gg[i] = r[i];
                }
                if log.hit(6) {
                    gg[c.n - 1] = f64::NAN;
                }
                Ok(())
            },
            move |ggu: &mut CooMatrix, ggl: &mut Vector, l: f64, u: &Vector, log: &mut Log| {
                log.ev.push(Ev::J(l, u.as_data().to_vec()));
                if log.hit(1) {
                    return Err(FAULT);
                }
                let (gu, gl) = d.jacobian(u.as_data(), l);
                for (i, k) in &pat {
                    ggu.put(*i, *k, gu[*i][*k])?;
                }
                for i in 0..d.n {
                    ggl[i] = gl[i];
                }
                Ok(())
            },
        )
        .unwrap();
        if self.hooks {
            s.set_backup_secondary_state(|log: &mut Log| {
                log.saved = log.state;
                log.ev.push(Ev::Backup);
            });
            s.set_restore_secondary_state(|log: &mut Log| {
                log.state = log.saved;
                log.ev.push(Ev::Restore);
            });
            s.set_prepare_to_iterate(|log: &mut Log| log.ev.push(Ev::Prepare));
            s.set_update_secondary_state(|b, u0, u1, l0, l1, log: &mut Log| {
                log.state += 1;
                log.ev.push(Ev::Update(b, u0.as_data().to_vec(), u1.as_data().to_vec(), l0, l1));
                if log.hit(3) {
                    return Err(FAULT);
                }
                Ok(log.hit(4))
            });
        }
        s
    }
}

pub fn output<'a>(n: usize) -> Output<'a, Log> {
    let mut out = Output::new();
    let all: Vec<usize> = (0..n).collect();
    out.set_recording(true, &all, &all);
    out.set_record_norm_u(true, Norm::Euc, n / 2, n);
    out.set_callback(|st: &Stats, u: &Vector, l: f64, h: f64, log: &mut Log| {
        if st.n_accepted > 0 && st.h_accepted != h {
            log.bad = Some((st.h_accepted, h));
        }
        log.ev.push(Ev::Out(st.n_steps, st.n_accepted, st.n_rejected, h, l, u.as_data().to_vec()));
        if log.hit(2) {
            return Err(FAULT);
        }
        Ok(log.hit(5))
    });
    out
}

/// `fold`: the parameter is a function of a component
pub fn curve(g: &mut G, fold: bool, symmetric: bool) -> Curve {
    let n = if g.chance(1, 60) { g.us(1, 25) } else { g.size(1, 5) };
    let q = if fold { Some(g.us(0, n - 1)) } else { None };
    let f: Vec<Fun> = (0..n).map(|_| wavy(g)).collect();
    let mut p = wavy(g);
    if fold {
        match g.us(0, 3) {
            0 => {
                // repeated folds
                p.k = g.f(0.5, 2.0);
                p.z = g.f(-3.0, 3.0);
                p.a = g.f(0.5, 2.0) / p.k;
                p.c = [g.f(-1.0, 1.0), g.f(-0.5, 0.5), 0.0, 0.0];
                p.b = 0.0;
            }
            1 => {
                // one fold
                p = Fun { c: [g.f(-1.0, 1.0), g.f(-1.0, 1.0), g.f(0.2, 0.8) * if g.bool() { 1.0 } else { -1.0 }, 0.0], k: 1.0, z: 0.0, a: 0.0, s: 0.0, b: 0.0 };
            }
            2 => {
                // two folds
                let s = if g.bool() { 1.0 } else { -1.0 };
                p = Fun { c: [g.f(-1.0, 1.0), -s * g.f(0.3, 1.5), 0.0, s * g.f(0.1, 0.5)], k: 1.0, z: 0.0, a: 0.0, s: 0.0, b: 0.0 };
            }
            // no vertical segments
            _ => p.c[1] += if p.c[1] < 0.0 { -0.1 } else { 0.1 },
        }
    }
    let linear = symmetric || g.bool();
    let cub: Vec<f64> = (0..n).map(|_| if linear { 0.0 } else { g.f(0.0, 1.0) }).collect();
    let kind = g.us(0, 2);
    let mut a = vec![vec![0.0; n]; n];
    for i in 0..n {
        for j in 0..n {
            if kind == 2 || (kind == 1 && i.abs_diff(j) == 1) {
                a[i][j] = g.f(-1.0, 1.0) / n as f64;
            }
        }
        a[i][i] = if g.bool() { 1.0 } else { -1.0 } * g.f(1.0, 3.0);
    }
    if symmetric {
        for i in 0..n {
            for j in 0..i {
                a[i][j] = a[j][i];
            }
        }
    }
    Curve { n, q, f, p, cub, a, sym: if symmetric && !fold { Sym::YesFull } else { Sym::No }, hooks: false }
}

pub fn config(g: &mut G, method: Method) -> Config {
    let mut c = Config::new();
    c.set_method(method).set_verbose_header_footer(false);
    if g.bool() {
        c.set_bordering(false);
    }
    if g.chance(1, 3) {
        c.set_euler_predictor(false);
    }
    if g.bool() {
        let ta = *g.pick(&[1e-8, 1e-10, 1e-12]);
        c.set_tol_abs_residual(ta);
        let t = *g.pick(&[1e-6, 1e-8, 1e-10]);
        c.set_tol_delta(t * 0.01, t);
    }
    if g.chance(1, 4) {
        c.set_disable_rel_delta_analysis(true);
    }
    if g.chance(1, 3) {
        c.set_nr_control_enabled(true);
        c.set_nr_control_n_opt(g.us(2, 5));
        c.set_nr_control_beta(g.f(0.2, 1.0));
    }
    if g.chance(1, 6) {
        c.set_tg_control_enabled(false);
    } else if g.bool() {
        c.set_tg_control_tol(g.f(0.05, 0.5));
        if g.bool() {
            c.set_tg_control_rdiff_type(RdiffType::Max);
        }
        if g.bool() {
            c.set_tg_control_pid_vcc(false);
            let b = g.f(2.0, 8.0);
            let class = *g.pick(&[
                SoderlindClass::Ho211,
                SoderlindClass::H211b(b),
                SoderlindClass::H211PI,
                SoderlindClass::Ho312,
                SoderlindClass::H312b(b),
                SoderlindClass::H312PID,
                SoderlindClass::Ho321,
                SoderlindClass::H321,
            ]);
            c.set_tg_control_soderlind(class);
        }
    }
    if g.chance(1, 4) {
        c.set_m_failure(g.f(0.1, 0.8));
    }
    if g.chance(1, 4) {
        c.set_lin_sol_config(Some(LinSolParams::new()));
    }
    if g.chance(1, 4) {
        c.set_debug_predictor(true);
    }
    if g.chance(1, 4) {
        c.set_record_iterations_residuals(true);
    }
    c
}

pub struct Run {
    pub status: Result<Status, String>,
    pub u: Vec<f64>,
    pub l: f64,
    pub log: Log,
    pub stats: Stats,
    /// λ, h, tangent
    pub lam: Vec<f64>,
    pub h: Vec<f64>,
    pub norm: Vec<f64>,
    pub uu: Vec<Vec<f64>>,
    pub duds: Vec<Vec<f64>>,
    pub dlds: Vec<f64>,
    pub guess: (Vec<f64>, Vec<f64>, Vec<f64>),
}

impl Run {
    /// states given to the output function: steps, accepted, rejected, h, l, u
    pub fn outs(&self) -> Vec<(usize, usize, usize, f64, f64, Vec<f64>)> {
        self.log
            .ev
            .iter()
            .filter_map(|e| match e {
                Ev::Out(a, b, c, h, l, u) => Some((*a, *b, *c, *h, *l, u.clone())),
                _ => None,
            })
            .collect()
    }
}

pub fn solve<'a>(key: &'static str, s: &mut Solver<'a, Log>, mut log: Log, u0: &[f64], l0: f64, dir: IniDir, stop: russell_nonlin::Stop, ddl: &DeltaLambda, n: usize) -> Result<Run, Stop2> {
    let mut u = Vector::from(&u0.to_vec());
    let mut l = l0;
    let mut out = output(n);
    let r = catch(|| s.solve(&mut log, &mut u, &mut l, dir, stop, ddl, Some(&mut out)));
    let status = match r {
        Ok(r) => r.map_err(|e| e.to_string()),
        Err((m, p)) => return fail(key, format!("panic: {} at {}", m, p)),
    };
    if let Some(b) = log.bad {
        return fail("announced", format!("the statistics say that the next step is {}, the output function got {}", b.0, b.1));
    }
    if status == Err(FUEL.to_string()) {
        return fail("fuel", "the run does not end".to_string());
    }
    Ok(Run {
        status,
        u: u.as_data().to_vec(),
        l,
        log,
        stats: s.get_stats().clone(),
        lam: out.get_l_values().clone(),
        h: out.get_h_values().clone(),
        norm: out.get_norm_u_values().clone(),
        uu: (0..n).map(|m| out.get_u_values(m).clone()).collect(),
        duds: (0..n).map(|m| out.get_duds_values(m).clone()).collect(),
        dlds: out.get_dlds_values().clone(),
        guess: s.get_debug_predictor_values(),
    })
}

pub type Stop2 = vp_engine::Stop;

/// error of a state: distance to the point of the curve with the same coordinate
pub fn off(c: &Curve, u: &[f64], l: f64) -> f64 {
    let (v, m) = c.at(c.coord(u, l));
    let mut d = (l - m).abs();
    for i in 0..c.n {
        d = d.max((u[i] - v[i]).abs());
    }
    d
}

/// allowed error of a state
pub fn allowed(c: &Curve, cfg: &Config, u: &[f64], l: f64) -> f64 {
    let size = u.iter().fold(l.abs(), |a, b| a.max(b.abs()));
    let del = if cfg.get_disable_rel_delta_analysis() { 0.0 } else { cfg.get_tol_abs_delta() + cfg.get_tol_rel_delta() * (size + 1.0) };
    // slope of the curve relates errors in coordinates to the distance
    let (d, m) = c.deriv(c.coord(u, l));
    let slope = d.iter().fold(m.abs(), |a, b| a.max(b.abs()));
    10.0 * (1.0 + slope) * ((c.n as f64 + 1.0).sqrt() * del + 2.0 * cfg.get_tol_abs_residual())
}

/// true tangent with the given orientation of the parameter
pub fn tangent(c: &Curve, w: f64) -> (Vec<f64>, f64) {
    let (mut d, mut m) = c.deriv(w);
    let s = d.iter().fold(m * m, |a, b| a + b * b).sqrt();
    d.iter_mut().for_each(|x| *x /= s);
    m /= s;
    (d, m)
}

/// settings that differ from the default ones
pub fn settings(g: &mut G, cfg: &Config) {
    let split = |c: &Config| -> Vec<String> { format!("{:?}", c).split(", ").map(|x| x.to_string()).collect() };
    let (a, b) = (split(cfg), split(&Config::new()));
    let d: Vec<String> = a.into_iter().filter(|x| !b.contains(x)).collect();
    g.show("settings", &d);
}
