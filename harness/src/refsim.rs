//! Reference simulator, written from the documentation, independent of the implementation's code. All values carry
//! rounding error bounds. `None` means that a branch cannot be decided within the error bounds or that the state is not
//! physical at some point where it must be.
use crate::cfg::*;
use crate::num::*;

pub type F = Vec<Vec<Ev>>; // [equation][cell]

pub fn exact(a: &ndarray::Array2<f64>) -> F {
    a.rows().into_iter().map(|r| r.iter().map(|x| ev(*x)).collect()).collect()
}
pub struct Ref {
    pub c: C,
    /// isothermal sound speed per cell
    pub cs: Vec<f64>,
}

pub fn xi_cent(c: &C, i: usize) -> Ev {
    let dx = (ev(c.xi.1) - ev(c.xi.0)) / ev((c.s - 4) as f64);
    ev(c.xi.0) + dx * ev(i as f64 - 1.5)
}

/// Flow field at one place
#[derive(Clone, Debug)]
pub struct Pt {
    pub cons: Vec<Ev>,
    pub flux: Vec<Ev>,
    pub emin: Ev,
    pub emax: Ev,
}

impl Ref {
    pub fn new(c: &C, cs: f64) -> Ref {
        Ref { c: c.clone(), cs: vec![cs; c.s] }
    }
    fn g(&self) -> f64 {
        self.c.gamma
    }
    pub fn to_prim1(&self, cons: &[Ev]) -> Vec<Ev> {
        let v = cons[1] / cons[0];
        match self.c.ph {
            Ph::Iso => vec![cons[0], v],
            Ph::Adi => vec![
                cons[0],
                v,
                (ev(self.g()) - ev(1.0)) * (cons[2] - ev(0.5) * cons[1] * cons[1] / cons[0]),
            ],
        }
    }
    pub fn to_cons1(&self, p: &[Ev]) -> Vec<Ev> {
        match self.c.ph {
            Ph::Iso => vec![p[0], p[0] * p[1]],
            Ph::Adi => {
                vec![p[0], p[0] * p[1], p[2] / (ev(self.g()) - ev(1.0)) + ev(0.5) * p[0] * p[1] * p[1]]
            }
        }
    }
    pub fn cs1(&self, p: &[Ev], i: usize) -> Ev {
        match self.c.ph {
            Ph::Iso => ev(self.cs[i]),
            Ph::Adi => (ev(self.g()) * p[2] / p[0]).sqrt(),
        }
    }
    pub fn flux1(&self, p: &[Ev], cons: &[Ev], cs: Ev) -> Vec<Ev> {
        match self.c.ph {
            Ph::Iso => vec![cons[1], p[0] * p[1] * p[1] + p[0] * cs * cs],
            Ph::Adi => vec![cons[1], cons[1] * p[1] + p[2], (cons[2] + p[2]) * p[1]],
        }
    }
    pub fn pt(&self, p: &[Ev], cons: &[Ev], i: usize) -> Option<Pt> {
        if !p[0].pos() || (self.c.ph == Ph::Adi && !p[2].pos()) {
            return None;
        }
        let cs = self.cs1(p, i);
        Some(Pt { cons: cons.to_vec(), flux: self.flux1(p, cons, cs), emin: p[1] - cs, emax: p[1] + cs })
    }
    pub fn map(&self, a: &F, f: impl Fn(&[Ev]) -> Vec<Ev>) -> F {
        let s = self.c.s;
        let mut out = vec![Vec::with_capacity(s); self.c.ph.e()];
        for i in 0..s {
            let col: Vec<Ev> = a.iter().map(|r| r[i]).collect();
            for (j, x) in f(&col).into_iter().enumerate() {
                out[j].push(x);
            }
        }
        out
    }
    /// Fills the ghost cells
    pub fn bc(&self, prim: &mut F) -> Option<()> {
        let s = self.c.s;
        for west in [true, false] {
            // k = 0: the outermost interior cell, negative: ghost cells
            let at = |k: isize| -> usize {
                if west {
                    (2 + k) as usize
                } else {
                    (s as isize - 3 - k) as usize
                }
            };
            for (j, mode) in self.c.rules(west) {
                let p = &mut prim[j];
                let (a, b) = (p[at(0)], p[at(1)]);
                let copy = |p: &mut Vec<Ev>| {
                    for g in 1..=2 {
                        p[at(-g)] = a;
                    }
                };
                let reflect = |p: &mut Vec<Ev>| {
                    p[at(-1)] = -a;
                    p[at(-2)] = -b;
                };
                let extra = |p: &mut Vec<Ev>| {
                    p[at(-1)] = ev(2.0) * a - b;
                    p[at(-2)] = ev(3.0) * a - ev(2.0) * b;
                };
                // positive = towards higher xi
                let inflow = |v: Ev| -> Option<bool> {
                    // (what a fluid at rest does is not specified)
                    v.sign().map(|pos| pos == west)
                };
                match mode {
                    Bm::NoGradients => copy(p),
                    Bm::Reflecting => reflect(p),
                    Bm::Extrapolate => extra(p),
                    Bm::NearZero => {
                        for g in 1..=2 {
                            p[at(-g)] = ev(1e-10) * a;
                        }
                    }
                    Bm::ExtrapolateDensityKepler | Bm::ExtrapolateEtaVelocityKepler => {
                        for g in 1..=2 {
                            let q = xi_cent(&self.c, at(-g)) / xi_cent(&self.c, at(1 - g));
                            if !q.pos() {
                                return None;
                            }
                            p[at(-g)] = p[at(1 - g)] / q.sqrt();
                        }
                    }
                    Bm::OutflowNoGradients => match inflow(a)? {
                        true => reflect(p),
                        false => copy(p),
                    },
                    Bm::OutFlowExtrapolate => match inflow(a)? {
                        true => reflect(p),
                        false => extra(p),
                    },
                }
            }
        }
        Some(())
    }
    /// prim (ghosts filled) and cons from cons
    pub fn full_from_cons(&self, cons: &F) -> Option<(F, F)> {
        let mut prim = self.map(cons, |c| self.to_prim1(c));
        self.bc(&mut prim)?;
        let cons = self.map(&prim, |p| self.to_cons1(p));
        Some((prim, cons))
    }
    pub fn full_from_prim(&self, prim: &F) -> Option<(F, F)> {
        let mut prim = prim.clone();
        self.bc(&mut prim)?;
        let cons = self.map(&prim, |p| self.to_cons1(p));
        Some((prim, cons))
    }
    pub fn slope(lim: Lim, a: Ev, b: Ev) -> Ev {
        let z = ev(0.0);
        // continuous formulations: max(0, min(...)) for positive slopes, mirrored for negative ones
        let sgn = |f: &dyn Fn(Ev, Ev) -> Ev| -> Ev {
            let pos = f(a, b).max(z);
            let neg = f(-a, -b).max(z);
            pos - neg
        };
        match lim {
            Lim::NoLimiter => ev(0.5) * (a + b),
            Lim::MinMod => sgn(&|a, b| a.min(b)),
            Lim::Superbee => sgn(&|a, b| a.min(b).min(ev(0.5) * a.max(b))),
            Lim::Monocent(p) => sgn(&|a, b| (ev(p) * a).min(ev(p) * b).min(ev(0.5) * (a + b))),
            Lim::VanLeer => {
                // harmonic mean of slopes of equal sign
                let (x, y) = (a.abs(), b.abs());
                if x.v == 0.0 && y.v == 0.0 {
                    return Ev { v: 0.0, e: x.e + y.e };
                }
                if a.v * b.v <= 0.0 {
                    return Ev { v: 0.0, e: 2.0 * (x.e.min(x.v + x.e) + y.e.min(y.v + y.e)) };
                }
                let h = ev(2.0) * x * y / (x + y);
                let e = if h.e.is_finite() { h.e } else { 4.0 * (x.e + y.e) + U * h.v.abs() };
                let h = Ev { v: h.v, e: e.min(4.0 * (x.e + y.e) + 4.0 * U * h.v.abs()) };
                if a.v > 0.0 {
                    h
                } else {
                    -h
                }
            }
        }
    }
    /// Values on the west and east face of every cell but the outermost ones
    pub fn faces(&self, cons: &F, lim: Lim) -> (F, F) {
        let s = self.c.s;
        let mut w = cons.clone();
        let mut e = cons.clone();
        for j in 0..cons.len() {
            for i in 1..s - 1 {
                let (a, b) = (cons[j][i] - cons[j][i - 1], cons[j][i + 1] - cons[j][i]);
                // distances between centre and face carry the rounding of the coordinates
                let rel = Ev { v: 0.5, e: 8.0 * U * (self.c.xi.0.abs() + self.c.xi.1.abs()) / self.c.dx() };
                let h = Self::slope(lim, a, b) * rel;
                w[j][i] = cons[j][i] - h;
                e[j][i] = cons[j][i] + h;
            }
        }
        (w, e)
    }
    fn godunov(l: &Pt, r: &Pt) -> Vec<Ev> {
        let sl = ev(0.0).min(l.emin).min(r.emin);
        let sr = ev(0.0).max(l.emax).max(r.emax);
        (0..l.cons.len())
            .map(|j| (sr * l.flux[j] - sl * r.flux[j] + sl * sr * (r.cons[j] - l.cons[j])) / (sr - sl))
            .collect()
    }
    /// Fluxes through the faces between cell i and i+1 for i = 1 ..= s-3, as [equation][i]
    pub fn face_fluxes(&self, prim: &F, cons: &F) -> Option<F> {
        let s = self.c.s;
        let ne = self.c.ph.e();
        let col = |f: &F, i: usize| -> Vec<Ev> { f.iter().map(|r| r[i]).collect() };
        let mut out = vec![vec![ev(0.0); s]; ne];
        let (left, right): (Vec<Option<Pt>>, Vec<Option<Pt>>) = match self.c.fl {
            Fl::Hll => {
                let v: Vec<_> = (0..s).map(|i| self.pt(&col(prim, i), &col(cons, i), i)).collect();
                (v.clone(), v)
            }
            Fl::Kt(lim) => {
                let (w, e) = self.faces(cons, lim);
                let f = |x: &F| (0..s).map(|i| {
                    let c = col(x, i);
                    self.pt(&self.to_prim1(&c), &c, i)
                }).collect::<Vec<_>>();
                (f(&e), f(&w))
            }
        };
        for i in 1..s - 2 {
            let f = Self::godunov(left[i].as_ref()?, right[i + 1].as_ref()?);
            for j in 0..ne {
                out[j][i] = f[j];
            }
        }
        Some(out)
    }
    /// Spatial derivative in the interior cells from complete prim and cons
    pub fn dflux(&self, prim: &F, cons: &F) -> Option<F> {
        let ff = self.face_fluxes(prim, cons)?;
        let dx = (ev(self.c.xi.1) - ev(self.c.xi.0)) / ev((self.c.s - 4) as f64);
        // the volume is a product, its inverse is rounded as well
        let dx = Ev { v: dx.v, e: dx.e + 2.0 * f64::EPSILON * dx.v.abs() };
        let mut out = vec![vec![ev(0.0); self.c.s]; ff.len()];
        for j in 0..ff.len() {
            for i in 2..self.c.s - 2 {
                out[j][i] = (ff[j][i] - ff[j][i - 1]) / dx;
            }
        }
        Some(out)
    }
    /// Boundary conditions, then spatial derivative
    pub fn rhs(&self, cons: &F) -> Option<(F, F, F)> {
        let (p, c) = self.full_from_cons(cons)?;
        let d = self.dflux(&p, &c)?;
        Some((p, c, d))
    }
    /// Largest stable step
    pub fn dt_cfl(&self, prim: &F) -> Option<Ev> {
        let mut m = ev(0.0);
        for i in 0..self.c.s {
            let col: Vec<Ev> = prim.iter().map(|r| r[i]).collect();
            if !col[0].pos() || (self.c.ph == Ph::Adi && !col[2].pos()) {
                return None;
            }
            m = m.max(col[1].abs() + self.cs1(&col, i));
        }
        let x = self.c.dx();
        // widths are differences of face coordinates
        let dx = Ev { v: x, e: U * (x + self.c.xi.0.abs() + self.c.xi.1.abs()) };
        Some(ev(self.c.cfl) * dx / m)
    }
    /// One Runge-Kutta step of width dt from cons with the rhs given by `self`; also returns the embedded solution
    pub fn rk(&self, cons0: &F, dt: f64) -> Option<(F, F)> {
        let t = tableau(self.c.rk);
        let mut ks: Vec<F> = vec![];
        let dt = ev(dt);
        let comb = |ks: &Vec<F>, w: &[f64]| -> F {
            let mut c = cons0.clone();
            for (k, a) in ks.iter().zip(w) {
                if *a == 0.0 {
                    continue;
                }
                for j in 0..c.len() {
                    for i in 2..self.c.s - 2 {
                        c[j][i] = c[j][i] - dt * evr(*a) * k[j][i];
                    }
                }
            }
            c
        };
        for q in 0..t.b.len() {
            let c = comb(&ks, &t.a[q]);
            let (_, _, d) = self.rhs(&c)?;
            ks.push(d);
        }
        let low = if t.b_low.is_empty() { cons0.clone() } else { comb(&ks, &t.b_low) };
        Some((comb(&ks, &t.b), low))
    }
}

pub struct Tableau {
    pub a: Vec<Vec<f64>>,
    pub b: Vec<f64>,
    pub b_low: Vec<f64>,
    pub order: usize,
    pub order_low: usize,
}
/// Published coefficients
pub fn tableau(m: Rk) -> Tableau {
    let t = |a: &[&[f64]], b: &[f64], l: &[f64], order, order_low| Tableau {
        a: a.iter().map(|r| r.to_vec()).collect(),
        b: b.to_vec(),
        b_low: l.to_vec(),
        order,
        order_low,
    };
    match m {
        Rk::RK1 => t(&[&[]], &[1.0], &[], 1, 0),
        Rk::RK2 => t(&[&[], &[0.5]], &[0.0, 1.0], &[], 2, 0),
        Rk::RK3 => {
            t(&[&[], &[0.5], &[-1.0, 2.0]], &[1.0 / 6.0, 2.0 / 3.0, 1.0 / 6.0], &[0.0, 1.0, 0.0], 3, 2)
        }
        Rk::RK4 => t(
            &[&[], &[0.5], &[0.0, 0.5], &[0.0, 0.0, 1.0]],
            &[1.0 / 6.0, 1.0 / 3.0, 1.0 / 3.0, 1.0 / 6.0],
            &[],
            4,
            0,
        ),
        Rk::Heun2 => t(&[&[], &[1.0]], &[0.5, 0.5], &[1.0, 0.0], 2, 1),
        Rk::RKF12 => t(
            &[&[], &[0.5], &[1.0 / 256.0, 255.0 / 256.0]],
            &[1.0 / 512.0, 255.0 / 256.0, 1.0 / 512.0],
            &[1.0 / 256.0, 255.0 / 256.0, 0.0],
            2,
            1,
        ),
        Rk::RKF45 => t(
            &[
                &[],
                &[1.0 / 4.0],
                &[3.0 / 32.0, 9.0 / 32.0],
                &[1932.0 / 2197.0, -7200.0 / 2197.0, 7296.0 / 2197.0],
                &[439.0 / 216.0, -8.0, 3680.0 / 513.0, -845.0 / 4104.0],
                &[-8.0 / 27.0, 2.0, -3544.0 / 2565.0, 1859.0 / 4104.0, -11.0 / 40.0],
            ],
            &[16.0 / 135.0, 0.0, 6656.0 / 12825.0, 28561.0 / 56430.0, -9.0 / 50.0, 2.0 / 55.0],
            &[25.0 / 216.0, 0.0, 1408.0 / 2565.0, 2197.0 / 4104.0, -1.0 / 5.0, 0.0],
            5,
            4,
        ),
        Rk::SSPRK3 => t(
            &[&[], &[1.0], &[0.25, 0.25]],
            &[1.0 / 6.0, 1.0 / 6.0, 2.0 / 3.0],
            &[0.5, 0.5, 0.0],
            3,
            2,
        ),
        Rk::SSPRK5 => t(
            &[
                &[],
                &[0.36717],
                &[0.26802, 0.31720],
                &[0.11606, 0.13735, 0.18816],
                &[0.11212, 0.13269, 0.18178, 0.41980],
            ],
            &[0.17279, 0.094505, 0.12947, 0.29899, 0.30424],
            &[0.12293, 0.31981, -0.15316, 0.31887, 0.39155],
            3,
            2,
        ),
    }
}
