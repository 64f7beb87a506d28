//! The implementation behind an object-safe interface, so that checks can enumerate physics, fluxes and mesh sizes.
use crate::cfg::*;
use color_eyre::Result;
use corries::prelude::*;
use corries::state::variables::Variables;
use corries::time::timestep::TimeStep;
use ndarray::{Array1, Array2};
use std::cell::RefCell;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum D {
    W,
    C,
    E,
}
pub const DS: [D; 3] = [D::W, D::C, D::E];

pub struct Vars<'a> {
    pub prim: &'a mut Array2<f64>,
    pub cons: &'a mut Array2<f64>,
    pub cs: &'a mut Array1<f64>,
    pub ev: &'a mut Array2<f64>,
    pub flux: &'a mut Array2<f64>,
}
fn vars<const E: usize, const S: usize>(v: &mut Variables<E, S>) -> Vars<'_> {
    Vars { prim: &mut v.prim, cons: &mut v.cons, cs: &mut v.c_sound, ev: &mut v.eigen_vals, flux: &mut v.flux }
}

/// Initial primitive variables: [equation][cell], and the sound speed for isothermal physics
#[derive(Clone, Debug, Default)]
pub struct Init {
    pub prim: Vec<Vec<f64>>,
    pub cs: f64,
}
impl Init {
    pub fn new(prim: Vec<Vec<f64>>, cs: f64) -> Init {
        Init { prim, cs }
    }
    /// `cells`: (density, velocity, pressure)
    pub fn cells(ph: Ph, cells: &[(f64, f64, f64)], cs: f64) -> Init {
        let mut prim: Vec<Vec<f64>> =
            vec![cells.iter().map(|c| c.0).collect(), cells.iter().map(|c| c.1).collect()];
        if ph == Ph::Adi {
            prim.push(cells.iter().map(|c| c.2).collect());
        }
        Init { prim, cs }
    }
    /// The given cells are the interior; ghost cells get copies of the outermost ones
    pub fn interior(ph: Ph, cells: &[(f64, f64, f64)], cs: f64) -> Init {
        let n = cells.len();
        let v: Vec<_> = (0..n + 4).map(|i| cells[i.saturating_sub(2).min(n - 1)]).collect();
        Init::cells(ph, &v, cs)
    }
    pub fn uniform(ph: Ph, s: usize, c: (f64, f64, f64), cs: f64) -> Init {
        Init::cells(ph, &vec![c; s], cs)
    }
}
thread_local! {
    static INIT: RefCell<Init> = RefCell::default();
}

/// Initial condition from the thread's `INIT`
pub fn init_tl<P: Physics<E, S>, N: NumFlux<E, S>, T: TimeSolver<P, E, S>, const E: usize, const S: usize>(
    u: &mut State<P, E, S>,
    _: &mut Solver<P, N, T, E, S>,
    _: &Mesh<S>,
) -> Result<()> {
    INIT.with(|x| put::<P, E, S>(u, &x.borrow()));
    Ok(())
}
pub fn set_init(i: &Init) {
    INIT.with(|x| *x.borrow_mut() = i.clone());
}
fn put<P: Physics<E, S>, const E: usize, const S: usize>(u: &mut State<P, E, S>, x: &Init) {
    for j in 0..E {
        for i in 0..S {
            u.cent.prim[[j, i]] = x.prim[j][i];
        }
    }
    if !P::IS_ADIABATIC {
        u.cent.c_sound.fill(x.cs);
    }
}

pub trait Sim {
    fn e(&self) -> usize;
    fn s(&self) -> usize;
    fn vars(&mut self, d: D) -> Vars<'_>;
    fn set(&mut self, i: &Init);
    fn from_prim(&mut self);
    fn from_cons(&mut self);
    fn init_we(&mut self);
    fn rhs(&mut self) -> Result<()>;
    fn full(&self) -> &Array2<f64>;
    fn step(&mut self) -> Result<()>;
    fn run(&mut self) -> Result<()>;
    fn ts(&mut self) -> &mut TimeStep;
    fn dt_cfl(&self, c: f64) -> Result<f64>;
    /// Hands the current data to the writer and lets it write
    fn output(&mut self) -> Result<()>;
    /// centres, west faces, east faces
    fn xi(&self) -> [&Array1<f64>; 3];
    fn writer(&mut self) -> &mut Writer;
    fn prim(&self) -> &Array2<f64>;
    fn cons(&self) -> &Array2<f64>;
    fn ev(&self) -> &Array2<f64>;
    fn cs(&self) -> &Array1<f64>;
}

pub struct SimI<P: Physics<E, S> + 'static, N: NumFlux<E, S>, const E: usize, const S: usize>(
    pub CorriesComponents<P, N, RungeKuttaFehlberg<P, E, S>, E, S>,
);

impl<P: Physics<E, S> + 'static, N: NumFlux<E, S>, const E: usize, const S: usize> SimI<P, N, E, S> {
    pub fn new(cfg: &CorriesConfig, init: &Init) -> Result<Self> {
        set_init(init);
        Ok(SimI(cfg.init_corries::<P, N, RungeKuttaFehlberg<P, E, S>, E, S>(init_tl)?))
    }
}

impl<P: Physics<E, S> + 'static, N: NumFlux<E, S>, const E: usize, const S: usize> Sim for SimI<P, N, E, S> {
    fn e(&self) -> usize {
        E
    }
    fn s(&self) -> usize {
        S
    }
    fn vars(&mut self, d: D) -> Vars<'_> {
        match d {
            D::W => vars(&mut self.0 .0.west),
            D::C => vars(&mut self.0 .0.cent),
            D::E => vars(&mut self.0 .0.east),
        }
    }
    fn set(&mut self, i: &Init) {
        put(&mut self.0 .0, i);
        self.from_prim();
        self.init_we();
    }
    fn from_prim(&mut self) {
        let (u, so, m, _) = &mut self.0;
        u.update_vars_from_prim(&mut so.rhs.boundary_west, &mut so.rhs.boundary_east, m);
    }
    fn from_cons(&mut self) {
        let (u, so, m, _) = &mut self.0;
        u.update_vars_from_cons(&mut so.rhs.boundary_west, &mut so.rhs.boundary_east, m);
    }
    fn init_we(&mut self) {
        self.0 .0.init_west_east()
    }
    fn rhs(&mut self) -> Result<()> {
        let (u, so, m, _) = &mut self.0;
        so.rhs.update(u, m)
    }
    fn full(&self) -> &Array2<f64> {
        &self.0 .1.rhs.full_rhs
    }
    fn step(&mut self) -> Result<()> {
        let (u, so, m, _) = &mut self.0;
        so.next_solution(u, m)
    }
    fn run(&mut self) -> Result<()> {
        self.0.run_corries()
    }
    fn ts(&mut self) -> &mut TimeStep {
        &mut self.0 .1.timestep
    }
    fn dt_cfl(&self, c: f64) -> Result<f64> {
        self.0 .0.calc_dt_cfl(c, &self.0 .2)
    }
    fn output(&mut self) -> Result<()> {
        let (u, so, m, w) = &mut self.0;
        w.update_data(&u.cent, &so.timestep, m)?;
        w.write_output()
    }
    fn xi(&self) -> [&Array1<f64>; 3] {
        let m = &self.0 .2;
        [&m.xi_cent, &m.xi_west, &m.xi_east]
    }
    fn writer(&mut self) -> &mut Writer {
        &mut self.0 .3
    }
    fn prim(&self) -> &Array2<f64> {
        &self.0 .0.cent.prim
    }
    fn cons(&self) -> &Array2<f64> {
        &self.0 .0.cent.cons
    }
    fn ev(&self) -> &Array2<f64> {
        &self.0 .0.cent.eigen_vals
    }
    fn cs(&self) -> &Array1<f64> {
        &self.0 .0.cent.c_sound
    }
}

/// Mesh sizes that `make` knows
pub const SIZES: [usize; 10] = [5, 6, 7, 8, 9, 10, 12, 16, 36, 104];
/// A large one
pub const BIG: usize = 1004;

pub fn make_cfg(ph: Ph, s: usize, cfg: &CorriesConfig, init: &Init) -> Result<Box<dyn Sim>> {
    macro_rules! go {
        ($($s:literal)*) => {
            match (s, ph, &cfg.numerics_config.numflux_config) {
                $(
                ($s, Ph::Adi, NumFluxConfig::Hll) =>
                    Box::new(SimI::<Euler1DAdiabatic<$s>, Hll<3, $s>, 3, $s>::new(cfg, init)?) as Box<dyn Sim>,
                ($s, Ph::Adi, _) => Box::new(SimI::<Euler1DAdiabatic<$s>, Kt<3, $s>, 3, $s>::new(cfg, init)?),
                ($s, Ph::Iso, NumFluxConfig::Hll) =>
                    Box::new(SimI::<Euler1DIsot<$s>, Hll<2, $s>, 2, $s>::new(cfg, init)?),
                ($s, Ph::Iso, _) => Box::new(SimI::<Euler1DIsot<$s>, Kt<2, $s>, 2, $s>::new(cfg, init)?),
                )*
                _ => panic!("mesh size {s} is not instantiated"),
            }
        };
    }
    Ok(go!(5 6 7 8 9 10 12 16 36 104 1004))
}
pub fn make(c: &C, init: &Init) -> Result<Box<dyn Sim>> {
    make_cfg(c.ph, c.s, &c.config(), init)
}
/// As `make`; an error is a violation (the configuration is valid)
pub fn made(c: &C, init: &Init) -> Result<Box<dyn Sim>, String> {
    make(c, init).map_err(|e| format!("init_corries failed for a valid configuration: {e:#}\n{c:?}\n{init:?}"))
}

/// All bits of a simulation's state
pub fn bits(s: &mut dyn Sim) -> Vec<u64> {
    let mut v = vec![];
    for d in DS {
        let x = s.vars(d);
        v.extend(x.prim.iter().chain(x.cons.iter()).chain(x.cs.iter()).map(|x| x.to_bits()));
    }
    let t = s.ts();
    v.extend([t.t.to_bits(), t.dt.to_bits(), t.iter as u64, t.t_next_output.to_bits()]);
    v
}
pub fn short(a: &Array2<f64>) -> String {
    a.rows().into_iter().map(|r| format!("{:?}", r.to_vec())).collect::<Vec<_>>().join(" ")
}
