//! Configurations: a compact description that both the implementation and the reference are built from.
use corries::prelude::*;
pub use corries::prelude::{CustomBoundaryMode as Bm, LimiterMode as Lim, RKFMode as Rk};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Ph {
    Adi,
    Iso,
}
impl Ph {
    pub fn e(self) -> usize {
        match self {
            Ph::Adi => 3,
            Ph::Iso => 2,
        }
    }
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Fl {
    Hll,
    Kt(Lim),
}

/// Everything that defines a simulation except for its initial state and the output streams
#[derive(Clone, Debug)]
pub struct C {
    pub ph: Ph,
    pub s: usize,
    pub gamma: f64,
    pub fl: Fl,
    pub west: Option<Vec<(usize, Bm)>>,
    pub east: Option<Vec<(usize, Bm)>>,
    pub rk: Rk,
    pub asc: Option<(f64, f64, f64)>,
    pub xi: (f64, f64),
    pub cfl: f64,
    pub dt_min: f64,
    pub dt_max: f64,
    pub t0: f64,
    pub t_end: f64,
    pub iter_max: usize,
    pub outputs: usize,
}
impl Default for C {
    fn default() -> Self {
        C {
            ph: Ph::Adi,
            s: 8,
            gamma: 1.4,
            fl: Fl::Hll,
            west: None,
            east: None,
            rk: Rk::RK1,
            asc: None,
            xi: (1.1, 2.0),
            cfl: 0.4,
            dt_min: 1e-12,
            dt_max: f64::MAX,
            t0: 0.0,
            t_end: 1e6,
            iter_max: usize::MAX - 2,
            outputs: 1,
        }
    }
}
impl C {
    pub fn config(&self) -> CorriesConfig {
        self.config_with(vec![])
    }
    pub fn config_with(&self, writer_config: Vec<OutputConfig>) -> CorriesConfig {
        let bm = |b: &Option<Vec<(usize, Bm)>>| match b {
            None => BoundaryMode::NoGradients,
            Some(v) => BoundaryMode::Custom(v.clone()),
        };
        let (r, a, f) = self.asc.unwrap_or((1e-3, 1e-3, 0.08));
        CorriesConfig {
            print_banner: false,
            mesh_config: MeshConfig { mode: MeshMode::Cartesian, xi_in: self.xi.0, xi_out: self.xi.1 },
            physics_config: PhysicsConfig { adiabatic_index: self.gamma, units_mode: if self.s % 2 == 1 { UnitsMode::CGS } else { UnitsMode::SI } },
            boundary_condition_west: bm(&self.west),
            boundary_condition_east: bm(&self.east),
            numerics_config: NumericsConfig {
                numflux_config: match self.fl {
                    Fl::Hll => NumFluxConfig::Hll,
                    Fl::Kt(l) => NumFluxConfig::Kt { limiter_mode: l },
                },
                time_integration_config: TimeIntegrationConfig::Rkf(RkfConfig {
                    rkf_mode: self.rk,
                    asc: self.asc.is_some(),
                    asc_relative_tolerance: r,
                    asc_absolute_tolerance: a,
                    asc_timestep_friction: f,
                }),
                iter_max: self.iter_max,
                t0: self.t0,
                t_end: self.t_end,
                dt_min: self.dt_min,
                dt_max: self.dt_max,
                dt_cfl_param: self.cfl,
            },
            output_counter_max: self.outputs,
            writer_config,
        }
    }
    pub fn dx(&self) -> f64 {
        (self.xi.1 - self.xi.0) / (self.s - 4) as f64
    }
    /// The boundary rules of one side in the order of application
    pub fn rules(&self, west: bool) -> Vec<(usize, Bm)> {
        let b = if west { &self.west } else { &self.east };
        b.clone().unwrap_or_else(|| (0..self.ph.e()).map(|j| (j, Bm::NoGradients)).collect())
    }
}

pub const RKS: [Rk; 9] =
    [Rk::RK1, Rk::RK2, Rk::RK3, Rk::RK4, Rk::Heun2, Rk::RKF12, Rk::RKF45, Rk::SSPRK3, Rk::SSPRK5];
/// Modes with an embedded pair
pub const EMBEDDED: [Rk; 6] = [Rk::RK3, Rk::Heun2, Rk::RKF12, Rk::RKF45, Rk::SSPRK3, Rk::SSPRK5];
pub const LIMS: [Lim; 7] = [
    Lim::NoLimiter,
    Lim::MinMod,
    Lim::Superbee,
    Lim::Monocent(1.2),
    Lim::Monocent(2.0),
    Lim::Monocent(3.5),
    Lim::VanLeer,
];
pub const BMS: [Bm; 8] = [
    Bm::Extrapolate,
    Bm::ExtrapolateDensityKepler,
    Bm::ExtrapolateEtaVelocityKepler,
    Bm::NearZero,
    Bm::NoGradients,
    Bm::OutflowNoGradients,
    Bm::OutFlowExtrapolate,
    Bm::Reflecting,
];
pub fn fluxes() -> Vec<Fl> {
    std::iter::once(Fl::Hll).chain(LIMS.iter().map(|l| Fl::Kt(*l))).collect()
}
/// Common physically sensible boundary settings for both physics: copy, wall, outflow, extrapolated outflow, mixed
pub fn bc_set(ph: Ph, k: usize) -> Option<Vec<(usize, Bm)>> {
    let mut v = match k {
        0 => return None,
        1 => vec![(0, Bm::NoGradients), (1, Bm::Reflecting), (2, Bm::NoGradients)],
        2 => vec![(0, Bm::NoGradients), (1, Bm::OutflowNoGradients), (2, Bm::NoGradients)],
        3 => vec![(0, Bm::NoGradients), (1, Bm::OutFlowExtrapolate), (2, Bm::NoGradients)],
        4 => vec![(2, Bm::NoGradients), (0, Bm::NoGradients), (1, Bm::Extrapolate)],
        5 => vec![(0, Bm::ExtrapolateDensityKepler), (1, Bm::NearZero), (2, Bm::NoGradients)],
        6 => vec![(0, Bm::NoGradients), (1, Bm::ExtrapolateEtaVelocityKepler), (2, Bm::NearZero)],
        _ => unreachable!(),
    };
    v.retain(|(j, _)| *j < ph.e());
    Some(v)
}
pub const N_BC: usize = 7;

/// A file stream: scalar, CSV, 17 digits, no metadata, no clearing; adjust as needed
pub fn file_stream(folder: &std::path::Path, name: &str, data_names: Vec<DataName>) -> OutputConfig {
    OutputConfig {
        stream_mode: StreamMode::File,
        formatting_mode: FormattingMode::CSV,
        string_conversion_mode: ToStringConversionMode::Scalar,
        folder_name: folder.to_str().unwrap().to_string(),
        should_clear_out_folder: false,
        file_name: name.to_string(),
        precision: 17,
        should_print_ghostcells: false,
        should_print_metadata: false,
        data_names,
    }
}
