//! A user's own physics: the Euler equations with a dye that the flow carries along.
use crate::cfg::*;
use crate::sim::*;
use color_eyre::{eyre::ensure, Result};
use corries::prelude::*;
use corries::state::variables::Variables;

macro_rules! dye {
    ($name:ident, $e:literal, $adi:literal, $jp:expr) => {
        /// Density, velocity, dye per mass (and pressure)
        #[derive(Debug, Clone, Default, PartialEq)]
        pub struct $name<const S: usize>;
        impl<const S: usize> Physics<$e, S> for $name<S> {
            const NUM_EQ: usize = $e;
            const IS_ADIABATIC: bool = $adi;
            const JRHO: usize = 0;
            const JXI: usize = 1;
            const JETA: usize = 2;
            const JPRESSURE: usize = $jp;
            fn new() -> Self {
                Self
            }
            fn name() -> String {
                stringify!($name).to_string()
            }
            fn update_prim(v: &mut Variables<$e, S>) {
                for i in 0..S {
                    let (rho, m) = (v.cons[[0, i]], v.cons[[1, i]]);
                    v.prim[[0, i]] = rho;
                    v.prim[[1, i]] = m / rho;
                    v.prim[[2, i]] = v.cons[[2, i]] / rho;
                    if $adi {
                        v.prim[[$e - 1, i]] = (v.gamma - 1.0) * (v.cons[[$e - 1, i]] - 0.5 / rho * m * m);
                    }
                }
            }
            fn update_cons(v: &mut Variables<$e, S>) {
                for i in 0..S {
                    let (rho, u) = (v.prim[[0, i]], v.prim[[1, i]]);
                    v.cons[[0, i]] = rho;
                    v.cons[[1, i]] = u * rho;
                    v.cons[[2, i]] = v.prim[[2, i]] * rho;
                    if $adi {
                        v.cons[[$e - 1, i]] = v.prim[[$e - 1, i]] / (v.gamma - 1.0) + 0.5 * rho * u * u;
                    }
                }
            }
            fn update_flux(v: &mut Variables<$e, S>) {
                for i in 0..S {
                    let (rho, u, m) = (v.prim[[0, i]], v.prim[[1, i]], v.cons[[1, i]]);
                    v.flux[[0, i]] = m;
                    v.flux[[2, i]] = u * v.cons[[2, i]];
                    if $adi {
                        let p = v.prim[[$e - 1, i]];
                        v.flux[[1, i]] = u * m + p;
                        v.flux[[$e - 1, i]] = (v.cons[[$e - 1, i]] + p) * u;
                    } else {
                        v.flux[[1, i]] = rho * (u * u + v.c_sound[i] * v.c_sound[i]);
                    }
                }
            }
            fn validate(v: &Variables<$e, S>) -> Result<()> {
                ensure!(v.prim.row(0).iter().all(|x| *x > 0.0), "density must be positive");
                if $adi {
                    ensure!(v.prim.row($e - 1).iter().all(|x| *x > 0.0), "pressure must be positive");
                }
                Ok(())
            }
        }
    };
}
dye!(AdiDye, 4, true, 3);
dye!(IsoDye, 3, false, usize::MAX);

/// Equation of the physics with dye that corresponds to equation `j` without
pub fn with_dye(j: usize) -> usize {
    if j == 2 {
        3
    } else {
        j
    }
}

/// The simulation `c` with dye: custom boundary rules are translated, the dye gets `rule`
pub fn make_dye(c: &C, init: &Init, dye: &[f64], rule: Bm) -> Result<Box<dyn Sim>> {
    make_dye_with(c, init, dye, rule, vec![])
}
pub fn make_dye_with(c: &C, init: &Init, dye: &[f64], rule: Bm, streams: Vec<OutputConfig>) -> Result<Box<dyn Sim>> {
    let mut cfg = c.config_with(streams);
    for b in [&mut cfg.boundary_condition_west, &mut cfg.boundary_condition_east] {
        if let BoundaryMode::Custom(v) = b {
            v.iter_mut().for_each(|(j, _)| *j = with_dye(*j));
            v.insert(v.len() / 2, (2, rule));
        }
    }
    let mut init = init.clone();
    init.prim.insert(2, dye.to_vec());
    macro_rules! go {
        ($($s:literal)*) => {
            match (c.s, c.ph, c.fl) {
                $(
                ($s, Ph::Adi, Fl::Hll) => Box::new(SimI::<AdiDye<$s>, Hll<4, $s>, 4, $s>::new(&cfg, &init)?) as Box<dyn Sim>,
                ($s, Ph::Adi, _) => Box::new(SimI::<AdiDye<$s>, Kt<4, $s>, 4, $s>::new(&cfg, &init)?),
                ($s, Ph::Iso, Fl::Hll) => Box::new(SimI::<IsoDye<$s>, Hll<3, $s>, 3, $s>::new(&cfg, &init)?),
                ($s, Ph::Iso, _) => Box::new(SimI::<IsoDye<$s>, Kt<3, $s>, 3, $s>::new(&cfg, &init)?),
                )*
                _ => panic!("mesh size {} is not instantiated", c.s),
            }
        };
    }
    Ok(go!(9 36))
}
