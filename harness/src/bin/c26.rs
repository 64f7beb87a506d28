//! Built-in initial conditions and default constructors against their documentation.
use corries::initfuncs::{init_noh, init_sod};
use corries::prelude::*;
use corries::state::variables::Variables;
use serde_json::{json, Value};
use vh::*;

/// Physics that the built-in problems do not know: the adiabatic Euler equations under another name
struct Odd<const S: usize>(Euler1DAdiabatic<S>);
impl<const S: usize> Physics<3, S> for Odd<S> {
    const NUM_EQ: usize = 3;
    const IS_ADIABATIC: bool = true;
    const JRHO: usize = 0;
    const JXI: usize = 1;
    const JETA: usize = usize::MAX;
    const JPRESSURE: usize = 2;
    fn new() -> Self {
        Odd(Euler1DAdiabatic::<S>::new())
    }
    fn name() -> String {
        // the name must not matter
        <Euler1DAdiabatic<S> as Physics<3, S>>::name()
    }
    fn update_prim(v: &mut Variables<3, S>) {
        Euler1DAdiabatic::<S>::update_prim(v)
    }
    fn update_cons(v: &mut Variables<3, S>) {
        Euler1DAdiabatic::<S>::update_cons(v)
    }
    fn update_flux(v: &mut Variables<3, S>) {
        Euler1DAdiabatic::<S>::update_flux(v)
    }
    fn validate(v: &Variables<3, S>) -> color_eyre::Result<()> {
        Euler1DAdiabatic::<S>::validate(v)
    }
}

/// Left and right half of the documented problem as (density, velocity, pressure), sound speed if isothermal
fn documented(noh: bool) -> [(f64, f64, f64); 2] {
    if noh {
        [(1.0, 1.0, 1e-5), (1.0, -1.0, 1e-5)]
    } else {
        [(1.0, 0.0, 1.0), (0.125, 0.0, 0.1)]
    }
}

/// dirt: what the fields hold before the function is called
fn direct<P, N, const E: usize, const S: usize>(noh: bool, supported: bool, kt: bool, dirt: f64, through_init: bool, t: &mut Tally) -> CaseResult
where
    P: Physics<E, S> + 'static,
    N: NumFlux<E, S> + 'static,
{
    type T<P, const E: usize, const S: usize> = RungeKuttaFehlberg<P, E, S>;
    let name = if noh { "init_noh" } else { "init_sod" };
    let ph = if E == 3 { Ph::Adi } else { Ph::Iso };
    let c = C { ph, s: S, fl: if kt { Fl::Kt(Lim::VanLeer) } else { Fl::Hll }, ..C::default() };
    let cfg = c.config();
    let f: corries::initfuncs::InitFn<P, N, T<P, E, S>, E, S> = if noh { init_noh } else { init_sod };
    t.states += 1;
    t.transitions += 1;
    let ctx = || format!("{name}, {} cells, {ph:?}, supported: {supported}, old contents {dirt}, in init_corries: {through_init}", S);
    let u = if through_init {
        let r = cfg.init_corries::<P, N, T<P, E, S>, E, S>(f);
        match (r, supported) {
            (Ok(x), true) => x.0,
            (Err(_), false) => {
                t.traces += 1;
                return Ok(());
            }
            (Ok(_), false) => return Err(format!("accepted: {}", ctx())),
            (Err(e), true) => return Err(format!("refused: {}: {e:#}", ctx())),
        }
    } else {
        let (mut u, mut so, mesh, _) = cfg
            .init_corries::<P, N, T<P, E, S>, E, S>(|u, _, _| {
                u.cent.prim.fill(1.0);
                u.cent.c_sound.fill(1.0);
                Ok(())
            })
            .map_err(|e| format!("init_corries: {e:#}"))?;
        u.cent.prim.fill(dirt);
        u.cent.c_sound.fill(dirt);
        match (f(&mut u, &mut so, &mesh), supported) {
            (Ok(()), true) => u,
            (Err(_), false) => {
                t.traces += 1;
                return Ok(());
            }
            (Ok(_), false) => return Err(format!("accepted: {}", ctx())),
            (Err(e), true) => return Err(format!("refused: {}: {e:#}", ctx())),
        }
    };
    t.traces += 1;
    let lr = documented(noh);
    for i in 0..S {
        // (boundary conditions make the ghost cells copies)
        let k = if through_init { i.clamp(2, S - 3) } else { i };
        let w = lr[(k >= S / 2) as usize];
        let p = &u.cent.prim;
        let mut ok = p[[P::JRHO, i]] == w.0 && p[[P::JXI, i]] == w.1;
        if P::IS_ADIABATIC {
            ok &= p[[P::JPRESSURE, i]] == w.2;
        } else {
            ok &= u.cent.c_sound[i] == 1.0;
        }
        if !ok {
            return Err(format!("cell {i}: {:?}, sound speed {}, expected {w:?}: {}", p.column(i).to_vec(), u.cent.c_sound[i], ctx()));
        }
        if through_init {
            // the other fields follow
            let cons = &u.cent.cons;
            let e = w.2 / (1.4 - 1.0) + 0.5 * w.0 * w.1 * w.1;
            let near = |a: f64, b: f64| (a - b).abs() <= 1e-14 * b.abs();
            if !near(cons[[P::JRHO, i]], w.0) || !near(cons[[P::JXI, i]], w.0 * w.1) || (P::IS_ADIABATIC && !near(cons[[P::JPRESSURE, i]], e)) {
                return Err(format!("cell {i}: conservative {:?} for {w:?}: {}", cons.column(i).to_vec(), ctx()));
            }
        }
    }
    t.sample(|| ctx());
    Ok(())
}

fn all<const S: usize>(k: usize, t: &mut Tally) -> CaseResult {
    let mut r = Radix(k);
    let noh = r.take(2) == 0;
    let kt = r.take(2) == 1;
    let phys = r.take(3);
    let dirt = *r.of(&[0.0, 1.0, -7.5, f64::NAN, f64::INFINITY]);
    let through = r.take(2) == 1;
    match (phys, kt) {
        (0, false) => direct::<Euler1DAdiabatic<S>, Hll<3, S>, 3, S>(noh, true, kt, dirt, through, t),
        (0, true) => direct::<Euler1DAdiabatic<S>, Kt<3, S>, 3, S>(noh, true, kt, dirt, through, t),
        (1, false) => direct::<Euler1DIsot<S>, Hll<2, S>, 2, S>(noh, noh, kt, dirt, through, t),
        (1, true) => direct::<Euler1DIsot<S>, Kt<2, S>, 2, S>(noh, noh, kt, dirt, through, t),
        (_, false) => direct::<Odd<S>, Hll<3, S>, 3, S>(noh, false, kt, dirt, through, t),
        (_, true) => direct::<Odd<S>, Kt<3, S>, 3, S>(noh, false, kt, dirt, through, t),
    }
}
const N_ALL: usize = 2 * 2 * 3 * 5 * 2;

/// Accepted by init_corries (with the file stream moved into `dir`)
fn accepted<P: Physics<E, S> + 'static, N: NumFlux<E, S>, const E: usize, const S: usize>(cfg: &CorriesConfig, dir: &std::path::Path) -> CaseResult {
    let mut c = cfg.clone();
    c.writer_config[1].folder_name = dir.to_str().unwrap().to_string();
    c.init_corries::<P, N, RungeKuttaFehlberg<P, E, S>, E, S>(|_, _, _| Ok(()))
        .map(|_| ())
        .map_err(|e| format!("the default configuration is refused: {e:#}\n{cfg:?}"))
}
fn defaults<P: Physics<E, S> + 'static, const E: usize, const S: usize>(
    t_end: f64,
    folder: &str,
    file: &str,
    dir: &std::path::Path,
) -> Result<[(CorriesConfig, Value); 2], String> {
    let want = |flux: Value| {
        let mut names = vec![json!("T"), json!("XiCent")];
        for j in 0..E {
            names.push(json!({ "Prim": j }));
        }
        json!({
            "print_banner": false,
            "mesh_config": {"mode": "Cartesian", "xi_in": 1.0, "xi_out": 2.0},
            "physics_config": {"adiabatic_index": 5.0 / 3.0, "units_mode": "SI"},
            "boundary_condition_west": "NoGradients",
            "boundary_condition_east": "NoGradients",
            "numerics_config": {
                "numflux_config": flux,
                "time_integration_config": {"Rkf": {
                    "rkf_mode": "SSPRK5", "asc": false, "asc_relative_tolerance": 0.001,
                    "asc_absolute_tolerance": 0.001, "asc_timestep_friction": 0.08,
                }},
                "iter_max": usize::MAX - 2, "t0": 0.0, "t_end": t_end,
                "dt_min": 1e-12, "dt_max": f64::MAX, "dt_cfl_param": 0.4,
            },
            "output_counter_max": 1,
            "writer_config": [
                stdout_with(vec![json!("Iter"), json!("T"), json!("Dt"), json!("DtKind")]),
                file_with(folder, file, names),
            ],
        })
    };
    let (h, k) = (
        CorriesConfig::default_riemann_test::<Hll<E, S>, E, S>(t_end, folder, file),
        CorriesConfig::default_riemann_test::<Kt<E, S>, E, S>(t_end, folder, file),
    );
    accepted::<P, Hll<E, S>, E, S>(&h, dir)?;
    accepted::<P, Kt<E, S>, E, S>(&k, dir)?;
    Ok([
        (h, want(json!("Hll"))),
        (k, want(json!({"Kt": {"limiter_mode": "VanLeer"}}))),
    ])
}
fn stdout_with(names: Vec<Value>) -> Value {
    json!({
        "stream_mode": "Stdout", "formatting_mode": "TSV", "string_conversion_mode": "Scalar", "folder_name": "",
        "should_clear_out_folder": false, "file_name": "", "precision": 3, "should_print_ghostcells": false,
        "should_print_metadata": false, "data_names": names,
    })
}
fn file_with(folder: &str, file: &str, names: Vec<Value>) -> Value {
    json!({
        "stream_mode": "File", "formatting_mode": "CSV", "string_conversion_mode": "Vector", "folder_name": folder,
        "should_clear_out_folder": true, "file_name": file, "precision": 7, "should_print_ghostcells": true,
        "should_print_metadata": true, "data_names": names,
    })
}
fn same(what: &str, have: impl serde::Serialize, want: Value) -> CaseResult {
    let have = serde_json::to_value(&have).unwrap();
    if have != want {
        return Err(format!("{what}: {have}\nexpected {want}"));
    }
    Ok(())
}

type F = fn(usize, &mut Tally) -> CaseResult;
macro_rules! sizes { ($($s:literal)*) => { [$(all::<$s> as F),*] } }

fn main() {
    vh::run("C26", |ctx| {
        let fs = sizes!(5 6 7 8 9 10 11 12 13 14 15 16 17 23 32 33 64 99 100 101 104 127 250 500 1001);
        ctx.note("sizes", fs.len());
        ctx.group("initial conditions", fs.len() * N_ALL, |k, t| {
            let mut r = Radix(k);
            let f = r.of(&fs);
            f(r.0, t)
        });
        let ends = [f64::MIN_POSITIVE, 1e-9, 0.25, 0.1 + 0.2, 0.5, 1.0, 1e6, f64::MAX];
        let names = ["a", "some/deep/folder", "x y", "ü\"\\n", "trailing/", "."];
        let files = ["a", "x y", "ü\"\\n", ".", "a.b", "deep_file_name_0"];
        let dir = scratch();
        ctx.group("default simulation", ends.len() * names.len() * files.len() * 2 * 3, |k, t| {
            let mut r = Radix(k);
            let (te, folder, file) = (*r.of(&ends), *r.of(&names), *r.of(&files));
            let d = dir.join(format!("c{k}"));
            let all = match (r.take(2), r.take(3)) {
                (0, 0) => defaults::<Euler1DIsot<7>, 2, 7>(te, folder, file, &d),
                (0, 1) => defaults::<Euler1DIsot<100>, 2, 100>(te, folder, file, &d),
                (0, _) => defaults::<Euler1DIsot<101>, 2, 101>(te, folder, file, &d),
                (_, 0) => defaults::<Euler1DAdiabatic<7>, 3, 7>(te, folder, file, &d),
                (_, 1) => defaults::<Euler1DAdiabatic<100>, 3, 100>(te, folder, file, &d),
                (_, _) => defaults::<Euler1DAdiabatic<101>, 3, 101>(te, folder, file, &d),
            };
            let _ = std::fs::remove_dir_all(&d);
            for (cfg, want) in all? {
                t.states += 1;
                t.transitions += 2;
                t.traces += 1;
                same("CorriesConfig::default_riemann_test", &cfg, want)?;
            }
            t.sample(|| format!("t_end = {te:e}, folder {folder:?}, file {file:?}"));
            Ok(())
        });
        // every sequence of up to 3 data names
        let dn = [
            (DataName::XiCent, json!("XiCent")),
            (DataName::T, json!("T")),
            (DataName::Prim(0), json!({"Prim": 0})),
            (DataName::Cons(2), json!({"Cons": 2})),
            (DataName::DtKind, json!("DtKind")),
            (DataName::CSound, json!("CSound")),
        ];
        ctx.group("default streams", 7 * 7 * 7 * names.len(), |k, t| {
            let mut r = Radix(k);
            let folder = *r.of(&names);
            let (mut v, mut w) = (vec![], vec![]);
            for _ in 0..3 {
                if let Some((a, b)) = dn.get(r.take(7)) {
                    v.push(*a);
                    w.push(b.clone());
                }
            }
            t.states += 1;
            t.transitions += 4;
            t.traces += 1;
            same("default_stdout_with_names", OutputConfig::default_stdout_with_names(v.clone()), stdout_with(w.clone()))?;
            same("default_file_with_names", OutputConfig::default_file_with_names(folder, "f", v), file_with(folder, "f", w))?;
            same("default_stdout", OutputConfig::default_stdout(), stdout_with(vec![json!("Iter"), json!("T"), json!("Dt"), json!("DtKind")]))?;
            for n in 0..5 {
                let mut w = vec![json!("T"), json!("XiCent")];
                w.extend((0..n).map(|j| json!({ "Prim": j })));
                same("default_file", OutputConfig::default_file("d", folder, n), file_with("d", folder, w))?;
            }
            Ok(())
        });
        ctx.group("other defaults", 1, |_, t| {
            t.states += 1;
            t.transitions += 10;
            t.traces += 1;
            same("MeshConfig", MeshConfig::default_riemann_test(), json!({"mode": "Cartesian", "xi_in": 1.0, "xi_out": 2.0}))?;
            same("PhysicsConfig", PhysicsConfig::default(), json!({"adiabatic_index": 5.0 / 3.0, "units_mode": "SI"}))?;
            let rkf = json!({"rkf_mode": "SSPRK5", "asc": false, "asc_relative_tolerance": 0.001, "asc_absolute_tolerance": 0.001, "asc_timestep_friction": 0.08});
            same("RkfConfig", RkfConfig::default(), rkf.clone())?;
            same("TimeIntegrationConfig", TimeIntegrationConfig::default_rkf(), json!({ "Rkf": rkf }))?;
            same("BoundaryMode", BoundaryMode::default(), json!("NoGradients"))?;
            same("CustomBoundaryMode", Bm::default(), json!("NoGradients"))?;
            same("StreamMode", StreamMode::default(), json!("Stdout"))?;
            same("ToStringConversionMode", ToStringConversionMode::default(), json!("Scalar"))?;
            same("FormattingMode", FormattingMode::default(), json!("TSV"))?;
            same("UnitsMode", UnitsMode::default(), json!("SI"))?;
            same("RKFMode", Rk::default(), json!("SSPRK5"))
        });
        // the default configuration as it is runs the built-in problems
        // (second-order reconstruction of the cold adiabatic Noh problem gives negative pressures on faces: no claim)
        ctx.group_seq("default runs", 5, |k, t| {
            let d = dir.join(format!("r{k}"));
            let d = d.to_str().unwrap();
            t.states += 1;
            t.transitions += 1;
            t.traces += 1;
            macro_rules! run {
                ($p:ty, $n:ty, $e:literal, $f:ident) => {
                    CorriesConfig::default_riemann_test::<$n, $e, 100>(0.01, d, "x")
                        .init_corries::<$p, $n, RungeKuttaFehlberg<$p, $e, 100>, $e, 100>($f)
                        .and_then(|mut c| c.run_corries())
                };
            }
            let r = match k {
                0 => run!(Euler1DAdiabatic<100>, Hll<3, 100>, 3, init_noh),
                1 => run!(Euler1DAdiabatic<100>, Hll<3, 100>, 3, init_sod),
                2 => run!(Euler1DAdiabatic<100>, Kt<3, 100>, 3, init_sod),
                3 => run!(Euler1DIsot<100>, Hll<2, 100>, 2, init_noh),
                _ => run!(Euler1DIsot<100>, Kt<2, 100>, 2, init_noh),
            };
            r.map_err(|e| format!("built-in problem {k} with the default configuration fails: {e:#}"))
        });
    });
}
