//! Whatever the configuration and the initial state: the simulation answers with a result, and success means that the end
//! was reached with a physical state.
use corries::prelude::*;
use corries::units::UnitsMode;
use std::path::Path;
use vh::*;

/// A run of at most this many steps
const STEPS: usize = 25;

fn attempt(cfg: &CorriesConfig, ph: Ph, s: usize, init: &Init, t: &mut Tally, show: &dyn Fn() -> String) -> CaseResult {
    t.states += 1;
    t.transitions += 1;
    t.traces += 1;
    let r = guard(|| make_cfg(ph, s, cfg, init)).map_err(|e| format!("building the simulation: {e}\n{}", show()))?;
    let Ok(mut sim) = r else {
        return Ok(());
    };
    let r = guard(|| sim.run()).map_err(|e| format!("running the simulation: {e}\n{}", show()))?;
    let n = &cfg.numerics_config;
    let iter = sim.ts().iter;
    t.transitions += iter as u64;
    if iter > n.iter_max {
        return Err(format!("{iter} steps were taken, the limit is {}\n{}", n.iter_max, show()));
    }
    if r.is_err() {
        return Ok(());
    }
    t.sample(|| format!("succeeds: {}", show()));
    let now = sim.ts().t;
    if !(now + n.dt_min >= n.t_end) {
        return Err(format!("the run succeeded at t = {now:e}, before its end at {:e}\n{}", n.t_end, show()));
    }
    if iter > 0 {
        // (a run that has nothing to do does not look at the state)
        for i in 2..s - 2 {
            let p: Vec<f64> = (0..ph.e()).map(|j| sim.prim()[[j, i]]).collect();
            if p.iter().any(|x| !x.is_finite()) || p[0] <= 0.0 || (ph == Ph::Adi && p[2] <= 0.0) {
                return Err(format!("the run succeeded with {p:?} in cell {i}\n{}", show()));
            }
        }
    }
    Ok(())
}

fn main() {
    vh::run("C27", |ctx| {
        ctx.assume("at most 25 steps per run; meshes with at least one interior cell");
        let fl = fluxes();
        let inf = f64::INFINITY;
        let nan = f64::NAN;
        let tiny = f64::from_bits(1);
        let modes: Vec<(Rk, bool)> = RKS.iter().flat_map(|r| [(*r, false), (*r, true)]).collect();
        // one value in one cell, or in all cells, of an otherwise harmless flow
        let vals = [nan, inf, -inf, 0.0, -0.0, -1.0, tiny, -tiny, 1e-320, 1e-160, -1e-160, 1e-16, 1e160, -1e160, 1e308, -1e308, f64::MAX, -f64::MAX];
        let sizes = &[8usize, 5, 6][..ctx.pick(2, 3)];
        let places = 5; // 0, 2, middle, last, everywhere
        let nf = ctx.pick(3, fl.len());
        ctx.group("states", vals.len() * places * 3 * 2 * nf * modes.len() * N_BC * sizes.len(), |k, t| {
            let mut r = Radix(k);
            let v = *r.of(&vals);
            let place = r.take(places);
            let j = r.take(3);
            let ph = *r.of(&[Ph::Adi, Ph::Iso]);
            let f = if nf == 3 { *r.of(&[Fl::Hll, Fl::Kt(Lim::VanLeer), Fl::Kt(Lim::Monocent(1.3))]) } else { *r.of(&fl) };
            let (rk, asc) = *r.of(&modes);
            let b = r.take(N_BC);
            let s = *r.of(sizes);
            let mut init = Init::uniform(ph, s, (1.0, 0.4, 0.8), 0.9);
            if j == 2 && ph == Ph::Iso {
                init.cs = v;
            } else {
                for i in match place {
                    0 => 0..1,
                    1 => 2..3,
                    2 => s / 2..s / 2 + 1,
                    3 => s - 1..s,
                    _ => 0..s,
                } {
                    init.prim[j][i] = v;
                }
            }
            let c = C {
                ph, s, fl: f, rk, asc: asc.then_some((1e-3, 1e-3, 0.08)), west: bc_set(ph, b), east: bc_set(ph, (b + k / 7) % N_BC),
                t_end: 0.2, outputs: 2, iter_max: STEPS, ..C::default()
            };
            attempt(&c.config(), ph, s, &init, t, &|| format!("{c:?}\n{init:?}"))
        });
        // two extreme values in two fields of the state
        let nv = vals.len();
        ctx.group("pairs of states", nv * nv * 3 * 3 * 2 * 3 * 4, |k, t| {
            let mut r = Radix(k);
            let (v, w) = (*r.of(&vals), *r.of(&vals));
            let (j, l) = (r.take(3), r.take(3));
            let ph = *r.of(&[Ph::Adi, Ph::Iso]);
            let f = *r.of(&[Fl::Hll, Fl::Kt(Lim::VanLeer), Fl::Kt(Lim::NoLimiter)]);
            let (rk, asc) = *r.of(&[(Rk::RK1, false), (Rk::RKF45, true), (Rk::SSPRK3, true), (Rk::RK2, true)]);
            let mut init = Init::uniform(ph, 8, (1.0, 0.4, 0.8), 0.9);
            for (j, i, v) in [(j, 3, v), (l, 4, w)] {
                if j == 2 && ph == Ph::Iso {
                    init.cs = v;
                } else {
                    init.prim[j][i] = v;
                }
            }
            let c = C { ph, fl: f, rk, asc: asc.then_some((1e-3, 1e-3, 0.08)), t_end: 0.2, iter_max: STEPS, ..C::default() };
            attempt(&c.config(), ph, 8, &init, t, &|| format!("{c:?}\n{init:?}"))
        });
        // all pairs of extreme values in two fields of the configuration
        type Set = fn(&mut C, f64);
        let fields: [(&str, Set); 14] = [
            ("xi_in", |c, x| c.xi.0 = x),
            ("xi_out", |c, x| c.xi.1 = x),
            ("gamma", |c, x| c.gamma = x),
            ("cfl", |c, x| c.cfl = x),
            ("dt_min", |c, x| c.dt_min = x),
            ("dt_max", |c, x| c.dt_max = x),
            ("t0", |c, x| c.t0 = x),
            ("t_end", |c, x| c.t_end = x),
            ("relative tolerance", |c, x| c.asc.as_mut().unwrap().0 = x),
            ("absolute tolerance", |c, x| c.asc.as_mut().unwrap().1 = x),
            ("friction", |c, x| c.asc.as_mut().unwrap().2 = x),
            ("outputs", |c, x| c.outputs = x as usize),
            ("iter_max", |c, x| c.iter_max = (x as usize).min(STEPS)),
            ("monocent", |c, x| {
                if let Fl::Kt(l) = &mut c.fl {
                    *l = Lim::Monocent(x)
                }
            }),
        ];
        let e = f64::EPSILON;
        let xs = [tiny, 1e-300, 1e-100, 1e-16, 1e-3, 0.5, 1.0, 1.0 + e, 2.0 - e, 2.0, 3.0, 9.0, 10.0, 1e3, 1e16, 1e100, 1e300, f64::MAX, inf, nan, 0.0, -0.0, -1.0, -1e300, -inf, -tiny];
        let nx = xs.len();
        let mut two = vec![];
        for a in 0..fields.len() {
            for b in a..fields.len() {
                two.push((fields[a], fields[b]));
            }
        }
        let nm = ctx.pick(2, 4);
        ctx.group_w(
            "pairs of settings",
            two.len() * nx * nx * 2 * nm,
            || {
                let d = scratch().join(format!("w{:?}", std::thread::current().id()));
                std::fs::create_dir_all(&d).unwrap();
                d
            },
            |dir, k, t| {
                let mut r = Radix(k);
                let (x, y) = (*r.of(&xs), *r.of(&xs));
                let &((na, a), (nb, b)) = r.of(&two);
                let ph = *r.of(&[Ph::Adi, Ph::Iso]);
                let m = r.take(nm);
                let rk = [Rk::RKF45, Rk::Heun2, Rk::SSPRK5, Rk::RK4][m];
                let f = if m % 2 == 0 { Fl::Kt(Lim::VanLeer) } else { Fl::Hll };
                let mut c = C { ph, rk, fl: f, asc: Some((1e-3, 1e-3, 0.08)), t_end: 0.2, outputs: 3, iter_max: STEPS, ..C::default() };
                a(&mut c, x);
                b(&mut c, y);
                let cells = [(1.0, 0.3, 1.0), (0.9, -0.2, 1.2), (0.5, 0.45, 0.4), (0.6, 0.6, 0.7)];
                let mut o = file_stream(dir, "x", vec![DataName::T, DataName::Iter, DataName::Dt, DataName::DtKind]);
                o.should_print_metadata = k % 5 == 0;
                let cfg = c.config_with(vec![o]);
                attempt(&cfg, ph, 8, &Init::interior(ph, &cells, 0.8), t, &|| format!("{na} = {x:e}, {nb} = {y:e}\n{c:?}"))
            },
        );
        // what is asked of the streams
        let asks: Vec<Vec<DataName>> = vec![
            vec![],
            vec![DataName::T],
            vec![DataName::DtKind, DataName::DtKind, DataName::Iter, DataName::Dt],
            vec![DataName::XiCent],
            vec![DataName::T, DataName::Prim(0), DataName::Cons(1), DataName::CSound, DataName::Iter, DataName::XiWest, DataName::XiEast],
            vec![DataName::Prim(2)],
            vec![DataName::Cons(usize::MAX)],
        ];
        let bad = &[0.8, nan, -1.0, inf, -inf, 1e-320][..ctx.pick(3, 6)];
        ctx.group_w(
            "streams",
            asks.len() * asks.len() * 2 * 2 * 2 * 2 * 5 * 6 * bad.len() * 3 * 2,
            || {
                let d = scratch().join(format!("s{:?}", std::thread::current().id()));
                std::fs::create_dir_all(&d).unwrap();
                d
            },
            |dir: &mut std::path::PathBuf, k, t| {
                let mut r = Radix(k);
                let (a, b) = (r.of(&asks), r.of(&asks));
                let mut on = || r.take(2) == 1;
                let (vector, tsv, ghosts, meta) = (on(), on(), on(), on());
                let precision = [0usize, 1, 17, 80, 300][r.take(5)];
                let outputs = [0usize, 1, 3, 9, 10, usize::MAX][r.take(6)];
                let p = *r.of(bad);
                let layout = r.take(3);
                let ph = *r.of(&[Ph::Adi, Ph::Iso]);
                let dir: &Path = dir;
                let mut o = file_stream(dir, "x", a.clone());
                o.string_conversion_mode = if vector { ToStringConversionMode::Vector } else { ToStringConversionMode::Scalar };
                o.formatting_mode = if tsv { FormattingMode::TSV } else { FormattingMode::CSV };
                o.should_print_ghostcells = ghosts;
                o.should_print_metadata = meta;
                o.should_clear_out_folder = k % 64 == 0;
                o.precision = precision;
                let mut q = o.clone();
                q.data_names = b.clone();
                match layout {
                    0 => q.stream_mode = StreamMode::Stdout,
                    1 => {},
                    _ => q.file_name = "y".into(),
                }
                let c = C { ph, t_end: 0.2, outputs, iter_max: 6, ..C::default() };
                let mut cfg = c.config_with(vec![o, q]);
                if ghosts {
                    cfg.physics_config.units_mode = UnitsMode::CGS;
                }
                let mut cells = [(1.0, 0.3, 1.0), (0.9, -0.2, 1.2), (0.5, 0.45, 0.4), (0.6, 0.6, 0.7)];
                if ph == Ph::Adi {
                    cells[1].2 = p;
                } else {
                    cells[1].1 = p;
                }
                attempt(&cfg, ph, 8, &Init::interior(ph, &cells, 0.8), t, &|| format!("{:?}\npressure {p}\n{c:?}", cfg.writer_config))
            },
        );
        // numbers of digits that no formatter has room for
        let many = [1000usize, 65_528, 65_529, 65_534, 65_535, 65_536, 65_542, 1 << 20, 1 << 32, usize::MAX - 7, usize::MAX - 6, usize::MAX];
        ctx.group_w(
            "many digits",
            many.len() * asks.len() * 2 * 2 * 2 * 2,
            || {
                let d = scratch().join(format!("m{:?}", std::thread::current().id()));
                std::fs::create_dir_all(&d).unwrap();
                d
            },
            |dir: &mut std::path::PathBuf, k, t| {
                let mut r = Radix(k);
                let precision = *r.of(&many);
                let names = r.of(&asks).clone();
                let mut on = || r.take(2) == 1;
                let (vector, tsv, file, adi) = (on(), on(), on(), on());
                let dir: &Path = dir;
                let mut o = file_stream(dir, "x", names);
                if !file {
                    o.stream_mode = StreamMode::Stdout;
                }
                o.string_conversion_mode = if vector { ToStringConversionMode::Vector } else { ToStringConversionMode::Scalar };
                o.formatting_mode = if tsv { FormattingMode::TSV } else { FormattingMode::CSV };
                o.should_print_metadata = true;
                o.should_clear_out_folder = true;
                o.precision = precision;
                let ph = if adi { Ph::Adi } else { Ph::Iso };
                let c = C { ph, t_end: 0.01, outputs: 1, iter_max: 6, ..C::default() };
                let cfg = c.config_with(vec![o]);
                let cells = [(1.0, 0.3, 1.0), (0.9, -0.2, 1.2), (0.5, 0.45, 0.4), (0.6, 0.6, 0.7)];
                attempt(&cfg, ph, 8, &Init::interior(ph, &cells, 0.8), t, &|| format!("{:?}\n{c:?}", cfg.writer_config))
            },
        );
    })
}
