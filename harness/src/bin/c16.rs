//! Validity of configurations: every value of every field, all pairs (thorough: triples) of fields, against a model.
use corries::prelude::*;
use corries::units::UnitsMode;
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use vh::*;

const S: usize = 8;
type Mutator = Box<dyn Fn(&mut CorriesConfig, &Path) + Sync>;
struct Val {
    text: String,
    f: Mutator,
}
struct Dim {
    name: &'static str,
    vals: Vec<Val>,
}

fn mono(c: &CorriesConfig) -> Option<f64> {
    match c.numerics_config.numflux_config {
        NumFluxConfig::Kt { limiter_mode: Lim::Monocent(p) } => Some(p),
        _ => None,
    }
}
fn is_vector(n: &DataName) -> bool {
    match n {
        DataName::XiCent | DataName::XiWest | DataName::XiEast => true,
        DataName::Prim(_) | DataName::Cons(_) | DataName::CSound => true,
        DataName::T | DataName::Iter | DataName::Dt | DataName::DtKind => false,
    }
}
/// The model: is this configuration valid for the flux type `kt`?
fn valid(c: &CorriesConfig, kt: bool, ph: Ph) -> bool {
    let m = &c.mesh_config;
    let n = &c.numerics_config;
    let TimeIntegrationConfig::Rkf(r) = n.time_integration_config;
    let pos = |x: f64| !x.is_nan() && x > 0.0;
    let mesh = {
        // the values used are such that all of this is exact
        let dx = (m.xi_out - m.xi_in) / (S - 4) as f64;
        m.xi_in < m.xi_out
            && m.xi_in.is_finite()
            && m.xi_out.is_finite()
            && (0..=2 * S).all(|k| m.xi_in + dx * (k as f64 / 2.0 - 2.0) != 0.0)
    };
    let streams = c.writer_config.iter().all(|o| {
        !(o.stream_mode == StreamMode::File && (o.folder_name.is_empty() || o.file_name.is_empty()))
            && !o.data_names.is_empty()
            && !(o.string_conversion_mode == ToStringConversionMode::Scalar && o.data_names.iter().any(is_vector))
    });
    let equations = [&c.boundary_condition_west, &c.boundary_condition_east].iter().all(|b| match b {
        BoundaryMode::NoGradients => true,
        BoundaryMode::Custom(v) => v.iter().all(|(j, _)| *j < ph.e()),
    }) && c.writer_config.iter().flat_map(|o| &o.data_names).all(|n| match n {
        DataName::Prim(j) | DataName::Cons(j) => *j < ph.e(),
        _ => true,
    });
    mesh && c.physics_config.adiabatic_index > 1.0
        && c.physics_config.adiabatic_index < 2.0
        && n.iter_max > 0
        && n.t0 >= 0.0
        && n.t_end > n.t0
        && pos(n.dt_min)
        && pos(n.dt_max)
        && pos(n.dt_cfl_param)
        && pos(r.asc_relative_tolerance)
        && pos(r.asc_absolute_tolerance)
        && pos(r.asc_timestep_friction)
        && mono(c).map_or(true, |p| p > 1.0)
        && kt == matches!(n.numflux_config, NumFluxConfig::Kt { .. })
        && streams
        && equations
}

fn rk(rkf_mode: Rk, asc: bool) -> TimeIntegrationConfig {
    TimeIntegrationConfig::Rkf(RkfConfig { rkf_mode, asc, asc_relative_tolerance: 1e-3, asc_absolute_tolerance: 1e-3, asc_timestep_friction: 0.08 })
}
fn dims() -> Vec<Dim> {
    let mut d: Vec<Dim> = vec![];
    fn num(name: &'static str, v: &[f64], set: fn(&mut CorriesConfig, f64)) -> Dim {
        Dim {
            name,
            vals: v
                .iter()
                .map(|&x| Val { text: format!("{x:?}"), f: Box::new(move |c: &mut CorriesConfig, _: &Path| set(c, x)) as Mutator })
                .collect(),
        }
    }
    let inf = f64::INFINITY;
    let nan = f64::NAN;
    let tiny = f64::from_bits(1);
    fn free(text: &'static str, f: fn(&mut CorriesConfig, &Path)) -> Val {
        Val { text: text.into(), f: Box::new(f) as Mutator }
    }
    // what is valid by itself, and must neither add nor remove anything
    d.push(Dim {
        name: "layout",
        vals: vec![
            free("all streams in one folder", |c, p| {
                for o in c.writer_config.iter_mut() {
                    o.folder_name = p.join("x").to_str().unwrap().to_string();
                }
            }),
            free("all streams under one name", |c, p| {
                for o in c.writer_config.iter_mut() {
                    o.folder_name = p.join("y").to_str().unwrap().to_string();
                    o.file_name = "q".into();
                    o.should_clear_out_folder = false;
                }
            }),
            free("twenty more streams", |c, p| {
                for k in 0..20 {
                    let mut o = file_stream(&p.join(format!("more{}", k / 7)), &format!("m{k}"), vec![DataName::T]);
                    o.should_print_metadata = k % 3 == 0;
                    c.writer_config.insert(0, o);
                }
            }),
            free("the file streams keep company with standard output", |c, _| {
                let mut o = c.writer_config[0].clone();
                o.stream_mode = StreamMode::Stdout;
                c.writer_config.insert(0, o);
            }),
            free("TSV, other precisions, ghost cells", |c, _| {
                for (k, o) in c.writer_config.iter_mut().enumerate() {
                    o.formatting_mode = FormattingMode::TSV;
                    o.precision = k * 9;
                    o.should_print_ghostcells = true;
                }
            }),
            free("no metadata, no clearing", |c, _| {
                for o in c.writer_config.iter_mut() {
                    o.should_print_metadata = false;
                    o.should_clear_out_folder = false;
                }
            }),
        ],
    });
    d.push(Dim {
        name: "integration",
        vals: vec![
            free("RKF45 with step control", |c, _| c.numerics_config.time_integration_config = rk(Rk::RKF45, true)),
            free("RK4 with step control", |c, _| c.numerics_config.time_integration_config = rk(Rk::RK4, true)),
            free("SSPRK5 without step control", |c, _| c.numerics_config.time_integration_config = rk(Rk::SSPRK5, false)),
            free("Heun2 with step control", |c, _| c.numerics_config.time_integration_config = rk(Rk::Heun2, true)),
        ],
    });
    d.push(Dim {
        name: "surroundings",
        vals: vec![
            free("CGS units", |c, _| c.physics_config.units_mode = UnitsMode::CGS),
            free("banner", |c, _| c.print_banner = true),
            free("walls", |c, _| {
                c.boundary_condition_west = BoundaryMode::Custom(vec![(0, Bm::NoGradients), (1, Bm::Reflecting)]);
                c.boundary_condition_east = c.boundary_condition_west.clone();
            }),
            free("a thousand outputs", |c, _| c.output_counter_max = 1000),
        ],
    });
    let xi = [
        (1.0, 2.0),
        (2.0, 1.0),
        (1.0, 1.0),
        (-2.0, -1.0),
        (-1.0, -2.0),
        (nan, 2.0),
        (1.0, nan),
        (nan, nan),
        (1.0, inf),
        (-inf, 2.0),
        (-inf, inf),
        (inf, inf),
        (0.0, 1.0),
        (-1.0, 0.0),
        (-0.0, 1.0),
        (-1.0, 1.0),
        (0.5, 1.5),
        (-1.5, -0.5),
        (0.25, 1.25),
        (-1.25, -0.25),
        (-0.625, 0.375),
        (-0.5625, 0.4375),
        (0.375, 1.375),
        (0.125, 1.125),
        (-1.375, -0.375),
        (-1.125, -0.125),
        (1.0, 1.0 + 4096.0 * f64::EPSILON),
        (1024.0, 1024.0 * 1024.0),
    ];
    d.push(Dim {
        name: "xi",
        vals: xi
            .into_iter()
            .map(|(a, b)| Val {
                text: format!("[{a:?}, {b:?}]"),
                f: Box::new(move |c: &mut CorriesConfig, _: &Path| {
                    c.mesh_config.xi_in = a;
                    c.mesh_config.xi_out = b;
                }) as Mutator,
            })
            .collect(),
    });
    let e = f64::EPSILON;
    d.push(num(
        "adiabatic_index",
        &[1.4, 1.0, 1.0 + e, 1.0 - e / 2.0, 2.0, 2.0 - e, 2.0 + 2.0 * e, 0.0, -1.4, 3.0, nan, inf, -inf, -nan],
        |c, x| c.physics_config.adiabatic_index = x,
    ));
    d.push(Dim {
        name: "iter_max",
        vals: [1usize, 0, 2, usize::MAX - 2, usize::MAX]
            .into_iter()
            .map(|x| Val { text: format!("{x}"), f: Box::new(move |c: &mut CorriesConfig, _: &Path| c.numerics_config.iter_max = x) as Mutator })
            .collect(),
    });
    d.push(num("t0", &[0.0, -0.0, tiny, -tiny, -1.0, 1.0, nan, inf, -inf], |c, x| c.numerics_config.t0 = x));
    d.push(num("t_end", &[1.0, 0.0, -0.0, 1.0 + e, 1.0 - e, tiny, -1.0, nan, inf, -inf, 1e300], |c, x| {
        c.numerics_config.t_end = x
    }));
    let p = [1e-3, 0.0, -0.0, tiny, -tiny, -1.0, f64::MAX, nan, -nan, inf, -inf];
    d.push(num("dt_min", &p, |c, x| c.numerics_config.dt_min = x));
    d.push(num("dt_max", &p, |c, x| c.numerics_config.dt_max = x));
    d.push(num("dt_cfl_param", &p, |c, x| c.numerics_config.dt_cfl_param = x));
    fn rkf(c: &mut CorriesConfig) -> &mut RkfConfig {
        let TimeIntegrationConfig::Rkf(r) = &mut c.numerics_config.time_integration_config;
        r
    }
    d.push(num("asc_relative_tolerance", &p, |c, x| rkf(c).asc_relative_tolerance = x));
    d.push(num("asc_absolute_tolerance", &p, |c, x| rkf(c).asc_absolute_tolerance = x));
    d.push(num("asc_timestep_friction", &p, |c, x| rkf(c).asc_timestep_friction = x));
    {
        let mut vals = vec![];
        let mut l: Vec<NumFluxConfig> = vec![NumFluxConfig::Hll];
        for lim in [Lim::NoLimiter, Lim::MinMod, Lim::Superbee, Lim::VanLeer] {
            l.push(NumFluxConfig::Kt { limiter_mode: lim });
        }
        for x in [1.3, 1.0, 1.0 + e, 1.0 - e / 2.0, 0.5, 0.0, -0.0, -1.5, 2.0, 4.0, 1e300, nan, -nan, inf, -inf] {
            l.push(NumFluxConfig::Kt { limiter_mode: Lim::Monocent(x) });
        }
        for x in l {
            vals.push(Val { text: format!("{x:?}"), f: Box::new(move |c: &mut CorriesConfig, _: &Path| c.numerics_config.numflux_config = x) as Mutator });
        }
        d.push(Dim { name: "numflux_config", vals });
    }
    {
        // one stream at one position
        let mut vals = vec![];
        let mut add = |text: String, pos: usize, f: Box<dyn Fn(&mut OutputConfig) + Sync>| {
            vals.push(Val {
                text: format!("{text} in stream {pos}"),
                f: Box::new(move |c: &mut CorriesConfig, _: &Path| {
                    let n = c.writer_config.len();
                    f(&mut c.writer_config[n - 3 + pos])
                }) as Mutator,
            });
        };
        for pos in 0..3 {
            // without a folder a defective writer would write to the root of the file system: ask it for nothing
            add("no folder".into(), pos, Box::new(|o| {
                o.folder_name.clear();
                o.should_clear_out_folder = false;
                o.should_print_metadata = false;
            }));
            add("no file name".into(), pos, Box::new(|o| o.file_name.clear()));
            add("no names".into(), pos, Box::new(|o| {
                o.folder_name.clear();
                o.file_name.clear();
                o.should_clear_out_folder = false;
                o.should_print_metadata = false;
            }));
            add("stdout without names".into(), pos, Box::new(|o| {
                o.stream_mode = StreamMode::Stdout;
                o.folder_name.clear();
                o.file_name.clear()
            }));
            for v in [DataName::XiCent, DataName::XiWest, DataName::XiEast, DataName::Prim(0), DataName::Prim(1), DataName::Cons(0), DataName::CSound] {
                add(format!("scalar {v:?} only"), pos, Box::new(move |o| {
                    o.string_conversion_mode = ToStringConversionMode::Scalar;
                    o.data_names = vec![v];
                }));
                add(format!("scalar {v:?} last"), pos, Box::new(move |o| {
                    o.string_conversion_mode = ToStringConversionMode::Scalar;
                    o.data_names = vec![DataName::T, DataName::Iter, DataName::Dt, DataName::DtKind, v];
                }));
                add(format!("scalar {v:?} between, to stdout"), pos, Box::new(move |o| {
                    o.stream_mode = StreamMode::Stdout;
                    o.string_conversion_mode = ToStringConversionMode::Scalar;
                    o.data_names = vec![DataName::T, v, DataName::DtKind];
                }));
                add(format!("vector {v:?}"), pos, Box::new(move |o| {
                    o.string_conversion_mode = ToStringConversionMode::Vector;
                    o.data_names = vec![v, DataName::T, DataName::Iter, DataName::Dt, DataName::DtKind];
                }));
            }
            add("nothing to write".into(), pos, Box::new(|o| o.data_names.clear()));
            add("nothing to write in vector mode".into(), pos, Box::new(|o| {
                o.string_conversion_mode = ToStringConversionMode::Vector;
                o.data_names.clear()
            }));
            add("nothing to write but metadata".into(), pos, Box::new(|o| {
                o.should_print_metadata = true;
                o.data_names.clear()
            }));
            add("vector mode with scalars only".into(), pos, Box::new(move |o| {
                o.string_conversion_mode = ToStringConversionMode::Vector;
                o.data_names = vec![DataName::T];
            }));
        }
        // equations that may not exist
        let names = [DataName::Prim(1), DataName::Prim(2), DataName::Prim(3), DataName::Prim(usize::MAX), DataName::Cons(1), DataName::Cons(2), DataName::Cons(3), DataName::Cons(4), DataName::Cons(usize::MAX)];
        for pos in 0..3 {
            for n in names {
                for at in [0, 3] {
                    add(format!("{n:?} at place {at}"), pos, Box::new(move |o| {
                        o.string_conversion_mode = ToStringConversionMode::Vector;
                        o.data_names = vec![DataName::T, DataName::Prim(0), DataName::Cons(0)];
                        o.data_names.insert(at, n);
                    }));
                }
            }
        }
        d.push(Dim { name: "stream", vals });
    }
    {
        let mut vals = vec![];
        for west in [true, false] {
            for j in [1usize, 2, 3, 4, usize::MAX] {
                for (text, extra) in [("alone", 0), ("first", 1), ("last", 2)] {
                    for bm in [Bm::NoGradients, Bm::Reflecting] {
                        vals.push(Val {
                            text: format!("{bm:?} for equation {j}, {text}, {}", if west { "west" } else { "east" }),
                            f: Box::new(move |c: &mut CorriesConfig, _: &Path| {
                                let mut v = vec![(0, Bm::NoGradients), (1, Bm::OutflowNoGradients)];
                                match extra {
                                    0 => v.clear(),
                                    1 => v.reverse(),
                                    _ => {},
                                }
                                v.insert(if extra == 1 { 0 } else { v.len() }, (j, bm));
                                *(if west { &mut c.boundary_condition_west } else { &mut c.boundary_condition_east }) = BoundaryMode::Custom(v);
                            }) as Mutator,
                        });
                    }
                }
            }
        }
        d.push(Dim { name: "boundaries", vals });
    }
    d
}

fn base(kt: bool, ph: Ph, root: &Path) -> CorriesConfig {
    let c = C { ph, s: S, fl: if kt { Fl::Kt(Lim::VanLeer) } else { Fl::Hll }, xi: (1.0, 2.0), t_end: 1.0, ..C::default() };
    let mut a = file_stream(&root.join("x"), "o", vec![DataName::T, DataName::Prim(0)]);
    a.string_conversion_mode = ToStringConversionMode::Vector;
    a.should_clear_out_folder = true;
    a.should_print_metadata = true;
    let mut b = file_stream(&root.join("new/deep"), "p", vec![DataName::T]);
    b.should_clear_out_folder = true;
    let mut s = file_stream(&root.join("y"), "q", vec![DataName::T, DataName::Iter]);
    s.should_print_metadata = true;
    c.config_with(vec![a, b, s])
}

/// Err: panic
fn init(c: &CorriesConfig, kt: bool, ph: Ph) -> Result<Result<(), String>, String> {
    let u = Init::uniform(ph, S, (1.0, 0.1, 1.0), 1.0);
    guard(|| {
        match (ph, kt) {
            (Ph::Adi, false) => SimI::<Euler1DAdiabatic<S>, Hll<3, S>, 3, S>::new(c, &u).map(|_| ()),
            (Ph::Adi, true) => SimI::<Euler1DAdiabatic<S>, Kt<3, S>, 3, S>::new(c, &u).map(|_| ()),
            (Ph::Iso, false) => SimI::<Euler1DIsot<S>, Hll<2, S>, 2, S>::new(c, &u).map(|_| ()),
            (Ph::Iso, true) => SimI::<Euler1DIsot<S>, Kt<2, S>, 2, S>::new(c, &u).map(|_| ()),
        }
        .map_err(|e| format!("{e:#}"))
    })
}

type Tree = BTreeMap<String, Option<Vec<u8>>>;
struct Place {
    root: PathBuf,
    before: Tree,
    dirty: bool,
}
impl Place {
    fn new(base: &Path) -> Place {
        let root = base.join(format!("w{:?}", std::thread::current().id()));
        let mut p = Place { root, before: Tree::new(), dirty: true };
        p.reset();
        p
    }
    fn reset(&mut self) {
        if !self.dirty {
            return;
        }
        let _ = std::fs::remove_dir_all(&self.root);
        for (f, c) in [("x/o_0.csv", "old"), ("x/o_metadata.json", "old"), ("x/sub/keep", "k"), ("y/q.csv", "old"), ("z", "z"), ("o.csv", "a")] {
            let f = self.root.join(f);
            std::fs::create_dir_all(f.parent().unwrap()).unwrap();
            std::fs::write(f, c).unwrap();
        }
        self.before = tree(&self.root);
        self.dirty = false;
    }
}

fn main() {
    vh::run("C16", |ctx| {
        let ds = dims();
        let place = scratch();
        std::env::set_current_dir(&place).unwrap();
        let mut one: Vec<(usize, usize)> = vec![];
        for (i, d) in ds.iter().enumerate() {
            for j in 0..d.vals.len() {
                one.push((i, j));
            }
        }
        let n = one.len();
        let types = [(false, Ph::Adi), (true, Ph::Adi), (false, Ph::Iso), (true, Ph::Iso)];
        let judge = |p: &mut Place, c: &CorriesConfig, kt: bool, ph: Ph, show: &dyn Fn() -> String, t: &mut Tally| -> CaseResult {
            let ok = valid(c, kt, ph);
            let r = init(c, kt, ph);
            t.transitions += 1;
            t.states += 1;
            t.traces += 1;
            match r {
                Err(e) => {
                    p.dirty = true;
                    Err(format!("{e}\n(the configuration is {})\n{}", if ok { "valid" } else { "invalid" }, show()))
                },
                Ok(Ok(())) => {
                    p.dirty = true;
                    if !ok {
                        return Err(format!("an invalid configuration was accepted\n{}", show()));
                    }
                    t.sample(|| format!("accepted: {}", show()));
                    Ok(())
                },
                Ok(Err(e)) => {
                    if ok {
                        p.dirty = true;
                        return Err(format!("a valid configuration was rejected: {e}\n{}", show()));
                    }
                    let now = tree(&p.root);
                    if now != p.before {
                        p.dirty = true;
                        return Err(format!(
                            "the configuration was rejected ({e}), but files had been touched: {:?} before, {:?} after\n{}",
                            p.before.keys().collect::<Vec<_>>(),
                            now.keys().collect::<Vec<_>>(),
                            show()
                        ));
                    }
                    t.sample(|| format!("rejected: {}", show()));
                    Ok(())
                },
            }
        };
        let check = |p: &mut Place, what: &[(usize, usize)], kt: bool, ph: Ph, t: &mut Tally| -> CaseResult {
            p.reset();
            let mut c = base(kt, ph, &p.root);
            // ordered by dimension: the stream's changes do not overlap with those of others
            for &(i, j) in what {
                (ds[i].vals[j].f)(&mut c, &p.root);
            }
            let show = || {
                let w: Vec<String> = what.iter().map(|&(i, j)| format!("{} = {}", ds[i].name, ds[i].vals[j].text)).collect();
                format!("{ph:?} with {}: {}", if kt { "Kt" } else { "Hll" }, w.join(", "))
            };
            judge(p, &c, kt, ph, &show, t)
        };
        ctx.group_w("single", 4 * (n + 1), || Place::new(&place), |p, k, t| {
            let mut x = Radix(k);
            let &(kt, ph) = x.of(&types);
            match x.take(n + 1) {
                0 => check(p, &[], kt, ph, t),
                i => check(p, &[one[i - 1]], kt, ph, t),
            }
        });
        // what overlaps is left out: two values of one dimension
        let mut pairs = vec![];
        for i in 0..n {
            for j in i + 1..n {
                if one[i].0 != one[j].0 {
                    pairs.push((i, j));
                }
            }
        }
        ctx.group_w("pairs", 4 * pairs.len(), || Place::new(&place), |p, k, t| {
            let mut x = Radix(k);
            let &(kt, ph) = x.of(&types);
            let &(i, j) = x.of(&pairs);
            check(p, &[one[i], one[j]], kt, ph, t)
        });
        if ctx.thorough() {
            let mut triples = vec![];
            for &(i, j) in &pairs {
                for k in j + 1..n {
                    if one[k].0 != one[j].0 {
                        triples.push((i as u32, j as u32, k as u32));
                    }
                }
            }
            ctx.group_w("triples", 2 * triples.len(), || Place::new(&place), |p, k, t| {
                let mut x = Radix(k);
                let &(kt, ph) = x.of(&[(false, Ph::Adi), (true, Ph::Iso)]);
                let &(a, b, c) = x.of(&triples);
                check(p, &[one[a as usize], one[b as usize], one[c as usize]], kt, ph, t)
            });
        }
        // long lists of streams, of data and of boundary rules, where at most one entry is not valid
        let longest = 40;
        let kinds = ["a name of the stream", "a scalar stream's name", "a stream without data", "a stream without a file", "a scalar stream with vector data", "a western rule", "an eastern rule"];
        ctx.group_w("long lists", 4 * kinds.len() * longest * 3 * 2, || Place::new(&place), |p, k, t| {
            let mut x = Radix(k);
            let &(kt, ph) = x.of(&types);
            let at = x.take(longest);
            let n = [at + 1, at + 2, longest][x.take(3)];
            let bad = x.take(2) == 1;
            let kind = x.take(kinds.len());
            if at >= n {
                return Ok(());
            }
            p.reset();
            let mut c = base(kt, ph, &p.root);
            let names: Vec<DataName> = (0..n)
                .map(|i| match (i == at && bad, i % 3) {
                    (true, _) => [DataName::Prim(ph.e()), DataName::Cons(ph.e())][i % 2],
                    (_, 0) => DataName::Cons(i % ph.e()),
                    (_, 1) => DataName::Prim(i % ph.e()),
                    _ => DataName::T,
                })
                .collect();
            let rules = || -> BoundaryMode {
                BoundaryMode::Custom((0..n).map(|i| (if i == at && bad { ph.e() } else { i % ph.e() }, BMS[i % BMS.len()])).collect())
            };
            let streams = |odd: &dyn Fn(&mut OutputConfig), root: &Path| -> Vec<OutputConfig> {
                (0..n)
                    .map(|i| {
                        let mut o = file_stream(&root.join(format!("more{}", i % 4)), &format!("m{i}"), vec![DataName::T, DataName::Iter]);
                        if i == at && bad {
                            odd(&mut o);
                        }
                        o
                    })
                    .collect()
            };
            match kind {
                0 => c.writer_config[0].data_names = names,
                1 => c.writer_config[1].data_names = (0..n).map(|i| if i == at && bad { DataName::XiCent } else { DataName::T }).collect(),
                2 => c.writer_config.extend(streams(&|o| o.data_names.clear(), &p.root)),
                3 => c.writer_config.extend(streams(&|o| o.file_name.clear(), &p.root)),
                4 => c.writer_config.extend(streams(&|o| o.data_names.push(DataName::CSound), &p.root)),
                5 => c.boundary_condition_west = rules(),
                _ => c.boundary_condition_east = rules(),
            }
            let show = || format!("{ph:?} with {}: entry {at} of {n} ({}) is {}valid", if kt { "Kt" } else { "Hll" }, kinds[kind], if bad { "in" } else { "" });
            judge(p, &c, kt, ph, &show, t)
        });
        // where zero lies: every position, in steps of a quarter of a cell, on meshes of power-of-two cell counts
        let sizes = [5usize, 6, 8, 12, 36];
        let off: Vec<(usize, i64, f64)> = sizes
            .iter()
            .flat_map(|&s| (-(4 * s as i64)..=16).flat_map(move |k| [0.5, 1.0, 8.0].map(move |dx| (s, k, dx))))
            .collect();
        ctx.group("meshes", 4 * off.len(), |k, t| {
            let mut x = Radix(k);
            let &(kt, ph) = x.of(&types);
            let &(s, q, dx) = x.of(&off);
            let x0 = q as f64 * dx / 4.0;
            let c = C {
                ph,
                s,
                fl: if kt { Fl::Kt(Lim::VanLeer) } else { Fl::Hll },
                xi: (x0, x0 + dx * (s - 4) as f64),
                ..C::default()
            };
            let zero = (0..=2 * s).any(|k| x0 + dx * (k as f64 / 2.0 - 2.0) == 0.0);
            t.transitions += 1;
            t.states += 1;
            t.traces += 1;
            let r = guard(|| make(&c, &Init::uniform(ph, s, (1.0, 0.1, 1.0), 1.0)).map(|_| ()).map_err(|e| format!("{e:#}")))?;
            if r.is_ok() == zero {
                return Err(format!("zero is {}on a cell edge or centre, but the result is {r:?}\n{c:?}", if zero { "" } else { "not " }));
            }
            Ok(())
        });
        // everything else is free
        let sides = |ph: Ph| {
            let mut v = vec![BoundaryMode::NoGradients, BoundaryMode::Custom(vec![])];
            v.extend(BMS.iter().map(|b| BoundaryMode::Custom((0..ph.e()).map(|j| (j, *b)).collect())));
            v.push(BoundaryMode::Custom(vec![(1, Bm::Reflecting)]));
            v
        };
        let ns = 11;
        let (r1, r2) = (9 * 2 * 3, 6);
        ctx.group_w("free fields", 4 * ns * ns * r1 * r2, || Place::new(&place), |p, k, t| {
            let mut x = Radix(k);
            let &(kt, ph) = x.of(&types);
            p.dirty = false;
            let mut c = base(kt, ph, &p.root);
            let s = sides(ph);
            c.boundary_condition_west = x.of(&s).clone();
            c.boundary_condition_east = x.of(&s).clone();
            {
                let TimeIntegrationConfig::Rkf(r) = &mut c.numerics_config.time_integration_config;
                r.rkf_mode = *x.of(&RKS);
                r.asc = x.take(2) == 1;
            }
            c.physics_config.units_mode = x.of(&[UnitsMode::SI, UnitsMode::CGS, UnitsMode::SI]).clone();
            let q = x.take(r2);
            c.output_counter_max = [1, 10, 1000, 2, 99, 1_000_000][q];
            c.print_banner = q % 2 == 1;
            for o in c.writer_config.iter_mut() {
                o.should_clear_out_folder = false;
                o.should_print_ghostcells = q % 3 == 0;
                o.should_print_metadata = q % 3 == 1;
                o.precision = [0, 1, 7, 17, 30, 60][q];
                o.formatting_mode = if q % 2 == 0 { FormattingMode::TSV } else { FormattingMode::CSV };
            }
            t.transitions += 1;
            t.states += 1;
            t.traces += 1;
            match init(&c, kt, ph) {
                Ok(Ok(())) => Ok(()),
                Ok(Err(e)) | Err(e) => Err(format!("a valid configuration was not accepted: {e}\n{c:?}")),
            }
        });
        std::env::set_current_dir("/").unwrap();
    })
}
