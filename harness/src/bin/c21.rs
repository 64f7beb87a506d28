//! The metadata dump, read back and compared with the configuration field by field.
use corries::prelude::*;
use corries::units::UnitsMode;
use vh::capture::Capture;
use vh::json::{self, J};
use vh::*;

const S: usize = 6;

/// Does the document hold exactly this configuration?
struct Cmp {
    path: Vec<String>,
}
type R = Result<(), String>;
impl Cmp {
    fn err<T>(&self, what: impl std::fmt::Display) -> Result<T, String> {
        Err(format!("the dump is wrong at {}: {what}", self.path.join(".")))
    }
    fn obj(&mut self, j: &J, keys: &[&str]) -> R {
        let J::Obj(m) = j else { return self.err(format!("not an object: {j:?}")) };
        let have: Vec<&str> = m.keys().map(|k| k.as_str()).collect();
        let mut want = keys.to_vec();
        want.sort();
        if have != want {
            return self.err(format!("fields {have:?}, expected {want:?}"));
        }
        Ok(())
    }
    fn at(&mut self, j: &J, k: &str, f: impl FnOnce(&mut Self, &J) -> R) -> R {
        let J::Obj(m) = j else { return self.err("not an object") };
        let Some(v) = m.get(k) else { return self.err(format!("field {k} is missing")) };
        self.path.push(k.to_string());
        f(self, v)?;
        self.path.pop();
        Ok(())
    }
    fn num(&mut self, j: &J, k: &str, x: f64) -> R {
        self.at(j, k, |c, v| c.f(v, x))
    }
    fn f(&mut self, v: &J, x: f64) -> R {
        match v {
            J::Num(t) if t.parse::<f64>().map(f64::to_bits) == Ok(x.to_bits()) => Ok(()),
            _ => self.err(format!("{v:?} instead of {x:?}")),
        }
    }
    fn u(&mut self, v: &J, x: usize) -> R {
        match v {
            J::Num(t) if *t == x.to_string() => Ok(()),
            _ => self.err(format!("{v:?} instead of {x}")),
        }
    }
    fn int(&mut self, j: &J, k: &str, x: usize) -> R {
        self.at(j, k, |c, v| c.u(v, x))
    }
    fn s(&mut self, v: &J, x: &str) -> R {
        match v {
            J::Str(t) if t == x => Ok(()),
            _ => self.err(format!("{v:?} instead of {x:?}")),
        }
    }
    fn str(&mut self, j: &J, k: &str, x: &str) -> R {
        self.at(j, k, |c, v| c.s(v, x))
    }
    fn boolean(&mut self, j: &J, k: &str, x: bool) -> R {
        self.at(j, k, |c, v| if *v == J::Bool(x) { Ok(()) } else { c.err(format!("{v:?} instead of {x}")) })
    }
    fn list<T>(&mut self, v: &J, l: &[T], f: impl Fn(&mut Self, &J, &T) -> R) -> R {
        let J::Arr(a) = v else { return self.err(format!("not a list: {v:?}")) };
        if a.len() != l.len() {
            return self.err(format!("{} elements instead of {}", a.len(), l.len()));
        }
        for (i, (x, y)) in a.iter().zip(l).enumerate() {
            self.path.push(i.to_string());
            f(self, x, y)?;
            self.path.pop();
        }
        Ok(())
    }
    /// {"name": payload}
    fn tagged(&mut self, v: &J, name: &str, f: impl FnOnce(&mut Self, &J) -> R) -> R {
        self.obj(v, &[name])?;
        self.at(v, name, f)
    }
    fn boundary(&mut self, v: &J, b: &BoundaryMode) -> R {
        match b {
            BoundaryMode::NoGradients => self.s(v, "NoGradients"),
            BoundaryMode::Custom(l) => self.tagged(v, "Custom", |c, v| {
                c.list(v, l, |c, x, (j, m)| {
                    let J::Arr(a) = x else { return c.err("not a pair") };
                    if a.len() != 2 {
                        return c.err("not a pair");
                    }
                    c.u(&a[0], *j)?;
                    c.s(
                        &a[1],
                        match m {
                            Bm::Extrapolate => "Extrapolate",
                            Bm::ExtrapolateDensityKepler => "ExtrapolateDensityKepler",
                            Bm::ExtrapolateEtaVelocityKepler => "ExtrapolateEtaVelocityKepler",
                            Bm::NearZero => "NearZero",
                            Bm::NoGradients => "NoGradients",
                            Bm::OutflowNoGradients => "OutflowNoGradients",
                            Bm::OutFlowExtrapolate => "OutFlowExtrapolate",
                            Bm::Reflecting => "Reflecting",
                        },
                    )
                })
            }),
        }
    }
    fn config(&mut self, j: &J, c: &CorriesConfig) -> R {
        self.obj(
            j,
            &[
                "print_banner",
                "mesh_config",
                "physics_config",
                "boundary_condition_west",
                "boundary_condition_east",
                "numerics_config",
                "output_counter_max",
                "writer_config",
            ],
        )?;
        self.boolean(j, "print_banner", c.print_banner)?;
        self.int(j, "output_counter_max", c.output_counter_max)?;
        self.at(j, "mesh_config", |z, j| {
            z.obj(j, &["mode", "xi_in", "xi_out"])?;
            z.str(j, "mode", match c.mesh_config.mode {
                MeshMode::Cartesian => "Cartesian",
            })?;
            z.num(j, "xi_in", c.mesh_config.xi_in)?;
            z.num(j, "xi_out", c.mesh_config.xi_out)
        })?;
        self.at(j, "physics_config", |z, j| {
            z.obj(j, &["adiabatic_index", "units_mode"])?;
            z.num(j, "adiabatic_index", c.physics_config.adiabatic_index)?;
            z.str(j, "units_mode", match c.physics_config.units_mode {
                UnitsMode::SI => "SI",
                UnitsMode::CGS => "CGS",
            })
        })?;
        self.at(j, "boundary_condition_west", |z, j| z.boundary(j, &c.boundary_condition_west))?;
        self.at(j, "boundary_condition_east", |z, j| z.boundary(j, &c.boundary_condition_east))?;
        let n = &c.numerics_config;
        self.at(j, "numerics_config", |z, j| {
            z.obj(j, &["numflux_config", "time_integration_config", "iter_max", "t0", "t_end", "dt_min", "dt_max", "dt_cfl_param"])?;
            z.int(j, "iter_max", n.iter_max)?;
            z.num(j, "t0", n.t0)?;
            z.num(j, "t_end", n.t_end)?;
            z.num(j, "dt_min", n.dt_min)?;
            z.num(j, "dt_max", n.dt_max)?;
            z.num(j, "dt_cfl_param", n.dt_cfl_param)?;
            z.at(j, "numflux_config", |z, j| match &n.numflux_config {
                NumFluxConfig::Hll => z.s(j, "Hll"),
                NumFluxConfig::Kt { limiter_mode } => z.tagged(j, "Kt", |z, j| {
                    z.tagged(j, "limiter_mode", |z, j| match limiter_mode {
                        Lim::NoLimiter => z.s(j, "NoLimiter"),
                        Lim::MinMod => z.s(j, "MinMod"),
                        Lim::Superbee => z.s(j, "Superbee"),
                        Lim::VanLeer => z.s(j, "VanLeer"),
                        Lim::Monocent(p) => z.tagged(j, "Monocent", |z, j| z.f(j, *p)),
                    })
                }),
            })?;
            let TimeIntegrationConfig::Rkf(r) = &n.time_integration_config;
            z.at(j, "time_integration_config", |z, j| {
                z.tagged(j, "Rkf", |z, j| {
                    z.obj(j, &["rkf_mode", "asc", "asc_relative_tolerance", "asc_absolute_tolerance", "asc_timestep_friction"])?;
                    z.str(j, "rkf_mode", match r.rkf_mode {
                        Rk::RK1 => "RK1",
                        Rk::RK2 => "RK2",
                        Rk::RK3 => "RK3",
                        Rk::RK4 => "RK4",
                        Rk::Heun2 => "Heun2",
                        Rk::RKF12 => "RKF12",
                        Rk::RKF45 => "RKF45",
                        Rk::SSPRK3 => "SSPRK3",
                        Rk::SSPRK5 => "SSPRK5",
                    })?;
                    z.boolean(j, "asc", r.asc)?;
                    z.num(j, "asc_relative_tolerance", r.asc_relative_tolerance)?;
                    z.num(j, "asc_absolute_tolerance", r.asc_absolute_tolerance)?;
                    z.num(j, "asc_timestep_friction", r.asc_timestep_friction)
                })
            })
        })?;
        self.at(j, "writer_config", |z, j| {
            z.list(j, &c.writer_config, |z, j, o| {
                z.obj(
                    j,
                    &[
                        "stream_mode",
                        "formatting_mode",
                        "string_conversion_mode",
                        "folder_name",
                        "should_clear_out_folder",
                        "file_name",
                        "precision",
                        "should_print_ghostcells",
                        "should_print_metadata",
                        "data_names",
                    ],
                )?;
                z.str(j, "stream_mode", match o.stream_mode {
                    StreamMode::Stdout => "Stdout",
                    StreamMode::File => "File",
                })?;
                z.str(j, "formatting_mode", match o.formatting_mode {
                    FormattingMode::CSV => "CSV",
                    FormattingMode::TSV => "TSV",
                })?;
                z.str(j, "string_conversion_mode", match o.string_conversion_mode {
                    ToStringConversionMode::Scalar => "Scalar",
                    ToStringConversionMode::Vector => "Vector",
                })?;
                z.str(j, "folder_name", &o.folder_name)?;
                z.str(j, "file_name", &o.file_name)?;
                z.boolean(j, "should_clear_out_folder", o.should_clear_out_folder)?;
                z.boolean(j, "should_print_ghostcells", o.should_print_ghostcells)?;
                z.boolean(j, "should_print_metadata", o.should_print_metadata)?;
                z.int(j, "precision", o.precision)?;
                z.at(j, "data_names", |z, j| {
                    z.list(j, &o.data_names, |z, j, d| match d {
                        DataName::XiCent => z.s(j, "XiCent"),
                        DataName::XiWest => z.s(j, "XiWest"),
                        DataName::XiEast => z.s(j, "XiEast"),
                        DataName::Prim(k) => z.tagged(j, "Prim", |z, j| z.u(j, *k)),
                        DataName::Cons(k) => z.tagged(j, "Cons", |z, j| z.u(j, *k)),
                        DataName::CSound => z.s(j, "CSound"),
                        DataName::T => z.s(j, "T"),
                        DataName::Iter => z.s(j, "Iter"),
                        DataName::Dt => z.s(j, "Dt"),
                        DataName::DtKind => z.s(j, "DtKind"),
                    })
                })
            })
        })
    }
}
fn compare(text: &str, c: &CorriesConfig) -> R {
    let j = json::parse(text)?;
    Cmp { path: vec![] }.config(&j, c)
}

type Mutator = Box<dyn Fn(&mut CorriesConfig) + Sync>;
fn rkf(c: &mut CorriesConfig) -> &mut RkfConfig {
    let TimeIntegrationConfig::Rkf(r) = &mut c.numerics_config.time_integration_config;
    r
}
/// (dimension, change)
fn changes() -> Vec<(usize, String, Mutator)> {
    let mut v: Vec<(usize, String, Mutator)> = vec![];
    let mut dim = 0;
    let pos = [
        0.1,
        1.0 / 3.0,
        2.0,
        1e-12,
        1e21,
        1e22,
        1.7976931348623157e308,
        f64::MIN_POSITIVE,
        f64::from_bits(1),
        1.0 + f64::EPSILON,
        9007199254740993.0,
        0.30000000000000004,
        5e-324,
        123456789.12345679,
    ];
    let nums: [(&str, fn(&mut CorriesConfig, f64)); 9] = [
        ("dt_min", |c, x| c.numerics_config.dt_min = x),
        ("dt_max", |c, x| c.numerics_config.dt_max = x),
        ("dt_cfl_param", |c, x| c.numerics_config.dt_cfl_param = x),
        ("asc_relative_tolerance", |c, x| rkf(c).asc_relative_tolerance = x),
        ("asc_absolute_tolerance", |c, x| rkf(c).asc_absolute_tolerance = x),
        ("asc_timestep_friction", |c, x| rkf(c).asc_timestep_friction = x),
        ("t_end", |c, x| c.numerics_config.t_end = x),
        ("t0", |c, x| {
            c.numerics_config.t0 = x * 0.5;
            c.numerics_config.t_end = c.numerics_config.t_end.max(x);
            if !(c.numerics_config.t_end > c.numerics_config.t0) {
                c.numerics_config.t0 = 0.0
            }
        }),
        ("xi", |c, x| {
            if x > 1e-3 && x < 1e10 {
                c.mesh_config.xi_in = x;
                c.mesh_config.xi_out = 7.0 * x;
            } else if x >= 1e10 && x < 1e100 {
                c.mesh_config.xi_in = -7.0 * x;
                c.mesh_config.xi_out = -x;
            }
        }),
    ];
    for (n, f) in nums {
        for x in pos {
            v.push((dim, format!("{n} from {x:?}"), Box::new(move |c| f(c, x))));
        }
        dim += 1;
    }
    v.push((dim, "t0 = -0".into(), Box::new(|c| c.numerics_config.t0 = -0.0)));
    dim += 1;
    for x in [1.0 + f64::EPSILON, 1.1, 1.4, 5.0 / 3.0, 2.0 - f64::EPSILON] {
        v.push((dim, format!("adiabatic index {x:?}"), Box::new(move |c| c.physics_config.adiabatic_index = x)));
    }
    dim += 1;
    for x in [1usize, 2, 1 << 53, (1 << 53) + 1, usize::MAX - 2, usize::MAX] {
        v.push((dim, format!("iter_max {x}"), Box::new(move |c| c.numerics_config.iter_max = x)));
    }
    dim += 1;
    for x in [1usize, 7, 100, 1 << 40] {
        v.push((dim, format!("outputs {x}"), Box::new(move |c| c.output_counter_max = x)));
    }
    dim += 1;
    for west in [true, false] {
        let mut l = vec![BoundaryMode::NoGradients, BoundaryMode::Custom(vec![])];
        for b in BMS {
            for b2 in BMS {
                l.push(BoundaryMode::Custom(vec![(1, b), (0, b2)]));
            }
            l.push(BoundaryMode::Custom(vec![(0, b), (1, b), (0, Bm::NearZero)]));
        }
        for b in l {
            v.push((dim, format!("boundary {b:?}"), Box::new(move |c| {
                if west {
                    c.boundary_condition_west = b.clone()
                } else {
                    c.boundary_condition_east = b.clone()
                }
            })));
        }
        dim += 1;
    }
    for l in [Lim::NoLimiter, Lim::MinMod, Lim::Superbee, Lim::VanLeer, Lim::Monocent(1.1), Lim::Monocent(1e22), Lim::Monocent(1.0 + f64::EPSILON)] {
        v.push((dim, format!("{l:?}"), Box::new(move |c| c.numerics_config.numflux_config = NumFluxConfig::Kt { limiter_mode: l })));
    }
    dim += 1;
    for r in RKS {
        for asc in [false, true] {
            v.push((dim, format!("{r:?} {asc}"), Box::new(move |c| {
                rkf(c).rkf_mode = r;
                rkf(c).asc = asc;
            })));
        }
    }
    dim += 1;
    v.push((dim, "SI".into(), Box::new(|c| c.physics_config.units_mode = UnitsMode::SI)));
    v.push((dim, "CGS".into(), Box::new(|c| c.physics_config.units_mode = UnitsMode::CGS)));
    dim += 1;
    // streams
    for st in 0..3usize {
        for p in [0usize, 1, 17, 60] {
            v.push((dim, format!("precision {p}"), Box::new(move |c| c.writer_config[st].precision = p)));
        }
        dim += 1;
        for (i, n) in ["a b", "q\"uote", "back\\slash", "üñí", "tab\there", "new\nline", "\u{1}\u{1f}\u{7f}", "{\"a\": 1}", "\u{2028}\u{1F600}", "..x", "%s{}{:?}"].into_iter().enumerate() {
            v.push((dim, format!("names with {n:?}"), Box::new(move |c| {
                let o = &mut c.writer_config[st];
                o.folder_name = format!("{}/{n}{}", o.folder_name, if i % 2 == 0 { "/" } else { "" });
                o.file_name = format!("{}{n}", o.file_name);
            })));
        }
        dim += 1;
        for k in 0..16 {
            v.push((dim, format!("flags {k}"), Box::new(move |c| {
                let o = &mut c.writer_config[st];
                o.should_clear_out_folder = k & 1 == 1;
                o.should_print_ghostcells = k & 2 == 2;
                o.should_print_metadata = k & 4 == 4;
                o.formatting_mode = if k & 8 == 8 { FormattingMode::CSV } else { FormattingMode::TSV };
            })));
        }
        dim += 1;
        let all = [DataName::XiCent, DataName::XiWest, DataName::XiEast, DataName::Prim(0), DataName::Prim(1), DataName::Cons(0), DataName::Cons(1), DataName::CSound, DataName::T, DataName::Iter, DataName::Dt, DataName::DtKind];
        for a in 0..12 {
            for b in 0..12 {
                v.push((dim, format!("data {:?} {:?}", all[a], all[b]), Box::new(move |c| {
                    let o = &mut c.writer_config[st];
                    o.string_conversion_mode = ToStringConversionMode::Vector;
                    o.data_names = vec![all[a], all[b], all[a]];
                })));
            }
        }
        dim += 1;
    }
    v
}
fn base(root: &std::path::Path) -> CorriesConfig {
    let c = C { ph: Ph::Iso, s: S, fl: Fl::Kt(Lim::VanLeer), ..C::default() };
    let mut v = vec![];
    for k in 0..3 {
        let mut o = file_stream(&root.join(format!("f{k}")), &format!("s{k}"), vec![DataName::T, DataName::Iter]);
        o.should_print_metadata = k != 1;
        if k == 2 {
            o.string_conversion_mode = ToStringConversionMode::Vector;
            o.data_names = vec![DataName::Prim(1), DataName::CSound];
        }
        v.push(o);
    }
    c.config_with(v)
}
fn sim(c: &CorriesConfig) -> Result<SimI<Euler1DIsot<S>, Kt<2, S>, 2, S>, String> {
    let u = Init::uniform(Ph::Iso, S, (1.0, 0.1, 1.0), 1.0);
    guard(|| SimI::<Euler1DIsot<S>, Kt<2, S>, 2, S>::new(c, &u).map_err(|e| format!("init_corries failed for a valid configuration: {e:#}")))?
}
/// Metadata files below the root, by stream
fn files(root: &std::path::Path, c: &CorriesConfig) -> Result<(), String> {
    let t = tree(root);
    let mut n = 0;
    for (k, o) in c.writer_config.iter().enumerate() {
        if o.stream_mode != StreamMode::File {
            continue;
        }
        let rel = o.folder_name.strip_prefix(&format!("{}/", root.display())).unwrap().trim_end_matches('/').to_string();
        let pre = format!("{rel}/{}", o.file_name);
        let m: Vec<_> = t.iter().filter(|(n, c)| c.is_some() && n.starts_with(&pre) && n.contains("metadata")).collect();
        if m.len() != o.should_print_metadata as usize {
            return Err(format!(
                "stream {k} asked for {} metadata file(s), but there are {:?}",
                o.should_print_metadata as usize,
                m.iter().map(|x| x.0).collect::<Vec<_>>()
            ));
        }
        for (name, text) in m {
            n += 1;
            let text = String::from_utf8(text.clone().unwrap()).map_err(|e| format!("{name}: {e}"))?;
            compare(&text, c).map_err(|e| format!("{e}\nin {name:?}:\n{text}"))?;
        }
    }
    let all = t.iter().filter(|(_, c)| c.as_ref().is_some_and(|c| c.contains(&b'{'))).count();
    if all != n {
        return Err(format!("{all} files look like metadata, expected {n}: {:?}", t.keys()));
    }
    Ok(())
}

fn main() {
    vh::run("C21", |ctx| {
        let place = scratch();
        let ch = changes();
        let mk = || place.join(format!("w{:?}", std::thread::current().id()));
        let check = |root: &std::path::Path, what: &[usize], t: &mut Tally| -> CaseResult {
            let _ = std::fs::remove_dir_all(root);
            std::fs::create_dir_all(root).unwrap();
            let mut c = base(root);
            for w in what {
                (ch[*w].2)(&mut c);
            }
            let show = || format!("{:?}", what.iter().map(|w| &ch[*w].1).collect::<Vec<_>>());
            t.transitions += 1;
            t.states += 1;
            t.traces += 1;
            t.sample(show);
            sim(&c).and_then(|_| files(root, &c)).map_err(|e| format!("{e}\nwith {}", show()))
        };
        ctx.group_w("single", ch.len() + 1, mk, |d, k, t| match k {
            0 => check(d, &[], t),
            k => check(d, &[k - 1], t),
        });
        let mut pairs = vec![];
        for i in 0..ch.len() {
            for j in i + 1..ch.len() {
                if ch[i].0 != ch[j].0 {
                    pairs.push((i, j));
                }
            }
        }
        ctx.group_w("pairs", pairs.len(), mk, |d, k, t| check(d, &[pairs[k].0, pairs[k].1], t));
        if ctx.thorough() {
            // a few values of every field
            let few: Vec<usize> = (0..ch.len()).filter(|&i| (1..=5).any(|b| i < b || ch[i - b].0 != ch[i].0)).collect();
            let mut triples = vec![];
            for (x, &i) in few.iter().enumerate() {
                for (y, &j) in few.iter().enumerate().skip(x + 1) {
                    for &k in few.iter().skip(y + 1) {
                        if ch[i].0 != ch[j].0 && ch[j].0 != ch[k].0 {
                            triples.push([i, j, k]);
                        }
                    }
                }
            }
            ctx.group_w("triples", triples.len(), mk, |d, k, t| check(d, &triples[k], t));
        }
        // which streams get it, how often, and the standard output
        // per stream: stdout/file, scalar/vector, metadata or not
        let d = place.join("seq");
        ctx.group_seq("streams", 8 * 8 * 8 * 2 + 64 + 8, |k, t| {
            let _ = std::fs::remove_dir_all(&d);
            std::fs::create_dir_all(&d).unwrap();
            let mut x = Radix(k);
            let banner = k % 2 == 1;
            let opts: Vec<usize> = if k < 1024 {
                x.take(2);
                vec![x.take(8), x.take(8), x.take(8)]
            } else if k < 1024 + 64 {
                x.0 -= 1024;
                vec![x.take(8), x.take(8)]
            } else {
                vec![k - 1024 - 64]
            };
            let mut c = C { ph: Ph::Iso, s: S, fl: Fl::Kt(Lim::VanLeer), t_end: 0.01, outputs: 2, ..C::default() }.config_with(vec![]);
            c.print_banner = banner;
            for (q, o) in opts.iter().enumerate() {
                let mut s = file_stream(&d.join("f"), &format!("s{q}"), vec![DataName::T, DataName::Iter]);
                if o & 1 == 1 {
                    s.stream_mode = StreamMode::Stdout;
                }
                if o & 2 == 2 {
                    s.string_conversion_mode = ToStringConversionMode::Vector;
                }
                s.should_print_metadata = o & 4 == 4;
                c.writer_config.push(s);
            }
            let show = || format!("streams {opts:?} (bit 0: stdout, 1: vector, 2: metadata), banner {banner}");
            let cap = Capture::start();
            let mut s = sim(&c).map_err(|e| format!("{e}\n{}", show()))?;
            let out = String::from_utf8(cap.take()).map_err(|e| format!("{e}"))?;
            let mut s2 = s;
            let r = guard(|| s2.run().map_err(|e| format!("{e:#}"))).and_then(|x| x);
            let later = String::from_utf8(cap.take()).map_err(|e| format!("{e}"))?;
            drop(cap);
            s = s2;
            let _ = &s;
            t.transitions += 2;
            t.states += 1;
            t.traces += 1;
            r.map_err(|e| format!("the run failed: {e}\n{}", show()))?;
            let f = || -> CaseResult {
                let mut rest = out.as_str();
                let mut n = 0;
                loop {
                    rest = rest.trim_start_matches(['\n', ' ']);
                    if let Some(r) = rest.strip_prefix('#') {
                        rest = r.split_once('\n').map_or("", |x| x.1);
                        continue;
                    }
                    if rest.is_empty() {
                        break;
                    }
                    let (j, r) = json::parse_prefix(rest)?;
                    Cmp { path: vec![] }.config(&j, &c)?;
                    n += 1;
                    rest = r;
                }
                let want = c.writer_config.iter().filter(|o| o.stream_mode == StreamMode::Stdout && o.should_print_metadata).count();
                if n != want {
                    return Err(format!("{n} dumps on the standard output, {want} streams asked for one"));
                }
                if later.contains('{') {
                    return Err("metadata on the standard output after the initialisation".into());
                }
                files(&d, &c)
            };
            f().map_err(|e| format!("{e}\n{}\nstandard output:\n{out}", show()))
        });
    })
}
