//! Poisoned states: every evaluation, equation and interior cell; what a step must refuse and what it must not.
use corries::prelude::*;
use std::cell::RefCell;
use std::rc::Rc;
use vh::probe::*;
use vh::*;

fn make_w(c: &C, init: &Init, writer: Vec<OutputConfig>, probe: bool) -> Result<Box<dyn Sim>, String> {
    let cfg = c.config_with(writer);
    macro_rules! go {
        ($($s:literal)*) => {
            match (c.s, c.ph, c.fl, probe) {
                $(
                ($s, Ph::Adi, _, true) => SimI::<Euler1DAdiabatic<$s>, Probe<3, $s>, 3, $s>::new(&cfg, init).map(|x| Box::new(x) as Box<dyn Sim>),
                ($s, Ph::Iso, _, true) => SimI::<Euler1DIsot<$s>, Probe<2, $s>, 2, $s>::new(&cfg, init).map(|x| Box::new(x) as Box<dyn Sim>),
                ($s, Ph::Adi, Fl::Hll, _) => SimI::<Euler1DAdiabatic<$s>, Wrap<Hll<3, $s>>, 3, $s>::new(&cfg, init).map(|x| Box::new(x) as Box<dyn Sim>),
                ($s, Ph::Adi, _, _) => SimI::<Euler1DAdiabatic<$s>, Wrap<Kt<3, $s>>, 3, $s>::new(&cfg, init).map(|x| Box::new(x) as Box<dyn Sim>),
                ($s, Ph::Iso, Fl::Hll, _) => SimI::<Euler1DIsot<$s>, Wrap<Hll<2, $s>>, 2, $s>::new(&cfg, init).map(|x| Box::new(x) as Box<dyn Sim>),
                ($s, Ph::Iso, _, _) => SimI::<Euler1DIsot<$s>, Wrap<Kt<2, $s>>, 2, $s>::new(&cfg, init).map(|x| Box::new(x) as Box<dyn Sim>),
                )*
                _ => panic!("mesh size {} is not instantiated", c.s),
            }
        };
    }
    go!(5 6 7 8 12 36 104 1004).map_err(|e| format!("init_corries failed for a valid configuration: {e:#}\n{c:?}"))
}

/// What has been observed about the evaluations of one step
#[derive(Default, Debug, Clone)]
struct Log {
    evals: usize,
    /// a stage had a non-finite value in an interior cell
    bad_stage: bool,
    /// every stage was certainly unobjectionable (finite, moderate, positive also at the faces)
    unsound: bool,
    ks: Vec<ndarray::Array2<f64>>,
}
fn good(ph: Ph, a: &ndarray::Array2<f64>, i: usize) -> bool {
    let m = |x: f64| x.is_finite() && x.abs() < 1e100;
    a.column(i).iter().all(|x| m(*x)) && a[[0, i]] > 1e-8 && (ph == Ph::Iso || a[[2, i]] > 1e-8)
}
#[derive(Clone, Copy, Debug)]
struct Poison {
    /// evaluation counted from the start of the step
    at: usize,
    j: usize,
    i: usize,
    v: f64,
}
/// Installs the hook; `kt`: the faces matter
fn hook(ph: Ph, s: usize, kt: bool, poison: Vec<Poison>) -> Rc<RefCell<Log>> {
    let log = Rc::new(RefCell::new(Log::default()));
    let l = log.clone();
    set_after(move |u, d| {
        let mut l = l.borrow_mut();
        if (2..s - 2).any(|i| u.cons.column(i).iter().any(|x| !x.is_finite())) {
            l.bad_stage = true;
        }
        if (0..s).any(|i| !good(ph, u.prim, i)) || (kt && (1..s - 1).any(|i| !good(ph, u.west, i) || !good(ph, u.east, i))) {
            l.unsound = true;
        }
        for p in &poison {
            if p.at == l.evals {
                d[[p.j, p.i]] = p.v;
            }
        }
        if d.iter().any(|x| !x.is_finite()) {
            l.bad_stage = true;
        }
        l.ks.push(d.clone());
        l.evals += 1;
    });
    log
}
fn bases(ph: Ph, s: usize) -> Vec<(f64, Init)> {
    let n = s - 4;
    let smooth: Vec<_> = (0..n).map(|k| (1.0 + 0.1 * k as f64, 0.2 - 0.1 * k as f64, 1.0 + 0.05 * k as f64)).collect();
    let jump: Vec<_> = (0..n).map(|k| if 2 * k < n { (1.0, 0.0, 1.0) } else { (0.125, 0.0, 0.1) }).collect();
    let fast: Vec<_> = (0..n).map(|k| (1.0, -3.0 - 0.2 * k as f64, 0.9)).collect();
    vec![(1.0, Init::interior(ph, &smooth, 1.0)), (1.0, Init::interior(ph, &jump, 1.0)), (1.0, Init::interior(ph, &fast, 1.0))]
}
/// Judges one step
fn judge(s: &mut dyn Sim, ph: Ph, rk: Rk, asc: bool, start: &ndarray::Array2<f64>, r: &Result<(), String>, log: &Log, dt: Option<f64>) -> CaseResult {
    let n = s.s();
    match r {
        Ok(()) => {
            if log.bad_stage {
                return Err("the step succeeded although a stage held a non-finite value".into());
            }
            if start.columns().into_iter().skip(2).take(n - 4).any(|c| c.iter().any(|x| !x.is_finite())) {
                return Err("the step succeeded although it started from a non-finite value".into());
            }
            for i in 2..n - 2 {
                let bad = s.prim().column(i).iter().chain(s.cons().column(i).iter()).any(|x| !x.is_finite());
                let neg = !(s.prim()[[0, i]] > 0.0) || (ph == Ph::Adi && !(s.prim()[[2, i]] > 0.0));
                if bad || neg {
                    return Err(format!("the step succeeded with an unphysical result in cell {i}: {}", short(s.prim())));
                }
            }
        },
        Err(e) => {
            if asc || log.unsound || log.bad_stage {
                return Ok(());
            }
            // all stages were unobjectionable: then the result must be unphysical
            let t = vh::refsim::tableau(rk);
            let stages = t.b.len();
            if log.evals != stages {
                return Err(format!("the step was refused after {} of {stages} evaluations of physical states: {e}", log.evals));
            }
            let Some(dt) = dt else { return Ok(()) };
            let mut c = start.clone();
            for (k, b) in log.ks.iter().zip(&t.b) {
                c = c - k * (*b * dt);
            }
            let cfg = C { ph, s: n, ..C::default() };
            let rf = vh::refsim::Ref::new(&cfg, 1.0);
            for i in 2..n - 2 {
                let col: Vec<Ev> = c.column(i).iter().map(|x| Ev { v: *x, e: 1e-9 * (1.0 + x.abs()) }).collect();
                let p = rf.to_prim1(&col);
                let fine = col.iter().all(|x| x.v.is_finite() && x.v.abs() < 1e100) && p[0].pos() && (ph == Ph::Iso || p[2].pos());
                if !fine {
                    return Ok(());
                }
            }
            return Err(format!("a step was refused although all of its stages and its result {} are physical: {e}", short(&c)));
        },
    }
    Ok(())
}

fn main() {
    vh::run("C17", |ctx| {
        let nan = f64::NAN;
        let inf = f64::INFINITY;
        let phs = [Ph::Adi, Ph::Iso];
        let vals = [nan, -nan, inf, -inf, f64::MAX, -f64::MAX, 1e-2, -1e-2, 2e-3, -2e-3];
        let sizes: Vec<usize> = vec![8, 6];
        let fl: Vec<Option<Fl>> = fluxes().into_iter().map(Some).chain([None]).collect();
        // a wide mesh, so that the largest double times the step width is infinite
        let conf = |ph: Ph, s: usize, f: Option<Fl>, rk: Rk, asc: bool| C {
            ph,
            s,
            fl: f.unwrap_or(Fl::Hll),
            rk,
            asc: asc.then_some((1e-3, 1e-3, 0.08)),
            xi: (2500.0, 2500.0 + 1000.0 * (s - 4) as f64),
            t_end: 1e9,
            ..C::default()
        };
        let step = |c: &C, init: &Init, probe: bool, start: &[(usize, usize, f64)], poison: Vec<Poison>, t: &mut Tally| -> CaseResult {
            clear_after();
            let mut s = make_w(c, init, vec![], probe)?;
            for (j, i, v) in start {
                s.vars(D::C).cons[[*j, *i]] = *v;
            }
            let u0 = s.cons().clone();
            let kt = matches!(c.fl, Fl::Kt(_)) && !probe;
            let log = if probe {
                let log = Rc::new(RefCell::new(Log::default()));
                let l = log.clone();
                let ph = c.ph;
                set_hook(move |u, d| {
                    let mut l = l.borrow_mut();
                    let n = u.ncols();
                    l.unsound |= (2..n - 2).any(|i| u.column(i).iter().any(|x| !x.is_finite() || x.abs() > 1e100) || u[[0, i]] < 1e-8)
                        || (ph == Ph::Adi && (2..n - 2).any(|i| u[[2, i]] - 0.5 * u[[1, i]] * u[[1, i]] / u[[0, i]] < 1e-8));
                    for p in &poison {
                        if p.at == l.evals {
                            d[[p.j, p.i]] = p.v;
                        }
                    }
                    l.bad_stage |= d.iter().any(|x| !x.is_finite());
                    let k = d.clone();
                    l.ks.push(k);
                    l.evals += 1;
                    Ok(())
                });
                log
            } else {
                hook(c.ph, c.s, kt, poison)
            };
            let dt0 = s.dt_cfl(c.cfl).ok();
            s.ts().t_next_output = 1e9;
            let r = guard(|| s.step().map_err(|e| format!("{e:#}")))?;
            t.transitions += 1;
            t.states += 1;
            t.traces += 1;
            let dt = s.ts().dt;
            let dt = if r.is_ok() { Some(dt) } else { dt0 };
            let l = log.borrow().clone();
            judge(&mut *s, c.ph, c.rk, c.asc.is_some(), &u0, &r, &l, dt)
        };
        // 1. a poisoned derivative
        for &s in &sizes {
            let n = 2 * fl.len() * 9 * 2 * 3 * 6 * 3 * (s - 4) * vals.len();
            ctx.group(&format!("poisoned stages, {s} cells"), n, |k, t| {
                let mut x = Radix(k);
                let i = 2 + x.take(s - 4);
                let v = *x.of(&vals);
                let at = x.take(6);
                let j = x.take(3);
                let b = x.take(3);
                let asc = x.take(2) == 1;
                let rk = *x.of(&RKS);
                let f = *x.of(&fl);
                let ph = *x.of(&phs);
                let stages = vh::refsim::tableau(rk).b.len();
                if j >= ph.e() || at >= stages || (asc && !EMBEDDED.contains(&rk)) {
                    return Ok(());
                }
                let c = conf(ph, s, f, rk, asc);
                let init = &bases(ph, s)[b].1;
                let p = Poison { at, j, i, v };
                t.sample(|| format!("{p:?} {:?} {f:?} {rk:?}", ph));
                step(&c, init, f.is_none(), &[], vec![p], t).map_err(|e| format!("{e}\nderivative poisoned: {p:?}, custom flux: {}\n{c:?}\n{init:?}", f.is_none()))
            });
        }
        // two poisoned places, in the same or in different evaluations
        let v2 = [nan, inf, -inf, f64::MAX, -f64::MAX, 1e-2];
        let fl2 = [Some(Fl::Hll), Some(Fl::Kt(Lim::VanLeer)), None];
        let places = ctx.pick(2usize, 4);
        ctx.group("two poisoned places", 2 * 3 * 9 * (6 * 3 * places * 6usize).pow(2), |k, t| {
            let mut x = Radix(k);
            let mut ps = vec![];
            for _ in 0..2 {
                let i = if places == 2 { [2, 5][x.take(2)] } else { 2 + x.take(4) };
                let v = *x.of(&v2);
                ps.push(Poison { at: x.take(6), j: x.take(3), i, v });
            }
            let rk = *x.of(&RKS);
            let f = *x.of(&fl2);
            let ph = *x.of(&phs);
            let stages = vh::refsim::tableau(rk).b.len();
            let key = |p: &Poison| (p.at, p.j, p.i);
            if ps.iter().any(|p| p.j >= ph.e() || p.at >= stages) || key(&ps[0]) >= key(&ps[1]) {
                return Ok(());
            }
            let c = conf(ph, 8, f, rk, false);
            let init = &bases(ph, 8)[0].1;
            step(&c, init, f.is_none(), &[], ps.clone(), t).map_err(|e| format!("{e}\nderivative poisoned: {ps:?}, custom flux: {}\n{c:?}\n{init:?}", f.is_none()))
        });
        // every interior cell of shorter and longer meshes
        let mut lengths: Vec<(usize, usize)> = [5, 6, 7, 12, 36, 104].iter().flat_map(|s| (2..s - 2).map(|i| (*s, i))).collect();
        lengths.extend((2..BIG - 2).filter(|i| (ctx.thorough() && i % 9 < 2) || i % 250 < 2 || i + 4 > BIG - 2).map(|i| (BIG, i)));
        let v3 = [nan, inf, -inf, -f64::MAX];
        let rk3 = [Rk::RK1, Rk::RK4, Rk::SSPRK5];
        ctx.group("every place", lengths.len() * 3 * 4 * v3.len() * fl2.len() * rk3.len() * 2 * 2, |k, t| {
            let mut x = Radix(k);
            let (s, i) = *x.of(&lengths);
            let v = *x.of(&v3);
            let j = x.take(3);
            let at = x.take(4);
            let b = x.take(2);
            let rk = *x.of(&rk3);
            let f = *x.of(&fl2);
            let ph = *x.of(&phs);
            let stages = vh::refsim::tableau(rk).b.len();
            // the start, the first, a middle and the last evaluation
            let at = [None, Some(0), Some(stages / 2), Some(stages - 1)][at];
            if j >= ph.e() || (stages == 1 && at.is_some() && k % 2 == 1) || (at.is_none() && v.is_finite()) {
                return Ok(());
            }
            let c = conf(ph, s, f, rk, false);
            let init = &bases(ph, s)[b].1;
            let (start, ps) = match at {
                None => (vec![(j, i, v)], vec![]),
                Some(at) => (vec![], vec![Poison { at, j, i, v }]),
            };
            step(&c, init, f.is_none(), &start, ps.clone(), t).map_err(|e| format!("{e}\nstart poisoned: {start:?}, derivative poisoned: {ps:?}, custom flux: {}\n{c:?}\n{init:?}", f.is_none()))
        });
        // 2. a poisoned start
        let starts = [nan, -nan, inf, -inf];
        for &s in &sizes {
            ctx.group(&format!("poisoned start, {s} cells"), 2 * fl.len() * 9 * 2 * 3 * 3 * (s - 4) * starts.len() * 2, |k, t| {
                let mut x = Radix(k);
                let i = 2 + x.take(s - 4);
                let v = *x.of(&starts);
                let j = x.take(3);
                let b = x.take(3);
                let asc = x.take(2) == 1;
                let two = x.take(2) == 1;
                let rk = *x.of(&RKS);
                let f = *x.of(&fl);
                let ph = *x.of(&phs);
                if j >= ph.e() || (asc && !EMBEDDED.contains(&rk)) {
                    return Ok(());
                }
                let c = conf(ph, s, f, rk, asc);
                let init = &bases(ph, s)[b].1;
                let mut st = vec![(j, i, v)];
                if two {
                    // a second, opposite one
                    st.push((0, s - 3 - (i - 2), -v));
                }
                step(&c, init, f.is_none(), &st, vec![], t).map_err(|e| format!("{e}\nstart poisoned: {st:?}, custom flux: {}\n{c:?}\n{init:?}", f.is_none()))
            });
        }
        // 3. results exactly at and next to zero, by a custom flux and a step of exactly one half
        let e = f64::EPSILON;
        let fr = [1.0, 1.0 - e / 2.0, 1.0 + e, 0.5, 1.5, 2.0, 1.0 - 1e-6, 1.0 + 1e-6, 100.0];
        ctx.group("positivity of the result", 2 * 9 * 2 * fr.len() * 4 * 2 * 2, |k, t| {
            let mut x = Radix(k);
            let i = 2 + x.take(4);
            let f = *x.of(&fr);
            let j = x.take(2);
            let rk = *x.of(&RKS);
            let only_this = x.take(2) == 1;
            let v0 = x.take(2) as f64 * 0.25;
            let ph = *x.of(&phs);
            let j = [0, ph.e() - 1][j];
            let c = C { dt_max: 0.5, ..conf(ph, 8, None, rk, false) };
            let init = Init::uniform(ph, 8, (1.0, v0, 0.5), 1.0);
            clear_hook();
            let mut s = make_w(&c, &init, vec![], true)?;
            let u0 = s.cons().clone();
            // constant derivative in every stage; weights add up to one (to the digits of the coefficients)
            let amount = match (ph, j) {
                (_, 0) => u0[[0, i]],
                (Ph::Adi, _) => u0[[2, i]] - 0.5 * u0[[1, i]] * u0[[1, i]] / u0[[0, i]],
                _ => u0[[1, i]] + 0.125,
            };
            let kk = amount * f / 0.5;
            set_hook(move |_, d| {
                if only_this {
                    d[[j, i]] = kk;
                } else {
                    for i in 2..6 {
                        d[[j, i]] = kk
                    }
                }
                Ok(())
            });
            s.ts().t_next_output = 1e9;
            let r = guard(|| s.step().map_err(|e| format!("{e:#}")))?;
            t.transitions += 1;
            t.states += 1;
            t.traces += 1;
            let dt = s.ts().dt;
            let show = || format!("custom flux lets equation {j} in cell {i} lose {f:?} of what it has in one step of 0.5\n{c:?}\n{init:?}\nresult {r:?}, state {}", short(s.prim()));
            if dt != 0.5 {
                return Err(format!("the step is not dt_max wide\n{}", show()));
            }
            // what is left of density or pressure (velocity energy changes with the density)
            let exact = matches!(rk, Rk::RK1);
            let momentum_only = ph == Ph::Iso && j == 1;
            let slack = if exact { 0.0 } else { 1e-3 };
            let must_fail = !momentum_only && (if exact && v0 == 0.0 { f >= 1.0 } else { f > 1.0 + slack + 1e-9 });
            // a lower density raises the kinetic energy: for v0 != 0 the pressure vanishes earlier
            let must_pass = momentum_only || (f < 1.0 - slack - 1e-9 && (ph == Ph::Iso || v0 == 0.0 || j == 2)) || (exact && v0 == 0.0 && f < 1.0);
            let unphysical = (2..6).any(|i| !(s.prim()[[0, i]] > 0.0) || (ph == Ph::Adi && !(s.prim()[[2, i]] > 0.0)));
            if r.is_ok() && (must_fail || unphysical) {
                return Err(format!("a step with an unphysical result succeeded\n{}", show()));
            }
            if r.is_err() && must_pass {
                return Err(format!("a step with a physical result failed\n{}", show()));
            }
            Ok(())
        });
        // 4. valid states of any magnitude are not refused
        let rho = [1e-300, 1e-12, 1.0, 1e12, 1e300, 4e307];
        let vel = [0.0, 1.0, -1.0, 1e-200, -1e3];
        let prs = [1e-290, 1e-9, 1.0, 1e9, 1e300, 6e307];
        ctx.group("valid states", 2 * 6 * 5 * 6 * 9 * 3, |k, t| {
            let mut x = Radix(k);
            let (r, v, p) = (*x.of(&rho), *x.of(&vel), *x.of(&prs));
            let rk = *x.of(&RKS);
            let pat = x.take(3);
            let ph = *x.of(&phs);
            if v != 0.0 && (r < 1e-200 || r > 1e200 || p > 1e200) {
                return Ok(());
            }
            let mach2 = v * v * r / p;
            if ph == Ph::Adi && (mach2 > 1e6 || p / r > 1e300 || r / p > 1e300) {
                return Ok(());
            }
            let cells: Vec<_> = (0..4)
                .map(|q| match pat {
                    0 => (r, v, p),
                    1 if q == 1 => (r, v, p),
                    2 if q != 2 => (r, v, p),
                    _ => (1.0, 0.0, 1.0),
                })
                .collect();
            let c = C { gamma: 1.9, dt_min: 1e-300, ..conf(ph, 8, None, rk, false) };
            let init = Init::interior(ph, &cells, 1.0);
            set_hook(|_, _| Ok(()));
            let mut s = make_w(&c, &init, vec![], true)?;
            s.ts().t_next_output = 1e9;
            t.transitions += 1;
            t.states += 1;
            let res = guard(|| s.step().map_err(|e| format!("{e:#}")))?;
            res.map_err(|e| format!("a step from and to a valid state was refused: {e}\ncells {cells:?}\n{c:?}"))
        });
        // 5. runs: the step that is poisoned ends the run with an error dump
        let place = scratch();
        let nth: Vec<usize> = (0..ctx.pick(12, 30)).collect();
        let mk = || {
            let d = place.join(format!("w{:?}", std::thread::current().id()));
            std::fs::create_dir_all(&d).unwrap();
            d
        };
        ctx.group_w("poisoned runs", 2 * fl.len() * 9 * nth.len() * 4, mk, |d, k, t| {
            let mut x = Radix(k);
            let n = *x.of(&nth);
            let v = *x.of(&[nan, inf, -inf, -nan]);
            let rk = *x.of(&RKS);
            let f = *x.of(&fl);
            let ph = *x.of(&phs);
            let s = 8;
            let mut c = conf(ph, s, f, rk, false);
            c.t_end = 1600.0;
            c.outputs = 5;
            let init = &bases(ph, s)[if matches!(f, Some(Fl::Kt(_))) { 0 } else { 1 }].1;
            let streams = || {
                let a = file_stream(d, "a", vec![DataName::T, DataName::Iter, DataName::DtKind]);
                let mut b = file_stream(d, "b", vec![DataName::T, DataName::Prim(0), DataName::DtKind]);
                b.string_conversion_mode = ToStringConversionMode::Vector;
                vec![a, b]
            };
            let probe = f.is_none();
            let run = |poison: Option<usize>| -> Result<(bool, Vec<String>, Vec<Vec<u8>>), String> {
                for e in std::fs::read_dir(&*d).unwrap().flatten() {
                    let _ = std::fs::remove_file(e.path());
                }
                clear_after();
                clear_hook();
                let mut sim = make_w(&c, init, streams(), probe)?;
                let mut evals = 0;
                let mut f = move |d: &mut ndarray::Array2<f64>| {
                    if poison == Some(evals) {
                        d[[0, 3]] = v;
                    }
                    evals += 1;
                };
                if probe {
                    set_hook(move |_, d| {
                        f(d);
                        Ok(())
                    });
                } else {
                    set_after(move |_, d| f(d));
                }
                let r = guard(|| sim.run().map_err(|e| format!("{e:#}")))?;
                let recs = std::fs::read_to_string(d.join("a.csv")).map_err(|e| format!("no output: {e}"))?.lines().map(|l| l.to_string()).collect();
                let mut vecs = vec![];
                while let Ok(b) = std::fs::read(d.join(format!("b_{}.csv", vecs.len()))) {
                    vecs.push(b);
                }
                Ok((r.is_ok(), recs, vecs))
            };
            let (ok, clean, clean_v) = run(None)?;
            let show = || format!("derivative {v:?} in evaluation {n} of the run, custom flux: {probe}\n{c:?}");
            if !ok {
                return Err(format!("the undisturbed run failed\n{}", show()));
            }
            let (ok, recs, vecs) = run(Some(n))?;
            t.transitions += 2;
            t.states += 1;
            t.traces += 1;
            if ok {
                // the run may be over before the n-th evaluation
                if recs == clean && vecs == clean_v {
                    return Ok(());
                }
                return Err(format!("the run succeeded although a stage was poisoned\n{}", show()));
            }
            let m = recs.len();
            if m < 3 || m - 1 > clean.len() || recs[..m - 1] != clean[..m - 1] || vecs.len() != m - 1 || vecs[..m - 2] != clean_v[..m - 2] {
                return Err(format!("records before the error differ from those of the undisturbed run: {recs:?} and {clean:?}, {} and {} vector files\n{}", vecs.len(), clean_v.len(), show()));
            }
            let dumps = |s: &str| s.split(',').any(|x| x.trim() == format!("{}", DtKind::ErrorDump));
            let last = String::from_utf8_lossy(&vecs[m - 2]).into_owned();
            if !dumps(&recs[m - 1]) || recs[..m - 1].iter().any(|r| dumps(r)) || !last.lines().skip(1).all(dumps) {
                return Err(format!("there is not exactly one error dump at the end: {recs:?}\n{last}\n{}", show()));
            }
            Ok(())
        });
    })
}
