//! The schedule of outputs, the end of a run, and error dumps.
use corries::prelude::*;
use std::path::Path;
use vh::probe::*;
use vh::*;

#[derive(Debug, Clone, PartialEq)]
struct Row {
    t: f64,
    iter: usize,
    kind: String,
}
fn rows(p: &Path) -> Result<Vec<Row>, String> {
    let s = std::fs::read_to_string(p).map_err(|e| format!("cannot read {}: {e}", p.display()))?;
    let mut v = vec![];
    for l in s.lines().skip(1) {
        let w: Vec<&str> = l.split(',').map(|x| x.trim()).collect();
        let r = (|| Some(Row { t: w.first()?.parse().ok()?, iter: w.get(1)?.parse().ok()?, kind: w.get(2)?.to_string() }))();
        v.push(r.ok_or(format!("unreadable record {l:?} in {s:?}"))?);
    }
    Ok(v)
}
const NAMES: [DataName; 3] = [DataName::T, DataName::Iter, DataName::DtKind];

fn check_schedule(c: &C, rows: &[Row], s: &mut dyn Sim, what: &str) -> CaseResult {
    let n = c.outputs;
    let show = || format!("{what}\n{c:?}\nlast records: {:?}", &rows[rows.len().saturating_sub(4)..]);
    if rows.len() != n + 1 {
        return Err(format!("{} records were written, there should be the initial one and {n} others\n{}", rows.len(), show()));
    }
    if rows[0].t != c.t0 || rows[0].iter != 0 {
        return Err(format!("the first record is not the initial state: {:?}\n{}", rows[0], show()));
    }
    let eps = f64::EPSILON * c.t_end.abs();
    for (k, r) in rows.iter().enumerate() {
        let want = if n == 0 { c.t0 } else { c.t0 + (c.t_end - c.t0) * (k as f64 / n as f64) };
        let tol = c.dt_min + (k as f64 + 8.0) * eps;
        if (r.t - want).abs() > tol {
            return Err(format!("record {k} is at t = {:e}, it should be at {want:e}\n{}", r.t, show()));
        }
        if k > 0 && (r.t <= rows[k - 1].t || r.iter <= rows[k - 1].iter) {
            return Err(format!("record {k} is not later than the one before: {r:?}, {:?}\n{}", rows[k - 1], show()));
        }
        if r.kind.contains("err") {
            return Err(format!("record {k} is marked as an error dump\n{}", show()));
        }
    }
    let t = s.ts().t;
    if t > c.t_end + 2.0 * eps {
        return Err(format!("the run ended at t = {t:e}, beyond t_end = {:e}\n{}", c.t_end, show()));
    }
    if t < c.t_end - c.dt_min - 2.0 * eps {
        return Err(format!("the run ended at t = {t:e}, before t_end = {:e}\n{}", c.t_end, show()));
    }
    if n > 0 && rows[n].t > c.t_end + 2.0 * eps {
        return Err(format!("the last record is beyond t_end\n{}", show()));
    }
    Ok(())
}

fn variant(c: &mut C, v: usize) {
    match v {
        0 => {}
        1 => {
            c.ph = Ph::Adi;
            c.rk = Rk::SSPRK5;
        }
        2 => {
            c.rk = Rk::RK3;
            c.asc = Some((1e-2, 1e-2, 0.08));
        }
        _ => {
            c.fl = Fl::Kt(Lim::VanLeer);
            c.rk = Rk::Heun2;
        }
    }
}

fn failure(c: &C, n_eval: usize, dir: &Path, t: &mut Tally, kind: usize, at: usize, vector: bool) -> Result<bool, String> {
    // reference: the undisturbed run
    let mk = |c: &C, sub: &str| -> Result<SimI<Euler1DIsot<6>, Probe<2, 6>, 2, 6>, String> {
        let mut o = file_stream(&dir.join(sub), "x", NAMES.to_vec());
        if vector {
            o.string_conversion_mode = ToStringConversionMode::Vector;
        }
        SimI::new(&c.config_with(vec![o]), &Init::uniform(Ph::Iso, 6, (1.0, 0.0, 1.0), 1.0)).map_err(|e| format!("init_corries: {e:#}"))
    };
    let read = |sub: &str| -> Result<Vec<Row>, String> {
        if !vector {
            return rows(&dir.join(sub).join("x.csv"));
        }
        let tr = tree(&dir.join(sub));
        let mut v = vec![];
        for (k, (name, _)) in tr.iter().enumerate() {
            let w = (c.outputs as f64).log10() as usize + 1;
            let want = format!("x_{k:0w$}.csv");
            if *name != want {
                return Err(format!("expected the file {want}, found {name}"));
            }
            v.push(rows(&dir.join(sub).join(name))?[0].clone());
        }
        Ok(v)
    };
    clear_hook();
    let mut s = mk(c, "ref")?;
    s.run().map_err(|e| format!("the undisturbed run failed: {e:#}\n{c:?}"))?;
    t.transitions += 1;
    let full = read("ref")?;
    check_schedule(c, &full, &mut s, "undisturbed run")?;
    let n_steps = s.ts().iter;
    if at >= n_steps {
        return Ok(false);
    }
    let mut c2 = c.clone();
    // failing in step at+1
    let mut count = 0usize;
    let fail_eval = at * n_eval + (kind % n_eval);
    match kind {
        0..=5 => set_hook(move |_, d| {
            count += 1;
            if count == fail_eval + 1 {
                if kind % 2 == 0 {
                    return Err(color_eyre::eyre::eyre!("injected failure"));
                }
                d[[0, 2]] = f64::NAN;
            }
            Ok(())
        }),
        _ => c2.iter_max = at + 1,
    }
    let mut s = mk(&c2, "fail")?;
    let res = s.run();
    clear_hook();
    t.transitions += 1;
    t.states += 1;
    t.traces += 1;
    let show = |r: &[Row]| format!("failure kind {kind} in step {}\n{c2:?}\nrecords {r:?}\nundisturbed {full:?}", at + 1);
    let r = read("fail")?;
    let Err(e) = res else {
        return Err(format!("the run succeeded although a step failed\n{}", show(&r)));
    };
    if kind % 2 == 0 && kind < 6 && !format!("{e:#}").contains("injected failure") {
        return Err(format!("the run's error is not the one that stopped it: {e:#}\n{}", show(&r)));
    }
    let due: Vec<_> = full.iter().filter(|x| x.iter <= at).cloned().collect();
    if r.len() != due.len() + 1 || r[..due.len()] != due[..] {
        return Err(format!("the records before the error dump are not those that were due\n{}", show(&r)));
    }
    let d = &r[due.len()];
    if !d.kind.contains("err") {
        return Err(format!("the last record is not marked as an error dump\n{}", show(&r)));
    }
    if d.t != s.ts().t || d.t < due[due.len() - 1].t || d.iter < at {
        return Err(format!("the error dump does not hold the time at which the run stopped ({:e})\n{}", s.ts().t, show(&r)));
    }
    Ok(true)
}

fn main() {
    vh::run("C08", |ctx| {
        ctx.assume("dt_min is smaller than the distance between outputs; output times are compared to within dt_min");
        let t0s = [0.0, 0.1, 1.0 / 3.0, 5.0, 1e6, 1e-9];
        let durs = [1e-3, 0.1, 0.7, 1.0, 3.3, 1000.0 / 7.0];
        let ns = [1, 0, 2, 3, 7, 10, 49, 100, 333, 1000];
        let fs = [1.0 / 30.0, 1.0 / 3.0, 0.7, 1.0, 1.0 + 1e-12, 1.0 - 1e-12, 1.3, 1e3];
        let root = scratch();
        let mk = || {
            let d = root.join(format!("w{:?}", std::thread::current().id()));
            std::fs::create_dir_all(&d).unwrap();
            d
        };
        let limit = ctx.pick(3000, 40000);
        ctx.group_w("schedule", 6 * 6 * 10 * 8 * 2 * 2 * 4, mk, |dir, k, t| {
            let mut r = Radix(k);
            let v = r.take(4);
            let dmin = r.take(2);
            let via = r.take(2);
            let (t0, dur, n, f) = (*r.of(&t0s), *r.of(&durs), *r.of(&ns), *r.of(&fs));
            let dt_out = dur / (n.max(1)) as f64;
            let dt = dt_out * f;
            if dur / dt > limit as f64 || (v > 0 && dur / dt > 200.0) || dt_out < 1e5 * f64::EPSILON * (t0 + dur) {
                return Ok(());
            }
            let mut c = C { ph: Ph::Iso, s: 6, t0, t_end: t0 + dur, outputs: n, cfl: 0.4, ..C::default() };
            variant(&mut c, v);
            c.dt_min = dt_out.min(dt) * [1e-9, 1e-3][dmin];
            // the step width either from the speed of sound or from dt_max
            let mut cs = 0.4 * c.dx() / dt;
            if via == 1 {
                cs *= 0.5;
                c.dt_max = dt;
            }
            // pressure that gives the same speed of sound for density 1
            let init = Init::uniform(c.ph, c.s, (1.0, 0.0, cs * cs / c.gamma), cs);
            let path = dir.join("x.csv");
            let mut s = make_cfg(c.ph, c.s, &c.config_with(vec![file_stream(dir, "x", NAMES.to_vec())]), &init)
                .map_err(|e| format!("init_corries: {e:#}\n{c:?}"))?;
            s.run().map_err(|e| format!("the run failed: {e:#}\n{c:?}"))?;
            t.states += 1;
            t.transitions += s.ts().iter as u64;
            let rw = rows(&path)?;
            t.traces += 1;
            t.sample(|| format!("{c:?}: {} steps, {} records", s.ts().iter, rw.len()));
            check_schedule(&c, &rw, s.as_mut(), "run")
        });
        // flows whose step widths change
        ctx.group_w("flows", 6 * 10 * 2 * 4 * 4, mk, |dir, k, t| {
            let mut r = Radix(k);
            let (t0, n) = (*r.of(&t0s), *r.of(&ns));
            let ph = [Ph::Adi, Ph::Iso][r.take(2)];
            let v = r.take(4);
            let w = r.take(4);
            let cells: Vec<_> = (0..8).map(|i| if i < 4 { (1.0, 0.3 * w as f64, 1.0) } else { (0.3, -0.2 * w as f64, 0.2) }).collect();
            let mut c = C { ph, s: 12, t0, t_end: t0 + 0.3, outputs: n, cfl: 0.4, ..C::default() };
            variant(&mut c, v);
            c.dt_min = 1e-9;
            let mut s = make_cfg(c.ph, c.s, &c.config_with(vec![file_stream(dir, "x", NAMES.to_vec())]), &Init::interior(c.ph, &cells, 0.8))
                .map_err(|e| format!("init_corries: {e:#}\n{c:?}"))?;
            s.run().map_err(|e| format!("the run failed: {e:#}\n{c:?}"))?;
            t.states += 1;
            t.transitions += s.ts().iter as u64;
            t.traces += 1;
            check_schedule(&c, &rows(&dir.join("x.csv"))?, s.as_mut(), "run")
        });
        let fail_n = [1usize, 2, 3, 10, 12];
        ctx.group_w("failures", 40 * 7 * 5 * 3 * 2 * 2, mk, |dir, k, t| {
            let mut r = Radix(k);
            let at = r.take(40);
            let kind = r.take(7);
            let n = *r.of(&fail_n);
            let f = [0.35, 1.0, 0.8][r.take(3)];
            let vector = r.take(2) == 1;
            let rk = [Rk::RK1, Rk::SSPRK3][r.take(2)];
            let n_eval = if rk == Rk::RK1 { 1 } else { 3 };
            let c = C { ph: Ph::Iso, s: 6, rk, t0: 0.25, t_end: 1.25, outputs: n, cfl: 1e9, dt_max: f / n as f64, dt_min: 1e-9, ..C::default() };
            std::fs::create_dir_all(dir.join("ref")).unwrap();
            for sub in ["ref", "fail"] {
                let _ = std::fs::remove_dir_all(dir.join(sub));
            }
            failure(&c, n_eval, dir, t, kind, at, vector).map(|_| ())
        });
    })
}
