//! The width of every step against a model of the step-width rules.
use vh::refsim::*;
use vh::*;

const CELLS: [(f64, f64, f64); 10] = [
    (1.0, 0.3, 1.0),
    (1.0, -0.4, 1.0),
    (0.125, 0.0, 0.1),
    (8.0, 3.0, 0.5),
    (8.0, -3.0, 0.5),
    (1e-6, 2.0, 1e-8),
    (1e-6, -50.0, 10.0),
    (100.0, 0.01, 1e5),
    (2.0, -11.0, 0.7),
    (3.0, 11.5, 1e-3),
];

fn flux_of(k: usize) -> Fl {
    [Fl::Hll, Fl::Kt(Lim::VanLeer), Fl::Kt(Lim::Monocent(1.2)), Fl::Kt(Lim::NoLimiter)][k]
}

/// One step from the current state: dt must be what the rules say
fn step(s: &mut dyn Sim, c: &C, r: &Ref, t: &mut Tally) -> CaseResult {
    let prim0 = s.prim().clone();
    let (t0, tn, te, it) = { let x = s.ts(); (x.t, x.t_next_output, x.t_end, x.iter) };
    let Some((p, _)) = r.full_from_prim(&exact(&prim0)) else {
        t.skipped += 1;
        return Ok(());
    };
    let Some(cfl) = r.dt_cfl(&p) else {
        t.skipped += 1;
        return Ok(());
    };
    let show = || format!("start: t = {t0:e}, next output {tn:e}, t_end {te:e}\n{c:?}\nprim {}", short(&prim0));
    t.states += 1;
    t.transitions += 1;
    // the public function
    let q = s.dt_cfl(c.cfl).map_err(|e| format!("calc_dt_cfl failed on a valid state: {e:#}\n{}", show()))?;
    if cfl.ok() && !cfl.agrees(q) {
        return Err(format!("calc_dt_cfl returned {q:e}, the fastest signal allows {:e}\n{}", cfl.v, show()));
    }
    let res = s.step();
    let rel = |a: f64, b: f64| Ev { v: a - b, e: U * (a.abs() + b.abs()) };
    let want = cfl.min(ev(c.dt_max)).min(rel(tn, t0)).min(if te > t0 { rel(te, t0) } else { ev(f64::MAX) });
    if !want.ok() {
        t.skipped += 1;
        return Ok(());
    }
    if cfl.v + cfl.e < c.dt_min {
        return match res {
            Ok(_) => Err(format!("the stability limit {:e} is below dt_min = {:e}, but the step succeeded\n{}", cfl.v, c.dt_min, show())),
            Err(_) => {
                t.traces += 1;
                Ok(())
            }
        };
    }
    if cfl.v - cfl.e <= c.dt_min {
        t.skipped += 1;
        return Ok(());
    }
    let ts = s.ts();
    if let Err(e) = &res {
        // a failure after the step width has been chosen is not the subject here (unphysical results)
        if ts.iter == it + 1 && want.agrees(ts.dt) && !format!("{e:#}").contains("dt_min") {
            t.skipped += 1;
            return Ok(());
        }
        return Err(format!("the step failed: {e:#}, although the stability limit {:e} respects dt_min = {:e}\n{}", cfl.v, c.dt_min, show()));
    }
    t.traces += 1;
    if !want.agrees(ts.dt) {
        return Err(format!(
            "dt = {:e}, the rules give {:e} (+- {:e}): stability {:e}, dt_max {:e}, to the next output {:e}, to the end {:e}\n{}",
            ts.dt, want.v, want.e, cfl.v, c.dt_max, tn - t0, te - t0, show()
        ));
    }
    if ts.iter != it + 1 {
        return Err(format!("iter went from {it} to {}\n{}", ts.iter, show()));
    }
    if (ts.t - (t0 + ts.dt)).abs() > 4.0 * f64::EPSILON * (t0.abs() + ts.dt) || ts.t < t0 {
        return Err(format!("time went from {t0:e} to {:e} with dt = {:e}\n{}", ts.t, ts.dt, show()));
    }
    Ok(())
}

fn main() {
    vh::run("C07", |ctx| {
        let meshes = [(1.1, 2.0), (-3.0, 7.3), (1e5, 1e5 + 1.0)];
        let na = ctx.pick(8, 10);
        let per = na * na * na * na;
        ctx.group("states", 2 * 4 * 3 * 2 * per, |k, t| {
            let mut r = Radix(k);
            let cells: Vec<_> = (0..4).map(|_| CELLS[r.take(na)]).collect();
            let ph = [Ph::Adi, Ph::Iso][r.take(2)];
            let fl = flux_of(r.take(4));
            let xi = *r.of(&meshes);
            let b = r.take(2);
            let cs = 0.05 + cells[0].2.min(3.0);
            let c = C { ph, fl, xi, s: 8, west: bc_set(ph, b), east: bc_set(ph, b), cfl: 0.4, ..C::default() };
            let init = Init::interior(ph, &cells, cs);
            let mut s = made(&c, &init)?;
            s.ts().t_next_output = 1e6;
            let rf = Ref::new(&c, cs);
            t.sample(|| format!("{c:?} {:?}", init.prim));
            step(s.as_mut(), &c, &rf, t)
        });
        // all pairs of states from a wide grid, at rest or at Mach numbers up to 1e8 in both directions
        let mut grid = vec![];
        for d in [1e-9, 1e-3, 1.0, 30.0, 1e8] {
            for v in [-1e5, -2.0, -1e-4, 0.0, 1e-7, 0.9, 300.0] {
                for p in [1e-12, 1e-3, 1.0, 50.0, 1e9] {
                    grid.push((d, v, p));
                }
            }
        }
        let ng = grid.len();
        ctx.group("grid of states", ng * ng * 2 * 2 * 3, |k, t| {
            let mut r = Radix(k);
            let (ia, ib) = (r.take(ng), r.take(ng));
            let ph = [Ph::Adi, Ph::Iso][r.take(2)];
            let fl = flux_of(r.take(2));
            let n = r.0;
            if ph == Ph::Iso && (ia % 5 != 0 || ib % 5 != 0) {
                return Ok(());
            }
            let (a, b) = (grid[ia], grid[ib]);
            let cs = [1.0, 1e-5, 3e4][n];
            let xi = [(1.1, 2.0), (1e-6, 3e-6), (1e7, 1e9)][n];
            let c = C { ph, fl, xi, s: 8, cfl: [0.4, 0.9, 0.01][n], dt_min: 1e-200, t_end: f64::MAX, ..C::default() };
            let mut s = made(&c, &Init::interior(ph, &[a, a, b, b], cs))?;
            s.ts().t_next_output = f64::MAX;
            step(s.as_mut(), &c, &Ref::new(&c, cs), t)
        });
        // every kind of CFL parameter; the states are nearly uniform, so that steps beyond the stability limit succeed
        let cfls = [1e-12, 1e-3, 0.1, 0.5, 0.50001, 0.9, 0.99, 1.0 - 1e-9, 1.0, 1.0 + 1e-9, 1.001, 1.5, 2.0, 7.0, 100.0, 1e4];
        let back = [(1.0, 0.3, 1.0), (2.0, -5.0, 0.1), (1e-3, 0.0, 1e-4), (7.0, 1e-5, 30.0)];
        ctx.group("CFL parameters", cfls.len() * back.len() * 2 * 4 * 9 * 2, |k, t| {
            let mut r = Radix(k);
            let cfl = *r.of(&cfls);
            let x = *r.of(&back);
            let ph = [Ph::Adi, Ph::Iso][r.take(2)];
            let fl = flux_of(r.take(4));
            let rk = *r.of(&RKS);
            let flat = r.take(2) == 0;
            let cells: Vec<_> = (0..4).map(|i| if flat { x } else { (x.0 * (1.0 + 1e-9 * i as f64), x.1, x.2 * (1.0 - 1e-9 * i as f64)) }).collect();
            let c = C { ph, fl, rk, s: 8, cfl, dt_min: 1e-200, t_end: 1e100, ..C::default() };
            let mut s = made(&c, &Init::interior(ph, &cells, 0.8))?;
            s.ts().t_next_output = 1e100;
            step(s.as_mut(), &c, &Ref::new(&c, 0.8), t)
        });
        // all positions of the fastest cell in all mesh sizes
        let mut pos = vec![];
        for s in SIZES {
            for i in 0..s - 4 {
                pos.push((s, i));
            }
        }
        pos.extend((0..BIG - 4).filter(|i| ctx.thorough() || i % 50 < 2 || i + 9 > BIG - 4).map(|i| (BIG, i)));
        ctx.group("positions", pos.len() * 2 * 4 * 2, |k, t| {
            let mut r = Radix(k);
            let (s, i) = *r.of(&pos);
            let ph = [Ph::Adi, Ph::Iso][r.take(2)];
            let fl = flux_of(r.take(4));
            let sign = [1.0, -1.0][r.take(2)];
            let mut cells = vec![(1.0, 0.1, 1.0); s - 4];
            cells[i].1 = 5.0 * sign;
            let c = C { ph, fl, s, cfl: 0.3, ..C::default() };
            let mut sim = made(&c, &Init::interior(ph, &cells, 0.4))?;
            sim.ts().t_next_output = 1e6;
            step(sim.as_mut(), &c, &Ref::new(&c, 0.4), t)
        });
        // caps: everything relative to the natural step width
        let fac = [f64::INFINITY, 100.0, 2.5, 1.0000001, 0.9999999, 0.5, 0.013, 1e-6];
        let nf = fac.len();
        let mins = [0.0, 0.999, 1.001, 30.0];
        ctx.group("caps", 5 * 2 * 9 * nf * nf * nf * 4 * 3, |k, t| {
            let mut r = Radix(k);
            let n = r.take(5);
            let ph = [Ph::Adi, Ph::Iso][r.take(2)];
            let rk = *r.of(&RKS);
            let (fm, fo, fe) = (*r.of(&fac), *r.of(&fac), *r.of(&fac));
            let fmin = *r.of(&mins);
            let t0 = *r.of(&[0.0, 0.3, 77.7]);
            let cells: Vec<_> = (0..4).map(|i| CELLS[(n * 3 + i * (n + 1)) % 10]).collect();
            let mut c = C { ph, rk, fl: flux_of(n % 4), s: 8, cfl: [0.4, 0.05, 0.2, 0.31, 0.1][n], ..C::default() };
            let init = Init::interior(ph, &cells, 0.7);
            let rf = Ref::new(&c, 0.7);
            let prim = ndarray::Array2::from_shape_fn((ph.e(), 8), |(j, i)| init.prim[j][i]);
            let (p, _) = rf.full_from_prim(&exact(&prim)).unwrap();
            let nat = rf.dt_cfl(&p).unwrap().v;
            if fe < fo * 0.99 {
                return Ok(()); // outputs lie before the end
            }
            c.dt_max = if fm.is_finite() { fm * nat } else { f64::MAX };
            c.dt_min = if fmin > 0.0 { fmin * nat } else { 1e-30 };
            let mut s = made(&c, &init)?;
            let ts = s.ts();
            ts.t = t0;
            ts.t_next_output = if fo.is_finite() { t0 + fo * nat } else { 1e9 };
            ts.t_end = if fe.is_finite() { (t0 + fe * nat).max(ts.t_next_output) } else { 1e9 };
            t.sample(|| format!("{c:?} {:?}", init.prim));
            step(s.as_mut(), &c, &rf, t)
        });
        // histories: many steps with outputs in between
        let steps = ctx.pick(12, 60);
        ctx.group("histories", 10 * 2 * 4 * 9 * 3 * 2, |k, t| {
            let mut r = Radix(k);
            let n = r.take(10);
            let ph = [Ph::Adi, Ph::Iso][r.take(2)];
            let fl = flux_of(r.take(4));
            let rk = *r.of(&RKS);
            let every = [0.004, 0.05, 1e9][r.take(3)];
            let b = r.take(2);
            let cells: Vec<_> = (0..6).map(|i| CELLS[[0, 1, 2, 8, 0, 7, 2, 1, 9, 2][(n + i * (n + 1)) % 10]]).collect();
            let c = C { ph, rk, fl, s: 10, cfl: 0.3, west: bc_set(ph, b), east: bc_set(ph, b), t_end: 1e9, ..C::default() };
            let mut s = made(&c, &Init::interior(ph, &cells, 0.7))?;
            let rf = Ref::new(&c, 0.7);
            s.ts().t_next_output = every;
            for _ in 0..steps {
                let sk = t.skipped;
                step(s.as_mut(), &c, &rf, t)?;
                if t.skipped != sk {
                    break;
                }
                let ts = s.ts();
                if ts.t >= ts.t_next_output - c.dt_min {
                    ts.t_next_output += every;
                }
            }
            Ok(())
        });
        // thousands of steps, far counts of steps and far times
        let long = ctx.pick(2500, 20000);
        ctx.group("long histories", 2 * 3 * 3 * 4, |k, t| {
            let mut r = Radix(k);
            let ph = [Ph::Adi, Ph::Iso][r.take(2)];
            let fl = flux_of(r.take(3));
            let rk = *r.of(&[Rk::RK1, Rk::SSPRK3, Rk::RK4]);
            let far = r.take(4);
            let b = k % N_BC;
            let cells: Vec<_> = (0..5).map(|i| [(1.0, 0.1, 1.0), (0.7, -0.2, 0.6), (1.2, 0.05, 1.5)][(k + i) % 3]).collect();
            let c = C { ph, rk, fl, s: 9, cfl: 0.3, west: bc_set(ph, 0), east: bc_set(ph, b), t_end: 1e9, dt_max: [f64::MAX, 0.045][k % 2], ..C::default() };
            let mut s = made(&c, &Init::interior(ph, &cells, 0.7))?;
            let rf = Ref::new(&c, 0.7);
            s.ts().t = [0.0, 1e3, 3e5, 2e7][far];
            s.ts().iter = [0, 65530, 999_990, 4_294_967_290][far];
            let every = 7.5;
            s.ts().t_next_output = s.ts().t + every;
            for _ in 0..long {
                let sk = t.skipped;
                step(s.as_mut(), &c, &rf, t)?;
                if t.skipped != sk {
                    break;
                }
                let ts = s.ts();
                if ts.t >= ts.t_next_output - 1e-7 {
                    ts.t_next_output += every;
                }
            }
            t.sample(|| format!("{c:?}"));
            Ok(())
        });
        // no finite stable step exists
        ctx.group("non-finite", 4 * 4 * 2 * 9, |k, t| {
            let mut r = Radix(k);
            let what = r.take(4);
            let i = r.take(4);
            let iso = r.take(2) == 1;
            let rk = *r.of(&RKS);
            let ph = if iso || what == 0 { Ph::Iso } else { Ph::Adi };
            let c = C { ph, rk, s: 8, ..C::default() };
            let mut s = made(&c, &Init::uniform(ph, 8, (1.0, 0.0, 1.0), if what == 0 { 0.0 } else { 1.0 }))?;
            s.ts().t_next_output = 1e6;
            if what > 0 {
                let v = s.vars(D::C);
                v.prim[[1, 2 + i]] = [0.0, f64::INFINITY, f64::NEG_INFINITY, 1e308][what];
                s.from_prim();
            }
            t.states += 1;
            t.transitions += 1;
            t.traces += 1;
            match s.step() {
                Err(_) => Ok(()),
                Ok(_) => Err(format!("a step succeeded although no finite stable step width above dt_min exists (dt = {:e}, case {what}, cell {i})\n{c:?}", s.ts().dt)),
            }
        });
        // iteration limit
        ctx.group("iter_max", 2 * 2 * 9 * 3, |k, t| {
            let mut r = Radix(k);
            let ph = [Ph::Adi, Ph::Iso][r.take(2)];
            let fl = flux_of(r.take(2));
            let rk = *r.of(&RKS);
            let outs = 1 + r.take(3);
            let c0 = C { ph, fl, rk, s: 8, cfl: 0.4, t_end: 0.5, outputs: outs, ..C::default() };
            let init = Init::interior(ph, &[CELLS[0], CELLS[2], CELLS[1], CELLS[0]], 1.0);
            let mut s = made(&c0, &init)?;
            s.run().map_err(|e| format!("the unlimited run failed: {e:#}\n{c0:?}"))?;
            let n = s.ts().iter;
            if n < 3 {
                return Err(format!("a run over {} took only {n} steps\n{c0:?}", c0.t_end));
            }
            for m in (1..=n + 2).chain([usize::MAX]) {
                let c = C { iter_max: m, ..c0.clone() };
                let mut s = made(&c, &init)?;
                let res = s.run();
                t.states += 1;
                t.transitions += n.min(m) as u64;
                t.traces += 1;
                let (it, tt) = (s.ts().iter, s.ts().t);
                match (res.is_err(), m <= n) {
                    (a, b) if a != b => {
                        return Err(format!(
                            "iter_max = {m}, the run needs {n} steps, but it {} after {it} steps at t = {tt:e}\n{c:?}",
                            if a { "failed" } else { "succeeded" }
                        ))
                    }
                    _ => {}
                }
                if it != n.min(m) {
                    return Err(format!("iter_max = {m}, the run needs {n} steps, but {it} were made\n{c:?}"));
                }
            }
            t.sample(|| format!("{c0:?}: all limits up to {}", n + 2));
            Ok(())
        });
    })
}
