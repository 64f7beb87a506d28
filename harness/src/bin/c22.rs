//! Automatic step control: every step it takes, over histories of steps, against the embedded pair evaluated anew.
use corries::prelude::*;
use ndarray::Array2;
use std::cell::Cell;
use std::rc::Rc;
use vh::probe::*;
use vh::refsim::{exact, tableau, Ref, F};
use vh::*;

const S: usize = 8;
fn sim(c: &C, init: &Init) -> Result<Box<dyn Sim>, String> {
    let e = |e| format!("init_corries: {e:#}");
    Ok(match c.ph {
        Ph::Iso => Box::new(SimI::<Euler1DIsot<S>, Probe<2, S>, 2, S>::new(&c.config(), init).map_err(e)?),
        Ph::Adi => Box::new(SimI::<Euler1DAdiabatic<S>, Probe<3, S>, 3, S>::new(&c.config(), init).map_err(e)?),
    })
}
/// Physics with more equations
fn sim_of(which: usize, c: &C, init: &Init) -> Result<Box<dyn Sim>, String> {
    use vh::dye::*;
    let e = |e| format!("init_corries: {e:#}");
    let mut i = init.clone();
    if which > 1 {
        i.prim.insert(2, vec![0.5; S]);
    }
    Ok(match which {
        2 => Box::new(SimI::<IsoDye<S>, Probe<3, S>, 3, S>::new(&c.config(), &i).map_err(e)?),
        3 => Box::new(SimI::<AdiDye<S>, Probe<4, S>, 4, S>::new(&c.config(), &i).map_err(e)?),
        _ => sim(c, init)?,
    })
}
/// Right-hand sides of the momentum (density is constant), the derivative with the sign of the flux difference
#[derive(Clone, Copy, Debug)]
struct Rhs {
    kind: usize,
    lambda: f64,
    /// only this cell (0: all)
    cell: usize,
}
impl Rhs {
    fn eval(&self, u: &Array2<f64>) -> Array2<f64> {
        let mut d = Array2::zeros(u.raw_dim());
        let n = u.ncols();
        for i in 2..n - 2 {
            if self.cell != 0 && self.cell != i {
                continue;
            }
            let (m, l) = (u[[1, i]], self.lambda);
            d[[1, i]] = match self.kind {
                // decay, growth
                0 => l * m,
                1 => -0.2 * l * m,
                // bounded nonlinear
                2 => l * (3.0 * m).sin(),
                // coupled to the neighbour on the right
                3 => l * (m - 0.5 * u[[1, (i + 1).min(n - 3)]]),
                // constant: both solutions agree
                _ => 0.01 * l,
            };
            // density in the first interior cells only, mildly
            if self.kind == 3 {
                d[[0, i]] = 1e-3 * l * (u[[0, i]] - 1.0);
            }
        }
        d
    }
}
fn combine(u0: &Array2<f64>, ks: &[Array2<f64>], w: &[f64], dt: f64) -> Array2<f64> {
    let mut c = u0.clone();
    for (k, b) in ks.iter().zip(w) {
        c = c - k * (*b * dt);
    }
    c
}
/// High-order solution, low-order solution, error estimate
fn pair(f: &dyn Fn(&Array2<f64>) -> Array2<f64>, u0: &Array2<f64>, rk: Rk, dt: f64, tol: (f64, f64, f64)) -> (Array2<f64>, f64) {
    let t = tableau(rk);
    let mut ks = vec![];
    for q in 0..t.b.len() {
        let c = combine(u0, &ks, &t.a[q], dt);
        ks.push(f(&c));
    }
    let (h, l) = (combine(u0, &ks, &t.b, dt), combine(u0, &ks, &t.b_low, dt));
    let mut e = 0.0f64;
    for j in 0..h.nrows() {
        for i in 2..h.ncols() - 2 {
            e = e.max(((h[[j, i]] - l[[j, i]]) / (tol.0 * (h[[j, i]].abs() + tol.1))).abs());
        }
    }
    (h, e)
}
/// An accepted step may turn out to be unphysical; the run ends with that state
fn broken(ph: Ph, p: &Array2<f64>) -> bool {
    p.iter().any(|x| !x.is_finite()) || p.row(0).iter().any(|x| !(*x > 0.0)) || (ph == Ph::Adi && p.row(2).iter().any(|x| !(*x > 0.0)))
}
fn rel(a: &Array2<f64>, b: &Array2<f64>) -> f64 {
    let mut e = 0.0f64;
    for j in 0..a.nrows() {
        for i in 2..a.ncols() - 2 {
            e = e.max((a[[j, i]] - b[[j, i]]).abs() / (1e-3 + a[[j, i]].abs().max(b[[j, i]].abs())));
        }
    }
    e
}

fn real_case(c: &C, init: &Init, out: f64, steps: usize, t: &mut Tally) -> CaseResult {
    let (rk, tol, ph) = (c.rk, c.asc.unwrap(), c.ph);
    clear_hook();
    let mut s = made(c, init)?;
    let rf = Ref::new(c, 1.0);
    s.ts().t_next_output = out;
    for q in 0..steps {
        let u0: F = exact(s.cons());
        let c0 = s.cons().clone();
        let t0 = s.ts().t;
        let dt1 = s.dt_cfl(c.cfl).map_err(|e| format!("{e:#}"))?.min(c.dt_max).min(out - t0);
        let res = guard(|| s.step().map_err(|e| format!("{e:#}")))?;
        t.transitions += 1;
        t.states += 1;
        if res.is_err() {
            // unphysical tries end a run; whether they must is not decided here
            if s.ts().t != t0 || (*s.cons() != c0 && !broken(ph, s.prim())) {
                return Err(format!("the failed step has changed the state: {res:?}\n{c:?}\n{init:?}"));
            }
            t.skipped += 1;
            return Ok(());
        }
        let dt = s.ts().dt;
        let iter = s.ts().iter;
        let show = || format!("step {q}, first try {dt1:?}, step {dt:?}, tolerances {tol:?}\n{c:?}\n{init:?}\nfrom {}\nto {}", short(&c0), short(s.cons()));
        // bounds of the error estimate
        let est = |dt: f64| -> Option<(f64, f64, F)> {
            let (h, l) = rf.rk(&u0, dt)?;
            let (mut lo, mut hi) = (0.0f64, 0.0f64);
            for j in 0..h.len() {
                for i in 2..c.s - 2 {
                    let e = ((h[j][i] - l[j][i]) / (ev(tol.0) * (h[j][i].abs() + ev(tol.1)))).abs();
                    if !e.ok() {
                        return None;
                    }
                    lo = lo.max(e.v - e.e);
                    hi = hi.max(e.v + e.e);
                }
            }
            Some((lo, hi, h))
        };
        if iter != q + 1 {
            return Err(format!("{iter} iterations after {} steps\n{}", q + 1, show()));
        }
        if dt > dt1 * (1.0 + 1e-13) {
            return Err(format!("the step is wider than allowed\n{}", show()));
        }
        match est(dt) {
            None => t.skipped += 1,
            Some((lo, _, h)) => {
                t.traces += 1;
                if lo > 1.0 {
                    return Err(format!("the error estimate of the step taken is at least {lo:?}\n{}", show()));
                }
                for j in 0..h.len() {
                    for i in 2..c.s - 2 {
                        let x = s.cons()[[j, i]];
                        if h[j][i].ok() && (x - h[j][i].v).abs() > h[j][i].e + 1e-12 + if rk == Rk::SSPRK5 { 1e-4 } else { 0.0 } {
                            return Err(format!("cell {i}, equation {j}: {x:?} instead of {:?} after one step of this width\n{}", h[j][i], show()));
                        }
                    }
                }
            },
        }
        if let Some((_, hi, _)) = est(dt1) {
            if hi < 1.0 && (dt - dt1).abs() > 1e-13 * dt1 {
                return Err(format!("the first try had an error estimate of at most {hi:?} and has not been taken\n{}", show()));
            }
        }
    }
    Ok(())
}

fn main() {
    vh::run("C22", |ctx| {
        let phs = [Ph::Adi, Ph::Iso];
        let tols = [(1e-2, 1e-2, 0.08), (1e-3, 1e-3, 0.08), (1e-3, 1.0, 0.4), (1e-5, 1e-6, 0.08), (0.1, 1e-8, 1.0)];
        let lambdas = [0.05, 2.0, 30.0, 400.0];
        let depth = ctx.pick(3u32, 4);
        let cells = [0usize, 2, 4, 5];
        let moms: [[f64; 4]; 3] = [[1.0, 1.0, 1.0, 1.0], [-2.0, 1e-4, -1e-4, 0.5], [1e-7, -3.0, 2.0, -1e-7]];
        // 1. custom right-hand sides whose stiffness changes from step to step
        let n = 2 * 6 * tols.len() * 5 * cells.len() * moms.len() * 4usize.pow(depth) * 3;
        ctx.group("changing stiffness", n, |k, t| {
            let mut x = Radix(k);
            let mut seq: Vec<f64> = (0..depth).map(|_| *x.of(&lambdas)).collect();
            let limit = x.take(3);
            let mom = x.of(&moms);
            let cell = *x.of(&cells);
            let kind = x.take(5);
            let tol = *x.of(&tols);
            let rk = *x.of(&EMBEDDED);
            let ph = *x.of(&phs);
            if kind == 1 {
                seq.iter_mut().for_each(|l| *l = l.min(30.0));
            }
            let c = C {
                ph,
                s: S,
                rk,
                asc: Some(tol),
                xi: (10.5, 14.5),
                t_end: 1e9,
                dt_min: 1e-9,
                dt_max: if limit == 1 { 0.011 } else { f64::MAX },
                ..C::default()
            };
            let prim: Vec<_> = mom.iter().map(|m| (1.0, *m, 1e4)).collect();
            let init = Init::interior(ph, &prim, 50.0);
            clear_hook();
            let mut s = sim(&c, &init)?;
            let cur = Rc::new(Cell::new(Rhs { kind, lambda: 1.0, cell }));
            let cu = cur.clone();
            set_hook(move |u, d| {
                d.assign(&cu.get().eval(u));
                Ok(())
            });
            s.ts().t_next_output = 1e9;
            for (q, l) in seq.iter().enumerate() {
                let r = Rhs { kind, lambda: *l, cell };
                cur.set(r);
                if limit == 2 {
                    // an output is due soon
                    let d = [0.003, 0.02, 1e-5, 0.5][q % 4];
                    s.ts().t_next_output = s.ts().t + d;
                }
                let u0 = s.cons().clone();
                let t0 = s.ts().t;
                let dt_cfl = s.dt_cfl(c.cfl).map_err(|e| format!("{e:#}"))?;
                let left = s.ts().t_next_output - t0;
                let dt1 = dt_cfl.min(c.dt_max).min(left);
                let res = guard(|| s.step().map_err(|e| format!("{e:#}")))?;
                t.transitions += 1;
                t.states += 1;
                let dt = s.ts().dt;
                let iter = s.ts().iter;
                let t1 = s.ts().t;
                let show = || format!("step {q} of stiffness {seq:?}, {r:?}, tolerances {tol:?}, first try {dt1:?}, step {dt:?}\n{c:?}\nfrom {}\nto {}", short(&u0), short(s.prim()));
                if let Err(e) = res {
                    return Err(format!("the step failed: {e}\n{}", show()));
                }
                let f = |u: &Array2<f64>| r.eval(u);
                let (h, err) = pair(&f, &u0, rk, dt, tol);
                let (_, err1) = pair(&f, &u0, rk, dt1, tol);
                let slack = 1e-6 + 1e-14 / tol.0;
                if err > 1.0 + slack {
                    return Err(format!("the error estimate of the step taken is {err:?}\n{}", show()));
                }
                if iter != q + 1 {
                    return Err(format!("{iter} iterations after {} steps\n{}", q + 1, show()));
                }
                if dt > dt1 * (1.0 + 1e-13) {
                    return Err(format!("the step is wider than allowed\n{}", show()));
                }
                if dt < c.dt_min && dt1 > c.dt_min {
                    return Err(format!("the step is below dt_min\n{}", show()));
                }
                if err1 < 1.0 - slack - 1e-6 && (dt - dt1).abs() > 1e-13 * dt1 {
                    return Err(format!("the first try had an error estimate of {err1:?} and has not been taken\n{}", show()));
                }
                let e = rel(&h, s.cons());
                if e > if rk == Rk::SSPRK5 { 1e-4 * (1.0 + dt * l) } else { 1e-10 * (1.0 + dt * l) } {
                    return Err(format!("the state after the step is not that of one step of this width: relative difference {e:?}\nexpected {}\n{}", short(&h), show()));
                }
                if (t1 - (t0 + dt)).abs() > 1e-14 * (1.0 + t1.abs()) {
                    return Err(format!("time went from {t0:?} to {t1:?}\n{}", show()));
                }
            }
            t.traces += 1;
            t.sample(|| format!("{ph:?} {rk:?} {tol:?} kind {kind} cell {cell} {seq:?}"));
            Ok(())
        });
        // 1b. one equation alone, in one cell alone, needs smaller steps
        let eqs: Vec<(usize, usize)> = [2usize, 3, 3, 4].iter().enumerate().flat_map(|(w, e)| (0..*e).map(move |j| (w, j))).collect();
        let lam = [0.02, 0.3, 2.0, 11.0, 60.0, 300.0, 2000.0];
        // in units of time from very short to very long
        ctx.group("one equation", eqs.len() * 6 * tols.len() * lam.len() * cells.len() * 4 * 5, |k, t| {
            let mut x = Radix(k);
            let cell = *x.of(&cells);
            let lambda = *x.of(&lam);
            let (which, j) = *x.of(&eqs);
            let rk = *x.of(&EMBEDDED);
            let tol = *x.of(&tols);
            let mild = x.take(4);
            let sc = *x.of(&[1.0, 1e-4, 1e-8, 1e-15, 1e7]);
            let lambda = lambda / sc;
            let ph = phs[1 - which % 2];
            let c = C { ph, s: S, rk, asc: Some(tol), xi: (10.5 * sc, 14.5 * sc), t_end: 1e9 * sc, dt_min: 1e-9 * sc, ..C::default() };
            let init = Init::interior(ph, &[(1.0, 0.5, 10.0), (1.5, 0.25, 9.0), (2.0, 0.5, 12.0), (0.7, 1.0, 10.0)], 5.0);
            clear_hook();
            let mut s = sim_of(which, &c, &init)?;
            let base = s.cons().clone();
            // the others decay slowly
            let slow = [0.0, 1e-3, 1e-2, 0.1][mild] * lambda;
            let f = move |u: &Array2<f64>| {
                let mut d = Array2::zeros(u.raw_dim());
                for i in 2..S - 2 {
                    for q in 0..u.nrows() {
                        let l = if q == j && (cell == 0 || cell == i) { lambda } else { slow };
                        d[[q, i]] = l * (u[[q, i]] - 0.9 * base[[q, i]]);
                    }
                }
                d
            };
            let g = f.clone();
            set_hook(move |u, d| {
                d.assign(&g(u));
                Ok(())
            });
            s.ts().t_next_output = 1e9 * sc;
            for q in 0..2 {
                let u0 = s.cons().clone();
                let dt1 = s.dt_cfl(c.cfl).map_err(|e| format!("{e:#}"))?;
                let res = guard(|| s.step().map_err(|e| format!("{e:#}")))?;
                t.transitions += 1;
                t.states += 1;
                let dt = s.ts().dt;
                let iter = s.ts().iter;
                let show = || format!("step {q}, physics {which}, equation {j}, cell {cell}, rate {lambda:?} (others {slow:?}), tolerances {tol:?}, first try {dt1:?}, step {dt:?}\n{c:?}\nfrom {}\nto {}", short(&u0), short(s.cons()));
                if res.is_err() && lambda * dt1 > 1.5 {
                    // a try with a negative density or pressure may end the run
                    t.skipped += 1;
                    return Ok(());
                }
                if let Err(e) = res {
                    return Err(format!("the step failed: {e}\n{}", show()));
                }
                let (h, err) = pair(&f, &u0, rk, dt, tol);
                let (_, err1) = pair(&f, &u0, rk, dt1, tol);
                let slack = 1e-6 + 1e-14 / tol.0;
                if err > 1.0 + slack {
                    return Err(format!("the error estimate of the step taken is {err:?}\n{}", show()));
                }
                if dt > dt1 * (1.0 + 1e-13) {
                    return Err(format!("the step is wider than allowed\n{}", show()));
                }
                if err1 < 1.0 - slack - 1e-6 && (dt - dt1).abs() > 1e-13 * dt1 {
                    return Err(format!("the first try had an error estimate of {err1:?} and has not been taken\n{}", show()));
                }
                let e = rel(&h, s.cons());
                if e > if rk == Rk::SSPRK5 { 1e-4 * (1.0 + dt * lambda) } else { 1e-10 * (1.0 + dt * lambda) } {
                    return Err(format!("the state after the step is not that of one step of this width: relative difference {e:?}\nexpected {}\n{}", short(&h), show()));
                }
            }
            t.traces += 1;
            t.sample(|| format!("physics {which} equation {j} {rk:?} {tol:?} cell {cell} {lambda:?}"));
            Ok(())
        });
        // 2. steps below dt_min are not taken; a failing step leaves the state alone
        let mins = [1e-8, 1e-5, 1e-4, 1e-3, 3e-3, 5e-3];
        ctx.group("dt_min", 2 * 6 * tols.len() * 4 * mins.len() * cells.len() * 6, |k, t| {
            let mut x = Radix(k);
            let kind = [0, 2, 3, 0][x.take(4)];
            let lambda = [1.0, 30.0, 400.0, 3000.0, 1e5, 1e7][x.take(6)];
            let cell = *x.of(&cells);
            let dt_min = *x.of(&mins);
            let tol = *x.of(&tols);
            let rk = *x.of(&EMBEDDED);
            let ph = *x.of(&phs);
            let c = C { ph, s: S, rk, asc: Some(tol), xi: (10.5, 14.5), t_end: 1e9, dt_min, ..C::default() };
            let init = Init::interior(ph, &[(1.0, 1.0, 1e4), (1.0, 0.5, 1e4), (1.0, -0.5, 1e4), (1.0, 0.25, 1e4)], 20.0);
            clear_hook();
            let mut s = sim(&c, &init)?;
            let r = Rhs { kind, lambda, cell };
            set_hook(move |u, d| {
                d.assign(&r.eval(u));
                Ok(())
            });
            s.ts().t_next_output = 1e9;
            let u0 = s.cons().clone();
            let dt1 = s.dt_cfl(c.cfl).map_err(|e| format!("{e:#}"))?;
            let res = guard(|| s.step().map_err(|e| format!("{e:#}")))?;
            t.transitions += 1;
            t.states += 1;
            t.traces += 1;
            let dt = s.ts().dt;
            let iter = s.ts().iter;
            let t1 = s.ts().t;
            let show = || format!("{r:?}, tolerances {tol:?}, dt_min {dt_min:?}, first try {dt1:?}, step {dt:?}\n{c:?}\nfrom {}\nto {}", short(&u0), short(s.cons()));
            let f = |u: &Array2<f64>| r.eval(u);
            let (h1, err1) = pair(&f, &u0, rk, dt1, tol);
            // a try with a negative pressure may end the run
            let fast = ph == Ph::Adi && h1.row(1).iter().any(|m| !(m.abs() < 100.0));
            let slack = 1e-6 + 1e-14 / tol.0;
            match res {
                Ok(()) => {
                    if dt < dt_min {
                        return Err(format!("the step is below dt_min\n{}", show()));
                    }
                    let (_, err) = pair(&f, &u0, rk, dt, tol);
                    if err > 1.0 + slack {
                        return Err(format!("the error estimate of the step taken is {err:?}\n{}", show()));
                    }
                },
                Err(e) => {
                    if err1 < 1.0 - slack && dt1 >= dt_min && !fast {
                        return Err(format!("the first try had an error estimate of {err1:?}, but the step failed: {e}\n{}", show()));
                    }
                    if t1 != 0.0 || (*s.cons() != u0 && !broken(ph, s.prim())) {
                        return Err(format!("the failed step has changed the state or the time ({t1:?})\n{}", show()));
                    }
                    t.sample(|| format!("refused: {rk:?} {r:?} dt_min {dt_min:?}"));
                },
            }
            Ok(())
        });
        // 3. modes without an embedded pair ignore step control
        let fl = fluxes();
        ctx.group("modes without a pair", 2 * 3 * fl.len() * tols.len() * 3, |k, t| {
            let mut x = Radix(k);
            let rk = *x.of(&[Rk::RK1, Rk::RK2, Rk::RK4]);
            let tol = *x.of(&[(1e-12, 1e-12, 0.08), tols[0], tols[1], tols[2], tols[3]]);
            let f = *x.of(&fl);
            let w = x.take(3);
            let ph = *x.of(&phs);
            let c = C { ph, s: S, fl: f, rk, dt_max: if w == 1 { 0.01 } else { f64::MAX }, ..C::default() };
            let cells: Vec<_> = (0..4).map(|k| (1.0 + 0.1 * k as f64, 0.1 * k as f64, 1.0 - 0.1 * k as f64)).collect();
            let init = Init::interior(ph, &cells, 1.0);
            let mut a = made(&c, &init)?;
            let ca = C { asc: Some(tol), ..c.clone() };
            let mut b = made(&ca, &init)?;
            for q in 0..4 {
                let tn = if w == 2 { 0.03 * (q + 1) as f64 } else { 1e6 };
                a.ts().t_next_output = tn;
                b.ts().t_next_output = tn;
                let ra = guard(|| a.step().map_err(|e| format!("{e:#}")))?;
                let rb = guard(|| b.step().map_err(|e| format!("{e:#}")))?;
                t.transitions += 2;
                t.states += 1;
                if ra.is_ok() != rb.is_ok() || bits(&mut *a) != bits(&mut *b) {
                    return Err(format!("step {q} differs with step control on ({rb:?}) and off ({ra:?})\n{ca:?}\n{init:?}"));
                }
                if ra.is_err() {
                    break;
                }
            }
            t.traces += 1;
            Ok(())
        });
        // 4. the real schemes
        let pals: Vec<[(f64, f64, f64); 4]> = {
            let a = [(1.0, 0.0, 1.0), (0.125, 0.0, 0.1), (1.0, 1.0, 0.5), (0.6, -0.8, 0.4)];
            let mut v = vec![];
            for i in 0..4usize.pow(4) {
                let mut x = Radix(i);
                v.push([*x.of(&a), *x.of(&a), *x.of(&a), *x.of(&a)]);
            }
            v
        };
        let fls = [Fl::Hll, Fl::Kt(Lim::MinMod), Fl::Kt(Lim::VanLeer), Fl::Kt(Lim::Monocent(1.2))];
        let t4 = [(1e-3, 1e-3, 0.08), (1e-5, 1e-3, 0.08), (1e-6, 1.0, 0.08), (1e-4, 1e-9, 0.3)];
        let steps = ctx.pick(2, 5);
        ctx.group("real schemes", 2 * 6 * fls.len() * t4.len() * pals.len() * 2, |k, t| {
            let mut x = Radix(k);
            let cells = x.of(&pals);
            let tol = *x.of(&t4);
            let f = *x.of(&fls);
            let rk = *x.of(&EMBEDDED);
            let cap = x.take(2);
            let ph = *x.of(&phs);
            let c = C { ph, s: S, fl: f, rk, asc: Some(tol), xi: (10.5, 14.5), dt_max: if cap == 1 { 0.2 } else { f64::MAX }, ..C::default() };
            real_case(&c, &Init::interior(ph, cells, 1.0), 1e6, steps, t)
        });
        // a disturbance in every place of meshes of every size, with every kind of boundary
        let places: Vec<(usize, usize)> = SIZES[1..].iter().flat_map(|s| (0..s - 4).map(|p| (*s, p))).filter(|(s, p)| *s < 100 || p % ctx.pick(7, 1) < 2).collect();
        ctx.group("places", places.len() * 2 * 6 * 2 * 3, |k, t| {
            let mut x = Radix(k);
            let (s, p) = *x.of(&places);
            let ph = *x.of(&phs);
            let rk = *x.of(&EMBEDDED);
            let f = [Fl::Hll, Fl::Kt(Lim::VanLeer)][x.take(2)];
            let q = x.take(3);
            let b = k % N_BC;
            let c = C {
                ph,
                s,
                fl: f,
                rk,
                asc: Some([(1e-3, 1e-3, 0.08), (1e-5, 1e-3, 0.08), (1e-4, 1e-9, 0.3)][q]),
                xi: (10.5, 10.5 + (s - 4) as f64),
                west: bc_set(ph, b),
                east: bc_set(ph, (b + 3) % N_BC),
                dt_max: [f64::MAX, 0.3][q % 2],
                t0: [0.0, 7.25][p % 2],
                ..C::default()
            };
            let cells: Vec<_> = (0..s - 4).map(|i| if i == p { [(0.4, 0.3, 0.2), (1.0, 0.2, 0.7), (2.0, -0.3, 2.5)][q] } else { (1.0, 0.1, 0.7) }).collect();
            real_case(&c, &Init::interior(ph, &cells, 1.0), c.t0 + [1e6, 0.21, 1e-3][(p + q) % 3], 1, t)
        });
    })
}
