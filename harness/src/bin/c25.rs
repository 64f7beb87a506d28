//! All combinations of configuration variants, stepped in lockstep with the reference simulator.
use vh::refsim::*;
use vh::*;

const SETS: [[(f64, f64, f64); 5]; 6] = [
    [(1.0, 0.3, 1.0), (0.9, -0.2, 1.2), (0.5, 0.45, 0.4), (0.6, 0.6, 0.7), (1.3, -0.1, 0.8)],
    [(1.0, 0.01, 1.0), (1.0, 0.02, 1.0), (0.7, 0.03, 0.5), (0.125, 0.01, 0.1), (0.126, 0.02, 0.11)],
    [(1.0, 3.0, 0.6), (1.2, 2.8, 0.5), (1.1, 3.1, 0.7), (0.9, 3.3, 0.65), (0.8, 2.9, 0.6)],
    [(1.0, -3.0, 0.6), (1.2, -2.8, 0.5), (1.1, -3.1, 0.7), (0.9, -3.3, 0.65), (0.8, -2.9, 0.6)],
    [(1.0, 1.0, 0.3), (1.1, 0.8, 0.35), (2.0, 0.05, 1.5), (1.1, -0.8, 0.33), (0.9, -1.1, 0.3)],
    [(20.0, -0.5, 40.0), (18.0, -0.1, 30.0), (10.0, 0.4, 22.0), (9.0, 0.6, 25.0), (15.0, 1.0, 18.0)],
];

fn one_step(s: &mut dyn Sim, c: &C, rf: &Ref, t: &mut Tally) -> Result<bool, String> {
    let (p0, c0) = (s.prim().clone(), s.cons().clone());
    let (t0, tn) = (s.ts().t, s.ts().t_next_output);
    let show = |e: String| Err(format!("{e}\nfrom prim {}\ncons {}\n{c:?}", short(&p0), short(&c0)));
    t.states += 1;
    t.transitions += 1;
    let res = s.step();
    let dt = s.ts().dt;
    let Some(cfl) = rf.dt_cfl(&exact(&p0)) else {
        t.skipped += 1;
        return Ok(false);
    };
    let want = cfl.min(ev(c.dt_max)).min(ev(tn - t0));
    let want_t = Ev { v: want.v, e: want.e + 4.0 * f64::EPSILON * (t0.abs() + tn.abs()) };
    // step control may reduce the width (that it does so rightly is decided elsewhere)
    let reduced = c.asc.is_some() && dt > 0.0 && dt <= want_t.v + want_t.e;
    if want.ok() && (res.is_ok() || dt != 0.0) && !want_t.agrees(dt) && !reduced {
        return show(format!("dt = {dt:e}, expected {:e} +- {:e}", want.v, want_t.e));
    }
    let Some((mut cons, _)) = rf.rk(&exact(&c0), dt) else {
        t.skipped += 1;
        return Ok(false);
    };
    // boundary conditions at the end
    let Some((prim, full)) = rf.full_from_cons(&cons) else {
        t.skipped += 1;
        return Ok(false);
    };
    let phys = (2..c.s - 2).all(|i| prim[0][i].pos() && (c.ph == Ph::Iso || prim[2][i].pos()));
    if !phys {
        t.skipped += 1;
        return Ok(false);
    }
    cons = full;
    if let Err(e) = res {
        // extrapolated ghost cells may be unphysical
        let ghosts = (0..c.s).all(|i| prim[0][i].pos() && (c.ph == Ph::Iso || prim[2][i].pos()));
        // step control may ask for steps below dt_min (that it does so rightly is decided elsewhere, too)
        if !ghosts || (c.asc.is_some() && dt < c.dt_min) {
            t.skipped += 1;
            return Ok(false);
        }
        return show(format!("the step fails: {e:#}"));
    }
    t.traces += 1;
    for (name, have, want) in [("cons", s.cons(), &cons), ("prim", s.prim(), &prim)] {
        for j in 0..c.ph.e() {
            for i in 0..c.s {
                let w = want[j][i];
                let tol = Ev { v: w.v, e: w.e + 1e-14 * w.v.abs() };
                if w.ok() && !tol.agrees(have[[j, i]]) {
                    return show(format!("after the step with dt = {dt:e}: {name}[{j}, {i}] = {:e}, expected {:e} +- {:e}", have[[j, i]], w.v, w.e));
                }
            }
        }
    }
    let t1 = s.ts().t;
    if (t1 - (t0 + dt)).abs() > 4.0 * f64::EPSILON * t1.abs().max(dt) {
        return show(format!("time went from {t0:e} to {t1:e} with dt = {dt:e}"));
    }
    Ok(true)
}

fn main() {
    vh::run("C25", |ctx| {
        let fl = fluxes();
        let nset = SETS.len();
        let ns = ctx.pick(3, 12);
        let perm = ctx.pick(4, 5);
        ctx.group("combinations", 2 * fl.len() * RKS.len() * N_BC * N_BC * nset * perm, |k, t| {
            let mut r = Radix(k);
            let set = r.of(&SETS[..nset]);
            let rot = r.take(perm);
            let ph = *r.of(&[Ph::Adi, Ph::Iso]);
            let rk = *r.of(&RKS);
            let f = *r.of(&fl);
            let (w, e) = (r.take(N_BC), r.take(N_BC));
            let cells: Vec<_> = (0..5).map(|i| set[(i + rot) % 5]).collect();
            let c = C { ph, rk, s: 9, fl: f, west: bc_set(ph, w), east: bc_set(ph, e), ..C::default() };
            let mut s = made(&c, &Init::interior(ph, &cells, 0.8))?;
            (s.ts().t_next_output, s.ts().t_end) = (1e6, 1e6);
            let rf = Ref::new(&c, 0.8);
            t.sample(|| format!("{c:?} {cells:?}"));
            for _ in 0..ns {
                if !one_step(s.as_mut(), &c, &rf, t)? {
                    break;
                }
            }
            Ok(())
        });
        // mesh sizes, intervals, adiabatic indices, CFL numbers, longer
        let ns = ctx.pick(20, 100);
        let xis = [(1.1, 2.0), (-3.0, 7.3), (100.0, 101.0)];
        ctx.group("parameters", SIZES.len() * xis.len() * 3 * 2 * 2 * 3 * RKS.len(), |k, t| {
            let mut r = Radix(k);
            let s = *r.of(&SIZES);
            let xi = *r.of(&xis);
            let gamma = *r.of(&[1.4, 1.01, 1.99]);
            let cfl = *r.of(&[0.4, 0.1]);
            let ph = *r.of(&[Ph::Adi, Ph::Iso]);
            let f = *r.of(&[Fl::Hll, Fl::Kt(Lim::VanLeer), Fl::Kt(Lim::MinMod)]);
            let rk = *r.of(&RKS);
            let cells: Vec<_> = (0..s - 4).map(|i| SETS[0][(i * i + i / 3) % 5]).collect();
            let b = if s == 5 { 0 } else { 1 };
            let c = C { ph, rk, s, xi, gamma, cfl, fl: f, west: bc_set(ph, b), ..C::default() };
            let mut sim = made(&c, &Init::interior(ph, &cells, 1.3))?;
            (sim.ts().t_next_output, sim.ts().t_end) = (1e6, 1e6);
            let rf = Ref::new(&c, 1.3);
            for _ in 0..(if s > 16 { ns / 4 + 1 } else { ns }) {
                if !one_step(sim.as_mut(), &c, &rf, t)? {
                    break;
                }
            }
            Ok(())
        });
        // many steps of one simulation, whose state is set anew every now and then
        let n_long = ctx.pick(6000, 100_000);
        ctx.group("long runs", 2 * 3 * RKS.len() * 2, |k, t| {
            let mut r = Radix(k);
            let ph = *r.of(&[Ph::Adi, Ph::Iso]);
            let f = *r.of(&[Fl::Hll, Fl::Kt(Lim::VanLeer), Fl::Kt(Lim::Monocent(1.2))]);
            let rk = *r.of(&RKS);
            let asc = (r.take(2) == 1).then_some((1e-2, 1e-3, 0.1));
            let c = C { ph, rk, s: 9, fl: f, asc, west: bc_set(ph, 1), east: bc_set(ph, k % 4), ..C::default() };
            let mut s = made(&c, &Init::interior(ph, &SETS[0], 0.8))?;
            (s.ts().t_next_output, s.ts().t_end) = (1e6, 1e6);
            let rf = Ref::new(&c, 0.8);
            let mut iter = 0;
            for n in 0..n_long {
                if !one_step(s.as_mut(), &c, &rf, t).map_err(|e| format!("step {n}: {e}"))? || n % 60 == 59 {
                    let cells: Vec<_> = (0..5).map(|i| SETS[n % 6][(i + n) % 5]).collect();
                    s.set(&Init::interior(ph, &cells, 0.8));
                }
                iter += 1;
                if s.ts().iter != iter {
                    return Err(format!("the iteration counter is {} instead of {iter}\n{c:?}", s.ts().iter));
                }
                // large numbers of iterations and large times
                if n % 600 == 599 {
                    iter = [100, 9_990, 999_980, 65_530, (1 << 31) - 9, (1 << 32) - 9, 0][n / 600 % 7];
                    s.ts().iter = iter;
                    s.ts().t = [0.0, 10.0, 1e3, 1e5][n / 600 % 4];
                }
            }
            Ok(())
        });
        // physics of the user's own: the same Euler equations with a dye that the flow carries along
        let perm = ctx.pick(2, 5);
        let ns_dye = ctx.pick(4, 12);
        ctx.group("with dye", 2 * fl.len() * RKS.len() * N_BC * nset * perm * 3 * 2, |k, t| {
            let mut r = Radix(k);
            let set = r.of(&SETS[..nset]);
            let rot = r.take(perm);
            let ph = *r.of(&[Ph::Adi, Ph::Iso]);
            let rk = *r.of(&RKS);
            let f = *r.of(&fl);
            let b = r.take(N_BC);
            let kind = r.take(3);
            let s = *r.of(&[9, 36]);
            let cells: Vec<_> = (0..s - 4).map(|i| set[(i * (i / 5 + 1) + rot) % 5]).collect();
            let walls = kind == 2;
            let c = C { ph, rk, s, fl: f, west: bc_set(ph, if walls { 1 } else { b }), east: bc_set(ph, if walls { 1 } else { (b + k % 3) % N_BC }), ..C::default() };
            let init = Init::interior(ph, &cells, 0.8);
            let dye: Vec<f64> = (0..s).map(|i| if kind == 0 { 0.75 } else { ((i * i + rot) % 7) as f64 / 8.0 }).collect();
            let rule = if kind == 0 && k % 2 == 0 { Bm::Extrapolate } else { Bm::NoGradients };
            let mut a = made(&c, &init)?;
            let mut d = dye::make_dye(&c, &init, &dye, rule).map_err(|e| format!("init_corries with user-defined physics fails: {e:#}\n{c:?}"))?;
            t.states += 1;
            for x in [a.ts(), d.ts()] {
                (x.t_next_output, x.t_end) = (1e6, 1e6);
            }
            let total = |d: &dyn Sim| (2..s - 2).map(|i| d.cons()[[2, i]]).sum::<f64>();
            let before = total(d.as_ref());
            for n in 0..ns_dye {
                let show = |e: String, d: &dyn Sim| Err(format!("step {n}: {e}\nwith dye {}\ninitially {init:?}, dye {dye:?}\n{c:?}", short(d.prim())));
                let (ra, rd) = (a.step(), d.step());
                t.transitions += 2;
                if ra.is_ok() != rd.is_ok() {
                    return show(format!("without dye {ra:?}, with dye {rd:?}"), d.as_ref());
                }
                if ra.is_err() {
                    return Ok(());
                }
                // near a vacuum, or what it does to velocities, (schemes that do not limit get there) rounding errors of the neighbours' densities decide
                if (0..s).any(|i| !(a.prim()[[0, i]] > 0.02 && a.prim()[[1, i]].abs() < 100.0)) {
                    t.skipped += 1;
                    return Ok(());
                }
                if (a.ts().dt - d.ts().dt).abs() > 1e-10 * a.ts().dt {
                    return show(format!("dt is {:e} without and {:e} with dye", a.ts().dt, d.ts().dt), d.as_ref());
                }
                for j in 0..ph.e() {
                    let (x, y) = (a.prim().row(j), d.prim().row(dye::with_dye(j)));
                    let scale = x.iter().fold(1e-3f64, |m, x| m.max(x.abs()));
                    if let Some(i) = (0..s).find(|i| (x[*i] - y[*i]).abs() > 1e-9 * scale) {
                        return show(format!("variable {j} of cell {i} is {:e} without dye and {:e} with it", x[i], y[i]), d.as_ref());
                    }
                }
                let p = d.prim();
                // a uniform dye stays uniform
                if kind == 0 {
                    if let Some(i) = (2..s - 2).find(|i| (p[[2, *i]] - 0.75).abs() > 1e-10) {
                        return show(format!("a uniform dye of 0.75 became {:e} in cell {i}", p[[2, i]]), d.as_ref());
                    }
                }
                // the first-order scheme only mixes; walls let nothing out
                if kind > 0 && f == Fl::Hll && rk == Rk::RK1 {
                    if let Some(i) = (2..s - 2).find(|i| !(p[[2, *i]] > -1e-12 && p[[2, *i]] < 0.75 + 1e-12)) {
                        return show(format!("the dye, initially between 0 and 0.75, is {:e} in cell {i}", p[[2, i]]), d.as_ref());
                    }
                }
                if walls && f == Fl::Hll && (total(d.as_ref()) - before).abs() > 1e-11 * before.abs().max(1.0) {
                    return show(format!("the dye between walls went from {before:e} to {:e}", total(d.as_ref())), d.as_ref());
                }
                t.states += 1;
            }
            t.traces += 1;
            Ok(())
        });
        // a very long mesh
        ctx.group("large mesh", 2 * fl.len() * RKS.len() * nset, |k, t| {
            let mut r = Radix(k);
            let set = r.of(&SETS[..nset]);
            let ph = *r.of(&[Ph::Adi, Ph::Iso]);
            let f = *r.of(&fl);
            let rk = *r.of(&RKS);
            let cells: Vec<_> = (0..BIG - 4).map(|i| set[(i * i + i / 7) % 5]).collect();
            let b = k % N_BC;
            let c = C { ph, rk, s: BIG, xi: (3.1, 207.2), fl: f, west: bc_set(ph, b), east: bc_set(ph, (b + 2) % N_BC), ..C::default() };
            let mut sim = made(&c, &Init::interior(ph, &cells, 1.3))?;
            (sim.ts().t_next_output, sim.ts().t_end) = (1e6, 1e6);
            let rf = Ref::new(&c, 1.3);
            for _ in 0..2 {
                if !one_step(sim.as_mut(), &c, &rf, t)? {
                    break;
                }
            }
            Ok(())
        });
        // the same with step control; units, output times and limits of the step width cut in as well
        let ascs = [(1e-3, 1e-3, 0.08), (1e-6, 1e-9, 0.5), (1e-1, 1.0, 1e-3)];
        let perm = ctx.pick(2, 5);
        ctx.group("step control", 2 * fl.len() * EMBEDDED.len() * N_BC * nset * perm * ascs.len() * 3, |k, t| {
            let mut r = Radix(k);
            let set = r.of(&SETS[..nset]);
            let rot = r.take(perm);
            let ph = *r.of(&[Ph::Adi, Ph::Iso]);
            let rk = *r.of(&EMBEDDED);
            let f = *r.of(&fl);
            let asc = Some(*r.of(&ascs));
            let b = r.take(N_BC);
            let cells: Vec<_> = (0..5).map(|i| set[(i + rot) % 5]).collect();
            let mut c = C { ph, rk, asc, s: 9, fl: f, west: bc_set(ph, b), east: bc_set(ph, (b + 3) % N_BC), ..C::default() };
            let cut = r.take(3);
            if cut == 1 {
                c.dt_max = 2e-3;
            }
            let mut s = made(&c, &Init::interior(ph, &cells, 0.8))?;
            (s.ts().t_next_output, s.ts().t_end) = (if cut == 2 { 0.03 } else { 1e6 }, 1e6);
            let rf = Ref::new(&c, 0.8);
            for _ in 0..ns / 4 + 1 {
                if !one_step(s.as_mut(), &c, &rf, t)? || s.ts().t >= s.ts().t_next_output * (1.0 - 1e-9) {
                    break;
                }
            }
            Ok(())
        });
        // run_corries takes exactly these steps
        ctx.group("runs", 2 * fl.len() * RKS.len() * 2 * 3 * 2, |k, t| {
            let mut r = Radix(k);
            let ph = *r.of(&[Ph::Adi, Ph::Iso]);
            let f = *r.of(&fl);
            let rk = *r.of(&RKS);
            let asc = (r.take(2) == 1).then_some((1e-3, 1e-4, 0.1));
            let outputs = *r.of(&[1, 2, 5]);
            let set = r.of(&SETS[..2]);
            let c = C { ph, rk, s: 9, fl: f, west: bc_set(ph, 1), asc, t_end: 0.25, outputs, ..C::default() };
            let init = Init::interior(ph, set, 0.8);
            let (mut a, mut b) = (made(&c, &init)?, made(&c, &init)?);
            t.states += 1;
            let ra = a.run();
            t.transitions += a.ts().iter as u64;
            // the same by hand
            let mut rb = Ok(());
            for k in 1..=outputs {
                b.ts().t_next_output = if k == outputs { c.t_end } else { k as f64 * c.t_end / outputs as f64 };
                while rb.is_ok() && b.ts().t < b.ts().t_next_output * (1.0 - 1e-12) {
                    rb = b.step();
                    t.transitions += 1;
                }
            }
            if ra.is_ok() != rb.is_ok() {
                return Err(format!("run_corries: {ra:?}, step by step: {rb:?}\n{c:?}"));
            }
            t.traces += 1;
            if ra.is_err() {
                return Ok(());
            }
            let (ia, ib) = (a.ts().iter, b.ts().iter);
            let close = a.cons().iter().zip(b.cons()).all(|(x, y)| (x - y).abs() <= 1e-9 * (1.0 + x.abs()));
            if ia != ib || !close {
                return Err(format!("run_corries ends after {ia} steps with {}, step by step: {ib} steps, {}\n{c:?}", short(a.cons()), short(b.cons())));
            }
            Ok(())
        });
    });
}
