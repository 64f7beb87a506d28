//! Telescoping: the interior total of the spatial derivative, and the change of the interior totals in a full step, are
//! a function of what is near the two outer faces; nothing the inner cells contain may change them.
use vh::*;

const CELLS: [(f64, f64, f64); 10] = [
    (1.0, 0.3, 1.0),
    (1.0, -0.4, 1.0),
    (0.125, 0.0, 0.1),
    (8.0, 3.0, 0.5),
    (8.0, -3.0, 0.5),
    (1e-3, 2.0, 1e-3),
    (0.7, -5.0, 2.0),
    (20.0, 0.01, 40.0),
    (2.0, 1.0, 0.7),
    (1.1, 0.25, 0.9),
];
/// Rough size of the numerical flux of every equation
fn flux_scale(ph: Ph, gamma: f64, cs: f64, cells: &[(f64, f64, f64)]) -> Vec<f64> {
    let mut m = [0.0f64; 3];
    let mut smax = 0.0f64;
    let mut u = [0.0f64; 3];
    for &(d, v, p) in cells {
        let (p, c) = if ph == Ph::Adi { (p, (gamma * p / d).sqrt()) } else { (d * cs * cs, cs) };
        let e = p / (gamma - 1.0) + 0.5 * d * v * v;
        smax = smax.max(v.abs() + c);
        u = [u[0].max(d), u[1].max((d * v).abs()), u[2].max(e)];
        m = [m[0].max((d * v).abs()), m[1].max(d * v * v + p), m[2].max((e + p) * v.abs())];
    }
    (0..ph.e()).map(|j| 4.0 * (m[j] + smax * u[j])).collect()
}

fn main() {
    vh::run("C01", |ctx| {
        ctx.assume("a leak smaller than 1e-11 of the largest flux is not distinguished from rounding");
        let mut cfgs = vec![];
        for ph in [Ph::Adi, Ph::Iso] {
            for fl in fluxes() {
                for (w, e) in [(0, 0), (1, 1), (2, 3), (4, 0), (0, 5), (6, 1), (3, 4)] {
                    for xi in [(1.1, 2.0), (-20.3, 47.0)] {
                        cfgs.push(C { ph, fl, xi, s: 10, west: bc_set(ph, w), east: bc_set(ph, e), ..C::default() });
                    }
                }
            }
        }
        // [a a | m n | b b'] : the edge cells are fixed, all pairs (quick) / triples (thorough) in the middle
        let na = ctx.pick(8, 10);
        let nedge = ctx.pick(6, 10);
        let nm = na * na;
        // units of density, velocity and pressure
        let mut units = vec![];
        for d in [1.0, 1e-7, 1e6] {
            for v in [1.0, 1e-6, 1e4] {
                for p in [1.0, 1e-10, 1e8] {
                    units.push((d, v, p));
                }
            }
        }
        let nu = units.len();
        ctx.group("rhs", cfgs.len() * nedge * nedge * nu, |k, t| {
            let mut r = Radix(k);
            let (ud, uv, up) = *r.of(&units);
            let cell = |k: usize| (CELLS[k].0 * ud, CELLS[k].1 * uv, CELLS[k].2 * up);
            let (a, b) = (cell(r.take(nedge)), cell(r.take(nedge)));
            let k = k / nu;
            let c = &cfgs[r.0];
            let cs = if up == 1.0 { 0.9 * uv } else { 0.9 * up.powf(0.25) };
            let mut sim: Option<Box<dyn Sim>> = None;
            let mut first: Option<(Vec<f64>, Vec<_>)> = None;
            for m in 0..nm {
                let (x, y) = (cell(m % na), cell(m / na));
                let cells = [a, cell((k + 3) % na), x, y, cell((k + 5) % na), b];
                let init = Init::interior(c.ph, &cells, cs);
                if sim.is_none() {
                    sim = Some(made(c, &init)?);
                }
                let sim = sim.as_mut().unwrap();
                sim.set(&init);
                t.states += 1;
                t.transitions += 1;
                if sim.rhs().is_err() || sim.full().iter().any(|x| !x.is_finite()) {
                    t.skipped += 1;
                    continue;
                }
                let tot: Vec<f64> =
                    (0..c.ph.e()).map(|j| (2..c.s - 2).map(|i| sim.full()[[j, i]] * c.dx()).sum()).collect();
                match &first {
                    None => first = Some((tot, cells.to_vec())),
                    Some((f, fc)) => {
                        t.traces += 1;
                        let mut all = cells.to_vec();
                        all.extend(fc);
                        let sc = flux_scale(c.ph, c.gamma, cs, &all);
                        for j in 0..c.ph.e() {
                            if (tot[j] - f[j]).abs() > 1e-11 * sc[j] {
                                return Err(format!(
                                    "equation {j}: interior total of the time derivative is {:e} for inner cells {cells:?} but {:e} for {fc:?}\n{c:?}",
                                    tot[j], f[j]
                                ));
                            }
                        }
                    }
                }
                t.sample(|| format!("{:?} {:?} cells {cells:?}: totals {:?}", c.ph, c.fl, first.as_ref().unwrap().0));
            }
            Ok(())
        });
        // every size of mesh, a jump at every face, with a uniform flow around it: nothing may be created or lost
        let mut sized = vec![];
        for ph in [Ph::Adi, Ph::Iso] {
            for fl in fluxes() {
                for s in SIZES.into_iter().chain([BIG]) {
                    for i in (2..s - 3).filter(|i| s < BIG || i % 200 < 2 || *i == s - 4) {
                        sized.push((C { ph, fl, s, xi: (1.1, 1.1 + (s - 4) as f64), ..C::default() }, i));
                    }
                }
            }
        }
        let nj = ctx.pick(6, 10);
        ctx.group("positions", sized.len(), |k, t| {
            let (c, i) = &sized[k];
            let mut sim: Option<Box<dyn Sim>> = None;
            for m in 0..nj * nj * nj {
                let (x, y, z) = (CELLS[m % nj], CELLS[m / nj % nj], CELLS[m / nj / nj]);
                // x x x y x x x ... with z at the far end of the mesh
                let mut cells = vec![x; c.s];
                cells[*i] = y;
                let far = c.s - 1 - *i;
                if far != *i && far >= 2 {
                    cells[far] = z;
                }
                let init = Init::cells(c.ph, &cells, 0.9);
                if sim.is_none() {
                    sim = Some(made(c, &init)?);
                }
                let sim = sim.as_mut().unwrap();
                sim.set(&init);
                t.states += 1;
                t.transitions += 1;
                if sim.rhs().is_err() || sim.full().iter().any(|x| !x.is_finite()) {
                    t.skipped += 1;
                    continue;
                }
                // the outer faces see the uniform flow as long as the odd cells keep away from the ends
                let quiet = [*i, far].iter().all(|q| (4..c.s - 4).contains(q) || cells[*q] == x);
                if !quiet {
                    t.skipped += 1;
                    continue;
                }
                t.traces += 1;
                let sc = flux_scale(c.ph, c.gamma, 0.9, &[x, y, z]);
                for j in 0..c.ph.e() {
                    let tot: f64 = (2..c.s - 2).map(|q| sim.full()[[j, q]] * c.dx()).sum();
                    if tot.abs() > 1e-11 * sc[j] {
                        return Err(format!("equation {j}: the interior total changes at the rate {tot:e} although the flow is the same at both ends\n{c:?}\n{cells:?}"));
                    }
                }
            }
            Ok(())
        });
        // full steps with a fixed step width: 16 cells on each side shield the outer faces from the four inner cells
        let mut steps = vec![];
        for ph in [Ph::Adi, Ph::Iso] {
            for fl in fluxes() {
                for rk in RKS {
                    for (w, e) in [(0, 0), (1, 2), (3, 1)] {
                        steps.push(C {
                            ph, fl, rk, s: 36, xi: (3.0, 35.0), west: bc_set(ph, w), east: bc_set(ph, e), dt_max: 0.01, ..C::default()
                        });
                    }
                }
            }
        }
        let ends = [(0usize, 0usize), (1, 1), (0, 2), (3, 3), (4, 0), (8, 8)];
        let nm = ctx.pick(5, 10);
        ctx.group("steps", steps.len() * ends.len(), |k, t| {
            let mut r = Radix(k);
            let (a, b) = *r.of(&ends);
            let c = &steps[r.0];
            let cs = 0.9;
            let mut first: Option<Vec<f64>> = None;
            for m in 0..nm * nm {
                let mut cells = vec![CELLS[a]; 16];
                cells.extend(vec![CELLS[b]; 16]);
                let mid = [m % nm, m / nm];
                for q in 0..4 {
                    if m > 0 {
                        cells[14 + q] = CELLS[mid[q / 2]];
                    }
                }
                let init = Init::interior(c.ph, &cells, cs);
                let mut sim = made(c, &init)?;
                let tot = |s: &dyn Sim| -> Vec<f64> {
                    (0..c.ph.e()).map(|j| (2..c.s - 2).map(|i| s.cons()[[j, i]] * c.dx()).sum()).collect()
                };
                let mag = |s: &dyn Sim| -> Vec<f64> {
                    (0..c.ph.e()).map(|j| (2..c.s - 2).map(|i| s.cons()[[j, i]].abs() * c.dx()).sum()).collect()
                };
                sim.ts().t_next_output = 1e6;
                let (t0, m0) = (tot(&*sim), mag(&*sim));
                t.states += 1;
                t.transitions += 1;
                let res = sim.step();
                if res.is_err() || sim.ts().dt != 0.01 {
                    t.skipped += 1;
                    continue;
                }
                let t1 = tot(&*sim);
                let d: Vec<f64> = (0..c.ph.e()).map(|j| t1[j] - t0[j]).collect();
                let sc = flux_scale(c.ph, c.gamma, cs, &cells);
                t.traces += 1;
                for j in 0..c.ph.e() {
                    let tol = 1e-12 * (m0[j] + sc[j]);
                    // (reflecting or outflow walls do exchange momentum, so nothing is claimed in absolute terms there)
                    if a == b && c.west.is_none() && c.east.is_none() && d[j].abs() > tol {
                        return Err(format!(
                            "equation {j}: the total changes by {:e} in one step although the flow is the same at both ends\n{c:?}\n{cells:?}",
                            d[j]
                        ));
                    }
                    if let Some(f) = &first {
                        if (d[j] - f[j]).abs() > 2.0 * tol {
                            return Err(format!(
                                "equation {j}: the total changes by {:e} in one step, but by {:e} with other contents of the inner cells\n{c:?}\n{cells:?}",
                                d[j], f[j]
                            ));
                        }
                    }
                }
                if first.is_none() {
                    first = Some(d);
                }
            }
            Ok(())
        });
        // several steps at the width the implementation chooses itself, with and without step control: as long as the
        // disturbance has not reached the ends, where the flow is the same, nothing is gained or lost
        let mut long = vec![];
        for ph in [Ph::Adi, Ph::Iso] {
            for fl in fluxes() {
                for rk in RKS {
                    let stages = match rk {
                        Rk::RK1 => 1,
                        Rk::RK2 | Rk::Heun2 | Rk::RKF12 => 3,
                        Rk::RK3 | Rk::RK4 | Rk::SSPRK3 => 4,
                        _ => 6,
                    };
                    let n = 40 / (stages * if fl == Fl::Hll { 1 } else { 2 });
                    for asc in [None, Some((1e-3, 1e-3, 0.08)), Some((1e-6, 1e-8, 0.5))] {
                        if asc.is_some() && !EMBEDDED.contains(&rk) {
                            continue;
                        }
                        for cfl in [0.4, 0.05] {
                            long.push((C { ph, fl, rk, asc, cfl, s: 104, xi: (3.0, 103.0), ..C::default() }, n.min(20)));
                        }
                    }
                }
            }
        }
        let bases = [0usize, 3, 5, 8];
        let nm = ctx.pick(3, 8);
        ctx.group("long", long.len() * bases.len(), |k, t| {
            let mut r = Radix(k);
            let a = CELLS[*r.of(&bases)];
            let (c, n) = &long[r.0];
            let cs = 0.9;
            let mut sim: Option<Box<dyn Sim>> = None;
            for m in 0..nm * nm {
                let mid = [CELLS[(m % nm + k) % 10], CELLS[(m / nm + 3 * k + 1) % 10]];
                let mut cells = vec![a; 100];
                for q in 0..4 {
                    cells[48 + q] = mid[q / 2];
                }
                let init = Init::interior(c.ph, &cells, cs);
                if sim.is_none() {
                    sim = Some(made(c, &init)?);
                }
                let sim = sim.as_mut().unwrap();
                sim.set(&init);
                let ts = sim.ts();
                (ts.t, ts.dt, ts.iter, ts.t_next_output) = (0.0, 0.0, 0, 1e6);
                let tot = |s: &dyn Sim| -> Vec<f64> {
                    (0..c.ph.e()).map(|j| (2..c.s - 2).map(|i| s.cons()[[j, i]] * c.dx()).sum()).collect()
                };
                let t0 = tot(&**sim);
                let sc = flux_scale(c.ph, c.gamma, cs, &[a, mid[0], mid[1]]);
                for step in 0..*n {
                    t.states += 1;
                    t.transitions += 1;
                    if sim.step().is_err() {
                        t.skipped += 1;
                        break;
                    }
                    t.traces += 1;
                    let t1 = tot(&**sim);
                    for j in 0..c.ph.e() {
                        let mag: f64 = (2..c.s - 2).map(|i| sim.cons()[[j, i]].abs() * c.dx()).sum();
                        let tol = 1e-12 * (mag + sc[j]);
                        if (t1[j] - t0[j]).abs() > tol {
                            return Err(format!(
                                "equation {j}: after {} steps of self-chosen width the total has changed by {:e} although the flow is the same at both ends\n{c:?}\n{cells:?}",
                                step + 1,
                                t1[j] - t0[j]
                            ));
                        }
                    }
                }
            }
            Ok(())
        });
        // closed boxes: between two reflecting walls a scheme that evaluates the flux at the cell centres keeps mass and energy
        let mut boxes = vec![];
        for ph in [Ph::Adi, Ph::Iso] {
            for rk in RKS {
                for asc in [None, Some((1e-3, 1e-3, 0.08))] {
                    if asc.is_some() && !EMBEDDED.contains(&rk) {
                        continue;
                    }
                    for (s, xi) in [(6, (2.5, 3.5)), (10, (-3.1, 3.0)), (36, (1.1, 2.0))] {
                        let wall = bc_set(ph, 1);
                        boxes.push(C { ph, rk, asc, s, xi, west: wall.clone(), east: wall, ..C::default() });
                    }
                }
            }
        }
        let nsteps = ctx.pick(60, 600);
        let nb = ctx.pick(24, 80);
        ctx.group("boxes", boxes.len() * nb, |k, t| {
            let (c, m) = (&boxes[k / nb], k % nb);
            let ni = c.s - 4;
            let cells: Vec<_> = (0..ni).map(|i| CELLS[(m * (i + 1) + (m / 10) * (i / 3)) % 10]).collect();
            let init = Init::interior(c.ph, &cells, 0.9);
            let mut sim = made(c, &init)?;
            sim.ts().t_next_output = 1e6;
            let tot = |s: &dyn Sim| -> Vec<f64> {
                (0..c.ph.e()).map(|j| (2..c.s - 2).map(|i| s.cons()[[j, i]] * c.dx()).sum()).collect()
            };
            let t0 = tot(&*sim);
            for step in 0..nsteps {
                t.states += 1;
                t.transitions += 1;
                if sim.step().is_err() {
                    t.skipped += 1;
                    break;
                }
                t.traces += 1;
                let t1 = tot(&*sim);
                for j in [0, 2].into_iter().filter(|j| *j < c.ph.e()) {
                    if (t1[j] - t0[j]).abs() > 1e-12 * t0[j] {
                        return Err(format!(
                            "equation {j}: the content of a closed box changes from {:e} to {:e} in {} steps\n{c:?}\n{cells:?}",
                            t0[j], t1[j], step + 1
                        ));
                    }
                }
            }
            Ok(())
        });
    })
}
