//! Uniform states stay uniform.
use vh::*;

fn main() {
    vh::run("C02", |ctx| {
        ctx.assume("changes below 1e-12 of the size of the conserved variables per step count as rounding");
        let rhos = [1.0, 1e-6, 3.7e4, 1e-13, 1e11];
        let vels = [0.0, 1e-3, 0.7, -0.7, 1.0, -1.0, 30.0, -30.0, 1e-10, -1e-7, 2e4, -3e6];
        let prs = [1.0, 1e-5, 2e3, 1e-14, 1e13];
        let gammas = [1.4, 5.0 / 3.0, 1.01];
        let css = [1.0, 1e-3, 50.0, 1e-9, 1e5];
        let meshes: &[(f64, f64)] = &[(1.1, 2.0), (-3.0, 7.3), (1.1e-3, 2e-3), (1e5, 1e5 + 1.0)];
        let mut cfgs = vec![];
        for ph in [Ph::Adi, Ph::Iso] {
            for fl in fluxes() {
                for rk in RKS {
                    for asc in [false, true] {
                        if asc && !EMBEDDED.contains(&rk) {
                            continue;
                        }
                        for s in [5, 8, 12] {
                            cfgs.push(C { ph, fl, rk, s, asc: asc.then_some((1e-3, 1e-3, 0.08)), ..C::default() });
                        }
                    }
                }
            }
        }
        let nsteps = ctx.pick(3, 12);
        // boundary settings that copy or extrapolate: copies, linear extrapolation, and both outflow rules at outflow
        let nbc = 4;
        // every mesh size
        let few = [0.7, -0.7, 30.0, -30.0];
        let sizes: Vec<usize> = SIZES.into_iter().chain([BIG]).collect();
        let rks = [Rk::RK1, Rk::RK4, Rk::SSPRK5];
        ctx.group("sizes", sizes.len() * few.len() * fluxes().len() * 2 * rks.len() * 2, |k, t| {
            let mut r = Radix(k);
            let s = *r.of(&sizes);
            let v = *r.of(&few);
            let fl = *r.of(&fluxes());
            let ph = [Ph::Adi, Ph::Iso][r.take(2)];
            let rk = *r.of(&rks);
            let b = [0, 4][r.take(2)];
            if s == 5 && b > 0 {
                return Ok(());
            }
            let c = C { ph, fl, rk, s, west: bc_set(ph, b), east: bc_set(ph, b), xi: (1.1, 2.3), ..C::default() };
            let (rho, p, cs) = (1.3, 0.9, 0.8);
            let mut sim = made(&c, &Init::uniform(ph, s, (rho, v, p), cs))?;
            sim.ts().t_next_output = f64::MAX;
            let c0 = sim.cons().clone();
            for n in 1..=2 {
                t.states += 1;
                t.transitions += 1;
                sim.step().map_err(|e| format!("step {n} of a uniform flow failed: {e:#}\n{c:?}\n(rho, v, p) = {:?}", (rho, v, p)))?;
                for ((j, i), x) in sim.cons().indexed_iter() {
                    if !((x - c0[[j, i]]).abs() <= 1e-12 * n as f64 * (1.0 + v * v)) {
                        return Err(format!(
                            "after {n} steps of a uniform flow conserved variable {j} of cell {i} is {x:e} instead of {:e}\n{c:?}\n(rho, v, p) = {:?}",
                            c0[[j, i]], (rho, v, p)
                        ));
                    }
                }
            }
            t.traces += 1;
            Ok(())
        });
        ctx.group("uniform", cfgs.len() * meshes.len() * vels.len(), |k, t| {
            let mut r = Radix(k);
            let v = *r.of(&vels);
            let xi = *r.of(meshes);
            let base = &cfgs[r.0];
            for b in 0..nbc {
                let rule = |west: bool| -> Option<Vec<(usize, Bm)>> {
                    let outflow = (west && v < 0.0) || (!west && v > 0.0);
                    let mut x = match b {
                        0 => return None,
                        1 => vec![(0, Bm::Extrapolate), (1, Bm::Extrapolate), (2, Bm::Extrapolate)],
                        2 => vec![(0, Bm::NoGradients), (1, if outflow { Bm::OutflowNoGradients } else { Bm::NoGradients }), (2, Bm::Extrapolate)],
                        _ => vec![(2, Bm::NoGradients), (0, Bm::Extrapolate), (1, if outflow { Bm::OutFlowExtrapolate } else { Bm::Extrapolate })],
                    };
                    x.retain(|q| q.0 < base.ph.e());
                    Some(x)
                };
                if base.s == 5 && b > 0 {
                    continue; // extrapolation needs two interior cells
                }
                for q in 0..25 {
                    let (rho, p) = (rhos[q % 5], prs[q / 5]);
                    let (gamma, cs) = (gammas[(q + b) % 3], css[q / 5]);
                    if base.ph == Ph::Adi && p < 1e-9 * rho * v * v {
                        continue; // such a pressure drowns in the rounding errors of the energy
                    }
                    if base.ph == Ph::Iso && v == 0.0 && cs == 0.0 {
                        continue;
                    }
                    let c = C { xi, gamma, west: rule(true), east: rule(false), dt_min: 1e-200, ..base.clone() };
                    let init = Init::uniform(c.ph, c.s, (rho, v, p), cs);
                    let mut sim = made(&c, &init)?;
                    sim.ts().t_next_output = f64::MAX;
                    let a = if c.ph == Ph::Adi { (gamma * p / rho).sqrt() } else { cs };
                    let scale = [rho, rho * (v.abs() + a), if c.ph == Ph::Adi { p / (gamma - 1.0) + 0.5 * rho * v * v + p } else { 0.0 }];
                    let c0 = sim.cons().clone();
                    for n in 1..=nsteps {
                        t.states += 1;
                        t.transitions += 1;
                        if let Err(e) = sim.step() {
                            return Err(format!("step {n} of a uniform flow failed: {e:#}\n{c:?}\n(rho, v, p) = {:?}, cs = {cs}", (rho, v, p)));
                        }
                        for j in 0..c.ph.e() {
                            for i in 0..c.s {
                                let d = (sim.cons()[[j, i]] - c0[[j, i]]).abs();
                                if !(d <= 1e-12 * n as f64 * scale[j]) {
                                    return Err(format!(
                                        "after {n} steps of a uniform flow conserved variable {j} of cell {i} is {:e} instead of {:e}\n{c:?}\n(rho, v, p) = {:?}, cs = {cs}",
                                        sim.cons()[[j, i]], c0[[j, i]], (rho, v, p)
                                    ));
                                }
                            }
                        }
                    }
                    t.traces += 1;
                    t.sample(|| format!("{c:?} (rho, v, p) = {:?}", (rho, v, p)));
                }
            }
            Ok(())
        });
    })
}
