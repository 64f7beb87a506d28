//! The spatial derivative is compared with the reference flux for every assignment of alphabet states to the cells.
use vh::refsim::*;
use vh::*;

pub const CELLS: [(f64, f64, f64); 9] = [
    (1.0, 0.3, 1.0),
    (1.0, -0.4, 1.0),
    (0.125, 0.0, 0.1),
    (8.0, 3.0, 0.5),
    (8.0, -3.0, 0.5),
    (1e-6, 2.0, 1e-8),
    (1e-6, -50.0, 10.0),
    (100.0, 0.01, 1e5),
    (2.0, 1.0, 0.7),
];

fn main() {
    vh::run("C03", |ctx| {
        ctx.assume("differences below the running rounding-error bound of the reference (16 half-ulps per operation) are not distinguished");
        let meshes = [(1.1, 2.0), (-3.0, 7.3), (1.1e-3, 2e-3), (1e5, 1e5 + 1.0)];
        let mut cfgs = vec![];
        for ph in [Ph::Adi, Ph::Iso] {
            for fl in fluxes() {
                for (k, xi) in meshes.iter().enumerate() {
                    for g in 0..2 {
                        if g > 0 && (ph == Ph::Iso && fl != Fl::Hll || k > 0) {
                            continue;
                        }
                        let (gamma, cs) = [(1.4, 1.0), (1.05, 0.02)][g];
                        cfgs.push((C { ph, fl, xi: *xi, gamma, s: 8, ..C::default() }, cs));
                    }
                }
            }
        }
        let check = |sim: &mut Box<dyn Sim>, c: &C, init: &Init, t: &mut Tally| -> CaseResult {
            sim.set(init);
            let cons = exact(sim.cons());
            let r = Ref::new(c, init.cs);
            t.states += 1;
            t.transitions += 1;
            let res = sim.rhs();
            let Some((_, _, d)) = r.rhs(&cons) else {
                t.skipped += 1;
                return Ok(());
            };
            if let Err(e) = res {
                return Err(format!("Rhs::update failed on a valid state: {e:#}\n{c:?}\n{init:?}"));
            }
            t.traces += 1;
            for j in 0..c.ph.e() {
                for i in 2..c.s - 2 {
                    let (x, y) = (sim.full()[[j, i]], d[j][i]);
                    if !y.ok() {
                        t.skipped += 1;
                    } else if !y.agrees(x) {
                        return Err(format!(
                            "equation {j}, cell {i}: derivative {x:e}, documented scheme gives {:e} (+- {:e})\n{c:?}\n{init:?}",
                            y.v, y.e
                        ));
                    }
                }
            }
            t.sample(|| format!("{:?} {:?} s={} cells {:?}", c.ph, c.fl, c.s, init.prim));
            Ok(())
        };
        // all 4-tuples of the alphabet in the four interior cells of an 8 cell mesh
        let na = ctx.pick(7, 9);
        let per = na * na * na * na;
        let mk = || cfgs.iter().map(|_| None).collect::<Vec<Option<Box<dyn Sim>>>>();
        ctx.group_w("tuples", cfgs.len() * per, mk, |w, k, t| {
            let mut r = Radix(k);
            let cells: Vec<_> = (0..4).map(|_| CELLS[r.take(na)]).collect();
            let (c, cs) = &cfgs[r.0];
            let init = Init::interior(c.ph, &cells, *cs);
            if w[r.0].is_none() {
                w[r.0] = Some(made(c, &init)?);
            }
            check(w[r.0].as_mut().unwrap(), c, &init, t)
        });
        // all pairs of states from a grid that spans everything from vacuum to collapsed matter, from rest to Mach 1e8
        let mut grid = vec![];
        for d in [1e-9, 1e-3, 0.5, 1.0, 30.0, 1e8] {
            for v in [-1e5, -2.0, -1e-4, 0.0, 1e-7, 0.9, 300.0] {
                for p in [1e-12, 1e-3, 1.0, 50.0, 1e9] {
                    grid.push((d, v, p));
                }
            }
        }
        let mut gc = vec![];
        for fl in fluxes() {
            gc.push((C { ph: Ph::Adi, fl, s: 8, xi: (1.5, 3.5), ..C::default() }, 1.0));
            if ctx.thorough() {
                gc.push((C { ph: Ph::Adi, fl, s: 8, gamma: 1.9, xi: (-3.0, 1.7), ..C::default() }, 1.0));
            }
            for cs in [1.0, 1e-4, 1e3] {
                gc.push((C { ph: Ph::Iso, fl, s: 8, xi: (1.5, 3.5), ..C::default() }, cs));
            }
        }
        let ng = grid.len();
        let mkg = || gc.iter().map(|_| None).collect::<Vec<Option<Box<dyn Sim>>>>();
        ctx.group_w("grid of states", gc.len() * ng * ng, mkg, |w, k, t| {
            let mut r = Radix(k);
            let (ia, ib) = (r.take(ng), r.take(ng));
            let (a, b) = (grid[ia], grid[ib]);
            let (c, cs) = &gc[r.0];
            if c.ph == Ph::Iso && (ia % 5 != 0 || ib % 5 != 0) {
                return Ok(()); // there is no pressure to vary
            }
            for cells in [[a, a, b, b], [a, b, a, a]] {
                let init = Init::interior(c.ph, &cells, *cs);
                if w[r.0].is_none() {
                    w[r.0] = Some(made(c, &init)?);
                }
                check(w[r.0].as_mut().unwrap(), c, &init, t)?;
            }
            Ok(())
        });
        // a Riemann problem / a single odd cell at every position of every mesh size, including long meshes
        let mut pos = vec![];
        for ph in [Ph::Adi, Ph::Iso] {
            for fl in fluxes() {
                for s in SIZES {
                    if s < 6 {
                        continue;
                    }
                    for p in 0..s - 3 {
                        for step in [true, false] {
                            pos.push((ph, fl, s, p, step));
                        }
                    }
                }
            }
        }
        let pairs: Vec<(usize, usize)> =
            (0..9).flat_map(|a| (0..9).map(move |b| (a, b))).filter(|(a, b)| a != b).collect();
        let np = ctx.pick(24, pairs.len());
        ctx.group("positions", pos.len(), |k, t| {
            let (ph, fl, s, p, step) = pos[k];
            let c = C { ph, fl, s, xi: (1.3, 3.1), ..C::default() };
            let mut sim: Option<Box<dyn Sim>> = None;
            for q in 0..np {
                let (a, b) = pairs[(q * 7) % pairs.len()];
                let cells: Vec<_> =
                    (0..s - 4).map(|i| if (step && i >= p) || i == p { CELLS[b] } else { CELLS[a] }).collect();
                let init = Init::interior(ph, &cells, 0.8);
                if sim.is_none() {
                    sim = Some(made(&c, &init)?);
                }
                check(sim.as_mut().unwrap(), &c, &init, t)?;
            }
            Ok(())
        });
        // a very long mesh: all ordered tuples of four cells side by side
        let nt = ctx.pick(5, 9);
        let tuples: Vec<(f64, f64, f64)> = (0..nt * nt * nt * nt)
            .flat_map(|k| [k % nt, k / nt % nt, k / nt / nt % nt, k / nt / nt / nt])
            .map(|k| CELLS[k])
            .collect();
        let parts = tuples.len().div_ceil(BIG - 4);
        ctx.group("large mesh", 2 * fluxes().len() * parts * 2 * 2, |k, t| {
            let mut r = Radix(k);
            let ph = [Ph::Adi, Ph::Iso][r.take(2)];
            let fl = *r.of(&fluxes());
            let from = r.take(parts) * (BIG - 4);
            // (milder jumps: where one face is undecided the whole mesh is)
            let x = [1.0, 0.125][r.take(2)];
            let cells: Vec<_> = (0..BIG - 4)
                .map(|i| tuples[(from + i) % tuples.len()])
                .map(|(d, v, p): (f64, f64, f64)| (d.powf(x), v, p.powf(x)))
                .collect();
            let xi = [(1.3, 301.1), (-40.03, 17.1)][r.0];
            let c = C { ph, fl, s: BIG, xi, ..C::default() };
            let init = Init::interior(ph, &cells, 0.8);
            check(&mut made(&c, &init)?, &c, &init, t)
        });
        // every boundary setting: the outermost faces use the ghost cells
        let bcs: Vec<_> = (0..N_BC).flat_map(|a| (0..N_BC).map(move |b| (a, b))).collect();
        let fls = fluxes();
        ctx.group("boundaries", bcs.len() * fls.len() * 2 * 49, |k, t| {
            let mut r = Radix(k);
            let (a, b) = (r.take(7), r.take(7));
            let (w, e) = *r.of(&bcs);
            let fl = *r.of(&fls);
            let ph = [Ph::Adi, Ph::Iso][r.0];
            let c = C { ph, fl, s: 7, west: bc_set(ph, w), east: bc_set(ph, e), ..C::default() };
            let init = Init::interior(ph, &[CELLS[a], CELLS[(a + b) % 9], CELLS[b]], 1.0);
            check(&mut made(&c, &init)?, &c, &init, t)
        });
        // sizes, locations and scale factors: the scheme is scale invariant, so scaled states must obey it as well
        let scales = [1e-15, 1e-12, 1e-6, 1e-3, 1e3, 1e6, 1e12, 1e18];
        ctx.group("scales", 2 * fls.len() * scales.len() * scales.len() * scales.len(), |k, t| {
            let mut r = Radix(k);
            let ph = [Ph::Adi, Ph::Iso][r.take(2)];
            let fl = *r.of(&fls);
            let (rs, vs, xs) = (*r.of(&scales), *r.of(&scales), *r.of(&scales));
            let c = C { ph, fl, s: 9, xi: (xs, 3.0 * xs), ..C::default() };
            let mut sim: Option<Box<dyn Sim>> = None;
            for q in 0..9usize {
                let cells: Vec<_> = (0..5)
                    .map(|i| CELLS[[0, 1, 2, 3, 4, 8, 5][(i * (q + 1) + q) % 7]])
                    .map(|(d, v, p)| (d * rs, v * vs, p * rs * vs * vs))
                    .collect();
                let init = Init::interior(ph, &cells, vs);
                if sim.is_none() {
                    sim = Some(made(&c, &init)?);
                }
                check(sim.as_mut().unwrap(), &c, &init, t)?;
            }
            Ok(())
        });
        // nearly uniform flows: small differences must not be treated as none
        let bases = [(1.0, 0.7, 1.0), (1.0, -3.0, 0.5), (0.2, 0.0, 2.0), (5.0, 2.5, 1e-3)];
        let amps = [1e-14, 1e-13, 1e-12, 1e-10, 1e-8, 1e-6, 1e-4, 1e-2];
        ctx.group("nearly uniform", 2 * fls.len() * bases.len() * amps.len() * 3 * 4, |k, t| {
            let mut r = Radix(k);
            let ph = [Ph::Adi, Ph::Iso][r.take(2)];
            let fl = *r.of(&fls);
            let b = *r.of(&bases);
            let a = *r.of(&amps);
            let x = r.take(3);
            let what = r.take(4);
            let c = C { ph, fl, s: [8, 9, 12][x], xi: [(1.5, 3.5), (100.0, 101.0), (-1e-3, 2e-3)][x], ..C::default() };
            let mut sim: Option<Box<dyn Sim>> = None;
            for q in 0..81usize {
                let mut y = Radix(q);
                let d: Vec<f64> = (0..4).map(|_| y.take(3) as f64 - 1.0).collect();
                let cells: Vec<_> = (0..c.s - 4)
                    .map(|i| {
                        let f = |n: usize| if what == n || what == 3 { 1.0 + a * d[(i + n) % 4] } else { 1.0 };
                        (b.0 * f(0), b.1 * f(1) + if what == 1 { a * d[i % 4] } else { 0.0 }, b.2 * f(2))
                    })
                    .collect();
                let init = Init::interior(ph, &cells, 0.8);
                if sim.is_none() {
                    sim = Some(made(&c, &init)?);
                }
                check(sim.as_mut().unwrap(), &c, &init, t)?;
            }
            Ok(())
        });
    })
}
