//! Face values of the Kurganov-Tadmor reconstruction for all tuples of cell values.
use corries::prelude::*;
use ndarray::Array2;
use vh::refsim::*;
use vh::*;

fn cells_case<P: Physics<E, S> + 'static, const E: usize, const S: usize>(
    ph: Ph,
    lim: Lim,
    xi: (f64, f64),
    n: usize,
    fill: impl Fn(usize, usize, usize) -> f64,
    t: &mut Tally,
) -> CaseResult {
    let c = C { ph, s: S, xi, fl: Fl::Kt(lim), ..C::default() };
    let cfg = c.config();
    let mesh = Mesh::<S>::new(&cfg.mesh_config).map_err(|e| format!("Mesh::new: {e:#}"))?;
    let mut kt = Kt::<E, S>::new(&cfg.numerics_config.numflux_config, &mesh).map_err(|e| format!("Kt::new: {e:#}"))?;
    let mut u = State::<P, E, S>::new(&cfg.physics_config);
    if ph == Ph::Iso {
        u.cent.c_sound.fill(1.0);
        u.init_west_east();
    }
    let r = Ref::new(&c, 1.0);
    let mut out = Array2::<f64>::zeros((E, S));
    for k in 0..n {
        for j in 0..E {
            for i in 0..S {
                u.cent.cons[[j, i]] = fill(k, j, i);
            }
        }
        let before = u.cent.cons.clone();
        // values far away from physical states are fine here: only the face values are looked at, which are computed
        // before anything can be rejected
        let _ = kt.calc_dflux_dxi(&mut out, &mut u, &mesh);
        t.states += 1;
        t.transitions += 1;
        t.traces += 1;
        if u.cent.cons != before {
            return Err(format!("the reconstruction changed the cell values\n{c:?}\n{}", short(&before)));
        }
        let (w, e) = r.faces(&exact(&before), lim);
        for j in 0..E {
            for i in 1..S - 1 {
                let (x, y, l, rr) = (u.west.cons[[j, i]], u.east.cons[[j, i]], before[[j, i - 1]], before[[j, i + 1]]);
                let m = before[[j, i]];
                let err = |what: &str| {
                    Err(format!(
                        "{what}: equation {j}, cell {i}: west face {x:e}, east face {y:e} for cells {l:e}, {m:e}, {rr:e}\n{c:?}"
                    ))
                };
                if !w[j][i].agrees(x) || !e[j][i].agrees(y) {
                    return err(&format!(
                        "face values are not those of the selected limiter ({:e}, {:e} +- {:e})",
                        w[j][i].v, e[j][i].v, e[j][i].e
                    ));
                }
                let (a, b) = (m - l, rr - m);
                let big = l.abs().max(m.abs()).max(rr.abs());
                let tol = 4.0 * w[j][i].e + 4e-16 * big;
                if (0.5 * (x + y) - m).abs() > tol {
                    return err("the face values do not average to the cell value");
                }
                if (a - b).abs() <= 1e-15 * big && !matches!(lim, Lim::Superbee) && ((x - (m - 0.5 * a)).abs() > tol || (y - (m + 0.5 * a)).abs() > tol) {
                    return err("a linear profile is not reproduced");
                }
                let bounded = match lim {
                    Lim::NoLimiter => false,
                    Lim::Monocent(p) => p <= 2.0,
                    _ => true,
                };
                if bounded {
                    let inside = |f: f64, n: f64| f >= m.min(n) - tol && f <= m.max(n) + tol;
                    if !inside(x, l) || !inside(y, rr) {
                        return err("a face value is not between the cell value and the neighbour's");
                    }
                    if a * b < 0.0 && ((x - m).abs() > tol || (y - m).abs() > tol) {
                        return err("a local extremum has a slope");
                    }
                }
            }
        }
    }
    t.sample(|| format!("{ph:?} {lim:?} mesh {xi:?} {n} tuples of {S} cells"));
    Ok(())
}

fn main() {
    vh::run("C04", |ctx| {
        ctx.assume("differences below the running rounding-error bound of the reference are not distinguished");
        let signed = [0.0, 1.0, -1.0, 2.0, -3.0, 1.5, 7.0, 1e-8, 1.0 + 1e-8, -1e8, 1e-30, 0.5, 1.0 + 1e-15, -1e120];
        let positive = [1.0, 2.0, 3.0, 1.5, 7.0, 1e-8, 1.0 + 1e-8, 1e8, 1e-30, 0.5, 4.0, 2.5, 1.0 + 1e-15, 1e120];
        let mut lims = LIMS.to_vec();
        lims.extend([Lim::Monocent(1.0 + 1e-9), Lim::Monocent(1.5), Lim::Monocent(1e6)]);
        let meshes = [(1.1, 2.0), (-3.1, 7.0), (1.1e-3, 2e-3)];
        // all 5-tuples of an alphabet in the cells of the smallest mesh
        let na: usize = ctx.pick(11, 14);
        let chunk = na * na * na;
        let chunks = na * na;
        ctx.group("tuples", lims.len() * 2 * meshes.len() * chunks, |k, t| {
            let mut r = Radix(k);
            let lim = *r.of(&lims);
            let iso = r.take(2) == 0;
            let xi = *r.of(&meshes);
            let hi = r.0;
            let fill = |q: usize, j: usize, i: usize| {
                let mut x = Radix(hi * chunk + q);
                let d: Vec<usize> = (0..5).map(|_| x.take(na)).collect();
                if j == 1 { signed[d[i]] } else { positive[(d[i] + 3 * j) % 14] }
            };
            if iso {
                cells_case::<Euler1DIsot<5>, 2, 5>(Ph::Iso, lim, xi, chunk, fill, t)
            } else {
                cells_case::<Euler1DAdiabatic<5>, 3, 5>(Ph::Adi, lim, xi, chunk, fill, t)
            }
        });
        // all triples at every position of longer meshes
        ctx.group("positions", lims.len() * 2 * 3, |k, t| {
            let mut r = Radix(k);
            let lim = *r.of(&lims);
            let iso = r.take(2) == 0;
            let seq = |len: usize| {
                move |q: usize, j: usize, i: usize| {
                    // the triple moves along the mesh with q
                    let p = q % len;
                    let mut x = Radix(q / len);
                    let d: Vec<usize> = (0..3).map(|_| x.take(9)).collect();
                    let v = if i >= p && i < p + 3 { d[i - p] } else { (i * i + 2 * i + p) % 13 };
                    if j == 1 { signed[v] } else { positive[(v + 3 * j) % 14] }
                }
            };
            let xi = (1.3, 3.1);
            match (r.0, iso) {
                (0, true) => cells_case::<Euler1DIsot<9>, 2, 9>(Ph::Iso, lim, xi, 9 * 729, seq(9), t),
                (0, false) => cells_case::<Euler1DAdiabatic<9>, 3, 9>(Ph::Adi, lim, xi, 9 * 729, seq(9), t),
                (1, true) => cells_case::<Euler1DIsot<36>, 2, 36>(Ph::Iso, lim, xi, 36 * 729, seq(36), t),
                (1, false) => cells_case::<Euler1DAdiabatic<36>, 3, 36>(Ph::Adi, lim, xi, 36 * 729, seq(36), t),
                (_, true) => cells_case::<Euler1DIsot<104>, 2, 104>(Ph::Iso, lim, xi, 104 * ctx.pick(128, 729), seq(104), t),
                (_, false) => cells_case::<Euler1DAdiabatic<104>, 3, 104>(Ph::Adi, lim, xi, 104 * ctx.pick(128, 729), seq(104), t),
            }
        });
    })
}
