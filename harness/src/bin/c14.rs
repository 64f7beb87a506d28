//! Every simulation next to its mirror image, in lockstep.
use vh::*;

/// Boundary settings without a preferred direction or place
fn bc(ph: Ph, k: usize) -> Option<Vec<(usize, Bm)>> {
    let mut v = match k {
        0..=4 => return bc_set(ph, k),
        5 => vec![(0, Bm::Extrapolate), (1, Bm::NearZero), (2, Bm::NoGradients)],
        6 => vec![(0, Bm::NoGradients), (1, Bm::Extrapolate), (2, Bm::Extrapolate)],
        _ => unreachable!(),
    };
    v.retain(|(j, _)| *j < ph.e());
    Some(v)
}
const NB: usize = 7;
const CELLS: [(f64, f64, f64); 6] = [
    (1.0, 0.3, 1.0),
    (0.5, -0.45, 0.4),
    (2.0, 1.9, 1.3),
    (0.131, -2.6, 0.1),
    (1.3, 0.011, 2.0),
    (0.9, -0.02, 0.7),
];

/// Outflow rules switch at zero velocity: near there rounding decides
fn undecided(s: &dyn Sim, c: &C) -> bool {
    [true, false].into_iter().any(|w| {
        c.rules(w).iter().any(|(j, m)| {
            matches!(m, Bm::OutflowNoGradients | Bm::OutFlowExtrapolate)
                && s.prim()[[*j, if w { 2 } else { c.s - 3 }]].abs() < 1e-8
        })
    })
}

fn compare(a: &mut dyn Sim, b: &mut dyn Sim, c: &C, step: usize) -> CaseResult {
    let s = c.s;
    let (dta, dtb, ta, tb) = (a.ts().dt, b.ts().dt, a.ts().t, b.ts().t);
    // the step control divides differences of nearly equal solutions
    let tol = if c.asc.is_some() { 1e-6 } else { 1e-10 };
    let near = |x: f64, y: f64| (x - y).abs() <= tol * (step + 1) as f64 * x.abs().max(y.abs());
    if !near(dta, dtb) || !near(ta, tb) {
        return Err(format!("dt = {dta:e}, t = {ta:e}, but in the mirror image dt = {dtb:e}, t = {tb:e}"));
    }
    let (x, y) = (a.cons(), b.cons());
    let mx = |j: usize| (2..s - 2).fold(0.0f64, |m, i| m.max(x[[j, i]].abs()));
    let rho = mx(0);
    let en = if c.ph == Ph::Adi { mx(2) } else { rho * a.cs()[2] * a.cs()[2] };
    let scale = [rho, mx(1).max((rho * en).sqrt()), en];
    for j in 0..c.ph.e() {
        for i in 2..s - 2 {
            let (p, q) = (x[[j, i]], y[[j, s - 1 - i]] * if j == 1 { -1.0 } else { 1.0 });
            if !((p - q).abs() <= tol * (step + 1) as f64 * scale[j]) {
                return Err(format!("equation {j}, cell {i}: {p:e}, but {q:e} in the mirror image"));
            }
        }
    }
    Ok(())
}

fn pair(c: &C, cells: &[(f64, f64, f64)], cs: f64) -> Result<(Box<dyn Sim>, Box<dyn Sim>), String> {
    let mut m = c.clone();
    (m.west, m.east) = (c.east.clone(), c.west.clone());
    let mc: Vec<_> = cells.iter().rev().map(|x| (x.0, -x.1, x.2)).collect();
    Ok((made(c, &Init::interior(c.ph, cells, cs))?, made(&m, &Init::interior(c.ph, &mc, cs))?))
}

/// Makes b the exact mirror image of a, so that rounding differences do not grow over several steps
fn resync(a: &mut dyn Sim, b: &mut dyn Sim, c: &C) {
    let x = a.cons().clone();
    let v = b.vars(D::C);
    for j in 0..c.ph.e() {
        for i in 0..c.s {
            v.cons[[j, i]] = x[[j, c.s - 1 - i]] * if j == 1 { -1.0 } else { 1.0 };
        }
    }
    b.from_cons();
    let (t, dt) = (a.ts().t, a.ts().dt);
    (b.ts().t, b.ts().dt) = (t, dt);
}

/// At most n steps, or up to t_end
fn lockstep(c: &C, cells: &[(f64, f64, f64)], cs: f64, n: usize, t_end: f64, t: &mut Tally) -> CaseResult {
    let (mut a, mut b) = pair(c, cells, cs)?;
    for s in [&mut a, &mut b] {
        s.ts().t_next_output = t_end;
        s.ts().t_end = t_end;
    }
    t.sample(|| format!("{c:?} {cells:?}"));
    let size = |s: &dyn Sim| s.cons().iter().fold(0.0f64, |m, x| m.max(x.abs()));
    let size0 = size(a.as_ref());
    for k in 0..n {
        if undecided(a.as_ref(), c) {
            t.skipped += 1;
            return Ok(());
        }
        t.states += 1;
        t.transitions += 2;
        let before = short(a.cons());
        let show = |e: String| Err(format!("step {k}: {e}\nfrom {before}\n{c:?}\n{cells:?} {cs}"));
        let r = (a.step(), b.step());
        // where the reconstruction comes close to vacuum, the flow explodes and rounding decides
        if !(size(a.as_ref()) <= 1e3 * size0) || !(size(b.as_ref()) <= 1e3 * size0) {
            t.skipped += 1;
            return Ok(());
        }
        match r {
            (Ok(()), Ok(())) => {}
            (Err(_), Err(_)) => {
                t.traces += 1;
                return Ok(());
            }
            (Err(e), Ok(())) => return show(format!("fails ({e:#}), its mirror image does not")),
            (Ok(()), Err(e)) => return show(format!("succeeds, but its mirror image fails: {e:#}")),
        }
        if let Err(e) = compare(a.as_mut(), b.as_mut(), c, k) {
            return show(e);
        }
        resync(a.as_mut(), b.as_mut(), c);
        if a.ts().t >= 0.999999 * t_end {
            break;
        }
    }
    t.traces += 1;
    Ok(())
}

fn main() {
    vh::run("C14", |ctx| {
        let fl = fluxes();
        // every scheme with every pair of boundary settings
        let sets: Vec<[usize; 4]> = vec![[0, 1, 2, 3], [3, 2, 0, 1], [1, 1, 4, 0], [2, 0, 5, 3], [5, 4, 4, 1], [0, 2, 2, 2], [3, 3, 1, 4], [4, 5, 1, 5]];
        let ns = ctx.pick(3, 8);
        let nsets = ctx.pick(8, 8);
        let n = 2 * fl.len() * RKS.len() * NB * NB * nsets * 2;
        ctx.group("schemes x boundaries", n, |k, t| {
            let mut r = Radix(k);
            let cells: Vec<_> = sets[r.take(nsets)].iter().map(|q| CELLS[*q]).collect();
            let ph = *r.of(&[Ph::Adi, Ph::Iso]);
            let rk = *r.of(&RKS);
            let f = *r.of(&fl);
            let (w, e) = (r.take(NB), r.take(NB));
            let asc = (r.take(2) == 1).then_some((1e-4, 1e-5, 0.08));
            let c = C { ph, rk, fl: f, west: bc(ph, w), east: bc(ph, e), asc, ..C::default() };
            lockstep(&c, &cells, 0.7, ns, 1e6, t)
        });
        // every assignment of cell states for every flux
        let na: usize = ctx.pick(5, 6);
        let ns = ctx.pick(2, 4);
        ctx.group("cell assignments", 2 * fl.len() * na.pow(5) * 2, |k, t| {
            let mut r = Radix(k);
            let cells: Vec<_> = (0..5).map(|_| CELLS[r.take(na)]).collect();
            let ph = *r.of(&[Ph::Adi, Ph::Iso]);
            let f = *r.of(&fl);
            let asc = (r.take(2) == 1).then_some((1e-3, 1e-4, 0.2));
            let rk = if asc.is_some() { Rk::RKF45 } else { Rk::SSPRK3 };
            let c = C { ph, s: 9, rk, fl: f, west: bc(ph, 1), east: bc(ph, 0), asc, ..C::default() };
            lockstep(&c, &cells, 1.2, ns, 1e6, t)
        });
        // units of density, velocity and energy far from one
        let un = [1e-12, 1e-7, 1e-3, 1e3, 1e6, 1e11];
        ctx.group("units", 2 * fl.len() * 6 * 6 * 3 * 6 * 6 * 6, |k, t| {
            let mut r = Radix(k);
            let ph = *r.of(&[Ph::Adi, Ph::Iso]);
            let f = *r.of(&fl);
            let (ud, uv) = (*r.of(&un), *r.of(&un));
            let up = ud * uv * uv * [1.0, 1e-5, 1e4][r.take(3)];
            let q = [r.take(6), r.take(6), r.take(6)];
            let cells: Vec<_> = [q[0], q[1], q[1], q[2]].iter().map(|q| CELLS[*q]).map(|(d, v, p)| (d * ud, v * uv, p * up)).collect();
            let c = C { ph, rk: Rk::RK2, fl: f, west: bc(ph, k % 2), east: bc(ph, 1), t_end: f64::MAX, dt_min: 1e-200, ..C::default() };
            lockstep(&c, &cells, 0.8 * (up / ud).sqrt(), 2, f64::MAX, t)
        });
        // one step with a deviating cell at every place of the largest mesh
        let mut places: Vec<(usize, usize)> = (0..100).map(|i| (104, i)).collect();
        places.extend((0..BIG - 4).filter(|i| ctx.thorough() || i % 100 < 2 || i + 4 > BIG - 4).map(|i| (BIG, i)));
        ctx.group("large mesh", 2 * fl.len() * places.len() * 2, |k, t| {
            let mut r = Radix(k);
            let ph = *r.of(&[Ph::Adi, Ph::Iso]);
            let f = *r.of(&fl);
            let (s, i) = *r.of(&places);
            let mut cells = vec![(1.0, 0.1, 1.0); s - 4];
            cells[i] = [(0.4, 1.7, 1.2), (3.0, -0.9, 0.5)][r.take(2)];
            let c = C { ph, s, rk: Rk::SSPRK3, fl: f, west: bc(ph, 1), east: bc(ph, 0), ..C::default() };
            lockstep(&c, &cells, 1.0, 2, 1e6, t)
        });
        // whole runs: positions of one deviating cell in all mesh sizes, with outputs on the way
        let mut pos = vec![];
        for s in SIZES {
            // (rules that look at two cells need two)
            if s > 5 && s <= 36 {
                pos.extend((0..s - 4).map(|i| (s, i)));
            }
        }
        let modes = [(Rk::RK1, false), (Rk::SSPRK5, false), (Rk::RKF45, true), (Rk::Heun2, true), (Rk::SSPRK5, true)];
        ctx.group("runs", pos.len() * modes.len() * 3 * 2 * 2, |k, t| {
            let mut r = Radix(k);
            let (s, i) = *r.of(&pos);
            let (rk, asc) = *r.of(&modes);
            let f = *r.of(&[Fl::Hll, Fl::Kt(Lim::VanLeer), Fl::Kt(Lim::Monocent(1.5))]);
            let ph = *r.of(&[Ph::Adi, Ph::Iso]);
            let b = r.take(2);
            let mut cells = vec![(1.0, 0.2, 1.0); s - 4];
            cells[i] = (3.0, -0.7, 2.5);
            let c = C {
                ph, s, rk, fl: f, west: bc(ph, b), east: bc(ph, 1 - b), t_end: 0.3, outputs: 3,
                asc: asc.then_some((1e-3, 1e-4, 0.1)), ..C::default()
            };
            if asc {
                // errors of the error estimate accumulate in the step widths
                return lockstep(&c, &cells, 1.0, 1000, 0.3, t);
            }
            let (mut x, mut y) = pair(&c, &cells, 1.0)?;
            t.states += 1;
            let rs = (x.run(), y.run());
            let (ia, ib) = (x.ts().iter, y.ts().iter);
            t.transitions += (ia + ib) as u64;
            let show = |e: String| Err(format!("run: {e}\n{c:?}\n{cells:?}"));
            match rs {
                (Ok(()), Ok(())) => {}
                (Err(_), Err(_)) => {
                    t.skipped += 1;
                    return Ok(());
                }
                (a, b) => return show(format!("{a:?}, its mirror image {b:?}")),
            }
            t.traces += 1;
            if ia != ib {
                return show(format!("{ia} steps, its mirror image takes {ib}"));
            }
            compare(x.as_mut(), y.as_mut(), &c, ia).or_else(|e| show(format!("{ia} steps: {e}")))
        });
    });
}
