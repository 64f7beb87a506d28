//! First-order HLL steps on extreme states: density and pressure stay positive.
use vh::*;

/// (density, velocity, pressure)
fn alphabet(n: usize) -> Vec<(f64, f64, f64)> {
    let mut v = vec![];
    // ordered such that a prefix already covers the extremes
    for (rho, p) in [(1.0, 1.0), (1e-6, 1e-8), (1e-3, 1e5), (1.0, 1e-4), (1e6, 1.0), (10.0, 1e4)] {
        for vel in [0.0, 3.0, -3.0, 60.0, -60.0, 1.0, -1.0] {
            // pressures far below the kinetic energy are lost in the rounding of the energy
            if p / (rho * vel * vel) >= 1e-8 || vel == 0.0 {
                v.push((rho, vel, p));
            }
        }
    }
    assert!(v.len() >= n);
    v.truncate(n);
    v
}

fn steps(s: &mut dyn Sim, c: &C, n: usize, t: &mut Tally) -> CaseResult {
    let mut last = (0.0, 0.0, 0.0);
    for k in 0..n {
        let prim0 = s.prim().clone();
        t.transitions += 1;
        let r = s.step();
        if let Err(e) = r {
            // rounding noise around vanishing pressure is not the subject
            if last.2 > 0.0 && k > 0 {
                let bad = (2..c.s - 2).any(|i| c.ph == Ph::Adi && prim0[[2, i]] < 1e-8 * s.cons()[[2, i]].abs());
                if bad {
                    t.skipped += 1;
                    return Ok(());
                }
            }
            return Err(format!("step {k} fails: {e:#}\nfrom {}\n{c:?}", short(&prim0)));
        }
        let (p, q) = (s.prim(), s.cons());
        for i in 2..c.s - 2 {
            last = (p[[0, i]], p[[1, i]], if c.ph == Ph::Adi { p[[2, i]] } else { 1.0 });
            if !(p[[0, i]] > 0.0) {
                return Err(format!("step {k}: density {:e} in cell {i}\nfrom {}\n{c:?}", p[[0, i]], short(&prim0)));
            }
            if c.ph == Ph::Adi && !(p[[2, i]] > -1e-11 * q[[2, i]].abs()) {
                return Err(format!("step {k}: pressure {:e} in cell {i} (energy {:e})\nfrom {}\n{c:?}", p[[2, i]], q[[2, i]], short(&prim0)));
            }
            if c.ph == Ph::Adi && p[[2, i]] < 1e-10 * q[[2, i]].abs() {
                // later steps would start from rounding noise
                t.traces += 1;
                return Ok(());
            }
        }
    }
    t.traces += 1;
    Ok(())
}

fn main() {
    vh::run("C24", |ctx| {
        let na = ctx.pick(28, 34);
        let al = alphabet(na);
        ctx.note("alphabet", format!("{al:?}"));
        let gammas = [1.4, 5.0 / 3.0, 1.01, 1.99];
        let cfls = [0.5, 0.25];
        let ns = ctx.pick(3, 5);
        // three interior cells, all assignments, walls / copies / outflow on the sides
        ctx.group("triples", 2 * gammas.len() * cfls.len() * 4 * na * na * na, |k, t| {
            let mut r = Radix(k);
            let cells: Vec<_> = (0..3).map(|_| *r.of(&al)).collect();
            let (w, e) = *r.of(&[(0, 0), (1, 1), (2, 1), (0, 2)]);
            let cfl = *r.of(&cfls);
            let gamma = *r.of(&gammas);
            let ph = *r.of(&[Ph::Adi, Ph::Iso]);
            // for isothermal physics the index chooses the sound speed
            let cs = match gamma {
                1.4 => 1.0,
                1.01 => 0.01,
                1.99 => 30.0,
                _ => 0.2,
            };
            let c = C { ph, s: 7, gamma, cfl, west: bc_set(ph, w), east: bc_set(ph, e), ..C::default() };
            let mut s = made(&c, &Init::interior(ph, &cells, cs))?;
            s.ts().t_next_output = 1e6;
            s.ts().t_end = 1e7;
            t.states += 1;
            t.sample(|| format!("{c:?} {cells:?}"));
            steps(s.as_mut(), &c, ns, t)
        });
        // the same in other units: no density, speed or length is special
        let some = [(1.0, 0.0, 1.0), (1.0, 0.0, 1e-4), (1.0, 3.0, 1e-2), (1.0, -3.0, 1e-2), (1e-3, 0.0, 1e3), (1e-3, 20.0, 1.0), (1e-3, -20.0, 1.0), (1e3, -0.5, 1e-2)];
        let vs = [1e-6, 1e-2, 1e2, 1e4, 1e8];
        let rs = [1e-20, 1.0, 1e20];
        let xs = [(1.0, 2.0), (1e-8, 2e-8), (1e10, 3e10)];
        ctx.group("units", 2 * vs.len() * rs.len() * xs.len() * 3 * 512, |k, t| {
            let mut r = Radix(k);
            let (v, d) = (*r.of(&vs), *r.of(&rs));
            let ph = *r.of(&[Ph::Adi, Ph::Iso]);
            let xi = *r.of(&xs);
            let cells: Vec<_> = (0..3).map(|_| *r.of(&some)).map(|c| (c.0 * d, c.1 * v, c.2 * d * v * v)).collect();
            let b = r.take(3);
            // dt_min must not get in the way of small time scales
            let c = C { ph, s: 7, gamma: 1.4, cfl: 0.5, xi, dt_min: 1e-200, west: bc_set(ph, b), east: bc_set(ph, b), ..C::default() };
            let mut s = made(&c, &Init::interior(ph, &cells, 0.5 * v))?;
            s.ts().t_next_output = 1e30;
            s.ts().t_end = 1e30;
            t.states += 1;
            steps(s.as_mut(), &c, 2, t)
        });
        // every cell of every mesh: a cell, or everything from a cell on, differs from the rest
        let some9: Vec<_> = some.iter().copied().chain([(1.0, 60.0, 1.0), (1.0, -60.0, 1.0)]).collect();
        ctx.group("places", SIZES.len() * 100 * some9.len() * some9.len() * 2 * 2 * 2, |k, t| {
            let mut r = Radix(k);
            let at = r.take(100);
            let s = *r.of(&SIZES);
            let (x, y) = (*r.of(&some9), *r.of(&some9));
            let jump = r.take(2) == 1;
            let ph = *r.of(&[Ph::Adi, Ph::Iso]);
            let b = r.take(2);
            if at >= s - 4 || x == y {
                return Ok(());
            }
            let cells: Vec<_> = (0..s - 4).map(|i| if i == at || (jump && i > at) { y } else { x }).collect();
            let c = C { ph, s, gamma: 1.4, cfl: 0.5, west: bc_set(ph, b), east: bc_set(ph, b), ..C::default() };
            let mut sim = made(&c, &Init::interior(ph, &cells, 0.5))?;
            sim.ts().t_next_output = 1e30;
            sim.ts().t_end = 1e30;
            t.states += 1;
            steps(sim.as_mut(), &c, 2, t)
        });
        // longer runs of four cells with fewer states
        let al4 = [al[0], al[1], al[3], al[4], (1.0, 100.0, 1e-3), (1.0, -100.0, 1e-3)];
        let n4 = ctx.pick(6, 6);
        let ns = ctx.pick(20, 200);
        ctx.group("quadruples", 2 * 2 * 9 * n4 * n4 * n4 * n4, |k, t| {
            let mut r = Radix(k);
            let cells: Vec<_> = (0..4).map(|_| al4[(r.take(n4) + 6 - n4) % 6]).collect();
            let (w, e) = (r.take(3), r.take(3));
            let gamma = *r.of(&[1.4, 1.9]);
            let ph = *r.of(&[Ph::Adi, Ph::Iso]);
            let c = C { ph, s: 8, gamma, cfl: 0.5, west: bc_set(ph, w), east: bc_set(ph, e), ..C::default() };
            let mut s = made(&c, &Init::interior(ph, &cells, 0.1))?;
            s.ts().t_next_output = 1e6;
            s.ts().t_end = 1e7;
            t.states += 1;
            steps(s.as_mut(), &c, ns, t)
        });
        ctx.assume("pressure counts as positive above -1e-11 times the energy density (rounding of the subtraction of the kinetic energy)");
    });
}
