//! Runge-Kutta modes: the effective tableau is recovered from what a user-supplied right-hand side sees and from the
//! result; then steps on state-dependent right-hand sides are compared with the published scheme.
use corries::prelude::*;
use ndarray::Array2;
use std::cell::RefCell;
use std::rc::Rc;
use vh::probe::*;
use vh::refsim::tableau;
use vh::*;

fn sim(ph: Ph, c: &C, init: &Init) -> Result<Box<dyn Sim>, String> {
    let e = |e| format!("init_corries: {e:#}");
    Ok(match ph {
        Ph::Iso => Box::new(SimI::<Euler1DIsot<16>, Probe<2, 16>, 2, 16>::new(&c.config(), init).map_err(e)?),
        Ph::Adi => Box::new(SimI::<Euler1DAdiabatic<16>, Probe<3, 16>, 3, 16>::new(&c.config(), init).map_err(e)?),
    })
}

/// Published coefficients are given with five digits for this mode
fn tol(m: Rk) -> f64 {
    if m == Rk::SSPRK5 {
        1.5e-5
    } else {
        1e-10
    }
}

/// Rooted trees up to order 5: (order, density, elementary weight as a function of stage values)
fn order_conditions(a: &[Vec<f64>], b: &[f64], order: usize) -> Vec<(String, f64)> {
    let s = b.len();
    let one = vec![1.0; s];
    let mv = |v: &Vec<f64>| -> Vec<f64> { (0..s).map(|i| (0..s).map(|j| a[i].get(j).unwrap_or(&0.0) * v[j]).sum()).collect() };
    let mul = |x: &Vec<f64>, y: &Vec<f64>| -> Vec<f64> { x.iter().zip(y).map(|(a, b)| a * b).collect() };
    // trees as (name, order, gamma, internal weights), built by grafting
    #[derive(Clone)]
    struct T {
        name: String,
        n: usize,
        gamma: f64,
        phi: Vec<f64>,
    }
    let mut trees: Vec<Vec<T>> = vec![vec![], vec![T { name: "t".into(), n: 1, gamma: 1.0, phi: one.clone() }]];
    for n in 2..=order {
        let mut new: Vec<T> = vec![];
        // multisets of subtrees with total order n-1
        fn rec(
            trees: &Vec<Vec<T>>,
            left: usize,
            max: (usize, usize),
            cur: &mut Vec<(usize, usize)>,
            out: &mut Vec<Vec<(usize, usize)>>,
        ) {
            if left == 0 {
                out.push(cur.clone());
                return;
            }
            for o in (1..=left.min(max.0)).rev() {
                for i in 0..trees[o].len() {
                    if o == max.0 && i > max.1 {
                        continue;
                    }
                    cur.push((o, i));
                    rec(trees, left - o, (o, i), cur, out);
                    cur.pop();
                }
            }
        }
        let mut sets = vec![];
        rec(&trees, n - 1, (n - 1, usize::MAX), &mut vec![], &mut sets);
        for set in sets {
            let mut phi = one.clone();
            let mut gamma = n as f64;
            let mut name = "[".to_string();
            for (o, i) in set {
                let t = &trees[o][i];
                phi = mul(&phi, &mv(&t.phi));
                gamma *= t.gamma;
                name += &t.name;
            }
            new.push(T { name: name + "]", n, gamma, phi });
        }
        trees.push(new);
    }
    trees
        .iter()
        .flatten()
        .map(|t| {
            let w: f64 = b.iter().zip(&t.phi).map(|(x, y)| x * y).sum();
            (format!("{} (order {})", t.name, t.n), (w - 1.0 / t.gamma).abs())
        })
        .collect()
}

fn recover(ph: Ph, m: Rk, eq: usize, dt: f64, big: f64, step: usize, t: &mut Tally) -> CaseResult {
    let c = C { ph, s: 16, rk: m, dt_max: dt, cfl: 1e6, gamma: 1.4, ..C::default() };
    let init = Init::uniform(ph, 16, (1.0, 0.25, 3.0), 1.0);
    let mut s = sim(ph, &c, &init)?;
    s.ts().t_next_output = 1e6;
    let seen: Rc<RefCell<Vec<Array2<f64>>>> = Rc::default();
    let tab = tableau(m);
    let n = tab.b.len();
    for st in 0..step {
        let sn = seen.clone();
        // the derivative of evaluation p is nonzero in cell 2+p only
        let amp = big * (1.0 + st as f64 * 0.5);
        set_hook(move |u, d| {
            let p = sn.borrow().len();
            sn.borrow_mut().push(u.clone());
            if p + 2 < 14 {
                d[[eq, 2 + p]] = amp;
            }
            Ok(())
        });
        seen.borrow_mut().clear();
        let u0 = s.cons().clone();
        let t0 = s.ts().t;
        s.step().map_err(|e| format!("{m:?}: the step failed: {e:#}"))?;
        t.transitions += 1;
        t.states += 1;
        clear_hook();
        let dts = s.ts().dt;
        let tn = s.ts().t;
        if dts != dt || tn != t0 + dt {
            return Err(format!("{m:?}: expected a step of {dt:e}, dt = {dts:e}, t = {t0:e} -> {tn:e}"));
        }
        let seen = seen.borrow();
        if seen.len() != n {
            // not the number of stages of the scheme; the comparison on state-dependent functions decides
            t.skipped += 1;
            return Ok(());
        }
        let coef = |u: &Array2<f64>, p: usize| -> f64 { (u0[[eq, 2 + p]] - u[[eq, 2 + p]]) / (dt * amp) };
        let err = 1e-13 / (dt * amp).abs();
        let mut a = vec![vec![0.0; n]; n];
        for q in 0..n {
            for p in 0..n {
                a[q][p] = coef(&seen[q], p);
                let want = *tab.a[q].get(p).unwrap_or(&0.0);
                if (a[q][p] - want).abs() > tol(m) * want.abs().max(if want == 0.0 { 0.0 } else { 1.0 }) + err {
                    return Err(format!(
                        "{m:?}, {ph:?}, equation {eq}, dt {dt:e}, step {st}: stage {q} depends on the derivative of stage {p} with weight {} instead of {want}",
                        a[q][p]
                    ));
                }
            }
        }
        let b: Vec<f64> = (0..n).map(|p| coef(s.cons(), p)).collect();
        for p in 0..n {
            if (b[p] - tab.b[p]).abs() > tol(m) * tab.b[p].abs().max(if tab.b[p] == 0.0 { 0.0 } else { 1.0 }) + err {
                return Err(format!(
                    "{m:?}, {ph:?}, equation {eq}, dt {dt:e}, step {st}: stage {p} enters the result with weight {} instead of {}",
                    b[p], tab.b[p]
                ));
            }
        }
        // cells and equations without a derivative must not move
        for j in 0..ph.e() {
            for i in 2..14 {
                if (j != eq || i >= 2 + n) && (s.cons()[[j, i]] - u0[[j, i]]).abs() > 1e-13 * (1.0 + u0[[j, i]].abs()) {
                    return Err(format!("{m:?}: cell {i} of equation {j} moved without a derivative"));
                }
            }
        }
        // with the recovered coefficients
        for (name, x) in order_conditions(&a, &b, tab.order) {
            if x > 40.0 * (tol(m) + err) {
                return Err(format!("{m:?}: order condition {name} is violated by {x:e}, the mode should be of order {}", tab.order));
            }
        }
        t.traces += 1;
    }
    t.sample(|| format!("{m:?} {ph:?} equation {eq} dt {dt:e} amplitude {big:e}: tableau recovered in {step} steps"));
    Ok(())
}

/// State-dependent right-hand sides d(cons) (the solution follows u' = -d)
const NF: usize = 8;
fn rhs_fn(k: usize, u: &Array2<f64>, d: &mut Array2<f64>) {
    let (e, s) = u.dim();
    for j in 0..e {
        for i in 2..s - 2 {
            let x = u[[j, i]];
            let other = u[[(j + 1) % e, i]];
            d[[j, i]] = match k {
                0 => x,
                1 => -0.07 * x * x + 0.1,
                2 => x * other,
                3 => (3.0 * x + i as f64).sin(),
                4 => 0.3 * (u[[j, i - 1]] + u[[j, i + 1]] - 2.0 * x) + 0.05 * x * x * x,
                5 => ((other - x) * 0.3).tanh(),
                6 => 1.0 / (1.0 + x * x) + other * 0.2,
                _ => {
                    if j == 0 {
                        -0.5 * x * (1.0 - other * other)
                    } else {
                        x.cos() - other.abs().sqrt()
                    }
                }
            };
        }
    }
}

fn valid(ph: Ph, u: &Array2<f64>) -> bool {
    u.columns().into_iter().skip(2).take(12).all(|c| c[0] > 1e-6 && (ph == Ph::Iso || c[2] - 0.5 * c[1] * c[1] / c[0] > 1e-6))
}

fn functional(ph: Ph, m: Rk, k: usize, dt: f64, v: usize, t: &mut Tally) -> CaseResult {
    let c = C { ph, s: 16, rk: m, dt_max: dt, cfl: 1e9, gamma: 1.4, ..C::default() };
    let cells: Vec<_> = (0..16)
        .map(|i| match v {
            0 => (1.0 + 0.05 * i as f64, 0.2 - 0.03 * i as f64, 5.0),
            1 => (2.0 - 0.1 * (i % 3) as f64, -1.0 + 0.2 * (i % 5) as f64, 4.0 + 0.1 * i as f64),
            _ => (1.5, 0.7, 6.0),
        })
        .collect();
    let init = Init::cells(ph, &cells, 1.0);
    let mut s = sim(ph, &c, &init)?;
    s.ts().t_next_output = 1e6;
    set_hook(move |u, d| {
        rhs_fn(k, u, d);
        Ok(())
    });
    let tab = tableau(m);
    for step in 0..3 {
        let u0 = s.cons().clone();
        // the scheme of that name; ghost cells copy the outermost interior cells
        let ghosts = |u: &mut Array2<f64>| {
            for j in 0..ph.e() {
                for g in 0..2 {
                    u[[j, g]] = u[[j, 2]];
                    u[[j, 15 - g]] = u[[j, 13]];
                }
            }
        };
        let mut ks: Vec<Array2<f64>> = vec![];
        let mut kmax = 0f64;
        let mut physical = true;
        for q in 0..tab.b.len() {
            let mut x = u0.clone();
            for (p, kp) in ks.iter().enumerate() {
                x = x - kp * (dt * tab.a[q].get(p).unwrap_or(&0.0));
            }
            ghosts(&mut x);
            let mut d = Array2::zeros((ph.e(), 16));
            rhs_fn(k, &x, &mut d);
            physical &= valid(ph, &x);
            kmax = kmax.max(d.iter().fold(0.0f64, |a, x| a.max(x.abs())));
            ks.push(d);
        }
        let mut x = u0.clone();
        for (q, kq) in ks.iter().enumerate() {
            x = x - kq * (dt * tab.b[q]);
        }
        if !physical || !valid(ph, &x) {
            t.skipped += 1;
            break;
        }
        if let Err(e) = s.step() {
            clear_hook();
            return Err(format!("{m:?} on right-hand side {k}: {e:#}\n{c:?}"));
        }
        t.transitions += 1;
        t.states += 1;
        let lim = if m == Rk::SSPRK5 { 1e-4 } else { 1e-10 } * dt * (1.0 + kmax) * (1.0 + dt * kmax) + 1e-13 * (1.0 + kmax * dt);
        for j in 0..ph.e() {
            for i in 2..14 {
                let (a, b) = (s.cons()[[j, i]], x[[j, i]]);
                if (a - b).abs() > lim * (1.0 + b.abs()) {
                    clear_hook();
                    return Err(format!(
                        "{m:?}, {ph:?}, right-hand side {k}, step {step} of width {dt}: cons[{j}] in cell {i} is {a:e}, the scheme gives {b:e} (limit {lim:e})\nstart {}",
                        short(&u0)
                    ));
                }
            }
        }
        t.traces += 1;
    }
    clear_hook();
    Ok(())
}

/// Error against the exact solution of u' = -u^2 + ... when the step is halved
fn convergence(m: Rk, k: usize, t: &mut Tally) -> CaseResult {
    // rho' = -r(rho) with closed solutions, decoupled in every cell
    let exact: fn(f64, f64) -> f64 = match k {
        0 => |x, t| x * (-t).exp(),
        1 => |x, t| x / (1.0 + x * t),
        _ => |x, t| ((x).powi(2) + 2.0 * t).sqrt(),
    };
    let der: fn(f64) -> f64 = match k {
        0 => |x| x,
        1 => |x| x * x,
        _ => |x| -1.0 / x,
    };
    let run = |n: usize| -> Result<f64, String> {
        let tend = 1.0;
        let dt = tend / n as f64;
        let c = C { ph: Ph::Iso, s: 16, rk: m, dt_max: dt, cfl: 1e9, ..C::default() };
        let cells: Vec<_> = (0..16).map(|i| (0.8 + 0.05 * i as f64, 0.0, 1.0)).collect();
        let mut s = sim(Ph::Iso, &c, &Init::cells(Ph::Iso, &cells, 1.0))?;
        s.ts().t_next_output = 1e6;
        set_hook(move |u, d| {
            for i in 2..14 {
                d[[0, i]] = der(u[[0, i]]);
            }
            Ok(())
        });
        for _ in 0..n {
            s.step().map_err(|e| format!("{m:?}: {e:#}"))?;
        }
        clear_hook();
        Ok((2..14).map(|i| (s.cons()[[0, i]] - exact(cells[i].0, tend)).abs()).fold(0.0, f64::max))
    };
    let order = tableau(m).order;
    let n = if order >= 4 { [8, 16] } else if m == Rk::SSPRK5 { [2, 4] } else { [32, 64] };
    let (a, b) = (run(n[0])?, run(n[1])?);
    t.transitions += 2;
    t.states += 2;
    t.traces += 2;
    if m == Rk::SSPRK5 && b < 3e-5 {
        t.skipped += 1; // limited by the published digits
        return Ok(());
    }
    let p = (a / b).log2();
    t.sample(|| format!("{m:?} problem {k}: error {a:e} -> {b:e}, order {p:.2}"));
    if b > 1e-13 && p < order as f64 - 0.4 {
        return Err(format!("{m:?}: halving the step reduces the error from {a:e} to {b:e} (order {p:.2}), the mode should be of order {order}"));
    }
    Ok(())
}

fn main() {
    vh::run("C06", |ctx| {
        let dts: &[f64] = ctx.pick(&[1e-4, 3e-3, 0.7], &[1e-7, 1e-5, 1e-4, 3e-3, 0.02, 0.7, 40.0]);
        let steps = ctx.pick(3, 6);
        ctx.group("tableau", 9 * 5 * dts.len() * 2, |k, t| {
            let mut r = Radix(k);
            let m = *r.of(&RKS);
            let e = r.take(5);
            let (ph, eq) = if e < 3 { (Ph::Adi, e) } else { (Ph::Iso, e - 3) };
            let dt = *r.of(dts);
            let x = *r.of(&[0.02, -0.02]);
            recover(ph, m, eq, dt, x / dt, steps, t)
        });
        let dts: &[f64] = ctx.pick(&[1e-3, 0.05], &[1e-6, 1e-3, 0.01, 0.05, 0.1]);
        ctx.group("functions", 9 * 2 * NF * 3 * dts.len(), |k, t| {
            let mut r = Radix(k);
            let m = *r.of(&RKS);
            let ph = [Ph::Adi, Ph::Iso][r.take(2)];
            let f = r.take(NF);
            let v = r.take(3);
            functional(ph, m, f, *r.of(dts), v, t)
        });
        ctx.group("convergence", 9 * 3, |k, t| {
            let mut r = Radix(k);
            let m = *r.of(&RKS);
            convergence(m, r.take(3), t)
        });
    })
}
