//! Boundary rules on all interior profiles, for every pair of modes.
use corries::prelude::*;
use vh::refsim::*;
use vh::*;

fn case<P: Physics<E, S> + 'static, const E: usize, const S: usize>(
    ph: Ph,
    xi: (f64, f64),
    west: Vec<(usize, Bm)>,
    east: Vec<(usize, Bm)>,
    n: usize,
    val: &dyn Fn(usize, usize, usize) -> f64,
    t: &mut Tally,
) -> CaseResult {
    let c = C { ph, s: S, xi, west: Some(west), east: Some(east), ..C::default() };
    let cfg = c.config();
    let mesh = Mesh::<S>::new(&cfg.mesh_config).map_err(|e| format!("Mesh::new: {e:#}"))?;
    let mut rhs = Rhs::<Hll<E, S>, E, S>::new(&cfg, &mesh).map_err(|e| format!("Rhs::new: {e:#}"))?;
    let mut u = State::<P, E, S>::new(&cfg.physics_config);
    let r = Ref::new(&c, 1.0);
    for k in 0..n {
        for j in 0..E {
            for i in 0..S {
                // ghost cells start with values that no rule may look at
                u.cent.prim[[j, i]] = if i < 2 || i >= S - 2 { 7e5 + i as f64 } else { val(k, j, i) };
                u.cent.cons[[j, i]] = -3.5e7;
            }
        }
        u.cent.c_sound.fill(2.25);
        let before = u.cent.clone();
        let mut want = exact(&u.cent.prim);
        t.states += 1;
        let Some(()) = r.bc(&mut want) else {
            t.skipped += 1;
            continue;
        };
        let show = |u: &ndarray::Array2<f64>| format!("before {}\nafter  {}\n{c:?}", short(&before.prim), short(u));
        // one side at a time: the other side and the interior must not be touched
        rhs.boundary_west.apply(&mut u.cent, &mesh);
        t.transitions += 1;
        for j in 0..E {
            for i in 2..S {
                if u.cent.prim[[j, i]].to_bits() != before.prim[[j, i]].to_bits() {
                    return Err(format!("the west boundary changed cell {i} of equation {j}\n{}", show(&u.cent.prim)));
                }
            }
        }
        let mid = u.cent.prim.clone();
        rhs.boundary_east.apply(&mut u.cent, &mesh);
        t.transitions += 1;
        for j in 0..E {
            for i in 0..S - 2 {
                if u.cent.prim[[j, i]].to_bits() != mid[[j, i]].to_bits() {
                    return Err(format!("the east boundary changed cell {i} of equation {j}\n{}", show(&u.cent.prim)));
                }
            }
            for i in (0..2).chain(S - 2..S) {
                let listed = c.rules(i < 2).iter().any(|q| q.0 == j);
                let x = u.cent.prim[[j, i]];
                if !listed {
                    if x.to_bits() != before.prim[[j, i]].to_bits() {
                        return Err(format!("ghost cell {i} of equation {j} changed although no rule is listed for it\n{}", show(&u.cent.prim)));
                    }
                } else if want[j][i].ok() && !want[j][i].agrees(x) {
                    return Err(format!(
                        "ghost cell {i} of equation {j} is {x:e}, the configured rule gives {:e}\n{}",
                        want[j][i].v, show(&u.cent.prim)
                    ));
                }
            }
        }
        t.traces += 1;
        if u.cent.cons != before.cons || u.cent.c_sound != before.c_sound || u.cent.flux != before.flux {
            return Err(format!("boundary conditions changed fields other than the primitive variables\n{}", show(&u.cent.prim)));
        }
        // again: nothing changes
        let once = u.cent.prim.clone();
        rhs.boundary_west.apply(&mut u.cent, &mesh);
        rhs.boundary_east.apply(&mut u.cent, &mesh);
        t.transitions += 2;
        if once.iter().zip(u.cent.prim.iter()).any(|(a, b)| a.to_bits() != b.to_bits()) {
            return Err(format!("applying the boundary conditions twice differs from once\n{}", show(&u.cent.prim)));
        }
        // the public update applies the same rules and leaves the interior alone
        u.cent.prim.assign(&before.prim);
        u.update_vars_from_prim(&mut rhs.boundary_west, &mut rhs.boundary_east, &mesh);
        t.transitions += 1;
        if once.iter().zip(u.cent.prim.iter()).any(|(a, b)| a.to_bits() != b.to_bits()) {
            return Err(format!("update_vars_from_prim does not apply the boundary conditions\n{}", show(&u.cent.prim)));
        }
    }
    t.sample(|| format!("{ph:?} S={S} {:?} / {:?}: {n} profiles", c.west, c.east));
    Ok(())
}

fn main() {
    vh::run("C18", |ctx| {
        let vals = [1.0, -2.0, 0.5, 0.0, -0.25, 1e-7, -3e5, 42.0, -0.0];
        let na = ctx.pick(7, 9);
        let meshes = [(1.3, 3.1), (20.0, 21.0), (0.7, 900.0)];
        let n4 = na * na * na * na;
        // every pair of modes on every equation, all profiles of 4 interior cells
        ctx.group("pairs", 64 * 3 * 2 * meshes.len(), |k, t| {
            let mut r = Radix(k);
            let (a, b) = (*r.of(&BMS), *r.of(&BMS));
            let j0 = r.take(3);
            let iso = r.take(2) == 1;
            let xi = *r.of(&meshes);
            let val = |k: usize, j: usize, i: usize| {
                let mut x = Radix(k);
                let d: Vec<usize> = (0..4).map(|_| x.take(na)).collect();
                if j == j0 { vals[d[i - 2]] } else { (10 * j + i) as f64 }
            };
            if iso {
                if j0 > 1 {
                    return Ok(());
                }
                case::<Euler1DIsot<8>, 2, 8>(Ph::Iso, xi, vec![(j0, a)], vec![(j0, b)], n4, &val, t)
            } else {
                case::<Euler1DAdiabatic<8>, 3, 8>(Ph::Adi, xi, vec![(j0, a)], vec![(j0, b)], n4, &val, t)
            }
        });
        // values that are close to each other, tiny, or far apart
        let close = [1.0, 1.0 + 5e-10, -1e-13, 1e-300, -1e-308, 1e15, -(1.0 - 1e-13), 3e-9, -2e20, f64::MIN_POSITIVE];
        let nc = ctx.pick(7, 10);
        let nc4 = nc * nc * nc * nc;
        ctx.group("close values", 64 * 2, |k, t| {
            let mut r = Radix(k);
            let (a, b) = (*r.of(&BMS), *r.of(&BMS));
            let j0 = r.take(2);
            let val = |k: usize, j: usize, i: usize| {
                let mut x = Radix(k);
                let d: Vec<usize> = (0..4).map(|_| x.take(nc)).collect();
                if j == j0 { close[d[i - 2]] } else { (10 * j + i) as f64 }
            };
            if j0 == 0 {
                case::<Euler1DIsot<8>, 2, 8>(Ph::Iso, (1.3, 3.1), vec![(j0, a)], vec![(j0, b)], nc4, &val, t)
            } else {
                case::<Euler1DAdiabatic<8>, 3, 8>(Ph::Adi, (0.7, 900.0), vec![(j0, a)], vec![(j0, b)], nc4, &val, t)
            }
        });
        // an equation listed several times: every entry in its turn
        ctx.group("repeated", 64 * 8, |k, t| {
            let mut r = Radix(k);
            let (a, b) = (*r.of(&BMS), *r.of(&BMS));
            let o = BMS[(k / 3) % 8];
            let l = match r.take(8) {
                0 => vec![(1, a), (1, b)],
                1 => vec![(0, a), (0, b)],
                2 => vec![(1, a), (1, b), (0, o)],
                3 => vec![(0, o), (1, a), (1, b)],
                4 => vec![(1, a), (0, o), (1, b)],
                5 => vec![(1, a), (1, b), (1, o)],
                6 => vec![(0, a), (1, b), (0, o), (1, a), (0, b), (1, o)],
                _ => vec![(1, a), (1, a), (1, b)],
            };
            let mut other = l.clone();
            other.reverse();
            let val = |k: usize, j: usize, i: usize| vals[(k + 2 * j + i * (k % 5 + 1)) % 9] + (i % 3) as f64;
            case::<Euler1DIsot<8>, 2, 8>(Ph::Iso, (1.3, 3.1), l.clone(), other.clone(), 81, &val, t)?;
            case::<Euler1DAdiabatic<7>, 3, 7>(Ph::Adi, (1.3, 3.1), other, l, 81, &val, t)
        });
        // all triples of modes on one side, in two orders, with different rules for the other side
        ctx.group("mixed", 512 * 4, |k, t| {
            let mut r = Radix(k);
            let m: Vec<Bm> = (0..3).map(|_| *r.of(&BMS)).collect();
            let mut w: Vec<(usize, Bm)> = (0..3).map(|j| (j, m[j])).collect();
            let mut e: Vec<(usize, Bm)> = (0..3).map(|j| (j, m[(j + 1) % 3])).collect();
            if r.take(2) == 1 {
                w.reverse();
                e.rotate_left(1);
            }
            let len = r.take(2);
            let val = |k: usize, j: usize, i: usize| vals[(k * 3 + j * (k / 9 + 1) + i * (k % 7 + 1)) % 9];
            if len == 0 {
                case::<Euler1DAdiabatic<6>, 3, 6>(Ph::Adi, (1.3, 3.1), w, e, 81, &val, t)
            } else {
                case::<Euler1DAdiabatic<12>, 3, 12>(Ph::Adi, (1.3, 3.1), w, e, 81, &val, t)
            }
        });
        // sizes, empty lists, repeated equations, the plain NoGradients setting
        ctx.group("sizes", 8, |k, t| {
            let val = |k: usize, j: usize, i: usize| vals[(k + 2 * j + i * (k % 5 + 1)) % 9] + i as f64;
            let m = BMS[k];
            let all: Vec<_> = (0..3).map(|j| (j, m)).collect();
            case::<Euler1DAdiabatic<6>, 3, 6>(Ph::Adi, (1.3, 3.1), all.clone(), all.clone(), 729, &val, t)?;
            case::<Euler1DAdiabatic<7>, 3, 7>(Ph::Adi, (1.3, 3.1), all.clone(), vec![], 729, &val, t)?;
            case::<Euler1DAdiabatic<8>, 3, 8>(Ph::Adi, (1.3, 3.1), all.clone(), all.clone(), 729, &val, t)?;
            case::<Euler1DAdiabatic<10>, 3, 10>(Ph::Adi, (1.3, 3.1), all.clone(), vec![(1, m)], 729, &val, t)?;
            case::<Euler1DAdiabatic<16>, 3, 16>(Ph::Adi, (1.3, 3.1), vec![(2, m)], all.clone(), 729, &val, t)?;
            case::<Euler1DAdiabatic<1004>, 3, 1004>(Ph::Adi, (1.3, 3.1), all.clone(), all.clone(), 9, &val, t)?;
            case::<Euler1DAdiabatic<9>, 3, 9>(Ph::Adi, (1.3, 3.1), vec![], all.clone(), 729, &val, t)?;
            case::<Euler1DAdiabatic<36>, 3, 36>(Ph::Adi, (1.3, 3.1), all.clone(), all.clone(), 729, &val, t)?;
            case::<Euler1DAdiabatic<104>, 3, 104>(Ph::Adi, (40.0, 50.0), all.clone(), all.clone(), 729, &val, t)?;
            let rep = vec![(1, m), (0, BMS[(k + 3) % 8]), (1, BMS[(k + 1) % 8])];
            case::<Euler1DIsot<8>, 2, 8>(Ph::Iso, (1.3, 3.1), rep.clone(), rep, 729, &val, t)
        });
    })
}
