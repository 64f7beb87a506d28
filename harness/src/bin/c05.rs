//! The public update operations of `State`, explored as a transition system in lockstep with a model.
use corries::prelude::*;
use corries::state::variables::Variables;
use vh::refsim::*;
use vh::*;

const W: u8 = Direction::West as u8;
const CC: u8 = Direction::Cent as u8;
const EA: u8 = Direction::East as u8;

#[derive(Clone, Copy, Debug, PartialEq)]
enum K {
    Prim,
    Cons,
    Derived,
    CSound,
    Eigen,
    EigenMin,
    EigenMax,
    Flux,
    VarsPrim,
    VarsCons,
    AssignVars,
}
const KS: [K; 11] = [
    K::Prim, K::Cons, K::Derived, K::CSound, K::Eigen, K::EigenMin, K::EigenMax, K::Flux, K::VarsPrim, K::VarsCons,
    K::AssignVars,
];
#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    /// one direction through the direction-generic method
    D(K, usize),
    /// the method for cell centres
    Cent(K),
    Assign,
    InitWE,
}
fn ops() -> Vec<Op> {
    let mut v = vec![];
    for d in [1, 0, 2] {
        for k in KS {
            v.push(Op::D(k, d));
        }
    }
    for k in KS {
        v.push(Op::Cent(k));
    }
    v.push(Op::Assign);
    v.push(Op::InitWE);
    v
}

type Bc<const E: usize, const S: usize> = corries::rhs::Rhs<Hll<E, S>, E, S>;

fn apply<P: Physics<E, S> + 'static, const E: usize, const S: usize>(
    op: Op,
    u: &mut State<P, E, S>,
    other: &State<P, E, S>,
    r: &mut Bc<E, S>,
    mesh: &Mesh<S>,
) {
    let (w, e) = (&mut r.boundary_west, &mut r.boundary_east);
    macro_rules! dd {
        ($d:ident, $f:ident $(, $a:expr)*) => {
            match $d {
                0 => u.$f::<W>($($a),*),
                1 => u.$f::<CC>($($a),*),
                _ => u.$f::<EA>($($a),*),
            }
        };
    }
    match op {
        Op::D(K::Prim, d) => dd!(d, update_prim_d),
        Op::D(K::Cons, d) => dd!(d, update_cons_d),
        Op::D(K::Derived, d) => dd!(d, update_derived_variables_d),
        Op::D(K::CSound, d) => dd!(d, update_c_sound_d),
        Op::D(K::Eigen, d) => dd!(d, update_eigen_vals_d),
        Op::D(K::EigenMin, d) => dd!(d, update_eigen_vals_min_d),
        Op::D(K::EigenMax, d) => dd!(d, update_eigen_vals_max_d),
        Op::D(K::Flux, d) => dd!(d, update_flux_d),
        Op::D(K::VarsPrim, d) => dd!(d, update_vars_from_prim_d, w, e, mesh),
        Op::D(K::VarsCons, d) => dd!(d, update_vars_from_cons_d, w, e, mesh),
        Op::D(K::AssignVars, d) => dd!(d, assign_vars_d, other),
        Op::Cent(K::Prim) => u.update_prim(),
        Op::Cent(K::Cons) => u.update_cons(),
        Op::Cent(K::Derived) => u.update_derived_variables(),
        Op::Cent(K::CSound) => u.update_c_sound(),
        Op::Cent(K::Eigen) => u.update_eigen_vals(),
        Op::Cent(K::EigenMin) => u.update_eigen_vals_min(),
        Op::Cent(K::EigenMax) => u.update_eigen_vals_max(),
        Op::Cent(K::Flux) => u.update_flux(),
        Op::Cent(K::VarsPrim) => u.update_vars_from_prim(w, e, mesh),
        Op::Cent(K::VarsCons) => u.update_vars_from_cons(w, e, mesh),
        Op::Cent(K::AssignVars) => u.assign_vars(other),
        Op::Assign => u.assign(other),
        Op::InitWE => u.init_west_east(),
    }
}

fn same(a: &ndarray::Array2<f64>, b: &ndarray::Array2<f64>) -> bool {
    a.iter().zip(b.iter()).all(|(x, y)| x.to_bits() == y.to_bits())
}
fn same1(a: &ndarray::Array1<f64>, b: &ndarray::Array1<f64>) -> bool {
    a.iter().zip(b.iter()).all(|(x, y)| x.to_bits() == y.to_bits())
}
fn col(a: &ndarray::Array2<f64>, i: usize) -> Vec<Ev> {
    a.column(i).iter().map(|x| ev(*x)).collect()
}
/// Some(wrong) if decided
fn cmp(want: &[Ev], have: &ndarray::Array2<f64>, i: usize) -> Option<(usize, f64, f64)> {
    for (j, w) in want.iter().enumerate() {
        if w.ok() && !w.agrees(have[[j, i]]) {
            return Some((j, have[[j, i]], w.v));
        }
    }
    None
}

/// Compares one variable set before and after an operation of kind k with the model
fn check_set<const E: usize, const S: usize>(
    k: K,
    b: &Variables<E, S>,
    a: &Variables<E, S>,
    r: &Ref,
    src: Option<&Variables<E, S>>,
) -> Result<bool, String> {
    let ph = r.c.ph;
    let keep = |name: &str, x: &ndarray::Array2<f64>, y: &ndarray::Array2<f64>| {
        if same(x, y) {
            Ok(())
        } else {
            Err(format!("{name} changed, which this operation must not touch: {} -> {}", short(x), short(y)))
        }
    };
    let keep_cs = || {
        if same1(&b.c_sound, &a.c_sound) {
            Ok(())
        } else {
            Err(format!("the sound speed changed: {} -> {}", b.c_sound, a.c_sound))
        }
    };
    if b.gamma.to_bits() != a.gamma.to_bits() {
        return Err("gamma changed".into());
    }
    let bad = |what: &str, i: usize, (j, x, y): (usize, f64, f64)| Err(format!("{what}[{j}] in cell {i} is {x:e}, it should be {y:e}"));
    let cs_of = |v: &Variables<E, S>, i: usize| match ph {
        Ph::Iso => ev(v.c_sound[i]),
        Ph::Adi => {
            let p = col(&v.prim, i);
            (ev(v.gamma) * p[2] / p[0]).sqrt()
        }
    };
    let eigen = |v: &Variables<E, S>, lo: bool, mid: bool, hi: bool| -> CaseResult {
        for i in 0..S {
            let (x, c) = (ev(v.prim[[1, i]]), ev(v.c_sound[i]));
            for j in 0..E {
                let (on, want) = if j == 0 {
                    (lo, x - c)
                } else if j == E - 1 {
                    (hi, x + c)
                } else {
                    (mid, x)
                };
                let have = v.eigen_vals[[j, i]];
                if on && want.ok() && !want.agrees(have) {
                    return bad("eigenvalue", i, (j, have, want.v));
                }
                if !on && have.to_bits() != b.eigen_vals[[j, i]].to_bits() {
                    return Err(format!("eigenvalue [{j}] in cell {i} changed, which this operation must not touch"));
                }
            }
        }
        Ok(())
    };
    match k {
        K::Prim => {
            keep("cons", &b.cons, &a.cons)?;
            keep("flux", &b.flux, &a.flux)?;
            keep("eigen_vals", &b.eigen_vals, &a.eigen_vals)?;
            keep_cs()?;
            for i in 0..S {
                if let Some(x) = cmp(&r.to_prim1(&col(&b.cons, i)), &a.prim, i) {
                    return bad("prim", i, x).map(|_| true);
                }
            }
        }
        K::Cons => {
            keep("prim", &b.prim, &a.prim)?;
            keep("flux", &b.flux, &a.flux)?;
            keep("eigen_vals", &b.eigen_vals, &a.eigen_vals)?;
            keep_cs()?;
            for i in 0..S {
                if let Some(x) = cmp(&r.to_cons1(&col(&b.prim, i)), &a.cons, i) {
                    return bad("cons", i, x).map(|_| true);
                }
            }
        }
        K::CSound | K::Derived => {
            keep("prim", &b.prim, &a.prim)?;
            keep("cons", &b.cons, &a.cons)?;
            keep("flux", &b.flux, &a.flux)?;
            for i in 0..S {
                let want = cs_of(b, i);
                if want.ok() && !want.agrees(a.c_sound[i]) {
                    return bad("sound speed", i, (0, a.c_sound[i], want.v)).map(|_| true);
                }
            }
            let on = k == K::Derived;
            eigen(a, on, on, on)?;
        }
        K::Eigen | K::EigenMin | K::EigenMax => {
            keep("prim", &b.prim, &a.prim)?;
            keep("cons", &b.cons, &a.cons)?;
            keep("flux", &b.flux, &a.flux)?;
            keep_cs()?;
            eigen(a, k != K::EigenMax, k == K::Eigen, k != K::EigenMin)?;
        }
        K::Flux => {
            keep("prim", &b.prim, &a.prim)?;
            keep("cons", &b.cons, &a.cons)?;
            keep("eigen_vals", &b.eigen_vals, &a.eigen_vals)?;
            keep_cs()?;
            // defined where both descriptions belong to the same fluid
            for i in 0..S {
                let p = col(&b.prim, i);
                if r.to_cons1(&p).iter().enumerate().all(|(j, w)| w.ok() && w.agrees(b.cons[[j, i]])) {
                    // for isothermal flow the flux needs the sound speed, for adiabatic flow the pressure
                    let cs = ev(b.c_sound[i]);
                    let c = col(&b.cons, i);
                    let c: Vec<Ev> = r.to_cons1(&p).iter().zip(c).map(|(w, x)| Ev { v: x.v, e: w.e }).collect();
                    if let Some(x) = cmp(&r.flux1(&p, &c, cs), &a.flux, i) {
                        return bad("flux", i, x).map(|_| true);
                    }
                }
            }
        }
        K::VarsPrim | K::VarsCons => {
            keep("flux", &b.flux, &a.flux)?;
            let prim = if k == K::VarsPrim { exact(&b.prim) } else { r.map(&exact(&b.cons), |c| r.to_prim1(c)) };
            let mut p = prim.clone();
            let Some(()) = r.bc(&mut p) else { return Ok(false) };
            for i in 0..S {
                let want: Vec<Ev> = (0..E).map(|j| p[j][i]).collect();
                if let Some(x) = cmp(&want, &a.prim, i) {
                    return bad("prim", i, x).map(|_| true);
                }
                // everything else describes the state that prim now holds
                let pa = col(&a.prim, i);
                if let Some(x) = cmp(&r.to_cons1(&pa), &a.cons, i) {
                    return bad("cons", i, x).map(|_| true);
                }
                let cs = if ph == Ph::Iso { ev(b.c_sound[i]) } else { cs_of(a, i) };
                if cs.ok() && !cs.agrees(a.c_sound[i]) {
                    return bad("sound speed", i, (0, a.c_sound[i], cs.v)).map(|_| true);
                }
            }
            eigen(a, true, true, true)?;
        }
        K::AssignVars => {
            let s = src.unwrap();
            if !same(&a.prim, &s.prim) || !same(&a.cons, &s.cons) || !same1(&a.c_sound, &s.c_sound) {
                return Err(format!("assign did not copy the state: prim {} cons {}", short(&a.prim), short(&a.cons)));
            }
            for (n, b, a, s) in [("eigen_vals", &b.eigen_vals, &a.eigen_vals, &s.eigen_vals), ("flux", &b.flux, &a.flux, &s.flux)] {
                if !same(a, b) && !same(a, s) {
                    return Err(format!("assign changed {n} to something else than the source's"));
                }
            }
        }
    }
    Ok(true)
}
fn untouched<const E: usize, const S: usize>(b: &Variables<E, S>, a: &Variables<E, S>) -> bool {
    same(&b.prim, &a.prim)
        && same(&b.cons, &a.cons)
        && same1(&b.c_sound, &a.c_sound)
        && same(&b.eigen_vals, &a.eigen_vals)
        && same(&b.flux, &a.flux)
}

struct World<P: Physics<E, S>, const E: usize, const S: usize> {
    other: State<P, E, S>,
    rhs: Bc<E, S>,
    mesh: Mesh<S>,
    r: Ref,
    ops: Vec<Op>,
}
fn dirs<P: Physics<E, S>, const E: usize, const S: usize>(u: &State<P, E, S>) -> [&Variables<E, S>; 3] {
    [&u.west, &u.cent, &u.east]
}
const NAMES: [&str; 3] = ["west", "cent", "east"];

fn explore<P: Physics<E, S> + Clone + 'static, const E: usize, const S: usize>(
    w: &mut World<P, E, S>,
    u: &State<P, E, S>,
    path: &mut Vec<Op>,
    depth: usize,
    t: &mut Tally,
) -> CaseResult {
    for n in 0..w.ops.len() {
        let op = w.ops[n];
        let mut a = u.clone();
        apply(op, &mut a, &w.other, &mut w.rhs, &w.mesh);
        t.transitions += 1;
        path.push(op);
        let r = (|| {
            let (db, da, ds) = (dirs(u), dirs(&a), dirs(&w.other));
            for d in 0..3 {
                let k = match op {
                    Op::D(k, x) if x == d => Some((k, ds[d])),
                    Op::Cent(k) if d == 1 => Some((k, ds[1])),
                    Op::Assign => Some((K::AssignVars, ds[d])),
                    Op::InitWE if d != 1 => Some((K::AssignVars, db[1])),
                    _ => None,
                };
                match k {
                    None => {
                        if !untouched(db[d], da[d]) {
                            return Err(format!("{} changed although the operation does not concern it", NAMES[d]));
                        }
                    }
                    Some((k, s)) => {
                        // init_west_east may be implemented through either side first; the source is the centre
                        if !check_set(k, db[d], da[d], &w.r, Some(s)).map_err(|e| format!("{}: {e}", NAMES[d]))? {
                            t.skipped += 1;
                        }
                    }
                }
            }
            Ok(())
        })();
        t.traces += 1;
        if let Err(e) = r {
            return Err(format!(
                "after {path:?}: {e}\nbefore the last operation: {:?}\nafter it: {:?}\n{:?}",
                dirs(u).map(|v| (short(&v.prim), short(&v.cons), v.c_sound.to_vec())),
                dirs(&a).map(|v| (short(&v.prim), short(&v.cons), v.c_sound.to_vec())),
                w.r.c
            ));
        }
        t.states += 1;
        if depth > 1 {
            explore(w, &a, path, depth - 1, t)?;
        }
        path.pop();
    }
    Ok(())
}

const ST: [(f64, f64, f64); 8] = [
    (1.0, 0.5, 1.0),
    (2.0, -3.0, 0.125),
    (0.01, 40.0, 5.0),
    (7.0, -0.25, 1e-4),
    (300.0, 2.0, 1e5),
    (1e-5, -1.0, 1e-7),
    (1.5, 0.75, 2.5),
    (5.0, 1e-9, 3.0),
];

fn world<P: Physics<E, S> + Clone + 'static, const E: usize, const S: usize>(
    ph: Ph,
    k: usize,
) -> Result<(World<P, E, S>, State<P, E, S>), String> {
    let mut x = Radix(k);
    let b = x.take(N_BC);
    let c = C { ph, s: S, gamma: [1.4, 1.1][x.0 % 2], west: bc_set(ph, b), east: bc_set(ph, (b + 2) % N_BC), ..C::default() };
    let cfg = c.config();
    let mesh = Mesh::<S>::new(&cfg.mesh_config).map_err(|e| format!("{e:#}"))?;
    let rhs = Rhs::<Hll<E, S>, E, S>::new(&cfg, &mesh).map_err(|e| format!("{e:#}"))?;
    let r = Ref::new(&c, 1.0);
    let mk = |off: usize| {
        let mut u = State::<P, E, S>::new(&cfg.physics_config);
        for (d, v) in [&mut u.west, &mut u.cent, &mut u.east].into_iter().enumerate() {
            for i in 0..S {
                // primitive and conservative variables of two different fluids
                let p = ST[(i + 3 * d + off) % 8];
                let q = ST[(2 * i + d + off + 1) % 8];
                let q = r.to_cons1(&[ev(q.0), ev(q.1), ev(q.2)][..E]);
                for j in 0..E {
                    v.prim[[j, i]] = [p.0, p.1, p.2][j];
                    v.cons[[j, i]] = q[j].v;
                    v.eigen_vals[[j, i]] = 1e3 + (100 * off + 10 * d + j) as f64;
                    v.flux[[j, i]] = -1e3 - (100 * off + 10 * d + j) as f64;
                }
                v.c_sound[i] = 0.3 + 0.1 * (i + 7 * d + off) as f64;
            }
        }
        u
    };
    let u = mk(x.0);
    let other = mk(x.0 + 4);
    Ok((World { other, rhs, mesh, r, ops: ops() }, u))
}

fn value_case<P: Physics<E, 6> + Clone + 'static, const E: usize>(ph: Ph, k: usize, t: &mut Tally) -> CaseResult {
    const S: usize = 6;
    let rho = [1.0, 1e-8, 1e8, 0.37, 4.0, 1e-100, 3e60];
    let vel = [0.0, 1.0, -1.0, 1e-9, -7e4, 3.3, 1e30, -1e-40];
    let prs = [1.0, 1e-9, 1e7, 0.2, 5e-30, 1e70];
    let gam = [1.4, 5.0 / 3.0, 1.0001, 1.999];
    let mut x = Radix(k);
    let (a, b, p, g) = (*x.of(&rho), *x.of(&vel), *x.of(&prs), *x.of(&gam));
    let d = x.take(3);
    let from_cons = x.take(2) == 1;
    // the fluid of interest in one interior cell, another one around it
    let c = C { ph, s: S, gamma: g, ..C::default() };
    let cfg = c.config();
    let mesh = Mesh::<S>::new(&cfg.mesh_config).map_err(|e| format!("{e:#}"))?;
    let rhs = Rhs::<Hll<E, S>, E, S>::new(&cfg, &mesh).map_err(|e| format!("{e:#}"))?;
    let r = Ref::new(&c, 1.0);
    let mut u = State::<P, E, S>::new(&cfg.physics_config);
    {
        let v = [&mut u.west, &mut u.cent, &mut u.east].into_iter().nth(d).unwrap();
        for i in 0..S {
            let q = if i == 2 { [a, b, p] } else { [1.0, 0.5, 2.0] };
            let cc = r.to_cons1(&[ev(q[0]), ev(q[1]), ev(q[2])][..E]);
            for j in 0..E {
                v.prim[[j, i]] = q[j];
                v.cons[[j, i]] = cc[j].v;
            }
            v.c_sound[i] = p;
        }
    }
    let mut w = World { other: u.clone(), rhs, mesh, r, ops: vec![] };
    // set from one description, then flux, then back and forth
    let seq = if from_cons {
        vec![K::VarsCons, K::Flux, K::Cons, K::Prim]
    } else {
        vec![K::VarsPrim, K::Flux, K::Prim, K::Cons, K::VarsCons]
    };
    let mut path = vec![];
    for k in seq {
        w.ops = vec![Op::D(k, d)];
        let b = u.clone();
        apply(w.ops[0], &mut u, &w.other, &mut w.rhs, &w.mesh);
        explore(&mut w, &b, &mut path, 1, t)?;
    }
    // conversions back and forth return the original values
    let v = dirs(&u)[d];
    let o = dirs(&w.other)[d];
    let e = r_err(&w.r, &col(&o.prim, 2));
    for j in 0..E {
        if e[j].ok() && (v.prim[[j, 2]] - o.prim[[j, 2]]).abs() > e[j].e * 8.0 {
            return Err(format!(
                "prim[{j}] = {:e} became {:e} after conversions back and forth ({d}, {c:?})",
                o.prim[[j, 2]], v.prim[[j, 2]]
            ));
        }
    }
    t.sample(|| format!("{ph:?} rho {a:e} v {b:e} p {p:e} gamma {g} direction {} from_cons {from_cons}", NAMES[d]));
    Ok(())
}
fn r_err(r: &Ref, p: &[Ev]) -> Vec<Ev> {
    r.to_prim1(&r.to_cons1(p))
}

fn init_case(ph: Ph, k: usize, t: &mut Tally) -> CaseResult {
    let mut x = Radix(k);
    let (w, e) = (x.take(N_BC), x.take(N_BC));
    let s = *x.of(&SIZES);
    let hll = x.take(2) == 0;
    let off = x.take(4);
    let c = C {
        ph,
        s,
        fl: if hll { Fl::Hll } else { Fl::Kt(Lim::VanLeer) },
        west: bc_set(ph, w),
        east: bc_set(ph, e),
        ..C::default()
    };
    if s == 5 && (w != 0 || e != 0) {
        return Ok(()); // two interior cells are the least for all but copying rules
    }
    let cells: Vec<_> = (0..s).map(|i| ST[(i * (off + 1) + off) % 8]).collect();
    let init = Init::cells(ph, &cells, 0.7);
    let mut sim = made(&c, &init)?;
    t.states += 1;
    t.transitions += 1;
    let r = Ref::new(&c, 0.7);
    let prim0 = ndarray::Array2::from_shape_fn((ph.e(), s), |(j, i)| init.prim[j][i]);
    let Some((p, cc)) = r.full_from_prim(&exact(&prim0)) else {
        t.skipped += 1;
        return Ok(());
    };
    t.traces += 1;
    for d in DS {
        let v = sim.vars(d);
        for i in 0..s {
            let pc: Vec<Ev> = p.iter().map(|r| r[i]).collect();
            let cs = r.cs1(&pc, i);
            for j in 0..ph.e() {
                for (n, want, have) in [("prim", p[j][i], v.prim[[j, i]]), ("cons", cc[j][i], v.cons[[j, i]])] {
                    if want.ok() && !want.agrees(have) {
                        return Err(format!("after initialisation {n}[{j}] of {d:?} in cell {i} is {have:e}, it should be {:e}\n{c:?}\n{init:?}", want.v));
                    }
                }
            }
            if cs.ok() && !cs.agrees(v.cs[i]) {
                return Err(format!("after initialisation the sound speed of {d:?} in cell {i} is {:e}, it should be {:e}\n{c:?}\n{init:?}", v.cs[i], cs.v));
            }
            if d == D::C {
                for (j, want) in [(0, pc[1] - cs), (ph.e() - 1, pc[1] + cs)] {
                    if want.ok() && !want.agrees(v.ev[[j, i]]) {
                        return Err(format!("after initialisation eigenvalue {j} in cell {i} is {:e}, it should be {:e}\n{c:?}\n{init:?}", v.ev[[j, i]], want.v));
                    }
                }
            }
        }
    }
    Ok(())
}

/// The rows by name: which row of which array every name stands for
fn named<P: Physics<E, S> + 'static, const E: usize, const S: usize>(seed: usize, adiabatic: bool, rows: [Option<usize>; 4], t: &mut Tally) -> CaseResult {
    let c = C::default();
    let mut u = State::<P, E, S>::new(&c.config().physics_config);
    for (n, v) in [&mut u.west, &mut u.cent, &mut u.east].into_iter().enumerate() {
        for i in 0..S {
            for j in 0..E {
                v.prim[[j, i]] = ((seed * 31 + n * 17 + j * 7 + i * 3) % 101) as f64 - 40.5;
                v.cons[[j, i]] = ((seed * 37 + n * 19 + j * 5 + i * 11) % 103) as f64 + 200.25;
            }
            v.c_sound[i] = 1000.0 + i as f64;
        }
    }
    t.states += 3;
    t.traces += 3;
    if u.is_adiabatic() != adiabatic || P::NUM_EQ != E {
        return Err(format!("{}: is_adiabatic() = {}, NUM_EQ = {}", P::name(), u.is_adiabatic(), P::NUM_EQ));
    }
    for v in [&u.west, &u.cent, &u.east] {
        let prim = [P::rho_prim(v), P::xi_vel(v), P::eta_vel(v), P::pressure(v)];
        let cons = [P::rho_cons(v), P::xi_mom(v), P::eta_mom(v), P::energy(v)];
        t.transitions += 8;
        for k in 0..4 {
            let zero = ndarray::Array1::zeros(S);
            let (p, q) = match rows[k] {
                Some(j) => (v.prim.row(j), v.cons.row(j)),
                None => (zero.view(), zero.view()),
            };
            if prim[k] != p || cons[k] != q {
                return Err(format!("{}: quantity {k} is {} / {}, expected {p} / {q}", P::name(), prim[k], cons[k]));
            }
        }
        if v.zero_vec().iter().any(|x| *x != 0.0) || v.zero_vec().len() != S {
            return Err(format!("zero_vec is {}", v.zero_vec()));
        }
    }
    Ok(())
}

fn main() {
    vh::run("C05", |ctx| {
        ctx.group("named rows", 50 * 4, |k, t| {
            use vh::dye::*;
            match k % 4 {
                0 => named::<Euler1DAdiabatic<9>, 3, 9>(k, true, [Some(0), Some(1), None, Some(2)], t),
                1 => named::<Euler1DIsot<6>, 2, 6>(k, false, [Some(0), Some(1), None, None], t),
                2 => named::<AdiDye<7>, 4, 7>(k, true, [Some(0), Some(1), Some(2), Some(3)], t),
                _ => named::<IsoDye<12>, 3, 12>(k, false, [Some(0), Some(1), Some(2), None], t),
            }
        });
        let depth = ctx.pick(3, 4);
        let n = N_BC * ctx.pick(4, 8);
        ctx.note("depth", depth);
        ctx.note("operations", ops().len());
        ctx.group("sequences", n * 2 * ops().len(), |k, t| {
            // first operation fixed per case, the rest explored
            let mut x = Radix(k);
            let first = x.take(ops().len());
            let ph = [Ph::Adi, Ph::Iso][x.take(2)];
            macro_rules! go {
                ($p:ident, $e:literal) => {{
                    let (mut w, u) = world::<$p<6>, $e, 6>(ph, x.0)?;
                    let all = w.ops.clone();
                    w.ops = vec![all[first]];
                    let mut path = vec![];
                    explore(&mut w, &u, &mut path, 1, t)?;
                    let mut a = u.clone();
                    apply(all[first], &mut a, &w.other, &mut w.rhs, &w.mesh);
                    w.ops = all;
                    path.push(w.ops[first]);
                    explore(&mut w, &a, &mut path, depth - 1, t)?;
                }};
            }
            match ph {
                Ph::Adi => go!(Euler1DAdiabatic, 3),
                Ph::Iso => go!(Euler1DIsot, 2),
            }
            t.sample(|| format!("{ph:?} starting with {:?}, world {}", ops()[first], x.0));
            Ok(())
        });
        // longer meshes
        ctx.group("lengths", 3 * 4 * 2 * ops().len(), |k, t| {
            let mut x = Radix(k);
            let first = x.take(ops().len());
            let ph = x.take(2);
            macro_rules! go {
                ($p:ident, $e:literal, $s:literal) => {{
                    let (mut w, u) = world::<$p<$s>, $e, $s>([Ph::Adi, Ph::Iso][ph], 5 * x.0 + 1)?;
                    let all = w.ops.clone();
                    w.ops = vec![all[first]];
                    let mut path = vec![];
                    explore(&mut w, &u, &mut path, 1, t)?;
                    let mut a = u.clone();
                    apply(all[first], &mut a, &w.other, &mut w.rhs, &w.mesh);
                    w.ops = all;
                    path.push(w.ops[first]);
                    explore(&mut w, &a, &mut path, 1, t)
                }};
            }
            match (x.take(3), ph) {
                (0, 0) => go!(Euler1DAdiabatic, 3, 11),
                (0, _) => go!(Euler1DIsot, 2, 11),
                (1, 0) => go!(Euler1DAdiabatic, 3, 37),
                (1, _) => go!(Euler1DIsot, 2, 37),
                (_, 0) => go!(Euler1DAdiabatic, 3, 103),
                (_, _) => go!(Euler1DIsot, 2, 103),
            }
        });
        ctx.group("values", 7 * 8 * 6 * 4 * 3 * 2 * 2, |k, t| {
            if k % 2 == 0 {
                value_case::<Euler1DAdiabatic<6>, 3>(Ph::Adi, k / 2, t)
            } else {
                value_case::<Euler1DIsot<6>, 2>(Ph::Iso, k / 2, t)
            }
        });
        ctx.group("initialised", N_BC * N_BC * SIZES.len() * 2 * 4 * 2, |k, t| {
            init_case(if k % 2 == 0 { Ph::Adi } else { Ph::Iso }, k / 2, t)
        });
    })
}
