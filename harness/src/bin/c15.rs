//! All interleavings of several simulations, and all short histories of one, against runs alone in a fresh process.
use corries::prelude::{DataName, ToStringConversionMode};
use std::collections::BTreeMap;
use std::hash::{Hash, Hasher};
use std::path::Path;
use vh::*;

fn h(x: impl Hash) -> u64 {
    let mut s = std::collections::hash_map::DefaultHasher::new();
    x.hash(&mut s);
    s.finish()
}
const CELLS: [(f64, f64, f64); 5] = [(1.0, 0.3, 1.0), (0.9, -0.2, 1.2), (0.5, 0.45, 0.4), (2.6, 0.6, 3.7), (1.3, -0.1, 0.8)];

/// Configurations that differ in type, size and every parameter; some share the type
fn configs() -> Vec<(C, Init)> {
    let kt = Fl::Kt;
    let d = C::default;
    let v = vec![
        C { rk: Rk::SSPRK5, ..d() },
        C { rk: Rk::RK2, xi: (-3.0, 7.3), gamma: 1.7, west: bc_set(Ph::Adi, 1), ..d() },
        C { rk: Rk::RKF45, asc: Some((1e-3, 1e-4, 0.1)), fl: kt(Lim::VanLeer), ..d() },
        C { rk: Rk::Heun2, asc: Some((1e-6, 1e-5, 0.3)), fl: kt(Lim::VanLeer), cfl: 0.2, ..d() },
        C { ph: Ph::Iso, rk: Rk::RK1, ..d() },
        C { ph: Ph::Iso, rk: Rk::RK4, fl: kt(Lim::Monocent(1.2)), xi: (100.0, 101.0), ..d() },
        C { ph: Ph::Iso, rk: Rk::RK3, fl: kt(Lim::Monocent(2.0)), east: bc_set(Ph::Iso, 2), t0: 3.0, ..d() },
        C { s: 9, rk: Rk::SSPRK3, fl: kt(Lim::MinMod), west: bc_set(Ph::Adi, 3), ..d() },
        C { s: 36, rk: Rk::SSPRK5, fl: kt(Lim::Superbee), dt_max: 0.01, ..d() },
        C { s: 8, rk: Rk::RKF12, fl: kt(Lim::NoLimiter), east: bc_set(Ph::Adi, 5), ..d() },
    ];
    v.into_iter()
        .enumerate()
        .map(|(k, mut c)| {
            c.t_end = c.t0 + 10.0;
            c.outputs = 4;
            let cells: Vec<_> = (0..c.s - 4).map(|i| CELLS[(i + k) % 5]).collect();
            let i = Init::interior(c.ph, &cells, 0.5 + 0.1 * k as f64);
            (c, i)
        })
        .collect()
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Op {
    New,
    Step,
    Output,
    Drop,
}
const STEPS: [Op; 5] = [Op::New, Op::Step, Op::Step, Op::Step, Op::Drop];
const OUTS: [Op; 5] = [Op::New, Op::Output, Op::Step, Op::Output, Op::Drop];
const SHORT: [Op; 4] = [Op::New, Op::Step, Op::Step, Op::Drop];

struct Machine<'a> {
    c: &'a (C, Init),
    dir: Option<&'a Path>,
    s: Option<Box<dyn Sim>>,
}
impl Machine<'_> {
    /// Hash of everything visible afterwards
    fn op(&mut self, op: Op) -> Result<u64, String> {
        let (c, init) = self.c;
        match op {
            Op::New => {
                let streams = match self.dir {
                    None => vec![],
                    Some(d) => {
                        let a = file_stream(d, "a", vec![DataName::T, DataName::Dt, DataName::Iter]);
                        let mut b = file_stream(d, "b", vec![DataName::XiCent, DataName::Prim(1), DataName::Cons(0)]);
                        b.string_conversion_mode = ToStringConversionMode::Vector;
                        b.should_print_metadata = true;
                        vec![a, b]
                    }
                };
                let mut s = make_cfg(c.ph, c.s, &c.config_with(streams), init).map_err(|e| format!("{e:#}"))?;
                s.ts().t_next_output = c.t_end;
                self.s = Some(s);
            }
            Op::Step => {
                if let Err(e) = self.s.as_mut().unwrap().step() {
                    return Ok(h(format!("{e:#}")));
                }
            }
            Op::Output => self.s.as_mut().unwrap().output().map_err(|e| format!("{e:#}"))?,
            Op::Drop => self.s = None,
        }
        let files = match self.dir {
            Some(d) if op != Op::Step => {
                // (the metadata holds the folder's name)
                let t: BTreeMap<_, _> = tree(d).into_iter().filter(|x| !x.0.contains("metadata")).collect();
                h(t)
            }
            _ => 0,
        };
        Ok(h((self.s.as_mut().map(|s| bits(s.as_mut())), files)))
    }
}
fn trace(c: &(C, Init), dir: Option<&Path>, ops: &[Op]) -> Result<Vec<u64>, String> {
    let mut m = Machine { c, dir, s: None };
    ops.iter().map(|o| m.op(*o)).collect()
}

/// k-th interleaving: sequence of machine numbers
fn interleavings(lens: &[usize]) -> Vec<Vec<u8>> {
    fn rec(left: &mut Vec<usize>, cur: &mut Vec<u8>, out: &mut Vec<Vec<u8>>) {
        if left.iter().all(|x| *x == 0) {
            out.push(cur.clone());
            return;
        }
        for i in 0..left.len() {
            if left[i] > 0 {
                left[i] -= 1;
                cur.push(i as u8);
                rec(left, cur, out);
                cur.pop();
                left[i] += 1;
            }
        }
    }
    let mut out = vec![];
    rec(&mut lens.to_vec(), &mut vec![], &mut out);
    out
}

/// Initial states for histories; the last ones lead to errors
fn history_states(ph: Ph, s: usize) -> Vec<Init> {
    let mk = |f: &dyn Fn(usize) -> (f64, f64, f64), cs| Init::interior(ph, &(0..s - 4).map(f).collect::<Vec<_>>(), cs);
    vec![
        mk(&|i| CELLS[i % 5], 0.9),
        mk(&|i| (1.0, 0.3 + 0.01 * i as f64, 1.0), 2.0),
        mk(&|i| if i % 2 == 0 { (1.0, 5.0, 0.5) } else { (0.1, -4.0, 3.0) }, 0.3),
        // quiet, nearly the same, mirrored, with little in- and outflow at the ends, far larger and far smaller
        mk(&|_| (1.0, 0.0, 1.0), 1.0),
        mk(&|i| (1.0, 0.3 + 0.01 * i as f64 + 1e-13, 1.0), 2.0),
        mk(&|i| { let c = CELLS[(s - 5 - i) % 5]; (c.0, -c.1, c.2) }, 0.9),
        mk(&|i| (1.0, if i == 0 { 1e-3 } else { -3e-3 }, 1.0), 1.0),
        mk(&|i| (1.0, if i == 0 { -1e-3 } else { 3e-3 }, 1.0), 1.0),
        mk(&|i| (1e6 + i as f64, 20.0, 1e7), 40.0),
        mk(&|i| (1e-6, -1e-4 * i as f64, 1e-9), 1e-2),
        mk(&|i| if i == 1 { (f64::NAN, 0.0, 1.0) } else { (1.0, 0.0, 1.0) }, 1.0),
        mk(&|i| if i == 2 { (1.0, 0.0, -1.0) } else { (1.0, f64::INFINITY, 1.0) }, 1.0),
    ]
}

fn main() {
    let cs = configs();
    // a run alone in a fresh process
    if let Ok(x) = std::env::var("VH_SOLO") {
        let (k, kind) = x.split_once('.').unwrap();
        let c = &cs[k.parse::<usize>().unwrap()];
        unsafe {
            libc::setenv(c"OPENBLAS_NUM_THREADS".as_ptr(), c"1".as_ptr(), 1);
            libc::setenv(c"RUST_BACKTRACE".as_ptr(), c"0".as_ptr(), 1);
        }
        let d = scratch();
        let d = d.join("o");
        let r = match kind {
            "steps" => trace(c, None, &STEPS),
            "outs" => trace(c, Some(&d), &OUTS),
            _ => trace(c, None, &SHORT),
        };
        cleanup();
        match r {
            Ok(v) => eprintln!("TRACE {}", v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" ")),
            Err(e) => eprintln!("FAILED {e}"),
        }
        return;
    }
    vh::run("C15", |ctx| {
        let exe = std::env::current_exe().unwrap();
        let mut solo: BTreeMap<(usize, &str), Vec<u64>> = BTreeMap::new();
        for k in 0..cs.len() {
            for kind in ["steps", "outs", "short"] {
                let out = std::process::Command::new(&exe).env("VH_SOLO", format!("{k}.{kind}")).stdout(std::process::Stdio::null()).output().expect("cannot start the check again");
                let err = String::from_utf8_lossy(&out.stderr).into_owned();
                match err.lines().find_map(|l| l.strip_prefix("TRACE ")) {
                    Some(l) => {
                        solo.insert((k, kind), l.split(' ').map(|x| x.parse().unwrap()).collect());
                    }
                    None => {
                        ctx.violation(format!("alone:{k}"), format!("a simulation on its own fails: {err}\n{:?}", cs[k]));
                        return;
                    }
                }
            }
        }
        let dir = scratch();
        let run = |ids: &[usize], kind: &'static str, order: &[u8], dirs: &[Option<std::path::PathBuf>], t: &mut Tally| -> CaseResult {
            let ops: &[Op] = match kind {
                "steps" => &STEPS,
                "outs" => &OUTS,
                _ => &SHORT,
            };
            let mut ms: Vec<_> = ids.iter().zip(dirs).map(|(i, d)| Machine { c: &cs[*i], dir: d.as_deref(), s: None }).collect();
            let mut at = vec![0; ids.len()];
            for m in order {
                let m = *m as usize;
                let x = ms[m].op(ops[at[m]]);
                t.transitions += 1;
                let want = solo[&(ids[m], kind)][at[m]];
                if x != Ok(want) {
                    return Err(format!(
                        "simulation {m} of configurations {ids:?} is in another state after operation {} ({:?}) than alone (result {x:?}); interleaving {order:?}\n{:?}",
                        at[m], ops[at[m]], ids.iter().map(|i| &cs[*i].0).collect::<Vec<_>>()
                    ));
                }
                at[m] += 1;
            }
            t.states += 1;
            t.traces += ids.len() as u64;
            Ok(())
        };
        let n = cs.len();
        let two = interleavings(&[5, 5]);
        ctx.note("interleavings of two", two.len());
        ctx.group("two simulations", n * n * two.len(), |k, t| {
            let mut r = Radix(k);
            let ids = [r.take(n), r.take(n)];
            let o = r.of(&two);
            t.sample(|| format!("{ids:?} {o:?}"));
            run(&ids, "steps", o, &[None, None], t)
        });
        ctx.group("two simulations with outputs", n * n * two.len(), |k, t| {
            if !ctx.thorough() && k % (n * n) >= n * 4 {
                return Ok(());
            }
            let mut r = Radix(k);
            let ids = [r.take(n), r.take(n)];
            let o = r.of(&two);
            let d = dir.join(format!("p{k}"));
            let x = run(&ids, "outs", o, &[Some(d.join("a")), Some(d.join("b"))], t);
            let _ = std::fs::remove_dir_all(d);
            x
        });
        let three = interleavings(&[4, 4, 4]);
        ctx.note("interleavings of three", three.len());
        let triples: Vec<[usize; 3]> = if ctx.thorough() {
            (0..n * n).map(|k| [k % n, k / n, (k % n + k / n + 1) % n]).collect()
        } else {
            (0..n).map(|k| [k, (k + 1) % n, (k * 3 + 2) % n]).collect()
        };
        ctx.group("three simulations", triples.len() * three.len(), |k, t| {
            let mut r = Radix(k);
            let ids = *r.of(&triples);
            run(&ids, "short", r.of(&three), &[None, None, None], t)
        });
        // histories: what a simulation computed before must not matter without step control
        let depth = ctx.pick(3, 5);
        let fl = fluxes();
        let nh = history_states(Ph::Iso, 9).len();
        let history = |c: C, hist: &[usize], often: usize, t: &mut Tally| -> CaseResult {
            let st = history_states(c.ph, c.s);
            // last element: the state to be compared, on a fresh simulation and on the used one
            let (&last, before) = hist.split_last().unwrap();
            let mut a = made(&c, &st[last])?;
            a.ts().t_next_output = c.t_end;
            let time = a.ts().clone();
            let mut b = made(&c, &st[before[0]])?;
            b.ts().t_next_output = c.t_end;
            for (k, x) in before.iter().enumerate() {
                if k > 0 {
                    b.set(&st[*x]);
                }
                for _ in 0..often {
                    let _ = b.step();
                    t.transitions += 1;
                }
            }
            b.set(&st[last]);
            *b.ts() = time;
            if !h_eq(a.as_mut(), b.as_mut()) {
                return Err(format!("setting state {last} after history {before:?} gives another state than on a new simulation\n{c:?}"));
            }
            for n in 0..2 {
                let (x, y) = (a.step(), b.step());
                t.transitions += 2;
                if x.is_ok() != y.is_ok() {
                    return Err(format!("step {n} from state {last}: {x:?} on a new simulation, {y:?} after history {before:?}\n{c:?}"));
                }
                if x.is_err() {
                    break;
                }
                if !h_eq(a.as_mut(), b.as_mut()) {
                    return Err(format!("step {n} from state {last} depends on the history {before:?}:\n{}\n{}\n{c:?}", short(a.cons()), short(b.cons())));
                }
            }
            t.states += 1;
            t.traces += 1;
            Ok(())
        };
        ctx.group("histories", 2 * fl.len() * RKS.len() * nh.pow(depth as u32), |k, t| {
            let mut r = Radix(k);
            let ph = *r.of(&[Ph::Adi, Ph::Iso]);
            let f = *r.of(&fl);
            let rk = *r.of(&RKS);
            let hist: Vec<_> = (0..depth).map(|_| r.take(nh)).collect();
            history(C { ph, rk, s: 9, fl: f, west: bc_set(ph, 1), ..C::default() }, &hist, 2, t)
        });
        // every pair of boundary rules, for the velocity only and for everything
        let depth = ctx.pick(2, 3);
        ctx.group("histories and boundaries", 2 * 2 * 8 * 8 * 2 * nh.pow(depth as u32), |k, t| {
            let mut r = Radix(k);
            let ph = *r.of(&[Ph::Adi, Ph::Iso]);
            let fl = *r.of(&[Fl::Hll, Fl::Kt(Lim::VanLeer)]);
            let (w, e) = (*r.of(&BMS), *r.of(&BMS));
            let all = r.take(2) == 1;
            let rules = |m: Bm| (0..ph.e()).map(|j| (j, if all || j == 1 { m } else { Bm::NoGradients })).collect::<Vec<_>>();
            let hist: Vec<_> = (0..depth).map(|_| r.take(nh)).collect();
            history(C { ph, rk: Rk::RK2, s: 9, fl, west: Some(rules(w)), east: Some(rules(e)), ..C::default() }, &hist, 3, t)
        });
        // long histories, and other mesh sizes
        ctx.group("long histories", 2 * fl.len() * RKS.len() * 3 * nh * nh, |k, t| {
            let mut r = Radix(k);
            let ph = *r.of(&[Ph::Adi, Ph::Iso]);
            let f = *r.of(&fl);
            let rk = *r.of(&RKS);
            let s = *r.of(&[7, 9, 36]);
            let hist = [r.take(nh), r.take(nh)];
            history(C { ph, rk, s, fl: f, east: bc_set(ph, 2), ..C::default() }, &hist, if k % 7 == 0 { ctx.pick(260, 1100) } else { 20 }, t)
        });
    });
}
/// cells and time, without the faces (they are working memory)
fn h_eq(a: &mut dyn Sim, b: &mut dyn Sim) -> bool {
    let f = |s: &mut dyn Sim| {
        let mut v: Vec<u64> = vec![];
        let x = s.vars(D::C);
        v.extend(x.prim.iter().chain(x.cons.iter()).chain(x.cs.iter()).map(|x| if x.is_nan() { u64::MAX } else { x.to_bits() }));
        let t = s.ts();
        v.extend([t.t.to_bits(), t.dt.to_bits(), t.iter as u64]);
        v
    };
    f(a) == f(b)
}
