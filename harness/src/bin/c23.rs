//! The same simulations in two builds, with and without run-time validation, compared bit by bit.
//! `c23 --dump <file> <tier>` computes the outcomes in this build; the check compares them with those of the other one.
use corries::prelude::*;
use std::hash::Hasher;
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
use std::sync::Mutex;
use vh::*;

const S: usize = 8;
fn fnv(v: &[u8]) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    h.write(v);
    h.finish()
}
fn fnv64(v: &[u64]) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    for x in v {
        h.write_u64(*x);
    }
    h.finish()
}
/// One outcome per step: 0 = error (followed by a hash of its text and of what it left behind), otherwise a hash of the state
type Out = Vec<u64>;

struct Space {
    thorough: bool,
    pals: Vec<Vec<(f64, f64, f64)>>,
    bcs: Vec<Option<Vec<(usize, Bm)>>>,
    dir: std::path::PathBuf,
}
const PH: [Ph; 2] = [Ph::Adi, Ph::Iso];
impl Space {
    fn new(thorough: bool) -> Space {
        let a = [(1.0, 0.0, 1.0), (0.125, 0.0, 0.1), (1.0, 3.0, 0.5), (0.6, -2.5, 0.01), (1e-3, -0.1, 50.0)];
        let q = if thorough { 5 } else { 4 };
        let mut pals = vec![];
        for i in 0..(q as usize).pow(4) {
            let mut x = Radix(i);
            pals.push((0..4).map(|_| a[x.take(q)]).collect());
        }
        // unphysical and extreme ones
        for bad in [
            (-1.0, 0.0, 1.0),
            (1.0, 0.0, -1.0),
            (f64::NAN, 0.0, 1.0),
            (1.0, f64::INFINITY, 1.0),
            (0.0, 0.0, 1.0),
            (1.0, 0.0, 0.0),
            (1e200, 1e60, 1e250),
            (1e-200, 1.0, 1e-250),
            (1.0, f64::NAN, 1.0),
            (1.0, -1e160, 1.0),
            (1e-16, 0.0, 1e16),
        ] {
            for p in 0..4 {
                let mut v = vec![(1.0, 0.3, 1.0); 4];
                v[p] = bad;
                pals.push(v);
            }
            pals.push(vec![bad; 4]);
        }
        let dir = scratch();
        Space { thorough, pals, bcs: (0..N_BC).map(|k| bc_set(Ph::Adi, k)).collect(), dir }
    }
    fn n_steps(&self) -> usize {
        2 * 8 * 9 * 2 * self.n_bc() * self.pals.len()
    }
    fn n_bc(&self) -> usize {
        if self.thorough {
            N_BC
        } else {
            3
        }
    }
    fn n_runs(&self) -> usize {
        2 * 8 * 9 * 2 * 12 * 3
    }
    fn n_init(&self) -> usize {
        2 * 2 * 60 * SIZES.len()
    }
    fn len(&self) -> usize {
        self.n_steps() + self.n_runs() + self.n_init() + self.n_sizes()
    }
    fn n_sizes(&self) -> usize {
        2 * 8 * 9 * 2 * SIZES.len() * if self.thorough { 6 } else { 2 }
    }
    fn bc(&self, ph: Ph, k: usize) -> Option<Vec<(usize, Bm)>> {
        self.bcs[k].clone().map(|mut v| {
            v.retain(|x| x.0 < ph.e());
            v
        })
    }
    fn conf(&self, x: &mut Radix) -> C {
        let ph = PH[x.take(2)];
        let fl = fluxes()[x.take(8)];
        let rk = RKS[x.take(9)];
        let asc = [None, Some((1e-4, 1e-3, 0.08))][x.take(2)];
        C { ph, s: S, fl, rk, asc, iter_max: 300, ..C::default() }
    }
    fn text(&self, i: usize) -> String {
        let (k, mut x) = self.kind(i);
        match k {
            0 => {
                let (c, init) = self.step_case(&mut x);
                format!("{c:?}\n{init:?}")
            },
            1 => {
                let (c, init) = self.run_case(&mut x);
                format!("run with outputs: {c:?}\n{init:?}")
            },
            2 => format!("{:?}", self.init_case(&mut x)),
            _ => {
                let (c, init) = self.size_case(&mut x);
                format!("{c:?}\n{init:?}")
            },
        }
    }
    fn kind(&self, i: usize) -> (usize, Radix) {
        if i < self.n_steps() {
            (0, Radix(i))
        } else if i < self.n_steps() + self.n_runs() {
            (1, Radix(i - self.n_steps()))
        } else if i < self.n_steps() + self.n_runs() + self.n_init() {
            (2, Radix(i - self.n_steps() - self.n_runs()))
        } else {
            (3, Radix(i - self.n_steps() - self.n_runs() - self.n_init()))
        }
    }
    fn step_case(&self, x: &mut Radix) -> (C, Init) {
        let mut c = self.conf(x);
        let b = x.take(self.n_bc());
        c.west = self.bc(c.ph, b);
        c.east = self.bc(c.ph, (b + 1) % self.n_bc());
        let init = Init::interior(c.ph, &self.pals[x.take(self.pals.len())], 1.0);
        (c, init)
    }
    fn size_case(&self, x: &mut Radix) -> (C, Init) {
        let mut c = self.conf(x);
        c.s = SIZES[x.take(SIZES.len())];
        c.xi = (1.1, 1.1 + 0.2 * (c.s - 4) as f64);
        let b = x.0 % N_BC;
        if c.s > 5 {
            c.west = self.bc(c.ph, b);
            c.east = self.bc(c.ph, (b + 3) % N_BC);
        }
        let a = [(1.0, 0.2, 1.0), (0.4, 0.0, 0.3), (1.0, 1.0, 0.5), (0.6, -0.7, 0.2), (0.8, -0.1, 2.0)];
        let cells: Vec<_> = (0..c.s - 4).map(|i| a[(i * i + i / 3 + x.0) % 5]).collect();
        let init = Init::interior(c.ph, &cells, 0.9);
        (c, init)
    }
    fn run_case(&self, x: &mut Radix) -> (C, Init) {
        let mut c = self.conf(x);
        let k = x.take(12);
        c.t_end = 0.2;
        c.outputs = 3;
        let p = &self.pals[[0, 5, 27, 100, 150, 200, 255, 33, 66, 99, self.pals.len() - 3, self.pals.len() - 20][k]];
        let init = Init::interior(c.ph, p, 1.0);
        // runs that end with an error which has nothing to do with validation
        match x.0 % 3 {
            0 => {},
            1 => c.iter_max = 2 + k,
            _ => c.dt_min = 0.01,
        }
        (c, init)
    }
    fn init_case(&self, x: &mut Radix) -> C {
        let ph = PH[x.take(2)];
        let fl = [Fl::Hll, Fl::Kt(Lim::VanLeer)][x.take(2)];
        let s = SIZES[x.take(SIZES.len())];
        let k = x.take(60);
        let xi = [(1.0, 2.0), (-1.0, 1.0), (0.0, 1.0), (1e-200, 1.0), (1e200, 1e201), (-5.0, -1e-9), (1.0, f64::INFINITY), (2.0, 1.0), (f64::NAN, 1.0), (1.0, 1.0 + 1e-12)][k % 10];
        let gamma = [1.4, 1.0, 2.0, 1.999, f64::NAN, 1.0000001][k / 10];
        C { ph, fl, s, xi, gamma, ..C::default() }
    }
    fn outcome(&self, i: usize) -> Out {
        let (k, mut x) = self.kind(i);
        let mut out = vec![];
        match k {
            0 | 3 => {
                let (c, init) = if k == 0 { self.step_case(&mut x) } else { self.size_case(&mut x) };
                let Ok(Ok(mut s)) = guard(|| make(&c, &init)) else { return vec![0] };
                s.ts().t_next_output = 0.1;
                out.push(fnv64(&bits(&mut *s)));
                for _ in 0..4 {
                    match guard(|| s.step()) {
                        Ok(Ok(())) => out.push(fnv64(&bits(&mut *s))),
                        e => {
                            out.push(0);
                            out.push(text_of(e));
                            out.push(fnv64(&bits(&mut *s)));
                            break;
                        },
                    }
                    if s.ts().t >= 0.1 {
                        s.ts().t_next_output = 0.2;
                    }
                }
            },
            1 => {
                let (c, init) = self.run_case(&mut x);
                let d = self.dir.join(format!("{:?}", std::thread::current().id()));
                let _ = std::fs::remove_dir_all(&d);
                let mut a = file_stream(&d, "a", vec![DataName::T, DataName::Iter, DataName::Dt, DataName::DtKind]);
                a.should_print_metadata = true;
                // the folder's name is part of the metadata
                let mut b = file_stream(&d, "b", vec![DataName::T, DataName::Prim(0), DataName::Cons(1), DataName::CSound, DataName::XiCent]);
                b.string_conversion_mode = ToStringConversionMode::Vector;
                b.should_print_ghostcells = true;
                let cfg = c.config_with(vec![a, b]);
                let Ok(Ok(mut s)) = guard(|| make_cfg(c.ph, c.s, &cfg, &init)) else { return vec![0] };
                let res = guard(|| s.run());
                if !matches!(res, Ok(Ok(()))) {
                    out.push(0);
                    out.push(text_of(res));
                }
                for (n, c) in tree(&d) {
                    out.push(fnv(n.as_bytes()));
                    let mut c = c.unwrap_or_default();
                    if n.contains("metadata") {
                        let text = String::from_utf8_lossy(&c).replace(&d.display().to_string(), "D");
                        c = text.into_bytes();
                    }
                    out.push(fnv(&c));
                }
                out.push(fnv64(&bits(&mut *s)));
            },
            _ => {
                let c = self.init_case(&mut x);
                match guard(|| make(&c, &Init::uniform(c.ph, c.s, (1.0, 0.5, 1.0), 1.0))) {
                    Ok(Ok(mut s)) => out.push(fnv64(&bits(&mut *s))),
                    _ => out.push(0),
                }
            },
        }
        out
    }
}
fn text_of(r: Result<color_eyre::Result<()>, String>) -> u64 {
    match r {
        Ok(Ok(())) => 1,
        Ok(Err(e)) => fnv(format!("{e:#}").as_bytes()),
        Err(p) => fnv(p.as_bytes()),
    }
}
fn dump(file: &str, thorough: bool) {
    std::panic::set_hook(Box::new(|_| {}));
    let sp = Space::new(thorough);
    let n = sp.len();
    let all: Mutex<Vec<Out>> = Mutex::new(vec![vec![]; n]);
    let next = AtomicUsize::new(0);
    std::thread::scope(|s| {
        for _ in 0..workers() {
            s.spawn(|| loop {
                let i0 = next.fetch_add(256, Relaxed);
                if i0 >= n {
                    break;
                }
                let part: Vec<Out> = (i0..(i0 + 256).min(n)).map(|i| sp.outcome(i)).collect();
                let mut a = all.lock().unwrap();
                for (k, o) in part.into_iter().enumerate() {
                    a[i0 + k] = o;
                }
            });
        }
    });
    let mut buf: Vec<u8> = vec![];
    buf.extend((cfg!(feature = "validation") as u64).to_le_bytes());
    buf.extend((n as u64).to_le_bytes());
    for o in all.into_inner().unwrap() {
        buf.extend((o.len() as u64).to_le_bytes());
        for x in o {
            buf.extend(x.to_le_bytes());
        }
    }
    std::fs::write(file, buf).unwrap();
    vh::scratch::cleanup();
    std::process::exit(0);
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.get(1).is_some_and(|x| x == "--dump") {
        dump(&a[2], a[3] == "thorough");
    }
    vh::run("C23", |ctx| {
        let place = scratch();
        let exe = std::env::var("VH_NOVALIDATION").unwrap_or_else(|_| {
            format!("{}/harness/target/c23-novalidation", std::env::var("VH_DIR").unwrap_or("/verif".into()))
        });
        let file = place.join("outcomes");
        let st = std::process::Command::new(&exe)
            .args(["--dump", file.to_str().unwrap(), if ctx.thorough() { "thorough" } else { "quick" }])
            .stdout(std::process::Stdio::null())
            .stderr(std::process::Stdio::null())
            .status();
        assert!(matches!(&st, Ok(s) if s.success()), "the build without validation could not be run: {exe} {st:?}");
        let buf = std::fs::read(&file).unwrap();
        let mut it = buf.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap()));
        assert!(it.next() == Some(0) && cfg!(feature = "validation"), "the two builds do not differ in the feature");
        let sp = Space::new(ctx.thorough());
        let n = it.next().unwrap() as usize;
        assert_eq!(n, sp.len());
        let other: Vec<Out> = (0..n)
            .map(|_| {
                let l = it.next().unwrap();
                (0..l).map(|_| it.next().unwrap()).collect()
            })
            .collect();
        let stopped = AtomicUsize::new(0);
        ctx.group("two builds", n, |i, t| {
            let with = sp.outcome(i);
            let without = &other[i];
            t.states += 1;
            t.transitions += 2 * with.len() as u64;
            t.traces += 1;
            for (k, x) in with.iter().enumerate() {
                if *x == 0 && (without.get(k) != Some(&0) || without.get(k + 1) != with.get(k + 1)) {
                    // stopped here by validation; the build without it may go on
                    stopped.fetch_add(1, Relaxed);
                    return Ok(());
                }
                if without.get(k) != Some(x) {
                    return Err(format!(
                        "result {k} differs: with validation {with:x?}, without {without:x?} (0: error)\n{}",
                        sp.text(i)
                    ));
                }
            }
            if with.len() != without.len() {
                return Err(format!("with validation {with:x?}, without {without:x?}\n{}", sp.text(i)));
            }
            t.sample(|| format!("{} results agree: {}", with.len(), sp.text(i)));
            Ok(())
        });
        ctx.note("stopped_by_an_error", stopped.load(Relaxed));
    })
}
