//! All work orders, thread assignments and interleavings (up to a preemption bound) of the parallel output.
use corries::prelude::*;
use std::collections::HashSet;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use vh::*;
use vhrt::{execute, Mode, Outcome};

#[derive(Clone, Copy, Debug, PartialEq)]
enum What {
    /// this many outputs of a prepared simulation, of which the first so many are written beforehand
    Outputs(usize, usize),
    /// initialisation with metadata
    Init,
    /// a whole run
    Run,
    /// a step of the simulation: HLL, Kurganov-Tadmor, the latter with step control
    Step(u8),
    /// an output while the folders of the file streams in this set (bits) are gone
    Broken(u32),
    /// initialisation with metadata while such files cannot be created
    BrokenInit(u32),
}
impl What {
    fn broken(self) -> bool {
        matches!(self, What::Broken(_) | What::BrokenInit(_))
    }
}
#[derive(Clone, Debug)]
struct Sc {
    name: &'static str,
    /// (folder or "" for standard output, file name, vector?, columns, metadata?)
    streams: Vec<(&'static str, &'static str, bool, usize, bool)>,
    what: What,
    mode: Mode,
    bound: u8,
    /// most deviations from the default order in total, free ones included
    devs: usize,
    /// explore which thread executes which task?
    swap: bool,
    threads: usize,
    tsv: bool,
}
fn scenarios(thorough: bool) -> Vec<Sc> {
    let out = |vector, n| ("", "o", vector, n, false);
    let file = |d, f, vector, n| (d, f, vector, n, false);
    let meta = |d, f| (d, f, false, 1, true);
    let sc = |name, streams: &[(&'static str, &'static str, bool, usize, bool)], what, mode, bound, swap, threads| Sc {
        name,
        streams: streams.to_vec(),
        what,
        mode,
        bound,
        devs: 99,
        swap,
        threads,
        tsv: false,
    };
    let two = [out(false, 1), out(false, 2)];
    let mixed = [out(false, 2), out(true, 2)];
    let files = [file("a", "o", false, 2), file("a", "o", true, 1)];
    let three = [out(false, 2), file("a", "s", false, 2), out(true, 1)];
    let four = [file("a", "s", false, 2), out(false, 2), file("a", "t", true, 1), out(true, 2)];
    let five = [out(false, 1), file("a", "s", false, 2), out(true, 2), file("b", "t", true, 1), out(false, 2)];
    let metas = [meta("", "o"), meta("a", "p"), meta("", "o")];
    use Mode::*;
    use What::*;
    let mut v = vec![
        sc("two stdout streams", &two, Outputs(1, 0), Full, 1, true, 4),
        sc("two stdout streams, second output", &two, Outputs(2, 1), Full, 1, true, 4),
        sc("scalar and vector stdout", &mixed, Outputs(1, 0), Full, 1, true, 4),
        sc("scalar and vector file", &files, Outputs(1, 0), Full, 1, true, 4),
        sc("scalar and vector file, second output", &files, Outputs(2, 1), Full, 1, true, 4),
        sc("three streams", &three, Outputs(1, 0), Full, 1, true, 4),
        sc("four streams", &four, Outputs(1, 0), Shared, 1, false, 8),
        sc("metadata", &metas, Init, Full, 1, true, 4),
        sc("two outputs in a row", &three, Outputs(2, 0), Shared, 1, true, 4),
        sc("five streams, every order", &five, Outputs(1, 0), Io, 0, true, 8),
        sc("four streams, less splitting", &four, Outputs(1, 0), Shared, 1, false, 2),
        sc("three streams, no splitting", &three, Outputs(1, 0), Shared, 1, true, 1),
        sc("two stdout streams, two preemptions", &two, Outputs(2, 1), Shared, 2, false, 4),
        sc("scalar and vector file, two preemptions", &files, Outputs(2, 1), Shared, 2, false, 4),
        sc("last stream broken", &[file("a", "s", false, 2), out(true, 1), file("b", "t", true, 1)], Broken(4), Shared, 1, true, 4),
        sc("first stream broken", &[file("b", "t", true, 1), file("a", "s", false, 2), out(true, 1)], Broken(1), Shared, 1, true, 4),
        sc("two of four streams broken", &[file("a", "s", false, 2), file("b", "t", true, 1), file("c", "s", false, 1), out(false, 1)], Broken(6), Shared, 1, false, 8),
        sc("metadata of two of three streams broken", &[meta("a", "s"), meta("b", "t"), meta("c", "s")], BrokenInit(3), Shared, 1, true, 4),
        Sc { devs: if thorough { 4 } else { 2 }, ..sc("whole run", &three, Run, Io, 1, true, 4) },
    ];
    for s in &mut v {
        if ["four streams", "two outputs in a row", "four streams, less splitting"].contains(&s.name) {
            s.devs = if thorough { 4 } else { 3 };
        }
    }
    // streams that share folders, names and parts of names
    v.push(sc("two vector files in one folder", &[file("a", "o", true, 1), file("a", "p", true, 2)], Outputs(1, 0), Full, 1, true, 4));
    v.push(sc("one name in two formats, vector", &[file("a", "o", true, 2), file("a", "o~", true, 2)], Outputs(2, 1), Full, 1, true, 4));
    v.push(sc("one name in two formats, scalar", &[file("a", "o", false, 2), file("a", "o~", false, 1)], Outputs(2, 1), Full, 1, true, 4));
    v.push(sc("one name in two folders", &[file("a", "o", true, 1), file("b", "o", true, 1)], Outputs(1, 0), Full, 1, true, 4));
    v.push(sc("two scalar files, two outputs", &[file("a", "o", false, 1), file("a/b", "o", false, 2)], Outputs(2, 0), Shared, 1, true, 4));
    v.push(sc("first output of two scalar files", &[file("a", "o", false, 1), file("a", "o_", false, 1)], Outputs(1, 0), Full, 1, true, 4));
    v.push(sc("metadata of two files", &[("a", "o", true, 1, true), ("a", "o", false, 1, true), ("a", "p~", true, 1, true)], Init, Full, 1, true, 4));
    // the parallel loops of the fluxes
    for (name, k, mode, devs) in [
        ("step with HLL", 0, Shared, if thorough { 3 } else { 2 }),
        ("step with HLL, every order", 0, Io, if thorough { 3 } else { 2 }),
        ("step with Kurganov-Tadmor", 1, Shared, if thorough { 2 } else { 1 }),
        ("step with Kurganov-Tadmor, every order", 1, Io, if thorough { 3 } else { 2 }),
        ("step with step control", 2, Shared, 1),
        ("step with step control, every order", 2, Io, if thorough { 2 } else { 1 }),
    ] {
        v.push(Sc { devs, ..sc(name, &[], Step(k), mode, 1, true, 4) });
    }
    let mut t = v[2].clone();
    t.tsv = true;
    t.name = "scalar and vector stdout, TSV";
    t.mode = Shared;
    v.push(t);
    if thorough {
        for s in &mut v {
            match (s.name, s.mode, s.what, s.bound) {
                ("two stdout streams, second output", ..) => s.bound = 2,
                ("scalar and vector file, second output", ..) => s.bound = 2,
                ("three streams, no splitting", ..) => s.bound = 2,
                ("four streams, less splitting", ..) => s.bound = 2,
                ("last stream broken" | "first stream broken", ..) => s.bound = 2,
                _ => (),
            }
        }
        v.push(sc("three streams, two preemptions", &three, Outputs(2, 1), Shared, 2, false, 4));
        v.push(sc("four streams, all accesses", &four, Outputs(1, 0), Full, 1, false, 8));
        v.push(sc("metadata, two preemptions", &metas, Init, Shared, 2, false, 4));
        v.push(sc("two outputs in a row, all accesses", &two, Outputs(2, 0), Full, 1, true, 4));
        v.push(sc("two outputs of four streams, every order and thread", &four, Outputs(2, 0), Io, 0, true, 8));
        v.push(sc("three outputs of two streams, every order and thread", &mixed, Outputs(3, 0), Shared, 1, true, 4));
        v.push(sc("four streams, three preemptions at file operations", &two, Outputs(2, 1), Io, 3, true, 8));
    }
    v
}
fn config(s: &Sc, root: &Path, only: Option<usize>) -> CorriesConfig {
    let mut c = C { ph: Ph::Iso, s: 6, t_end: 0.02, outputs: 2, ..C::default() };
    if let What::Step(k) = s.what {
        c = C { ph: Ph::Adi, s: 8, t_end: 9.0, ..C::default() };
        if k > 0 {
            c.fl = Fl::Kt(Lim::VanLeer);
        }
        if k > 1 {
            c.s = 6;
            c.rk = Rk::RKF12;
            c.asc = Some((1.0, 1.0, 0.08));
        }
    }
    let mut w = vec![];
    for (k, (d, f, vector, n, meta)) in s.streams.iter().enumerate() {
        if only.is_some_and(|o| o != k) {
            continue;
        }
        let mut names = if *vector { vec![DataName::Prim(k % 2), DataName::XiCent] } else { vec![DataName::T, DataName::Iter] };
        // a "~" marks TSV
        let (f, tsv) = f.strip_suffix('~').map_or((*f, s.tsv), |f| (f, true));
        names.rotate_left(k % 2);
        names.truncate(*n);
        let mut o = file_stream(&root.join(d), f, names);
        o.precision = 2 + k;
        o.string_conversion_mode = if *vector { ToStringConversionMode::Vector } else { ToStringConversionMode::Scalar };
        o.formatting_mode = if tsv { FormattingMode::TSV } else { FormattingMode::CSV };
        o.should_print_metadata = *meta;
        if d.is_empty() {
            o.stream_mode = StreamMode::Stdout;
            o.folder_name = String::new();
            o.file_name = String::new();
        }
        w.push(o);
    }
    c.config_with(w)
}
fn init() -> Init {
    Init::interior(Ph::Iso, &[(1.0, 0.1, 1.0), (2.0, 0.2, 1.0)], 1.0)
}
/// What an execution leaves
#[derive(Clone, PartialEq, Debug, Hash, Eq, Default)]
struct Obs {
    ok: bool,
    error: String,
    stdout: Vec<u8>,
    files: Vec<(String, Option<Vec<u8>>)>,
    bits: Vec<u64>,
    counter: usize,
}
struct Driver<'a> {
    s: &'a Sc,
    cfg: CorriesConfig,
    root: PathBuf,
    sim: Option<Box<dyn Sim>>,
    fresh: Option<Writer>,
    before: Option<(Vec<f64>, corries::time::timestep::TimeStep)>,
    start: Vec<(String, Option<Vec<u8>>)>,
}
fn files(root: &Path) -> Vec<(String, Option<Vec<u8>>)> {
    tree(root).into_iter().collect()
}
fn restore(root: &Path, t: &[(String, Option<Vec<u8>>)]) {
    let _ = std::fs::remove_dir_all(root);
    std::fs::create_dir_all(root).unwrap();
    for (n, c) in t {
        match c {
            None => std::fs::create_dir_all(root.join(n)).unwrap(),
            Some(c) => std::fs::write(root.join(n), c).unwrap(),
        }
    }
}
impl<'a> Driver<'a> {
    /// Prepares everything that comes before the explored part
    fn new(s: &'a Sc, root: &Path, only: Option<usize>) -> Driver<'a> {
        rayon_core::ctl::set_num_threads(s.threads);
        let cfg = config(s, root, only);
        restore(root, &[]);
        let mut d = Driver { s, cfg, root: root.to_path_buf(), sim: None, fresh: None, before: None, start: vec![] };
        if let What::BrokenInit(set) = s.what {
            for (_, st) in s.streams.iter().enumerate().filter(|(k, _)| set >> k & 1 == 1) {
                std::fs::create_dir_all(root.join(st.0).join(format!("{}_metadata.json", st.1))).unwrap();
            }
            d.start = files(root);
        }
        if let What::Outputs(_, _) | What::Broken(_) = s.what {
            let mut sim = make_cfg(Ph::Iso, 6, &d.cfg, &init()).expect("init_corries failed");
            if let What::Outputs(_, before) = s.what {
                for k in 0..before {
                    Self::advance(sim.as_mut(), k);
                    sim.output().expect("an output failed");
                }
            }
            if let What::Broken(set) = s.what {
                for (_, st) in s.streams.iter().enumerate().filter(|(k, _)| set >> k & 1 == 1) {
                    let _ = std::fs::remove_dir_all(root.join(st.0));
                }
            }
            d.fresh = Some(sim.writer().clone());
            d.sim = Some(sim);
            d.start = files(root);
        }
        if let What::Step(_) = s.what {
            d.prepare();
        }
        let _ = std::io::Write::flush(&mut std::io::stdout());
        d
    }
    fn advance(sim: &mut dyn Sim, k: usize) {
        let t = sim.ts();
        t.t = 0.125 * k as f64;
        t.iter = 3 * k;
        sim.vars(D::C).prim[[0, 2]] = 1.0 + k as f64;
    }
    fn prepare(&mut self) {
        let cells = [(1.0, 0.3, 1.0), (0.5, -0.45, 0.4), (2.0, 1.9, 1.3), (0.13, -2.6, 0.1)];
        let n = if let What::Step(2) = self.s.what { 2 } else { 4 };
        let mut sim = make_cfg(Ph::Adi, n + 4, &self.cfg, &Init::interior(Ph::Adi, &cells[..n], 1.0)).expect("init_corries failed");
        sim.ts().t_next_output = 9.0;
        self.before = Some((sim.prim().iter().copied().collect(), sim.ts().clone()));
        self.sim = Some(sim);
    }
    fn body(&mut self) -> Result<(), String> {
        match self.s.what {
            What::Outputs(n, before) => {
                let sim = self.sim.as_mut().unwrap();
                for k in before..n {
                    Self::advance(sim.as_mut(), k);
                    sim.output().map_err(|e| format!("{e:#}"))?;
                }
                Ok(())
            }
            What::Step(_) => self.sim.as_mut().unwrap().step().map_err(|e| format!("{e:#}")),
            What::Broken(_) => {
                let sim = self.sim.as_mut().unwrap();
                Self::advance(sim.as_mut(), 0);
                sim.output().map_err(|e| format!("{e:#}"))
            }
            What::Init | What::BrokenInit(_) => {
                self.sim = Some(make_cfg(Ph::Iso, 6, &self.cfg, &init()).map_err(|e| format!("{e:#}"))?);
                Ok(())
            }
            What::Run => {
                self.sim = Some(make_cfg(Ph::Iso, 6, &self.cfg, &init()).map_err(|e| format!("{e:#}"))?);
                self.sim.as_mut().unwrap().run().map_err(|e| format!("{e:#}"))
            }
        }
    }
    fn exec(&mut self, plan: &[(u32, u8)]) -> (Obs, Outcome) {
        let start = std::mem::take(&mut self.start);
        restore(&self.root, &start);
        self.start = start;
        if let Some(w) = &self.fresh {
            *self.sim.as_mut().unwrap().writer() = w.clone();
        }
        if let Some((prim, ts)) = &self.before {
            // the same objects again, so that addresses stay the same
            let sim = self.sim.as_mut().unwrap();
            sim.vars(D::C).prim.iter_mut().zip(prim).for_each(|(a, b)| *a = *b);
            sim.from_prim();
            *sim.ts() = ts.clone();
        }
        let (mode, swap) = (self.s.mode, self.s.swap);
        let (r, out) = execute(plan, mode, swap, || self.body());
        let (ok, error) = match &r {
            Ok(Ok(())) => (true, String::new()),
            Ok(Err(e)) => (false, e.clone()),
            Err(p) => (false, format!("panic: {p}")),
        };
        let sim = self.sim.as_mut();
        let (bits, counter) = sim.map_or((vec![], 0), |s| (bits(s.as_mut()), s.writer().output_counter));
        (Obs { ok, error, stdout: out.stdout.clone(), files: files(&self.root), bits, counter }, out)
    }
}
/// The same simulation without any scheduler, and every stdout stream by itself: its blocks in order
struct Ref {
    whole: Obs,
    blocks: Vec<Vec<Vec<u8>>>,
}
fn reference(s: &Sc, root: &Path) -> Ref {
    let plain = |sc: &Sc, only: Option<usize>| {
        // a first execution with the default plan; a single stream has nothing to be interleaved with
        let mut d = Driver::new(sc, root, only);
        d.exec(&[]).0
    };
    let whole = plain(s, None);
    let mut blocks: Vec<Vec<Vec<u8>>> = vec![];
    for (k, st) in s.streams.iter().enumerate() {
        if !st.0.is_empty() {
            continue;
        }
        let mut v: Vec<Vec<u8>> = vec![];
        let add = |sc: &Sc, v: &mut Vec<Vec<u8>>| {
            let o = plain(sc, Some(k)).stdout;
            let had: usize = v.iter().map(|b| b.len()).sum();
            v.push(o[had..].to_vec());
        };
        match s.what {
            What::Outputs(n, before) => {
                for m in before + 1..=n {
                    add(&Sc { what: What::Outputs(m, before), ..s.clone() }, &mut v);
                }
            }
            What::Broken(_) => add(&Sc { what: What::Outputs(1, 0), ..s.clone() }, &mut v),
            What::Init | What::BrokenInit(_) => {
                // the metadata are the same for every stream
                let n = s.streams.iter().filter(|x| x.0.is_empty()).count();
                v.push(whole.stdout[..whole.stdout.len() / n].to_vec());
            }
            What::Step(_) => unreachable!(),
            What::Run => {
                // metadata is off; one line per row, header lines included: split at records
                let o = plain(s, Some(k)).stdout;
                let lines: Vec<&[u8]> = o.split_inclusive(|b| *b == b'\n').collect();
                let per = if st.2 { 3 } else { 1 };
                let mut i = 0;
                while i < lines.len() {
                    let n = if !st.2 && i == 0 { 2 } else { per };
                    v.push(lines[i..(i + n).min(lines.len())].concat());
                    i += n;
                }
            }
        }
        blocks.push(v);
    }
    Ref { whole, blocks }
}
/// Is the text, output by output, made of whole blocks in some order?
fn composed(text: &[u8], blocks: &[Vec<Vec<u8>>]) -> bool {
    fn go(t: &[u8], blocks: &[Vec<Vec<u8>>], n: usize, left: u32) -> bool {
        if blocks.is_empty() || n == blocks[0].len() {
            return t.is_empty();
        }
        if left == 0 {
            return go(t, blocks, n + 1, (1 << blocks.len()) - 1);
        }
        (0..blocks.len()).any(|k| {
            left >> k & 1 == 1 && t.starts_with(&blocks[k][n]) && go(&t[blocks[k][n].len()..], blocks, n, left & !(1 << k))
        })
    }
    go(text, blocks, 0, (1 << blocks.len()) - 1)
}
fn judge(s: &Sc, r: &Ref, o: &Obs, out: &Outcome) -> Result<(), String> {
    let txt = |b: &[u8]| String::from_utf8_lossy(b).into_owned();
    if out.deadlock {
        return Err("the threads block each other".into());
    }
    if o.error.starts_with("panic") {
        return Err(o.error.clone());
    }
    if o.ok == s.what.broken() {
        return Err(format!("the result depends on the order: {:?}", o.error));
    }
    if o.error != r.whole.error {
        return Err(format!("the error depends on the order: {:?}, {:?}", o.error, r.whole.error));
    }
    if !composed(&o.stdout, &r.blocks) {
        return Err(format!(
            "standard output is not made of whole records: {:?}, records {:?}",
            txt(&o.stdout),
            r.blocks.iter().map(|v| v.iter().map(|b| txt(b)).collect::<Vec<_>>()).collect::<Vec<_>>()
        ));
    }
    if o.files != r.whole.files {
        for (n, c) in &r.whole.files {
            let have = o.files.iter().find(|(m, _)| m == n).map(|x| &x.1);
            if have != Some(c) {
                let show = |c: Option<&Option<Vec<u8>>>| format!("{:?}", c.map(|c| c.as_ref().map(|c| txt(c))));
                return Err(format!("{n} is {}, expected {}", show(have), show(Some(c))));
            }
        }
        return Err(format!("surplus files: {:?}", o.files.iter().map(|f| &f.0).collect::<Vec<_>>()));
    }
    if o.bits != r.whole.bits || o.counter != r.whole.counter {
        return Err("the state of the simulation depends on the order".into());
    }
    Ok(())
}
#[derive(Default)]
struct Stat {
    execs: u64,
    decisions: u64,
    diverged: u64,
    accesses: u64,
    shared: u64,
    forced: u64,
    outcomes: HashSet<u64>,
    max_points: usize,
    sample: String,
}
static EXECS: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
struct Explorer<'a> {
    deadline: std::time::Instant,
    capped: bool,
    d: Driver<'a>,
    r: Ref,
    stat: Stat,
    shard: (usize, usize),
    ordinal: usize,
}
impl Explorer<'_> {
    fn explore(&mut self, plan: &mut Vec<(u32, u8)>, cost: u8) -> Result<(), String> {
        if std::time::Instant::now() > self.deadline {
            self.capped = true;
            return Ok(());
        }
        let (o, out) = self.d.exec(plan);
        EXECS.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        if !(plan.is_empty() && self.shard.0 != 0) {
            self.stat.execs += 1;
            self.stat.decisions += out.decs.len() as u64;
            self.stat.accesses += out.accesses as u64;
            self.stat.shared += out.shared as u64;
            self.stat.forced += out.forced as u64;
            self.stat.diverged += out.diverged as u64;
            use std::hash::{Hash, Hasher};
            let mut h = std::collections::hash_map::DefaultHasher::new();
            (&o.stdout, &o.files).hash(&mut h);
            self.stat.outcomes.insert(h.finish());
            self.stat.max_points = self.stat.max_points.max(out.decs.len());
            if self.stat.sample.is_empty() {
                self.stat.sample = format!("schedule {plan:?}: {} decisions, {} switches, stdout {:?}", out.decs.len(), out.switches, String::from_utf8_lossy(&o.stdout));
            }
        }
        if let Err(e) = judge(self.d.s, &self.r, &o, &out) {
            let (o2, _) = self.d.exec(plan);
            return Err(format!(
                "{e}\nschedule (decision, alternative): {plan:?}\nrepeated: {}",
                if o2 == o { "the same outcome" } else { "another outcome (the code behaves differently from run to run by itself)" }
            ));
        }
        if out.diverged || plan.len() >= self.d.s.devs {
            return Ok(());
        }
        let from = plan.last().map_or(0, |p| p.0 + 1);
        for i in from..out.decs.len() as u32 {
            let dec = out.decs[i as usize];
            if cost + dec.cost > self.d.s.bound {
                continue;
            }
            for alt in 1..=dec.alts {
                if plan.is_empty() {
                    self.ordinal += 1;
                    if self.ordinal % self.shard.1 != self.shard.0 {
                        continue;
                    }
                }
                plan.push((i, alt));
                self.explore(plan, cost + dec.cost)?;
                plan.pop();
            }
        }
        Ok(())
    }
}
fn child(spec: &str) -> ! {
    let w: Vec<&str> = spec.splitn(6, ' ').collect();
    let n = |i: usize| w[i].parse::<usize>().unwrap();
    let all = scenarios(n(0) == 1);
    let s = &all[n(1)];
    let shard = (n(2), n(3));
    let root = PathBuf::from(w[5]);
    vhrt::init();
    std::env::set_var("RUST_BACKTRACE", "0");
    let saved = unsafe { libc::fcntl(1, libc::F_DUPFD_CLOEXEC, 200) };
    std::thread::spawn(move || {
        // an execution that does not end
        let mut last = (u64::MAX, 0);
        loop {
            std::thread::sleep(std::time::Duration::from_secs(1));
            let e = EXECS.load(std::sync::atomic::Ordering::Relaxed);
            last = if e == last.0 { (e, last.1 + 1) } else { (e, 0) };
            if last.1 > 60 {
                let m = format!("STAT {e} 0 0 0 0 0 0 0 0\nVIOL an execution does not come to an end\n");
                unsafe {
                    libc::write(saved, m.as_ptr().cast(), m.len());
                    libc::_exit(1)
                }
            }
        }
    });
    let r = reference(s, &root);
    let mut code = 0;
    let mut text = String::new();
    if r.whole.ok == s.what.broken() || r.whole.error.starts_with("panic") {
        text += &format!("VIOL the run in the default order: {:?}\n", r.whole.error);
        code = 1;
    }
    let mut x = Explorer { d: Driver::new(s, &root, None), r, stat: Stat::default(), shard, ordinal: 0, deadline: std::time::Instant::now() + std::time::Duration::from_millis(n(4) as u64), capped: false };
    if code == 0 {
        if s.mode == Mode::Shared {
            // find out which memory is shared: the orders without preemption, twice
            let plans: Vec<Vec<(u32, u8)>> = {
                let (_, out) = x.d.exec(&[]);
                let mut v = vec![vec![]];
                for (i, d) in out.decs.iter().enumerate() {
                    if d.cost == 0 {
                        for a in 1..=d.alts {
                            v.push(vec![(i as u32, a)]);
                        }
                    }
                }
                v
            };
            vhrt::discover(true);
            for p in plans.iter().chain(plans.iter()) {
                x.d.exec(p);
            }
            vhrt::discover(false);
        }
        if let Err(e) = x.explore(&mut vec![], 0) {
            text += &format!("VIOL {e}\n");
            code = 1;
        }
    }
    let t = &x.stat;
    let mut msg = format!(
        "STAT {} {} {} {} {} {} {} {} {}\nSAMPLE {}\nOUT {}\n",
        t.execs, t.decisions, t.diverged, t.accesses, t.shared, t.forced, t.outcomes.len(), t.max_points, x.capped as u8,
        t.sample.replace('\n', " "),
        t.outcomes.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")
    );
    msg += &text;
    let b = msg.as_bytes();
    let mut k = 0;
    while k < b.len() {
        let n = unsafe { libc::write(saved, b[k..].as_ptr().cast(), b.len() - k) };
        if n <= 0 {
            break;
        }
        k += n as usize;
    }
    unsafe { libc::_exit(code) }
}

fn main() {
    if let Ok(s) = std::env::var("VH_C13_CHILD") {
        child(&s);
    }
    if std::env::var("VH_HANG_S").is_err() {
        // the processes watch themselves
        std::env::set_var("VH_HANG_S", "3000");
    }
    vh::run("C13", |ctx| {
        let base = scratch();
        let exe = std::env::current_exe().unwrap();
        let all = scenarios(ctx.thorough());
        let mut table = vec![];
        let mut instrumented = 0u64;
        let begin = std::time::Instant::now();
        for (k, s) in all.iter().enumerate() {
            let shards = 16;
            // what each process may take; code that has many more schedules than the present one is explored in part
            let (total, rounds) = if ctx.thorough() { (5000., 2.) } else { (360., 2.) };
            let left = (total - begin.elapsed().as_secs_f64()).max(0.);
            let ms = (left / rounds / (all.len() - k) as f64).max(left / 16.).clamp(2., 400.) * 1000.;
            let outcomes = std::sync::Mutex::new(HashSet::new());
            let stat = std::sync::Mutex::new([0u64; 9]);
            ctx.group(s.name, shards, |i, t| {
                let root = base.join(format!("s{k}-{i}"));
                let o = Command::new(&exe)
                    .env("VH_C13_CHILD", format!("{} {k} {i} {shards} {} {}", ctx.thorough() as u8, ms as u64, root.display()))
                    .stdin(Stdio::null())
                    .output()
                    .expect("cannot start the child");
                let _ = std::fs::remove_dir_all(&root);
                let text = String::from_utf8_lossy(&o.stdout).into_owned();
                let Some(l) = text.lines().find_map(|l| l.strip_prefix("STAT ")) else {
                    use std::os::unix::process::ExitStatusExt;
                    if o.status.signal() == Some(libc::SIGKILL) {
                        // somebody else ended it (memory?): that decides nothing
                        eprintln!("ENGINE ERROR: the process that explores the schedules was killed");
                        std::process::exit(2);
                    }
                    return Err(format!("the process that explores the schedules died: {:?} {}", o.status, String::from_utf8_lossy(&o.stderr)));
                };
                let n: Vec<u64> = l.split(' ').map(|x| x.parse().unwrap()).collect();
                t.states += n[0];
                t.transitions += n[1];
                t.traces += n[0] - n[2];
                t.skipped += n[2];
                let mut st = stat.lock().unwrap();
                for (k, (a, b)) in st.iter_mut().zip(&n).enumerate() {
                    *a = if k == 7 { *b.max(a) } else { *a + *b };
                }
                if let Some(o) = text.lines().find_map(|l| l.strip_prefix("OUT ")) {
                    outcomes.lock().unwrap().extend(o.split(',').map(|x| x.to_string()).filter(|x| !x.is_empty()));
                }
                if let Some(x) = text.lines().find_map(|l| l.strip_prefix("SAMPLE ")) {
                    t.sample(|| x.to_string());
                }
                match text.split_once("VIOL ") {
                    Some((_, v)) => Err(format!("{}\nscenario {s:?}", v.trim_end())),
                    None => Ok(()),
                }
            });
            let st = stat.into_inner().unwrap();
            instrumented += st[3];
            if st[8] > 0 {
                ctx.note("exhaustive", false);
            }
            let (n, d) = (outcomes.into_inner().unwrap().len(), st[7]);
            ctx.say(&format!("C13:   {} schedules, {n} different outcomes, {} decision points in total, {d} in the longest{}", st[0], st[1], if st[8] > 0 { ", CAPPED" } else { "" }));
            table.push(serde_json::json!({
                "scenario": s.name, "switch_points": format!("{:?}", s.mode), "preemption_bound": s.bound, "thread_assignments": s.swap, "most_deviations": s.devs,
                "schedules": st[0], "diverged": st[2], "accesses": st[3], "shared_accesses": st[4], "forced_switches": st[5], "outcomes": n, "shards_stopped_by_the_time_limit": st[8],
            }));
        }
        ctx.note("scenarios", table);
        ctx.note("memory_accesses_seen", instrumented);
        ctx.assume("memory is sequentially consistent; the standard library is not instrumented, only its blocking and its system calls are switch points");
        if instrumented == 0 && !ctx.failed() && std::env::var("VH_ONLY").is_err() {
            eprintln!("ENGINE ERROR: the code is not instrumented");
            std::process::exit(2);
        }
    })
}
