//! Running a check: enumeration over worker threads, counters, evidence, verdict.
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::io::Write;
use std::os::fd::FromRawFd;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::Mutex;
use std::time::Instant;

/// Err = description of how the property is violated
pub type CaseResult = Result<(), String>;

#[derive(Default, Clone)]
pub struct Tally {
    /// distinct states / configurations explored
    pub states: u64,
    /// calls into the implementation
    pub transitions: u64,
    /// executions of the implementation compared step by step with the model
    pub traces: u64,
    /// cases in which the oracle could not decide (error bound too large or the input is outside of the property)
    pub skipped: u64,
    pub samples: Vec<String>,
}
impl Tally {
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.samples.len() < 2 {
            self.samples.push(f())
        }
    }
    fn add(&mut self, o: Tally) {
        self.states += o.states;
        self.transitions += o.transitions;
        self.traces += o.traces;
        self.skipped += o.skipped;
        self.samples.extend(o.samples);
    }
}

pub struct Ctx {
    pub id: &'static str,
    thorough: bool,
    pub seed: u64,
    out: Mutex<std::fs::File>,
    start: Instant,
    total: Mutex<Tally>,
    groups: Mutex<Vec<(String, usize, Tally, f64)>>,
    violations: Mutex<Vec<(String, String)>>,
    only: Option<(String, Option<usize>)>,
    pub extra: Mutex<BTreeMap<String, serde_json::Value>>,
    level: Mutex<&'static str>,
    known: Vec<String>,
    known_hit: Mutex<Vec<String>>,
    assumptions: Mutex<Vec<String>>,
}

thread_local! {
    static PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}
static BUSY: [AtomicU64; 64] = [const { AtomicU64::new(0) }; 64];
static CASE: [AtomicU64; 64] = [const { AtomicU64::new(0) }; 64];
static GROUP: Mutex<String> = Mutex::new(String::new());

/// Panic that is the harness's own fault?
fn own_fault(loc: &str) -> bool {
    loc.starts_with("src/") || loc.contains("/verif/")
}

/// Runs f; a panic from the code under test becomes Err(text), one from the harness ends the process with code 2.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(x) => Ok(x),
        Err(_) => {
            let (loc, msg) = PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
            if own_fault(&loc) {
                eprintln!("ENGINE ERROR: the harness panicked at {loc}: {msg}");
                std::process::exit(2);
            }
            Err(format!("panic at {loc}: {msg}"))
        }
    }
}

pub fn workers() -> usize {
    if let Ok(x) = std::env::var("VH_WORKERS") {
        return x.parse().unwrap();
    }
    std::thread::available_parallelism().map_or(4, |x| x.get()).clamp(1, 32)
}

fn secs() -> u64 {
    let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::clock_gettime(libc::CLOCK_MONOTONIC, &mut t) };
    t.tv_sec as u64
}

impl Ctx {
    pub fn thorough(&self) -> bool {
        self.thorough
    }
    pub fn pick<T>(&self, quick: T, thorough: T) -> T {
        if self.thorough {
            thorough
        } else {
            quick
        }
    }
    pub fn set_level(&self, l: &'static str) {
        *self.level.lock().unwrap() = l
    }
    pub fn assume(&self, s: &str) {
        self.assumptions.lock().unwrap().push(s.to_string())
    }
    pub fn note(&self, k: &str, v: impl Into<serde_json::Value>) {
        self.extra.lock().unwrap().insert(k.to_string(), v.into());
    }
    pub fn say(&self, s: &str) {
        let mut o = self.out.lock().unwrap();
        let _ = writeln!(o, "{s}");
        let _ = o.flush();
    }
    pub fn failed(&self) -> bool {
        !self.violations.lock().unwrap().is_empty()
    }
    pub fn violation(&self, key: String, text: String) {
        self.violations.lock().unwrap().push((key, text));
    }
    fn wanted(&self, name: &str) -> bool {
        self.only.as_ref().map_or(true, |(g, _)| g == name)
    }

    /// Enumerates the cases 0..n on all cores; `mk` makes the state of one worker.
    pub fn group_w<W>(
        &self,
        name: &str,
        n: usize,
        mk: impl Fn() -> W + Sync,
        f: impl Fn(&mut W, usize, &mut Tally) -> CaseResult + Sync,
    ) {
        self.group_n(name, n, workers(), mk, f)
    }
    pub fn group(&self, name: &str, n: usize, f: impl Fn(usize, &mut Tally) -> CaseResult + Sync) {
        self.group_w(name, n, || (), |_, i, t| f(i, t))
    }
    /// In order on one (the calling) thread
    pub fn group_seq(&self, name: &str, n: usize, mut f: impl FnMut(usize, &mut Tally) -> CaseResult) {
        if !self.wanted(name) || self.failed() {
            return;
        }
        *GROUP.lock().unwrap() = name.to_string();
        let t0 = Instant::now();
        let mut t = Tally::default();
        for i in 0..n {
            if let Some((_, Some(k))) = &self.only {
                if *k != i {
                    continue;
                }
            }
            CASE[63].store(i as u64, Relaxed);
            BUSY[63].store(secs() + 1, Relaxed);
            let r = guard(|| f(i, &mut t)).and_then(|x| x);
            BUSY[63].store(0, Relaxed);
            if let Err(e) = r {
                self.violation(format!("{name}:{i}"), e);
                break;
            }
        }
        self.close(name, n, t, t0);
    }
    fn close(&self, name: &str, n: usize, t: Tally, t0: Instant) {
        let w = t0.elapsed().as_secs_f64();
        self.say(&format!(
            "{}: {name}: {n} cases, {} states, {} transitions, {} traces checked, {} skipped, {w:.1} s",
            self.id, t.states, t.transitions, t.traces, t.skipped
        ));
        self.groups.lock().unwrap().push((name.to_string(), n, t.clone(), w));
        self.total.lock().unwrap().add(t);
    }
    pub fn group_n<W>(
        &self,
        name: &str,
        n: usize,
        nthreads: usize,
        mk: impl Fn() -> W + Sync,
        f: impl Fn(&mut W, usize, &mut Tally) -> CaseResult + Sync,
    ) {
        if !self.wanted(name) || self.failed() {
            return;
        }
        *GROUP.lock().unwrap() = name.to_string();
        let t0 = Instant::now();
        let next = AtomicUsize::new(0);
        let stop = AtomicBool::new(false);
        let all = Mutex::new(Tally::default());
        let found: Mutex<Vec<(usize, String)>> = Mutex::new(vec![]);
        let nthreads = nthreads.min(n.max(1)).min(60);
        let chunk = (n / (nthreads * 64)).clamp(1, 64);
        std::thread::scope(|s| {
            for k in 0..nthreads {
                let (next, stop, all, found, mk, f) = (&next, &stop, &all, &found, &mk, &f);
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn_scoped(s, move || {
                        let mut t = Tally::default();
                        let mut w = match guard(mk) {
                            Ok(w) => w,
                            Err(e) => {
                                found.lock().unwrap().push((0, format!("while setting up: {e}")));
                                stop.store(true, Relaxed);
                                return;
                            }
                        };
                        'outer: while !stop.load(Relaxed) {
                            let i0 = next.fetch_add(chunk, Relaxed);
                            if i0 >= n {
                                break;
                            }
                            for i in i0..(i0 + chunk).min(n) {
                                if let Some((_, Some(k))) = &self.only {
                                    if *k != i {
                                        continue;
                                    }
                                }
                                CASE[k].store(i as u64, Relaxed);
                                BUSY[k].store(secs() + 1, Relaxed);
                                let r = guard(|| f(&mut w, i, &mut t)).and_then(|x| x);
                                BUSY[k].store(0, Relaxed);
                                if let Err(e) = r {
                                    found.lock().unwrap().push((i, e));
                                    stop.store(true, Relaxed);
                                    break 'outer;
                                }
                            }
                        }
                        all.lock().unwrap().add(t);
                    })
                    .unwrap();
            }
        });
        let mut found = found.into_inner().unwrap();
        found.sort();
        if let Some((i, e)) = found.into_iter().next() {
            self.violation(format!("{name}:{i}"), e);
        }
        let mut t = all.into_inner().unwrap();
        t.samples.truncate(2);
        self.close(name, n, t, t0);
    }

    fn verif_dir() -> std::path::PathBuf {
        std::env::var("VH_DIR").unwrap_or("/verif".into()).into()
    }

    fn finish(&self) -> i32 {
        let wall = self.start.elapsed().as_secs_f64();
        let total = self.total.lock().unwrap().clone();
        let violations = self.violations.lock().unwrap().clone();
        let dir = Self::verif_dir();
        let mut code = 0;
        let mut n_viol = 0;
        for (key, text) in &violations {
            if self.known.iter().any(|k| k == key) {
                self.say(&format!("KNOWN-FINDING: property={} {key} {}", self.id, text.lines().next().unwrap_or("")));
                self.known_hit.lock().unwrap().push(key.clone());
                continue;
            }
            n_viol += 1;
            let _ = std::fs::create_dir_all(dir.join("replay"));
            let clean: String =
                key.chars().map(|c| if c.is_ascii_alphanumeric() || c == '-' { c } else { '_' }).collect();
            let path = dir.join("replay").join(format!("{}-{clean}.txt", self.id));
            let body = format!(
                "property {}\ncase {key}\ntier {}\nseed {}\n\n{text}\n\nreplay this case alone:\n  VERIF_TIER={} VERIF_SEED={} VH_ONLY='{key}' {}/check {}\n",
                self.id, self.tier(), self.seed, self.tier(), self.seed, dir.display(), self.id
            );
            let _ = std::fs::write(&path, body);
            self.say(&format!("{}: case {key}: {text}", self.id));
            self.say(&format!("VIOLATION property={} replay={}", self.id, path.display()));
            code = 1;
        }
        if self.only.is_none() {
            let mut cov = serde_json::Map::new();
            let level = *self.level.lock().unwrap();
            if level == "fault_enumeration" {
                cov.insert("evaluations".into(), total.transitions.into());
                cov.insert("distinct_nontrivial".into(), total.states.into());
            } else {
                cov.insert("states".into(), total.states.into());
                cov.insert("transitions".into(), total.transitions.into());
                cov.insert("traces_validated_against_impl".into(), total.traces.into());
            }
            cov.insert("undecided_cases_skipped".into(), total.skipped.into());
            cov.insert("exhaustive".into(), (n_viol == 0).into());
            let groups = self.groups.lock().unwrap();
            cov.insert(
                "samples".into(),
                groups
                    .iter()
                    .flat_map(|(g, _, t, _)| t.samples.iter().take(2).map(move |s| format!("{g}: {s}")))
                    .collect::<Vec<_>>()
                    .into(),
            );
            cov.insert(
                "groups".into(),
                groups
                    .iter()
                    .map(|(g, n, t, w)| {
                        serde_json::json!({"name": g, "cases": n, "explored": t.states, "calls": t.transitions, "compared": t.traces, "skipped": t.skipped, "wall_s": (w * 100.0).round() / 100.0})
                    })
                    .collect::<Vec<_>>()
                    .into(),
            );
            for (k, v) in self.extra.lock().unwrap().iter() {
                cov.insert(k.clone(), v.clone());
            }
            let ev = serde_json::json!({
                "property": self.id, "tier": self.tier(), "seed": self.seed, "level": level, "coverage": cov,
                "assumptions": *self.assumptions.lock().unwrap(), "wall_s": (wall * 100.0).round() / 100.0, "violations": n_viol,
            });
            let _ = std::fs::create_dir_all(dir.join("evidence"));
            if let Err(e) = std::fs::write(
                dir.join("evidence").join(format!("{}.json", self.id)),
                serde_json::to_string_pretty(&ev).unwrap() + "\n",
            ) {
                eprintln!("ENGINE ERROR: cannot write the evidence file: {e}");
                return 2;
            }
        }
        if code == 0 {
            self.say(&format!(
                "{}: held on everything explored: {} states, {} transitions, {} traces checked, {} undecided, {wall:.1} s ({})",
                self.id, total.states, total.transitions, total.traces, total.skipped, self.tier()
            ));
            if self.only.is_none() && (total.states == 0 || total.transitions == 0) {
                eprintln!("ENGINE ERROR: nothing was explored");
                return 2;
            }
        }
        code
    }
    fn tier(&self) -> &'static str {
        if self.thorough {
            "thorough"
        } else {
            "quick"
        }
    }
}

fn known_findings(id: &str) -> Vec<String> {
    // lines "known: property=<id> key=<group:index> <what fails>"
    std::fs::read_to_string(Ctx::verif_dir().join("known_findings.txt"))
        .unwrap_or_default()
        .lines()
        .filter_map(|l| l.strip_prefix("known: "))
        .filter_map(|l| {
            let mut w = l.split_whitespace();
            let p = w.next()?.strip_prefix("property=")?;
            let k = w.next()?.strip_prefix("key=")?;
            (p == id).then(|| k.to_string())
        })
        .collect()
}

/// Entry point of every check
pub fn run(id: &'static str, f: impl FnOnce(&Ctx)) -> ! {
    unsafe {
        // dependencies must not spawn threads of their own
        libc::setenv(c"OPENBLAS_NUM_THREADS".as_ptr(), c"1".as_ptr(), 1);
        libc::setenv(c"RUST_BACKTRACE".as_ptr(), c"0".as_ptr(), 1);
    }
    let saved = unsafe { libc::fcntl(1, libc::F_DUPFD_CLOEXEC, 200) };
    let out = unsafe { std::fs::File::from_raw_fd(saved) };
    unsafe {
        let null = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
        libc::dup2(null, 1);
        libc::close(null);
    }
    std::panic::set_hook(Box::new(|i| {
        let loc = i.location().map_or("?".into(), |l| format!("{}:{}", l.file(), l.line()));
        let msg = i
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or(i.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = Some((loc, msg)));
    }));
    let only = std::env::var("VH_ONLY").ok().filter(|s| !s.is_empty()).map(|s| match s.rsplit_once(':') {
        Some((g, i)) => (g.to_string(), i.parse().ok()),
        None => (s, None),
    });
    let ctx = Ctx {
        id,
        thorough: std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough"),
        seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
        out: Mutex::new(out),
        start: Instant::now(),
        total: Default::default(),
        groups: Default::default(),
        violations: Default::default(),
        only,
        extra: Default::default(),
        level: Mutex::new("model_checking"),
        known: known_findings(id),
        known_hit: Default::default(),
        assumptions: Default::default(),
    };
    // a call that does not return is a violation as well: no single case takes anywhere near this long
    let limit: u64 = std::env::var("VH_HANG_S").ok().and_then(|s| s.parse().ok()).unwrap_or(150);
    let done = AtomicBool::new(false);
    let code = std::thread::scope(|s| {
        let (ctx, done) = (&ctx, &done);
        s.spawn(move || {
            while !done.load(Relaxed) {
                std::thread::sleep(std::time::Duration::from_millis(100));
                for k in 0..64 {
                    let b = BUSY[k].load(Relaxed);
                    if b != 0 && secs() + 1 > b + limit {
                        let g = GROUP.lock().unwrap().clone();
                        ctx.violation(
                            format!("{g}:{}", CASE[k].load(Relaxed)),
                            format!("the simulation did not come back within {limit} s"),
                        );
                        let code = ctx.finish();
                        crate::scratch::cleanup();
                        unsafe { libc::_exit(code) };
                    }
                }
            }
        });
        let r = catch_unwind(AssertUnwindSafe(|| f(ctx)));
        done.store(true, Relaxed);
        if r.is_err() {
            let (loc, msg) = PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
            eprintln!("ENGINE ERROR: panic at {loc}: {msg}");
            crate::scratch::cleanup();
            std::process::exit(2);
        }
        ctx.finish()
    });
    crate::scratch::cleanup();
    std::process::exit(code)
}

/// Mixed-radix enumeration: splits an index into digits
pub struct Radix(pub usize);
impl Radix {
    pub fn take(&mut self, n: usize) -> usize {
        let d = self.0 % n;
        self.0 /= n;
        d
    }
    pub fn of<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.take(v.len())]
    }
}
