//! Every I/O operation on the output files x every fault.
#[path = "../hooks/io.rs"]
mod io;
use io::{Act, Kind, Op, Plan};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use vh::iocase::*;
use vh::*;

const HARD_OPEN: [i32; 17] = [
    libc::EACCES, libc::ENOSPC, libc::EMFILE, libc::ENFILE, libc::ENOENT, libc::EROFS, libc::EISDIR, libc::ENOTDIR, libc::EPERM,
    libc::ENAMETOOLONG, libc::ELOOP, libc::ETXTBSY, libc::EDQUOT, libc::EIO, libc::EBUSY, libc::EEXIST, libc::EAGAIN,
];
const HARD_WRITE: [i32; 9] =
    [libc::EIO, libc::ENOSPC, libc::EDQUOT, libc::EFBIG, libc::EPIPE, libc::EAGAIN, libc::EPERM, libc::EBADF, libc::EINVAL];
const HARD_MKDIR: [i32; 10] = [
    libc::EACCES, libc::ENOSPC, libc::EROFS, libc::EMLINK, libc::EDQUOT, libc::EPERM, libc::ENAMETOOLONG, libc::ELOOP, libc::EIO,
    libc::ENOTDIR,
];
const HARD_REMOVE: [i32; 5] = [libc::EACCES, libc::EBUSY, libc::EPERM, libc::EROFS, libc::EIO];

#[derive(Clone, Copy, Debug, PartialEq)]
enum F {
    Errno(i32),
    /// write returns 0
    Zero,
    Intr,
    Short(usize),
}
impl F {
    fn hard(self) -> bool {
        matches!(self, F::Errno(_) | F::Zero)
    }
    fn act(self) -> Act {
        match self {
            F::Errno(e) => Act::Errno(e),
            F::Zero => Act::Short(0),
            F::Intr => Act::Errno(libc::EINTR),
            F::Short(n) => Act::Short(n),
        }
    }
}
fn hard(k: Kind) -> Vec<F> {
    let e = |v: &[i32]| v.iter().map(|x| F::Errno(*x)).collect::<Vec<_>>();
    match k {
        Kind::Open => e(&HARD_OPEN),
        Kind::Write => e(&HARD_WRITE).into_iter().chain([F::Zero]).collect(),
        Kind::Mkdir => e(&HARD_MKDIR),
        Kind::Remove => e(&HARD_REMOVE),
        Kind::Look => e(&[libc::EACCES, libc::EMFILE, libc::EIO]),
        Kind::Rename | Kind::Truncate => e(&[libc::EIO, libc::EACCES, libc::ENOSPC]),
        Kind::Sync => vec![],
    }
}
fn soft(op: &Op) -> Vec<F> {
    match op.kind {
        Kind::Open => vec![F::Intr],
        Kind::Write => {
            let mut v = vec![F::Intr];
            let mut n: Vec<usize> = vec![1, op.len / 2, op.len.saturating_sub(1)];
            n.retain(|x| *x > 0 && *x < op.len);
            n.sort();
            n.dedup();
            v.extend(n.into_iter().map(F::Short));
            v
        }
        _ => vec![],
    }
}
struct Out {
    res: Result<Result<(), String>, String>,
    log: Vec<Op>,
    tree: Tree,
    steps: usize,
    /// (operation hit by the first hard fault, steps begun by then)
    hit: Option<(Op, usize)>,
    injected: usize,
}
/// One run under a fault plan
fn execute(c: &IoCase, root: &Path, decide: impl Fn(&Op) -> Option<F> + Send + Sync + 'static) -> Out {
    execute_in(c, root, decide, false)
}
fn execute_in(c: &IoCase, root: &Path, decide: impl Fn(&Op) -> Option<F> + Send + Sync + 'static, stdout: bool) -> Out {
    c.prepare(root);
    if stdout {
        redirect(root);
    }
    let begun: StepCount = Arc::new(AtomicUsize::new(0));
    let hit = Arc::new(Mutex::new(None));
    let inj = Arc::new(AtomicUsize::new(0));
    let (b, h, j) = (begun.clone(), hit.clone(), inj.clone());
    let plan = Arc::new(Plan {
        root: root.to_string_lossy().into_owned(),
        log: Default::default(),
        decide: Box::new(move |op| match decide(op) {
            None => Act::Go,
            Some(f) => {
                j.fetch_add(1, SeqCst);
                if f.hard() {
                    h.lock().unwrap().get_or_insert((op.clone(), b.load(SeqCst)));
                }
                f.act()
            }
        }),
        die: Box::new(|| 0),
    });
    io::start(plan.clone());
    if stdout {
        io::track(1, plan.clone(), root.join(STDOUT).to_string_lossy().into_owned());
    }
    let res = guard(|| c.run(root, &begun));
    io::stop(&plan);
    let log = plan.log.lock().unwrap().clone();
    let hit = hit.lock().unwrap().clone();
    Out { res, log, tree: norm_tree(root), steps: begun.load(SeqCst), hit, injected: inj.load(SeqCst) }
}
/// Fault plans that can be handed to a child process
#[derive(Clone, Copy, Debug)]
enum Spec {
    Never,
    /// at this operation
    Once(usize, F),
    /// at every operation like this one from here on
    From(usize, F),
    /// at two operations
    Two(usize, F, usize, F),
    Storm(usize),
}
impl F {
    fn code(self) -> String {
        match self {
            F::Errno(e) => format!("e{e}"),
            F::Zero => "z0".into(),
            F::Intr => "i0".into(),
            F::Short(n) => format!("s{n}"),
        }
    }
    fn parse(s: &str) -> F {
        let n: usize = s[1..].parse().unwrap();
        match &s[..1] {
            "e" => F::Errno(n as i32),
            "z" => F::Zero,
            "i" => F::Intr,
            _ => F::Short(n),
        }
    }
}
impl Spec {
    fn text(self) -> String {
        match self {
            Spec::Never => "never".into(),
            Spec::Once(n, f) => format!("once {n} {}", f.code()),
            Spec::From(n, f) => format!("from {n} {}", f.code()),
            Spec::Two(n, f, m, g) => format!("two {n} {} {m} {}", f.code(), g.code()),
            Spec::Storm(k) => format!("storm {k}"),
        }
    }
    fn parse(s: &str) -> Spec {
        let w: Vec<&str> = s.split(' ').collect();
        let n = |i: usize| w[i].parse::<usize>().unwrap();
        match w[0] {
            "never" => Spec::Never,
            "once" => Spec::Once(n(1), F::parse(w[2])),
            "from" => Spec::From(n(1), F::parse(w[2])),
            "two" => Spec::Two(n(1), F::parse(w[2]), n(3), F::parse(w[4])),
            _ => Spec::Storm(n(1)),
        }
    }
    fn decide(self) -> Box<dyn Fn(&Op) -> Option<F> + Send + Sync> {
        let fits = |o: &Op, f: F| match f {
            F::Short(n) => o.kind == Kind::Write && n < o.len,
            F::Zero => o.kind == Kind::Write,
            F::Intr => matches!(o.kind, Kind::Write | Kind::Open),
            F::Errno(_) => true,
        };
        match self {
            Spec::Never => Box::new(|_| None),
            Spec::Once(n, f) => Box::new(move |o| (o.seq == n).then_some(f)),
            Spec::From(n, f) => {
                let path = Mutex::new((Kind::Look, String::new()));
                Box::new(move |o| {
                    let mut p = path.lock().unwrap();
                    if o.seq == n {
                        *p = (o.kind, o.path.clone());
                    }
                    (o.seq >= n && p.0 == o.kind && p.1 == o.path).then_some(f)
                })
            }
            Spec::Two(n, f, m, g) => Box::new(move |o| {
                if o.seq == n && fits(o, f) {
                    Some(f)
                } else if o.seq == m && fits(o, g) {
                    Some(g)
                } else {
                    None
                }
            }),
            Spec::Storm(k) => storm(k),
        }
    }
}
const STORMS: usize = 6;
/// Every operation is interrupted / every write is cut short
fn storm(kind: usize) -> Box<dyn Fn(&Op) -> Option<F> + Send + Sync> {
    let last = Mutex::new((String::new(), 0usize));
    Box::new(move |o| {
        let mut l = last.lock().unwrap();
        let again = *l == (o.path.clone(), o.len);
        *l = (o.path.clone(), o.len);
        match (o.kind, kind) {
            (Kind::Write, 0) => (o.len > 1).then_some(F::Short(1)),
            (Kind::Write, 1) => (o.len > 1).then_some(F::Short(o.len - 1)),
            (Kind::Write, 2) => (o.len > 2).then_some(F::Short(o.len / 2)),
            (Kind::Write | Kind::Open, 3) => (o.seq % 2 == 0).then_some(F::Intr),
            (Kind::Write | Kind::Open, 4) => (o.seq % 5 != 4).then_some(F::Intr),
            (Kind::Write, 5) => {
                if !again && o.seq % 3 == 0 {
                    Some(F::Intr)
                } else {
                    (o.len > 1).then_some(F::Short(1))
                }
            }
            _ => None,
        }
    })
}
/// One run with standard output in a file, in this process, which is a child
fn child(spec: &str) -> ! {
    let w: Vec<&str> = spec.splitn(4, '|').collect();
    let c = &stdout_cases()[w[0].parse::<usize>().unwrap()];
    let root = Path::new(w[1]);
    let o = execute_in(c, root, Spec::parse(w[2]).decide(), true);
    let (code, text) = match &o.res {
        Ok(Ok(())) => (0, String::new()),
        Ok(Err(e)) => (1, e.clone()),
        Err(p) => (2, p.clone()),
    };
    let mut s = format!("{} {}\n", o.injected, o.steps);
    let op = |o: &Op| format!("{} {:?} {} {}", o.seq, o.kind, o.len, o.path);
    s += &o.hit.as_ref().map_or("-\n".into(), |(p, n)| format!("{n} {}\n", op(p)));
    s += &format!("{}\n", o.log.len());
    for p in &o.log {
        s += &format!("{}\n", op(p));
    }
    s += &text;
    std::fs::write(root.with_extension("res"), s).unwrap();
    unsafe { libc::_exit(20 + code) }
}
fn execute_child(c: usize, root: &Path, spec: Spec) -> Out {
    let st = std::process::Command::new(std::env::current_exe().unwrap())
        .env("VH_C11_CHILD", format!("{c}|{}|{}", root.display(), spec.text()))
        .stdin(std::process::Stdio::null())
        .stdout(std::process::Stdio::null())
        .stderr(std::process::Stdio::null())
        .status()
        .unwrap();
    let file = root.with_extension("res");
    let text = std::fs::read_to_string(&file).unwrap_or_default();
    let _ = std::fs::remove_file(&file);
    let l: Vec<&str> = text.splitn(4, '\n').collect();
    if !st.code().is_some_and(|x| (20..23).contains(&x)) || l.len() < 4 {
        return Out { res: Err(format!("the process ended with {st:?}")), log: vec![], tree: norm_tree(root), steps: 0, hit: None, injected: 0 };
    }
    let op = |s: &str| {
        let w: Vec<&str> = s.splitn(4, ' ').collect();
        let kind = [Kind::Mkdir, Kind::Open, Kind::Write, Kind::Remove, Kind::Look, Kind::Rename, Kind::Sync, Kind::Truncate]
            .into_iter()
            .find(|k| format!("{k:?}") == w[1])
            .unwrap();
        Op { seq: w[0].parse().unwrap(), kind, len: w[2].parse().unwrap(), path: w[3].to_string() }
    };
    let (i, n) = l[0].split_once(' ').unwrap();
    let hit = l[1].split_once(' ').map(|(n, p)| (op(p), n.parse().unwrap()));
    let ops: usize = l[2].parse().unwrap();
    let mut rest = l[3].splitn(ops + 1, '\n');
    let log = (0..ops).map(|_| op(rest.next().unwrap())).collect();
    let text = rest.next().unwrap_or_default().to_string();
    let res = match st.code().unwrap() {
        20 => Ok(Ok(())),
        21 => Ok(Err(text)),
        _ => Err(text),
    };
    Out { res, log, tree: norm_tree(root), steps: n.parse().unwrap(), hit, injected: i.parse().unwrap() }
}
fn judge(c: &IoCase, clean: &Tree, o: &Out) -> CaseResult {
    let r = o.res.as_ref().map_err(|p| format!("the program panicked instead of returning an error: {p}"))?;
    let dump = c.fail.is_some();
    match (&o.hit, r) {
        (None, Ok(())) if !dump => c.check_all(clean, &o.tree).map_err(|e| format!("only interruptions and short writes were injected, but {e}")),
        (None, Err(_)) if dump => c.check_all(clean, &o.tree).map_err(|e| format!("only interruptions and short writes were injected, but {e}")),
        (None, Err(e)) => Err(format!("only interruptions and short writes were injected, but the run failed: {e}")),
        (None, Ok(())) => Err("the step failed, but the run succeeded".into()),
        // made up for by another attempt: nothing is lost
        (Some(_), Ok(())) if !dump && c.check_all(clean, &o.tree).is_ok() => Ok(()),
        (Some((op, _)), Ok(())) => {
            Err(format!("{op:?} failed, but the run reports success; {}", c.check_all(clean, &o.tree).err().unwrap_or_default()))
        }
        (Some((_, steps)), Err(_)) => c.check_finished(c.finished(*steps), clean, &o.tree),
    }
}
fn clean(c: &IoCase, root: &Path) -> Result<(Tree, Vec<Op>), String> {
    clean_of(c, execute(c, root, |_| None))
}
fn clean_of(c: &IoCase, o: Out) -> Result<(Tree, Vec<Op>), String> {
    match (o.res?, c.fail) {
        (Ok(()), None) | (Err(_), Some(_)) => (),
        (r, _) => return Err(format!("undisturbed run: {r:?}")),
    }
    if o.steps != c.steps() {
        return Err(format!("an undisturbed run of {} steps made {}", c.steps(), o.steps));
    }
    // scalar streams: one file; vector streams: one per record
    let want: usize = c.streams.iter().map(|s| if s.vector && s.folder != STDOUT { c.records() } else { 1 }).sum();
    let have = (0..c.records()).flat_map(|k| c.streams.iter().map(move |s| c.file(s, k))).collect::<std::collections::BTreeSet<_>>();
    if have.len() != want || have.iter().any(|f| !matches!(o.tree.get(f), Some(Some(_)))) {
        return Err(format!("an undisturbed run of {c:?} leaves {:?}", o.tree.keys().collect::<Vec<_>>()));
    }
    Ok((o.tree, o.log))
}

fn main() {
    if let Ok(s) = std::env::var("VH_C11_CHILD") {
        child(&s);
    }
    vh::run("C11", |ctx| {
        ctx.set_level("fault_enumeration");
        ctx.note(
            "rule",
            "evaluations: complete runs of the real code with injected faults; distinct_nontrivial: fault scenarios in which a fault really was injected (operation x fault kind, pairs, persistent faults)",
        );
        let base = scratch();
        let cs = cases();
        let number = AtomicUsize::new(1);
        let mk = || -> PathBuf { base.join(format!("w{:03}", number.fetch_add(1, SeqCst))) };
        let mut refs: Vec<(Tree, Vec<Op>)> = vec![];
        let mut seen = 0usize;
        ctx.group_seq("undisturbed", cs.len(), |i, t| {
            let r = clean(&cs[i], &base.join("w000"))?;
            let again = clean(&cs[i], &base.join("w000"))?;
            if again.0 != r.0 {
                return Err("two undisturbed runs leave different files".into());
            }
            t.states += 1;
            t.transitions += 2;
            t.traces += 2;
            t.sample(|| format!("{:?}: {} operations", cs[i], r.1.len()));
            let bytes: usize = r.1.iter().filter(|o| o.kind == Kind::Write).map(|o| o.len).sum();
            let in_files: usize = cs[i]
                .streams
                .iter()
                .flat_map(|s| (0..cs[i].records()).map(|k| cs[i].file(s, k)))
                .collect::<std::collections::BTreeSet<_>>()
                .iter()
                .map(|f| r.0[f].as_ref().map_or(0, |b| b.len()))
                .sum();
            if bytes < in_files {
                eprintln!("ENGINE ERROR: only {bytes} of {in_files} bytes went through the interposed operations");
                std::process::exit(2);
            }
            seen += r.1.len();
            refs.push(r);
            Ok(())
        });
        ctx.note("operations_observed", seen);
        if refs.len() < cs.len() {
            if !ctx.failed() {
                // a single case is replayed: the references are still needed
                refs = cs.iter().map(|c| clean(c, &base.join("w000")).unwrap()).collect();
            } else {
                return;
            }
        }
        let run1 = |root: &Path, c: usize, t: &mut Tally, what: &dyn Fn() -> String, f: Box<dyn Fn(&Op) -> Option<F> + Send + Sync>| {
            let o = execute(&cs[c], root, f);
            t.transitions += 1;
            t.traces += 1;
            if o.injected > 0 {
                t.states += 1;
            } else {
                t.skipped += 1;
            }
            t.sample(|| format!("{} in case {c}: {:?}", what(), o.res));
            judge(&cs[c], &refs[c].0, &o).map_err(|e| format!("{e}\nfaults: {}\nresult {:?}\ncase {c}: {:?}", what(), o.res, cs[c]))
        };
        // one fault, once
        let mut list = vec![];
        for (c, (_, log)) in refs.iter().enumerate() {
            for op in log {
                for f in hard(op.kind).into_iter().chain(soft(op)) {
                    if cs[c].wide && !ctx.thorough() && ![F::Errno(libc::ENOSPC), F::Errno(libc::EACCES), F::Short(1)].contains(&f) {
                        continue;
                    }
                    list.push((c, op.clone(), f));
                }
            }
        }
        ctx.group_w("single faults", list.len(), mk, |root, k, t| {
            let (c, op, f) = list[k].clone();
            let (n, w) = (op.seq, op.clone());
            run1(root, c, t, &|| format!("{f:?} at {w:?}"), Box::new(move |o| (o.seq == n).then_some(f)))
        });
        // the device stays broken: every operation of that kind fails from some point on
        let mut list = vec![];
        for (c, (_, log)) in refs.iter().enumerate() {
            for op in log {
                for f in hard(op.kind) {
                    if cs[c].wide && (!ctx.thorough() || op.seq % 50 > 0) {
                        continue;
                    }
                    list.push((c, op.clone(), f));
                }
            }
        }
        ctx.group_w("persistent faults", list.len(), mk, |root, k, t| {
            let (c, op, f) = list[k].clone();
            let w = op.clone();
            run1(root, c, t, &|| format!("{f:?} at {w:?} and every later operation of its kind"), Box::new(move |o| (o.seq >= op.seq && o.kind == op.kind).then_some(f)))
        });
        // storms: every operation is interrupted / every write is cut short
        ctx.group_w("storms", cs.len() * STORMS, mk, |root, k, t| {
            let (c, kind) = (k / STORMS, k % STORMS);
            run1(root, c, t, &|| format!("storm {kind}"), storm(kind))
        });
        // two faults: an interruption or a short write, then anything at a later operation
        let pair_cases: Vec<usize> = ctx.pick(vec![0, 1], (0..cs.len()).filter(|c| !cs[*c].wide).collect());
        let mut list = vec![];
        for c in pair_cases {
            let log = &refs[c].1;
            for (i, a) in log.iter().enumerate() {
                for fa in soft(a) {
                    // a retried or continued operation adds one to the sequence
                    for j in i + 1..log.len() + 1 {
                        let b = &log[j - 1];
                        let mut fs = vec![F::Intr, F::Short(1)];
                        match b.kind {
                            Kind::Write => fs.extend([F::Errno(libc::ENOSPC), F::Zero]),
                            Kind::Open => fs = vec![F::Intr, F::Errno(libc::EMFILE)],
                            _ => fs = hard(b.kind).into_iter().take(1).collect(),
                        }
                        if matches!(fa, F::Short(n) if n != 1) {
                            fs.truncate(2);
                        }
                        for fb in fs {
                            list.push((c, i, fa, j, fb));
                        }
                    }
                }
            }
        }
        ctx.group_w("pairs of faults", list.len(), mk, |root, k, t| {
            let (c, i, fa, j, fb) = list[k];
            run1(root, c, t, &|| format!("{fa:?} at operation {i}, {fb:?} at operation {j}"), {
                Box::new(move |o| {
                    let fits = |f: F| match f {
                        F::Short(n) => o.kind == Kind::Write && n < o.len,
                        F::Zero => o.kind == Kind::Write,
                        F::Intr => matches!(o.kind, Kind::Write | Kind::Open),
                        F::Errno(_) => true,
                    };
                    if o.seq == i && fits(fa) {
                        Some(fa)
                    } else if o.seq == j && fits(fb) {
                        Some(fb)
                    } else {
                        None
                    }
                })
            })
        });
        // streams to standard output: a process of its own for each run, because its buffer belongs to the process
        let so = stdout_cases();
        let mut srefs: Vec<(Tree, Vec<Op>)> = vec![];
        for c in 0..so.len() {
            let r = clean_of(&so[c], execute_child(c, &base.join("w000"), Spec::Never));
            let r = r.and_then(|r| {
                let n: usize = r.1.iter().filter(|o| o.kind == Kind::Write && o.path == STDOUT).map(|o| o.len).sum();
                let have = r.0[STDOUT].as_ref().map_or(0, |b| b.len());
                if n < have {
                    eprintln!("ENGINE ERROR: only {n} of {have} bytes went through the interposed operations");
                    std::process::exit(2);
                }
                so[c].check_finished(so[c].records(), &r.0, &r.0)?;
                Ok(r)
            });
            match r {
                Ok(r) => srefs.push(r),
                Err(e) => return ctx.violation(format!("standard output, undisturbed:{c}"), e),
            }
        }
        let mut list: Vec<(usize, Spec)> = vec![];
        for (c, (_, log)) in srefs.iter().enumerate() {
            for op in log {
                // standard output that is not open counts as one that swallows everything (Rust's standard library)
                let ok = |f: &F| !(op.path == STDOUT && *f == F::Errno(libc::EBADF));
                for f in hard(op.kind).into_iter().chain(soft(op)).filter(ok) {
                    if so[c].wide && !ctx.thorough() && ![F::Errno(libc::ENOSPC), F::Errno(libc::EPIPE), F::Short(1)].contains(&f) {
                        continue;
                    }
                    list.push((c, Spec::Once(op.seq, f)));
                    if f.hard() && (ctx.thorough() || [F::Errno(libc::ENOSPC), F::Errno(libc::EPIPE), F::Zero].contains(&f)) && !so[c].wide {
                        list.push((c, Spec::From(op.seq, f)));
                    }
                }
            }
            list.extend((0..STORMS).map(|k| (c, Spec::Storm(k))));
            if so[c].wide || so[c].streams.iter().any(|s| s.meta) {
                continue;
            }
            for a in log.iter().filter(|o| o.path == STDOUT) {
                for fa in soft(a) {
                    for m in a.seq + 1..log.len() + 1 {
                        for fb in [F::Errno(libc::EPIPE), F::Short(1)] {
                            if ctx.thorough() || m < a.seq + 4 {
                                list.push((c, Spec::Two(a.seq, fa, m, fb)));
                            }
                        }
                    }
                }
            }
        }
        ctx.group_w("standard output", list.len(), mk, |root, k, t| {
            let (c, spec) = list[k];
            let o = execute_child(c, root, spec);
            t.transitions += 1;
            t.traces += 1;
            if o.injected > 0 {
                t.states += 1;
            } else {
                t.skipped += 1;
            }
            t.sample(|| format!("{spec:?} in case {c}: {:?}", o.res));
            let op = match spec {
                Spec::Once(n, _) | Spec::From(n, _) | Spec::Two(n, ..) => o.log.get(n).cloned(),
                _ => None,
            };
            judge(&so[c], &srefs[c].0, &o).map_err(|e| format!("{e}\nfaults: {spec:?} at {op:?}\nresult {:?}\ncase {c}: {:?}", o.res, so[c]))
        });
        ctx.assume("faults are those a POSIX system may report: closing, syncing and reading the folder list are not made to fail");
    })
}
