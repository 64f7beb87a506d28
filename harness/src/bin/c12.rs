//! Process death at every operation on the file system, torn writes included: a child process per crash point.
#[path = "../hooks/io.rs"]
mod io;
use io::{Act, Kind, Op, Plan};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::Arc;
use vh::iocase::*;
use vh::*;

#[derive(Clone, Copy, Debug)]
enum Crash {
    Never,
    /// at this operation, after so many bytes of it
    Op(usize, usize),
    /// when this step begins
    Step(usize),
}
/// One run in this process; `crash` ends it
fn execute(c: &IoCase, root: &Path, crash: Crash) -> (Result<(), String>, Vec<Op>, usize) {
    let begun: StepCount = Arc::new(AtomicUsize::new(0));
    let b = begun.clone();
    let plan = Arc::new(Plan {
        root: root.to_string_lossy().into_owned(),
        log: Default::default(),
        decide: Box::new(move |op| match crash {
            Crash::Op(n, k) if n == op.seq => Act::Die(k),
            _ => Act::Go,
        }),
        die: Box::new(move || 10 + b.load(SeqCst) as i32),
    });
    io::start(plan.clone());
    let r = match crash {
        Crash::Step(n) => c.run_until(root, &begun, n),
        _ => c.run(root, &begun),
    };
    io::stop(&plan);
    let log = plan.log.lock().unwrap().clone();
    (r, log, begun.load(SeqCst))
}
fn child(spec: &str) -> ! {
    let w: Vec<&str> = spec.splitn(5, ' ').collect();
    let n = |i: usize| w[i].parse::<usize>().unwrap();
    let c = &cases()[n(0)];
    let root = Path::new(w[4]);
    if !w[1].ends_with('+') {
        c.prepare(root);
    }
    let (r, _, _) = execute(c, root, if w[1].starts_with("op") { Crash::Op(n(2), n(3)) } else { Crash::Step(n(2)) });
    unsafe { libc::_exit(if r.is_ok() { 0 } else { 1 }) }
}
fn clean(c: &IoCase, root: &Path) -> Result<(Tree, Vec<Op>), String> {
    c.prepare(root);
    let (r, log, steps) = execute(c, root, Crash::Never);
    if r.is_ok() != c.fail.is_none() || steps != c.steps() {
        return Err(format!("undisturbed run: {r:?}, {steps} steps\n{c:?}"));
    }
    let t = norm_tree(root);
    c.check_finished(c.records(), &t, &t)?;
    Ok((t, log))
}

fn main() {
    if let Ok(s) = std::env::var("VH_C12_CHILD") {
        child(&s);
    }
    vh::run("C12", |ctx| {
        ctx.set_level("fault_enumeration");
        ctx.note(
            "rule",
            "evaluations: runs of the real code in a process of their own that was ended at a crash point; distinct_nontrivial: crash points (operation boundary or number of bytes of a write that got through, or beginning of a step) at which the process really died",
        );
        let base = scratch();
        let exe = std::env::current_exe().unwrap();
        let cs = cases();
        let number = AtomicUsize::new(1);
        let mk = || -> PathBuf { base.join(format!("w{:03}", number.fetch_add(1, SeqCst))) };
        let mut refs: Vec<(Tree, Vec<Op>)> = vec![];
        for c in &cs {
            match guard(|| clean(c, &base.join("w000"))).and_then(|x| x) {
                Ok(r) => refs.push(r),
                Err(e) => return ctx.violation("undisturbed:0".into(), e),
            }
        }
        let mut points: Vec<(usize, Crash, Option<Op>)> = vec![];
        for (c, (_, log)) in refs.iter().enumerate() {
            for op in log {
                let last = if op.kind == Kind::Write { op.len } else { 1 };
                for n in 0..=last {
                    // every prefix of a record; of the long metadata text in the thorough tier only
                    if cs[c].wide && !(n == 0 || n == last / 2 && (ctx.thorough() || op.seq % 10 == 0)) {
                        continue;
                    }
                    if op.len > 200 && !ctx.thorough() && ![0, 1, 2, last / 3, last / 2, last - 2, last - 1, last].contains(&n) {
                        continue;
                    }
                    points.push((c, Crash::Op(op.seq, n), Some(op.clone())));
                }
            }
            for s in 1..=cs[c].steps() {
                points.push((c, Crash::Step(s), None));
            }
        }
        ctx.note("operations_observed", refs.iter().map(|r| r.1.len()).sum::<usize>());
        ctx.group_w("crash points", points.len(), mk, |root, k, t| {
            let (c, crash, op) = &points[k];
            let case = &cs[*c];
            let spec = match crash {
                Crash::Op(n, b) => format!("{c} op {n} {b} {}", root.display()),
                Crash::Step(n) => format!("{c} step {n} 0 {}", root.display()),
                Crash::Never => unreachable!(),
            };
            let st = Command::new(&exe)
                .env("VH_C12_CHILD", &spec)
                .stdin(Stdio::null())
                .stdout(Stdio::null())
                .stderr(Stdio::null())
                .status()
                .map_err(|e| format!("cannot start the child: {e}"))
                .unwrap();
            t.transitions += 1;
            let Some(code) = st.code().filter(|x| *x >= 10 && *x < 100) else {
                if st.code().is_some_and(|x| x < 2) {
                    // the operations of the child arrive in another order: nothing to check at this point
                    t.skipped += 1;
                    return Ok(());
                }
                return Err(format!("the process ended with {st:?} at {crash:?} {op:?}\n{case:?}"));
            };
            t.states += 1;
            t.traces += 1;
            let steps = code as usize - 10;
            t.sample(|| format!("case {c}: {crash:?} {op:?}: {} outputs finished", case.finished(steps)));
            case.check_finished(case.finished(steps), &refs[*c].0, &norm_tree(root))
                .map_err(|e| format!("{e}\nthe process died at {crash:?} {op:?}, in step {steps}\ncase {c}: {case:?}"))?;
            // starting over after the crash
            let (r, _, _) = execute(case, root, Crash::Never);
            t.transitions += 1;
            let say = |e: String| format!("{e}\nin a repetition of the run after the process had died at {crash:?} {op:?}\ncase {c}: {case:?}");
            if r.is_ok() != case.fail.is_none() {
                return Err(say(format!("unexpected result {r:?}")));
            }
            case.check_finished(case.records(), &refs[*c].0, &norm_tree(root)).map_err(say)
        });
        // dying twice: again in the run that follows the first crash
        let twice: &[usize] = ctx.pick(&[0], &[0, 1, 3, 5]);
        let mut pairs = vec![];
        for c in twice {
            let short: Vec<&(usize, Crash, Option<Op>)> = points
                .iter()
                .filter(|p| p.0 == *c)
                .filter(|p| match (&p.1, &p.2) {
                    (Crash::Op(_, n), Some(op)) => *n == 0 || *n == op.len / 2 || op.kind != Kind::Write,
                    _ => true,
                })
                .collect();
            for a in &short {
                for b in &short {
                    pairs.push((*c, a.1, b.1));
                }
            }
        }
        ctx.group_w("two crashes", pairs.len(), mk, |root, k, t| {
            let (c, a, b) = pairs[k];
            let case = &cs[c];
            let mut steps = None;
            for (n, crash) in [a, b].into_iter().enumerate() {
                let w = if n == 0 { "" } else { "+" };
                let spec = match crash {
                    Crash::Op(n, b) => format!("{c} op{w} {n} {b} {}", root.display()),
                    Crash::Step(n) => format!("{c} step{w} {n} 0 {}", root.display()),
                    Crash::Never => unreachable!(),
                };
                let st = Command::new(&exe)
                    .env("VH_C12_CHILD", &spec)
                    .stdin(Stdio::null())
                    .stdout(Stdio::null())
                    .stderr(Stdio::null())
                    .status()
                    .unwrap();
                t.transitions += 1;
                match st.code() {
                    Some(x) if (10..100).contains(&x) => steps = Some(x as usize - 10),
                    // the second run removes or keeps what the first has left: it may have fewer operations
                    Some(0 | 1) => steps = None,
                    _ => return Err(format!("the process ended with {st:?} at {crash:?}\n{case:?}")),
                }
            }
            t.states += 1;
            t.traces += 1;
            t.sample(|| format!("case {c}: {a:?} then {b:?}"));
            case.check_finished(steps.map_or(case.records(), |s| case.finished(s)), &refs[c].0, &norm_tree(root))
                .map_err(|e| format!("{e}\nthe process died at {a:?}, and when run again at {b:?}\ncase {c}: {case:?}"))
        });
        ctx.assume("what the process has handed to the operating system survives the death of the process (no power failure)");
    })
}
