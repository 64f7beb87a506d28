//! Small runs whose outputs become due at exactly known steps: the flux derivative is zero and the step is set by dt_max.
use crate::cfg::*;
use crate::probe::{set_hook, Probe};
use crate::sim::*;
use corries::prelude::*;
use std::path::Path;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::Arc;

#[derive(Clone, Debug)]
pub struct St {
    pub folder: &'static str,
    pub name: &'static str,
    pub vector: bool,
    pub csv: bool,
    pub clear: bool,
    pub meta: bool,
}
#[derive(Clone, Debug)]
pub struct IoCase {
    /// number of outputs after the one at t0
    pub outputs: usize,
    /// steps per output
    pub per: usize,
    /// fail in this step (counted from 1): the error dump follows
    pub fail: Option<usize>,
    pub streams: Vec<St>,
    /// the folders hold the files of a longer earlier run
    pub stale: bool,
    /// many cells and columns: a record does not fit into the usual buffers
    pub wide: bool,
    pub banner: bool,
    /// step control is asked for although this mode has none: a warning appears on standard output
    pub warn: Option<Rk>,
}
/// The folder name of a stream to standard output, which is a file of that name (see `redirect`)
pub const STDOUT: &str = "stdout";
pub type StepCount = Arc<AtomicUsize>;

pub fn st(folder: &'static str, name: &'static str, vector: bool, csv: bool, clear: bool, meta: bool) -> St {
    St { folder, name, vector, csv, clear, meta }
}
pub fn cases() -> Vec<IoCase> {
    let c = |outputs, per, fail, stale, streams: &[St]| IoCase { outputs, per, fail, streams: streams.to_vec(), stale, wide: false, banner: false, warn: None };
    vec![
        c(2, 2, None, false, &[st("a", "s", false, true, false, false)]),
        c(2, 1, None, false, &[st("a", "v", true, true, false, false)]),
        c(2, 2, None, false, &[st("a", "s", false, false, false, true), st("a", "v", true, false, false, true)]),
        c(2, 1, None, true, &[st("a/b/c", "s", false, true, true, true), st("d", "v", true, true, true, false)]),
        c(3, 2, Some(5), false, &[st("a", "s", false, true, false, false), st("b", "v", true, true, false, false)]),
        c(2, 1, None, true, &[st("a", "s", false, true, false, false), st("a/n", "v", true, false, true, true), st("b", "t", false, false, false, false)]),
        c(10, 1, None, false, &[st("a", "v", true, true, false, false), st("b", "s", false, true, false, false)]),
        c(2, 1, Some(1), true, &[st("a", "v", true, true, true, false), st("a/k", "s", false, true, true, false)]),
        IoCase { wide: true, ..c(1, 1, None, false, &[st("a", "v", true, true, false, false), st("b", "s", false, true, false, false)]) },
    ]
}
/// Scenarios with one stream to standard output
pub fn stdout_cases() -> Vec<IoCase> {
    let c = |outputs, per, fail, banner, streams: &[St]| IoCase { outputs, per, fail, streams: streams.to_vec(), stale: false, wide: false, banner, warn: None };
    vec![
        c(2, 2, None, false, &[st(STDOUT, "", false, true, false, false)]),
        c(2, 1, None, true, &[st(STDOUT, "", false, false, false, true)]),
        c(2, 1, None, true, &[st(STDOUT, "", true, false, false, false)]),
        c(2, 1, None, false, &[st(STDOUT, "", true, true, false, true), st("a", "s", false, true, false, false), st("b", "v", true, true, false, false)]),
        c(3, 2, Some(5), true, &[st("a", "s", false, true, false, false), st(STDOUT, "", false, true, false, false)]),
        IoCase { wide: true, ..c(1, 1, None, false, &[st(STDOUT, "", true, true, false, false)]) },
        c(2, 1, None, true, &[st("a", "v", true, true, false, true)]),
        IoCase { warn: Some(Rk::RK1), ..c(2, 1, None, true, &[st(STDOUT, "", false, true, false, false)]) },
        IoCase { warn: Some(Rk::RK2), ..c(2, 2, None, false, &[st(STDOUT, "", true, true, false, false), st("a", "s", false, true, false, true)]) },
        IoCase { warn: Some(Rk::RK4), ..c(2, 1, None, false, &[st("a", "s", false, true, false, false)]) },
    ]
}
/// Standard output of this process goes to a new file below `root`
pub fn redirect(root: &Path) {
    use std::os::fd::IntoRawFd;
    let fd = std::fs::File::create(root.join(STDOUT)).unwrap().into_raw_fd();
    unsafe {
        assert!(libc::dup2(fd, 1) == 1);
        libc::close(fd);
    }
}
impl IoCase {
    /// Evaluations of the right-hand side in a step; "steps" below are evaluations
    fn stages(&self) -> usize {
        match self.warn {
            Some(Rk::RK2) => 2,
            Some(Rk::RK4) => 4,
            _ => 1,
        }
    }
    pub fn steps(&self) -> usize {
        self.fail.map_or(self.outputs * self.per * self.stages(), |f| f)
    }
    /// Records that are complete once step number `begun` (counted from 1) has begun; 0: none has
    pub fn finished(&self, begun: usize) -> usize {
        match begun {
            0 => 0,
            b => (b - 1) / (self.per * self.stages()) + 1,
        }
    }
    /// Records of a whole run
    pub fn records(&self) -> usize {
        match self.fail {
            None => self.outputs + 1,
            Some(f) => self.finished(f) + 1,
        }
    }
    pub fn streams(&self, root: &Path) -> Vec<OutputConfig> {
        self.streams
            .iter()
            .map(|s| {
                let mut names = vec![DataName::T, DataName::Iter];
                if s.vector {
                    names = vec![DataName::Prim(0), DataName::XiCent];
                }
                if s.vector && self.wide {
                    names = vec![
                        DataName::XiCent, DataName::Prim(0), DataName::Cons(1), DataName::CSound,
                    ];
                }
                let mut o = file_stream(&root.join(s.folder), s.name, names);
                if s.folder == STDOUT {
                    o.stream_mode = StreamMode::Stdout;
                    o.folder_name = String::new();
                }
                o.precision = if self.wide { 17 } else { 3 };
                o.string_conversion_mode = if s.vector { ToStringConversionMode::Vector } else { ToStringConversionMode::Scalar };
                o.formatting_mode = if s.csv { FormattingMode::CSV } else { FormattingMode::TSV };
                o.should_clear_out_folder = s.clear;
                o.should_print_metadata = s.meta;
                o
            })
            .collect()
    }
    /// File names (relative) of one stream and whether it is a scalar one
    pub fn file(&self, s: &St, record: usize) -> String {
        let e = if s.csv { "csv" } else { "tsv" };
        if s.folder == STDOUT {
            STDOUT.to_string()
        } else if s.vector {
            let w = self.outputs.max(1).to_string().len();
            format!("{}/{}_{record:0w$}.{e}", s.folder, s.name)
        } else {
            format!("{}/{}.{e}", s.folder, s.name)
        }
    }
    pub fn prepare(&self, root: &Path) {
        let _ = std::fs::remove_dir_all(root);
        std::fs::create_dir_all(root).unwrap();
        std::fs::write(root.join("neighbour"), "not part of any output").unwrap();
        std::fs::create_dir(root.join("aa")).unwrap();
        std::fs::write(root.join("aa/s.csv"), "1,2\n").unwrap();
        if self.stale {
            for s in self.streams.iter().filter(|s| s.folder != STDOUT) {
                std::fs::create_dir_all(root.join(s.folder)).unwrap();
                for k in 0..self.records() {
                    std::fs::write(root.join(self.file(s, k)), "stale,line\n".repeat(40)).unwrap();
                }
            }
        }
    }
    /// Initialises and runs; `begun` counts the steps
    pub fn run(&self, root: &Path, begun: &StepCount) -> Result<(), String> {
        self.run_until(root, begun, usize::MAX)
    }
    /// As `run`, but the process ends when step number `end` begins
    pub fn run_until(&self, root: &Path, begun: &StepCount, end: usize) -> Result<(), String> {
        let fail = self.fail;
        let b = begun.clone();
        set_hook(move |_, d| {
            let n = b.fetch_add(1, SeqCst) + 1;
            if n == end {
                unsafe { libc::_exit(10 + n as i32) }
            }
            d.fill(0.0);
            if Some(n) == fail {
                color_eyre::eyre::bail!("the flux has failed")
            }
            Ok(())
        });
        let dt = 0.25;
        let c = C {
            ph: Ph::Iso,
            s: if self.wide { 104 } else { 6 },
            xi: (1.0, 1001.0),
            dt_max: dt,
            t_end: dt * (self.per * self.outputs) as f64,
            outputs: self.outputs,
            rk: self.warn.unwrap_or(Rk::RK1),
            asc: self.warn.map(|_| (0.001, 0.001, 0.08)),
            ..C::default()
        };
        let init = Init::uniform(Ph::Iso, c.s, (1.0, 0.0, 1.0), 1.0);
        let mut cfg = c.config_with(self.streams(root));
        cfg.print_banner = self.banner;
        let mut s: Box<dyn Sim> = if self.wide {
            Box::new(SimI::<Euler1DIsot<104>, Probe<2, 104>, 2, 104>::new(&cfg, &init).map_err(|e| format!("init: {e:#}"))?)
        } else {
            Box::new(SimI::<Euler1DIsot<6>, Probe<2, 6>, 2, 6>::new(&cfg, &init).map_err(|e| format!("init: {e:#}"))?)
        };
        s.run().map_err(|e| format!("run: {e:#}"))
    }
    /// What must be there once `done` records are finished: compares with the tree of an undisturbed run
    pub fn check_finished(&self, done: usize, clean: &Tree, have: &Tree) -> Result<(), String> {
        for s in &self.streams {
            for k in 0..done {
                let f = self.file(s, k);
                let want = clean.get(&f).cloned().flatten().ok_or(format!("{f} does not exist after an undisturbed run"))?;
                let have = have.get(&f).cloned().flatten().ok_or(format!("{f} is missing although {done} outputs were finished"))?;
                if s.folder == STDOUT {
                    let least = self.stdout_end(s, &want, done)?;
                    if have.len() < least || !want.starts_with(&have) {
                        return Err(format!(
                            "standard output does not have its {done} finished records, or is not the beginning of the undisturbed one: {:?}",
                            String::from_utf8_lossy(&have)
                        ));
                    }
                } else if s.vector {
                    if have != want {
                        return Err(format!("{f} is not the complete file of a finished output: {:?}", String::from_utf8_lossy(&have)));
                    }
                } else {
                    // header and the first `done` records
                    let ends: Vec<usize> = want.iter().enumerate().filter(|(_, b)| **b == b'\n').map(|(i, _)| i + 1).collect();
                    let least = *ends.get(done).ok_or(format!("{f} has too few records after an undisturbed run"))?;
                    if have.len() < least || !want.starts_with(&have) {
                        return Err(format!(
                            "{f} does not start with its {done} finished records, or is not the beginning of the undisturbed file: {:?}",
                            String::from_utf8_lossy(&have)
                        ));
                    }
                }
            }
        }
        for (n, c) in clean {
            if (n == "neighbour" || n.starts_with("aa")) && have.get(n) != Some(c) {
                return Err(format!("{n}, which belongs to no output, has changed"));
            }
        }
        Ok(())
    }
    /// Length of an undisturbed standard output up to the end of so many records
    fn stdout_end(&self, s: &St, want: &[u8], done: usize) -> Result<usize, String> {
        let ends: Vec<usize> = want.iter().enumerate().filter(|(_, b)| **b == b'\n').map(|(i, _)| i + 1).collect();
        // banner, warnings and metadata come first
        let header = if s.vector { 0 } else { 1 };
        let rows = if s.vector { 1 + if self.wide { 100 } else { 2 } } else { 1 };
        let n = header + rows * self.records();
        let first = ends.len().checked_sub(n).ok_or(format!("{} lines for {} records on an undisturbed standard output", ends.len(), self.records()))?;
        let left = n;
        Ok(ends[first + header + (left - header) / self.records() * done - 1])
    }
    /// Everything an undisturbed run leaves in its streams' files
    pub fn check_all(&self, clean: &Tree, have: &Tree) -> Result<(), String> {
        if clean == have {
            return Ok(());
        }
        for (n, c) in clean {
            if have.get(n) != Some(c) {
                let t = |x: Option<&Option<Vec<u8>>>| {
                    x.map(|x| x.as_ref().map(|b| (b.len(), String::from_utf8_lossy(b).chars().take(400).collect::<String>())))
                };
                return Err(format!("{n} is {:?} instead of {:?}", t(have.get(n)), t(Some(c))));
            }
        }
        let extra: Vec<_> = have.keys().filter(|k| !clean.contains_key(*k)).collect();
        Err(format!("surplus files {extra:?}"))
    }
}
pub type Tree = std::collections::BTreeMap<String, Option<Vec<u8>>>;

/// The tree with the name of its root in the contents (metadata) made neutral
pub fn norm_tree(root: &Path) -> Tree {
    let r = root.to_string_lossy().into_owned();
    let mut t = crate::scratch::tree(root);
    for c in t.values_mut().flatten() {
        if let Ok(s) = std::str::from_utf8(c) {
            if s.contains(&r) {
                *c = s.replace(&r, "ROOT").into_bytes();
            }
        }
    }
    t
}
